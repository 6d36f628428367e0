"""C02: every setting stores exactly the value it is given."""
from harness import *
from effects import *
from engine import show
import engine as E
from c04 import where
from facts import AnalysisBroken

RULE = """
For every public setter of Argument, Option, Command and ArgumentParser: on every path that returns, the attribute the setter is
named for holds exactly the parameter (or the documented conversion of it), no other attribute has changed, and the object itself
is returned; it throws only for the documented values.  Every getter of the parser and of the views returns exactly that
attribute, and the lists of a command's view contain a view of every element, in order.  In the whole program no other function
writes an attribute that a setter sets, except the functions that copy or add definitions and, where the attribute is still
missing, the preparation of the definitions.
"""
EXPLAIN = """
Setters and getters are interpreted symbolically (all values at once; the few that treat special values differently also
from each of these); writers of the attributes are found by a query over every function of the program.
"""
ASSUME = ["std::to_string gives the decimal text of a number", "moving or copying a standard library value keeps it"]

TEXT = {'HELP': ('e', 'argos::TextId', 'HELP'), 'ABOUT': ('e', 'argos::TextId', 'ABOUT')}
PS, HS, CM = ('parser_settings',), ('help_settings',), ('command',)


def P(i=0):
    return lambda a: a[i]


def to_s(a):
    return ('f', 'to_string', a[0])


# class -> method -> (attribute, value); a method that is not listed sets the attribute of the same name to its parameter
SET = {
    'Argument': {},
    'Option': {
        'mandatory': (('optional',), lambda a: ('op', '!', a[0])),
    },
    'Command': {
        'help': (('texts', ('key', TEXT['HELP'])), P()),
        'about': (('texts', ('key', TEXT['ABOUT'])), P()),
        'text': (('texts', ('key', 0)), P(1)),
        'allow_multiple_subcommands': (('multi_command',), P()),
        'require_subcommand': (('require_subcommand',), lambda a: ('some', a[0])),
    },
    'ArgumentParser': {
        'about': (CM + ('texts', ('key', TEXT['ABOUT'])), P()),
        'text': (CM + ('texts', ('key', 0)), P(1)),
        'allow_multiple_subcommands': (CM + ('multi_command',), P()),
        'require_subcommand': (CM + ('require_subcommand',), lambda a: ('some', a[0])),
        'program_name': (CM + ('name',), P()),
        'current_section': (CM + ('current_section',), P()),
        'section': (CM + ('current_section',), P()),
        'stream': (HS + ('output_stream',), P()),
        'line_width': (HS + ('line_width',), P()),
        'version': (('version',), P()),
    },
}
OTHER = {'add', 'copy_from', 'parse', 'make_iterator', 'write_help_text', 'write_subcommand_help_text', 'move', 'release',
         'data', 'internal_ref'}
# scenarios: class, method, number of parameters, argument values, initial values, final values or None for an exception
N = lambda n: ('c', n)
SCEN = [
    ('Argument', 'optional', [E.TRUE], {'min_count': N(3)}, {'min_count': N(0)}),
    ('Argument', 'optional', [E.TRUE], {'min_count': N(0)}, {'min_count': N(0)}),
    ('Argument', 'optional', [E.FALSE], {'min_count': N(0)}, {'min_count': N(1)}),
    ('Argument', 'optional', [E.FALSE], {'min_count': N(1)}, {'min_count': N(1)}),
    ('Argument', 'optional', [E.FALSE], {'min_count': N(3)}, {'min_count': N(3)}),
    ('Argument', 'mandatory', [E.FALSE], {'min_count': N(3)}, {'min_count': N(0)}),
    ('Argument', 'mandatory', [E.FALSE], {'min_count': N(0)}, {'min_count': N(0)}),
    ('Argument', 'mandatory', [E.TRUE], {'min_count': N(0)}, {'min_count': N(1)}),
    ('Argument', 'mandatory', [E.TRUE], {'min_count': N(1)}, {'min_count': N(1)}),
    ('Argument', 'mandatory', [E.TRUE], {'min_count': N(3)}, {'min_count': N(3)}),
] + [('Argument', 'count', [N(n)], {}, {'min_count': N(n), 'max_count': N(n)} if n else None) for n in (0, 1, 2, 7)] + \
    [('Argument', 'count', [N(a), N(b)], {}, {'min_count': N(a), 'max_count': N(b)} if b and a <= b else None)
     for a in (0, 1, 2, 5) for b in (0, 1, 2, 5)]

VIEW = {
    'ArgumentView': {}, 'OptionView': {},
    'CommandView': {'alias': 'name'},
}


class Lists(Effects):
    """copies a list element by element"""
    views = ('argos::ArgumentView', 'argos::OptionView', 'argos::CommandView')

    def on_call(self, eng, st, fr, nid, node, c):
        if c.ref.get('n') == 'get_text' and not node.get('obj') and c.nargs() == 1:
            return ('val', ('f', 'text', c.raw(0)))
        if c.ref.get('ctor') and c.nargs() == 1 and c.cls in self.views and '*' in (c.ref.get('pt') or [''])[0]:
            return ('val', ('f', 'view', c.rv(0)))
        return None


def own(p, cls):
    return [f['n'] for f in p.cls(cls)['fields'] if '_ptr<' in f['t'] or '*' in f['t']][0]


def resolve(o, v):
    while v[0] == 'p' and v[1] in o.st.store and v[1][0][0] in 'LT':
        v = o.st.store[v[1]]
    return v


def final(o, place):
    v = o.st.store.get(place)
    if v is None:
        for n in range(len(place) - 1, 0, -1):
            b = o.st.store.get(place[:n])
            if b is not None:
                return ('part', b, place[n:])
        return ('init', place)
    return resolve(o, v)


def same(v, w):
    if v[0] == 'tup' and len(v[1]) == 1 and w[0] != 'tup':
        v = v[1][0]
    return v == w or w[0] == 'init' and v == ('p', w[1])


def as_bool(o, v, w):
    """v is the constant truth value that w has on this path"""
    if w[0] == 'some' and v[0] == 'some':
        v, w = v[1], w[1]
    neg = w[:2] == ('op', '!')
    f = o.st.facts.get(w[2] if neg else w)
    if v not in (E.TRUE, E.FALSE) or f not in (('=', E.TRUE), ('=', E.FALSE), ('!=', frozenset({E.FALSE}))):
        return False
    return (v == E.TRUE) == ((f != ('=', E.FALSE)) != neg)


def check(ctx):
    r = ctx.roles
    p = r.p
    fields = {}
    nset = 0
    for short, spec in SET.items():
        cls = 'argos::' + short
        T = (('this', cls), own(p, cls))
        D = (('O', ('init', T)),)
        impl = r.PD if short == 'ArgumentParser' else {'Argument': r.AD, 'Option': r.OD, 'Command': r.CD}[short]
        cf = {f['n'] for f in p.cls(impl)['fields']}
        psf = {f['n'] for f in p.cls('argos::ParserSettings')['fields']} if short == 'ArgumentParser' else set()
        for m in p.cls(cls)['methods']:
            fn = p.fns.get(m['id'])
            if not fn or m['n'].startswith(('operator', '~')) or m['n'] in OTHER or m.get('access') != 'public' or \
                    m.get('static') or m.get('const'):
                continue
            if m.get('ctor'):
                nset += ctor(ctx, r, short, m, fn, T, D)
                continue
            args = [('init', (('arg', q['n']),)) for q in fn['params']]
            key = '%s.%s(%s)' % (short, m['n'], ', '.join(m['pt']))
            sc = [s for s in SCEN if s[0] == short and s[1] == m['n'] and len(s[2]) == len(m['pt'])]
            if short == 'Option' and m['n'] == 'constant':
                t = E.strip_cv(m['pt'][0])
                want = {('constant',): to_s if t in ('int', 'long', 'long long', 'bool') else P()}
                if t == 'bool':
                    sc = [('Option', 'constant', [E.TRUE], {}, {'constant': ('f', 'to_string', N(1))}),
                          ('Option', 'constant', [E.FALSE], {}, {'constant': ('f', 'to_string', N(0))})]
            elif m['n'] == 'flag':
                want = {('flags',): lambda a: ('ilist', (a[0],))}
            elif m['n'] == 'count':
                want = {('min_count',): P(0), ('max_count',): P(len(args) - 1)}
            elif m['n'] == 'set_exit_codes':
                want = {PS + ('error_exit_code',): P(0), PS + ('normal_exit_code',): P(1)}
            elif m['n'] == 'add_word_splitting_rule':
                want = {HS + ('word_split_rules',): None}
            elif m['n'] in spec:
                want = {spec[m['n']][0]: spec[m['n']][1]}
            elif m['n'] in cf:
                want = {(m['n'],): P()}
            elif m['n'] in psf:
                want = {PS + (m['n'],): P()}
            elif sc:
                want = {(f,): None for s in sc for f in s[3]}
            else:
                raise AnalysisBroken('setter %s has no attribute of that name' % key)
            keyed = {}
            for f, v in want.items():
                f = tuple(('key', args[x[1]]) if isinstance(x, tuple) and x[0] == 'key' and x[1] == 0 else x for x in f)
                keyed[D + f] = v
            for f in keyed:
                fields.setdefault(impl if len(f) == len(D) + 1 else 'argos::' + {'parser_settings': 'ParserSettings',
                                  'help_settings': 'HelpSettings', 'texts': 'x', 'command': 'x'}[f[len(D)]], set()).add(f[-1])
            nset += 1
            # all values at once
            for o in ctx.run(fn, Effects(), setup=sizes({}, [T])):
                loc, path = where(o, fn), o.st.path()
                if o.kind == 'throw':
                    if m['n'] == 'option_style':
                        fs = o.st.facts
                        cur = ('init', D + PS + ('option_style',))
                        differs = any(k[0] == 'op' and k[1] == '==' and set(k[2:]) == {cur, args[0]} and
                                      f in (('=', E.FALSE),) or k[0] == 'op' and k[1] == '!=' and
                                      set(k[2:]) == {cur, args[0]} and f != ('=', E.FALSE) for k, f in fs.items())
                        ctx.check(differs, 'no undocumented exception', key, 'setting the same style again throws', loc, path)
                        opts = D + CM + (r.cd['options'],)
                        full = fs.get(('size', opts)) == ('!=', frozenset({E.FALSE})) or any(
                            E.contains(k, opts) for k in fs)
                        ctx.check(full, 'no undocumented exception', key, 'it throws although there are no options', loc, path)
                    else:
                        ctx.check(bool(sc), 'no undocumented exception', key, 'it throws', loc, path)
                    continue
                if o.kind != 'ret':
                    continue
                if m['n'] == 'option_style':
                    v = final(o, D + PS + ('option_style',))
                    eq = any(k[0] == 'op' and k[1] in ('==', '!=') and ('init', D + PS + ('option_style',)) in k and args[0] in k
                             for k in o.st.facts)
                    ctx.check(same(v, args[0]) or eq and v == ('init', D + PS + ('option_style',)), 'value stored', key,
                              'the attribute becomes %s' % show(v), loc, path)
                else:
                    for f, val in keyed.items():
                        if val is None:
                            if 'word_split_rules' in f:
                                ev = [e for e in o.st.ts or () if e[0] in ('add', 'del', 'w') and under(e[1], D)]
                                ok = len(ev) == 1 and appended(ev[0]) and len(appended(ev[0])) == 1 and \
                                    same(appended(ev[0])[0], args[0]) and ev[0][1] == f
                                ctx.check(ok, 'value stored', key, 'it does not append its parameter: %s' %
                                          '; '.join(map(show_ev, ev)), loc, path)
                            continue
                        if sc and len(args) == 1 and m['n'] == 'constant':
                            continue
                        v = final(o, f)
                        if m['n'] == 'flag':
                            ev = [e for e in o.st.ts or () if e[1] == f]
                            if len(ev) == 2 and (ev[0][0] == 'del' and ev[0][2] == 'clear' or ev[0][0] == 'w' and
                                                 ev[0][2] in (('empty',), ('ilist', ()))) and appended(ev[1]):
                                v = ('ilist', tuple(appended(ev[1])))
                        ctx.check(same(v, val(args)) or as_bool(o, v, val(args)), 'value stored', key, '%s becomes %s instead of %s' %
                                  (show(('p', f)), show(v), show(val(args))), loc, path)
                other(ctx, o, fn, key, D, T, set(keyed))
                ctx.check(o.val == ('p', T[:1]), 'result', key, 'it does not return the object itself', loc, path)
            # special values
            for s in sc:
                exact = {D + (f,): v for f, v in s[3].items()}
                k2 = '%s with %s%s' % (key, ', '.join(show(x) for x in s[2]),
                                       ''.join(', %s = %s' % (f, show(v)) for f, v in s[3].items()))
                for o in ctx.run(fn, Effects(exact=exact), args=[('val', x) for x in s[2]], setup=sizes({}, [T])):
                    loc, path = where(o, fn), o.st.path()
                    if s[4] is None:
                        ctx.check(o.kind == 'throw', 'invalid values are rejected', k2, 'it is accepted', loc, path)
                        bad = [e for e in o.st.ts or () if e[0] in ('w', 'add', 'del') and under(e[1], D)]
                        ctx.check(not bad, 'a rejected value changes nothing', k2, '; '.join(map(show_ev, bad)), loc, path)
                        continue
                    if not ctx.check(o.kind == 'ret', 'no undocumented exception', k2, 'it throws', loc, path):
                        continue
                    for f, want_v in s[4].items():
                        v = final(o, D + (f,))
                        if v == ('init', D + (f,)):
                            v = exact.get(D + (f,), v)
                        ctx.check(same(v, want_v) or want_v[0] == 'f' and v == ('s', str(want_v[2][1])), 'value stored', k2,
                                  '%s becomes %s instead of %s' % (f, show(v), show(want_v)), loc, path)
                    other(ctx, o, fn, k2, D, T, {D + (f,) for f in s[4]})
    ctx.floor('setters and constructors', nset, 60)
    ng = getters(ctx, r)
    nw = writers(ctx, r, fields)
    ctx.sample('%d setters and constructors with parameters, %d getters, %d writes of attributes elsewhere' % (nset, ng, nw))


def other(ctx, o, fn, key, D, T, ok):
    bad = [e for e in o.st.ts or () if e[0] in ('w', 'add', 'del') and (under(e[1], D) or under(e[1], T[:1])) and
           not any(under(e[1], f) for f in ok) and not (e[0] == 'w' and e[2] == ('init', e[1]))]
    ctx.check(not bad, 'nothing else changed', key, 'it also does: %s' % '; '.join(map(show_ev, bad)), where(o, fn), o.st.path())


def ctor(ctx, r, short, m, fn, T, D):
    if m['ctor'] in ('copy', 'move') or not m['pt']:
        return 0
    key = '%s(%s)' % (short, ', '.join(m['pt']))
    args = [('init', (('arg', q['n']),)) for q in fn['params']]
    want = {'Argument': ('name',), 'Option': ('flags',), 'Command': ('name',), 'ArgumentParser': CM + ('name',)}[short]
    for o in ctx.run(fn, Effects(places=lambda p: True)):
        if o.kind != 'ret':
            ctx.check(False, 'constructor', key, 'it throws', where(o, fn), o.st.path())
            continue
        v = final(o, T)
        if not ctx.check(v[0] == 'p', 'constructor', key, 'no attributes are created', where(o, fn), o.st.path()):
            continue
        f = v[1] + want
        w = final(o, f)
        ev = [e for e in o.st.ts or () if e[0] in ('w', 'add', 'del') and under(e[1], v[1]) and len(e[1]) > len(v[1])]
        if short == 'Option':
            add = [appended(e) for e in ev if e[0] == 'add' and e[1] == f]
            flat = [x for a in add for x in (a or (E.TOP,))]
            lst = len(args) == 1 and 'initializer_list' in m['pt'][0]
            ok = (same(w, args[0]) or w == ('f', 'copy', args[0])) if lst and not add else \
                len(add) == len(args) and all(same(a, b) for a, b in zip(flat, args)) or \
                w == ('ilist', tuple(args)) or w == ('tup', tuple(args))
        elif short == 'ArgumentParser':
            ok = same(w, args[0]) or E.contains(w, args[0])
            e = o.st.facts.get(args[1]) if len(args) > 1 else None
            if e == ('=', E.FALSE):
                ok = same(w, args[0])
        else:
            ok = same(w, args[0])
        ctx.check(ok, 'constructor', key, '%s becomes %s' % (want[-1], show(w)), where(o, fn), o.st.path())
        bad = [e for e in ev if not under(e[1], f) and any(E.contains(e, a) for a in args)]
        ctx.check(not bad, 'nothing else changed', key, '; '.join(map(show_ev, bad)), where(o, fn), o.st.path())
    return 1


LISTS = {'arguments': 'arguments', 'options': 'options', 'subcommands': 'commands'}


def getters(ctx, r):
    p = r.p
    n = 0
    for short, src in (('ArgumentView', r.AD), ('OptionView', r.OD), ('CommandView', r.CD), ('ArgumentParser', r.PD)):
        cls = 'argos::' + short
        T = (('this', cls), own(p, cls))
        D = (('O', ('init', T)),)
        cf = {f['n'] for f in p.cls(src)['fields']}
        psf = {f['n'] for f in p.cls('argos::ParserSettings')['fields']}
        for m in p.cls(cls)['methods']:
            fn = p.fns.get(m['id'])
            if not fn or not m.get('const') or m.get('access') != 'public' or m['n'] in OTHER or m['n'].startswith('operator') \
                    or m['pt']:
                continue
            key = '%s.%s()' % (short, m['n'])
            n += 1
            for o in ctx.run(fn, Lists(), setup=sizes({}, [T])):
                loc, path = where(o, fn), o.st.path()
                if not ctx.check(o.kind == 'ret', 'getter', key, 'it throws', loc, path):
                    continue
                bad = [e for e in o.st.ts or () if e[0] in ('w', 'add', 'del') and e[1][0][0] not in 'LTH']
                ctx.check(not bad, 'getter changes nothing', key, '; '.join(map(show_ev, bad)), loc, path)
                v = resolve(o, o.val)
                if short == 'CommandView' and m['n'] in LISTS:
                    S = D + (r.cd[LISTS[m['n']]],)
                    fa = foralls(o.st.ts, S)
                    el = ('init', S + ('[]',))
                    adds = [[e for e in x if e[0] == 'add'] for x in fa if x is not None]
                    ok = len(fa) >= 1 and (v == ('empty',) and None in fa and not [e for e in o.st.ts if e[0] == 'add'] or
                                           v != ('empty',) and len(adds) == 1 and len(adds[0]) == 1 and
                                           E.contains(adds[0][0], el)) or v == ('f', 'range', S) or \
                        v[0] == 'empty' and o.st.facts.get(('size', S)) == ('=', E.FALSE)
                    ctx.check(ok, 'lists of views', key, 'not exactly one view per element: %s' %
                              '; '.join(show_ev(e) for e in o.st.ts or ()), loc, path)
                    continue
                if m['n'] == 'help':
                    if short == 'CommandView':
                        none = v == ('s', '') or v == ('empty',)
                        ok = none or v[0] == 'f' and v[1] == 'text' and E.contains(v, TEXT['HELP']) and \
                            E.contains(v, D + (r.cd['texts'],))
                        if none:
                            found = [f for k, f in o.st.facts.items() if E.contains(k, TEXT['HELP'])]
                            ok = bool(found)
                    else:
                        ok = v == ('f', 'text', ('p', D + ('help',)))
                    ctx.check(ok, 'getter', key, 'it returns %s' % show(v), loc, path)
                    continue
                if short == 'ArgumentView' and m['n'] == 'optional':
                    continue
                if m['n'] == 'count':
                    ok = v[0] == 'tup' and [x for x in leaves(v[1])] == [('init', D + ('min_count',)), ('init', D + ('max_count',))]
                    ctx.check(ok, 'getter', key, 'it returns %s' % show(v), loc, path)
                    continue
                if short == 'CommandView' and m['n'] in ('value_id', 'require_subcommand'):
                    if m['n'] == 'require_subcommand':
                        F = D + ('require_subcommand',)
                        ok = v in (('init', F + ('opt',)), E.FALSE) or E.contains(v, F)
                        ctx.check(ok, 'getter', key, 'it returns %s' % show(v), loc, path)
                    continue
                if short == 'ArgumentParser':
                    f = SET[short][m['n']][0] if m['n'] in SET[short] else PS + (m['n'],) if m['n'] in psf else (m['n'],)
                else:
                    f = (VIEW[short].get(m['n'], m['n']),)
                if f[-1] not in cf | psf and len(f) == 1:
                    raise AnalysisBroken('getter %s has no attribute of that name' % key)
                ctx.check(v in (('p', D + f), ('init', D + f)), 'getter', key, 'it returns %s' % show(v), loc, path)
            if short == 'ArgumentView' and m['n'] == 'optional':
                for k in (0, 1, 2):
                    for o in ctx.run(fn, Lists(exact={D + ('min_count',): N(k)}), setup=sizes({}, [T])):
                        ctx.check(o.kind == 'ret' and o.val == (E.FALSE if k else E.TRUE), 'getter', key,
                                  'with a minimum of %d it returns %s' % (k, show(o.val)), where(o, fn), o.st.path())
    ctx.floor('getters', n, 40)
    return n


READ = {'begin', 'end', 'rbegin', 'rend', 'find', 'at', 'front', 'back', 'data', 'get', 'operator->', 'operator*', 'value',
        'operator bool', 'operator()', 'cbegin', 'cend', 'lower_bound', 'upper_bound', 'equal_range', 'c_str', 'size',
        'empty', 'contains', 'count', 'operator[]'}


def target(nodes, i):
    n = nodes[i]
    while n['k'] in ('cast', 'paren') and n.get('a') is not None:
        n = nodes[n['a']]
    return n


def attribute_writes(p, fields, data):
    """(function, node, class, attribute) of every direct write of an attribute"""
    for f in p.fns.values():
        if f.get('ctor') and f.get('cls') in data or f['n'] == 'operator=' and f.get('cls') in data:
            continue
        for nid, n in enumerate(f['nodes']) if isinstance(f['nodes'], list) else f['nodes'].items():
            if not n:
                continue
            t = None
            if n['k'] == 'asg':
                t = target(f['nodes'], n['a'])
            elif n['k'] == 'call' and n.get('obj') and not n['fn'].get('const') and \
                    (n['fn']['n'] not in READ or n['fn']['n'] == 'operator[]' and 'map' in (n['fn'].get('cls') or '')):
                t = target(f['nodes'], n['obj'])
            elif n['k'] == 'un' and n.get('op') in ('++', '--'):
                t = target(f['nodes'], n['x'])
            if t and t['k'] == 'mem' and t.get('cls') in data and t['f'] in fields.get(t['cls'], ()):
                yield f, n, t['cls'], t['f']


def writers(ctx, r, fields):
    """who else writes an attribute"""
    from callgraph import Graph
    p = r.p
    data = {r.AD, r.OD, r.CD, r.PD, 'argos::ParserSettings', 'argos::HelpSettings'}
    fields = {k: set(v) for k, v in fields.items() if k in data}
    fields.setdefault(r.CD, set()).update(('texts', 'multi_command', 'require_subcommand', 'name', 'current_section'))
    fields.setdefault(r.OD, set()).update(('flags', 'constant', 'optional'))
    fields.setdefault(r.AD, set()).update(('min_count', 'max_count'))
    fields['argos::ParserSettings'] |= {'error_exit_code', 'normal_exit_code'}
    ctx.floor('attributes', sum(map(len, fields.values())), 35)
    handles = {'argos::Argument', 'argos::Option', 'argos::Command', 'argos::ArgumentParser'}
    g = Graph(p)
    # functions only ever called from functions that may write
    ok = {i for i, f in p.fns.items() if f.get('cls') in handles and f['n'] not in OTHER or
          f.get('cls') in data and (f['n'] in ('add', 'copy_from') or f.get('ctor') or f['n'] == 'operator=')}
    guarded = {}
    n = 0
    fin = [f for f in p.fns.values() if f['n'] == 'finish_initialization' or
           f.get('cls') == 'argos::ArgumentParser' and f['n'] in ('parse', 'make_iterator') and not f.get('const')]
    callers = {}
    for i, outs in g.out.items():
        for j in outs:
            callers.setdefault(j, set()).add(i)
    while True:
        more = {j for j in callers if j not in ok and j in p.fns and callers[j] <= ok and p.fns[j].get('cls') not in handles}
        if not more:
            break
        ok |= more
    hits = list(attribute_writes(p, fields, data))
    for f, node, cls, a in hits:
        n += 1
        ctx.seen(f)
        if f['id'] in ok:
            ctx.ob('written by a setter or a copying function')
            continue
        guarded.setdefault(f['id'], []).append((cls, a))
    need = set(guarded)
    # preparation: only where the attribute is missing, or in a new object
    roots = {}
    for i in need:
        up = g.reach_to({i}) if hasattr(g, 'reach_to') else set()
        roots[i] = [f for f in fin if f['id'] in up or f['id'] == i]
        f = p.fns[i]
        if f['n'] == 'make_copy' or not roots[i]:
            fresh = only_new(ctx, p, f)
            for cls, a in guarded[i]:
                ctx.check(fresh, 'no other writer', '%s writes %s' % (f['q'], a),
                          '%s::%s is written outside the setters' % (cls, a), f.get('loc', f['q']))
    hit = {a for i in need for cls, a in guarded[i]} | {'operation'}
    for i in sorted(need, key=lambda i: p.fns[i]['q']):
        if not roots[i] or p.fns[i]['n'] == 'make_copy':
            continue
        # a function that does not test what it overwrites may be called by one that does
        level, inl, bad = {i}, {i}, {}
        for up in range(4):
            bad, nxt = {}, set()
            for j in sorted(level, key=lambda j: p.fns[j]['q']):
                rule = Completion(fields, data, inl, hit)
                ctx.run(p.fns[j], rule)
                ctx.ob('completion only of missing values', rule.n)
                if rule.bad:
                    bad.update({(p.fns[j]['q'],) + k: v for k, v in rule.bad.items()})
                    nxt |= callers.get(j, set())
                    if not callers.get(j):
                        nxt = set()
                        break
            if not bad or not nxt:
                break
            inl |= level
            level = nxt
        for (q, cls, a, how), (loc, path) in bad.items():
            ctx.fail('completion only of missing values', '%s: %s' % (p.fns[i]['q'], a),
                     'preparing the definitions overwrites %s although it may have been set (%s)' % (a, how), loc, path)
    return n


def only_new(ctx, p, f):
    class Direct(Effects):
        def inline(self, eng, fn):
            return False
    for o in ctx.run(f, Direct()):
        if any(e[0] in ('w', 'add', 'del') and e[1][0][0] not in ('H', 'L', 'T') for e in o.st.ts or ()):
            return False
    return True


def strings(t):
    if isinstance(t, str):
        yield t
    elif isinstance(t, (tuple, frozenset)):
        for x in t:
            yield from strings(x)


class Completion(E.Rule):
    """writes of attributes of existing objects happen only where the attribute is known to be missing"""
    track_loops = True

    def __init__(self, fields, data, inl, hit):
        self.inl, self.hit = inl, hit
        self.names = set().union(*fields.values())
        self.bad, self.n = {}, 0

    def inline(self, eng, fn):
        return fn['id'] in self.inl

    def keep_fact(self, eng, t):
        return any(x in self.hit for x in strings(t))

    def keep_place(self, eng, pl, v):
        return False

    def on_call(self, eng, st, fr, nid, node, c):
        if c.n == 'release' and not c.nargs() and (c.cls or '').startswith('argos::'):
            return ('val', ('p', (('H', 'released', nid),)))
        return None

    def on_write(self, eng, st, fr, place, val, node):
        a = place[-1]
        if place[0][0] in ('L', 'T', 'H') or a not in self.names or not isinstance(a, str):
            return
        cls = ''
        self.n += 1
        fs = st.facts
        init = ('init', place)
        f = fs.get(init, ('', None))
        old = ('=', E.FALSE) in (fs.get(('size', place)), fs.get(('f', 'size', init))) or \
            f[0] == '=' and (f[1] in (E.FALSE, E.NULL, E.NONE) or f[1][0] == 's') or \
            any(k[:2] == ('op', '==') and init in k[2:] and any(x[0] == 's' for x in k[2:]) and v in (('=', E.TRUE), ('!=', frozenset({E.FALSE})))
                for k, v in fs.items())
        if a == 'constant' and not old:
            op = place[:-1] + ('operation',)
            old = fs.get(('init', op)) == ('=', ('e', 'argos::OptionOperation', 'CLEAR'))
        if not old:
            self.bad.setdefault((cls, a, E.show(val)), (fr.loc(node), st.path()))
