"""C25: results answer alike, by name and by definition."""
from effects import *
from engine import show
from itertools import combinations, product
import engine as E
from c02 import own
from c04 import where
from facts import AnalysisBroken

AV, AVS, PAS, PAB = 'argos::ArgumentValue', 'argos::ArgumentValues', 'argos::ParsedArguments', 'argos::ParsedArgumentsBuilder'
IAV = 'argos::IArgumentView'
RULE = """
(a) has, value, values, append, assign, clear and error of a result and of the builder given to callbacks work on the result they hold,
once, with the id that belongs to the name, or the id of the definition they are given, and with its argument id; what they return
holds the texts, the result and the ids. (b) The command, name, code, special option, unprocessed arguments, subcommands and definitions
a result shows are those stored in it, each once and in order; asking for a special option throws if there is none.
(c) Looking definitions up by value id gives exactly those with that id, by argument id one with that id or nothing. (d) Values and lists of
values keep what they are made from. (e) Filtering the arguments of main leaves the program name and the unprocessed arguments,
in order.
"""
EXPLAIN = """
path-sensitive interpretation of each function with the store of values as opaque calls; lists of definitions, results and arguments
are enumerated up to a small size with unknown elements
"""
ASSUME = ["the store of values is checked in C07 and C28", "lists longer than the bound (3 elements) behave like shorter ones"]


class Facade(Effects):
    def __init__(self, r, cls):
        Effects.__init__(self)
        self.r, self.cls = r, cls
        self.P = (('this', cls), own(r.p, cls))
        self.I = (('O', ('init', self.P)),)

    def on_call(self, eng, st, fr, nid, node, c):
        r, ref = self.r, c.ref
        rt = ref.get('t', '')
        if c.cls == r.PA and node.get('obj') and not ref.get('ctor'):
            a = tuple(c.rvs())
            if c.objplace() != self.I:
                self.note(eng, st, ('other', c.n, c.objplace()))
            if c.n in ('assign_value', 'append_value', 'clear_value'):
                self.note(eng, st, ('store', c.n[:-6]) + a)
                return ('val', ('f', 'stored'))
            if c.n == 'error':
                self.note(eng, st, ('error',) + a)
                return ('stop', 'error')
            if rt.endswith('ValueId') and c.nargs() == 1:
                return ('val', ('f', 'id', a[0]))
            if 'optional<std::pair<' in rt:
                s = st.copy()
                return ('states', [(st, ('some', ('tup', (('f', 'text', a[0]), ('f', 'aid', a[0]))))), (s, E.NONE)])
            if 'vector<std::pair<' in rt:
                return ('val', ('f', 'texts', a[0]))
            if c.n == 'has':
                return ('val', ('f', 'has', a[0]))
            return None
        if c.cls in (IAV, 'argos::ArgumentView', 'argos::OptionView') and c.n in ('value_id', 'argument_id'):
            return ('val', ('f', c.n, ('p', c.objplace())))
        if ref.get('ctor') and c.cls in (AV, AVS) and c.nargs() in (3, 4):
            return ('val', ('f', c.cls) + tuple(c.rvs()))
        return None


EMPTY = (('ilist', ()), ('empty',), E.NONE, ('tup', ()), ('c', 0), ('s', ''))


def arg(fn, i):
    return ('init', (('arg', fn['params'][i]['n']),))


class Check:
    def __init__(self, ctx):
        self.ctx, self.r, self.p, self.n = ctx, ctx.roles, ctx.roles.p, 0

    def run(self, fn, rule, **k):
        for o in self.ctx.run(fn, rule, **k):
            self.n += 1
            yield o

    def ok(self, good, rule, fn, msg, o, extra=''):
        return self.ctx.check(good, rule, '%s(%s)%s' % (fn['q'].split('::', 1)[-1], ', '.join(q['t'] for q in fn['params']), extra), msg,
                              where(o, fn), o.st.path())

    def absent(self, o, rule):
        """an exception because the object holds no result"""
        f = o.st.facts.get(('init', rule.P))
        return o.kind == 'throw' and f is not None and f[0] == '=' and f[1] in (E.NULL, E.FALSE, E.NONE)

    def members(self, cls):
        for m in self.p.cls(cls)['methods']:
            fn = self.p.fns.get(m['id'])
            if fn and m.get('access') == 'public' and not fn.get('ctor') and not m['n'].startswith(('operator', '~')) and fn.get('blocks'):
                yield fn


def accessors(c):
    got = set()
    for cls in (PAS, PAB):
        for fn in c.members(cls):
            if fn['n'] not in ('has', 'value', 'values', 'append', 'assign', 'clear', 'error'):
                continue
            ts = [q['t'] for q in fn['params']]
            view = [i for i, t in enumerate(ts) if 'IArgumentView' in t]
            rule = Facade(c.r, cls)
            if view:
                vid, aid = (('f', x, ('p', (('arg', fn['params'][view[0]]['n']),))) for x in ('value_id', 'argument_id'))
                aids = (aid, ('f', 'aid', vid))
            elif fn['n'] != 'error':
                vid = ('f', 'id', arg(fn, 0))
                aids = (('f', 'aid', vid),)
            impl = ('init', rule.P)
            kinds = set()
            for o in c.run(fn, rule):
                if c.absent(o, rule):
                    continue
                ev = o.st.ts or ()
                c.ok(not [e for e in ev if e[0] == 'other'], 'its own result', fn, 'it works on another result', o)
                v, w = o.val, [e for e in ev if e[0] in ('store', 'error')]
                n = fn['n']
                if n == 'error':
                    want = ('error', arg(fn, 0)) + ((aids[0],) if view else ())
                    c.ok(o.kind == 'error' and w == [want], 'error', fn, 'it does not report the message%s' % (
                        ' under the definition' if view else ''), o)
                    kinds.add(1)
                    continue
                if not c.ok(o.kind == 'ret', 'accessor', fn, 'it throws', o):
                    continue
                if n == 'has':
                    c.ok(v == ('f', 'has', vid) and not w, 'accessor', fn, 'it returns %s' % show(v), o)
                elif n == 'values':
                    c.ok(v == ('f', AVS, ('f', 'texts', vid), impl, vid) and not w, 'accessor', fn, 'it returns %s' % show(v), o)
                elif n == 'value':
                    good = v[:2] == ('f', AV) and len(v) == 6 and v[3:5] == (impl, vid) and not w
                    if good and v[2] in EMPTY:
                        kinds.add('none')
                    elif good:
                        kinds.add('some')
                        good = v[2] in (('some', ('f', 'text', vid)), ('f', 'text', vid)) and v[5] in aids
                    if good and view:
                        good = v[5] in aids
                    c.ok(good, 'accessor', fn, 'it returns %s' % show(v), o)
                else:
                    val = () if n == 'clear' else (arg(fn, 1),)
                    good = len(w) == 1 and w[0][:3] == ('store', n, vid) and w[0][3:3 + len(val)] == val
                    rest = w[0][3 + len(val):] if good else ()
                    good = good and (n == 'clear' and not rest or n != 'clear' and len(rest) == 1 and (
                        rest[0] == aids[0] if view else rest[0] in EMPTY))
                    c.ok(good, 'change', fn, 'it does %s' % (', '.join(' '.join(map(str, e[1:2] + tuple(map(show, e[2:])))) for e in w) or
                                                            'nothing'), o)
                    c.ok(v == ('p', rule.P[:1]), 'returns itself', fn, 'it returns %s' % show(v), o)
                kinds.add(1)
            if fn['n'] == 'value' and kinds >= {1}:
                c.ctx.check(kinds >= {'some', 'none'}, 'accessor', fn['q'] + ' outcomes',
                            'a value that is there, or one that is not, is not returned', '%s:%s' % (fn['file'], fn['line']))
            got.add((cls, fn['n'], bool(view)))
    c.ctx.floor('accessors by name and by definition', len(got), 18)


class Shown(Facade):
    limit = 20
    grow = byvalue = True

    def __init__(self, r, cls, sizes):
        Facade.__init__(self, r, cls)
        self.sizes = sizes

    def concrete(self, eng, place):
        return self.sizes.get(place)

    def keep_place(self, eng, pl, v):
        return True

    def keep_fact(self, eng, t):
        return True

    def on_call(self, eng, st, fr, nid, node, c):
        ref = c.ref
        if ref.get('ctor') and c.nargs() == 1 and c.cls in VIEWS and '*' in (ref.get('pt') or [''])[0]:
            return ('val', ('f', 'view', c.cls, c.rv(0)))
        if ref.get('ctor') and c.nargs() == 1 and c.cls == PAS and 'shared_ptr' in (ref.get('pt') or [''])[0]:
            return ('val', ('f', 'result', c.rv(0)))
        if c.n == 'make_unique' and any(t in VIEWS for t in node['fn'].get('ta') or ()) and c.nargs() == 1:
            t = [t for t in node['fn']['ta'] if t in VIEWS][0]
            return ('val', ('f', 'view', t, c.rv(0)))
        if c.cls == self.r.PA and c.n.startswith('get_'):
            return Facade.on_call(self, eng, st, fr, nid, node, c)
        return None


VIEWS = ('argos::ArgumentView', 'argos::OptionView', 'argos::CommandView')


def items(o, v):
    """the elements of a returned list"""
    for _ in range(3):
        if v and v[0] == 'p' and v[1] in o.st.store:
            v = o.st.store[v[1]]
    if v in (('empty',), ('ilist', ())):
        return []
    if v and v[0] == 'ilist':
        return [o.st.store.get(x[1], x) if x[0] == 'p' else x for x in v[1]]
    return None


def shown(c):
    r = c.r
    n = 0
    rule = Shown(r, PAS, {})
    IMPL = rule.I
    CMD = (('O', ('init', IMPL + (r.pa['command'],))),)
    stop = ('init', IMPL + (r.pa['stop'],))
    plain = {'command': ('f', 'view', 'argos::CommandView', ('init', IMPL + (r.pa['command'],))),
             'name': CMD + (r.cd['name'],), 'result_code': ('init', IMPL + (r.pa['code'],)),
             'stop_option': ('f', 'view', 'argos::OptionView', stop), 'unprocessed_arguments': IMPL + (r.pa['rest'],)}
    lists = {'subcommands': (IMPL + (r.pa['subs'],), 'result', None), 'all_arguments': (CMD + (r.cd['arguments'],), 'view', VIEWS[0]),
             'all_options': (CMD + (r.cd['options'],), 'view', VIEWS[1]), 'all_subcommands': (CMD + (r.cd['commands'],), 'view', VIEWS[2])}
    for fn in c.members(PAS):
        if fn['n'] in plain:
            n += 1
            want = plain[fn['n']]
            for o in c.run(fn, Shown(r, PAS, {})):
                if c.absent(o, rule):
                    continue
                if fn['n'] == 'stop_option' and o.kind == 'throw':
                    c.ok(o.st.facts.get(stop) == ('=', E.NULL), 'shown', fn, 'it throws although there is an option', o)
                    continue
                v = o.val
                if fn['n'] == 'stop_option':
                    f = o.st.facts.get(stop)
                    c.ok(f is not None and f != ('=', E.NULL), 'shown', fn, 'it returns no option instead of throwing', o)
                good = v == want or want[0][0] != 'f' and v in (('p', want), ('init', want))
                c.ok(o.kind == 'ret' and good, 'shown', fn, 'it returns %s' % show(v), o)
        elif fn['n'] in lists:
            n += 1
            L, kind, cls = lists[fn['n']]
            for k in range(4):
                for o in c.run(fn, Shown(r, PAS, {L: k})):
                    if c.absent(o, rule):
                        continue
                    got = items(o, o.val) if o.kind == 'ret' else None
                    if got is None and k == 0:
                        got = []
                    el = [('init', L + ('[%d]' % i,)) for i in range(k)]
                    good = got is not None and len(got) == k and all(
                        
                        (g[:2] == ('f', kind) and (cls is None or g[2] == cls) and g[-1] in (e, ('p', e[1]))) or g == e and cls is None
                        for g, e in zip(got, el))
                    c.ok(good, 'lists', fn, 'of %d elements it returns %s' % (
                        k, 'nothing' if got is None else ', '.join(map(show, got)) or 'none'), o, ', %d elements' % k)
    c.ctx.floor('functions that show a result', n, 8)


def lookups(c):
    r = c.r
    n = 0
    T = (('this', r.PA),)
    CMD = (('O', ('init', T + (r.pa['command'],))),)
    A, O = CMD + (r.cd['arguments'],), CMD + (r.cd['options'],)
    for fn in c.p.fns.values():
        if fn.get('cls') != r.PA or not fn.get('const') or len(fn['params']) != 1 or 'IArgumentView>' not in fn['rt'] or not fn.get('blocks'):
            continue
        many = 'vector' in fn['rt']
        key = r.ad['value_id'] if many else r.ad['argument_id']
        keyo = r.od['value_id'] if many else r.od['argument_id']
        for na, no in ((0, 0), (1, 0), (0, 1), (2, 1), (1, 2), (2, 2)):
            rule = Shown(r, PAS, {A: na, O: no})
            defs = [(VIEWS[0], ('init', A + ('[%d]' % i,)), key) for i in range(na)] + [
                (VIEWS[1], ('init', O + ('[%d]' % i,)), keyo) for i in range(no)]
            for o in c.run(fn, rule):
                n += 1
                eq = [equal(o, (('O', d[1]),) + (d[2],), arg(fn, 0)) for d in defs]
                want = [('f', 'view', d[0], d[1]) for d, e in zip(defs, eq) if e]
                if many:
                    got = items(o, o.val) if o.kind == 'ret' else None
                    if got is None and o.kind == 'ret' and not want and not defs:
                        got = []
                    good = got is not None and None not in eq and sorted(map(repr, norm(got))) == sorted(map(repr, want))
                    c.ok(good, 'look-up by value id', fn, 'it returns %s' % (', '.join(map(show, got or ())) or 'nothing'), o,
                         ', %d arguments, %d options' % (na, no))
                else:
                    v = norm([o.val])[0]
                    if v[0] == 'f':
                        good = v in want
                    else:
                        good = v in EMPTY + (E.NULL,) and not want and None not in eq
                    c.ok(o.kind == 'ret' and good, 'look-up by argument id', fn, 'it returns %s' % show(o.val), o,
                         ', %d arguments, %d options' % (na, no))
    c.ctx.floor('paths through look-ups of definitions', n, 20)


def norm(vs):
    return [v[:3] + (('init', v[3][1]) if v[3][0] == 'p' else v[3],) if v[:2] == ('f', 'view') else v for v in vs]


def equal(o, place, v):
    for k, f in o.st.facts.items():
        if k[0] == 'op' and k[1] in ('==', '!=') and {k[2], k[3]} == {('init', place), v}:
            true = f[0] == '=' and f[1] != E.FALSE or f[0] == '!=' and E.FALSE in f[1]
            return true == (k[1] == '==')
    return None


def constructors(c):
    n = 0
    for cls in (AV, AVS):
        for fn in c.p.fns.values():
            if fn.get('cls') != cls or not fn.get('ctor') or len(fn['params']) < 3 or not fn.get('blocks'):
                continue
            n += 1
            for o in c.run(fn, Effects(places=lambda pl: True)):
                for i, q in enumerate(fn['params']):
                    base = q['t'].replace('const ', '').replace('&', '').strip()
                    fs = [f['n'] for f in c.p.cls(cls)['fields'] if f['t'].replace('const ', '') == base]
                    if not fs:
                        fs = [f['n'] for f in c.p.cls(cls)['fields'] if base in f['t'] or f['t'] in base]
                    vals = [o.st.store.get((('this', cls), f)) for f in fs]
                    good = any(v is not None and (v == arg(fn, i) or E.contains(v, arg(fn, i))) for v in vals)
                    c.ok(o.kind == 'ret' and len(fs) == 1 and good, 'values keep what they are made from', fn, 'parameter %s is not kept' % q['n'], o,
                         ' ' + q['n'])
    c.ctx.floor('constructors of values', n, 2)


def filters(c):
    r = c.r
    fns = [f for f in c.members(PAS) if len(f['params']) == 2 and 'char **' in f['params'][1]['t']]
    n = 0
    for fn in fns:
        C, V = ((('arg', q['n']),) for q in fn['params'])
        ARGV = (('O', ('init', V)),)
        for argc in (0, 1, 2, 3, 4):
            for m in range(min(argc, 3) or 1):
                rule = Shown(r, PAS, {})
                U = rule.I + (r.pa['rest'],)
                rule.sizes[U] = m
                rule.exact[C] = ('c', argc)
                extra = ', %d arguments, %d unprocessed' % (argc, m)
                for o in c.run(fn, rule, args=[('ref', ('p', C)), ('ref', ('p', V))]):
                    if c.absent(o, rule) or argc <= 1 and not o.st.ts and o.kind == 'ret':
                        continue
                    n += 1
                    outs = [o.st.store.get(ARGV + ('[%d]' % i,), ('init', ARGV + ('[%d]' % i,))) for i in range(max(argc, 1))]
                    size = o.st.store.get(C, ('c', argc))
                    for names in texts(max(argc - 1, 0), m):
                        if not agrees(o, names, ARGV, U):
                            continue
                        words, rest = names
                        good = o.kind == 'ret' and size == ('c', m + 1 if argc else 0) and outs[0] == ('init', ARGV + ('[0]',))
                        for j in range(m):
                            w = outs[1 + j]
                            at = [i for i in range(argc - 1) if w == ('init', ARGV + ('[%d]' % (i + 1),))]
                            good = good and at and words[at[0]] == rest[j]
                        c.ok(bool(good), 'filtering', fn, 'of the arguments %s with %s unprocessed it leaves %s: %s' % (
                            ' '.join(words), ' '.join(rest) or 'none', show(size), ' '.join(map(show, outs[1:]))), o, extra)
    c.ctx.floor('paths through the filtering of arguments', n, 5)


def texts(n, m):
    """texts of n arguments and of m unprocessed ones that occur among them in this order"""
    out = set()
    for words in product('abc', repeat=n):
        for at in combinations(range(n), m):
            out.add((words, tuple(words[i] for i in at)))
    return sorted(out)


def agrees(o, names, ARGV, U):
    words, rest = names
    for k, f in o.st.facts.items():
        if k[0] == 'op' and k[1] in ('==', '!='):
            s = [text(x, words, rest, ARGV, U) for x in k[2:]]
            if None in s:
                continue
            true = f[0] == '=' and f[1] != E.FALSE or f[0] == '!=' and E.FALSE in f[1]
            if (s[0] == s[1]) != (true == (k[1] == '==')):
                return False
    return True


def text(v, words, rest, ARGV, U):
    if v[0] == 'init' and v[1][:-1] == ARGV:
        i = int(v[1][-1][1:-1]) if v[1][-1][1:-1].isdigit() else 0
        return words[i - 1] if 0 < i <= len(words) else None
    if v[0] == 'init' and v[1][:-1] == U and v[1][-1][1:-1].isdigit():
        i = int(v[1][-1][1:-1])
        return rest[i] if i < len(rest) else None
    return None


def check(ctx):
    c = Check(ctx)
    accessors(c)
    shown(c)
    lookups(c)
    constructors(c)
    filters(c)
    ctx.floor('paths', c.n, 100)
