"""C33: automatic help and version options."""
from itertools import product
from harness import *
from effects import *
from engine import show
import engine as E
from c04 import where
from c31 import Names
from callgraph import Graph
from facts import AnalysisBroken

RULE = """
Preparing a command appends a help option to its options if and only if the setting for it is on, the command has no option of
type HELP, and one of the flags of the style is unused: -h and --help for the standard style (whichever is unused), /? for the
slash style, -h or else -help for the dash style.  Preparing the parser appends a version option to the top-level command,
before it is prepared, if and only if there is a version text and --version, /VERSION or -version is unused.  The options have
type HELP and STOP, the constant "1", the section that was current, nothing else that differs from a new option but texts, and
the version option's callback prints the program name and the version to the parser's stream or, if there is none, standard
output.  A flag counts as used if it is equal to a flag of any option of the command under the case setting.
"""
EXPLAIN = """
Both preparation functions are interpreted for each style, setting, stream and each of several lists of options; whether a flag is
used is an unknown truth value, and the function that finds it out is interpreted on its own.
"""
ASSUME = ["lists of options longer than two are searched like those of two"]

STD, SLASH, DASH = 'STANDARD', 'SLASH', 'DASH'


class Prepare(Effects):
    """calls of other parts of the preparation are recorded, the search for a used flag is an unknown truth value"""

    def __init__(self, ctx, L, count, entry, **k):
        Effects.__init__(self, places=lambda pl: pl[0][0] != 'B', **k)
        r = ctx.roles
        self.L, self.count, self.r, self.entry = L, count, r, entry
        ids = [f['id'] for f in r.p.fns.values() if f.get('cls') == 'argos::Option' and f.get('ctor')]
        ids += [f['id'] for f in r.p.fns.values() for x in f['nodes'].values() if x['k'] == 'call' and
                x.get('fn', {}).get('n') == 'make_unique' and any(r.OD in t for t in x['fn'].get('ta') or ())]
        self.makes = set(Graph(r.p).reach_to(ids))
        self.problem = {}

    def on_write(self, eng, st, fr, place, val, node):
        while val[0] == 'p' and val[1][0][0] in 'TL' and eng.load(st, val[1]) != val:
            val = eng.load(st, val[1])
        Effects.on_write(self, eng, st, fr, place, val, node)

    def concrete(self, eng, pl):
        return self.count if pl == self.L else None

    def inline(self, eng, fn):
        return fn['id'] == self.entry['id'] or fn.get('cls') in ('argos::Option', self.r.OD) or \
            fn['id'] in self.makes and not self.other(fn) or self.search(fn) or 'operator()' in fn['n'] or \
            fn['rt'] in ('bool', 'std::string', 'std::vector<std::string>', 'std::ostream &', 'std::ostream *') or \
            not any(p['t'].startswith(('argos::', 'const argos::')) for p in fn['params']) and fn['rt'] != 'void'

    def other(self, fn):
        """another part of the preparation"""
        return len(fn['params']) > 1 and fn['n'] == self.entry['n'] and fn['id'] != self.entry['id']

    def search(self, fn):
        return fn['rt'] == 'bool' and any('CommandData' in p['t'] for p in fn['params']) and len(fn['params']) == 1

    def on_call(self, eng, st, fr, nid, node, c):
        ref = c.ref
        fn = eng.p.fns.get(ref.get('id'))
        pt = ref.get('pt') or []
        if ref.get('t') == 'bool' and 'CommandData' in ' '.join(pt[:1]) + (c.cls or '') and \
                any('basic_string' in t or 'char' in t for t in pt):
            vals = c.rvs()
            flag = [v for v in vals if v[0] == 's']
            places = [c.raw(i) for i in range(c.nargs())] + ([('p', c.objplace())] if node.get('obj') else [])
            cmd = ('p', self.L[:-1])
            # the setting that decides: all settings, or the one
            S = self.settings
            ok = cmd in places and len(flag) == 1
            if not ok:
                self.problem['search'] = (fr.loc(node), 'a flag is not looked for in the command that is prepared')
            if not any(p in (('p', S), ('init', S)) or v == ('init', S + ('case_insensitive',)) for p, v in
                       zip(places, vals + [E.TOP])):
                self.problem['settings'] = (fr.loc(node), "a flag is looked for with other settings than the parser's own")
            self.searches.add((ref.get('id'), tuple(pt)))
            if not flag:
                return ('val', E.TOP)
            out = []
            for b in (True, False):
                s = st.copy()
                old = [e[2] for e in s.ts or () if e[0] == 'hasflag' and e[1] == flag[0]]
                if old and old[0] != b:
                    continue
                self.note(eng, s, ('hasflag', flag[0], b))
                out.append((s, E.TRUE if b else E.FALSE))
            return ('states', out)
        if c.n == 'operator<<' and c.nargs() == 2 or c.n == 'operator<<' and node.get('obj'):
            a = c.raw(0) if c.nargs() == 2 else ('p', c.objplace())
            v = c.rv(1) if c.nargs() == 2 else c.rv(0)
            st.ts = (st.ts or ()) + (('out', a, v),)
            return ('val', a)
        if c.n in ('write', 'put', 'print', 'printf', 'puts') and not fn:
            st.ts = (st.ts or ()) + (('out', ('p', c.objplace()) if node.get('obj') else E.TOP, c.rv(0)),)
        if fn and not self.inline(eng, fn):
            self.note(eng, st, ('call', c.n, tuple(c.raw(i) for i in range(c.nargs()))))
            if fn['rt'] == 'void' or fn['rt'].startswith('std::pair'):
                return ('val', E.TOP)
        return None


def resolve(eng_st, v):
    while v[0] == 'p' and v[1] in eng_st.store and v[1][0][0] in 'TL':
        v = eng_st.store[v[1]]
    return v


def flags_of(o, H, L):
    v = ([e[2] for e in o.st.ts or () if e[0] == 'w' and e[1] == H + ('flags',)] or [E.TOP])[-1]
    if v[0] == 'ilist':
        return leaves([v])
    out = []
    for e in o.st.ts or ():
        if e[0] == 'add' and e[1] != L and e[2] in ('push_back', 'emplace_back') and len(e) == 4:
            out.append(e[3])
    return out


def check(ctx):
    r = ctx.roles
    p = r.p
    prep = [f for f in p.fns.values() if f['params'] and f['params'][0]['t'] in ('argos::CommandData &', 'argos::ParserData &')
            and f['n'] == 'finish_initialization']
    cmdf = [f for f in prep if 'CommandData' in f['params'][0]['t'] and len(f['params']) > 1]
    datf = [f for f in prep if len(f['params']) == 1]
    if len(cmdf) != 1 or len(datf) != 1:
        raise AnalysisBroken('cannot identify the functions that prepare a parser')
    searches = set()
    n = help_option(ctx, r, cmdf[0], searches)
    m = version_option(ctx, r, datf[0], searches)
    ctx.floor('outcomes of preparing a command', n, 60)
    ctx.floor('outcomes of preparing a parser', m, 20)
    k = used(ctx, r, searches)
    ctx.sample('%d outcomes of preparing a command, %d of preparing a parser, %d of the search for a flag' % (n, m, k))


def added(o, L):
    return [e for e in o.st.ts or () if e[0] in ('add', 'del', 'w') and e[1] == L]


def option(ctx, r, o, ev, want, section, key, loc, path, typ, L, extra=()):
    """the option that is added: flags and other fields"""
    vs = appended(ev)
    if not vs or len(vs) != 1 or vs[0][0] != 'p':
        ctx.check(False, 'added option', key, 'it is not the new option that is appended', loc, path)
        return None
    H = vs[0][1]
    got = flags_of(o, H, L)
    ctx.check(got == [('s', x) for x in want], 'flags', key, 'the flags are %s instead of %s' %
              (' '.join(show(x) for x in got) or 'none', ' '.join(want)), loc, path)
    st = o.st.store
    f = lambda x: resolve(o.st, st.get(H + (r.od[x],), st.get(H + (x,), E.TOP)))
    for x, val in (('type', ('e', 'argos::OptionType', typ)), ('constant', ('s', '1')),
                   ('section', section),
                   ('operation', ('e', 'argos::OptionOperation', 'ASSIGN')),
                   ('visibility', ('e', 'argos::Visibility', 'NORMAL')), ('optional', E.TRUE)):
        v = f(x)
        ctx.check(v == val, 'fields', '%s, %s' % (key, x), 'its %s is %s' % (x, show(v)), loc, path)
    for x in ('alias', 'argument', 'initial_value') + (() if extra else ('callback',)):
        v = st.get(H + (x,))
        ctx.check(v is None or v in (('s', ''), E.NULL, ('empty',)), 'fields', '%s, %s' % (key, x), 'its %s is set' % x, loc, path)
    return f('callback')


def help_option(ctx, r, fn, searches):
    n = 0
    cp, dp = fn['params'][0]['n'], fn['params'][1]['n']
    L = (('arg', cp), r.cd['options'])
    S = (('arg', dp), 'parser_settings')
    for style, gen, opts in product((STD, SLASH, DASH), (True, False), ((), 'NN', 'HN', 'NH', 'SN')):
        exact = {S + ('option_style',): ('e', 'argos::OptionStyle', style), S + ('generate_help_option',): E.TRUE if gen else E.FALSE}
        for i, t in enumerate(opts):
            exact[(('O', ('init', L + ('[%d]' % i,))), 'type')] = ('e', 'argos::OptionType', {'H': 'HELP', 'N': 'NORMAL', 'S': 'STOP'}[t])
        rule = Prepare(ctx, L, len(opts), fn, exact=exact)
        rule.settings, rule.searches = S, searches

        def setup(st):
            for i in range(len(opts)):
                st.facts[('init', L + ('[%d]' % i,))] = ('!=', frozenset({E.NULL}))
        key = '%s, help option %s, options %s' % (style, 'wanted' if gen else 'not wanted', opts or 'none')
        for o in ctx.run(fn, rule, setup=setup):
            n += 1
            loc, path = where(o, fn), o.st.path()
            if o.kind == 'throw':
                continue
            ev = added(o, L)
            has = {e[1][1]: e[2] for e in o.st.ts or () if e[0] == 'hasflag'}
            go = gen and 'H' not in opts
            ask = {STD: ('-h', '--help'), SLASH: ('/?',), DASH: ('-h', '-help')}[style]
            if not go:
                want = []
            elif style == DASH:
                want = [x for x in ask if has.get(x) is False][:1]
                if len(want) == 0 and not all(has.get(x) for x in ask) or want == ['-help'] and not has.get('-h'):
                    want = None
            else:
                want = [x for x in ask if has.get(x) is False]
                if any(x not in has for x in ask):
                    want = None
            if want is None or go and any(x not in ask for x in has):
                ctx.check(False, 'flags looked for', key, 'it is not found out whether the right flags are used (%s)' % ' '.join(has), loc, path)
                continue
            ctx.check(len(ev) == (1 if want else 0), 'help option is added', key,
                      'a help option is %s' % ('not added' if want else 'added'), loc, path)
            if want and len(ev) == 1:
                option(ctx, r, o, ev[0], want, ('init', (('arg', cp), 'current_section')), key, loc, path, 'HELP', L)
        for k, (loc, msg) in rule.problem.items():
            ctx.fail('flags looked for', k, msg, loc)
    return n


def version_option(ctx, r, fn, searches):
    n = 0
    D = (('arg', fn['params'][0]['n']),)
    L = D + (r.pd['command'], r.cd['options'])
    S = D + ('parser_settings',)
    OUT = D + ('help_settings', 'output_stream')
    for style, ver, stream, opts in product((STD, SLASH, DASH), (True, False), (True, False), ((), 'NN', 'SN', 'HN')):
        exact = {S + ('option_style',): ('e', 'argos::OptionStyle', style), D + ('version',): ('s', 'V' if ver else '')}
        if not stream:
            exact[OUT] = E.NULL
        for i, t in enumerate(opts):
            exact[(('O', ('init', L + ('[%d]' % i,))), 'type')] = ('e', 'argos::OptionType', {'H': 'HELP', 'N': 'NORMAL', 'S': 'STOP'}[t])
        rule = Prepare(ctx, L, len(opts), fn, exact=exact)
        rule.settings, rule.searches = S, searches
        key = '%s, version %s, %s' % (style, 'set' if ver else 'not set', 'own stream' if stream else 'no stream')

        def setup(st):
            if stream:
                st.facts[('init', OUT)] = ('!=', frozenset({E.NULL}))
            for i in range(len(opts)):
                st.facts[('init', L + ('[%d]' % i,))] = ('!=', frozenset({E.NULL}))
        eng = []
        for o in ctx.run(fn, rule, setup=setup, engine=eng):
            n += 1
            loc, path = where(o, fn), o.st.path()
            if o.kind == 'throw':
                continue
            ev = added(o, L)
            has = {e[1][1]: e[2] for e in o.st.ts or () if e[0] == 'hasflag'}
            flag = {STD: '--version', SLASH: '/VERSION', DASH: '-version'}[style]
            if ver and (flag not in has or len(has) != 1):
                ctx.check(False, 'flags looked for', key, 'it is not found out whether the right flag is used (%s)' % ' '.join(has), loc, path)
                continue
            want = [flag] if ver and not has[flag] else []
            ctx.check(len(ev) == len(want), 'version option is added', key,
                      'a version option is %s' % ('not added' if want else 'added'), loc, path)
            order = [e[0] for e in o.st.ts or () if e[0] == 'call' and ('p', D + (r.pd['command'],)) in e[2] or e[0] == 'add' and e[1] == L]
            ctx.check(order == ['add'] * len(want) + ['call'], 'command is prepared', key,
                      'the top-level command is not prepared once, after the version option was added', loc, path)
            if want and len(ev) == 1:
                cb = option(ctx, r, o, ev[0], want, ('init', D + (r.pd['command'], 'current_section')), key, loc, path, 'STOP', L, ('callback',))
                callback(ctx, eng[0], o, cb, fn, ('p', (('O', ('init', OUT)),)) if stream else ('p', (('G', 'std::cout'),)), key)
        for k, (loc, msg) in rule.problem.items():
            ctx.fail('flags looked for', k, msg, loc)
    return n


def callback(ctx, eng, o, cb, fn, stream, key):
    loc, path = where(o, fn), o.st.path()
    if not cb or cb[0] != 'clo' or cb[1] not in eng.p.fns:
        ctx.check(False, 'callback', key, 'the version option has no callback', loc, path)
        return
    lam = eng.p.fns[cb[1]]
    A = (('G', 'A'),)
    st = o.st.copy()
    st.ts = ()
    fr = E.Frame(fn, 0)
    for x in eng.call_fn(st, fr, lam, None, [('ref', ('p', A))], lam['line'], cb[2]):
        if x.kind == 'throw' and any(f == ('=', E.NULL) and 'builder' in repr(v) for v, f in x.st.facts.items()):
            continue        # the builder that a callback is given is never empty
        outs = [e for e in x.st.ts or () if e[0] == 'out']
        ctx.check(x.kind == 'ret' and all(e[1] == stream for e in outs) and outs, 'stream', key,
                  'the version is not written to the stream of the parser: %s' % ', '.join(sorted({show(e[1]) for e in outs})), loc, path)
        text = []
        for e in outs:
            v = resolve(x.st, e[2])
            for t in (v[1] if v[0] == 'cat' else (v,)):
                if t[0] == 's' and text and isinstance(text[-1], str):
                    text[-1] += t[1]
                elif t[0] == 's':
                    text.append(t[1])
                elif t[0] == 'c':
                    text.append(chr(t[1]))
                elif t[0] == 'fn' and t[2].endswith('endl'):
                    text.append('\n')
                else:
                    text.append(t)
        while len(text) > 1 and isinstance(text[-1], str) and isinstance(text[-2], str):
            text[-2:] = [text[-2] + text[-1]]
        ok = len(text) == 2 and ('program_name' in repr(text[0]) or "'command', 'name')" in repr(text[0])) and text[1] == ' V\n'
        ctx.check(ok, 'version text', key, 'what is written is not the program name and the version: %s' %
                  ' '.join(repr(t) if isinstance(t, str) else show(t) for t in text), loc, path)


def used(ctx, r, searches):
    """the function that tells whether a flag is used"""
    n = 0
    p = r.p
    for fid, pt in sorted(searches):
        fn = p.fns.get(fid)
        if fn is None:
            raise AnalysisBroken('cannot identify the search for a used flag')
        member = fn.get('cls') == r.CD
        L = ((('this', r.CD),) if member else (('arg', fn['params'][0]['n']),)) + (r.cd['options'],)
        for ci in (False, True):
            CI = E.TRUE if ci else E.FALSE
            args = []
            flag = None
            for q in fn['params']:
                if 'basic_string' in q['t'] or 'char' in q['t']:
                    flag = ('init', (('arg', q['n']),))
            if flag is None:
                raise AnalysisBroken('cannot identify the flag in the search for a used flag')
            rule = Used(L, CI, flag)
            for i, q in enumerate(fn['params']):
                if q['t'] == 'bool':
                    args.append(('val', CI))
                elif q['t'].rstrip().endswith('&'):
                    args.append(('ref', ('p', (('arg', q['n']),))))
                else:
                    args.append(('val', ('init', (('arg', q['n']),))))
            for o in ctx.run(fn, rule, args=args):
                n += 1
                loc, path = where(o, fn), o.st.path()
                key = 'case-insensitive %s' % ci
                hits = [e for e in o.st.ts or () if e[0] == 'cmp']
                yes = any(e[1] for e in hits)
                ctx.check(o.kind == 'ret' and not [e for e in hits if not e[2]], 'used flags', key,
                          'flags are not compared as the case setting says, with the flag that is looked for', loc, path)
                v = eng_truth(o)
                ctx.check(v is not None and v == yes, 'used flags', key, 'the search gives the opposite answer', loc, path)
                if not yes:
                    fa = foralls(o.st.ts, L)
                    FL = elem(L) + ('flags',)
                    full = bool(fa) and all(x is None or any(e[0] == 'forall' and e[1] == FL and
                                            (e[2] is None or any(y[0] == 'cmp' for y in e[2])) for e in x) for x in fa)
                    ctx.check(full, 'used flags', key, 'not all flags of all options are compared', loc, path)
    return n


def eng_truth(o):
    v = o.val
    if v[0] == 'c':
        return bool(v[1])
    f = o.st.facts.get(v)
    if f == ('=', E.FALSE):
        return False
    if f and f[0] == '!=' and E.FALSE in f[1]:
        return True
    if v[0] == 'op' and v[1] == '!':
        f = o.st.facts.get(v[2])
        return None if f is None else f == ('=', E.FALSE)
    return None


class Used(Names):
    def __init__(self, L, ci, flag):
        Names.__init__(self, exact={})
        self.L, self.ci, self.flag = L, ci, flag

    def on_init(self, eng, st, place):
        if place[-1] == 'case_insensitive':
            return self.ci
        return None

    def on_assume(self, eng, st, fr, v, truth, node):
        if v[0] in ('f', 'op') and (v[1] == 'CMP' or v[1] == '==') and v[2][0] not in ('it', 'end', 'itf') and "'flags', '[" in repr(v):
            a, b = (v[3], v[4]) if v[1] == 'CMP' else (v[2], v[3])
            el = ('init', elem(self.L) + ('flags', '[]'))
            ok = {a, b} == {el, self.flag} and (v[1] == 'CMP' and v[2] == ('s', 'eq') and v[5] == self.ci or
                                               v[1] == '==' and self.ci == E.FALSE)
            self.note(eng, st, ('cmp', truth, ok))
