"""C31: option look-up finds exact matches first and only unambiguous abbreviations."""
from itertools import product
from harness import *
from effects import *
from engine import show
import engine as E
from c04 import where
from facts import AnalysisBroken

RULE = """
Preparing a command puts every flag of every option, with its option, in the index, sorts it with the case setting it is given
and throws if two flags are equal under it.  Looking an option up in such an index returns, on every path and whatever the
outcome of the comparisons: the option of the flag that equals the text; else, if abbreviations are allowed, the option of the
flag that starts with the text if there is exactly one; else, if the text ends in '=' and has more than two characters, what the
same rules give for the text without it, provided the option takes an argument; else none.  Every look-up in the parser passes
the parser's own settings for abbreviations and case.
"""
EXPLAIN = """
The look-up is interpreted for an index of 0, 1 and 2 symbolic entries; comparisons are unknown truth values, std::lower_bound
may return any position and constrains the comparisons as the order it is given implies.  Every outcome is compared with the
rule for all truth values that are consistent with its path.  The look-up only inspects the entry at the position found and the
next one, so longer indexes add nothing new.  The function that makes the index is interpreted for seven shapes of options and
flags (up to three options and three flags), entry by entry: what is sorted must be each flag with its own option, in the order
of the case setting, what is stored must be the sorted entries, and on every path it must throw exactly if two neighbours are
found equal.
"""
ASSUME = ["std::sort, std::lower_bound and std::adjacent_find do what the standard says",
          "the string comparison helpers agree with each other (see C13)"]


def apply(eng, st, fr, clo, places, line):
    """values a closure returns for the objects at the given places"""
    if clo[0] != 'clo' or clo[1] not in eng.p.fns:
        return None
    fn = eng.p.fns[clo[1]]
    bound = [('ref', ('p', pl)) if q['t'].rstrip().endswith('&') else ('val', eng.load(st, pl)) for q, pl in zip(fn['params'], places)]
    return [o.val if o.kind == 'ret' else E.TOP for o in eng.call_fn(st.copy(), fr, fn, None, bound, line, clo[2])]


X, Y = (('G', 'X'),), (('G', 'Y'),)


class Names(Effects):
    """string comparisons are opaque"""

    def on_call(self, eng, st, fr, nid, node, c):
        if not node.get('obj') and c.nargs() in (2, 3) and (c.ref.get('pt') or [''])[0].startswith('std::basic_string_view'):
            k = {'are_equal': 'eq', 'are_equal_ci': 'eq', 'starts_with': 'sw', 'starts_with_ci': 'sw',
                 'is_less': 'lt', 'is_less_ci': 'lt'}.get(c.n)
            if k:
                ci = c.rv(2) if c.nargs() == 3 else E.TRUE if c.n.endswith('_ci') else E.FALSE
                return ('val', self.cmp(st, k, c.rv(0), c.rv(1), ci))
        if node.get('obj') and c.n == 'starts_with' and c.nargs() == 1:
            return ('val', self.cmp(st, 'sw', c.objval(), c.rv(0), E.FALSE))
        return None

    def cmp(self, st, k, a, b, ci):
        f = st.facts.get(ci)
        if f == ('=', E.TRUE) or f == ('!=', frozenset({E.FALSE})):
            ci = E.TRUE
        elif f == ('=', E.FALSE):
            ci = E.FALSE
        if k == 'eq' and repr(b) < repr(a):
            a, b = b, a
        return ('f', 'CMP', ('s', k), a, b, ci)


class Lookup(Names):
    def __init__(self, idx, n, ci, ctx, **k):
        Names.__init__(self, **k)
        self.idx, self.n, self.ci, self.ctx = idx, n, ci, ctx
        self.problem = {}

    def concrete(self, eng, pl):
        return self.n if pl == self.idx else None

    def on_call(self, eng, st, fr, nid, node, c):
        if c.n == 'lower_bound' and c.rv(0)[0] == 'itc' and c.rv(0)[1] == self.idx and c.nargs() == 4:
            key = leaves([c.rv(2)])[0]
            eng.write(st, fr, X, ('tup', (('f', 'KX'), ('f', 'VX'))), node, quiet=True)
            eng.write(st, fr, Y, ('tup', (('f', 'KY'), ('f', 'VY'))), node, quiet=True)
            vs = apply(eng, st, fr, c.rv(3), [X, Y], node.get('l'))
            want = ('f', 'CMP', ('s', 'lt'), ('f', 'KX'), ('f', 'KY'), self.ci)
            plain = ('op', '<', ('f', 'KX'), ('f', 'KY'))
            if not vs or any(v != want and not (v == plain and self.ci == E.FALSE) for v in vs):
                self.problem['comparison'] = (fr.loc(node), 'the index is searched with another order: %s' %
                                              ', '.join(show(v) for v in vs or ()))
            out = []
            for i in range(self.n + 1):
                s = st.copy()
                self.note(eng, s, ('lb', key, i))
                out.append((s, ('itc', self.idx, i, 1)))
            return ('states', out)
        return Names.on_call(self, eng, st, fr, nid, node, c)


def evaluate(t, env):
    """value of a term under an assignment, or None"""
    if t in env:
        return env[t]
    if t[0] == 'c':
        return t[1]
    if t[0] == 'op' and len(t) == 4:
        a, b = evaluate(t[2], env), evaluate(t[3], env)
        if a is None or b is None:
            return None
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                '>=': lambda: a >= b, '-': lambda: a - b, '+': lambda: a + b}.get(t[1], lambda: None)()
    if t[0] == 'op' and t[1] == '!':
        a = evaluate(t[2], env)
        return None if a is None else not a
    return None


def holds(fact, v):
    if v is None:
        return True
    if fact[0] == '=':
        return int(v) == fact[1][1] if fact[1][0] == 'c' else True
    return all(x[0] != 'c' or int(v) != x[1] for x in fact[1])


def check(ctx):
    r = ctx.roles
    p = r.p
    n = 0
    look = [f for f in p.fns.values() if f.get('cls') == r.CD and f['rt'] == 'const %s *' % r.OD and f.get('access', 'public') == 'public']
    look = [f for f in look if f['n'] == 'find_option'] or look
    if len(look) != 1:
        raise AnalysisBroken('cannot identify the look-up of options')
    fn = look[0]
    T = (('this', r.CD),)
    index = [f['n'] for f in p.cls(r.CD)['fields'] if 'std::pair<std::basic_string_view' in f['t'] and 'vector' in f['t']]
    if len(index) != 1:
        raise AnalysisBroken('cannot identify the index of options')
    IDX = T + (index[0],)
    if len(fn['params']) != 3:
        raise AnalysisBroken('the look-up of options has other parameters')
    flag = ('init', (('arg', fn['params'][0]['n']),))
    size = ('f', 'size', flag)
    for cnt, abbr, ci in product((0, 1, 2), (False, True), (False, True)):
        CI = E.TRUE if ci else E.FALSE
        rule = Lookup(IDX, cnt, CI, ctx)

        def setup(st):
            for i in range(cnt):
                st.facts[('init', IDX + ('[%d]' % i, 1))] = ('!=', frozenset({E.NULL}))
        for o in ctx.run(fn, rule, args=[('val', flag), ('val', E.TRUE if abbr else E.FALSE), ('val', CI)], setup=setup):
            n += 1
            bad = wrong(o, IDX, cnt, abbr, CI, flag, size)
            ctx.check(not bad, 'look-up result', 'entries %d, abbreviations %s, case-insensitive %s: %s' %
                      (cnt, abbr, ci, bad and bad[0]), bad and bad[1], where(o, fn), o.st.path())
        for k, (loc, msg) in rule.problem.items():
            ctx.fail('order of the index', k, msg, loc)
        ctx.ob('order of the index')
    ctx.floor('outcomes of the look-up', n, 40)
    b = build(ctx, r, IDX, T)
    c = callers(ctx, r, fn)
    ctx.sample('%d outcomes of the look-up, %d of building the index, %d calls of the look-up' % (n, b, c))


def without_last(t, flag):
    size = ('f', 'size', flag)
    return t[0] == 'f' and t[1] == 'substr' and t[2] == flag and t[3:4] == (('c', 0),) and \
        (t[4] == ('op', '-', size, ('c', 1)) or t[4] == ('op', '+', size, ('c', -1))) or \
        t[0] == 'f' and t[1] in ('remove_suffix', 'pop_back', 'cut_end') and E.contains(t, flag)


def wrong(o, IDX, cnt, abbr, CI, flag, size):
    facts = dict(o.st.facts)
    names = [('init', IDX + ('[%d]' % i, 0)) for i in range(cnt)]
    opts = [('init', IDX + ('[%d]' % i, 1)) for i in range(cnt)]
    if o.kind != 'ret':
        return ('throws', 'looking up an option throws')
    res = None
    if o.val in opts:
        res = opts.index(o.val)
    elif o.val != E.NULL:
        return ('unknown', 'the look-up returns %s' % show(o.val))
    lbs = {e[1]: e[2] for e in o.st.ts or () if e[0] == 'lb'}
    # texts that were looked up
    keys = [flag]

    def scan(t):
        if isinstance(t, tuple) and t and t[0] in ('f', 'op', 'init', 'it', 'lb', 'c', 's'):
            if t[0] in ('f', 'op') and t not in keys and without_last(t, flag):
                keys.append(t)
            elif t[0] in ('f', 'op'):
                for x in t[2:]:
                    scan(x)
    for t in list(facts) + [k for k in lbs]:
        scan(t)
    if len(keys) > 2 or any(k not in keys for k in lbs):
        return ('text', 'another text is looked up: %s' % ', '.join(show(k) for k in lbs if k not in keys))
    second = keys[1] if len(keys) == 2 else None
    back = [t for t in facts if t[0] != 'size' and ('back' in repr(t) or 'ends_with' in repr(t)) and E.contains(t, flag) and
            not (t[0] == 'f' and t[1] == 'CMP')]
    atoms = []
    for k in keys:
        for i in range(cnt):
            atoms += [('X', k, i), ('P', k, i)] + ([('E', k, i)] if CI == E.TRUE else [])
    atoms += [('G', i) for i in range(cnt)]
    if second is None:
        # the second look-up did not happen: its outcome is free
        atoms += [('X', 'second', i) for i in range(cnt)] + [('P', 'second', i) for i in range(cnt)]
    free = []
    fixed = {}

    def term(a):
        if a[0] == 'G':
            return [('f', 'size', ('init', (('O', opts[a[1]]), 'argument'))), ('size', (('O', opts[a[1]]), 'argument'))]
        if a[1] == 'second':
            return []
        k, nm = a[1], names[a[2]]
        x, y = (nm, k) if repr(nm) < repr(k) else (k, nm)
        if a[0] == 'P':
            return [('f', 'CMP', ('s', 'sw'), nm, k, CI)]
        exact = [('op', '==', nm, k), ('op', '==', k, nm), ('f', 'CMP', ('s', 'eq'), x, y, E.FALSE)]
        if a[0] == 'E':
            return exact
        return [('f', 'CMP', ('s', 'eq'), x, y, E.TRUE)] if CI == E.TRUE else exact
    known = set()
    for a in atoms:
        for t in term(a):
            if t in facts:
                known.add(t)
                f = facts[t]
                v = f != ('=', E.FALSE) if f[0] == '=' else E.FALSE in f[1]
                if fixed.setdefault(a, v) != v:
                    return None
        if a not in fixed:
            free.append(a)
    # comparisons the rule does not know
    for t, f in facts.items():
        if t[0] == 'f' and t[1] == 'CMP' and t not in known and t[2] != ('s', 'lt'):
            return ('comparison', 'a comparison that does not follow the case setting, or is not between the text and a flag, decides: %s' % show(t))
    if len(free) > 14:
        raise AnalysisBroken('too many unknown comparisons')
    endq = None
    for t in back:
        f = facts[t]
        ch = ('c', 61)
        if f == ('=', ch) or 'ends_with' in repr(t) and f in (('!=', frozenset({E.FALSE})), ('=', E.TRUE)):
            endq = True
        elif f[0] == '!=' and ch in f[1] or 'ends_with' in repr(t) and f == ('=', E.FALSE) or f[0] == '=':
            endq = False
    for sz in (0, 1, 2, 3, 4):
        env = {size: sz}
        if not all(holds(f, evaluate(t, env)) for t, f in facts.items() if E.contains(t, size) and t[0] in ('op', 'f') and
                   not (t[0] == 'f' and t[1] == 'CMP')):
            continue
        for e in ((False, True) if endq is None else (endq,)):
            if e and sz == 0:
                continue
            for vals in product((False, True), repeat=len(free)):
                env2 = dict(fixed)
                env2.update(zip(free, vals))
                if not consistent(env2, keys if second is not None else keys + ['second'], cnt, lbs):
                    continue
                want = expected(env2, keys[0], cnt, abbr)
                if want is None and e and sz > 2:
                    want = expected(env2, second if second is not None else 'second', cnt, abbr)
                    if want is not None and not env2[('G', want)]:
                        want = None
                if want != res:
                    return ('returns %s instead of %s' % (desc(res), desc(want)),
                            'the look-up returns %s where the rule gives %s (text of %d characters%s; %s)' %
                            (desc(res), desc(want), sz, " ending in '='" if e else '',
                             ', '.join('%s entry %d%s: %s' % ({'X': 'equals', 'P': 'starts', 'E': 'is identical to', 'G': 'argument'}[a[0]],
                                                             a[-1], '' if a[0] == 'G' or a[1] == keys[0] else " (without '=')",
                                                             'yes' if v else 'no') for a, v in sorted(env2.items(), key=repr))))
    return None


def desc(i):
    return 'none' if i is None else 'the option of entry %d' % i


def consistent(env, keys, cnt, lbs):
    for k in keys:
        X = [env.get(('X', k, i)) for i in range(cnt)]
        P = [env.get(('P', k, i)) for i in range(cnt)]
        if sum(X) > 1 or any(x and not q for x, q in zip(X, P)):
            return False
        for i in range(cnt):
            if env.get(('E', k, i)) and not X[i]:
                return False
        # the index is sorted: what starts with the text is contiguous, and what equals it comes first
        if any(P[i] and P[j] and not all(P[i:j + 1]) for i in range(cnt) for j in range(i + 1, cnt)):
            return False
        if any(X) and any(P[:X.index(True)]):
            return False
        if k in lbs:
            at = lbs[k]
            if any(P[:at]) or any(X[:at]) or any(P[i] and not P[i - 1] for i in range(at + 1, cnt)) or any(X[at + 1:]):
                return False
    return True


def expected(env, k, cnt, abbr):
    for i in range(cnt):
        if env[('X', k, i)]:
            return i
    hits = [i for i in range(cnt) if env[('P', k, i)]]
    return hits[0] if abbr and len(hits) == 1 else None


class Build(Names):
    """options and their flags, and the index that is made of them, entry by entry"""
    grow = byvalue = True

    def __init__(self, counts, ci, **k):
        Names.__init__(self, **k)
        self.counts, self.ci = counts, ci

    def concrete(self, eng, pl):
        return self.counts.get(pl)

    def on_call(self, eng, st, fr, nid, node, c):
        q = node.get('fn', {}).get('q', '')
        ranges = bool(node.get('obj')) and (c.cls or '').startswith('std::ranges::')
        name = (c.cls or '')[len('std::ranges::'):].strip('_').replace('_fn', '') if ranges else c.n
        if name in ('sort', 'stable_sort', 'adjacent_find') and (ranges or not node.get('obj')) and c.nargs() in (1, 2, 3):
            a = c.rv(0)
            P = a[1] if a[0] == 'itc' else c.raw(0)[1] if c.raw(0)[0] == 'p' else None
            n = eng.csize(st, P) if P else None
            if n is None or a[0] == 'itc' and (c.nargs() < 2 or a[2:] != (0, 1) or c.rv(1) != ('itc', P, n, 1)):
                return None
            clo = c.rv(c.nargs() - 1)
            if clo[0] == 'fn':
                clo = ('clo', clo[1], ())
            if name == 'adjacent_find':
                return self.adjacent(eng, st, fr, node, P, n, clo)
            eng.write(st, fr, X, ('tup', (('f', 'KX'), ('f', 'VX'))), node, quiet=True)
            eng.write(st, fr, Y, ('tup', (('f', 'KY'), ('f', 'VY'))), node, quiet=True)
            vs = apply(eng, st, fr, clo, [X, Y], node.get('l'))
            want = ('f', 'CMP', ('s', 'lt'), ('f', 'KX'), ('f', 'KY'), self.ci)
            plain = [('op', '<', ('f', 'KX'), ('f', 'KY')), ('op', '>', ('f', 'KY'), ('f', 'KX'))]
            ok = bool(vs) and all(v == want or self.ci == E.FALSE and v in plain for v in vs)
            held = []
            for i in range(n):
                e = P + ('[%d]' % i,)
                held.append((eng.load(st, e + (0,)), eng.load(st, e + (1,))))
                for k in [k for k in st.store if k[:len(e)] == e]:
                    del st.store[k]
                st.store[e] = ('tup', (('f', 'S', ('c', i)), ('f', 'V', ('c', i))))
            self.note(eng, st, ('sorted', P, ok, tuple(held)))
            return ('val', E.TOP)
        return Names.on_call(self, eng, st, fr, nid, node, c)

    def adjacent(self, eng, st, fr, node, P, n, clo):
        out, work = [], [(st, 0)]
        while work:
            s, i = work.pop()
            if i + 1 >= n:
                out.append((s, ('itc', P, n, 1)))
                continue
            if clo[0] == 'clo' and clo[1] in eng.p.fns:
                fn = eng.p.fns[clo[1]]
                pls = [P + ('[%d]' % j,) for j in (i, i + 1)]
                bound = [('ref', ('p', pl)) if q['t'].rstrip().endswith('&') else ('val', eng.load(s, pl)) for q, pl in zip(fn['params'], pls)]
                outs = [(o.st, o.val) for o in eng.call_fn(s, fr, fn, None, bound, node.get('l'), clo[2]) if o.kind == 'ret']
            else:
                outs = [(s, E.TOP)]
            for s2, v in outs:
                s3 = s2.copy()
                if eng.assume(s2, fr, v, True, node):
                    out.append((s2, ('itc', P, i, 1)))
                if eng.assume(s3, fr, v, False, node):
                    work.append((s3, i + 1))
        return ('states', out)


def same(o, a, b, CI):
    """what is known about two entries being equal under the case setting: True, False or None"""
    x, y = (a, b) if repr(a) < repr(b) else (b, a)
    exact = [('op', '==', a, b), ('op', '==', b, a), ('f', 'CMP', ('s', 'eq'), x, y, E.FALSE)]
    got = None
    for t, f in o.st.facts.items():
        yes = f == ('=', E.TRUE) or f == ('!=', frozenset({E.FALSE}))
        no = f == ('=', E.FALSE) or f == ('!=', frozenset({E.TRUE}))
        if t in exact and (yes or no and CI == E.FALSE) or t == ('f', 'CMP', ('s', 'eq'), x, y, CI) and (yes or no):
            if got is None or yes:
                got = yes
        if t in (('op', '!=', a, b), ('op', '!=', b, a)) and (no or yes and CI == E.FALSE):
            if got is None or no:
                got = no
    return got


def build(ctx, r, IDX, T):
    n = 0
    fs = [f for f in r.p.fns.values() if f.get('cls') == r.CD and f['rt'] == 'void' and [q['t'] for q in f['params']] == ['bool'] and f.get('blocks')]
    fs = [f for f in fs if f['n'] == 'build_option_index'] or fs
    if len(fs) != 1:
        raise AnalysisBroken('cannot identify the function that builds the index of options')
    fn = fs[0]
    OPTS = T + (r.cd['options'],)
    for ci, shape in product((False, True), ((), (1,), (2,), (1, 1), (3,), (2, 1), (1, 1, 1))):
        CI = E.TRUE if ci else E.FALSE
        os_ = [('init', OPTS + ('[%d]' % i,)) for i in range(len(shape))]
        counts = {OPTS: len(shape)}
        for o, k in zip(os_, shape):
            counts[(('O', o), r.od['flags'])] = k
        entries = [(('init', (('O', o), r.od['flags'], '[%d]' % j)), o) for o, k in zip(os_, shape) for j in range(k)]
        rule = Build(counts, CI)
        key = 'case-insensitive %s' % ci
        tail = '  (flags of the options: %s)' % ', '.join(map(str, shape))
        total = len(entries)
        S = [('f', 'S', ('c', i)) for i in range(total)]

        def setup(st):
            for o in os_:
                st.facts[o] = ('!=', frozenset({E.NULL}))
            st.store[IDX] = ('empty',)
        used = []
        for o in ctx.run(fn, rule, args=[('val', CI)], setup=setup, engine=used):
            n += 1
            loc, path = where(o, fn), o.st.path()
            so = [e for e in o.st.ts or () if e[0] == 'sorted']
            eqs = [same(o, a, b, CI) for a, b in zip(S, S[1:])]
            if o.kind == 'throw':
                ctx.check(True in eqs, 'index is built', key, 'it throws although no two flags are equal' + tail, loc, path)
                continue
            ctx.check(all(e[2] for e in so) and (len(so) >= 1 or total < 2), 'index is sorted', key,
                      'the index is not sorted as the case setting says' + tail, loc, path)
            got = []
            for e in so[-1][3] if so else ():
                k, v = (leaves([x])[0] if leaves([x]) else x for x in e)
                got.append((k, v))
            if so:
                want = {k: v for k, v in entries}
                ok = len(got) == total and {k for k, v in got} == set(want) and \
                    all(v == want[k] or v == ('p', (('O', want[k]),)) for k, v in got)
                ctx.check(ok, 'index is complete', key, 'not every flag of every option is put in the index: it is made of %s%s' % (
                    ', '.join('%s of %s' % (show(k), show(v)) for k, v in got) or 'nothing', tail), loc, path)
            st = o.st
            eng = used[-1]
            m = eng.csize(st, IDX)
            held = [(eng.load(st, IDX + ('[%d]' % i, 0)), eng.load(st, IDX + ('[%d]' % i, 1))) for i in range(m or 0)]
            if so:
                stored = held == [(('f', 'S', ('c', i)), ('f', 'V', ('c', i))) for i in range(total)]
            else:
                stored = held == entries or [(k, ('p', (('O', v),))) for k, v in entries] == held
            ctx.check(stored, 'index is stored', key, 'the sorted index is not what is stored' + tail, loc, path)
            ctx.check(True not in eqs, 'equal flags are rejected', key, 'two equal flags are accepted' + tail, loc, path)
            ctx.check(None not in eqs, 'equal flags are rejected', key,
                      'neighbouring flags are not compared as the case setting says' + tail, loc, path)
    ctx.floor('outcomes of building the index', n, 12)
    return n


def callers(ctx, r, look):
    """the settings every look-up passes"""
    p = r.p
    n = 0
    for f in p.fns.values():
        for nid, c in f['nodes'].items():
            if c['k'] != 'call' or c.get('fn', {}).get('id') != look['id'] or f.get('cls') == r.CD:
                continue
            n += 1
            ctx.seen(f)
            args = c['args']
            for i, name in ((1, 'allow_abbreviated_options'), (2, 'case_insensitive')):
                got = member(f, args[i])
                ctx.check(got == name, 'settings are passed', '%s, argument %d' % (f['q'], i + 1),
                          'the look-up is given %s instead of the setting %s' % (got or 'something else', name),
                          '%s:%s' % (f.get('file', ''), c.get('l', '')))
    ctx.floor('calls of the look-up', n, 2)
    return n


def member(f, i, depth=0):
    n = f['nodes'][i]
    if n['k'] == 'mem':
        return n['f']
    if n['k'] in ('cast', 'paren', 'ctor') and depth < 6:
        for k in ('x', 'a'):
            if n.get(k) is not None and not isinstance(n[k], list):
                return member(f, n[k], depth + 1)
    if n['k'] == 'var' and depth < 6:
        # a local that is initialised once
        name = n.get('n')
        for d in f['nodes'].values():
            if d['k'] == 'decl':
                for v in d.get('vars', ()):
                    if v.get('n') == name and v.get('init') is not None:
                        return member(f, v['init'], depth + 1)
    return None
