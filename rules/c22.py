"""C22: values are spread over arguments as their counts allow."""
from itertools import product
from effects import *
from engine import show
import engine as E
from c04 import where
from facts import AnalysisBroken

RULE = """
For a command with any list of arguments and any number of values that is enough for them: the arguments that the values are
given to, one after the other, are those of the reference in which every argument gets its least count, and what is left goes to
the earlier ones first, up to their greatest counts; further values get no argument. This holds whether or not the number
of values is said to be needed, and going on after some values have been given. Giving values is complete exactly when the least
counts of all arguments, and all values that were counted, have been reached. The least and greatest numbers of values are the sums of
those of the arguments. The number of values given is counted.
"""
EXPLAIN = """
constant propagation through the counter for every list of up to 3 (thorough: 4) arguments with counts from a small set, and every number
of values up to one more than the greatest
"""
ASSUME = ["longer lists and greater counts behave like those enumerated: the code only compares, adds and subtracts them"]
MANY = 2 ** 32 - 1
SIZE = ('unsigned long', 'size_t', 'std::size_t')


class Rule(Effects):
    limit = 2 ** 66
    grow = byvalue = True

    def __init__(self, r, counts):
        Effects.__init__(self)
        self.C = (('G', 'command'),)
        self.L = self.C + (r.cd['arguments'],)
        self.n = len(counts)
        for i, (a, b) in enumerate(counts):
            D = (('O', ('init', self.L + ('[%d]' % i,))),)
            self.exact[D + ('min_count',)] = ('c', a)
            self.exact[D + ('max_count',)] = ('c', b)

    def concrete(self, eng, place):
        return self.n if place == self.L else None

    def setup(self, st):
        for i in range(self.n):
            st.facts[('init', self.L + ('[%d]' % i,))] = ('!=', frozenset({E.NULL}))

    def which(self, v):
        for i in range(self.n):
            if v in (('init', self.L + ('[%d]' % i,)), ('p', (('O', ('init', self.L + ('[%d]' % i,))),))):
                return i
        return None if v == E.NULL else show(v)

    def keep_place(self, eng, pl, v):
        return True

    def keep_fact(self, eng, t):
        return True


class Counter:
    def __init__(self, ctx):
        r = self.r = ctx.roles
        self.ctx, self.p, cls = ctx, r.p, r.COUNTER
        fs = [f for f in self.p.fns.values() if f.get('cls') == cls and f.get('blocks')]
        ct = [f for f in fs if f.get('ctor') and f['params'] and r.CD in f['params'][0]['t']]
        self.plain = self.one([f for f in ct if len(f['params']) == 1], 'constructor without a number')
        self.counted = self.one([f for f in ct if len(f['params']) == 3], 'constructor with a number')
        self.next = self.one([f for f in fs if not f['params'] and f['rt'] == 'const %s *' % r.AD], 'next argument')
        self.complete = self.one([f for f in fs if not f['params'] and f['rt'] == 'bool' and f.get('const')], 'completeness')
        self.count = self.one([f for f in fs if not f['params'] and f['rt'] in SIZE and f.get('const')], 'count')
        st = [f for f in fs if len(f['params']) == 1 and r.CD in f['params'][0]['t'] and not f.get('ctor')]
        self.needed = self.one([f for f in st if f['rt'] == 'bool'], 'need of a number')
        self.limits = self.one([f for f in st if 'pair' in f['rt']], 'least and greatest number')

    def one(self, fs, what):
        if len(fs) != 1:
            raise AnalysisBroken('cannot identify the %s of %s' % (what, self.r.COUNTER))
        return fs[0]


def spread(counts, total):
    left = total - sum(a for a, b in counts)
    seq = []
    for i, (a, b) in enumerate(counts):
        k = min(left, b - a)
        left -= k
        seq += [i] * (a + k)
    return seq + [None] * left


def pair_of(o):
    v = o.val
    for _ in range(3):
        if v and v[0] == 'p' and v[1] in o.st.store and o.st.store[v[1]][0] != 'sym':
            v = o.st.store[v[1]]
    if v[0] == 'tup':
        return list(v[1])
    if v[0] == 'p':
        return [o.st.store.get(v[1] + (x,)) for x in (0, 1)]
    return [v]


def text(counts):
    return ', '.join('%d-%s' % (a, b if b < MANY else 'any') for a, b in counts) or 'no arguments'


def check(ctx):
    c = Counter(ctx)
    deep = ctx.tier == 'thorough'
    base = [(0, 1), (1, 1), (0, MANY), (1, 2), (2, 2), (0, 0), (1, MANY), (0, 2), (2, 4), (0, 3)]
    lists = [()] + [(a,) for a in base] + list(product(base[:9], repeat=2)) + list(product(base[:5] if not deep else base[:7], repeat=3))
    if deep:
        lists += list(product(base[:4], repeat=4))
    n = 0
    for counts in lists:
        lo, hi = sum(a for a, b in counts), sum(b for a, b in counts)
        t = text(counts)
        args = None
        rule = Rule(c.r, counts)
        C = ('ref', ('p', rule.C))
        for o in ctx.run(c.limits, rule, args=[C], setup=rule.setup):
            got = pair_of(o) if o.kind == 'ret' else None
            ctx.check(got == [('c', lo), ('c', min(hi, 2 ** 64 - 1))], 'least and greatest number', t, 'of arguments with counts %s it gives %s' % (
                t, o.kind if got is None else ', '.join(show(x) if x else '?' for x in got)), where(o, c.limits), o.st.path())
            n += 1
        eng = []
        rule = Rule(c.r, counts)
        for o in ctx.run(c.needed, rule, args=[C], setup=rule.setup, engine=eng):
            if o.kind != 'ret' or o.val not in (E.TRUE, E.FALSE):
                ctx.check(False, 'need of a number', t, 'it gives %s' % show(o.val), where(o, c.needed), o.st.path())
                continue
            top = min(hi, lo + 3) + 1
            starts = []
            if o.val == E.FALSE:
                starts = [(c.plain, [C], T, 0) for T in range(lo, top + 1)]
            for T in range(lo, top + 1):
                starts += [(c.counted, [C, ('val', ('c', T)), ('val', ('c', k))], T, k) for k in
                           (range(T + 1) if len(counts) < 3 or deep else (0, T // 2)) if o.val == E.TRUE or k < 2]
            for fn, args, T, k in starts:
                n += run(ctx, c, eng[0], rule, o, fn, args, counts, T, k, '%s; %s%d values%s' % (
                    t, '' if len(args) > 1 else 'not counted, ', T, ', %d given' % k if k else ''))
    ctx.floor('sequences of values', n, 500)


def run(ctx, c, eng, rule, o, fn, args, counts, T, k, what):
    NEW = (('G', 'counter'),)
    seq = spread(counts, T)
    lo, hi = sum(a for a, b in counts), sum(b for a, b in counts)
    # number of values that must be read
    least = lo if len(args) == 1 else min(T, hi)
    work = [(x, k) for x in eng.call_fn(o.st.copy(), E.Frame(fn, 0), fn, NEW, args, fn['line'])]
    n = 0
    while work:
        x, i = work.pop()
        loc, path = where(x, fn), x.st.path()
        if not ctx.check(x.kind == 'ret', 'spreading', what, '%s: it throws' % what, loc, path):
            continue
        n += 1
        given = sum(1 for s in seq[:i] if s is not None)
        for y in eng.call_fn(x.st.copy(), E.Frame(c.complete, 0), c.complete, NEW, [], c.complete['line']):
            ctx.check(y.kind == 'ret' and y.val == (E.TRUE if given >= least else E.FALSE), 'completeness', '%s, after %d' % (what, i),
                      'of %s, after %d are given the rest is%s reported to be complete' % (what, i, '' if y.val == E.TRUE else ' not'),
                      where(y, c.complete), y.st.path())
        for y in eng.call_fn(x.st.copy(), E.Frame(c.count, 0), c.count, NEW, [], c.count['line']):
            ctx.check(y.kind == 'ret' and y.val == ('c', given), 'count', '%s, after %d' % (what, i),
                      'of %s, after %d are given %s are counted' % (what, i, show(y.val)), where(y, c.count), y.st.path())
        if i == T:
            continue
        for y in eng.call_fn(x.st.copy(), E.Frame(c.next, 0), c.next, NEW, [], c.next['line']):
            got = rule.which(y.val) if y.kind == 'ret' else y.kind
            say = lambda g: 'none' if g is None else 'argument %s' % (g + 1) if isinstance(g, int) else str(g)
            if ctx.check(got == seq[i], 'spreading', '%s, value %d' % (what, i + 1), 'of %s, value %d goes to %s instead of %s' % (
                    what, i + 1, say(got), say(seq[i])), where(y, c.next), y.st.path()):
                work.append((y, i + 1))
    return n
