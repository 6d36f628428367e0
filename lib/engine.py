"""Path-sensitive, interprocedural dataflow over the facts of facts.py.

Abstract states are finite maps from access paths to abstract values (constants,
enumerators, pointers to access paths, pair/tuple values, uninterpreted terms over
the *initial* content of access paths) plus branch facts on uninterpreted terms.
Control-flow graphs are explored with a work list; identical states are merged;
numbers are widened, so every exploration terminates.  Callees in the repository
are analysed in place (so extracted helpers, lambdas and reordered statements do
not matter); library calls have small models or are uninterpreted.  No solver, no
execution: branch facts are equalities/disequalities with constants only.

A Rule subclass gets hooks for calls, writes, completed loops and exits, may carry
a typestate (state.ts) and may pin scenario constants (on_init).
"""
import re
from facts import AnalysisBroken

MAXDEPTH = 14
FALSE, TRUE, NULL = ('c', 0), ('c', 1), ('c', 0)
NONE, TOP = ('none',), ('top',)
TEXT = ('cat', (('s', '...'), TOP))     # some non-empty text


def is_const(v):
    return v[0] in ('c', 'e', 's', 'none')


class State:
    __slots__ = ('store', 'facts', 'vals', 'loops', 'syms', 'ts', 'trace')

    def __init__(self):
        self.store, self.facts, self.vals, self.loops = {}, {}, {}, {}
        self.syms, self.ts, self.trace = frozenset(), None, None

    def copy(self):
        s = State.__new__(State)
        s.store, s.facts = dict(self.store), dict(self.facts)
        s.vals, s.loops = dict(self.vals), dict(self.loops)
        s.syms, s.ts, s.trace = self.syms, self.ts, self.trace
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()),
                frozenset(self.vals.items()), frozenset(self.loops.items()), self.ts)

    def note(self, txt):
        self.trace = (self.trace, txt)

    def path(self, n=40):
        r, t = [], self.trace
        while t:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r[-n:]


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)) and contains(x, sub):
                return True
    return False


def meet(a, b):
    """Events of both iterations; a completed inner loop ('forall', P, events) without iterations (None)
    agrees with any other."""
    out = a & b
    if out == a and out == b:
        return out
    fa = {e[1]: e[2] for e in a - out if e[0] == 'forall' and len(e) == 3 and not isinstance(e[2], bool)}
    fb = {e[1]: e[2] for e in b - out if e[0] == 'forall' and len(e) == 3 and not isinstance(e[2], bool)}
    new = set(out)
    for P in fa:
        if P in fb:
            x, y = fa[P], fb[P]
            new.add(('forall', P, y if x is None else x if y is None else meet(x, y)))
    return frozenset(new)


def forget(v, part):
    return TOP if contains(v, part) else v


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        n = tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
        return n if n != t else t
    return t


def depth_of(t, lim=60):
    """Term size, capped."""
    if not isinstance(t, tuple):
        return 0
    n = 1
    for x in t:
        if isinstance(x, tuple):
            n += depth_of(x, lim)
            if n > lim:
                return n
    return n


def rename_elem(t, P):
    """Rename element steps of container place P: '[]' -> '[o]'."""
    if not isinstance(t, tuple):
        return t
    n = len(P)
    if len(t) > n and t[n] == '[]' and t[:n] == P:
        t = P + ('[o]',) + t[n + 1:]
    r = tuple(rename_elem(x, P) if isinstance(x, tuple) else x for x in t)
    return r if r != t else t


def has_elem(t, P):
    if not isinstance(t, tuple):
        return False
    n = len(P)
    if len(t) > n and t[n] == '[]' and t[:n] == P:
        return True
    return any(isinstance(x, tuple) and has_elem(x, P) for x in t)


class Frame:
    __slots__ = ('fn', 'depth', 'this', 'caps', 'parent', 'callsite')

    def __init__(self, fn, depth, this=None, caps=None, parent=None, callsite=None):
        self.fn, self.depth, self.this, self.caps = fn, depth, this, caps or {}
        self.parent, self.callsite = parent, callsite

    def chain(self):
        f, r = self, []
        while f:
            r.append(f.fn['id'])
            f = f.parent
        return r

    def loc(self, node):
        return "%s:%s" % (self.fn['file'], node.get('l', self.fn['line']))

    def stack(self):
        f, r = self, []
        while f:
            r.append(f.fn['q'] + ((" called at line %s" % f.callsite) if f.callsite else ""))
            f = f.parent
        return r


class Exit:
    __slots__ = ('kind', 'st', 'val', 'loc')

    def __init__(self, kind, st, val, loc):
        self.kind, self.st, self.val, self.loc = kind, st, val, loc


class Rule:
    """Default hooks; override what a property needs."""
    opaque = frozenset()        # qualified names that are not analysed in place
    track_text = False          # keep the parts of concatenated strings apart
    track_loops = False         # record what each iteration of a loop does

    def on_init(self, eng, st, place):
        """Constant for the initial content of an access path, or None."""
        return None

    def inline(self, eng, fnref):
        return True

    def on_call(self, eng, st, fr, nid, node, c):
        """Return None to continue, ('val', v) to give the result, or
        ('states', [(state, value)...]), or ('stop', kind)."""
        return None

    def after_call(self, eng, st, fr, nid, node, c, val):
        return None

    def on_write(self, eng, st, fr, place, val, node):
        pass

    def on_forall(self, eng, st, fr, place, events, node):
        pass

    def on_assume(self, eng, st, fr, cond, truth, node):
        pass

    def on_return(self, eng, st, fr, val, node):
        pass

    def on_deref(self, eng, st, fr, val, node):
        pass

    grow = False            # local containers that start empty are tracked element by element
    byvalue = False         # containers that are tracked element by element are copied so, new objects are kept apart
    recursion = 0           # how often a function is entered again from itself
    limit = 3               # numbers counted up beyond this are forgotten

    def concrete(self, eng, place):
        """number of elements of a container that is analysed element by element"""
        return None

    def keep_fact(self, eng, term):
        """Whether a branch fact matters beyond the function that learnt it."""
        return True

    def keep_place(self, eng, place, val):
        """Whether the content of a written place matters once the function that
        wrote it has returned; otherwise it becomes unknown (TOP)."""
        return True


STRINGY = ('std::basic_string<', 'std::basic_string_view<', 'const char *', 'char *', 'char[')


def strip_cv(t):
    t = t.strip()
    while t.startswith('const ') or t.startswith('volatile '):
        t = t.split(' ', 1)[1]
    t = re.sub(r'\s*(&&|&)$', '', t).strip()
    return t


def tmpl(t):
    """class template name of a type string"""
    t = strip_cv(t)
    i = t.find('<')
    return t[:i] if i >= 0 else t


class Engine:
    def __init__(self, prog, rule, max_steps=400000):
        self.p, self.rule = prog, rule
        self.steps, self.max_steps = 0, max_steps
        self.fns_seen = set()
        self.calls_seen = 0
        self.call_sites = set()
        self.forks = 0
        self.paths = 0
        self._cross = {}
        self._live = {}
        self._memo = {}
        self.hits = 0
        self._blk = {}
        self.cur = None

    # ---------- places / store ----------
    def load(self, st, place):
        v = st.store.get(place)
        if v is not None:
            if self.rule.byvalue and v == ('empty',):
                k = st.store.get(place + ('#n',))
                if k and k[0] == 'c' and 0 < k[1] <= 20:
                    return ('ilist', tuple(self.load(st, place + ('[%d]' % i,)) for i in range(k[1])))
            return v
        for i in range(len(place) - 1, 0, -1):
            b = st.store.get(place[:i])
            if b is not None:
                return self.project(st, b, place[i:])
        return self.init(st, place)

    def init(self, st, place):
        c = self.rule.on_init(self, st, place)
        return c if c is not None else ('init', place)

    def project(self, st, v, steps):
        for i, s in enumerate(steps):
            if v[0] == 'init':
                return self.init(st, v[1] + steps[i:])
            if v[0] == 'tup' and isinstance(s, int) and s < len(v[1]):
                v = v[1][s]
            elif v[0] == 'some' and s == 'opt':
                v = v[1]
            elif isinstance(s, str) and s.startswith('as:'):
                continue
            elif v[0] == 'agg':
                d = dict(v[2])
                v = d[s] if s in d else TOP
            elif v == TOP:
                return TOP
            else:
                v = ('fld', v, s)
        return v

    def write(self, st, fr, place, val, node=None, quiet=False):
        n = len(place)
        for k in [k for k in st.store if len(k) > n and k[:n] == place]:
            del st.store[k]
        if depth_of(val) > 60:
            val = TOP
        st.store[place] = val
        if not quiet:
            self.note_iter(st, place, val)
            self.rule.on_write(self, st, fr, place, val, node)

    def note_iter(self, st, place, val):
        if not self.rule.track_loops:
            return
        for P in list(st.loops):
            if has_elem(place, P):
                cur, allv, kind = st.loops[P]
                st.loops[P] = (cur | {('w', place, val)}, allv, kind)

    def iter_event(self, st, ev):
        if not self.rule.track_loops:
            return
        for P in list(st.loops):
            cur, allv, kind = st.loops[P]
            st.loops[P] = (cur | {ev}, allv, kind)

    def copy_obj(self, st, fr, src, dst, node=None, quiet=False):
        """struct copy src -> dst (places)."""
        if src == dst:
            return
        base = self.load(st, src)
        n = len(src)
        over = [(k[n:], v) for k, v in st.store.items() if len(k) > n and k[:n] == src]
        self.write(st, fr, dst, base, node, quiet)
        for suf, v in over:
            st.store[dst + suf] = v

    def deref(self, st, fr, v, node=None):
        self.rule.on_deref(self, st, fr, v, node)
        if v[0] == 'p':
            return v[1]
        if v[0] in ('it', 'itf'):
            return v[1] + ('[]',)
        if v[0] == 'itc':
            return v[1] + ('[%d]' % v[2],)
        if v[0] == 'ith' and 0 <= v[2] < len(v[1][1]):
            x = v[1][1][v[2]]
            pl = (('E', v[1], v[2]),)
            if pl not in st.store:
                st.store[pl] = x
            return pl
        return (('O', v),)

    # ---------- symbols ----------
    def sym(self, st, fr, nid, label):
        s = ('sym', label, fr.fn['q'], nid, fr.depth)
        if s in st.syms:
            old = ('old', s)
            if any(contains(k, old) or contains(v, old) for k, v in st.store.items()) or \
                    any(contains(v, old) for v in st.vals.values()):
                # older generations are forgotten: a third one would make the terms grow in loops
                st.store = {k: forget(v, old) for k, v in st.store.items() if not contains(k, old)}
                st.vals = {k: forget(v, old) for k, v in st.vals.items()}
            self.rename(st, lambda t: subst(t, s, ('old', s)) if contains(t, s) else t,
                        lambda t: contains(t, s))
        st.syms = st.syms | {s}
        return s

    def rename(self, st, f, test):
        st.facts = {k: v for k, v in st.facts.items() if not test(k)}
        ns = {}
        for k, v in st.store.items():
            ns[f(k)] = f(v)
        st.store = ns
        st.vals = {k: f(v) for k, v in st.vals.items()}

    def close_iter(self, st, P):
        if P in st.loops and self.rule.track_loops:
            cur, allv, kind = st.loops[P]
            allv = cur if allv is None else meet(allv, cur)
            st.loops[P] = (frozenset(), allv, kind)
        self.rename(st, lambda t: rename_elem(t, P) if has_elem(t, P) else t,
                    lambda t: has_elem(t, P))
        # elements of the value the container is (a copy of)
        v = st.store.get(P)
        if v is None:
            v = next((self.project(st, st.store[P[:i]], P[i:]) for i in range(len(P) - 1, 0, -1) if P[:i] in st.store), None)
        if v is not None and v[0] == 'init' and v[1] != P:
            Q = v[1]
            self.rename(st, lambda t: rename_elem(t, Q) if has_elem(t, Q) else t, lambda t: has_elem(t, Q))
        elif v is not None and v[0] in ('f', 'fld', 'sym'):
            e, o = ('fld', v, '[]'), ('fld', v, '[o]')
            self.rename(st, lambda t: subst(t, e, o), lambda t: contains(t, e))

    # ---------- facts ----------
    def truth(self, st, v):
        k = v[0]
        if k == 'c':
            return v[1] != 0
        if k in ('p', 'some', 's', 'clo', 'fn', 'tup', 'it', 'itf'):
            return True
        if k == 'none':
            return False
        if k == 'e':
            return self.eint(v) != 0
        if k == 'op':
            if v[1] == '!':
                t = self.truth(st, v[2])
                return None if t is None else not t
            if v[1] == '==':
                return self.eq(st, v[2], v[3])
        f = st.facts.get(v)
        if f:
            if f[0] == '=':
                return self.truth(st, f[1])
            if FALSE in f[1]:
                return True
        return None

    def eint(self, e):
        for n, x in self.p.enum(e[1]):
            if n == e[2]:
                return x
        raise AnalysisBroken("enumerator %s" % (e,))

    def mkenum(self, t, i):
        for n, x in self.p.enum(t):
            if x == i:
                return ('e', t, n)
        return ('e', t, str(i))

    def as_int(self, v):
        if v[0] == 'c':
            return v[1]
        if v[0] == 'e':
            try:
                return self.eint(v)
            except AnalysisBroken:
                return int(v[2]) if v[2].lstrip('-').isdigit() else None
        return None

    def eq(self, st, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        if a == b and a[0] not in ('top',):
            return True
        if a[0] == b[0] and a[0] in ('ith', 'itc') and a[1] == b[1]:
            return a[2] == b[2]
        if a[0] in ('itf', 'end') and b[0] in ('itf', 'end') and a[1] == b[1]:
            return False
        if a[0] == b[0] == 'p' and a[1][0] != b[1][0] and \
                (a[1][0][0] in ('L', 'T') or b[1][0][0] in ('L', 'T')):
            return False        # a local object is no other object
        if is_const(a) and is_const(b):
            ia, ib = self.as_int(a), self.as_int(b)
            if ia is not None and ib is not None:
                return ia == ib
            if a[0] == 's' and b[0] == 's':
                return a[1] == b[1]
            return a == b
        for x, y in ((a, b), (b, a)):
            if is_const(y):
                f = st.facts.get(x)
                if f and f[0] == '!=' and y in f[1]:
                    return False
                if y == FALSE:
                    t = self.truth(st, x)
                    if t is not None:
                        return not t
                if y[0] == 'none' and x[0] == 'some':
                    return False
        f = st.facts.get(('op', '==', a, b)) or st.facts.get(('op', '==', b, a))
        if f:
            if f[0] == '=':
                return self.truth(st, f[1])
            return True
        return None

    def resolve(self, st, v):
        f = st.facts.get(v)
        if f and f[0] == '=':
            return f[1]
        return v

    def set_fact(self, st, v, kind, c):
        if v[0] in ('top', 'idx'):
            return True
        old = st.facts.get(v)
        if kind == '=':
            if old:
                if old[0] == '=' and old[1] != c:
                    return self.as_int(old[1]) is not None and self.as_int(old[1]) == self.as_int(c)
                if old[0] == '!=' and c in old[1]:
                    return False
            st.facts[v] = ('=', c)
            return True
        if old and old[0] == '=':
            return old[1] != c
        s = (old[1] if old else frozenset()) | {c}
        es = [x for x in s if x[0] == 'e']
        if es:
            alln = [('e', es[0][1], n) for n, _ in self.p.enum(es[0][1])]
            rest = [e for e in alln if e not in s and
                    not (self.eint(e) == 0 and FALSE in s)]
            if not rest:
                return False
            if len(rest) == 1:
                st.facts[v] = ('=', rest[0])
                return True
        st.facts[v] = ('!=', s)
        return True

    def assume(self, st, fr, v, truth, node):
        """Restrict st to v being truthy/falsy; False if infeasible."""
        t = self.truth(st, v)
        if t is not None:
            return t == truth
        self.rule.on_assume(self, st, fr, v, truth, node)
        if v[0] == 'op':
            if v[1] == '!':
                return self.assume(st, fr, v[2], not truth, node)
            if v[1] == '==':
                a, b = v[2], v[3]
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'it' and y[0] == 'end' and x[1] == y[1]:
                        lp = st.loops.get(x[1])
                        if lp and lp[1] is None and not lp[0]:
                            # first test of the loop: is the container empty?
                            e = self.truth(st, self.size_of(st, x[1]))
                            if e is not None and e == truth:
                                return False
                        if truth:
                            self.complete(st, fr, x[1], node)
                        return True
                    Q = self.size_place(st, y, x) if x[0] in ('c', 'idx') else None
                    if Q and (y[0] == 'size' or x[0] == 'idx' or x == FALSE):
                        return self.idx_cmp(st, fr, x, Q, not truth, node) and (y[0] == 'size' or self.size_fact(st, v, y, x, truth))
                for x, y in ((a, b), (b, a)):
                    if is_const(y):
                        if truth:
                            return self.set_fact(st, x, '=', y)
                        return self.set_fact(st, x, '!=', y)
                return self.set_fact(st, v, '=' if not truth else '!=', FALSE)
            if v[1] == '<':
                a, b = v[2], v[3]
                Q = self.size_place(st, b, a) if a[0] in ('c', 'idx') else None
                if Q and (b[0] == 'size' or a[0] == 'idx' or a == FALSE):
                    return self.idx_cmp(st, fr, a, Q, truth, node) and (b[0] == 'size' or self.size_fact(st, v, b, a, not truth))
                if a == FALSE and b[0] in ('init', 'f', 'size', 'fld') :
                    # 0 < unsigned quantity
                    return self.set_fact(st, b, '!=' if truth else '=', FALSE)
        if truth:
            if v[0] == 'op' and v[1] in ('<',):
                return self.set_fact(st, v, '!=', FALSE)
            return self.set_fact(st, v, '!=', FALSE)
        if v[0] in ('sym', 'init', 'f', 'fld', 'op', 'old', 'size'):
            return self.set_fact(st, v, '=', FALSE)
        return True

    def size_place(self, st, b, i):
        """the container whose size the value b is"""
        if b[0] == 'size':
            return b[1]
        if b[:2] == ('f', 'size') and b[2][0] in ('f', 'fld'):
            for k, v in st.store.items():
                if v == b[2] and k[0][0] in ('L', 'T') and (i == ('idx',)) <= (k in st.loops):
                    return k
        return None

    def idx_cmp(self, st, fr, i, P, lt, node):
        """assume index i < size(P) is lt."""
        if i[0] == 'c' and i[1] == 0:
            if lt:
                st.loops[P] = (frozenset(), None, ('i', self.index_var(st, fr, node)))
                return self.set_fact(st, ('size', P), '!=', FALSE)
            ok = self.set_fact(st, ('size', P), '=', FALSE)
            if ok:
                self.rule.on_forall(self, st, fr, P, None, node)
            return ok
        if i[0] == 'idx' and not lt:
            self.complete(st, fr, P, node)
        return True

    def size_fact(self, st, v, size, i, zero):
        if i != FALSE:
            return True
        return self.set_fact(st, size, '=' if zero else '!=', FALSE)

    def index_var(self, st, fr, node):
        """place of the variable an index comparison tests, or None"""
        todo = [node] if isinstance(node, dict) else []
        found = set()
        while todo:
            n = todo.pop()
            if n['k'] in ('bin', 'un', 'cast', 'pass'):
                todo += [fr.fn['nodes'][n[x]] for x in ('a', 'b', 'x') if n.get(x)]
            elif n['k'] == 'var' and n.get('d') is not None:
                pl = self.var_place(st, fr, n)
                if st.store.get(pl) == FALSE:
                    found.add(pl)
        return found.pop() if len(found) == 1 else None

    def complete(self, st, fr, P, node):
        cur, allv, kind = st.loops.pop(P, (frozenset(), frozenset(), None))
        if kind is None:
            allv = frozenset()
        self.rule.on_forall(self, st, fr, P, allv, node)

    # ---------- evaluation ----------
    def var_place(self, st, fr, n):
        d = n['d']
        if d in fr.caps:
            return fr.caps[d]
        if n.get('st') == 'global':
            return (('G', n['q']),)
        if n.get('st') == 'static':
            return (('G', fr.fn['q'] + '::' + n['n']),)
        pl = (('L', fr.depth, d),)
        if n.get('st') == 'binding':
            b = st.store.get((('B', fr.depth, d),))
            if b is not None:
                return b[1]
            return pl
        if n.get('dt', '').rstrip().endswith('&'):
            v = self.load(st, pl)
            if v[0] == 'p':
                return v[1]
            return (('O', v),)
        return pl

    def place(self, st, fr, nid):
        """place of a glvalue node"""
        v = self.ev(st, fr, nid)
        if v[0] == 'p':
            return v[1]
        return (('O', v),)

    def rv(self, st, fr, nid):
        n = fr.fn['nodes'][nid]
        v = self.ev(st, fr, nid)
        if n.get('lv') and v[0] == 'p':
            return self.load(st, v[1])
        return v

    def ev(self, st, fr, nid):
        if not nid:
            return TOP
        k = (fr.depth, nid)
        v = st.vals.get(k)
        if v is None:
            v = self.compute(st, fr, nid)
            st.vals[k] = v
        return v

    def is_repo_class(self, t):
        s = strip_cv(t)
        return s in self.p.classes or tmpl(s) in self.p.classes and tmpl(s) != s

    def tmp(self, fr, nid):
        return (('T', fr.depth, nid),)

    def compute(self, st, fr, nid):
        """Evaluate a node without forking."""
        n = fr.fn['nodes'][nid]
        k = n['k']
        m = getattr(self, 'c_' + k, None)
        if m:
            return m(st, fr, nid, n)
        if 'cv' in n:
            return ('c', int(n['cv']))
        return TOP

    def c_int(self, st, fr, nid, n):
        return ('c', int(n['v']))

    def c_const(self, st, fr, nid, n):
        return ('c', int(n['cv'])) if 'cv' in n else TOP

    def c_str(self, st, fr, nid, n):
        return ('s', n['v'])

    def c_null(self, st, fr, nid, n):
        return NULL

    def c_zero(self, st, fr, nid, n):
        t = n.get('t', '')
        if strip_cv(t) in self.p.enums:
            return self.mkenum(strip_cv(t), 0)
        return FALSE

    def c_float(self, st, fr, nid, n):
        return ('f', 'float', ('c', nid))

    def c_enum(self, st, fr, nid, n):
        return ('e', n['e'], n['n'])

    def c_fnref(self, st, fr, nid, n):
        return ('fn', n['fn']['id'], n['fn']['q'])

    def c_memfn(self, st, fr, nid, n):
        return TOP

    def c_var(self, st, fr, nid, n):
        if 'sv' in n:
            p = (('G', n['q']),)
            st.store[p] = ('s', n['sv'])
            return ('p', p)
        if 'cvv' in n:
            p = (('G', n['q']),)
            c = ('c', int(n['cvv']))
            if strip_cv(n['dt']) in self.p.enums:
                c = self.mkenum(strip_cv(n['dt']), int(n['cvv']))
            st.store[p] = c
            return ('p', p)
        return ('p', self.var_place(st, fr, n))

    def c_this(self, st, fr, nid, n):
        return ('p', fr.this) if fr.this else TOP

    def c_pass(self, st, fr, nid, n):
        v = self.ev(st, fr, n['x'])
        sub = fr.fn['nodes'][n['x']]
        if n['w'] == 'mat' and not sub.get('lv'):
            if v[0] == 'p' and self.is_repo_class(sub.get('t', '')) and v[1][0][0] in ('T', 'R', 'H'):
                return v
            p = self.tmp(fr, nid)
            self.write(st, fr, p, v, n, quiet=True)
            return ('p', p)
        return v

    def c_mem(self, st, fr, nid, n):
        b = self.ev(st, fr, n['b'])
        f = n['f']
        if f == 'first' and n['cls'].startswith('std::'):
            f = 0
        elif f == 'second' and n['cls'].startswith('std::'):
            f = 1
        bn = fr.fn['nodes'][n['b']]
        if n.get('arrow'):
            if bn.get('lv'):
                b = self.load(st, b[1]) if b[0] == 'p' else b
            pl = self.deref(st, fr, b, n)
        elif b[0] == 'p':
            pl = b[1]
        else:
            return self.project(st, b, (f,))
        p = pl + (f,)
        if n.get('t', '').endswith('&'):
            v = self.load(st, p)
            return v if v[0] == 'p' else ('p', (('O', v),))
        return ('p', p)

    def c_cast(self, st, fr, nid, n):
        ck = n['ck']
        v = self.ev(st, fr, n['x'])
        sub = fr.fn['nodes'][n['x']]
        if ck == 'LValueToRValue':
            return self.load(st, v[1]) if v[0] == 'p' else v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived',
                  'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay',
                  'Dynamic', 'BitCast', 'LValueBitCast'):
            return v
        if ck == 'ArrayToPointerDecay':
            return self.load(st, v[1]) if v[0] == 'p' and v[1] in st.store else v
        if ck == 'NullToPointer':
            return NULL
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            if v[0] == 'c':
                return TRUE if v[1] else FALSE
            return v
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral'):
            t = strip_cv(n.get('t', ''))
            if t in self.p.enums and v[0] == 'c':
                return self.mkenum(t, v[1])
            if v[0] == 'e' and t not in self.p.enums:
                i = self.as_int(v)
                return ('c', i) if i is not None else v
            if v[0] == 'c' and t.startswith('unsigned') and v[1] < 0:
                bits = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32}.get(t, 64)
                return ('c', v[1] % (1 << bits))
            if v[0] == 'c' and t == 'bool':
                return TRUE if v[1] else FALSE
            if getattr(self.rule, 'casts', False) and v[0] in ('f', 'sym', 'op', 'init') and t not in self.p.enums:
                return ('f', 'as', ('s', t), v)
            return v
        if ck == 'ToVoid':
            return TOP
        return v

    def c_un(self, st, fr, nid, n):
        op = n['op']
        if op == '&':
            return self.ev(st, fr, n['x'])
        if op == '*':
            v = self.rv(st, fr, n['x'])
            return ('p', self.deref(st, fr, v, n))
        if op in ('++', '--'):
            pl = self.place(st, fr, n['x'])
            old = self.load(st, pl)
            new = self.step(st, fr, old, 1 if op == '++' else -1, pl, n)
            self.write(st, fr, pl, new, n)
            return old if n.get('post') else ('p', pl)
        v = self.rv(st, fr, n['x'])
        if op == '!':
            return self.neg(v)
        if 'cv' in n:
            return ('c', int(n['cv']))
        i = self.as_int(v)
        if i is not None:
            if op == '-':
                return ('c', -i)
            if op == '+':
                return ('c', i)
            if op == '~':
                return ('c', ~i)
        return ('op', op, v)

    def neg(self, v):
        if v[0] == 'c':
            return FALSE if v[1] else TRUE
        if v[0] == 'op' and v[1] == '!':
            return v[2]
        return ('op', '!', v)

    def step(self, st, fr, old, d, pl, n):
        if old[0] == 'it':
            self.close_iter(st, old[1])
            return old
        if old[0] == 'ith':
            return ('ith', old[1], old[2] + d)
        if old[0] == 'itc':
            return ('itc', old[1], old[2] + d * old[3], old[3])
        idx = [P for P, (c, a, k) in st.loops.items() if k and k[0] == 'i' and k[1] in (None, pl)]
        if old == FALSE and d == 1 and idx:
            for P in idx:
                self.close_iter(st, P)
            return ('idx',)
        if old[0] == 'idx' and d == 1:
            for P in idx:
                self.close_iter(st, P)
            return old
        if old[0] == 'c' and -1 <= old[1] + d <= self.rule.limit:
            return ('c', old[1] + d)
        return ('top',)

    def c_bin(self, st, fr, nid, n):
        op = n['op']
        if op in ('&&', '||'):
            # reached with a short-circuited value, or with the right side evaluated
            sel = st.vals.get((fr.depth, ('sel', nid)))
            if sel is not None:
                return sel
            a = self.rv(st, fr, n['a'])
            b = self.rv(st, fr, n['b'])
            ta = self.truth(st, a)
            if op == '&&':
                return FALSE if ta is False else b
            return TRUE if ta is True else b
        if op == ',':
            return self.ev(st, fr, n['b'])
        a, b = self.rv(st, fr, n['a']), self.rv(st, fr, n['b'])
        if 'cv' in n and op not in ('==', '!='):
            return ('c', int(n['cv']))
        return self.binop(st, op, a, b)

    def binop(self, st, op, a, b):
        if op in ('==', '!='):
            t = self.eq(st, a, b)
            if t is not None:
                return TRUE if (t == (op == '==')) else FALSE
            e = ('op', '==', a, b) if not is_const(a) else ('op', '==', b, a)
            return e if op == '==' else ('op', '!', e)
        a, b = self.resolve(st, a), self.resolve(st, b)
        if op == '>':
            return self.binop(st, '<', b, a)
        if op == '>=':
            return self.neg(self.binop(st, '<', a, b))
        if op == '<=':
            return self.neg(self.binop(st, '<', b, a))
        ia, ib = self.as_int(a), self.as_int(b)
        if ia is not None and ib is not None:
            try:
                return ('c', {'+': lambda: ia + ib, '-': lambda: ia - ib, '*': lambda: ia * ib,
                              '&': lambda: ia & ib, '|': lambda: ia | ib, '^': lambda: ia ^ ib,
                              '<<': lambda: ia << ib, '>>': lambda: ia >> ib,
                              '<': lambda: int(ia < ib), '/': lambda: ia // ib,
                              '%': lambda: ia % ib}[op]())
            except (KeyError, ZeroDivisionError, ValueError):
                return TOP
        if op == '<':
            f = st.facts.get(('op', '<', a, b))
            if f:
                return TRUE if f[0] == '!=' else FALSE
            if ib == 0 and a[0] == 'size':
                return FALSE
        if a == TOP or b == TOP:
            return TOP
        r = ('op', op, a, b)
        return r if depth_of(r) < 40 else TOP

    def c_asg(self, st, fr, nid, n):
        pl = self.place(st, fr, n['a'])
        b = self.rv(st, fr, n['b'])
        if n['op'] == '=':
            v = b
        else:
            a = self.load(st, pl)
            v = self.binop(st, n['op'][:-1], a, b)
            if v[0] == 'op' or (v[0] == 'c' and abs(v[1]) > self.rule.limit and n['op'] in ('+=', '-=')):
                v = TOP
        self.write(st, fr, pl, v, n)
        return ('p', pl)

    def c_cond(self, st, fr, nid, n):
        sel = st.vals.get((fr.depth, ('sel', nid)))
        if sel is None:
            c = self.truth(st, self.rv(st, fr, n['c']))
            if c is None:
                return TOP
        else:
            c = sel != FALSE
        return self.ev(st, fr, n['a'] if c else n['b'])

    def c_sub(self, st, fr, nid, n):
        b = self.rv(st, fr, n['a'])
        i = self.rv(st, fr, n['b'])
        return ('p', self.deref(st, fr, b, n)[0:] + ('[%d]' % i[1] if i[0] == 'c' and isinstance(i[1], int) and i[1] >= 0 else '[?]',))

    def c_lambda(self, st, fr, nid, n):
        caps = []
        for c in n['caps']:
            if c['kind'] == 'this':
                caps.append(('this', ('p', fr.this)))
            elif 'd' in c and 'x' in c and c['x']:
                v = self.ev(st, fr, c['x'])
                if c['kind'] == 'copy':
                    xn = fr.fn['nodes'][c['x']]
                    if v[0] == 'p' and xn.get('lv'):
                        v = self.load(st, v[1])
                    caps.append((c['d'], ('v', v)))
                else:
                    caps.append((c['d'], v))
        call = n.get('call', '')
        if call not in self.p.fns:
            for x in n.get('calls', ()):
                if x in self.p.fns:
                    call = x
                    break
        return ('clo', call, tuple(caps))

    def c_ilist(self, st, fr, nid, n):
        t = n.get('t', '')
        if n.get('fields') is not None and len(n['fields']) >= len(n['elems']) and self.is_repo_class(t):
            p = self.tmp(fr, nid)
            self.write(st, fr, p, ('sym', 'agg', fr.fn['q'], nid, fr.depth), n, quiet=True)
            for f, e in zip(n['fields'], n['elems']):
                self.store_val(st, fr, p + (f,), e, n)
            return ('p', p)
        vals = tuple(self.rv(st, fr, e) for e in n['elems'])
        if 'initializer_list' in t or '[' in t or (n.get('fields') is None and len(vals) != 1):
            return ('ilist', vals)
        if n.get('fields') is not None:
            return ('tup', vals)
        if len(vals) == 1:
            return vals[0]
        return self.c_zero(st, fr, nid, n)

    def store_val(self, st, fr, place, nid, node, quiet=True):
        """initialise place from expression nid"""
        n = fr.fn['nodes'][nid]
        v = self.ev(st, fr, nid)
        if v[0] == 'p' and (n.get('lv') or self.is_repo_class(n.get('t', ''))) \
                and not n.get('t', '').endswith('*'):
            self.copy_obj(st, fr, v[1], place, node, quiet)
        else:
            self.write(st, fr, place, v, node, quiet)

    def c_other(self, st, fr, nid, n):
        return TOP

    def c_throw(self, st, fr, nid, n):
        return TOP

    def c_ret(self, st, fr, nid, n):
        return TOP

    def c_stmt(self, st, fr, nid, n):
        return TOP

    def c_decl(self, st, fr, nid, n):
        for v in n['vars']:
            pl = (('L', fr.depth, v['d']),)
            if v.get('static'):
                pl = (('G', fr.fn['q'] + '::' + v['n']),)
            if 'x' not in v:
                self.write(st, fr, pl, ('undef', v['d']), n, quiet=True)
            elif v['t'].rstrip().endswith('&'):
                st.store[pl] = self.ev(st, fr, v['x'])
                for k in [k for k in st.store if len(k) > 1 and k[:1] == pl]:
                    del st.store[k]
            else:
                self.store_val(st, fr, pl, v['x'], n)
            if v.get('binds'):
                base = pl
                if v['t'].rstrip().endswith('&'):
                    x = st.store.get(pl, TOP)
                    base = x[1] if x[0] == 'p' else (('O', x),)
                for b in v['binds']:
                    step = b['i'] if 'hold' in b or 'f' not in b else \
                        b['f'] if self.is_repo_class(v['t'].rstrip('& ')) else {'first': 0, 'second': 1}.get(b['f'], b['f'])
                    tgt = base + (step,)
                    ev = self.load(st, tgt)
                    if b.get('t', '').rstrip().endswith('&') and ev[0] == 'p' and 'hold' not in b:
                        tgt = ev[1]
                    st.store[(('B', fr.depth, b['d']),)] = ('p', tgt)
        return TOP

    def c_new(self, st, fr, nid, n):
        p = (('H', fr.fn['q'], nid) + self.serial(st),)
        if n.get('x'):
            self.store_val(st, fr, p, n['x'], n)
        else:
            self.write(st, fr, p, ('undef', nid), n, quiet=True)
        return ('p', p)

    def c_delete(self, st, fr, nid, n):
        return TOP

    # calls/ctors reached through compute() (default arguments etc.): no fork
    def c_call(self, st, fr, nid, n):
        c = CallInfo(self, st, fr, nid, n)
        r = self.model(st, fr, nid, n, c)
        return r if r is not None else self.unknown(st, fr, nid, n, c)

    def c_ctor(self, st, fr, nid, n):
        c = CallInfo(self, st, fr, nid, n)
        r = self.ctor_model(st, fr, nid, n, c)
        return r if r is not None else self.sym(st, fr, nid, 'obj:' + n['cls'])

    # ---------- elements ----------
    def elem(self, st, fr, e):
        """Execute one CFG element; list of (state) or Exit objects."""
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisBroken("state budget exceeded in %s" % fr.fn['q'])
        if isinstance(e, dict):
            if 'dtor' in e:
                pl = (('L', fr.depth, e['dtor']),)
                fn = self.p.fns.get(e['fn']['id'])
                if fn and fr.depth < MAXDEPTH:
                    return [o.st if o.kind == 'ret' else o
                            for o in self.call_fn(st, fr, fn, pl, [], e.get('l'))]
                return [st]
            return self.initializer(st, fr, e)
        n = fr.fn['nodes'][e]
        k = n['k']
        if k in ('fnref', 'memfn'):
            return [st]
        key = (fr.depth, e)
        if k == 'call':
            return self.do_call(st, fr, e, n)
        if k == 'ctor':
            return self.do_ctor(st, fr, e, n)
        if k == 'throw':
            return [Exit('throw', st, n.get('tt', 'rethrow'), fr.loc(n))]
        if k == 'ret':
            v = TOP
            if n.get('x'):
                v = self.ev(st, fr, n['x'])
                xn = fr.fn['nodes'][n['x']]
                rt = fr.fn['rt'].rstrip()
                if not rt.endswith('&') and xn.get('lv') and v[0] == 'p' and not rt.endswith('*'):
                    v = self.load(st, v[1])
                if v[0] == 'p' and not rt.endswith('&') and not rt.endswith('*') \
                        and self.is_repo_class(rt):
                    R = (('R', fr.depth),)
                    self.copy_obj(st, fr, v[1], R, n, quiet=True)
                    v = ('p', R)
            self.rule.on_return(self, st, fr, v, n)
            return [Exit('ret', st, v, fr.loc(n))]
        if k == 'bin' and n['op'] in ('&&', '||'):
            v = self.c_bin(st, fr, e, n)
            st.vals.pop((fr.depth, ('sel', e)), None)
            st.vals[key] = v
            return [st]
        if k == 'cond':
            v = self.c_cond(st, fr, e, n)
            st.vals.pop((fr.depth, ('sel', e)), None)
            st.vals[key] = v
            return [st]
        st.vals[key] = self.compute(st, fr, e)
        return [st]

    def initializer(self, st, fr, e):
        this = fr.this
        if e.get('deleg') or e.get('base'):
            if e.get('deleg') and e.get('x'):
                v = self.ev(st, fr, e['x'])
                if v[0] == 'p' and v[1] != this:
                    self.copy_obj(st, fr, v[1], this, None)
            return [st]
        pl = this + (e['f'],)
        if e.get('ft', '').rstrip().endswith('&'):
            st.store[pl] = self.ev(st, fr, e['x'])
        else:
            self.store_val(st, fr, pl, e['x'], {'l': e.get('l')}, quiet=False)
        return [st]

    # ---------- calls ----------
    def do_ctor(self, st, fr, nid, n):
        self.calls_seen += 1
        c = CallInfo(self, st, fr, nid, n)
        h = self.rule.on_call(self, st, fr, nid, n, c)
        out = self.hook_result(st, fr, nid, h)
        if out is not None:
            return out
        r = self.ctor_model(st, fr, nid, n, c)
        if r is not None:
            st.vals[(fr.depth, nid)] = r
            return [st]
        fn = self.p.fns.get(n['fn']['id'])
        pl = self.tmp(fr, nid)
        if n['fn'].get('ctor') in ('copy', 'move') and (not fn or n['fn'].get('defaulted')):
            src = self.place(st, fr, n['args'][0])
            self.copy_obj(st, fr, src, pl, n, quiet=True)
            st.vals[(fr.depth, nid)] = ('p', pl)
            return [st]
        if fn and self.can_inline(fr, n['fn'], fn):
            for k in [k for k in st.store if k[:1] == pl]:
                del st.store[k]
            st.store[pl] = ('sym', 'new:' + n['cls'], fr.fn['q'], nid, fr.depth)
            if n['fn'].get('ctor') == 'default' and not fn['blocks']:
                pass
            outs = self.call_fn(st, fr, fn, pl, self.bind_args(st, fr, n['args'], fn), n.get('l'))
            res = []
            for o in outs:
                if o.kind == 'ret':
                    o.st.vals[(fr.depth, nid)] = ('p', pl)
                    res.append(o.st)
                else:
                    res.append(o)
            return res
        # unknown constructor: default member initialisers of repo classes
        cls = self.p.classes.get(strip_cv(n['cls']))
        st.store[pl] = self.sym(st, fr, nid, 'obj:' + n['cls'])
        if cls and not n['args']:
            self.default_fields(st, cls, pl)
        st.vals[(fr.depth, nid)] = ('p', pl) if cls else st.store[pl]
        return [st]

    def default_fields(self, st, cls, pl):
        for f in cls['fields']:
            t = strip_cv(f['t'])
            if 'iv' in f:
                v = ('c', int(f['iv']))
                if t in self.p.enums:
                    v = self.mkenum(t, int(f['iv']))
                st.store[pl + (f['n'],)] = v
            elif tmpl(t) == 'std::optional':
                st.store[pl + (f['n'],)] = NONE
            elif tmpl(t) in ('std::unique_ptr', 'std::shared_ptr'):
                st.store[pl + (f['n'],)] = NULL
            elif self.rule.byvalue and tmpl(t) == 'std::basic_string':
                st.store[pl + (f['n'],)] = ('s', '')
            elif self.rule.byvalue and tmpl(t) in ('std::vector', 'std::map'):
                st.store[pl + (f['n'],)] = ('empty',)

    def hook_result(self, st, fr, nid, h):
        if h is None:
            return None
        if h[0] == 'val':
            st.vals[(fr.depth, nid)] = h[1]
            return [st]
        if h[0] == 'states':
            out = []
            for s, v in h[1]:
                s.vals[(fr.depth, nid)] = v
                out.append(s)
            return out
        if h[0] == 'stop':
            return [Exit(h[1], st, TOP, fr.loc(fr.fn['nodes'][nid]))]
        raise AnalysisBroken("bad hook result")

    def can_inline(self, fr, ref, fn):
        if ref['q'] in self.rule.opaque or fr.depth >= MAXDEPTH:
            return False
        if fn['id'] in fr.chain() and list(fr.chain()).count(fn['id']) > self.rule.recursion:
            return False
        if fn.get('nocfg') or not fn.get('blocks'):
            return False
        return self.rule.inline(self, fn)

    def bind_args(self, st, fr, args, fn):
        out = []
        for i, a in enumerate(args):
            n = fr.fn['nodes'][a] if a else {}
            v = self.ev(st, fr, a) if a else TOP
            pt = fn['params'][i]['t'].rstrip() if i < len(fn['params']) else ''
            if pt.endswith('&'):
                if v[0] != 'p' or not n.get('lv'):
                    if v[0] == 'p' and self.is_repo_class(n.get('t', '')):
                        pass
                    else:
                        p = (('T', fr.depth, ('arg', a)),)
                        self.write(st, fr, p, v, n, quiet=True)
                        v = ('p', p)
                out.append(('ref', v))
            else:
                if v[0] == 'p' and n.get('lv'):
                    out.append(('obj', v[1]))
                elif v[0] == 'p' and self.is_repo_class(n.get('t', '')):
                    out.append(('obj', v[1]))
                else:
                    out.append(('val', v))
        return out

    def call_fn(self, st, fr, fn, this, args, line=None, caps=None):
        """Analyse fn in place. args: list of ('ref',v)/('val',v)/('obj',place)."""
        nf = Frame(fn, fr.depth + 1 if fr else 0, this, {}, fr, line)
        self.fns_seen.add(fn['id'])
        d = nf.depth
        for i, p in enumerate(fn['params']):
            pl = (('L', d, p['d']),)
            if i < len(args):
                kind, v = args[i]
                if kind == 'obj':
                    if p['t'].rstrip().endswith('&'):
                        st.store[pl] = ('p', v)
                    else:
                        self.copy_obj(st, nf, v, pl, None, quiet=True)
                else:
                    st.store[pl] = v
            else:
                st.store[pl] = TOP
        loops0 = set(st.loops)
        if caps:
            for dd, v in caps:
                if dd == 'this':
                    nf.this = v[1]
                elif v[0] == 'v':
                    pl = (('L', d, ('cap', dd)),)
                    st.store[pl] = v[1]
                    if v[1][0] == 'p':
                        pass
                    nf.caps[dd] = pl
                elif v[0] == 'p':
                    nf.caps[dd] = v[1]
        return self.tabulate(st, nf, d, loops0)

    def run_body(self, st, nf, d, loops0):
        outs = self.run_cfg(st, nf)
        for o in outs:
            if o.kind == 'ret':
                self.pop_frame(o, d, loops0)
        # merge identical outcomes
        seen, res = {}, []
        for o in outs:
            if o.kind != 'ret':
                res.append(o)
                continue
            k = (o.st.key(), o.val)
            if k not in seen:
                seen[k] = 1
                res.append(o)
        return res

    def tabulate(self, st, nf, d, loops0):
        """Reuse the outcomes of an earlier analysis of the same function from the
        same visible state; the caller's private locals are set aside."""
        priv_roots = {}
        for k in st.store:
            r = k[0]
            if isinstance(r, tuple) and len(r) > 1 and r[0] in ('L', 'T', 'B', 'R') and r[1] < d:
                priv_roots.setdefault(r, []).append(k)
        if priv_roots:
            todo = []

            def refs(t):
                if isinstance(t, (tuple, frozenset)):
                    if t in priv_roots:
                        todo.extend(priv_roots.pop(t))
                    for x in t:
                        if isinstance(x, (tuple, frozenset)):
                            refs(x)
            for k, v in st.store.items():
                if k[0] not in priv_roots:
                    refs(k)
                    refs(v)
            refs(nf.this or ())
            for x in nf.caps.values():
                refs(x)
            if isinstance(st.ts, tuple):
                refs(st.ts)
            for P in st.loops:
                refs(P)
            while todo:
                k = todo.pop()
                refs(k)
                refs(st.store.get(k, ()))
        priv = {k: st.store[k] for ks in priv_roots.values() for k in ks}
        pub = {k: v for k, v in st.store.items() if k not in priv}
        key = (nf.fn['id'], d, nf.this, tuple(sorted(nf.caps.items(), key=repr)),
               frozenset(pub.items()), frozenset(st.facts.items()),
               frozenset(st.loops.items()), st.ts)
        hit = self._memo.get(key)
        pvals = st.vals
        if hit is not None:
            outs, created = hit
            psyms = set()
            for k, v in priv.items():
                psyms.update(self.syms_of(k) + self.syms_of(v))
            for v in pvals.values():
                psyms.update(self.syms_of(v))
            if not (psyms & created):
                res = []
                for o in outs:
                    ns = o.st.copy()
                    ns.store.update(priv)
                    ns.vals.update({k: v for k, v in pvals.items() if k[0] < d})
                    ns.syms = st.syms | created
                    ns.trace = (st.trace, "%s (as analysed before)" % nf.fn['q'])
                    res.append(Exit(o.kind, ns, o.val, o.loc))
                self.hits += 1
                return res
        syms0 = st.syms
        outs = self.run_body(st, nf, d, loops0)
        if hit is None:
            saved, created = [], set()
            pk = set(priv)
            for o in outs:
                created |= o.st.syms - syms0
            clean = True
            psyms = set()
            for k, v in priv.items():
                psyms.update(self.syms_of(k) + self.syms_of(v))
            for v in pvals.values():
                psyms.update(self.syms_of(v))
            if psyms & created:
                clean = False
            if clean:
                for o in outs:
                    ns = o.st.copy()
                    ns.store = {k: v for k, v in ns.store.items() if k not in pk}
                    ns.vals = {}
                    saved.append(Exit(o.kind, ns, o.val, o.loc))
                self._memo[key] = (saved, created)
        return outs

    def pop_frame(self, o, d, loops0=None):
        s = o.st
        if loops0 is not None:
            for k in [k for k in s.loops if k not in loops0]:
                del s.loops[k]
        v = o.val
        if v[0] == 'p' and v[1][0] == ('R', d):
            # move the returned object to the caller's side
            self.copy_obj(s, None, v[1], (('R', d, 'x'),), None, quiet=True)
            o.val = v = ('p', (('R', d, 'x'),))
        def dead(root):
            return isinstance(root, tuple) and len(root) > 1 and root[0] in ('L', 'T', 'B', 'R') \
                and root[1] >= d and not (root[0] == 'R' and len(root) == 3)
        for k in [k for k in s.store if dead(k[0])]:
            del s.store[k]
        for k in [k for k in s.vals if k[0] >= d]:
            del s.vals[k]
        self.project_state(s, d)
        self.gc(s, v)

    def project_state(self, s, d):
        """Forget what the rule does not need (over-approximation)."""
        kp = self.rule.keep_place
        drop = []
        for k, v in s.store.items():
            if v == TOP or k[0][0] in ('L', 'T', 'B', 'R', 'G'):
                continue
            if not kp(self, k, v):
                drop.append(k)
        for k in drop:
            if k in s.store:
                n = len(k)
                for j in [j for j in s.store if len(j) > n and j[:n] == k]:
                    if not kp(self, j, s.store[j]):
                        s.store.pop(j)
                s.store[k] = TOP

    def gc(self, s, extra=None):
        if not s.facts:
            return
        live = set()
        def walk(t):
            if isinstance(t, tuple):
                if t and t[0] in ('sym', 'old'):
                    live.add(t)
                for x in t:
                    if isinstance(x, tuple):
                        walk(x)
        cand = [k for k in s.facts if self.has_sym(k)]
        if cand:
            for k, v in s.store.items():
                walk(k)
                walk(v)
            for v in s.vals.values():
                walk(v)
            if extra:
                walk(extra)
            if isinstance(s.ts, tuple):
                walk(s.ts)
            for k in cand:
                if not any(x in live for x in self.syms_of(k)):
                    del s.facts[k]
        drop = [k for k in s.facts if not self.rule.keep_fact(self, k)]
        if drop:
            # what the value of a local variable says must agree with what was decided before
            held = [v for k, v in s.store.items() if k[0][0] == 'L' and len(k) == 1 and v[0] in ('op', 'f')]
            for k in drop:
                if not any(v == k or contains(v, k) for v in held):
                    del s.facts[k]

    def has_sym(self, t):
        if t and t[0] in ('sym', 'old'):
            return True
        return any(isinstance(x, tuple) and self.has_sym(x) for x in t)

    def syms_of(self, t, acc=None):
        acc = [] if acc is None else acc
        if t and t[0] in ('sym', 'old'):
            acc.append(t)
        else:
            for x in t:
                if isinstance(x, tuple):
                    self.syms_of(x, acc)
        return acc

    def do_call(self, st, fr, nid, n):
        self.calls_seen += 1
        self.call_sites.add((fr.fn['id'], nid))
        c = CallInfo(self, st, fr, nid, n)
        h = self.rule.on_call(self, st, fr, nid, n, c)
        out = self.hook_result(st, fr, nid, h)
        if out is not None:
            return out
        if c.q in ('exit', 'std::exit', '_Exit', 'std::_Exit', 'quick_exit', 'std::quick_exit',
                   'abort', 'std::abort', 'std::terminate', '_exit'):
            return [Exit('exit', st, ('tup', (('s', c.q),) + tuple(c.rvs())), fr.loc(n))]
        if 'cv' in n and c.q.startswith('std::') and not n.get('args') and not n.get('obj'):
            st.vals[(fr.depth, nid)] = ('c', int(n['cv']))
            return [st]
        # lambda / function object
        if n.get('obj') and c.n == 'operator()':
            ov = self.rv(st, fr, n['obj'])
            if ov[0] == 'clo' and ov[1] in self.p.fns and fr.depth < MAXDEPTH:
                fn = self.p.fns[ov[1]]
                ref = n.get('fn') or {}
                if ref.get('id') in self.p.fns:
                    fn = self.p.fns[ref['id']]
                return self.finish_call(st, fr, nid, n, c, self.call_fn(
                    st, fr, fn, None, self.bind_args(st, fr, n['args'], fn), n.get('l'), ov[2]))
        m = self.algo(st, fr, nid, n, c)
        if m is not None:
            return m
        r = self.model(st, fr, nid, n, c)
        if r is not None:
            if isinstance(r, list):
                return r
            st.vals[(fr.depth, nid)] = r
            self.rule.after_call(self, st, fr, nid, n, c, r)
            return [st]
        fn = self.p.fns.get(n['fn']['id']) if n.get('fn') else None
        if n.get('fn', {}).get('asg') and n['fn'].get('defaulted') and self.is_repo_class(n['fn']['cls']):
            dst = c.objplace()
            src = self.place(st, fr, n['args'][0])
            self.copy_obj(st, fr, src, dst, n)
            st.vals[(fr.depth, nid)] = ('p', dst)
            return [st]
        if fn and self.can_inline(fr, n['fn'], fn):
            this = c.objplace() if n.get('obj') else None
            return self.finish_call(st, fr, nid, n, c, self.call_fn(
                st, fr, fn, this, self.bind_args(st, fr, n['args'], fn), n.get('l')))
        v = self.unknown(st, fr, nid, n, c)
        if n.get('fn', {}).get('noreturn'):
            return [Exit('noreturn', st, ('s', c.q), fr.loc(n))]
        st.vals[(fr.depth, nid)] = v
        self.rule.after_call(self, st, fr, nid, n, c, v)
        return [st]

    def finish_call(self, st, fr, nid, n, c, outs):
        res = []
        for o in outs:
            if o.kind == 'ret':
                v = o.val
                if v[0] == 'p' and v[1][0][0] == 'R':
                    t = self.tmp(fr, nid)
                    self.copy_obj(o.st, fr, v[1], t, n, quiet=True)
                    for k in [k for k in o.st.store if k[0] == v[1][0]]:
                        del o.st.store[k]
                    v = ('p', t)
                elif n.get('lv') and v[0] != 'p':
                    p = (('O', v),)
                    v = ('p', p)
                o.st.vals[(fr.depth, nid)] = v
                self.rule.after_call(self, o.st, fr, nid, n, c, v)
                res.append(o.st)
            else:
                res.append(o)
        return res

    def closure_of(self, st, v):
        return v if v[0] == 'clo' and v[1] in self.p.fns else None

    SEARCH = {'any_of': (True, TRUE, FALSE), 'none_of': (True, FALSE, TRUE),
              'all_of': (False, FALSE, TRUE), 'find_if': (True, 'itf', 'end'),
              'find_if_not': (False, 'itf', 'end')}
    ALGOS = frozenset(['for_each', 'transform', 'copy', 'move', 'copy_if', 'sort', 'stable_sort',
                       'lower_bound', 'adjacent_find', 'count_if', 'remove_if', 'erase_if',
                       'partition', 'stable_partition', 'equal', 'max_element', 'min_element',
                       'accumulate', 'unique', 'for_each_n'] + list(SEARCH))

    def algo(self, st, fr, nid, n, c):
        """std algorithms: zero iterations, or symbolic iterations to a fixpoint."""
        name, args = c.n, n['args']
        ranges = False
        if n.get('obj'):
            cls = c.cls or ''
            if not (name == 'operator()' and cls.startswith('std::ranges::')):
                return None
            name = cls[len('std::ranges::'):].strip('_')
            name = name[:-3] if name.endswith('_fn') else name
            ranges = True
        elif not c.q.startswith('std::'):
            return None
        if name not in self.ALGOS or not args or (name in ('copy', 'move') and len(args) < 2):
            return None
        P, full, rest = None, False, 1
        a0 = c.rv(0)
        if a0[0] == 'it' or a0[0] == 'end':
            P = a0[1]
            full = a0[0] == 'it' and len(args) > 1 and c.rv(1) == ('end', P)
            rest = 2
        elif ranges:
            pl = self.ev(st, fr, args[0])
            if pl[0] == 'p':
                P, full = pl[1], True
        clo = None
        for i in range(len(args)):
            v = c.rv(i)
            if v[0] == 'fn' and v[1] in self.p.fns:
                v = ('clo', v[1], ())
            if v[0] == 'clo' and v[1] in self.p.fns:
                clo = v
        dest = None
        for i in range(rest, len(args)):
            v = c.rv(i)
            if v[0] == 'f' and v[1] == 'back_inserter' and v[2][0] == 'p':
                dest = v[2][1]
        if name == 'copy' and dest and P is None and len(args) == 3 and self.load(st, dest) == ('empty',):
            self.write(st, fr, dest, ('f', 'container', a0, c.rv(1)), n)
            st.vals[(fr.depth, nid)] = c.rv(2)
            return [st]
        if fr.depth >= MAXDEPTH or (clo is None and not (full and dest)):
            return None
        fn = self.p.fns[clo[1]] if clo else None
        if fn is not None and 'blocks' not in fn:
            return None
        res = []

        def setres(s, v):
            s.vals[(fr.depth, nid)] = v if not n.get('lv') or v[0] == 'p' else ('p', (('O', v),))
            res.append(s)
        search = self.SEARCH.get(name) if full else None
        its = None
        if a0[0] in ('itc', 'ith') and len(args) > 1 and c.rv(1)[0] == a0[0] and c.rv(1)[1] == a0[1]:
            its = (a0, c.rv(1))
        elif P is not None and ranges and self.csize(st, P) is not None:
            its = (('itc', P, 0, 1), ('itc', P, self.csize(st, P), 1))
        put = its and self.rule.grow and dest is not None and self.csize(st, dest) is not None and (
            fn is not None if name in ('transform', 'copy_if') else name in ('copy', 'move'))
        if its and (put or fn is not None and (name in self.SEARCH or name == 'for_each')):
            look = self.SEARCH.get(name)
            work = [(st, its[0])]
            while work:
                s, i = work.pop()
                if i[2] == its[1][2]:
                    setres(s, (its[1] if look[2] == 'end' else look[2]) if look else TOP)
                    continue
                e = self.deref(s, fr, i)
                bound = [('ref', ('p', e)) if p['t'].rstrip().endswith('&') else ('val', self.load(s, e))
                         for p in (fn['params'] if fn else ())]
                for o in self.call_fn(s, fr, fn, None, bound, n.get('l'), clo[2]) if fn else [Exit('ret', s, self.load(s, e), None)]:
                    if o.kind != 'ret':
                        res.append(o)
                        continue
                    nx = self.step(o.st, fr, i, 1, None, n)
                    if put:
                        s2 = o.st.copy() if name == 'copy_if' else None
                        if s2 is not None and self.assume(s2, fr, o.val, False, n):
                            work.append((s2, nx))
                        if s2 is None or self.assume(o.st, fr, o.val, True, n):
                            cn = self.csize(o.st, dest)
                            if cn > 20:
                                raise AnalysisBroken('a container grows without bound in ' + fr.fn['q'])
                            val = o.val if name == 'transform' else self.load(o.st, e)
                            self.rule.on_write(self, o.st, fr, dest, ('add', 'push_back', val), n)
                            o.st.store[dest + ('[%d]' % cn,)] = val
                            self.set_csize(o.st, dest, cn + 1, cn)
                            work.append((o.st, nx))
                        continue
                    if not look:
                        work.append((o.st, nx))
                        continue
                    s2 = o.st.copy()
                    if self.assume(o.st, fr, o.val, look[0], n):
                        setres(o.st, i if look[1] == 'itf' else look[1])
                    if self.assume(s2, fr, o.val, not look[0], n):
                        work.append((s2, nx))
            return res

        def value(x):
            return (x, P) if isinstance(x, str) else x
        each = full and (search or name in ('for_each', 'transform', 'copy', 'move', 'copy_if'))
        s0 = st.copy()
        sz = self.size_of(s0, P) if full else None
        feasible0 = True
        if each:
            feasible0 = self.assume(s0, fr, self.binop(s0, '==', sz, FALSE), True, n)
            if feasible0:
                s0.loops[P] = (frozenset(), None, 'a')
                self.complete(s0, fr, P, n)
        if feasible0:
            setres(s0, value(search[2]) if search else self.sym(s0, fr, nid, name))
        if each and not self.assume(st, fr, self.binop(st, '==', sz, FALSE), False, n):
            return res
        if each:
            st.loops[P] = (frozenset(), None, 'a')
        work, seen, rounds = [st], set(), 0
        while work:
            s = work.pop()
            k = s.key()
            if k in seen:
                continue
            seen.add(k)
            rounds += 1
            if rounds > 200:
                raise AnalysisBroken("no fixpoint for std::%s in %s" % (name, fr.fn['q']))
            e = P + ('[]',) if P is not None else \
                (('O', ('sym', 'elem', fr.fn['q'], nid, fr.depth)),)
            if fn is not None:
                bound = []
                for p in fn['params']:
                    if p['t'].rstrip().endswith('&'):
                        bound.append(('ref', ('p', e)))
                    else:
                        bound.append(('val', self.load(s, e)))
                outs = self.call_fn(s, fr, fn, None, bound, n.get('l'), clo[2])
            else:
                outs = [Exit('ret', s, self.load(s, e), None)]
            for o in outs:
                if o.kind != 'ret':
                    res.append(o)
                    continue
                s = o.st
                val = o.val
                if val[0] == 'p' and fn is not None and fn['rt'].rstrip().endswith('&'):
                    val = self.load(s, val[1])
                if search:
                    t = self.truth(s, val)
                    s2 = s.copy() if t is None else s
                    if t is None or t == search[0]:
                        if t is not None or self.assume(s, fr, val, search[0], n):
                            s.loops.pop(P, None)
                            setres(s, value(search[1]))
                    if t is None or t != search[0]:
                        if t is not None or self.assume(s2, fr, val, not search[0], n):
                            self.close_iter(s2, P)
                            d = s2.copy()
                            self.complete(d, fr, P, n)
                            setres(d, value(search[2]))
                            work.append(s2)
                    continue
                if each:
                    if dest is not None:
                        add = val if name != 'copy_if' else self.load(s, e)
                        skip = None
                        if name == 'copy_if':
                            t = self.truth(s, val)
                            if t is None:
                                skip = s.copy()
                                if not self.assume(skip, fr, val, False, n):
                                    skip = None
                                if not self.assume(s, fr, val, True, n):
                                    s = None
                            elif not t:
                                skip, s = s, None
                        if s is not None:
                            self.rule.on_write(self, s, fr, dest, ('add', 'push_back', add), n)
                            self.iter_event(s, ('add', dest, add))
                            g = ('sym', 'grown', fr.fn['q'], nid, fr.depth)
                            self.write(s, fr, dest, g, n, quiet=True)
                            s.facts[('f', 'size', g)] = ('!=', frozenset({FALSE}))
                            s.store[dest + ('[back]',)] = add
                        both = [x for x in (s, skip) if x is not None]
                    else:
                        both = [s]
                    for x in both:
                        self.close_iter(x, P)
                        d = x.copy()
                        self.complete(d, fr, P, n)
                        setres(d, self.sym(d, fr, nid, name))
                        work.append(x)
                    continue
                setres(s, self.sym(s, fr, nid, name))
        return res

    def unknown(self, st, fr, nid, n, c):
        """Uninterpreted call: pure -> term, otherwise fresh symbol + havoc."""
        ref = n.get('fn') or {}
        pts = ref.get('pt', [])
        mut = []
        for i, a in enumerate(n['args']):
            pt = pts[i].rstrip() if i < len(pts) else ''
            if (pt.endswith('&') and not pt.endswith('&&') and not pt.startswith('const ')) or \
               (pt.endswith('*') and not pt.startswith('const ')):
                mut.append(a)
        objmut = n.get('obj') and not ref.get('const') and not ref.get('static')
        if not mut and not objmut and (ref.get('const') or not n.get('obj')) and \
                strip_cv(n.get('t', '')) != 'void' and not self.has_rvref(n, pts):
            args = tuple(c.rvs())
            if n.get('obj'):
                args = (c.objval(),) + args
            v = ('f', c.n if not ref.get('repo') else c.q) + args
            if any(a == TOP for a in args) or depth_of(v) > 40:
                v = self.sym(st, fr, nid, c.n)
            if n.get('lv'):
                return ('p', (('O', v),))
            return v
        s = self.sym(st, fr, nid, c.n or 'call')
        for i, a in enumerate(mut):
            v = self.ev(st, fr, a)
            if v[0] == 'p':
                self.write(st, fr, v[1], ('sym', 'out%d' % i, fr.fn['q'], nid, fr.depth), n)
        if objmut:
            pl = c.objplace()
            if 'stream' not in tmpl(c.cls or ''):
                self.write(st, fr, pl, ('sym', 'mut', fr.fn['q'], nid, fr.depth), n)
        if n.get('lv'):
            return ('p', (('O', s),))
        return s

    def has_rvref(self, n, pts):
        return False

    # ---------- library models ----------
    def ctor_model(self, st, fr, nid, n, c):
        cls = n['cls']
        t = n.get('t', '')
        k = n['fn'].get('ctor')
        args = n['args']
        if self.is_repo_class(cls) or (n['fn'].get('repo') and n['fn'].get('body')):
            return None
        if k in ('copy', 'move') and args:
            src = self.ev(st, fr, args[0])
            sn = fr.fn['nodes'][args[0]]
            if src[0] == 'p' and (sn.get('lv') or src[1][0][0] in ('T', 'R')):
                v = self.load(st, src[1])
                over = [kk for kk in st.store if len(kk) > len(src[1]) and kk[:len(src[1])] == src[1]]
                if over:
                    # std value with written components (pair/tuple/optional/vector)
                    p = self.tmp(fr, nid)
                    self.copy_obj(st, fr, src[1], p, n, quiet=True)
                    v = self.collapse(st, p)
                if k == 'move' and tmpl(cls) in ('std::unique_ptr', 'std::shared_ptr'):
                    self.write(st, fr, src[1], NULL, n)
                return v
            return src
        b = tmpl(cls)
        if b in ('std::pair', 'std::tuple'):
            if len(args) == 0:
                return ('sym', 'zero', b)
            if len(args) == 1:
                return c.rv(0)
            vs = c.rvs()
            if vs[0][0] == 'f' and vs[0][1] == 'piecewise':
                vs = vs[1:]
            return ('tup', tuple(vs))
        if b == 'std::optional':
            if not args:
                return NONE
            v = c.rv(0)
            at = strip_cv(fr.fn['nodes'][args[0]].get('t', ''))
            if at in ('std::nullopt_t',):
                return NONE
            if tmpl(at) == 'std::optional':
                return v
            if at.startswith('std::in_place'):
                return ('some', c.rv(1) if len(args) > 1 else TOP)
            return ('some', v)
        if b in ('std::unique_ptr', 'std::shared_ptr'):
            if not args:
                return NULL
            v = c.rv(0)
            src = self.ev(st, fr, args[0])
            at = fr.fn['nodes'][args[0]].get('t', '')
            if src[0] == 'p' and tmpl(at) in ('std::unique_ptr', 'std::shared_ptr') and \
                    n['fn']['pt'] and n['fn']['pt'][0].endswith('&&') and fr.fn['nodes'][args[0]].get('lv'):
                self.write(st, fr, src[1], NULL, n)
            return v
        if b in ('std::basic_string', 'std::basic_string_view'):
            if not args:
                return ('s', '')
            if len(args) >= 2 and c.rv(1) == ('f', 'size', c.rv(0)):
                return c.rv(0)
            if len(args) >= 2:
                a, z = c.rv(0), c.rv(1)
                if a[0] == z[0] == 'f' and a[1:2] == ('begin',) and z[1:2] == ('end',) and \
                        len(a) == 3 and a[2:] == z[2:] and b == 'std::basic_string':
                    return a[2]
            if len(args) == 1 or (len(args) == 2 and 'allocator' in
                                  fr.fn['nodes'][args[1]].get('t', '')):
                return c.rv(0)
            return ('f', 'string') + tuple(c.rvs())
        if b in ('std::variant', 'std::function', 'std::span', 'std::reference_wrapper',
                 'std::shared_ptr', 'std::error_code', 'std::allocator') or b.startswith('__gnu_cxx::__normal_iterator'):
            if not args:
                return NULL if b == 'std::function' else ('sym', 'zero', b)
            if b == 'std::span':
                return ('f', 'span') + tuple(self.span_arg(st, fr, a) for a in args)
            return c.rv(0)
        if b in ('std::vector', 'std::map', 'std::multimap', 'std::set', 'std::list', 'std::deque'):
            if not args:
                return ('empty',)
            a0 = c.rv(0)
            if a0[0] == 'p' and a0[1][0][0] in 'LT' and self.load(st, a0[1])[0] == 'ilist':
                a0 = self.load(st, a0[1])
            if a0[0] == 'ilist' and b in ('std::vector', 'std::list', 'std::deque'):
                return a0
            if self.rule.grow and len(args) >= 2 and b in ('std::vector', 'std::list', 'std::deque') and a0[0] == 'itc' and \
                    c.rv(1)[0] == 'itc' and c.rv(1)[1] == a0[1] and a0[3] == 1 and c.rv(1)[2] - a0[2] <= 20:
                return ('ilist', tuple(self.load(st, a0[1] + ('[%d]' % i,)) for i in range(a0[2], c.rv(1)[2])))
            return ('f', 'container') + tuple(c.rvs())
        if b == 'std::nullopt_t':
            return NONE
        if b == 'std::monostate':
            return ('s', 'monostate')
        if cls.startswith('std::') or cls.startswith('__gnu'):
            if len(args) == 1:
                return c.rv(0)
            return ('f', 'new:' + b) + tuple(c.rvs()) if args else ('sym', 'zero', b)
        return None

    def span_arg(self, st, fr, a):
        v = self.ev(st, fr, a)
        return v

    def collapse(self, st, p):
        """a std value stored piecewise at p -> one value"""
        n = len(p)
        sub = {k[n:]: v for k, v in st.store.items() if len(k) > n and k[:n] == p}
        base = st.store.get(p, ('init', p))
        ints = [k for k in sub if len(k) == 1 and isinstance(k[0], int)]
        if ints and base[0] == 'tup':
            l = list(base[1])
            for k in ints:
                if k[0] < len(l):
                    l[k[0]] = sub[k]
            return ('tup', tuple(l))
        return base

    def model(self, st, fr, nid, n, c):
        q, name = c.q, c.n
        args = n['args']
        nodes = fr.fn['nodes']
        lv = n.get('lv')
        std = q.startswith('std::') or q.startswith('__gnu_cxx::') or q.startswith('operator') or \
            (c.cls or '').startswith('std::') or (c.cls or '').startswith('__gnu_cxx')
        if not std:
            return None
        if not n.get('obj'):
            if name in ('move', 'forward', 'as_const', 'ref', 'cref') and len(args) == 1:
                return self.ev(st, fr, args[0])
            if name in ('make_unique', 'make_shared'):
                return self.make_ptr(st, fr, nid, n, c)
            if name in ('make_pair', 'make_tuple'):
                return ('tup', tuple(c.rvs()))
            if name in ('tie', 'forward_as_tuple'):
                return ('tup', tuple(self.ev(st, fr, a) for a in args))
            if name == 'make_optional':
                return ('some', c.rv(0))
            if name in ('get', 'get_if') and args:
                ta = (n.get('fn') or {}).get('ta') or []
                v = self.ev(st, fr, args[0])
                if name == 'get_if':
                    v = self.rv(st, fr, args[0])
                pl = v[1] if v[0] == 'p' else None
                if name == 'get' and ta and re.fullmatch(r'\d+(UL?)?', ta[0]):
                    i = int(re.match(r'\d+', ta[0]).group())
                    if 'variant' in tmpl(nodes[args[0]].get('t', '')):
                        step = 'as:%d' % i
                    else:
                        step = i
                else:
                    step = 'as:' + (ta[0] if ta else '?')
                if name == 'get_if':
                    if pl is None or isinstance(step, int):
                        return self.sym(st, fr, nid, 'get_if')
                    h = ('f', 'holds:' + step[3:], self.load(st, pl))
                    out = []
                    for truth in (True, False):
                        s2 = st.copy()
                        if self.assume(s2, fr, h, truth, n):
                            s2.vals[(fr.depth, nid)] = ('p', pl + (step,)) if truth else NULL
                            self.rule.after_call(self, s2, fr, nid, n, c, s2.vals[(fr.depth, nid)])
                            out.append(s2)
                    return out
                if pl is None:
                    r = self.project(st, v, (step,))
                    if lv:
                        p = self.tmp(fr, nid)
                        self.write(st, fr, p, r, n, quiet=True)
                        return ('p', p)
                    return r
                if isinstance(step, str):
                    base = self.load(st, pl)
                    if base[0] not in ('init', 'sym', 'fld') :
                        return ('p', pl)
                r = pl + (step,)
                if isinstance(step, int):
                    x = self.load(st, pl)
                    if x[0] == 'tup' and step < len(x[1]) and x[1][step][0] == 'p' and \
                            'std::tuple' in nodes[args[0]].get('t', '') and \
                            nodes[args[0]].get('t', '').count('&'):
                        return x[1][step]
                return ('p', r) if lv else self.load(st, r)
            if name in ('begin', 'cbegin', 'rbegin', 'end', 'cend', 'rend') and len(args) == 1:
                return self.iter_of(st, name, self.place(st, fr, args[0]))
            if name in ('empty', 'size', 'ssize') and len(args) == 1:
                sz = self.size_of(st, self.place(st, fr, args[0]))
                return sz if name != 'empty' else self.binop(st, '==', sz, FALSE)
            if name in ('next', 'prev') and args:
                v = c.rv(0)
                if v[0] == 'itc' and len(args) <= 2:
                    k = c.rv(1) if len(args) == 2 else ('c', 1)
                    if k[0] == 'c':
                        return ('itc', v[1], v[2] + v[3] * (k[1] if name == 'next' else -k[1]), v[3])
                if v[0] == 'it':
                    return ('f', name, ('init', v[1] + ('[]',))) if False else ('itn', v[1], name)
                return ('f', name, v)
            if name in ('distance', 'operator-') and len(args) == 2:
                a, b = c.rv(0), c.rv(1)
                if a[0] == b[0] == 'itc' and a[1] == b[1]:
                    return ('c', (b[2] - a[2] if name == 'distance' else a[2] - b[2]) * a[3])
            if name == 'operator+' and len(args) == 2 and c.rv(0)[0] == 'itc' and c.rv(1)[0] == 'c':
                v = c.rv(0)
                return ('itc', v[1], v[2] + v[3] * c.rv(1)[1], v[3])
            if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
                return self.binop(st, name[8:], c.rv(0), c.rv(1))
            if name == 'operator<=>':
                return ('f', '<=>', c.rv(0), c.rv(1))
            if name == 'operator+':
                return self.concat(c.rv(0), c.rv(1))
            if name == 'operator<<' and args and 'stream' in nodes[args[0]].get('t', ''):
                return self.ev(st, fr, args[0])
            if name in ('back_inserter', 'inserter', 'front_inserter'):
                return ('f', 'back_inserter', self.ev(st, fr, args[0]))
            if name == 'swap' and len(args) == 2:
                a, b = self.place(st, fr, args[0]), self.place(st, fr, args[1])
                tmp = (('T', fr.depth, ('swap', nid)),)
                self.copy_obj(st, fr, a, tmp, n, quiet=True)
                self.copy_obj(st, fr, b, a, n)
                self.copy_obj(st, fr, tmp, b, n)
                return TOP
            if name == 'exchange' and len(args) == 2:
                a = self.place(st, fr, args[0])
                old = self.load(st, a)
                self.write(st, fr, a, c.rv(1), n)
                return old
            if name in ('min', 'max') and len(args) == 2:
                v = ('f', name, c.rv(0), c.rv(1))
                if v[2][0] == 'c' and v[3][0] == 'c' and not isinstance(v[2][1], str) and not isinstance(v[3][1], str):
                    v = ('c', (min if name == 'min' else max)(v[2][1], v[3][1]))
                p = self.tmp(fr, nid)
                st.store[p] = v
                return ('p', p) if lv else v
            if name == 'holds_alternative':
                ta = (n.get('fn') or {}).get('ta') or ['?']
                return ('f', 'holds:' + ta[0], c.rv(0))
            return None
        # ---- methods ----
        cls = tmpl(c.cls or '')
        if name == 'operator=' and len(args) == 1:
            dst = c.objplace()
            d0 = self.ev(st, fr, n['obj'])
            objv = self.rv(st, fr, n['obj'])
            if cls == 'std::tuple' and objv[0] == 'tup' and all(x[0] == 'p' for x in objv[1]):
                src = c.rv(0)
                for i, x in enumerate(objv[1]):
                    self.write(st, fr, x[1], self.project(st, src, (i,)), n)
                return d0
            an = nodes[args[0]]
            src = self.ev(st, fr, args[0])
            if an.get('lv') and src[0] == 'p' and tmpl(an.get('t', '')) == cls:
                self.copy_obj(st, fr, src[1], dst, n)
                pt = n['fn']['pt'][0]
                if pt.endswith('&&') and cls in ('std::unique_ptr', 'std::shared_ptr'):
                    if src[1] != dst:
                        self.write(st, fr, src[1], NULL, n)
            else:
                v = c.rv(0)
                at = strip_cv(an.get('t', ''))
                if cls == 'std::optional' and tmpl(at) not in ('std::optional', 'std::nullopt_t'):
                    v = ('some', v)
                if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::function') and at == 'std::nullptr_t':
                    v = NULL
                if an.get('k') == 'ilist' and not an.get('elems'):
                    v = NONE if cls == 'std::optional' else NULL
                self.write(st, fr, dst, v, n)
            return ('p', dst)
        if name == 'swap' and len(args) == 1 and n.get('obj') and cls and cls.startswith('std::'):
            a, b = c.objplace(), self.place(st, fr, args[0])
            tmp = (('T', fr.depth, ('swap', nid)),)
            self.copy_obj(st, fr, a, tmp, n, quiet=True)
            self.copy_obj(st, fr, b, a, n)
            self.copy_obj(st, fr, tmp, b, n)
            return TOP
        if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr',
                   'std::__shared_ptr_access', 'std::__uniq_ptr_impl'):
            if name == 'operator*':
                return ('p', self.deref(st, fr, c.objval(), n))
            if name in ('operator->', 'get'):
                return c.objval()
            if name == 'operator bool':
                return c.objval()
            if name == 'release':
                v = c.objval()
                self.write(st, fr, c.objplace(), NULL, n)
                return v
            if name == 'reset':
                self.write(st, fr, c.objplace(), c.rv(0) if args else NULL, n)
                return TOP
            if name == 'use_count':
                return TOP
        if cls in ('std::optional', 'std::_Optional_base_impl'):
            if name in ('operator*', 'value', 'operator->'):
                p = c.objplace() + ('opt',)
                return ('p', p)
            if name in ('operator bool', 'has_value'):
                return c.objval()
            if name == 'value_or':
                v = c.objval()
                t = self.truth(st, v)
                s2 = st.copy()
                outs = []
                if self.assume(st, fr, v, True, n):
                    st.vals[(fr.depth, nid)] = self.project(st, v, ('opt',))
                    outs.append(st)
                if self.assume(s2, fr, v, False, n):
                    s2.vals[(fr.depth, nid)] = c.rv(0)
                    outs.append(s2)
                return outs
            if name == 'reset':
                self.write(st, fr, c.objplace(), NONE, n)
                return TOP
            if name == 'emplace':
                self.write(st, fr, c.objplace(), ('some', c.rv(0) if args else TOP), n)
                return ('p', c.objplace() + ('opt',))
        if cls == 'std::reference_wrapper':
            return self.rv(st, fr, n['obj']) if name in ('get',) else None
        if cls == 'std::function' and name == 'operator bool':
            return c.objval()
        if cls in ('std::basic_string', 'std::basic_string_view'):
            if name in ('operator basic_string_view', 'c_str', 'data', 'substr') and not args:
                return c.objval()
            if name == 'empty':
                v = c.objval()
                if v[0] == 's':
                    return TRUE if v[1] == '' else FALSE
                if v[0] == 'cat' and any(x[0] == 's' and x[1] for x in v[1]):
                    return FALSE
                return self.binop(st, '==', ('f', 'size', v), FALSE)
            if name in ('size', 'length'):
                v = c.objval()
                return ('c', len(v[1])) if v[0] == 's' else ('f', 'size', v)
            if name in ('operator+=', 'append', 'push_back'):
                p = c.objplace()
                xs = [x for x in c.rvs()]
                if self.rule.track_text and name != 'append':
                    xs = [('s', chr(x[1])) if x[0] == 'c' and isinstance(x[1], int) and 0 < x[1] < 128 else x for x in xs]
                v = self.concat(self.load(st, p), *xs)
                self.write(st, fr, p, v, n)
                return ('p', p)
            if name in ('assign',) and len(args) == 1:
                self.write(st, fr, c.objplace(), c.rv(0), n)
                return ('p', c.objplace())
            if name in ('clear',):
                self.write(st, fr, c.objplace(), ('s', ''), n)
                return TOP
            if name in ('remove_prefix', 'remove_suffix') and len(args) == 1:
                v, k = c.objval(), c.rv(0)
                self.write(st, fr, c.objplace(), ('f', 'substr', v, k) if name == 'remove_prefix' else
                           ('f', 'substr', v, ('c', 0), self.binop(st, '-', ('f', 'size', v), k)), n)
                return TOP
            if name in ('operator[]', 'front', 'back', 'at'):
                v = ('f', 'char', c.objval()) + tuple(c.rvs()) + (('s', name),)
                return ('p', (('O', v),)) if lv else v
        if cls in ('std::vector', 'std::list', 'std::deque', 'std::map', 'std::multimap', 'std::set',
                   'std::span', 'std::initializer_list', 'std::array', 'std::multiset'):
            r = self.container(st, fr, nid, n, c, cls, name, args, lv)
            if r is not None:
                return r
        if 'iterator' in cls or cls.startswith('std::_Rb_tree') or cls.startswith('std::_List'):
            v = c.objval()
            if name == 'operator*':
                return ('p', self.deref(st, fr, v, n))
            if name == 'operator->':
                return ('p', self.deref(st, fr, v, n))
            if name in ('operator++', 'operator--'):
                p = c.objplace()
                new = self.step(st, fr, v, 1 if name == 'operator++' else -1, p, n) if v[0] == 'itc' else \
                    self.step(st, fr, v, 1, p, n) if v[0] in ('it', 'ith') and name == 'operator++' else \
                    self.sym(st, fr, nid, 'iter')
                self.write(st, fr, p, new, n, quiet=True)
                return ('p', p) if lv else v
            if v[0] == 'itc' and name in ('operator+', 'operator-', 'operator+=', 'operator-=') and c.rv(0)[0] == 'c':
                k = c.rv(0)[1] * v[3] * (1 if '+' in name else -1)
                new = ('itc', v[1], v[2] + k, v[3])
                if '=' in name:
                    self.write(st, fr, c.objplace(), new, n, quiet=True)
                    return ('p', c.objplace()) if lv else new
                return new
            if v[0] == 'itc' and name == 'operator-' and c.rv(0)[0] == 'itc':
                return ('c', (v[2] - c.rv(0)[2]) * v[3])
            if v[0] == 'itc' and name == 'base':
                return ('itc', v[1], v[2] + 1, 1) if v[3] < 0 else v
            if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
                return ('f', name, v) + tuple(c.rvs())
            if name == 'operator==':
                return self.binop(st, '==', v, c.rv(0))
            if name == 'operator!=':
                return self.binop(st, '!=', v, c.rv(0))
            if name == 'base':
                return v
        if name in ('operator==', 'operator!=') and len(args) == 1:
            return self.binop(st, name[8:], c.objval(), c.rv(0))
        if name == 'operator<<' or name in ('write', 'put', 'flush') and 'stream' in cls:
            return ('p', c.objplace()) if lv else TOP
        return None

    def concat(self, *vs):
        """('cat', parts); TOP as the last part stands for any text."""
        r = self.concat0(*vs)
        if r[0] == 'cat' and not self.rule.track_text:
            return TEXT if any(x[0] == 's' for x in r[1]) else TOP
        return r

    def concat0(self, *vs):
        parts = []
        for v in vs:
            if parts and parts[-1] == TOP:
                break
            if v[0] == 'cat':
                if any(x[0] != 's' and x in parts for x in v[1]):
                    parts.append(TOP)
                else:
                    parts += list(v[1])
            elif v == ('s', ''):
                continue
            elif v[0] == 's' and parts and parts[-1][0] == 's':
                parts[-1] = ('s', parts[-1][1] + v[1])
            elif v[0] != 's' and v in parts:
                parts.append(TOP)
            else:
                parts.append(v)
        if len(parts) > 8 or sum(depth_of(x) for x in parts) > 50:
            lit = [x for x in parts if x[0] == 's'][:1]
            return ('cat', tuple(lit) + (TOP,)) if lit else TOP
        if not parts:
            return ('s', '')
        if len(parts) == 1:
            return parts[0]
        return ('cat', tuple(parts))

    def csize(self, st, P):
        v = st.store.get(P + ('#n',))
        if v is not None:
            return v[1]
        if self.rule.grow:
            v = self.load(st, P)
            if v == ('empty',):
                return 0
            if v[0] == 'ilist' and st.store.get(P) == v and not any(k[:len(P)] == P and len(k) > len(P) for k in st.store):
                for i, x in enumerate(v[1]):
                    st.store[P + ('[%d]' % i,)] = x
                st.store[P + ('#n',)] = ('c', len(v[1]))
                if self.rule.byvalue:
                    st.store[P] = ('empty',)
                return len(v[1])
        n = self.rule.concrete(self, P)
        if n is None or any(P[:i] in st.store for i in range(1, len(P) + 1)):
            return None
        return n

    def set_csize(self, st, P, n, old):
        for i in range(n, old):
            e = P + ('[%d]' % i,)
            for k in [k for k in st.store if k[:len(e)] == e]:
                del st.store[k]
        st.store[P + ('#n',)] = ('c', n)

    def iter_of(self, st, name, pl):
        n = self.csize(st, pl)
        if n is not None:
            rev = name in ('rbegin', 'crbegin', 'rend', 'crend')
            first = name.lstrip('c').lstrip('r') == 'begin'
            return ('itc', pl, (n - 1 if rev else 0) if first else (-1 if rev else n), -1 if rev else 1)
        base = self.load(st, pl)
        for _ in range(3):
            if base[0] == 'p' and base[1][0][0] in 'LT' and pl[0][0] in 'LTBO':
                base = self.load(st, base[1])
        if base[0] == 'ilist' and len(base[1]) <= 8 and name in ('begin', 'cbegin', 'end', 'cend') \
                and not any(TOP == x for x in base[1]):
            return ('ith', base, 0 if 'begin' in name else len(base[1]))
        if name in ('begin', 'cbegin', 'rbegin', 'crbegin'):
            st.loops[pl] = (frozenset(), None, 'r')
            return ('it', pl)
        return ('end', pl)

    def size_of(self, st, pl):
        n = self.csize(st, pl)
        if n is not None:
            return ('c', n)
        v = self.load(st, pl)
        if v == ('empty',):
            return FALSE
        if v[0] == 'ilist':
            return ('c', len(v[1]))
        if v[0] == 'init' and v[1] == pl:
            return ('size', pl)
        return ('f', 'size', v)

    def container(self, st, fr, nid, n, c, cls, name, args, lv):
        pl = c.objplace()
        if name in ('begin', 'cbegin', 'rbegin', 'end', 'cend', 'rend'):
            return self.iter_of(st, name, pl)
        if name in ('size',):
            return self.size_of(st, pl)
        if name == 'empty':
            return self.binop(st, '==', self.size_of(st, pl), FALSE)
        cn = self.csize(st, pl)
        if cn is not None:
            if name in ('front', 'back') and cn:
                e = pl + ('[%d]' % (0 if name == 'front' else cn - 1),)
                return ('p', e) if lv else self.load(st, e)
            if self.rule.grow and cn > 20 and name in ('push_back', 'emplace_back'):
                raise AnalysisBroken('a container grows without bound in ' + fr.fn['q'])
            if name in ('push_back', 'emplace_back') and (len(args) == 1 or len(args) == 2 and self.rule.grow):
                val = c.rv(0) if len(args) == 1 else ('tup', tuple(c.rvs()))
                self.rule.on_write(self, st, fr, pl, ('add', name, val), n)
                e = pl + ('[%d]' % cn,)
                st.store[e] = val
                raw = c.raw(0) if len(args) == 1 else TOP
                if self.rule.grow and raw[0] == 'p' and not str(fr.fn['nodes'].get(args[0], {}).get('t', '*')).endswith('*') \
                        and any(len(k) > len(raw[1]) and k[:len(raw[1])] == raw[1] for k in st.store):
                    self.copy_obj(st, fr, raw[1], e, n, True)
                self.set_csize(st, pl, cn + 1, cn)
                return ('p', e) if lv else TOP
            k = None
            if name == 'pop_back' and cn:
                k = cn - 1
            elif name == 'clear':
                k = 0
            elif name == 'resize' and args and c.rv(0)[0] == 'c':
                k = c.rv(0)[1]
            elif name == 'erase' and len(args) == 2 and c.rv(0)[0] == c.rv(1)[0] == 'itc' and c.rv(1)[2] == cn:
                k = c.rv(0)[2]
            if k is not None and 0 <= k <= cn:
                self.rule.on_write(self, st, fr, pl, ('del', name, ('c', k)), n)
                self.set_csize(st, pl, k, cn)
                return TOP
        if name in ('front', 'back', 'operator[]', 'at'):
            v = self.load(st, pl)
            i = c.rv(0) if args else ('c', 0 if name == 'front' else len(v[1]) - 1 if v[0] == 'ilist' else 0)
            if v[0] == 'ilist' and i[0] == 'c' and 0 <= i[1] < len(v[1]):
                e = pl + ('[%d]' % i[1],)
                if e not in st.store:
                    st.store[e] = v[1][i[1]]
                return ('p', e) if lv else st.store[e]
        if name in ('front', 'back'):
            return ('p', pl + ('[%s]' % name,)) if lv else self.load(st, pl + ('[%s]' % name,))
        if name in ('operator[]', 'at'):
            i = c.rv(0)
            if cls in ('std::map',):
                return ('p', pl + (('key', i),))
            if i[0] == 'idx' or (i == FALSE and (st.loops.get(pl, (0, 0, 0))[2] or ' ')[0] == 'i'):
                return ('p', pl + ('[]',))
            if i == FALSE:
                return ('p', pl + ('[0]',))
            if is_const(i):
                return ('p', pl + ('[%s]' % (i[1],),))
            return ('p', pl + (('at', i),)) if i != TOP and depth_of(i) < 12 else ('p', pl + ('[?]',))
        if name == 'insert_or_assign' and cls == 'std::map' and len(args) == 2:
            self.write(st, fr, pl + (('key', c.rv(0)),), c.rv(1), n)
            return ('tup', (TOP, self.sym(st, fr, nid, name)))
        if cls in ('std::vector', 'std::list', 'std::deque') and (
                name == 'assign' and len(args) == 2 or
                name == 'insert' and len(args) == 3 and self.load(st, pl) == ('empty',)):
            self.write(st, fr, pl, ('f', 'container') + tuple(c.rvs()[-2:]), n)
            return TOP
        if name in ('push_back', 'emplace_back') and len(args) == 1 and getattr(self.rule, 'lists', False):
            v = self.load(st, pl)
            if v == ('empty',) or v[0] == 'ilist' and len(v[1]) < 8:
                self.write(st, fr, pl, ('ilist', (v[1] if v[0] == 'ilist' else ()) + (c.rv(0),)), n)
                return TOP if not lv else ('p', pl + ('[%d]' % (len(v[1]) if v[0] == 'ilist' else 0),))
        if name in ('push_back', 'emplace_back', 'emplace', 'insert', 'insert_or_assign', 'try_emplace'):
            vals = tuple(c.rvs())
            self.rule.on_write(self, st, fr, pl, ('add', name) + vals, n)
            self.iter_event(st, ('add', pl) + vals)
            self.write(st, fr, pl, ('sym', 'grown', fr.fn['q'], nid, fr.depth), n, quiet=True)
            st.facts[('f', 'size', ('sym', 'grown', fr.fn['q'], nid, fr.depth))] = ('!=', frozenset({FALSE}))
            if name in ('push_back', 'emplace_back') and len(vals) == 1:
                st.store[pl + ('[back]',)] = vals[0]
            if name == 'emplace_back' and lv:
                return ('p', pl + ('[back]',))
            return TOP if not lv else ('p', pl + ('[back]',))
        if name in ('clear', 'pop_back', 'pop_front', 'erase', 'resize', 'reserve', 'shrink_to_fit'):
            if name in ('reserve', 'shrink_to_fit'):
                return TOP
            vals = tuple(c.rvs())
            self.rule.on_write(self, st, fr, pl, ('del', name) + vals, n)
            self.write(st, fr, pl, ('empty',) if name == 'clear' else
                       ('sym', 'cut', fr.fn['q'], nid, fr.depth), n, quiet=True)
            return self.sym(st, fr, nid, name)
        if name in ('find', 'lower_bound', 'upper_bound', 'count', 'contains'):
            return ('f', name, c.objval()) + tuple(c.rvs())
        return None

    def serial(self, st):
        if not self.rule.byvalue:
            return ()
        k = (('G', '#new'),)
        st.store[k] = ('c', st.store.get(k, FALSE)[1] + 1)
        return (st.store[k][1],)

    def make_ptr(self, st, fr, nid, n, c):
        ta = (n.get('fn') or {}).get('ta') or ['?']
        t = strip_cv(ta[0])
        p = (('H', fr.fn['q'], nid, fr.depth) + self.serial(st),)
        for k in [k for k in st.store if k[:1] == p]:
            del st.store[k]
        cls = self.p.classes.get(t)
        args = n['args']
        if len(args) == 1 and strip_cv(fr.fn['nodes'][args[0]].get('t', '')) == t:
            # copy construction: user-provided copy constructors are analysed in place
            src = self.place(st, fr, args[0])
            ref = self.copy_ctor_ref(t)
            fn = self.p.fns.get(ref['id']) if ref else None
            if fn and ref.get('user') and self.can_inline(fr, ref, fn):
                st.store[p] = ('sym', 'new:' + t, fr.fn['q'], nid, fr.depth)
                outs = self.call_fn(st, fr, fn, p, [('ref', ('p', src))], n.get('l'))
                return [self._setval(o.st, fr, nid, ('p', p)) if o.kind == 'ret' else o for o in outs]
            if ref and ref.get('user'):
                st.store[p] = ('f', 'copy', ('p', src))
            else:
                self.copy_obj(st, fr, src, p, n, quiet=True)
            return ('p', p)
        cands = [m for m in (cls or {}).get('methods', [])
                 if m.get('ctor') and len(m['pt']) == len(args) and m.get('ctor') not in ('copy', 'move')]
        if cls and len(cands) == 1 and cands[0]['id'] in self.p.fns:
            fn = self.p.fns[cands[0]['id']]
            if self.can_inline(fr, cands[0], fn):
                st.store[p] = ('sym', 'new:' + t, fr.fn['q'], nid, fr.depth)
                if not args:
                    self.default_fields(st, cls, p)
                bound = []
                for i, a in enumerate(args):
                    bound.append(self.bind_args(st, fr, [a], {'params': [fn['params'][i]]})[0])
                outs = self.call_fn(st, fr, fn, p, bound, n.get('l'))
                return [self._setval(o.st, fr, nid, ('p', p)) if o.kind == 'ret' else o for o in outs]
        if cls and not args:
            st.store[p] = ('sym', 'new:' + t, fr.fn['q'], nid, fr.depth)
            self.default_fields(st, cls, p)
        else:
            st.store[p] = ('f', 'new:' + t) + tuple(c.rvs())
        return ('p', p)

    def _setval(self, st, fr, nid, v):
        st.vals[(fr.depth, nid)] = v
        return st

    def copy_ctor_ref(self, t):
        for m in self.p.classes.get(t, {}).get('methods', []):
            if m.get('ctor') == 'copy':
                return m
        return None

    # ---------- CFG ----------
    def blocks(self, fn):
        b = self._blk.get(fn['id'])
        if b is None:
            b = {x['id']: x for x in fn['blocks']}
            self._blk[fn['id']] = b
            self._cross[fn['id']] = self.cross(fn)
            self._live[fn['id']] = self.liveness(fn)
        return b

    @staticmethod
    def operands(n):
        out = []
        for k in ('x', 'a', 'b', 'c', 'obj', 'cal'):
            v = n.get(k)
            if isinstance(v, int):
                out.append(v)
        for k in ('args', 'elems'):
            out += [v for v in n.get(k, []) if isinstance(v, int)]
        for v in n.get('vars', []):
            if 'x' in v:
                out.append(v['x'])
        for v in n.get('caps', []):
            if v.get('x'):
                out.append(v['x'])
        return out

    def liveness(self, fn):
        """block id -> local variables that may be read from its start on"""
        use, decl, succ = {}, {}, {}
        nodes = fn['nodes']
        for b in fn['blocks']:
            u, dd, seen = set(), set(), set()
            todo = []
            for e in b['e']:
                if isinstance(e, dict):
                    if e.get('x'):
                        todo.append(e['x'])
                    if 'dtor' in e and e.get('fn', {}).get('id') in self.p.fns:
                        u.add(e['dtor'])
                else:
                    todo.append(e)
                    if nodes[e]['k'] == 'decl':
                        for v in nodes[e]['vars']:
                            dd.add(v['d'])
                            dd |= {x['d'] for x in v.get('binds', [])}
            todo += [b[k] for k in ('tc', 'tn') if b.get(k)]
            while todo:
                x = todo.pop()
                if x in seen or x not in nodes:
                    continue
                seen.add(x)
                n = nodes[x]
                if n['k'] == 'var':
                    u.add(n['d'])
                for c in n.get('caps', []):
                    if 'd' in c:
                        u.add(c['d'])
                todo += self.operands(n)
            use[b['id']], decl[b['id']] = u - dd, dd
            succ[b['id']] = [x for x in b['s'] if x is not None]
        live = {k: set(v) for k, v in use.items()}
        ch = True
        while ch:
            ch = False
            for k in live:
                new = set(use[k])
                for x in succ[k]:
                    new |= live[x] - decl[k]
                if new != live[k]:
                    live[k] = new
                    ch = True
        return live

    def sweep(self, st, fr, bid):
        """Drop dead locals and temporaries of the running frame."""
        live = self._live[fr.fn['id']].get(bid, ())
        d = fr.depth
        mine = {}
        for k in st.store:
            r = k[0]
            if isinstance(r, tuple) and len(r) > 1 and r[1] == d and r[0] in ('L', 'T', 'B'):
                mine.setdefault(r, []).append(k)
        if not mine:
            return
        roots = set(mine)
        keep = set()
        todo = []
        for r in mine:
            if r[0] == 'L' and (r[2] in live or isinstance(r[2], tuple)) or \
                    r[0] == 'B' and r[2] in live:
                keep.add(r)
                todo.append(r)

        def refs(t):
            if isinstance(t, (tuple, frozenset)):
                if t in roots and t not in keep:
                    keep.add(t)
                    todo.append(t)
                for x in t:
                    if isinstance(x, (tuple, frozenset)):
                        refs(x)
        for k, v in st.store.items():
            if k[0] not in mine:
                refs(k)
                refs(v)
        for v in st.vals.values():
            refs(v)
        refs(st.ts) if isinstance(st.ts, tuple) else None
        if fr.this:
            refs(fr.this)
        for pl in fr.caps.values():
            refs(pl)
        while todo:
            r = todo.pop()
            for k in mine[r]:
                refs(k)
                refs(st.store[k])
        for r in mine:
            if r not in keep:
                for k in mine[r]:
                    del st.store[k]
        for P in [P for P in st.loops if P[0] in mine and P[0] not in keep]:
            del st.loops[P]

    def cross(self, fn):
        """nodes whose value is used outside the block that computes it"""
        home = {}
        for b in fn['blocks']:
            for e in b['e']:
                if not isinstance(e, dict):
                    home[e] = b['id']
        res = set()

        ops = self.operands

        def need(nid, bid, seen):
            if nid in seen:
                return
            seen.add(nid)
            h = home.get(nid)
            if h is not None and h != bid:
                res.add(nid)
                return
            n = fn['nodes'].get(nid)
            if not n:
                return
            for o in ops(n):
                need(o, bid, seen)
        for b in fn['blocks']:
            seen = set()
            for e in b['e']:
                if isinstance(e, dict):
                    if e.get('x'):
                        need(e['x'], b['id'], seen)
                else:
                    for o in ops(fn['nodes'][e]):
                        need(o, b['id'], seen)
            for k in ('tc', 'tn'):
                if b.get(k):
                    need(b[k], b['id'], seen)
        return res

    def run_cfg(self, st, fr):
        fn = fr.fn
        blocks = self.blocks(fn)
        cross = self._cross[fn['id']]
        outs = []
        work = [(fn['entry'], st)]
        seen = {}
        while work:
            bid, s = work.pop()
            b = blocks[bid]
            k = s.key()
            vis = seen.setdefault(bid, set())
            if k in vis:
                continue
            vis.add(k)
            if len(vis) > 3000:
                raise AnalysisBroken("too many states at a join in %s" % fn['q'])
            if bid == fn['exit']:
                outs.append(Exit('ret', s, TOP, "%s:%s" % (fn['file'], fn['end'])))
                self.paths += 1
                continue
            cur = [s]
            for e in b['e']:
                nxt = []
                for x in cur:
                    for r in self.elem(x, fr, e):
                        if isinstance(r, Exit):
                            outs.append(r)
                            self.paths += 1
                        else:
                            nxt.append(r)
                if len(nxt) > 1:
                    uniq = {}
                    for x in nxt:
                        uniq.setdefault(x.key(), x)
                    nxt = list(uniq.values())
                cur = nxt
                if not cur:
                    break
            for x in cur:
                work.extend(self.branch(x, fr, b, cross))
        return outs

    def branch(self, st, fr, b, cross):
        succs = b['s']
        d = fr.depth

        def clean(s, succ):
            for k in [k for k in s.vals if k[0] == d and k[1] not in cross
                      and not (isinstance(k[1], tuple) and k[1][0] == 'sel')]:
                del s.vals[k]
            self.sweep(s, fr, succ)
            self.gc(s)
            return s
        tk = b.get('tk')
        if not tk or 'tc' not in b and len(succs) < 2:
            return [(x, clean(st, x)) for x in succs[:1] if x is not None]
        if tk == 'SwitchStmt':
            return self.switch(st, fr, b, clean)
        if len(succs) < 2:
            return [(x, clean(st, x)) for x in succs if x is not None]
        if tk in ('GotoStmt', 'BreakStmt', 'ContinueStmt'):
            return [(x, clean(st, x)) for x in succs if x is not None]
        if 'tc' not in b:
            return [(x, clean(st.copy(), x)) for x in succs if x is not None]
        tc = b['tc']
        node = fr.fn['nodes'][tc]
        cond = self.cond_val(st, fr, tc)
        t = self.truth(st, cond)
        out = []
        if succs[0] is None or succs[1] is None:
            i = 0 if succs[1] is None else 1
            return [(succs[i], clean(st, succs[i]))] if succs[i] is not None else []
        for i, tr in ((0, True), (1, False)):
            if t is not None and t != tr:
                continue
            s = st.copy() if t is None and tr else st
            if t is None:
                self.forks += 1
                if not self.assume(s, fr, cond, tr, node):
                    continue
                s.note("%s:%s %s" % (fr.fn['file'], b.get('tl'), 'true' if tr else 'false'))
            if tk in ('BinaryOperator',):
                op = b.get('top')
                if op == '&&' and not tr:
                    s.vals[(d, ('sel', b['tn']))] = FALSE
                elif op == '||' and tr:
                    s.vals[(d, ('sel', b['tn']))] = TRUE
                else:       # a value from an earlier round of a loop
                    s.vals.pop((d, ('sel', b['tn'])), None)
            elif tk in ('ConditionalOperator', 'BinaryConditionalOperator'):
                s.vals[(d, ('sel', b['tn']))] = TRUE if tr else FALSE
            out.append((succs[i], clean(s, succs[i])))
        return out

    def cond_val(self, st, fr, nid):
        """value of a condition; && and || were already split over blocks"""
        n = fr.fn['nodes'][nid]
        if n['k'] == 'pass' or (n['k'] == 'cast' and n['ck'] in ('NoOp', 'IntegralToBoolean')):
            x = fr.fn['nodes'][n['x']]
            if x['k'] in ('pass', 'bin', 'cast', 'un'):
                return self.cond_val(st, fr, n['x'])
        if n['k'] == 'un' and n['op'] == '!':
            return self.neg(self.cond_val(st, fr, n['x']))
        if n['k'] == 'bin' and n['op'] in ('&&', '||') and (fr.depth, nid) not in st.vals:
            sel = st.vals.get((fr.depth, ('sel', nid)))
            if sel is not None:
                return sel
            return self.cond_val(st, fr, n['b'])
        return self.rv(st, fr, nid)

    def switch(self, st, fr, b, clean):
        fn = fr.fn
        blocks = self.blocks(fn)
        tc = b['tc']
        node = fn['nodes'][tc]
        v = self.rv(st, fr, tc)
        v = self.resolve(st, v)
        # type of the condition before integral promotion
        t = strip_cv(node.get('t', ''))
        x = node
        while x['k'] in ('cast', 'pass') and t not in self.p.enums:
            x = fn['nodes'][x['x']]
            t = strip_cv(x.get('t', ''))
        enum = t if t in self.p.enums else None
        out = []
        cases, dflt = [], None
        for s in b['s']:
            if s is None:
                continue
            bb = blocks[s]
            if 'casev' in bb:
                i = int(bb['casev'])
                cases.append((s, self.mkenum(enum, i) if enum else ('c', i)))
            else:
                dflt = s
        matched = False
        for s, cval in cases:
            e = self.eq(st, v, cval)
            if e is False:
                continue
            ns = st.copy()
            if e is None:
                self.forks += 1
                if not self.set_fact(ns, v, '=', cval):
                    continue
                self.rule.on_assume(self, ns, fr, ('op', '==', v, cval), True, node)
                ns.note("%s:%s case %s" % (fn['file'], b.get('tl'), cval[-1]))
            else:
                matched = True
            out.append((s, clean(ns, s)))
        if dflt is not None and not matched:
            ns = st.copy()
            ok = True
            for _, cval in cases:
                e = self.eq(ns, v, cval)
                if e is None:
                    ok = self.set_fact(ns, v, '!=', cval)
                    if not ok:
                        break
                elif e is True:
                    ok = False
                    break
            if ok and enum and not is_const(v):
                # split the default over the remaining enumerators
                f = ns.facts.get(v)
                rest = [('e', enum, nm) for nm, _ in self.p.enum(enum)]
                rest = [r for r in rest if self.eq(ns, v, r) is not False]
                for r in rest:
                    n2 = ns.copy()
                    if self.set_fact(n2, v, '=', r):
                        n2.note("%s:%s default (%s)" % (fn['file'], b.get('tl'), r[2]))
                        out.append((dflt, clean(n2, dflt)))
            elif ok:
                out.append((dflt, clean(ns, dflt)))
        return out

    # ---------- top ----------
    def run(self, fn, this=None, args=None, ts=None, setup=None):
        st = State()
        st.ts = ts
        self.fns_seen.add(fn['id'])
        if this is None and fn.get('cls') and not fn.get('static'):
            this = (('this', fn['cls']),)
        if args is None:
            args = []
            for p in fn['params']:
                root = (('arg', p['n'] or 'p%d' % p['d']),)
                t = p['t'].rstrip()
                if t.endswith('&'):
                    args.append(('ref', ('p', root)))
                elif self.is_repo_class(t):
                    args.append(('obj', root))
                else:
                    args.append(('val', self.init(st, root)))
        if setup:
            setup(st)
        fr = None
        nf_fn = fn
        outs = self.call_top(st, nf_fn, this, args)
        return outs

    def call_top(self, st, fn, this, args):
        class _F:
            depth = -1
        nf = Frame(fn, 0, this)
        for i, p in enumerate(fn['params']):
            pl = (('L', 0, p['d']),)
            kind, v = args[i]
            if kind == 'obj':
                if p['t'].rstrip().endswith('&'):
                    st.store[pl] = ('p', v)
                else:
                    self.copy_obj(st, nf, v, pl, None, quiet=True)
            else:
                st.store[pl] = v
        return self.run_cfg(st, nf)


class CallInfo:
    """What a hook sees of a call."""
    __slots__ = ('eng', 'st', 'fr', 'nid', 'node', 'q', 'n', 'cls', 'ref')

    def __init__(self, eng, st, fr, nid, node):
        self.eng, self.st, self.fr, self.nid, self.node = eng, st, fr, nid, node
        self.ref = node.get('fn') or {}
        self.q = self.ref.get('q', '?')
        self.n = self.ref.get('n', '?')
        self.cls = self.ref.get('cls')

    def rv(self, i):
        v = self.eng.rv(self.st, self.fr, self.node['args'][i])
        if v[0] == 'p' and self.st.store.get(v[1], v)[0] == 'clo':
            return self.st.store[v[1]]     # a copy of a closure
        return v

    def rvs(self):
        return [self.rv(i) for i in range(len(self.node['args']))]

    def raw(self, i):
        return self.eng.ev(self.st, self.fr, self.node['args'][i])

    def nargs(self):
        return len(self.node['args'])

    def objval(self):
        """value of the object expression (loaded)"""
        o = self.node.get('obj')
        n = self.fr.fn['nodes'][o]
        v = self.eng.ev(self.st, self.fr, o)
        if n.get('lv') and v[0] == 'p':
            return self.eng.load(self.st, v[1])
        if v[0] == 'p' and self.node.get('arrow'):
            return self.eng.load(self.st, v[1])
        return v

    def objplace(self):
        o = self.node.get('obj')
        if not o:
            return None
        n = self.fr.fn['nodes'][o]
        v = self.eng.ev(self.st, self.fr, o)
        if n.get('lv'):
            return v[1] if v[0] == 'p' else (('O', v),)
        if self.node.get('arrow') or n.get('t', '').rstrip().endswith('*'):
            return self.eng.deref(self.st, self.fr, v, self.node)
        if v[0] == 'p':
            return v[1]
        p = (('T', self.fr.depth, ('obj', o)),)
        self.st.store[p] = v
        return p

    def loc(self):
        return self.fr.loc(self.node)


def show(v, lim=240):
    """readable rendering of a value or place"""
    def pl(p):
        out = []
        for i, s in enumerate(p):
            if i == 0:
                if s[0] == 'O':
                    out.append('(*%s)' % val(s[1]))
                elif s[0] == 'this':
                    out.append('this')
                elif s[0] in ('arg',):
                    out.append(s[1])
                elif s[0] == 'G':
                    out.append(s[1])
                elif s[0] == 'H':
                    out.append('new@%s' % s[2])
                else:
                    out.append('%s%s' % (s[0].lower(), s[2] if len(s) > 2 else ''))
            elif isinstance(s, str) and s.startswith('['):
                out.append(s)
            elif isinstance(s, tuple):
                out.append('[%s]' % val(s[1]))
            else:
                out.append('.%s' % s)
        return ''.join(out)

    def val(v):
        if isinstance(v, frozenset):
            return '{%s}' % ', '.join(sorted(val(x) for x in v))
        if not isinstance(v, tuple) or not v:
            return str(v)
        k = v[0]
        if k == 'c':
            return str(v[1])
        if k == 'e':
            return v[2]
        if k == 's':
            return '"%s"' % v[1]
        if k == 'p':
            return '&' + pl(v[1])
        if k == 'init':
            return pl(v[1])
        if k == 'sym':
            return '%s()#%s' % (v[1], v[3] if len(v) > 3 else '')
        if k == 'old':
            return 'old ' + val(v[1])
        if k in ('tup', 'ilist', 'cat'):
            return '{%s}' % ', '.join(val(x) for x in v[1])
        if k == 'some':
            return 'some(%s)' % val(v[1])
        if k == 'op':
            return '(%s)' % (' %s ' % v[1]).join(val(x) for x in v[2:]) if len(v) > 3 else v[1] + val(v[2])
        if k == 'f':
            return '%s(%s)' % (v[1], ', '.join(val(x) for x in v[2:]))
        if k == 'fld':
            return '%s.%s' % (val(v[1]), v[2])
        if k in ('it', 'itf', 'end', 'size', 'itc'):
            return '%s(%s)' % (k, pl(v[1]))
        if k == 'clo':
            return 'lambda'
        return k
    r = val(v) if isinstance(v, frozenset) or v and isinstance(v[0], str) else pl(v)
    return r if len(r) <= lim else r[:lim] + '...'
