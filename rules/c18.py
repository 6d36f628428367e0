"""C18: errors are reported as ArgosException."""
import re
import engine as E
from engine import show, TRUE, FALSE
from facts import AnalysisBroken
from effects import Effects
from callgraph import Graph, callees, public_api
from c04 import where

RULE = """
Every throw expression of the library throws ArgosException or a class derived from it, and none is reachable from a function that
is declared noexcept.  Operations of the standard library that report failure with exceptions of their own (number
conversion by stoi and the like, at, optional::value, get on a variant, any_cast, calls of std::function, dynamic_cast to a
reference, conversion of a weak pointer, sub-strings) are only reached on paths that have established that they succeed: the index or
position has been compared, the object has been found not to be empty, the alternative is the one that is held.
"""
EXPLAIN = """
Throw expressions and potentially throwing calls are enumerated in all functions of the library.  Each function with such a call is
interpreted; at the call the facts of the path must imply success.  When a non-public function lacks the facts, its callers are
interpreted with the function inlined.
"""
ASSUME = ["memory is available; streams have no exceptions enabled; callbacks of the user may throw what they like",
          "positions of sub-strings that are computed by arithmetic on sizes (line breaking and the cursor in a token) are not decided"]

EXC = 'argos::ArgosException'
CONV = re.compile(r'^sto(i|l|ll|ul|ull|f|d|ld)$')
VARIANT = re.compile(r'^(const )?(std::)?variant<')
LAST = 'the character that was found may be the last'
FINDS = ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')


def base(q):
    q = q or ''
    while True:
        t = re.sub(r'<[^<>]*>', '', q)
        if t == q:
            return q
        q = t


def kind(ref):
    """what could go wrong in a call of ref, or None"""
    q, n = base(ref.get('q')), ref.get('n')
    if not q.startswith('std::'):
        return None
    cls = q.rsplit('::', 1)[0]
    if CONV.match(n or '') and cls in ('std', 'std::__cxx11'):
        return 'conversion'
    if n == 'at':
        return 'at'
    if n == 'value' and cls.startswith('std::optional'):
        return 'value'
    if n == 'any_cast':
        return 'any_cast'
    if n == 'get' and any(VARIANT.match(t) for t in ref.get('pt') or ()):
        return 'get'
    if n == 'operator()' and cls == 'std::function':
        return 'function'
    if n == 'substr':
        return 'substr'
    if n in ('rethrow_exception', 'throw_with_nested', 'rethrow_if_nested'):
        return 'rethrow'
    if ref.get('ctor') and cls.startswith('std::shared_ptr') and any('weak_ptr' in t for t in ref.get('pt') or ()):
        return 'weak'
    return None


class Guard(Effects):
    """ts holds ('site', location, kind, proven, text)"""

    def __init__(self, fns, codes):
        Effects.__init__(self)
        self.codes = codes
        self.fns = fns      # functions that are interpreted

    def inline(self, eng, fn):
        return fn['id'] in self.fns or fn.get('lambda') or fn['rt'] == 'bool' and len(fn['blocks']) <= 8

    def on_write(self, eng, st, fr, place, val, node):
        pass

    def on_forall(self, eng, st, fr, P, evs, node):
        pass

    def on_call(self, eng, st, fr, nid, node, c):
        k = kind(c.ref)
        if not k:
            return None
        ok, txt = self.proven(eng, st, k, c)
        if ok is False and caught(fr.fn, node.get('l'), k):
            ok = True
        self.note(eng, st, ('site', fr.loc(node), k, ok, txt))
        return None

    def proven(self, eng, st, k, c):
        """(True | False | None: not decided, what)"""
        if k == 'conversion':
            return False, '%s throws std::invalid_argument or std::out_of_range' % c.n
        if k == 'rethrow':
            return False, c.n
        if k == 'weak':
            return False, 'a weak pointer that may have expired is converted'
        if k == 'function':
            v = eng.load(st, c.objplace())
            ok = eng.truth(st, v)
            if v[0] == 'f' and v[1].startswith('lambda'):
                ok = True
            return (None if v[0] == 'lambda' else bool(ok)), 'the function object may be empty'
        if k == 'value':
            v = eng.load(st, c.objplace())
            if v[0] == 'some':
                return True, ''
            return bool(eng.truth(st, v) or eng.truth(st, ('f', 'has', v))), 'the optional may be empty'
        if k == 'at':
            i = c.rv(0)
            v = c.objval()
            return self.index(eng, st, c.objplace(), v, i), 'nothing says that %s is a valid index or key' % show(i)[:60]
        if k == 'get':
            pl = c.raw(0)
            v = eng.load(st, pl[1]) if pl[0] == 'p' else c.rv(0)
            ta = (c.ref.get('ta') or ['?'])[0]
            m = re.match(r'^(\d+)(UL?)?$', ta)
            alts = alternatives(next(t for t in c.ref['pt'] if VARIANT.match(t)))
            if m:
                i = int(m.group(1))
                ta = alts[i] if i < len(alts) else ta
            if v[0] not in ('init', 'sym', 'fld'):
                return None, ''
            known = {a: eng.truth(st, ('f', 'holds:' + a, v)) for a in alts}
            if known.get(ta) is True or all(t is False for a, t in known.items() if a != ta):
                return True, ''
            iv = ('f', 'index', v)
            idx = eng.as_int(eng.resolve(st, iv)) if iv in st.facts else None
            no = {eng.as_int(y) for y in st.facts[iv][1]} if st.facts.get(iv, '  ')[0] == '!=' else set()
            if ta in alts and (idx == alts.index(ta) or all(i in no for i in range(len(alts)) if i != alts.index(ta))):
                return True, ''
            if v[0] == 'fld':
                # an element of a returned tuple: the code next to it tells what it holds
                f = st.facts.get(('fld', v[1], 0))
                if f and f[0] == '=' and f[1][0] == 'e' and (f[1][1], f[1][2]) in self.codes:
                    other = self.codes[f[1][1], f[1][2]] - {ta}
                    return not other, 'with the code %s the variant may hold %s' % (f[1][2], ', '.join(sorted(map(str, other))))
                return None, ''
            if v[0] == 'sym':
                return None, ''
            return False, 'the variant need not hold %s' % ta
        if k == 'substr':
            if not c.nargs():
                return True, ''
            i = c.rv(0)
            v = c.objval()
            n = eng.as_int(i) if i[0] == 'c' else None
            if n == 0:
                return True, ''
            if n is not None:
                known = any(about(f, v, c.objplace()) for f in st.facts)
                return (True if known else False), 'nothing is known of the length of the text'
            b, k = offset(i)
            if k > 1 and isinstance(b, tuple) and b[:1] == ('f',) and b[1] in FINDS:
                return self.behind(eng, st, b, k, eng.size_of(st, c.objplace()), v, c.objplace())
            for x in subterms(i):
                if isinstance(x, tuple) and x[:1] == ('f',) and x[1] in FINDS and i == x:    # npos + 1 is 0
                    f = st.facts.get(x)
                    if f and f[0] == '!=' and any(is_npos(y) for y in f[1]) or f and f[0] == '=' and not is_npos(f[1]):
                        return True, ''
                    for g, h in st.facts.items():
                        if isinstance(g, tuple) and g[:1] == ('op',) and x in g[2:]:
                            return True, ''
                    return False, 'the text may not have been found'
            return None, ''
        return None, ''

    def behind(self, eng, st, pos, k, size, v, pl):
        """is there a position pos + k, k > 1, in or at the end of the text, when pos is the position of a character?"""
        for j in range(k - 1, 0, -1):
            x = eng.binop(st, '+', pos, ('c', j))
            for op, want in (('==', False), ('<', True), ('>=', False)):
                if eng.truth(st, eng.binop(st, op, x, size)) is want and (op != '==' or j == 1) and j == k - 1:
                    return True, ''
            if eng.truth(st, eng.binop(st, '==', x, size)) is True:
                return False, LAST + (' but %d' % (j - 1) if j > 1 else ' one')
        if any(isinstance(y, tuple) and any(offset(z) == (pos, j) for j in range(1, k + 1) for z in y) for f in st.facts for y in subterms(f)):
            return None, ''
        return False, 'nothing says that %d characters follow the one that was found' % (k - 1)

    def index(self, eng, st, pl, v, i):
        """is it established that i is an index (a key) of the object?"""
        size = eng.size_of(st, pl)
        if i[0] == 'idx':
            return True
        less = []       # (a, b, k): a + k <= b
        for f, h in st.facts.items():
            if not isinstance(f, tuple) or not f:
                continue
            h = None if h[0] != '=' or h[1] not in (TRUE, FALSE) else h[1] == TRUE
            if f[0] == 'op' and len(f) == 4 and f[1] in ('<', '<=', '>', '>=', '==') and h is not None:
                x, y = f[2:]
                if f[1] == '==':
                    if any(isinstance(z, tuple) and z[:2] == ('f', 'find') and i in z for z in (x, y)):
                        return not h
                    if h:
                        less += [(x, y, 0), (y, x, 0)]
                    continue
                if f[1] in ('>', '>='):
                    x, y = y, x
                k = 1 if f[1] in ('<', '>') else 0
                less.append((x, y, k) if h else (y, x, 1 - k))
            if f[0] == 'f' and f[1] in ('contains', 'count') and i in f:
                return eng.truth(st, f) is True
        if i == ('c', 0) and eng.truth(st, size):
            return True
        if eng.truth(st, eng.binop(st, '<', i, size)) is True:
            return True
        (bi, ki), (bs, ks) = offset(i), offset(size)
        if bi == bs and ki < ks:
            # counted from the end
            return ks == 0 and ki == -1 and bool(eng.truth(st, size))
        best = {bi: ki}
        if ki < 0 and bi is not None:
            f = st.facts.get(bi)
            if not (ki == -1 and f and f[0] == '!=' and ('c', 0) in f[1]):
                return False
        for _ in range(4):
            for x, y, k in less:
                (bx, kx), (by, ky) = offset(x), offset(y)
                if bx in best:
                    # i <= bx + best, bx + kx + k <= by + ky
                    d = best[bx] - kx - k + ky
                    if by not in best or d < best[by]:
                        best[by] = d
        if bs in best:
            return best[bs] < ks
        # bounded by the size of something else that may be as long, or of what a call gave
        if any(b and b[0] in ('f', 'size') and 'size' in b[:2] and best[b] < 0 for b in best):
            return None
        return None if any(x[:1] == ('f',) and x[1].startswith('argos::') for x in subterms(size) if isinstance(x, tuple) and len(x) > 1 and
                           isinstance(x[1], str)) else False


def offset(t):
    """(base, constant) of a sum"""
    if not isinstance(t, tuple) or not t:
        return t, 0
    if t[0] == 'c' and isinstance(t[1], int):
        return None, t[1]
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4 and t[3][0] == 'c' and isinstance(t[3][1], int):
        b, k = offset(t[2])
        return b, k + (t[3][1] if t[1] == '+' else -t[3][1])
    if t[:2] == ('f', 'as') and len(t) == 4:
        return offset(t[3])
    return t, 0


CATCH = {'conversion': ('std::logic_error',), 'at': ('std::out_of_range', 'std::logic_error'),
         'substr': ('std::out_of_range', 'std::logic_error'), 'value': ('std::bad_optional_access',),
         'get': ('std::bad_variant_access',), 'any_cast': ('std::bad_any_cast', 'std::bad_cast'),
         'function': ('std::bad_function_call',), 'weak': ('std::bad_weak_ptr',), 'cast': ('std::bad_cast',)}


def caught(fn, line, k):
    """is line within a try block whose handlers catch what an operation of kind k throws?"""
    for t in fn.get('tries') or ():
        if t['from'] <= (line or 0) <= t['to']:
            cs = {c.replace('const ', '').replace(' &', '') for c in t['catch']}
            if cs & ({'...', 'std::exception'} | set(CATCH.get(k, ()))) or \
                    k == 'conversion' and {'std::invalid_argument', 'std::out_of_range'} <= cs:
                return True
    return False


def is_npos(y):
    return y[0] == 'c' and y[1] in (-1, 2 ** 64 - 1, 2 ** 32 - 1)


def about(f, v, pl):
    return any(x == v or isinstance(x, tuple) and x and x == pl for x in subterms(f))


def subterms(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            yield from subterms(x)


def alternatives(t):
    """alternatives of the variant type in t"""
    s = t[t.index('std::variant<') + len('std::variant<'):]
    out, depth, cur = [], 0, ''
    for i, ch in enumerate(s):
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
            if depth < 0:
                break
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def inner(f, i):
    """the node behind conversions and copies"""
    while True:
        n = f['nodes'][i]
        if n['k'] in ('pass', 'cast') and isinstance(n.get('x'), int):
            i = n['x']
        elif n['k'] == 'ctor' and VARIANT.match(n.get('t', '')) and len(n.get('args') or ()) == 1:
            i = n['args'][0]
        else:
            return n


def codes(p):
    """(enumeration, value) -> types of what is put next to it when a tuple of a code and a variant is made"""
    out = {}
    for f in p.fns.values():
        for n in f['nodes'].values():
            if n['k'] != 'ctor' or not (n.get('cls') or '').startswith('std::tuple') or len(n.get('args') or ()) < 2:
                continue
            a, b = inner(f, n['args'][0]), inner(f, n['args'][1])
            if a['k'] == 'enum':
                t = b.get('t', '') if not VARIANT.match(b.get('t', '')) else 'std::monostate' if not b.get('args') else '?'
                out.setdefault((a['e'], a['n']), set()).add(re.sub(r' ?const$', '', t) if t.endswith('*const') else t)
    return out


def derived(p, t):
    t = E.strip_cv(t or '')
    while t:
        if t == EXC:
            return True
        c = p.classes.get(t)
        t = (c.get('bases') or [None])[0] if c else None
    return False


def check(ctx):
    p = ctx.p
    g = Graph(p)
    ctx.codes = codes(p)
    lib = {i: f for i, f in p.fns.items() if f.get('repo')}
    nthrow = 0
    throwing = {}
    sites = {}
    for i, f in sorted(lib.items(), key=lambda x: (x[1]['file'], x[1]['line'])):
        ctx.seen(f)
        for n in f['nodes'].values():
            loc = '%s:%s' % (f['file'], n.get('l', f['line']))
            if n['k'] == 'throw':
                nthrow += 1
                throwing[i] = loc
                ctx.check(n.get('tt') is None and not n.get('x') or derived(p, n.get('tt')), 'type of exception', '%s, %s' % (f['q'], n.get('tt')),
                          '%s throws %s' % (f['q'], n.get('tt') or 'nothing'), loc)
            elif n['k'] == 'cast' and n.get('ck') == 'Dynamic' and not n['t'].endswith('*'):
                ctx.check(caught(f, n.get('l'), 'cast'), 'calls that could throw', '%s, dynamic_cast' % f['q'], 'the object need not be of the type that is cast to', loc)
            elif n.get('fn') and kind(n['fn']):
                sites.setdefault(i, []).append((loc, kind(n['fn'])))
    ctx.floor('throw expressions', nthrow, 30)
    # functions that must not throw
    bad = g.reach_to(set(throwing))
    nx = 0
    for i, f in lib.items():
        if not f.get('noexcept') or f.get('lambda'):
            continue
        nx += 1
        ctx.check(i not in bad, 'noexcept functions do not throw', f['q'] + '(%s)' % ', '.join(a['t'] for a in f['params']),
                  'a throw expression can be reached, which ends the program', '%s:%s' % (f['file'], f['line']))
    ctx.floor('noexcept functions', nx, 20)
    # calls that could throw
    n = 0
    undecided = set()
    for i in sorted(sites, key=lambda i: (lib[i]['file'], lib[i]['line'])):
        bad, und = decide(ctx, g, lib, i, {i}, 0)
        bad = bad or {}
        for loc, k in sites[i]:
            n += 1
            if (loc, k) in und:
                undecided.add(loc)
            b = bad.get((loc, k))
            ctx.check(not b, 'calls that could throw', '%s, %s' % (lib[i]['q'], k), b and b[0], loc, b and b[1])
    ctx.floor('calls that could throw', n, 15)
    ctx.sample('%d throw expressions, %d noexcept functions, %d calls that could throw something else; not decided: %s' % (
        nthrow, nx, n, ', '.join(sorted(undecided)) or 'none'))


def decide(ctx, g, lib, i, inline, depth, top=None):
    """({(loc, kind): (message, path)} of the calls in function i that may fail, undecided ones)"""
    f = lib[top or i]
    bad, und = {}, set()
    if f.get('lambda'):
        owners = [o for o in g.inn.get(top or i, ()) if o in lib and not lib[o].get('lambda')]
        for o in owners:
            b, u = decide(ctx, g, lib, i, inline | {o}, depth + 1, o)
            bad.update(b or {})
            und |= u
        return bad, und
    try:
        outs = ctx.run(f, Guard(inline, ctx.codes))
    except AnalysisBroken:
        return None, {('%s (budget)' % f['q'], '')}
    for o in outs:
        for e in o.st.ts or ():
            if e[0] == 'site':
                if e[3] is False:
                    bad.setdefault((e[1], e[2]), (e[4], o.st.path()))
                elif e[3] is None:
                    und.add((e[1], e[2]))
    if bad and not public_api(ctx.p, f) and depth < 3:
        callers = [c for c in g.inn.get(top or i, ()) if c in lib and c not in inline]
        if callers:
            own, bad = bad, {}
            for c in callers:
                b, u = decide(ctx, g, lib, i, inline | {c}, depth + 1, c)
                if b is None:
                    # the function itself has looked at the length
                    b = {x: y for x, y in own.items() if y[0].startswith(LAST)}
                bad.update(b)
                und |= u
    return bad, und
