"""C13: one rule for comparing names, decided by the case setting."""
from itertools import product
from effects import *
from engine import show
import engine as E
from c04 import where
from c31 import Names
from chars import Table, fold, is_char, strip
from facts import AnalysisBroken

RULE = """
(a) Each helper that compares two texts with a case flag gives, on every path and for all texts: with the flag off the exact
comparison (equal, less, starts with) of its two texts, with it on the same comparison of the two texts with the letters A-Z and
a-z taken as equal; the comparisons of single characters behind them are a table that has exactly this equivalence, and all
orders used are the same total order of its classes.  (b) Wherever such a helper, or a function that hands its own case flag to
one, is called, the flag is the parser's case setting or the caller's own flag. (c) Flags of options and names of commands are
not compared, searched or stored in any other way (exactly, or always without case) outside the look-up of options, which is
decided in full by C31, and the names of values, which are case-sensitive. (d) Looking up a command gives the first one whose name is equal under the flag, and none if there
is none; asking whether a command has a flag is true exactly if one of its options has an equal one.
"""
EXPLAIN = """
(a) the helpers are interpreted for texts of 0 to N symbolic characters; each outcome is compared with the rule under every
assignment of characters of an alphabet that covers all relations two characters can have; the functions on characters are
tabulated from their syntax tree for all 256x256 values. (b) provenance dataflow over all calls. (c) taint over the syntax tree.
(d) interpretation for 0 to 2 commands, options and flags with opaque comparisons.
"""
ASSUME = ["the look-up of options itself is decided by C31", "texts longer than N characters are treated as those of N (the helpers "
          "treat all positions alike)", "C library character functions are those of the C locale"]

SV = ('std::basic_string_view<char>', 'const std::basic_string<char> &', 'const std::basic_string_view<char> &')
CMP = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}


def is_text(t):
    return strip(t) in ('std::basic_string_view<char>', 'std::basic_string<char>', 'std::string', 'std::string_view')


def helpers(p):
    """free functions (text, text, bool) -> bool"""
    return [f for f in p.fns.values() if not f.get('cls') and f['rt'] == 'bool' and f.get('blocks') and len(f['params']) == 3
            and [is_text(q['t']) for q in f['params']] == [True, True, False] and strip(f['params'][2]['t']) == 'bool']


def sv(name, a, b):
    return ('f', 'sv', ('s', name), ('c', a), ('c', b))


def rng(v):
    """(name, a, b) of a text value"""
    return (v[2][1], v[3][1], v[4][1]) if v[:2] == ('f', 'sv') else None


class Texts(Effects):
    """texts are ranges of symbolic characters; functions on characters are left symbolic"""

    def __init__(self, sizes, **k):
        Effects.__init__(self, **k)
        self.sizes = sizes
        self.fns = {}

    def place(self, name):
        return (('G', name),)

    def concrete(self, eng, pl):
        return self.sizes.get(pl[0][1]) if len(pl) == 1 and pl[0][0] == 'G' else None

    def on_init(self, eng, st, place):
        if len(place) == 2 and place[0][0] == 'G' and place[0][1] in self.sizes and str(place[1])[:1] == '[':
            return self.ch(place[0][1], int(place[1][1:-1]))
        return Effects.on_init(self, eng, st, place)

    def ch(self, name, i):
        return ('f', 'ch', ('s', name), ('c', i))

    def text(self, eng, st, v):
        if v[0] == 'p':
            v = eng.load(st, v[1])
        return rng(v)

    def seq(self, a, b):
        """characters between two iterators"""
        if a[0] == b[0] == 'itc' and a[1] == b[1] and a[3] == b[3] == 1:
            return [self.ch(a[1][0][1], i) for i in range(a[2], b[2])]
        return None

    def chars_of(self, t):
        return [self.ch(t[0], i) for i in range(t[1], t[2])]

    def symbolic(self, v):
        return v[:2] in (('f', 'ch'), ('f', 'charfn'))

    def pred(self, eng, st, fr, f, xs, node):
        """outcomes [(state, value)] of applying a predicate to characters"""
        if f is None:
            return [(st, ('op', '==', xs[0], xs[1]))]
        fid = f[1] if f[0] in ('clo', 'fn') else None
        fn = eng.p.fns.get(fid)
        if fn is None:
            return [(st, ('op', '==', xs[0], xs[1]))] if 'equal_to' in repr(f) else None
        if all(is_char(q['t']) for q in fn['params']) and not (f[0] == 'clo' and f[2]):
            self.fns[fid] = fn
            return [(st, ('f', 'charfn', ('s', fid)) + tuple(xs))]
        out = []
        for o in eng.call_fn(st.copy(), fr, fn, None, [('val', x) for x in xs], node.get('l'), f[2] if f[0] == 'clo' else None):
            if o.kind != 'ret':
                return None
            out.append((o.st, o.val))
        return out

    def on_call(self, eng, st, fr, nid, node, c):
        n, args = c.n, [c.rv(i) for i in range(c.nargs())]
        fn = eng.p.fns.get(c.ref.get('id'))
        if fn and not node.get('obj') and args and all(self.symbolic(a) for a in args) and all(is_char(q['t']) for q in fn['params']):
            self.fns[fn['id']] = fn
            return ('val', ('f', 'charfn', ('s', fn['id'])) + tuple(args))
        if n in ('tolower', 'toupper') and len(args) >= 1 and self.symbolic(args[0]):
            return ('val', ('f', 'charfn', ('s', n), args[0]))
        if node.get('obj') is not None:
            t = self.text(eng, st, c.objval())
            if t is None:
                return None
            name, a, b = t
            if n in ('size', 'length'):
                return ('val', ('c', b - a))
            if n == 'empty':
                return ('val', E.TRUE if a == b else E.FALSE)
            if n in ('begin', 'cbegin', 'data'):
                return ('val', ('itc', self.place(name), a, 1))
            if n in ('end', 'cend'):
                return ('val', ('itc', self.place(name), b, 1))
            if n in ('operator[]', 'at') and args[0][0] == 'c':
                if a + args[0][1] >= b or args[0][1] < 0:
                    self.note(eng, st, ('outside', fr.loc(node)))
                    return ('val', E.TOP)
                return ('val', self.ch(name, a + args[0][1]))
            if n in ('front', 'back') and a < b:
                return ('val', self.ch(name, a if n == 'front' else b - 1))
            if n == 'substr':
                p0 = args[0][1] if args and args[0][0] == 'c' else 0
                ln = args[1][1] if len(args) > 1 and args[1][0] == 'c' else b - a
                if 0 <= p0 <= b - a:
                    return ('val', sv(name, a + p0, min(b, a + p0 + ln) if ln >= 0 else b))
            if n in ('starts_with', 'ends_with') and len(args) == 1:
                u = self.text(eng, st, args[0])
                if u:
                    w = u[2] - u[1]
                    if w > b - a:
                        return ('val', E.FALSE)
                    s = sv(name, a, a + w) if n == 'starts_with' else sv(name, b - w, b)
                    return ('val', ('op', '==', s, sv(*u)))
            if n == 'compare':
                if len(args) == 1 and self.text(eng, st, args[0]):
                    return ('val', ('f', 'compare', sv(*t), sv(*self.text(eng, st, args[0]))))
                if len(args) == 3 and args[0][0] == args[1][0] == 'c' and self.text(eng, st, args[2]):
                    x = a + args[0][1]
                    return ('val', ('f', 'compare', sv(name, x, min(b, x + args[1][1])), sv(*self.text(eng, st, args[2]))))
            if n.startswith('operator') and n[8:].startswith('basic_string_view'):
                return ('val', sv(*t))
        if n in CMP:
            both = [self.text(eng, st, c.raw(i)) if c.raw(i)[0] == 'p' else rng(args[i]) for i in range(len(args))]
            if node.get('obj') is not None:
                both.insert(0, self.text(eng, st, c.objval()))
            if len(both) == 2 and all(both):
                return ('val', ('op', CMP[n], sv(*both[0]), sv(*both[1])))
        if n in ('basic_string_view', 'basic_string') and c.ref.get('ctor') and args:
            t = self.text(eng, st, args[0])
            if t and len(args) == 1 or t and n == 'basic_string':
                return ('val', sv(*t))
            if args[0][0] == 'itc' and len(args) == 2 and args[1][0] == 'c':
                return ('val', sv(args[0][1][0][1], args[0][2], args[0][2] + args[1][1]))
        if n in ('equal', 'lexicographical_compare', 'mismatch') and len(args) >= 3 and args[0][0] == 'itc':
            return self.algorithm(eng, st, fr, node, n, args)
        return None

    def algorithm(self, eng, st, fr, node, n, args):
        xs = self.seq(args[0], args[1])
        four = len(args) >= 4 and args[3][0] == 'itc'
        f = args[4 if four else 3] if len(args) > (4 if four else 3) else None
        if xs is None or args[2][0] != 'itc':
            return None
        if four:
            ys = self.seq(args[2], args[3])
        else:
            nm, at = args[2][1][0][1], args[2][2]
            if at + len(xs) > self.sizes[nm]:
                self.note(eng, st, ('outside', fr.loc(node)))
                return ('val', E.TOP)
            ys = [self.ch(nm, at + i) for i in range(len(xs))]
        if ys is None:
            return None
        if n == 'equal' and len(xs) != len(ys):
            return ('val', E.FALSE)
        done, work = [], [(st, 0)]
        while work:
            s, i = work.pop()
            if n == 'lexicographical_compare':
                if i >= len(xs) or i >= len(ys):
                    done.append((s, E.TRUE if i >= len(xs) and i < len(ys) else E.FALSE))
                    continue
                first = self.less(eng, s, fr, f, [xs[i], ys[i]], node)
                for s1, v in first or self.lost(node, fr):
                    t = s1.copy()
                    if eng.assume(s1, fr, v, True, node):
                        done.append((s1, E.TRUE))
                    if eng.assume(t, fr, v, False, node):
                        for s2, w in self.less(eng, t, fr, f, [ys[i], xs[i]], node):
                            u = s2.copy()
                            if eng.assume(s2, fr, w, True, node):
                                done.append((s2, E.FALSE))
                            if eng.assume(u, fr, w, False, node):
                                work.append((u, i + 1))
                continue
            if i >= len(xs) or i >= len(ys):
                done.append((s, E.TRUE if n == 'equal' else ('tup', (self.at(args[0], i), self.at(args[2], i)))))
                continue
            for s1, v in self.pred(eng, s, fr, f, [xs[i], ys[i]], node) or self.lost(node, fr):
                t = s1.copy()
                if eng.assume(s1, fr, v, True, node):
                    work.append((s1, i + 1))
                if eng.assume(t, fr, v, False, node):
                    done.append((t, E.FALSE if n == 'equal' else ('tup', (self.at(args[0], i), self.at(args[2], i)))))
        return ('states', done)

    def at(self, it, i):
        return ('itc', it[1], it[2] + i, 1)

    def less(self, eng, st, fr, f, xs, node):
        if f is None:
            return [(st, ('op', '<', xs[0], xs[1]))]
        return self.pred(eng, st, fr, f, xs, node)

    def lost(self, node, fr):
        raise AnalysisBroken('%s: the predicate of an algorithm is not followed' % fr.loc(node))


class Value:
    """value of a term for given texts"""

    def __init__(self, p, table, texts):
        self.p, self.table, self.texts = p, table, texts

    def __call__(self, t):
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'f' and t[1] == 'ch':
            return self.texts[t[2][1]][t[3][1]]
        if k == 'f' and t[1] == 'sv':
            return [x & 255 for x in self.texts[t[2][1]][t[3][1]:t[4][1]]]
        if k == 'f' and t[1] in ('compare', '<=>', 'operator<=>'):
            a, b = self(t[2]), self(t[3])
            return (a > b) - (a < b)
        if k == 'f' and t[1] == 'charfn':
            args = [self(x) for x in t[3:]]
            if None in args:
                return None
            if t[2][1] in ('tolower', 'toupper'):
                from chars import ascii_fn
                return ascii_fn(t[2][1])(args[0])
            return self.table.call(self.p.fns[t[2][1]], args)
        if k == 'op' and len(t) == 4:
            a, b = self(t[2]), self(t[3])
            if a is None or b is None:
                return None
            try:
                return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                        '>=': lambda: a >= b, '-': lambda: a - b, '+': lambda: a + b, '^': lambda: a ^ b, '&': lambda: a & b,
                        '|': lambda: a | b, '<=>': lambda: (a > b) - (a < b)}[t[1]]()
            except KeyError:
                return None
        if k == 'op' and t[1] == '!':
            a = self(t[2])
            return None if a is None else not a
        if k in ('f', 'op') and len(t) == 3:      # casts
            return self(t[2]) if t[1] in ('cast', 'conv') else None
        return None


def consistent(facts, val):
    for t, (kind, v) in facts.items():
        x = val(t)
        if x is None:
            continue
        if kind == '=' and v[0] == 'c' and int(x) != v[1]:
            return False
        if kind == '!=' and any(y[0] == 'c' and int(x) == y[1] for y in v):
            return False
    return True


def wanted(kind, a, b, ci):
    a, b = [[(fold(x) if ci else x) & 255 for x in s] for s in (a, b)]
    return {'eq': a == b, 'lt': a < b, 'sw': a[:len(b)] == b}[kind]


def kind_of(fn):
    n = fn['n'].lower()
    ks = [k for k, w in (('eq', ('equal', 'same', 'eq')), ('lt', ('less', 'lower', 'before')), ('sw', ('start', 'prefix', 'begin'))) if
          any(x in n for x in w)]
    if len(ks) != 1:
        raise AnalysisBroken('cannot tell what %s compares' % fn['q'])
    return ks[0]


def comparisons(ctx, hs):
    p = ctx.p
    table = Table(p)
    N = 3 if ctx.tier == 'thorough' else 2
    alpha = [ord(c) for c in ('aAbB' if ctx.tier == 'thorough' else 'aAb')] + [ord('-')]
    fns, n = {}, 0
    for fn in hs:
        kind = kind_of(fn)
        a, b, seen = fn['params'][0]['n'], fn['params'][1]['n'], {}
        for ci, la, lb in product((False, True), range(N + 1), range(N + 1)):
            rule = Texts({a: la, b: lb})
            args = [('val', sv(a, 0, la)), ('val', sv(b, 0, lb)), ('val', E.TRUE if ci else E.FALSE)]
            outs = ctx.run(fn, rule, args=args)
            fns.update(rule.fns)
            bad = None
            texts = [dict(((a, x), (b, y))) for x in product(alpha, repeat=la) for y in product(alpha, repeat=lb)]
            for o in outs:
                n += 1
                if o.kind != 'ret' or any(e[0] == 'outside' for e in o.st.ts or ()):
                    bad = bad or (o, 'it reads outside a text or throws')
                    continue
                for t in texts:
                    val = Value(p, table, t)
                    if not consistent(o.st.facts, val):
                        continue
                    got = val(o.val)
                    if got is None:
                        raise AnalysisBroken('the outcome of %s is not followed: %s' % (fn['q'], show(o.val)))
                    if kind == 'lt' and ci:
                        continue
                    if bool(got) != wanted(kind, t[a], t[b], ci):
                        bad = bad or (o, 'for "%s" and "%s" it gives %s' %
                                      (''.join(map(chr, t[a])), ''.join(map(chr, t[b])), bool(got)))
                        break
            if kind == 'lt' and ci and not bad:
                bad = order(p, table, outs, texts, a, b, seen)
            ctx.check(not bad, 'comparison', '%s, case-insensitive %s' % (fn['q'], ci), bad and
                      'the comparison of two names is wrong: %s' % bad[1], where(bad[0], fn) if bad and bad[0] else '%s:%s' % (fn['file'], fn['line']),
                      bad[0].st.path() if bad and bad[0] else None)
    ctx.floor('outcomes of comparisons', n, 60)
    return fns, table


def order(p, table, outs, texts, a, b, seen):
    """the order without case: decided by the first position whose characters differ, consistently with equality"""
    for t in texts:
        val = Value(p, table, t)
        got = {bool(val(o.val)) for o in outs if consistent(o.st.facts, val)}
        if len(got) != 1:
            return (outs[0], 'its outcome is ambiguous')
        got = got.pop()
        x, y = [[fold(c) for c in t[k]] for k in (a, b)]
        if x == y or x[:len(y)] == y or y[:len(x)] == x:
            if got != (len(x) < len(y)):
                return (outs[0], 'for "%s" and "%s" it gives %s' % (''.join(map(chr, t[a])), ''.join(map(chr, t[b])), got))
            continue
        i = [u == v for u, v in zip(x, y)].index(False)
        u, v = t[a][i], t[b][i]
        # the order of the two differing characters alone, in the same representation
        key = (fold(u), fold(v))
        if seen.setdefault(key, got) != got or seen.get(key[::-1], not got) == got:
            return (outs[0], 'the first difference does not decide for "%s" and "%s"' %
                    (''.join(map(chr, t[a])), ''.join(map(chr, t[b]))))
    return None


def tables(ctx, fns, table):
    """functions of two characters: an equivalence or an order; of one: a canonical form"""
    p = ctx.p
    R = range(-128, 128)
    for fid, fn in sorted(fns.items()):
        loc = '%s:%s' % (fn['file'], fn['line'])
        pts = [strip(q['t']) for q in fn['params']]
        vals = [range(0, 256) if t in ('unsigned char', 'uint8_t') else R for t in pts]
        if len(pts) == 1:
            tab = {c: table.call(fn, (c,)) for c in vals[0]}
            bad = [c for c in vals[0] for d in vals[0] if (tab[c] == tab[d]) != (fold(c) == fold(d))]
            ctx.check(not bad, 'characters', fn['q'], 'the canonical form of %s is wrong' % (bad and repr(chr(bad[0] & 255))), loc)
            continue
        tab = {(c, d): table.call(fn, (c, d)) for c in vals[0] for d in vals[1]}
        if fn['rt'] == 'bool' and table.call(fn, (ord('a'), ord('a'))):
            bad = [k for k, v in tab.items() if bool(v) != (fold(k[0]) == fold(k[1]))]
            ctx.check(not bad, 'characters', fn['q'], bad and 'the characters %r and %r are %s' % (
                chr(bad[0][0] & 255), chr(bad[0][1] & 255), 'equal' if tab[bad[0]] else 'different'), loc)
            continue
        neg = {k for k, v in tab.items() if (v if fn['rt'] == 'bool' else v < 0)}
        pos = {k for k, v in tab.items() if v > 0} if fn['rt'] != 'bool' else {(d, c) for c, d in neg}
        rank = {c: sum((d, c) in neg for d in vals[0]) for c in vals[0]}
        bad = [k for k in tab if ((k in neg) != (rank[k[0]] < rank[k[1]])) or ((k in pos) != (rank[k[0]] > rank[k[1]])) or
               (rank[k[0]] == rank[k[1]]) != (fold(k[0]) == fold(k[1]))]
        ctx.check(not bad, 'characters', fn['q'], bad and 'the order of %r and %r does not agree with the others' % (
            chr(bad[0][0] & 255), chr(bad[0][1] & 255)), loc)
    ctx.floor('functions on characters', len(fns), 1)


# ---------------------------------------------------------------- provenance of the flag

def kids(n):
    for k in ('x', 'a', 'b', 'c', 'obj'):
        if isinstance(n.get(k), int):
            yield n[k]
    for a in n.get('args') or []:
        if isinstance(a, int):
            yield a


class Flow:
    def __init__(self, p, roles):
        self.p, self.r = p, roles
        self.params, self.inits = {}, {}
        st = roles.setting('case_insensitive')
        self.field = st[-1] if isinstance(st, tuple) else st
        self.settings = [f['t'].replace('const ', '') for c in (roles.PD,) for f in p.cls(c)['fields'] if
                         any(g['n'] == self.field for g in p.classes.get(f['t'].replace('const ', ''), {'fields': []})['fields'])]
        if len(self.settings) != 1:
            raise AnalysisBroken('cannot identify the settings of the parser')
        self.PS = self.settings[0]
        for f in p.fns.values():
            for i, q in enumerate(f['params']):
                self.params[f['file'], q['d']] = (f, i)
            for n in f['nodes'].values():
                if n['k'] == 'decl':
                    for v in n['vars']:
                        if isinstance(v.get('x'), int):
                            self.inits.setdefault((f['file'], v['d']), []).append((f, v['x']))
                elif n['k'] == 'asg' and n['op'] == '=':
                    m = self.strip(f, n['a'])
                    if m['k'] == 'var':
                        self.inits.setdefault((f['file'], m['d']), []).append((f, n['b']))
                for cap in n.get('caps') or []:
                    if isinstance(cap, dict) and isinstance(cap.get('x'), int) and 'd' in cap:
                        self.inits.setdefault((f['file'], cap['d']), []).append((f, cap['x']))

    def strip(self, fn, i):
        n = fn['nodes'][i]
        while n['k'] in ('cast', 'pass') and isinstance(n.get('x'), int) or n['k'] == 'ctor' and len(n.get('args', [])) == 1:
            n = fn['nodes'][n['x'] if n['k'] != 'ctor' else n['args'][0]]
        return n

    def trace(self, fn, i, need, seen=()):
        """None, or why the value of a node is not the setting"""
        n = self.strip(fn, i)
        if n['k'] == 'var':
            k = (fn['file'], n['d'])
            if k in seen:
                return None
            if k in self.params:
                need.add((self.params[k][0]['id'], self.params[k][1]))
                return None
            if k in self.inits:
                for f, x in self.inits[k]:
                    w = self.trace(f, x, need, seen + (k,))
                    if w:
                        return w
                return None
            return 'the variable %s' % n['n']
        if n['k'] == 'mem':
            if n['f'] == self.field and n.get('cls') == self.PS:
                return self.base(fn, n['b'], need, seen)
            return 'the field %s' % n['f']
        if n['k'] in ('cond', 'ternary'):
            return self.trace(fn, n['a'], need, seen) or self.trace(fn, n['b'], need, seen)
        if n['k'] == 'call' and n.get('fn') and n['fn']['id'] in self.p.fns:
            g = self.p.fns[n['fn']['id']]
            if g['id'] in seen:
                return None
            rets = [m for m in g['nodes'].values() if m['k'] == 'ret' and isinstance(m.get('x'), int)]
            if rets and len(g['params']) == 0:
                for m in rets:
                    w = self.trace(g, m['x'], need, seen + (g['id'],))
                    if w:
                        return w
                return None
            return 'the result of %s' % g['q']
        if n.get('cv') is not None or n['k'] in ('bool', 'int'):
            return 'the constant %s' % n.get('cv', n.get('v'))
        return 'an expression (%s %s)' % (n['k'], n.get('op', ''))

    def base(self, fn, i, need, seen):
        """the settings object itself must be the parser's"""
        n = self.strip(fn, i)
        while n['k'] == 'mem' or n['k'] == 'call' and isinstance(n.get('obj'), int) or n['k'] == 'un' and n['op'] in ('*', '&'):
            if n['k'] == 'mem' and strip(n['t']) != self.PS:
                return None
            if n['k'] == 'mem':
                # a member of type settings: of the parser's data, or of any object reached from a parameter
                return None if n.get('cls') == self.r.PD else 'the settings in %s' % n['f']
            n = self.strip(fn, n['obj'] if n['k'] == 'call' else n['x'])
        if n['k'] == 'var':
            k = (fn['file'], n['d'])
            if k in self.params:
                if strip(n['t']) == self.PS:
                    need.add((self.params[k][0]['id'], self.params[k][1]))
                return None
            if k in seen:
                return None
            if k in self.inits:
                for f, x in self.inits[k]:
                    w = self.base(f, x, need, seen + (k,))
                    if w:
                        return w
                return None
        if n['k'] in ('this',):
            return None
        return 'other settings (%s)' % n['k']


def calls_of(p):
    for f in p.fns.values():
        for i, n in f['nodes'].items():
            if n.get('fn') and isinstance(n.get('args'), list) and n['k'] in ('call', 'ctor'):
                yield f, i, n


def provenance(ctx, hs):
    p, r = ctx.p, ctx.roles
    fl = Flow(p, r)
    sinks = {(h['id'], 2) for h in hs}
    done, n = set(), 0
    calls = {}
    for f, i, nd in calls_of(p):
        calls.setdefault(nd['fn']['id'], []).append((f, i, nd))
    work = list(sinks)
    while work:
        s = work.pop()
        if s in done:
            continue
        done.add(s)
        for f, i, nd in calls.get(s[0], []):
            if s[1] >= len(nd['args']):
                continue
            n += 1
            need = set()
            callee = p.fns[s[0]]
            if strip(callee['params'][s[1]]['t']) == fl.PS:
                why = fl.base(f, nd['args'][s[1]], need, ())
            else:
                why = fl.trace(f, nd['args'][s[1]], need)
            ctx.check(not why, 'case setting', '%s in %s' % (callee['q'], f['q']),
                      '%s compares names with %s instead of the case setting of the parser' % (f['q'], why), '%s:%s' % (f['file'], nd['l']))
            work += [x for x in need if x not in done]
    ctx.floor('calls with a case flag', n, 12)
    ctx.sample('%d calls with a case flag reach %d parameters' % (n, len(done)))


# ---------------------------------------------------------------- other comparisons of names

SEARCH = ('find', 'count', 'contains', 'insert', 'emplace', 'try_emplace', 'lower_bound', 'upper_bound', 'equal_range')


def names(ctx, hs):
    p, r = ctx.p, ctx.roles
    fl = Flow(p, r)
    look = {f['id'] for f in p.fns.values() if f.get('cls') == r.CD and (
        f['rt'] == 'const %s *' % r.OD or any(x['k'] == 'mem' and 'pair<std::basic_string_view' in x['t'] and x.get('cls') == r.CD
                                             for x in f['nodes'].values()))}
    comparers = {f['id'] for f in p.fns.values() if not f.get('cls') and f['rt'] in ('bool', 'int') and len(f['params']) == 2 and
                 all(is_text(q['t']) for q in f['params'])}
    n = 0

    def source(fn, i, seen=()):
        """the name a text comes from, or None"""
        m = fl.strip(fn, i)
        if m['k'] == 'mem':
            if m.get('cls') == r.CD and m['f'] == r.cd['name']:
                b = fl.strip(fn, m['b'])
                if b['k'] == 'mem' and b.get('cls') == r.PD:
                    return None
                return 'name of a command'
            if m.get('cls') == r.OD and m['f'] == r.od['flags']:
                return 'flag of an option'
            if m['f'] == 'first' and 'OptionData' in str(fn['nodes'].get(m['b'], {}).get('t')):
                return 'flag in the index'
            return None
        if m['k'] == 'var':
            k = (fn['file'], m['d'])
            if k in seen:
                return None
            for f, x in fl.inits.get(k, []):
                s = source(f, x, seen + (k,))
                if s:
                    return s
            return None
        if m['k'] == 'call' and isinstance(m.get('obj'), int) and (m.get('op') in ('*', '[]', '->') or m['fn']['n'] in (
                'front', 'back', 'at', 'begin', 'end', 'c_str', 'data', 'substr', 'cbegin', 'cend') or 'conv' in m['fn']):
            return source(fn, m['obj'], seen)
        if m['k'] == 'un' and m['op'] in ('*', '&'):
            return source(fn, m['x'], seen)
        if m['k'] == 'call' and m.get('fn') and m['fn']['id'] in p.fns and is_text(m['t']):
            g = p.fns[m['fn']['id']]
            if g['id'] in seen:
                return None
            for x in g['nodes'].values():
                if x['k'] == 'ret' and isinstance(x.get('x'), int):
                    s = source(g, x['x'], seen + (g['id'],))
                    if s:
                        return s
        return None

    def literal(fn, i):
        m = fl.strip(fn, i)
        return m['k'] in ('str', 'char', 'string', 'strlit') and not any(c.isalpha() for c in str(m.get('v', 'a')))

    for f in p.fns.values():
        if f['id'] in look or not f.get('blocks'):
            continue
        for i, nd in f['nodes'].items():
            if nd['k'] != 'call' or not nd.get('fn'):
                continue
            nm = nd['fn']['n']
            ops = ([nd['obj']] if isinstance(nd.get('obj'), int) else []) + list(nd['args'])
            if nm in CMP or nm in ('compare', 'operator<=>', 'starts_with', 'ends_with') or nd['fn']['id'] in comparers or \
                    nm in SEARCH + ('equal', 'search', 'mismatch', 'lexicographical_compare', 'sort', 'unique', 'adjacent_find'):
                if nd['fn'].get('repo') and nd['fn']['id'] not in comparers:
                    continue
                texts = [x for x in ops if is_text(f['nodes'][x].get('t', '')) or nm not in CMP]
                src = None
                for x in texts:
                    if nm in ('insert', 'emplace', 'find') and x == nd.get('obj'):
                        continue
                    src = src or source(f, x)
                if not src or any(literal(f, x) for x in ops):
                    continue
                if nm in ('insert', 'emplace') and 'map' not in str(nd['fn']['q']) and 'set' not in str(nd['fn']['q']):
                    continue
                if isinstance(nd.get('obj'), int) and 'ValueId' in f['nodes'][nd['obj']].get('t', ''):
                    continue        # names of values, which are always case-sensitive
                n += 1
                ctx.fail('other comparison', '%s in %s' % (nm, f['q']),
                         'the %s is compared by %s, whatever the case setting is' % (src, nm), '%s:%s' % (f['file'], nd['l']))
        ctx.ob('other comparison')
    return n


# ---------------------------------------------------------------- the look-ups

class Look(Names):
    def __init__(self, counts, **k):
        Names.__init__(self, **k)
        self.counts = counts

    def concrete(self, eng, pl):
        return self.counts.get(pl)


def eq(a, b, ci):
    if repr(b) < repr(a):
        a, b = b, a
    return ('f', 'CMP', ('s', 'eq'), a, b, ci)


def truth(facts, t):
    if t in facts:
        k, v = facts[t]
        return (v == E.TRUE) if k == '=' else (True if E.FALSE in v else False if E.TRUE in v else None)
    return None


def lookups(ctx):
    p, r = ctx.p, ctx.roles
    n = 0
    T = (('this', r.CD),)
    for fn in [f for f in p.fns.values() if f.get('cls') == r.CD and f['rt'] == 'const %s *' % r.CD and f.get('blocks') and
               len(f['params']) == 2 and is_text(f['params'][0]['t']) and strip(f['params'][1]['t']) == 'bool']:
        L = T + (r.cd['commands'],)
        name, ci = ('f', 'NAME'), ('f', 'CI')
        for cnt in (0, 1, 2):
            cs = [('init', L + ('[%d]' % i,)) for i in range(cnt)]

            def setup(st):
                for c in cs:
                    st.facts[c] = ('!=', frozenset({E.NULL}))
            for o in ctx.run(fn, Look({L: cnt}), args=[('val', name), ('val', ci)], setup=setup):
                n += 1
                es = [truth(o.st.facts, eq(('init', (('O', c), r.cd['name'])), name, ci)) for c in cs]
                for t in product((False, True), repeat=cnt):
                    if any(e is not None and e != x for e, x in zip(es, t)):
                        continue
                    want = cs[t.index(True)] if True in t else E.NULL
                    if not ctx.check(o.kind == 'ret' and o.val == want, 'look-up of a command', '%d commands, equal: %s' % (cnt, list(t)),
                                     'looking up a command gives %s' % (show(o.val) if o.kind == 'ret' else o.kind), where(o, fn), o.st.path()):
                        break
    ctx.floor('outcomes of looking up a command', n, 5)
    m = 0
    fl = Flow(p, r)
    for fn in [f for f in p.fns.values() if not f.get('cls') and f['rt'] == 'bool' and len(f['params']) == 3 and f.get('blocks') and
               strip(f['params'][0]['t']) == r.CD and is_text(f['params'][1]['t']) and strip(f['params'][2]['t']) == fl.PS]:
        C, S = (('G', 'C'),), (('G', 'S'),)
        L = C + (r.cd['options'],)
        ci = ('init', S + (fl.field,))
        for shape in ((), (0,), (1,), (2,), (1, 1), (0, 1)):
            os_ = [('init', L + ('[%d]' % i,)) for i in range(len(shape))]
            counts = {L: len(shape)}
            for o, k in zip(os_, shape):
                counts[(('O', o), r.od['flags'])] = k
            flags = [('init', (('O', o), r.od['flags'], '[%d]' % j)) for o, k in zip(os_, shape) for j in range(k)]

            def setup(st):
                for c in os_:
                    st.facts[c] = ('!=', frozenset({E.NULL}))
            for o in ctx.run(fn, Look(counts), args=[('ref', ('p', C)), ('val', ('f', 'FLAG')), ('ref', ('p', S))], setup=setup):
                m += 1
                es = [truth(o.st.facts, eq(f, ('f', 'FLAG'), ci)) for f in flags]
                for t in product((False, True), repeat=len(flags)):
                    if any(e is not None and e != x for e, x in zip(es, t)):
                        continue
                    v = o.val if o.kind == 'ret' else None
                    if v is not None and v[:3] == ('f', 'CMP', ('s', 'eq')):
                        js = [j for j, f in enumerate(flags) if eq(f, ('f', 'FLAG'), ci) == v]
                        v = E.TRUE if js and t[js[0]] else E.FALSE
                    if not ctx.check(v == (E.TRUE if True in t else E.FALSE), 'presence of a flag', '%s flags, equal: %s' % (list(shape), list(t)),
                                     'asking for a flag gives %s' % (show(v) if v else o.kind), where(o, fn), o.st.path()):
                        break
    ctx.floor('outcomes of asking for a flag', m, 6)


def check(ctx):
    hs = helpers(ctx.p)
    ctx.floor('comparisons with a case flag', len(hs), 3)
    fns, table = comparisons(ctx, hs)
    tables(ctx, fns, table)
    provenance(ctx, hs)
    names(ctx, hs)
    lookups(ctx)
