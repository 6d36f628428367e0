"""Texts of symbolic characters, spans and containers of texts that are tracked element by element."""
import engine as E
from engine import TRUE, FALSE, TOP, NONE
from effects import Effects

NPOS = (1 << 64) - 1
MASK = NPOS


def boolean(b):
    return TRUE if b else FALSE


def char(name, i):
    return ('f', 'chr', ('s', name), ('c', i))


def text(*cs):
    """a text; adjacent constants are characters"""
    out = []
    for c in cs:
        out += [('c', ord(x)) for x in c] if isinstance(c, str) else [c]
    if all(c[0] == 'c' for c in out):
        return ('s', ''.join(chr(c[1]) for c in out))
    return ('f', 'txt') + tuple(out)


def chars(v):
    if v[0] == 's':
        return [('c', ord(c)) for c in v[1]]
    return list(v[2:]) if v[:2] == ('f', 'txt') else None


def token(name, n):
    return text(*[char(name, i) for i in range(n)])


class Tokens(Effects):
    """ts: events; accesses outside a text, container or span and uses of outdated spans are noted"""
    grow = byvalue = True
    limit = 64
    track_loops = False

    def wanted(self, place):
        return False

    def inline(self, eng, fn):
        return True

    def txt(self, eng, st, v):
        for _ in range(3):
            if v[0] != 'p':
                break
            v = eng.load(st, v[1])
        return chars(v)

    def lit(self, eng, st, v):
        """a text or a character as a list of characters"""
        if v[0] == 'c' and 0 <= v[1] < 256 or v[:2] == ('f', 'chr'):
            return [v]
        return self.txt(eng, st, v)

    # what a path knows about a character
    def known(self, st, c, lit):
        """True, False or None: is the character the literal"""
        if c[0] == 'c' and lit[0] == 'c':
            return c[1] == lit[1]
        if c == lit:
            return True
        if lit[0] != 'c':
            c, lit = lit, c
        if lit[0] != 'c':
            return None
        f = st.facts.get(c)
        if f and f[0] == '=':
            return f[1] == lit
        if f and f[0] == '!=' and lit in f[1]:
            return False
        return None

    def split(self, st, c, lit):
        """[(state, is it equal)]"""
        k = self.known(st, c, lit)
        if k is not None:
            return [(st, k)]
        if lit[0] != 'c':
            c, lit = lit, c
        a, b = st.copy(), st.copy()
        a.facts[c] = ('=', lit)
        f = b.facts.get(c)
        b.facts[c] = ('!=', (f[1] if f else frozenset()) | {lit})
        return [(a, True), (b, False)]

    def any_of(self, st, c, lits):
        out, work = [], [(st, 0)]
        while work:
            s, i = work.pop()
            if i == len(lits):
                out.append((s, False))
                continue
            for t, yes in self.split(s, c, lits[i]):
                if yes:
                    out.append((t, True))
                else:
                    work.append((t, i + 1))
        return out

    def same(self, st, a, b):
        """[(state, are the texts equal)]"""
        if len(a) != len(b):
            return [(st, False)]
        out, work = [], [(st, 0)]
        while work:
            s, i = work.pop()
            if i == len(a):
                out.append((s, True))
                continue
            for t, yes in self.split(s, a[i], b[i]):
                if yes:
                    work.append((t, i + 1))
                else:
                    out.append((t, False))
        return out

    def search(self, st, cs, what, order, want=True):
        out, work = [], [(st, 0)]
        while work:
            s, k = work.pop()
            if k == len(order):
                out.append((s, ('c', NPOS)))
                continue
            for t, yes in self.any_of(s, cs[order[k]], what):
                if yes == want:
                    out.append((t, ('c', order[k])))
                else:
                    work.append((t, k + 1))
        return ('states', out)

    def outside(self, eng, st, fr, node, what):
        self.note(eng, st, ('outside', what, fr.loc(node)))
        return ('val', TOP)

    def num(self, v):
        return v[1] & MASK if v[0] == 'c' else None

    # spans: ('spn', place of the container, first, last, generation)
    def gen(self, st, P):
        return st.store.get((('G', '#gen'), P), ('c', 0))[1]

    def changed(self, st, P):
        st.store[(('G', '#gen'), P)] = ('c', self.gen(st, P) + 1)

    def span(self, eng, st, v):
        for _ in range(3):
            if v[0] != 'p':
                break
            w = eng.load(st, v[1])
            if w[0] != 'spn':
                n = eng.csize(st, v[1])
                if n is not None:
                    return ('spn', v[1], 0, n, self.gen(st, v[1]))
            v = w
        return v if v[0] == 'spn' else None

    def on_call(self, eng, st, fr, nid, node, c):
        n, obj, cls = c.n, node.get('obj') is not None, c.cls or ''
        if n == 'span' and c.ref.get('ctor') and c.nargs():
            a = c.rv(0)
            if a[0] == 'spn':
                return ('val', a)
            s = self.span(eng, st, c.raw(0))
            if s and c.nargs() == 1:
                return ('val', s)
            if a[0] == 'itc' and c.nargs() == 2:
                b = c.rv(1)
                if b[0] == 'c':
                    b = ('itc', a[1], a[2] + b[1], 1)
                if b[0] == 'itc' and b[1] == a[1]:
                    k = eng.csize(st, a[1])
                    if not 0 <= a[2] <= b[2] <= (k if k is not None else b[2]):
                        return self.outside(eng, st, fr, node, 'span')
                    return ('val', ('spn', a[1], a[2], b[2], self.gen(st, a[1])))
            return None
        if not obj and n in ('next', 'prev', 'advance') and c.nargs() and c.rv(0)[0] == 'itc':
            k = c.rv(1) if c.nargs() > 1 else ('c', 1)
            if k[0] == 'c':
                a = c.rv(0)
                k = k[1] if k[1] < NPOS // 2 else k[1] - NPOS - 1
                v = ('itc', a[1], a[2] + (-k if n == 'prev' else k) * a[3], a[3])
                if n == 'advance':
                    if c.raw(0)[0] != 'p':
                        return None
                    eng.write(st, fr, c.raw(0)[1], v, node, quiet=True)
                    return ('val', TOP)
                return ('val', v)
        if obj and cls.endswith('span') or obj and 'std::span' in cls:
            s = self.span(eng, st, c.objval())
            if s:
                return self.on_span(eng, st, fr, node, c, n, s)
        if obj and cls in ('std::vector', 'std::deque') and eng.csize(st, c.objplace()) is not None:
            r = self.on_vector(eng, st, fr, node, c, n, c.objplace())
            if r:
                return r
        if obj and 'basic_string' in cls:
            r = self.on_text(eng, st, fr, node, c, n)
            if r:
                return r
        if n in ('basic_string', 'basic_string_view') and c.ref.get('ctor') and c.nargs():
            a = c.rvs()
            t = self.txt(eng, st, c.raw(0))
            b = eng.load(st, a[0][1]) if a[0][0] == 'p' else a[0]
            if b[0] == 'ilist' and len(a) <= 2:
                return ('val', text(*b[1]))
            if t is not None:
                if len(a) == 1 or a[1][0] != 'c':
                    return ('val', text(*t))
                if len(a) == 2:
                    if n == 'basic_string_view' or a[1][0] == 'c':
                        k = self.num(a[1])
                        return ('val', text(*(t[:k] if 'char *' in str((c.ref.get('pt') or [''])[0]) or n.endswith('view') else t[k:])))
                if len(a) == 3:
                    return ('val', text(*t[self.num(a[1]):][:self.num(a[2])]))
            if len(a) == 2 and c.raw(0)[0] == 'p' and a[1] == ('c', 1):
                x = eng.load(st, c.raw(0)[1])       # the address of a character
                if x[0] == 'c' or x[:2] == ('f', 'chr'):
                    return ('val', text(x))
            if len(a) >= 2 and a[0][0] == 'c' and (a[1][0] == 'c' or a[1][:2] == ('f', 'chr')):
                return ('val', text(*([a[1]] * a[0][1])))
        if n == 'operator+' and c.nargs() == 2 - obj:
            vs = ([c.objval()] if obj else []) + c.rvs()
            ts = [self.lit(eng, st, v) for v in vs]
            if all(t is not None for t in ts) and any(self.txt(eng, st, v) is not None for v in vs):
                return ('val', text(*(ts[0] + ts[1])))
        if n in ('operator==', 'operator!=', 'operator<=>'):
            vs = ([c.objval()] if obj else []) + c.rvs()
            ts = [self.txt(eng, st, v) for v in vs]
            if len(ts) == 2 and None not in ts and n != 'operator<=>':
                return ('states', [(s, boolean(y == (n == 'operator=='))) for s, y in self.same(st, *ts)])
        return None

    def on_span(self, eng, st, fr, node, c, n, s):
        P, a, b = s[1:4]
        fresh = s[4] == self.gen(st, P)
        if n in ('size', 'empty', 'size_bytes'):
            return ('val', ('c', b - a) if n == 'size' else boolean(a == b))
        if n in ('subspan', 'first', 'last'):
            v = [self.num(x) for x in c.rvs()]
            if None in v:
                return None
            k, m = (v[0], v[1] if len(v) > 1 and v[1] != NPOS else None) if n == 'subspan' else (0, v[0]) if n == 'first' else (b - a - v[0], None)
            if not 0 <= k <= b - a or m is not None and k + m > b - a:
                return self.outside(eng, st, fr, node, n)
            return ('val', ('spn', P, a + k, b if m is None else a + k + m, s[4]))
        if n in ('operator[]', 'front', 'back', 'at'):
            k = self.num(c.rv(0)) if c.nargs() else 0 if n == 'front' else b - a - 1
            if k is None:
                return None
            if not fresh:
                self.note(eng, st, ('outdated', n, fr.loc(node)))
            if not 0 <= k < b - a:
                return self.outside(eng, st, fr, node, 'element of the span')
            e = P + ('[%d]' % (a + k),)
            return ('val', ('p', e) if node.get('lv') else eng.load(st, e))
        if n in ('begin', 'end', 'cbegin', 'cend', 'data'):
            if not fresh:
                self.note(eng, st, ('outdated', n, fr.loc(node)))
            return ('val', ('itc', P, a if n != 'end' and n != 'cend' else b, 1))
        if n == 'operator=':
            t = self.span(eng, st, c.raw(0))
            if t:
                eng.write(st, fr, c.objplace(), t, node)
                return ('val', ('p', c.objplace()))
        return None

    def on_vector(self, eng, st, fr, node, c, n, P):
        k = eng.csize(st, P)
        if n in ('push_back', 'emplace_back', 'pop_back', 'clear', 'resize', 'operator=', 'assign', 'swap'):
            self.changed(st, P)
            return None
        if n in ('operator[]', 'at', 'front', 'back') and c.nargs() < 2:
            i = self.num(c.rv(0)) if c.nargs() else 0 if n == 'front' else k - 1
            if i is not None and not 0 <= i < k:
                return self.outside(eng, st, fr, node, 'element of the list')
            return None
        if n not in ('insert', 'emplace', 'erase'):
            return None
        a = c.rvs()
        if a[0][0] != 'itc' or a[0][1] != P:
            return None
        at = a[0][2]
        self.changed(st, P)
        old = [eng.load(st, P + ('[%d]' % i,)) for i in range(k)]
        if n == 'erase':
            to = a[1][2] if len(a) > 1 else at + 1
            if not 0 <= at <= to <= k:
                return self.outside(eng, st, fr, node, 'erased elements')
            new = old[:at] + old[to:]
        else:
            if not 0 <= at <= k:
                return self.outside(eng, st, fr, node, 'place of insertion')
            if len(a) == 3 and a[1][0] == a[2][0] == 'itc' and a[1][1] == a[2][1]:
                add = [eng.load(st, a[1][1] + ('[%d]' % i,)) for i in range(a[1][2], a[2][2])]
            elif len(a) == 2 and a[1][0] == 'ilist':
                add = list(a[1][1])
            elif len(a) == 2:
                t = self.txt(eng, st, c.raw(1))
                if t is None:
                    return None
                add = [text(*t)]
            else:
                return None
            new = old[:at] + add + old[at:]
        eng.write(st, fr, P, ('empty',), node, quiet=True)
        for i, v in enumerate(new):
            st.store[P + ('[%d]' % i,)] = v
        st.store[P + ('#n',)] = ('c', len(new))
        return ('val', ('itc', P, at, 1))

    def on_text(self, eng, st, fr, node, c, n):
        t = self.txt(eng, st, c.objval())
        if t is None:
            return None
        a = c.rvs()
        L = len(t)
        if n in ('size', 'length'):
            return ('val', ('c', L))
        if n == 'empty':
            return ('val', boolean(not L))
        if n in ('operator[]', 'at', 'front', 'back'):
            i = self.num(a[0]) if a else 0 if n == 'front' else L - 1
            if i is None:
                return None
            if i == L and n == 'operator[]':
                return ('val', ('c', 0))
            if not 0 <= i < L:
                return self.outside(eng, st, fr, node, 'character of a text')
            return ('val', t[i])
        if n == 'substr':
            p = self.num(a[0]) if a else 0
            m = self.num(a[1]) if len(a) > 1 else NPOS
            if p is None or m is None:
                return None
            if p > L:
                return ('stop', 'throw')
            return ('val', text(*t[p:][:m]))
        if n in ('find', 'find_first_of', 'find_first_not_of', 'rfind', 'find_last_of'):
            x = self.lit(eng, st, a[0])
            p = self.num(a[1]) if len(a) > 1 else (NPOS if n[0] == 'r' or 'last' in n else 0)
            if x is None or p is None or len(x) != 1 and n in ('find', 'rfind'):
                return None
            order = list(range(min(p, L), L)) if n[0] == 'f' and 'last' not in n else [i for i in range(L) if i <= p][::-1]
            return self.search(st, t, x, order, n != 'find_first_not_of')
        if n == 'contains':
            x = self.lit(eng, st, a[0])
            if x and len(x) == 1:
                r = self.search(st, t, x, range(L))
                return ('states', [(s, boolean(v != ('c', NPOS))) for s, v in r[1]])
        if n in ('starts_with', 'ends_with'):
            x = self.lit(eng, st, a[0])
            if x is None:
                return None
            if len(x) > L:
                return ('val', FALSE)
            return ('states', [(s, boolean(y)) for s, y in self.same(st, t[:len(x)] if n[0] == 's' else t[L - len(x):], x)])
        if n == 'compare' and len(a) == 3:
            x = self.lit(eng, st, a[2])
            p, m = self.num(a[0]), self.num(a[1])
            if x is not None and p is not None and m is not None and p <= L:
                return ('states', [(s, ('c', 0 if y else 1)) for s, y in self.same(st, t[p:][:m], x)])
        if n in ('begin', 'cbegin', 'end', 'cend'):
            return None
        new = None
        if n in ('resize',) and self.num(a[0]) is not None:
            k = self.num(a[0])
            new = t[:k] + [('c', 0)] * (k - L)
        elif n in ('push_back',) or n in ('operator+=', 'append') and len(a) == 1:
            x = self.lit(eng, st, a[0])
            new = t + x if x is not None else None
        elif n == 'erase' and self.num(a[0]) is not None:
            p = self.num(a[0])
            m = self.num(a[1]) if len(a) > 1 else NPOS
            new = t[:p] + t[p + m:] if m is not None else None
        elif n in ('remove_prefix', 'remove_suffix') and self.num(a[0]) is not None:
            k = self.num(a[0])
            if k > L:
                return self.outside(eng, st, fr, node, 'shortened text')
            new = t[k:] if n == 'remove_prefix' else t[:L - k]
        elif n == 'clear':
            new = []
        elif n == 'pop_back' and t:
            new = t[:-1]
        elif n == 'insert' and len(a) == 2 and self.num(a[0]) is not None:
            x = self.lit(eng, st, a[1])
            new = t[:self.num(a[0])] + x + t[self.num(a[0]):] if x is not None else None
        elif n == 'insert' and len(a) == 3 and self.num(a[0]) is not None and self.num(a[1]) is not None:
            new = t[:self.num(a[0])] + [a[2]] * self.num(a[1]) + t[self.num(a[0]):]
        elif n in ('operator=', 'assign') and len(a) == 1:
            new = self.lit(eng, st, a[0])
        if new is not None:
            eng.write(st, fr, c.objplace(), text(*new), node)
            return ('val', ('p', c.objplace()))
        if n.startswith('operator') and n[8:].startswith('basic_string_view'):
            return ('val', text(*t))
        return None
