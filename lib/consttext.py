"""Functions of std::string, std::string_view and std::map on constants."""
import engine as E
from engine import TRUE, FALSE, TOP
from effects import Effects

NPOS = (1 << 64) - 1
WS = {'find': lambda s, x, p: s.find(x, p), 'rfind': lambda s, x, p: s.rfind(x),
      'find_first_of': lambda s, x, p: min([i for i in range(p, len(s)) if s[i] in x], default=-1),
      'find_first_not_of': lambda s, x, p: min([i for i in range(p, len(s)) if s[i] not in x], default=-1),
      'find_last_of': lambda s, x, p: max([i for i in range(len(s)) if s[i] in x], default=-1)}
REL = {'operator==': lambda a, b: a == b, 'operator!=': lambda a, b: a != b, 'operator<': lambda a, b: a < b,
       'operator>': lambda a, b: a > b, 'operator<=': lambda a, b: a <= b, 'operator>=': lambda a, b: a >= b}


def boolean(b):
    return TRUE if b else FALSE


class ConstText(Effects):
    """string functions whose operands are all constants are evaluated; constant-key maps are tracked key by key"""
    maps = True
    fold_case = False

    def text(self, eng, st, v):
        for _ in range(3):
            if v[0] == 'p' and v[1] in st.store:
                v = eng.load(st, v[1])
            elif v[0] == 'p':
                v = eng.load(st, v[1])
            else:
                break
        return v[1] if v[0] == 's' else None

    def const(self, eng, st, v):
        """text or character as a Python string, or None"""
        if v[0] == 'c' and 0 <= v[1] < 256:
            return chr(v[1])
        return self.text(eng, st, v)

    def on_call(self, eng, st, fr, nid, node, c):
        n, obj = c.n, node.get('obj') is not None
        cls = c.cls or ''
        if obj and 'basic_string' in cls:
            s = self.text(eng, st, c.objval())
            a = c.rvs()
            if s is not None:
                if n in WS and a:
                    x = self.const(eng, st, a[0])
                    p = a[1][1] if len(a) > 1 and a[1][0] == 'c' else 0
                    if x is not None:
                        i = WS[n](s, x, p)
                        return ('val', ('c', NPOS if i < 0 else i))
                if n in ('size', 'length'):
                    return ('val', ('c', len(s)))
                if n == 'empty':
                    return ('val', boolean(not s))
                if n in ('operator[]', 'at') and a[0][0] == 'c' and 0 <= a[0][1] <= len(s) and not node.get('lv_written'):
                    return ('val', ('c', ord(s[a[0][1]]) if a[0][1] < len(s) else 0))
                if n in ('front', 'back') and s:
                    return ('val', ('c', ord(s[0 if n == 'front' else -1])))
                if n in ('starts_with', 'ends_with', 'contains') and a:
                    x = self.const(eng, st, a[0])
                    if x is not None:
                        return ('val', boolean({'starts_with': s.startswith, 'ends_with': s.endswith,
                                                'contains': s.__contains__}[n](x)))
                if n == 'substr' and all(x[0] == 'c' for x in a):
                    p = a[0][1] if a else 0
                    ln = a[1][1] if len(a) > 1 else NPOS
                    if p <= len(s):
                        return ('val', ('s', s[p:] if ln < 0 or ln >= NPOS - 1 else s[p:p + ln]))
                if n == 'compare' and len(a) == 1 and self.text(eng, st, a[0]) is not None:
                    x = self.text(eng, st, a[0])
                    return ('val', ('c', (s > x) - (s < x)))
        if n in REL:
            v = ([c.objval()] if obj else []) + c.rvs()
            t = [self.text(eng, st, x) for x in v]
            if len(t) == 2 and None not in t:
                return ('val', boolean(REL[n](*t)))
        if not obj and c.nargs() in (2, 3) and c.ref.get('repo') and 'basic_string' in (c.ref.get('pt') or [''])[0]:
            t = [self.text(eng, st, c.rv(i)) for i in range(2)]
            if None not in t and c.ref.get('t') == 'bool':
                ci = c.nargs() == 3 and c.rv(2) == TRUE or n.endswith('_ci')
                a, b = [x.lower() if ci else x for x in t]
                if 'equal' in n:
                    return ('val', boolean(a == b))
                if 'less' in n:
                    return ('val', boolean(a < b))
                if 'starts_with' in n:
                    return ('val', boolean(a.startswith(b)))
        if obj and cls in ('std::map', 'std::unordered_map') and self.maps:
            return self.map(eng, st, fr, node, c)
        return None

    def map(self, eng, st, fr, node, c):
        """maps are kept as lists of (key, value)"""
        n, P = c.n, c.objplace()
        cn = eng.csize(st, P)
        if cn is None or not c.nargs() or n not in ('find', 'count', 'contains', 'emplace', 'try_emplace', 'insert_or_assign',
                                                   'operator[]', 'at', 'insert'):
            return None
        arg, val = c.rv(0), c.rv(1) if c.nargs() > 1 else ('c', 0)
        if n == 'insert' and c.nargs() == 1:
            if arg[0] == 'tup' and len(arg[1]) == 2:
                arg, val = arg[1]
            else:
                return None
        k = self.text(eng, st, arg)
        if k is None:
            return None
        at = [i for i in range(cn) if self.text(eng, st, self.entry(eng, st, P, i, 0)) == k]
        it = ('itc', P, at[0] if at else cn, 1)
        if n == 'find':
            return ('val', it)
        if n in ('count', 'contains'):
            return ('val', ('c', len(at)) if n == 'count' else boolean(at))
        if n == 'at' and not at:
            return ('stop', 'throws')
        e = P + ('[%d]' % it[2],)
        if not at:
            st.store[e + (0,)] = ('s', k)
            eng.set_csize(st, P, cn + 1, cn)
        if not at or n == 'insert_or_assign':
            st.store[e + (1,)] = val
        if n in ('operator[]', 'at'):
            return ('val', ('p', e + (1,)))
        return ('val', ('tup', (it, boolean(not at))))

    def entry(self, eng, st, P, i, j):
        e = P + ('[%d]' % i,)
        if e + (j,) in st.store:
            return st.store[e + (j,)]
        v = st.store.get(e)
        return v[1][j] if v and v[0] == 'tup' else E.TOP
