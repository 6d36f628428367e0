"""The entry points of the parser: preparation, start of a parse and help are events."""
import engine as E
from effects import Effects, under
from harness import objref

PARSER = 'argos::ArgumentParser'


class Entry(Effects):
    """('prepare', object, incomplete fields) | ('start', how, args, data) | ('help', data, command)"""

    def __init__(self, roles, iterator=False, **k):
        Effects.__init__(self, **k)
        self.r = roles
        p = roles.p
        self.T = (('this', PARSER),)
        fs = [f['n'] for f in p.cls(PARSER)['fields'] if '_ptr<' in f['t']]
        if len(fs) != 1:
            from facts import AnalysisBroken
            raise AnalysisBroken('cannot identify the data of the parser')
        self.ptr = self.T + (fs[0],)
        self.D = (('O', ('init', self.ptr)),)

    def on_call(self, eng, st, fr, nid, node, c):
        r = self.r
        ref = c.ref
        pt = ref.get('pt') or []
        if ref.get('id') in eng.p.fns and pt == [r.PD + ' &'] and ref.get('t') == 'void':
            a = c.raw(0)
            self.note(eng, st, ('prepare', a, self.incomplete(eng, st, a)))
            return ('val', E.TOP)
        if c.cls == r.AI and not ref.get('const') and ref.get('n') != 'next' or \
                c.n in ('make_unique', 'make_shared') and r.AI in (ref.get('ta') or [''])[0]:
            self.note(eng, st, ('start', 'make' if c.n.startswith('make_') or ref.get('ctor') else c.n) +
                      tuple(self.value(eng, st, c.raw(i), c.rv(i)) for i in range(c.nargs())))
            return ('val', ('f', 'started'))
        if len(pt) >= 2 and pt[0] == 'const %s &' % r.PD and pt[1] == 'const %s &' % r.CD and ref.get('t') == 'void':
            self.note(eng, st, ('help', c.raw(0), c.raw(1)))
            return ('val', E.TOP)
        if c.cls == r.CD and c.n == 'operator=' and 'const' in (pt or [''])[0]:
            eng.write(st, fr, c.objplace(), ('f', 'copyof', c.raw(0)), node)
            return ('val', ('p', c.objplace()))
        if c.cls == r.CD and c.n == 'operator=':
            v = c.rv(0)
            if v[:2] == ('f', 'copyof'):
                eng.write(st, fr, c.objplace(), v, node)
                return ('val', ('p', c.objplace()))
        if c.cls == r.CD and ref.get('ctor') and len(pt) == 1:
            return ('val', ('f', 'copyof' if 'const' in pt[0] else 'movedfrom', c.raw(0)))
        return None

    def value(self, eng, st, raw, v):
        return v if v != E.TOP else raw

    def incomplete(self, eng, st, a):
        """fields of the data object a that are not as in the parser's own"""
        if a[0] != 'p':
            return ('?',)
        H, D = a[1], self.D
        if H == D:
            return ()
        return tuple(self.differs(eng, st, H, D, self.r.PD))

    def differs(self, eng, st, H, D, cls):
        out = []
        for f in self.r.p.cls(cls)['fields']:
            h, d = H + (f['n'],), D + (f['n'],)
            v = eng.load(st, h)
            same = v in (('init', d), ('f', 'copyof', ('p', d)), ('f', 'copyof', ('init', d)))
            t = E.strip_cv(f['t'])
            over = [k for k, x in st.store.items() if len(k) > len(h) and k[:len(h)] == h and
                    x not in (('init', d + k[len(h):]), ('f', 'copyof', ('p', d + k[len(h):])))]
            if same and not over:
                continue
            if not same and t in self.r.p.classes and t != self.r.CD:
                sub = self.differs(eng, st, h, d, t)
                if not sub:
                    continue
                out += [f['n'] + '.' + x for x in sub]
            else:
                out.append(f['n'])
        return out


def public(r, names=None, const=None):
    return [f for f in r.p.fns.values() if f.get('cls') == PARSER and f.get('access') == 'public' and
            not f.get('ctor') and (names is None or f['n'] in names) and (const is None or bool(f.get('const')) == const)]
