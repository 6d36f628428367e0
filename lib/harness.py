"""One step of the parser (ArgumentIterator's implementation, next()) as seen by rules:
events on the option iterator, lookups, the argument counter, results, callbacks,
messages and exits.  Subclasses override `event` and keep a small typestate."""
import re
import engine as E
from engine import FALSE, TRUE, NULL, NONE, TOP
from facts import AnalysisBroken

OPT, OPT2, ARG, CMD = (('G', 'OPT'),), (('G', 'OPT2'),), (('G', 'ARG'),), (('G', 'CMD'),)


class Step(E.Rule):
    track_loops = True
    opaque_pa = frozenset(['get_value_id', 'get_value', 'get_values', 'get_argument_view', 'get_argument_views'])

    def __init__(self, roles, pins=None, hooks=None):
        self.r = roles
        self.pins = dict(pins or {})            # place suffix (tuple) -> value
        self.h = dict(option=None, command=None, argument=None, token=None, has=None,
                      complete=None, reqcount=None, value=None, sibling=None, auto_exit=None)
        self.h.update(hooks or {})
        r = roles
        self.this = (('this', r.AI),)
        self.RES = self.this + (r.ai['results'],)
        self.ITERP = self.this + (r.ai['iter'],)
        self.STATEP = self.this + (r.ai['state'],)
        self.CNTP = self.this + (r.ai['counter'],)
        self.BACK = (('O', ('init', self.RES + ('[back]',))),)
        self.EACH = (('O', ('init', self.RES + ('[]',))),)
        self.CUR = (('O', ('init', self.this + (r.ai['command'],))),)
        self.DATA = (('O', ('init', self.this + (r.ai['data'],))),)
        ms = {m['n'] for m in r.p.cls(r.PA)['methods']}
        for n in ('assign_value', 'append_value', 'clear_value', 'has'):
            if n not in ms:
                raise AnalysisBroken('%s::%s not found' % (r.PA, n))
        ms = {m['n'] for m in r.p.cls(r.ITER)['methods']}
        for n in ('next', 'next_value', 'insert', 'remaining_arguments', 'current'):
            if n not in ms:
                raise AnalysisBroken('%s::%s not found' % (r.ITER, n))
        if self.h['auto_exit'] is not None:
            self.pins[r.setting('auto_exit')] = TRUE if self.h['auto_exit'] else FALSE
        self.keepn = {r.ai['state']} | {k[-1] for k in self.pins}

    # -- typestate helpers: ts is a tuple of (key, value) pairs
    @staticmethod
    def get(st, k, d=None):
        for a, b in st.ts or ():
            if a == k:
                return b
        return d

    @staticmethod
    def put(st, k, v):
        st.ts = tuple(sorted([(a, b) for a, b in (st.ts or ()) if a != k] + [(k, v)], key=lambda x: x[0]))

    def bump(self, st, k):
        self.put(st, k, min(2, self.get(st, k, 0) + 1))

    # -- overridable
    def event(self, eng, st, fr, kind, data, node):
        pass

    def keep_fact(self, eng, t):
        return t[0] == 'init' and t[1][-1] in self.keepn or t[0] == 'size' and t[1] == self.RES

    def keep_place(self, eng, pl, v):
        r = self.r
        return pl[-1] in self.keepn or pl[-1] in (r.pa['code'], r.pa['stop'])

    def on_init(self, eng, st, place):
        if len(place) == 1 and place[0][0] != 'G':
            return None
        for n in (3, 2, 1):
            if len(place) > n or (len(place) == n and n > 1):
                v = self.pins.get(place[-n:])
                if v is not None:
                    return v
        v = self.pins.get(place)
        return v

    def inline(self, eng, fn):
        r = self.r
        if fn.get('cls') == r.PA and (fn.get('ctor') or fn['n'] in self.opaque_pa):
            return False
        return fn.get('cls') not in (r.ITER, r.COUNTER, 'argos::TextFormatter')

    def fork(self, st, *vals):
        out = []
        for i, v in enumerate(vals):
            out.append((st if i == len(vals) - 1 else st.copy(), v))
        return ('states', out)

    def choose(self, eng, st, fr, kind, choice, yes, no, data, node):
        out = []
        for v, flag in ((yes, True), (no, False)):
            if choice is None or choice == flag:
                s = st.copy()
                self.event(eng, s, fr, kind, (flag, data), node)
                out.append((s, v))
        return ('states', out)

    def is_active(self, place):
        """the innermost active result object"""
        return place == self.BACK

    def on_call(self, eng, st, fr, nid, node, c):
        r = self.r
        ref = c.ref
        pt = ref.get('pt') or []
        if c.q in ('exit', 'std::exit', 'quick_exit', '_exit'):
            self.event(eng, st, fr, 'exit', c.rv(0), node)
            return None
        if c.cls == r.ITER:
            if c.n in ('next', 'next_value'):
                tok = ('f', 'tok', ('s', c.n))
                k = 'token' if c.n == 'next' or self.get(st, 'taken', 0) == 0 else 'value'
                self.bump(st, 'taken')
                if node.get('obj') and c.objplace() != self.ITERP:
                    return self.choose(eng, st, fr, 'peek', None, ('some', tok), NONE, c.n, node)
                return self.choose(eng, st, fr, 'take', self.h[k], ('some', tok), NONE, c.n, node)
            if c.n == 'insert':
                self.event(eng, st, fr, 'splice', (c.objplace(), c.raw(0)), node)
                return ('val', TOP)
            if c.n == 'remaining_arguments':
                self.event(eng, st, fr, 'remaining', None, node)
                return None
            if c.n == 'current':
                return ('val', ('f', 'current'))
            return None
        rt = ref.get('t', '')
        if c.cls == r.CD and rt == 'const %s *' % r.OD and fr.fn.get('cls') != r.CD:
            return self.choose(eng, st, fr, 'option', self.h['option'], ('p', OPT), NULL,
                               (c.objplace(),) + tuple(c.rvs()), node)
        if c.cls == r.CD and rt == 'const %s *' % r.CD and fr.fn.get('cls') != r.CD:
            k = 'command' if c.objplace() == self.CUR else 'sibling'
            return self.choose(eng, st, fr, 'find-' + k, self.h[k], ('p', CMD), NULL,
                               (c.objplace(),) + tuple(c.rvs()), node)
        if c.cls == r.COUNTER and node.get('obj') and not ref.get('ctor'):
            if c.n == 'operator=':
                if c.objplace() == self.CNTP:
                    self.event(eng, st, fr, 'counter', c.rv(0), node)
                return ('val', ('p', c.objplace()))
            if rt == 'const %s *' % r.AD:
                return self.choose(eng, st, fr, 'argument', self.h['argument'], ('p', ARG), NULL, c.objplace(), node)
            if rt == 'bool' and ref.get('const'):
                return self.choose(eng, st, fr, 'complete', self.h['complete'], TRUE, FALSE, c.objplace(), node)
            return ('val', ('f', 'counter.' + c.n))
        if c.cls == r.COUNTER and ref.get('ctor'):
            a = [objref(st, c.raw(i)) for i in range(c.nargs())]
            if len(a) == 1 and r.COUNTER in (pt or [''])[0]:
                return ('val', eng.load(st, a[0][1]) if a[0][0] == 'p' else a[0])
            return ('val', ('f', 'counter') + tuple(a))
        if c.cls == r.COUNTER and ref.get('static') and rt == 'bool':
            return self.choose(eng, st, fr, 'reqcount', self.h['reqcount'], TRUE, FALSE, c.raw(0), node)
        if c.cls == r.PA:
            if c.n in ('assign_value', 'append_value', 'clear_value'):
                self.event(eng, st, fr, 'store', (c.n[:-6], c.objplace(), tuple(c.rvs())), node)
                return ('val', ('f', 'stored'))
            if c.n == 'has':
                return self.choose(eng, st, fr, 'has', self.h['has'], TRUE, FALSE,
                                   (c.objplace(), c.rv(0)), node)
        if len(pt) >= 2 and pt[0] == 'const %s &' % r.PD and pt[1] == 'const %s &' % r.CD and rt == 'void' \
                and not node.get('obj'):
            if len(pt) == 2:
                self.event(eng, st, fr, 'help', (c.raw(0), c.raw(1)), node)
            else:
                self.event(eng, st, fr, 'errmsg', (c.raw(0), c.raw(1), c.rv(2)), node)
            return ('val', TOP)
        if c.n == 'operator()' and (c.cls or '').startswith('std::function'):
            arg = objref(st, c.raw(0))
            self.event(eng, st, fr, 'callback', (c.objplace(), arg), node)
            if arg[0] == 'p':
                na = arg[1] + ('new_arguments',)
                eng.write(st, fr, na, ('ilist', (('f', 'newarg'),)), node, quiet=True)
            return ('val', TOP)
        if ref.get('const') and ref.get('cls') == r.AI and rt in ('unsigned long', 'size_t', 'std::size_t') and \
                all(x in ('unsigned long', 'size_t', 'std::size_t') for x in pt):
            self.event(eng, st, fr, 'recount', tuple(c.rvs()), node)
            return ('val', ('f', 'recount'))
        return None

    def on_write(self, eng, st, fr, place, val, node):
        r = self.r
        f = place[-1]
        if place == self.STATEP:
            self.event(eng, st, fr, 'state', val, node)
        elif f == r.pa['code'] and len(place) == 2 and place[0][0] == 'O':
            self.event(eng, st, fr, 'code', (place[:-1], val), node)
        elif f == r.pa['stop'] and len(place) == 2 and place[0][0] == 'O':
            self.event(eng, st, fr, 'stop', (place[:-1], val), node)
        elif f == r.pa['rest'] and val[0] in ('add', 'del'):
            self.event(eng, st, fr, 'rest', (place[:-1], val), node)
        elif place == self.RES:
            self.event(eng, st, fr, 'results', val, node)
        elif place == self.CNTP:
            self.event(eng, st, fr, 'counter', val, node)
        elif place == self.this + (r.ai['command'],):
            self.event(eng, st, fr, 'command', val, node)

    def on_forall(self, eng, st, fr, P, evs, node):
        if evs is None or P != self.RES:
            eng.iter_event(st, ('forall', P, evs is None))
        self.event(eng, st, fr, 'forall', (P, evs), node)

    def entry(self):
        fs = [f for f in self.r.p.find(self.r.AI + '::next')]
        if len(fs) != 1:
            raise AnalysisBroken('cannot identify %s::next' % self.r.AI)
        return fs[0]


class Outcome(Step):
    """Step with the usual typestate: messages, result codes, state, remaining arguments."""

    def event(self, eng, st, fr, kind, d, node):
        r = self.r
        if kind == 'errmsg':
            self.bump(st, 'err')
            if d[0] != ('p', self.DATA):
                self.put(st, 'errdata', 1)
            if d[1] != ('p', self.CUR):
                self.put(st, 'errcmd', 1)
        elif kind == 'option':
            if d[0]:
                self.put(st, 'opt', 1)
        elif kind == 'help':
            self.bump(st, 'help')
            if d[0] != ('p', self.DATA) or d[1] != ('p', self.CUR):
                self.put(st, 'helpargs', 1)
        elif kind == 'state':
            self.put(st, 'state', d)
        elif kind == 'code':
            if d[0] != self.EACH:
                self.put(st, 'onecode', d[1])
                self.put(st, 'allcode', None)
        elif kind == 'results':
            if d[0] == 'del':
                self.put(st, 'trimmed', 1)
        elif kind == 'stop':
            if d[0] != self.EACH:
                self.put(st, 'onestop', d[1])
        elif kind == 'forall':
            P, evs = d
            if P == self.RES and evs:
                for e in evs:
                    if e[0] == 'w' and e[1] == self.EACH + (r.pa['code'],):
                        self.put(st, 'allcode', e[2])
                    if e[0] == 'w' and e[1] == self.EACH + (r.pa['stop'],):
                        self.put(st, 'allstop', e[2])
            base = eng.load(st, P)
            if E.contains(base, 'remaining_arguments') or is_remaining(base):
                ok = evs is None or any(
                    e[0] == 'add' and e[1] == self.BACK + (r.pa['rest'],) and
                    any(E.contains(x, ('init', P + ('[]',))) or E.has_elem(x, P) or
                        E.contains(x, base) for x in e[2:]) for e in evs)
                self.put(st, 'copied', self.get(st, 'copied', True) and ok)
        elif kind == 'rest':
            if d[1][0] == 'add' and d[1][1] in ('insert', 'append_range', 'assign') and \
                    any(is_remaining(x) or x[0] == 'it' and is_remaining(eng.load(st, x[1]))
                        for x in d[1][2:]):
                self.put(st, 'copied', d[0] == self.BACK)

    def setup(self, st):
        st.facts[('size', self.RES)] = ('!=', frozenset({FALSE}))


def objref(st, v):
    """a local object is held by reference to the temporary it was built from"""
    while v[0] == 'p' and v[1][0][0] == 'L' and len(v[1]) == 1:
        w = st.store.get(v[1])
        if not w or w[0] != 'p' or w[1][0][0] not in 'LT':
            break
        v = w
    return v


def is_remaining(v):
    return v[0] in ('f', 'sym') and v[1] == 'remaining_arguments' or \
        v[0] == 'f' and v[1].endswith('::remaining_arguments')


def result_code(eng_val):
    """IteratorResultCode enumerator name of a returned result."""
    v = eng_val
    if v[0] == 'tup' and v[1] and v[1][0][0] == 'e':
        return v[1][0][2]
    return None


def outcome_code(o):
    v = o.val
    if v[0] == 'p':
        v = o.st.store.get(v[1], v)
        c = o.st.store.get(o.val[1] + (0,))
        if c is not None and c[0] == 'e':
            return c[2]
    return result_code(v)
