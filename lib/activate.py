"""Parse steps over a concrete number of active results (element by element)."""
from harness import *


class Active(Outcome):
    def __init__(self, roles, n, multi=(), pins=None, hooks=None):
        Outcome.__init__(self, roles, pins=pins, hooks=hooks)
        self.n = n
        r = roles
        self.R = [(('O', ('init', self.RES + ('[%d]' % i,))),) for i in range(n)]
        self.RC = [(('O', ('init', x + (r.pa['command'],))),) for x in self.R]
        if n:
            self.BACK = self.R[-1]
        for i, m in enumerate(multi):
            self.pins[self.RC[i] + (r.cd['multi'],)] = TRUE if m else FALSE
        self.keepn |= {r.ai['command'], '#n', r.cd['multi']}

    def setup(self, st):
        pass

    def concrete(self, eng, place):
        return self.n if place == self.RES and self.n else None

    def keep_place(self, eng, pl, v):
        return Outcome.keep_place(self, eng, pl, v) or pl[:len(self.RES)] == self.RES or \
            pl[-1] == '[back]'

    def keep_fact(self, eng, t):
        return Outcome.keep_fact(self, eng, t) or t == ('size', self.CUR + (self.r.cd['commands'],))

    def note(self, st, *x):
        self.put(st, 'log', self.get(st, 'log', ()) + (x,))

    def on_write(self, eng, st, fr, place, val, node):
        Outcome.on_write(self, eng, st, fr, place, val, node)
        if place[-1] == self.r.pa['subs'] and val[0] in ('add', 'del'):
            self.note(st, 'subs', place[:-1], val)

    def on_call(self, eng, st, fr, nid, node, c):
        if c.n in ('make_shared', 'allocate_shared') and any(self.r.PA in t for t in node['fn'].get('ta') or []) or \
                c.cls == self.r.PA and c.ref.get('ctor') not in (None, False, 'copy', 'move', 0):
            self.note(st, 'new', tuple(c.rvs()))
        return Outcome.on_call(self, eng, st, fr, nid, node, c)

    def event(self, eng, st, fr, kind, d, node):
        Outcome.event(self, eng, st, fr, kind, d, node)
        if kind in ('results', 'command', 'counter', 'state', 'reqcount', 'recount', 'argument', 'complete',
                    'find-sibling', 'find-command', 'stop'):
            self.note(st, kind, d)
        elif kind == 'store':
            eng.iter_event(st, ('store',) + d)
            if self.get(st, 'stores') != 'many':
                s = self.get(st, 'stores', ())
                if d not in s:
                    self.put(st, 'stores', s + (d,) if len(s) < 4 else 'many')
        elif kind == 'forall':
            P, evs = d
            if P[-1] == self.r.cd['options']:
                self.note(st, 'forall', P, evs)

    def log(self, o):
        return self.get(o.st, 'log', ())
