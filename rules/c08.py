"""C08: callbacks."""
from harness import *
from engine import show, NULL
from c04 import where

RULE = """
In each of the scenarios {own callback set or not} x {parser-wide callback set or not}, every path of the parse step that takes
an option or argument runs, in this order and each exactly once: the store of the value (if any), the own callback
if set followed by the insertion of the arguments that callback added, the parser-wide callback of that kind if set
followed by the insertion of its arguments; every type effect (help text, finished state, stop option, result code,
exit, error message) comes later.  The callback sees the definition taken, the stored value and the innermost
active result.  If argument counts are needed, each insertion is followed by a recount that is put into the counter.
Paths that take nothing, and paths whose value is missing, run no callback.
"""
EXPLAIN = """
The event sequence of every path of the parse step is recorded by a typestate; std::function members are pinned to set
or unset; the vector of new arguments is given a distinct abstract element per callback so that it can be traced to the insertion.
"""
EFFECTS = ('state', 'stop', 'help', 'code', 'exit', 'errmsg', 'results', 'rest')


class Calls(Outcome):
    def __init__(self, r, pins, hooks, names):
        Outcome.__init__(self, r, pins=pins, hooks=hooks)
        self.names = names                 # callback place -> tag

    def seq(self, st, x):
        s = self.get(st, 'seq', ())
        if len(s) < 12:
            self.put(st, 'seq', s + (x,))

    def event(self, eng, st, fr, kind, d, node):
        Outcome.event(self, eng, st, fr, kind, d, node)
        if kind == 'store':
            if self.get(st, 'seq', ())[-1:] != ('store',):
                self.seq(st, 'store')
        elif kind == 'argument' and d[0]:
            self.put(st, 'arg', 1)
        elif kind == 'take' and not d[0] and self.get(st, 'opt'):
            self.put(st, 'missing', 1)
        elif kind == 'callback':
            tag = self.names.get(d[0], 'other callback %s' % (d[0],))
            self.seq(st, tag)
            arg = d[1]
            if arg[0] == 'p':
                view = eng.load(st, arg[1] + ('view', self.viewf))
                val = eng.load(st, arg[1] + ('value',))
                bld = eng.load(st, arg[1] + ('builder', self.bldf))
                if view != ('p', ARG if 'argument' in tag else OPT):
                    self.put(st, 'badarg', 'the definition')
                if val not in (('f', 'stored'), ('s', ''), E.TOP) and val[0] != 's':
                    self.put(st, 'badarg', 'the value')
                if 'argument' in tag and val != ('f', 'stored'):
                    self.put(st, 'badarg', 'the value')
                if bld != ('init', self.RES + ('[back]',)) and bld != ('p', self.BACK):
                    self.put(st, 'badarg', 'the result')
        elif kind == 'splice':
            self.seq(st, 'insert ' + tagof(eng, st, d[1]) if d[0] == self.ITERP else 'insert elsewhere')
        elif kind in ('recount', 'counter'):
            s = self.get(st, 'seq', ())
            if s and (s[-1].startswith('insert') or s[-1] == 'recount'):
                self.seq(st, kind)
                if kind == 'counter' and not goodcount(self, d):
                    self.put(st, 'badarg', 'the right number of arguments because of a wrong recount')
        elif kind in EFFECTS:
            s = self.get(st, 'seq', ())
            if 'effect' not in s:
                self.put(st, 'seq', s + ('effect',))

    def on_call(self, eng, st, fr, nid, node, c):
        res = Outcome.on_call(self, eng, st, fr, nid, node, c)
        if c.n == 'operator()' and (c.cls or '').startswith('std::function'):
            arg = objref(st, c.raw(0))
            if arg[0] == 'p':
                tag = self.names.get(c.objplace(), 'other')
                eng.write(st, fr, arg[1] + ('new_arguments',), ('ilist', (('f', 'new', ('s', tag)),)), node, quiet=True)
        return res


def goodcount(rule, v):
    if v[:2] != ('f', 'counter') or len(v) != 5 or v[2] != ('p', rule.CUR):
        return False
    t, n = v[3], v[4]
    return t[:2] == ('op', '+') and set(t[2:]) == {n, ('f', 'recount')} and n[0] == 'f' and n[1].startswith('counter.')


def tagof(eng, st, v):
    for _ in range(3):
        if v[0] == 'p':
            v = eng.load(st, v[1])
    for t in walk(v):
        if t[:2] == ('f', 'new'):
            return t[2][1]
    return '?'


def walk(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            yield from walk(x)


def only_field(p, cls):
    f = p.cls(cls)['fields']
    return f[0]['n'] if isinstance(f[0], dict) else f[0][0]


def check(ctx):
    r = ctx.roles
    dpre = probe_data(r)
    n = m = none = 0
    for kind, G, own in (('option', OPT, r.od['callback']), ('argument', ARG, r.ad['callback'])):
        gl = dpre + tuple(r.setting(kind + '_callback'))
        other = 'argument' if kind == 'option' else 'option'
        gl2 = dpre + tuple(r.setting(other + '_callback'))
        FN = ('p', (('G', 'FUNCTION'),))
        for a in (True, False):
            for b in (True, False):
              for rc in (True, False):
                pins = {G + (own,): FN if a else NULL, tuple(gl): FN if b else NULL, tuple(gl2): FN}
                hooks = dict(auto_exit=False, reqcount=rc)
                if kind == 'option':
                    hooks.update(option=True, has=True, complete=True, argument=False)
                else:
                    hooks.update(option=False, command=False, sibling=False, complete=True)
                rule = Calls(r, pins, hooks, {G + (own,): 'own ' + kind, tuple(gl): 'common ' + kind})
                rule.viewf = only_field(r.p, 'argos::%sView' % kind.capitalize())
                rule.bldf = only_field(r.p, 'argos::ParsedArgumentsBuilder')
                fn = rule.entry()
                want = ()
                cnt = ('recount', 'counter') if rc else ()
                if a:
                    want += ('own ' + kind, 'insert own ' + kind) + cnt
                if b:
                    want += ('common ' + kind, 'insert common ' + kind) + cnt
                for o in ctx.run(fn, rule, setup=rule.setup):
                    if o.kind != 'ret':
                        continue
                    g = lambda k, d=None: rule.get(o.st, k, d)
                    seq = g('seq', ())
                    taken = g('opt') if kind == 'option' else g('arg')
                    loc, path = where(o, fn), o.st.path()
                    if taken and not g('missing'):
                        s = seq
                        stores = [i for i, x in enumerate(s) if x == 'store']
                        body = tuple(x for x in s if x not in ('store', 'effect'))
                        ctx.check(body == want, 'callbacks run', '%s own=%s common=%s' % (kind, a, b),
                                  'taking an %s runs [%s] instead of [%s]' % (kind, ', '.join(body), ', '.join(want)), loc, path)
                        first = min([i for i, x in enumerate(s) if 'own' in x or 'common' in x] or [99])
                        last = max([i for i, x in enumerate(s) if x not in ('store', 'effect')] or [-1])
                        ctx.check(all(i < first for i in stores), 'callbacks after the value is stored',
                                  '%s own=%s common=%s' % (kind, a, b),
                                  'the value is stored after a callback has run', loc, path)
                        ctx.check('effect' not in s or s.index('effect') > last, 'callbacks before other effects',
                                  '%s own=%s common=%s' % (kind, a, b),
                                  'an effect of the %s comes before its callbacks' % kind, loc, path)
                        ctx.check(not g('badarg'), 'callback arguments', '%s %s' % (kind, g('badarg')),
                                  'the callback does not see %s of the %s taken' % (g('badarg'), kind), loc, path)
                        if a or b:
                            m += 1
                        n += 1
                    else:
                        none += 1
                        bad = [x for x in seq if 'own' in x or 'common' in x or 'other' in x or x.startswith('insert')]
                        ctx.check(not bad, 'no callback otherwise', kind,
                                  'a callback runs although no %s was taken: %s' % (kind, bad), loc, path)
    rule = Calls(r, {}, dict(auto_exit=False, option=False, argument=False, reqcount=False), {})
    for o in ctx.run(rule.entry(), rule, setup=rule.setup):
        none += 1
        bad = [x for x in rule.get(o.st, 'seq', ()) if x not in ('store', 'effect')]
        ctx.check(not bad, 'no callback otherwise', 'nothing taken',
                  'a callback runs although nothing was taken: %s' % bad, where(o, rule.entry()), o.st.path())
    ctx.floor('paths that take an option or argument', n, 10)
    ctx.floor('paths with callbacks', m, 6)
    ctx.floor('paths without', none, 4)
    ctx.sample('%d paths take an option or argument, %d of them run callbacks; %d paths take none' % (n, m, none))


def probe_data(r):
    return Outcome(r).DATA
