"""C09: unknown options and surplus arguments."""
from harness import *
from engine import show, FALSE, TRUE
import engine as E
from c04 import where

RULE = """
For each combination of the two ignore settings, every path of a parse step that looks up an option without finding it, or
that asks for the next argument without getting one, ends either as an error (always if its own setting is off) or (if
its own setting is on) as UNKNOWN after adding the token exactly once, verbatim, to the unprocessed arguments of the
innermost active result, without any other effect; an unknown option inside a group of short options, which cannot be kept, is an
error.  An unknown command is always an error.  No other path ends as UNKNOWN or adds single tokens to the unprocessed arguments.
Reading the unprocessed arguments of a result returns that list.
"""
EXPLAIN = """
The settings are pinned; look-up results are forked; additions to the list of unprocessed arguments are recorded with the
provenance of the added text.
"""


class Undef(Outcome):
    def event(self, eng, st, fr, kind, d, node):
        Outcome.event(self, eng, st, fr, kind, d, node)
        if kind == 'option' and not d[0]:
            self.put(st, 'what', 'option')
        elif kind == 'argument' and not d[0]:
            self.put(st, 'what', 'argument')
        elif kind == 'find-command' and not d[0]:
            self.put(st, 'what', 'command')
        elif kind in ('option', 'find-command', 'argument') and d[0]:
            self.put(st, 'what', None)
        elif kind == 'rest':
            w = d[1]
            if w[0] == 'add' and (any(E.contains(x, ('f', 'current')) for x in w[2:]) or
                                  any(E.contains(x, ('f', 'tok', ('s', n))) for x in w[2:] for n in ('next', 'next_value'))):
                if d[0] != self.BACK or len(w) > 3:
                    self.put(st, 'badrest', 'an argument is kept in the wrong result')
                verb = all(x in (('f', 'current'), ('f', 'tok', ('s', 'next')), ('f', 'tok', ('s', 'next_value')))
                           for x in w[2:])
                if not verb:
                    self.put(st, 'badrest', 'an argument is not kept verbatim')
                self.put(st, 'kept', self.get(st, 'kept', ()) + tuple(x[1] for x in w[2:] if x[0] == 'f'))
        elif kind in ('stop', 'help', 'store', 'results', 'counter', 'callback'):
            self.put(st, 'other', kind)

    def on_assume(self, eng, st, fr, v, truth, node):
        if self.get(st, 'whole') is None and E.contains(v, ('f', 'current')) and any(
                E.contains(v, ('f', 'tok', ('s', n))) for n in ('next', 'next_value')):
            self.put(st, 'whole', 'compared')

    def on_call(self, eng, st, fr, nid, node, c):
        if c.ref.get('t') == 'bool' and c.cls not in (self.r.PA, self.r.CD, self.r.COUNTER):
            vs = c.rvs() + ([c.objval()] if node.get('obj') else [])
            if ('f', 'current') in vs and any(v[:2] == ('f', 'tok') for v in vs):
                out = []
                for b in (True, False):
                    s = st.copy()
                    self.put(s, 'whole', b)
                    out.append((s, TRUE if b else FALSE))
                return ('states', out)
        return Outcome.on_call(self, eng, st, fr, nid, node, c)


def check(ctx):
    r = ctx.roles
    cnt = dict.fromkeys(('option', 'argument', 'command', 'other'), 0)
    for io in (True, False):
        for ia in (True, False):
            pins = {tuple(r.setting('ignore_undefined_options')): TRUE if io else FALSE,
                    tuple(r.setting('ignore_undefined_arguments')): TRUE if ia else FALSE}
            rule = Undef(r, hooks=dict(auto_exit=False), pins=pins)
            fn = rule.entry()
            for o in ctx.run(fn, rule, setup=rule.setup):
                if o.kind != 'ret':
                    continue
                g = lambda k, d=None: rule.get(o.st, k, d)
                what, code = g('what'), outcome_code(o)
                kept = g('kept', ())
                loc, path = where(o, fn), o.st.path()
                sc = 'options %s, arguments %s' % ('ignored' if io else 'rejected', 'ignored' if ia else 'rejected')
                if what is None or (what == 'command' and code != 'ERROR'):
                    cnt['other'] += 1
                    if code != 'ERROR':
                        ctx.check(code != 'UNKNOWN' and not kept and what is None, 'nothing unknown', sc,
                                  'a step that finds what it looks for ends as %s%s' % (
                                      code, ' and keeps its argument as unprocessed' if kept else '')
                                  if what is None else 'an unknown command is not an error', loc, path)
                    continue
                cnt[what] += 1
                ign = io if what == 'option' else ia if what == 'argument' else False
                whole = g('whole', True if what == 'argument' else None)
                key = '%s; %s' % (what, sc)
                if code == 'ERROR':
                    ctx.check(not ign or whole is not True, 'ignored kinds are no error', key,
                              'an unknown %s is an error although it shall be ignored' % what, loc, path)
                    continue
                ctx.check(ign and whole in (True, 'compared'), 'rejected kinds are errors', key,
                          'an unknown %s is accepted although it %s' % (
                              what, 'may be part of a group, which cannot be kept' if ign else 'shall be rejected'), loc, path)
                good = ('current',) if what == 'option' else ('tok', 'current')
                ctx.check(len(kept) == 1 and kept[0] in good and not g('badrest'), 'ignored tokens are kept', key,
                          g('badrest') or 'an unknown %s is kept %d times' % (what, len(kept)), loc, path)
                ctx.check(code == 'UNKNOWN', 'ignored tokens are reported', key,
                          'an unknown %s is reported as %s' % (what, code), loc, path)
                ctx.check(not g('other') and g('state') is None and g('allcode') is None and g('onecode') is None,
                          'ignored tokens have no other effect', key,
                          'an unknown %s has another effect (%s)' % (what, g('other') or 'state or result code'), loc, path)
    for k in cnt:
        ctx.floor('paths with unknown %s' % k, cnt[k], 2)
    # the list is what users read
    fs = [f for f in r.p.find('argos::ParsedArguments::unprocessed_arguments')]
    ctx.floor('readers', len(fs), 1)
    for fn in fs:
        rule = E.Rule()
        for o in ctx.run(fn, rule):
            if o.kind == 'ret':
                v = o.val
                if v[0] == 'p':
                    v = o.st.store.get(v[1], ('init', v[1]))
                ok = v[0] == 'init' and v[1][-1] == r.pa['rest']
                ctx.check(ok, 'reading the unprocessed arguments', fn['q'],
                          'the list returned is %s' % show(v), where(o, fn), o.st.path())
    ctx.sample(', '.join('%d %s' % (v, k) for k, v in cnt.items()) + ' paths')
