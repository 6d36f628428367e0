"""C05: success is only reported when everything required was given."""
from harness import *
from engine import show, FALSE, TRUE
import engine as E
from c04 import where

RULE = """
On every path of a parse step that gives a result the code SUCCESS or reports the end of the parse:
(a) in the scenario 'every option is mandatory and has no value', a loop over all active results has been
completed whose every iteration completed a loop over all options of that result's own command without a
single iteration; (b) it is unreachable when the current command requires a subcommand and none was given;
(c) it is unreachable when the argument counter is not complete.  In the scenarios where everything
required was given, the exhausted command line always leads to SUCCESS on all active results.
"""
EXPLAIN = """
Scenario constants (mandatory flag, presence of values, requirement of a subcommand, counter state) are
propagated through the parse step; loops must be complete, so a loop left early or over fewer results
does not count.
"""
ASSUME = ["the list of active results is never empty between parse steps (established by the constructor)",
          "the arithmetic of the argument counter itself is not decided here"]


class Succ(Outcome):
    def event(self, eng, st, fr, kind, d, node):
        Outcome.event(self, eng, st, fr, kind, d, node)
        r = self.r
        if kind == 'code' and d[1] == r.code('SUCCESS'):
            self.put(st, 'succ', 1)
        if kind == 'forall' and d[0] == self.RES:
            opts = (('O', ('init', self.EACH + (r.pa['command'],))), r.cd['options'])
            if d[1] and ('forall', opts, True) in d[1]:
                self.put(st, 'mand', 1)
        if kind == 'has':
            pa, vid = d[1]
            want = ('init', (('O', ('init', (('O', ('init', self.EACH + (r.pa['command'],))),
                                             r.cd['options'], '[]'))), r.od['value_id']))
            if pa != self.EACH or vid != want:
                self.put(st, 'badhas', 1)


def scenario(ctx, hooks, pins):
    r = ctx.roles
    h = dict(auto_exit=False)
    h.update(hooks)
    rule = Succ(r, hooks=h, pins=pins)
    fn = rule.entry()
    return rule, [o for o in ctx.run(fn, rule, setup=rule.setup)], fn


def succeeded(rule, o):
    return o.kind == 'ret' and (rule.get(o.st, 'succ') or outcome_code(o) == 'DONE' and rule.get(o.st, 'taken'))


def check(ctx):
    r = ctx.roles
    probe = Outcome(r)
    req = (probe.CUR[0], r.cd['require'], 'opt')
    subs = probe.BACK + (r.pa['subs'],)
    norequire = {(r.cd['require'], 'opt'): FALSE}
    opt = r.od['optional']

    # (a) mandatory options
    rule, outs, fn = scenario(ctx, dict(has=False, complete=True), {**norequire, ('[]', opt): FALSE, (opt,): FALSE})
    n = 0
    for o in outs:
        if succeeded(rule, o):
            n += 1
            ctx.check(rule.get(o.st, 'mand'), 'mandatory options', 'success without check',
                      'success can be reported although a mandatory option of an active command has no value',
                      where(o, fn), o.st.path())
    ctx.check(n > 0, 'mandatory options', 'success reachable', 'success is never reported', fn['q'])
    # the lookup of values is for the option and result at hand
    for o in outs:
        ctx.check(not rule.get(o.st, 'badhas'), 'mandatory options', 'value lookup',
                  "an option's presence is looked up in another result or with another id", where(o, fn), o.st.path())
    # (b) required subcommand
    rule, outs, fn = scenario(ctx, dict(has=True, complete=True), {req: TRUE, subs: ('empty',)})
    for o in outs:
        ctx.check(not succeeded(rule, o), 'required subcommand', 'success without subcommand',
                  'success can be reported although a required subcommand is missing', where(o, fn), o.st.path())
    # (c) arguments
    rule, outs, fn = scenario(ctx, dict(has=True, complete=False), norequire)
    for o in outs:
        ctx.check(not succeeded(rule, o), 'required arguments', 'success with incomplete arguments',
                  'success can be reported although arguments are missing', where(o, fn), o.st.path())
    # positive scenarios
    both = {('[]', opt): TRUE, (opt,): TRUE}
    for name, hooks, pins in (
            ('values given', dict(has=True, complete=True), {**norequire, ('[]', opt): FALSE, (opt,): FALSE}),
            ('options optional', dict(has=False, complete=True), {**norequire, **both}),
            ('subcommand given', dict(has=True, complete=True), {req: TRUE, subs: ('ilist', (E.TOP,))})):
        for st in ('ARGUMENTS_AND_OPTIONS', 'ARGUMENTS_ONLY'):
            hooks = dict(hooks, token=False)
            rule, outs, fn = scenario(ctx, hooks, {**pins, (r.ai['state'],): r.S[st]})
            n = 0
            for o in outs:
                n += 1
                ok = succeeded(rule, o) and outcome_code(o) == 'DONE' and not rule.get(o.st, 'err') and \
                    rule.get(o.st, 'allcode') == r.code('SUCCESS') and not rule.get(o.st, 'onecode') and \
                    rule.get(o.st, 'state') == r.S['DONE']
                ctx.check(ok, 'success', name, 'the end of a complete command line is not reported as success on all '
                          'active results', where(o, fn), o.st.path())
            ctx.floor('outcomes of scenario ' + name, n, 1)
    # the presence test itself: true exactly if a value is stored under the id
    has = r.p.one(r.PA + '::has')
    key = ('init', (('arg', has['params'][0]['n']),))
    for present in (True, False):
        for o in ctx.run(has, HasRule(r, present, key)):
            ctx.check(o.kind == 'ret' and o.st.ts == 'asked' and o.val == (TRUE if present else FALSE),
                      'presence test', 'present' if present else 'absent',
                      "the presence of a value is reported as %s when it is %s" % (show(o.val), present),
                      where(o, has), o.st.path())


class HasRule(E.Rule):
    def __init__(self, r, present, key):
        self.VAL, self.present, self.key = (('this', r.PA), r.pa['values']), present, key

    def on_call(self, eng, st, fr, nid, node, c):
        if node.get('obj') and c.n in ('find', 'contains', 'count', 'lower_bound', 'equal_range') \
                and c.objplace() == self.VAL and c.rv(0) == self.key:
            st.ts = 'asked'
            it = ('itf', self.VAL) if self.present else ('end', self.VAL)
            if c.n == 'find':
                return ('val', it)
            if c.n in ('contains', 'count'):
                return ('val', TRUE if self.present else FALSE)
            if c.n == 'equal_range':
                return ('val', ('tup', (it, ('end', self.VAL) if self.present else it)))
            return ('val', it)
        return None
