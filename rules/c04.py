"""C04: the state after a parse error."""
from harness import *
from engine import show

RULE = """
Every path of one parse step (automatic exit off) that reports an error has passed through exactly one
error-message write for the current command, a loop that sets FAILURE on every active result (and no
later result code), the copy of all remaining arguments, and the change to the error state; every other
path has passed none of them.  A step taken in the error state only throws; a step taken in the finished
state reports DONE and has no effect.
"""
EXPLAIN = """
Path-sensitive typestate over the control-flow graphs of the parse step and everything it calls in the
repository (helpers are analysed in place).  Option/command lookups, option iterator and argument counter
outcomes are forked, so all combinations of lookup results are covered.
"""
ASSUME = ["the list of active results is never empty between parse steps (established by the constructor)"]


def where(o, fn):
    return o.loc or '%s:%s' % (fn['file'], fn['line'])


def check(ctx):
    r = ctx.roles
    rule = Outcome(r, hooks=dict(auto_exit=False))
    fn = rule.entry()
    err = ok = 0
    for o in ctx.run(fn, rule, setup=rule.setup):
        g = lambda k, d=None: rule.get(o.st, k, d)
        if o.kind != 'ret':
            continue
        code = outcome_code(o)
        loc, path = where(o, fn), o.st.path()
        if code is None:
            ctx.fail('error state', 'unknown result', 'a step returns a result whose code is not a constant', loc, path)
            continue
        if code == 'ERROR':
            err += 1
            R = 'error state'
            ctx.check(g('err', 0) == 1, R, 'message', 'an error is reported with %s error message(s)' %
                      {0: 'no', 2: 'more than one'}.get(g('err', 0)), loc, path)
            ctx.check(not g('errcmd') and not g('errdata'), R, 'message arguments',
                      'the error message is not written for the current command and settings', loc, path)
            ctx.check(g('allcode') == r.code('FAILURE') and (g('onecode') is None), R, 'result code',
                      'not every active result gets the code FAILURE (last code: %s)' %
                      (show(g('allcode')) if g('allcode') else 'none'), loc, path)
            ctx.check(g('copied') is True, R, 'remaining arguments',
                      'the remaining arguments are not all kept as unprocessed arguments', loc, path)
            ctx.check(g('state') == r.S['ERROR'], R, 'state', 'the parser does not enter the error state', loc, path)
        else:
            ok += 1
            R = 'no error'
            ctx.check(g('err', 0) == 0, R, 'message', 'an error message is written but %s is reported' % code, loc, path)
            ctx.check(r.code('FAILURE') not in (g('allcode'), g('onecode')), R, 'result code',
                      'a result becomes FAILURE but %s is reported' % code, loc, path)
            ctx.check(g('state') != r.S['ERROR'], R, 'state', 'the error state is entered but %s is reported' % code, loc, path)
    ctx.floor('error outcomes', err, 4)
    ctx.floor('other outcomes', ok, 4)
    for state in ('ERROR', 'DONE'):
        rule = Outcome(r, hooks=dict(auto_exit=False), pins={(r.ai['state'],): r.S[state]})
        for o in ctx.run(fn, rule, setup=rule.setup):
            loc, path = where(o, fn), o.st.path()
            if state == 'ERROR':
                ctx.check(o.kind == 'throw', 'step after error', o.kind,
                          'a step taken after an error does not throw', loc, path)
            else:
                ctx.check(o.kind == 'ret' and outcome_code(o) == 'DONE' and not o.st.ts, 'step when done', o.kind,
                          'a step taken after the end does not just report DONE', loc, path)
    ctx.sample('%d error and %d other outcomes of %s' % (err, ok, fn['q']))
