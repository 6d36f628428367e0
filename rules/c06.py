"""C06: the effect of an option's type on the rest of the parse."""
from harness import *
from engine import show, FALSE, TRUE, NULL
import engine as E
from c04 import where

RULE = """
For each option type, every path of a parse step that takes an option of that type (automatic exit off, nothing
missing) has exactly the effects of that type: help text written iff HELP; code STOP and the option itself as stop
option on all active results, finished state and remaining arguments kept iff HELP, STOP or EXIT; the checks for
missing options and arguments, SUCCESS, and either the remaining arguments kept and the finished state or the
return to a parent that allows several subcommands iff LAST_ARGUMENT; arguments-only state iff LAST_OPTION; none of
these for NORMAL.
"""
EXPLAIN = """
The type of the found option is pinned to each enumerator and propagated through the parse step with all other
lookups forked; effects are recorded as typestate (complete loops for effects on all results).
"""
ASSUME = ["the list of active results is never empty between parse steps (established by the constructor)"]


def check(ctx):
    r = ctx.roles
    S = r.S
    types = [n for n, _ in r.p.enum('argos::OptionType')]
    known = ('NORMAL', 'HELP', 'STOP', 'EXIT', 'LAST_ARGUMENT', 'LAST_OPTION')
    ctx.floor('known option types', len([t for t in types if t in known]), 6)
    for t in types:
        if t not in known:
            continue
        rule = Outcome(r, hooks=dict(auto_exit=False, option=True, token=True, value=True, has=True, complete=True),
                       pins={(('G', 'OPT'), r.od['type']): r.otype(t),
                             (r.cd['require'], 'opt'): FALSE,
                             (r.ai['state'],): S['ARGUMENTS_AND_OPTIONS']})
        fn = rule.entry()
        n = 0
        for o in ctx.run(fn, rule, setup=rule.setup):
            g = lambda k, d=None: rule.get(o.st, k, d)
            if not g('opt') or o.kind == 'throw':
                continue
            n += 1
            loc, path = where(o, fn), o.st.path()

            def need(ok, what, msg):
                ctx.check(ok, 'type ' + t, what, 'option of type %s: %s' % (t, msg), loc, path)
            need(o.kind == 'ret' and outcome_code(o) == 'OPTION', 'result',
                 'the step does not report the option (%s)' % (outcome_code(o) if o.kind == 'ret' else o.kind))
            need(not g('err'), 'error', 'an error message is written')
            need(g('help', 0) == (1 if t == 'HELP' else 0), 'help text',
                 'help text written %d time(s)' % g('help', 0))
            need(not g('helpargs'), 'help text of', 'help is not written for the current command')
            stop = t in ('HELP', 'STOP', 'EXIT')
            if stop:
                need(g('allcode') == r.code('STOP') and not g('onecode'), 'result code',
                     'not every active result gets the code STOP')
                need(g('allstop') == ('p', OPT) and not g('onestop'), 'stop option',
                     'the option is not recorded as the stop option of every active result')
                need(g('state') == S['DONE'], 'state', 'the parse does not end')
                need(g('copied') is True, 'remaining arguments', 'remaining arguments are not kept')
            else:
                need(not g('allstop') and not g('onestop'), 'stop option', 'a stop option is recorded')
            if t == 'LAST_ARGUMENT':
                need(g('allcode') == r.code('SUCCESS') and not g('onecode'), 'result code',
                     'not every active result gets the code SUCCESS')
                if g('trimmed'):
                    need(g('state') == S['ARGUMENTS_ONLY'], 'state', 'control does not pass to the parent command')
                else:
                    need(g('state') == S['DONE'], 'state', 'the parse does not end')
                    need(g('copied') is True, 'remaining arguments', 'remaining arguments are not kept')
            elif not stop:
                need(g('allcode') is None and g('onecode') is None, 'result code', 'a result code is set')
                need(g('copied') is None, 'remaining arguments', 'remaining arguments are consumed')
                if t == 'LAST_OPTION':
                    need(g('state') == S['ARGUMENTS_ONLY'], 'state', 'later arguments can still be options')
                else:
                    need(g('state') in (None, S['ARGUMENTS_AND_OPTIONS']), 'state', 'the parser state changes')
        ctx.floor('outcomes of type ' + t, n, 1)
        ctx.sample('type %s: %d outcomes' % (t, n))
    # LAST_ARGUMENT still reports what is missing
    for name, hooks, pins in (
            ('arguments', dict(has=True, complete=False), {(r.cd['require'], 'opt'): FALSE}),
            ('subcommand', dict(has=True, complete=True), {(Outcome(r).CUR[0], r.cd['require'], 'opt'): TRUE,
                                                           Outcome(r).BACK + (r.pa['subs'],): ('empty',)})):
        for t in ('LAST_ARGUMENT', 'STOP'):
            h = dict(auto_exit=False, option=True, token=True, value=True)
            h.update(hooks)
            rule = Outcome(r, hooks=h, pins={**pins, (('G', 'OPT'), r.od['type']): r.otype(t),
                                             (r.ai['state'],): S['ARGUMENTS_AND_OPTIONS']})
            for o in ctx.run(rule.entry(), rule, setup=rule.setup):
                if not rule.get(o.st, 'opt') or o.kind != 'ret':
                    continue
                want = 'ERROR' if t == 'LAST_ARGUMENT' else 'OPTION'
                ctx.check(outcome_code(o) == want, 'missing %s' % name, t,
                          'a missing %s gives %s instead of %s after an option of type %s'
                          % (name, outcome_code(o), want, t), where(o, fn), o.st.path())
