"""C24: handing over to the parent that allows several subcommands."""
from activate import *
from engine import show
import itertools
from c04 import where

RULE = """
For up to 3 (thorough: 4) active results and every assignment of 'allows several subcommands' to their commands: an
argument of a command without subcommands is looked up among the subcommands of exactly the innermost strict parent that allows several,
with the parser's case setting, iff its own arguments are complete; if it is found there, the mandatory options of
all active commands are checked first, the active results are cut back to exactly that parent, and a new result for the found
command, registered in that parent's result, becomes the innermost one.  A complete LAST_ARGUMENT option cuts back to the same
parent, makes its command current with an empty argument counter and reads arguments only, and finishes the
parse if there is no such parent.  Nothing else shortens the list of active results.
"""
EXPLAIN = """
Constant propagation over enumerated nestings: the list of active results is analysed element by element (index loops, iterators,
reverse iterators and search algorithms alike), look-up results are forked.
"""
ASSUME = ["nestings deeper than the enumerated ones behave alike (the code treats all inner positions in one loop)"]


def size_after(rule, log):
    n = rule.n
    for e in log:
        if e[0] == 'results':
            w = e[1]
            if w[0] == 'add':
                n += 1
            elif len(w) > 2 and w[2][0] == 'c':
                n = w[2][1]
            else:
                return None
    return n


def check(ctx):
    r = ctx.roles
    found = last = plain = 0
    top = 4 if ctx.tier == 'thorough' else 3
    ci = ('init', Outcome(r).DATA + tuple(r.setting('case_insensitive')))
    for n in range(1, top + 1):
        for multi in itertools.product((True, False), repeat=n):
            k = max([i for i in range(n - 1) if multi[i]] or [-1])
            key = '%d results, several allowed: %s' % (n, ','.join(str(i) for i in range(n) if multi[i]) or 'none')
            for state in ('ARGUMENTS_AND_OPTIONS', 'ARGUMENTS_ONLY'):
                rule = Active(r, n, multi, hooks=dict(auto_exit=False, option=False, token=True, reqcount=False),
                              pins={(r.ai['state'],): r.S[state]})

                def setup(st, rule=rule):
                    st.facts[('size', rule.CUR + (r.cd['commands'],))] = ('=', FALSE)
                fn = rule.entry()
                for o in ctx.run(fn, rule, setup=setup):
                    if o.kind != 'ret':
                        continue
                    log, loc, path = rule.log(o), where(o, fn), o.st.path()
                    kinds = [e[0] for e in log]
                    sib = [e[1] for e in log if e[0] == 'find-sibling']
                    com = [e[1][0] for e in log if e[0] == 'complete']
                    size = size_after(rule, log)
                    hit = any(s[0] for s in sib)
                    for s in sib:
                        ctx.check(k >= 0 and s[1][0] == rule.RC[k], 'innermost parent', key,
                                  'a sibling command is looked up in %s instead of %s' % (
                                      show(('p', s[1][0])), 'result %d' % k if k >= 0 else 'none'), loc, path)
                        ctx.check(len(s[1]) == 3 and s[1][1][:2] == ('f', 'tok') and s[1][2] == ci, 'look-up arguments', key,
                                  'the sibling command is not looked up by the argument and the case setting', loc, path)
                        ctx.check(com and com[0], 'only complete commands are left', key,
                                  'a sibling command is looked up although arguments are missing', loc, path)
                    if hit:
                        err = outcome_code(o) == 'ERROR'
                        if err:
                            ctx.check('subs' not in kinds and size == n, 'no hand-over on error', key,
                                      'the hand-over starts although an error is reported', loc, path)
                            continue
                        found += 1
                        cut = next((i for i, e in enumerate(log) if e[0] == 'results'), len(log))
                        # the mandatory options of every result are known to be given
                        seen = {e[1] for e in log[:cut] if e[0] == 'forall'}
                        want = {x + (r.cd['options'],) for x in rule.RC}
                        ctx.check(want <= seen, 'mandatory options before the hand-over', key,
                                  'a sibling command starts before the mandatory options of all active commands are checked',
                                  loc, path)
                        sizes = [e[1][2] for e in log if e[0] == 'results' and e[1][0] == 'del']
                        ctx.check(sizes and sizes[-1] == ('c', k + 1) and size == k + 2, 'cut back to the parent', key,
                                  'the active results are cut back to %s instead of %d' % (
                                      show(sizes[-1]) if sizes else 'nothing', k + 1), loc, path)
                        subs = [e for e in log if e[0] == 'subs']
                        add = [e[1][2] for e in log if e[0] == 'results' and e[1][0] == 'add']
                        ctx.check(len(subs) == 1 and len(add) == 1 and subs[0][1] == rule.R[k] and subs[0][2][2] == add[0],
                                  'registered in the parent', key,
                                  'the result of the sibling command is not registered in its parent only', loc, path)
                        ctx.check(outcome_code(o) == 'COMMAND', 'reported', key,
                                  'the sibling command is reported as %s' % outcome_code(o), loc, path)
                    else:
                        plain += 1
                        ctx.check(size == n and 'command' not in kinds, 'nothing else hands over', key,
                                  'the active results change without a sibling command', loc, path)
                        if 'argument' in kinds:
                            ctx.check(bool(sib) or k < 0 or not com or not com[0], 'siblings are looked for', key,
                                      'an argument of a complete command is taken without looking for a sibling command',
                                      loc, path)
            rule = Active(r, n, multi, hooks=dict(auto_exit=False, option=True, token=True, value=True, has=True,
                                                  reqcount=False),
                          pins={(('G', 'OPT'), r.od['type']): r.otype('LAST_ARGUMENT'),
                                (('G', 'OPT'), r.od['operation']): r.oper('NONE'),
                                (r.ai['state'],): r.S['ARGUMENTS_AND_OPTIONS']})
            fn = rule.entry()
            for o in ctx.run(fn, rule, setup=rule.setup):
                g = lambda kk, d=None: rule.get(o.st, kk, d)
                if o.kind != 'ret' or not g('opt'):
                    continue
                log, loc, path = rule.log(o), where(o, fn), o.st.path()
                size = size_after(rule, log)
                if outcome_code(o) == 'ERROR':
                    ctx.check(size == n, 'no hand-over on error', key,
                              'the hand-over starts although an error is reported', loc, path)
                    continue
                last += 1
                if k < 0:
                    ctx.check(size == n and g('state') == r.S['DONE'], 'the end without such a parent', key,
                              'the last argument does not finish the parse', loc, path)
                    continue
                cmds = [e[1] for e in log if e[0] == 'command']
                cnts = [e[1] for e in log if e[0] == 'counter']
                ctx.check(size == k + 1, 'cut back to the parent', key,
                          'the last argument cuts the active results back to %s instead of %d' % (size, k + 1), loc, path)
                ctx.check(cmds and cmds[-1] in (('init', rule.R[k] + (r.pa['command'],)), ('p', rule.RC[k])),
                          'the parent becomes current', key, 'the current command becomes %s' % (
                              show(cmds[-1]) if cmds else 'nothing else'), loc, path)
                ctx.check(cnts and cnts[-1] == ('f', 'counter'), 'no arguments are open', key,
                          'the argument counter of the parent is not empty', loc, path)
                ctx.check(g('state') == r.S['ARGUMENTS_ONLY'], 'state', key,
                          'after the last argument the state is %s' % show(g('state')), loc, path)
    ctx.floor('hand-overs to a sibling', found, 6)
    ctx.floor('last arguments', last, 6)
    ctx.floor('other arguments', plain, 6)
    ctx.sample('%d hand-overs, %d last arguments, %d other outcomes' % (found, last, plain))
