"""C30: what a command starts with when it becomes active."""
from activate import *
from engine import show
from c04 import where

RULE = """
On every path of the constructor of the parse and of every parse step that starts a command (found in the current command, or as a
sibling in a parent): a new result is created for exactly that command and the parser's data; it is added to the subcommands of
the result that was innermost (the parent's, for a sibling) and becomes the last active result; the command becomes the
current one and options are read again; for each option of that command with an initial value, and for no other, exactly
that value is appended to the new result under the option's own ids; and the argument counter is created for that
command, with a count of the arguments to come, taken after the command became current, if and only if one is required.
"""
EXPLAIN = """
Constant propagation over small nestings with the initial value pinned to set or unset; every loop is summarised by the effects of
each iteration (must complete, every element) so the options of a command are covered for any number.
"""
ASSUME = ["nestings deeper than the enumerated ones behave alike"]


def started(ctx, rule, o, fn, cmd, cmdplace, parent, data, initial, key):
    """obligations of one activation of cmdplace"""
    r = ctx.roles
    log, loc, path = rule.log(o), where(o, fn), o.st.path()
    new = [e[1] for e in log if e[0] == 'new']
    ctx.check(len(new) == 1 and new[0][:2] == (('p', cmdplace), data), 'new result', key,
              'the result is not created once, for the command and the data of the parser', loc, path)
    adds = [e[1] for e in log if e[0] == 'results']
    NEW = None
    if adds and adds[-1][0] == 'add':
        NEW = adds[-1][2]
    elif adds and adds[-1][0] == 'ilist' and len(adds[-1][1]) == 1:
        NEW = adds[-1][1][0]
    ctx.check(NEW is not None and NEW[0] == 'p', 'new innermost result', key,
              'no new result becomes the innermost one', loc, path)
    if NEW is None or NEW[0] != 'p':
        return
    subs = [e for e in log if e[0] == 'subs']
    if parent is not None:
        ctx.check(len(subs) == 1 and subs[0][1] == parent and subs[0][2][0] == 'add' and subs[0][2][2] == NEW,
                  'registered', key, 'the new result is not registered once, in the result of its parent', loc, path)
    else:
        ctx.check(not subs, 'registered', key, 'the top-level result is registered in another one', loc, path)
    ip = max(i for i, e in enumerate(log) if e[0] == 'results')
    cmds = [(i, e[1]) for i, e in enumerate(log) if e[0] == 'command']
    states = [(i, e[1]) for i, e in enumerate(log) if e[0] == 'state']
    ctx.check(cmds and cmds[-1][1] == ('p', cmdplace), 'current command', key,
              'the command does not become the current one', loc, path)
    ctx.check(states and states[-1][1] == r.S['ARGUMENTS_AND_OPTIONS'], 'state', key,
              'options of the new command are not read', loc, path)
    V = cmdplace + (r.cd['options'],)
    opt = (('O', ('init', V + ('[]',))),)
    want = ('store', 'append', NEW[1], (('init', opt + (r.od['value_id'],)), ('s', 'K'),
                                        ('init', opt + (r.od['argument_id'],))))
    loops = [e[2] for e in log if e[0] == 'forall' and e[1] == V]
    stores = rule.get(o.st, 'stores', ())
    if initial:
        full = [x for x in loops if x is not None]
        good = [x for x in full if want in x]
        ctx.check(len(loops) == len(full) and len(good) == 1 or loops and all(x is None for x in loops),
                  'initial values', key, 'the initial values of the options are not stored exactly once each', loc, path)
    else:
        ctx.check(bool(loops), 'initial values', key, 'the search for initial values can stop at an option without one', loc, path)
    ctx.check(stores == () or initial and stores == ((want[1], want[2], want[3]),), 'no other values', key,
              'something else than the initial values is stored', loc, path)
    cnt = [(i, e[1]) for i, e in enumerate(log) if e[0] == 'counter']
    req = [e[1] for e in log if e[0] == 'reqcount']
    rec = [i for i, e in enumerate(log) if e[0] == 'recount']
    last = cnt[-1][1] if cnt else E.TOP
    ok = last[:3] == ('f', 'counter', ('p', cmdplace)) and cnt[-1][0] > 0
    need = bool(req and req[-1][0])
    ctx.check(ok and req and req[-1][1] == ('p', cmdplace), 'argument counter', key,
              'the arguments of the command are not counted afresh', loc, path)
    ctx.check(len(rec) == need and (last[3:] in ((), (E.FALSE,)) if not need else
                                    last[3:] in ((('f', 'recount'),), (('f', 'recount'), E.FALSE))), 'count of arguments', key,
              'the number of arguments to come is %s' % ('not counted' if need else 'counted needlessly'), loc, path)
    if rec:
        ctx.check(cmds and states and rec[0] > max(cmds[-1][0], states[-1][0]), 'counted for the new command', key,
                  'the arguments to come are counted before the command is current', loc, path)


def check(ctx):
    r = ctx.roles
    K = ('s', 'K')
    n = s = top = 0
    base = Outcome(r)
    for initial in (True, False):
        pin = {(r.od['initial_value'],): K if initial else ('s', '')}
        for depth in (1, 2):
            for state in ('ARGUMENTS_AND_OPTIONS', 'ARGUMENTS_ONLY'):
                rule = Active(r, depth, (True,) * depth, hooks=dict(auto_exit=False, option=False, token=True, command=True),
                              pins=dict(pin, **{}) | {(r.ai['state'],): r.S[state]})

                def setup(st, rule=rule):
                    rule.setup(st)
                    st.facts[('size', rule.CUR + (r.cd['commands'],))] = ('!=', frozenset({FALSE}))
                fn = rule.entry()
                for o in ctx.run(fn, rule, setup=setup):
                    if o.kind != 'ret' or outcome_code(o) != 'COMMAND':
                        continue
                    n += 1
                    started(ctx, rule, o, fn, CMD, CMD, rule.R[-1], data_of(rule, o, rule.R[-1]), initial,
                            'subcommand with%s initial values' % ('' if initial else 'out'))
        for depth in (2, 3):
            for k in range(depth - 1):
                multi = tuple(i == k for i in range(depth))
                rule = Active(r, depth, multi, hooks=dict(auto_exit=False, option=False, token=True, sibling=True,
                                                          complete=True, has=True),
                              pins=dict(pin) | {(r.ai['state'],): r.S['ARGUMENTS_ONLY']})

                def setup(st, rule=rule):
                    rule.setup(st)
                    st.facts[('size', rule.CUR + (r.cd['commands'],))] = ('=', FALSE)
                fn = rule.entry()
                for o in ctx.run(fn, rule, setup=setup):
                    if o.kind != 'ret' or outcome_code(o) != 'COMMAND':
                        continue
                    s += 1
                    started(ctx, rule, o, fn, CMD, CMD, rule.R[k], data_of(rule, o, rule.R[k]), initial,
                            'sibling command with%s initial values' % ('' if initial else 'out'))
        for fn in r.p.find(r.AI + '::' + r.AI.split('::')[-1]):
            if len(fn['params']) < 2:
                continue
            rule = Active(r, 0, hooks=dict(auto_exit=False), pins=dict(pin))
            for o in ctx.run(fn, rule):
                if o.kind != 'ret':
                    continue
                top += 1
                dn = [p['n'] for p in fn['params'] if r.PD in p['t']]
                D = ('init', (('arg', dn[0]),))
                started(ctx, rule, o, fn, None, (('O', D), r.pd['command']), None, D, initial,
                        'top level with%s initial values' % ('' if initial else 'out'))
    ctx.floor('subcommands started', n, 4)
    ctx.floor('siblings started', s, 4)
    ctx.floor('top-level commands', top, 4)
    ctx.sample('%d paths start a subcommand, %d a sibling, %d the top level' % (n, s, top))


def data_of(rule, o, res):
    """the data pointer of an existing result, or the parse's own"""
    for e in rule.log(o):
        if e[0] == 'new' and len(e[1]) > 1 and e[1][1] == ('init', rule.this + (rule.r.ai['data'],)):
            return e[1][1]
    return ('init', res + (rule.r.pa['data'],))
