"""C03: when the library terminates the process, and with which code."""
from harness import *
from engine import show
import engine as E
from callgraph import Graph, PUBLIC
from c04 import where

RULE = """
With automatic exit off no path of any library function reaches a process-terminating call; with it on,
every path of a parse step or of a public error-reporting function that reports an error ends in
exit(error code) right after the message, a step that takes a HELP or EXIT option ends in
exit(normal code), and no other path exits.
"""
EXPLAIN = """
The automatic-exit setting is pinned to each value and propagated through the control-flow graphs of the
parse step, of every function that contains a call of the exit family (and, where the guard is not in that
function, of its callers up to the public interface), and of all public functions called 'error'.
"""
EXITS = ('exit', '_exit', '_Exit', 'quick_exit', 'abort', 'terminate')


def exit_codes(ctx):
    r = ctx.roles
    fn = r.p.one('argos::ArgumentParser::set_exit_codes')
    res = {}
    names = [x['n'] for x in fn['params']]
    for o in ctx.run(fn, E.Rule()):
        for pl, v in o.st.store.items():
            for i, n in enumerate(names):
                if pl[0][0] == 'O' and v == ('init', (('arg', n),)):
                    res[i] = pl[1:]
    if set(res) != {0, 1}:
        # fall back on the field names
        base = r.setting('auto_exit')[:-1]
        res = {0: base + ('error_exit_code',), 1: base + ('normal_exit_code',)}
    return res[0], res[1]


def is_code(v, path):
    return v[0] == 'init' and v[1][-len(path):] == path


class Reach(E.Rule):
    """inline only what can reach an exit call"""

    def __init__(self, roles, ids, auto):
        self.r, self.ids, self.auto = roles, ids, auto
        self.path = roles.setting('auto_exit')

    def inline(self, eng, fn):
        return fn['id'] in self.ids

    def on_init(self, eng, st, place):
        if place[-len(self.path):] == self.path:
            return E.TRUE if self.auto else E.FALSE
        return None

    def on_call(self, eng, st, fr, nid, node, c):
        pt = c.ref.get('pt') or []
        if len(pt) >= 3 and pt[0] == 'const %s &' % self.r.PD and pt[1] == 'const %s &' % self.r.CD:
            st.ts = 'msg'
        return None


def check(ctx):
    r = ctx.roles
    errp, normp = exit_codes(ctx)
    # 1. the parse step
    for auto in (False, True):
        rule = Outcome(r, hooks=dict(auto_exit=auto))
        fn = rule.entry()
        for o in ctx.run(fn, rule, setup=rule.setup):
            loc, path = where(o, fn), o.st.path()
            if not auto:
                ctx.check(o.kind != 'exit', 'automatic exit off', 'parse step',
                          'the process is terminated although automatic exit is off', loc, path)
            elif o.kind == 'exit':
                code = o.val[1][1] if len(o.val[1]) > 1 else E.TOP
                if rule.get(o.st, 'err'):
                    ctx.check(o.val[1][0][1] in ('exit', 'std::exit') and is_code(code, errp), 'error exit code',
                              'parse step', 'an error terminates the process with %s instead of the error exit code'
                              % show(code), loc, path)
                else:
                    ctx.check(is_code(code, normp), 'normal exit code', 'parse step',
                              'the process is terminated without an error, with %s' % show(code), loc, path)
            elif o.kind == 'ret':
                ctx.check(outcome_code(o) != 'ERROR' and not rule.get(o.st, 'err'), 'error exits', 'parse step',
                          'an error is reported without terminating the process', loc, path)
    # 2. option types
    for t in [n for n, _ in r.p.enum('argos::OptionType')]:
        rule = Outcome(r, hooks=dict(auto_exit=True, option=True, token=True, has=True, complete=True, value=True),
                       pins={(('G', 'OPT'), r.od['type']): r.otype(t), (r.cd['require'], 'opt'): E.FALSE,
                             (r.ai['state'],): r.S['ARGUMENTS_AND_OPTIONS']})
        n = 0
        for o in ctx.run(fn, rule, setup=rule.setup):
            if o.kind == 'throw' or rule.get(o.st, 'err') or not any(k == 'opt' for k, _ in o.st.ts or ()):
                continue
            n += 1
            loc, path = where(o, fn), o.st.path()
            if t in ('HELP', 'EXIT'):
                ok = o.kind == 'exit' and is_code(o.val[1][1], normp)
                ctx.check(ok, 'HELP and EXIT options exit', t,
                          'a step that takes an option of type %s does not end in exit(normal code)' % t, loc, path)
                ctx.check(rule.get(o.st, 'help', 0) == (1 if t == 'HELP' else 0), 'help before exit', t,
                          'help text written %s time(s) before the exit of a %s option' % (rule.get(o.st, 'help', 0), t),
                          loc, path)
            else:
                ctx.check(o.kind == 'ret', 'other options do not exit', t,
                          'an option of type %s terminates the process' % t, loc, path)
        ctx.floor('outcomes of %s options' % t, n, 1)
    # 3. everything that calls exit
    g = Graph(r.p)
    direct = {i for i, f in r.p.fns.items()
              if any(x['k'] == 'call' and (x.get('fn') or {}).get('n') in EXITS and
                     not (x.get('fn') or {}).get('repo') and not (x.get('fn') or {}).get('cls')
                     for x in f['nodes'].values())}
    ctx.floor('functions that call exit', len(direct), 1)
    ids = g.reach_to(direct)
    work, seen = sorted(direct), set(direct)
    while work:
        i = work.pop()
        f = r.p.fns[i]
        outs = ctx.run(f, Reach(r, ids, False))
        bad = [o for o in outs if o.kind == 'exit']
        callers = g.inn.get(i, set())
        if bad and (not callers or (f.get('cls') in PUBLIC and f.get('access') == 'public')):
            ctx.fail('automatic exit off', f['q'], '%s can terminate the process although automatic exit is off'
                     % f['q'], bad[0].loc, bad[0].st.path())
        elif bad:
            for c in callers - seen:
                seen.add(c)
                work.append(c)
        else:
            ctx.ob('automatic exit off')
            ctx.sample('%s: no exit while automatic exit is off (%d paths)' % (f['q'], len(outs)))
    # 4. public error functions
    n = 0
    for f in sorted(r.p.fns.values(), key=lambda f: f['id']):
        if f['n'] != 'error' or f.get('cls') not in PUBLIC and not (f.get('cls') or '').startswith('argos::CallbackArguments'):
            continue
        if f['id'] not in ids:
            ctx.fail('error functions', f['q'], '%s does not exit when automatic exit is on' % f['q'],
                     '%s:%s' % (f['file'], f['line']))
            continue
        n += 1
        for auto in (True, False):
            for o in ctx.run(f, Reach(r, ids, auto)):
                loc = where(o, f)
                if o.kind == 'throw' and o.st.ts != 'msg' and not auto:
                    # a null implementation may throw before the message
                    continue
                if o.kind == 'throw' and o.st.ts != 'msg':
                    continue
                ctx.check(o.kind == ('exit' if auto else 'throw'), 'error functions', f['q'],
                          '%s %s when automatic exit is %s' % (f['q'], {'ret': 'returns', 'exit': 'exits',
                                                                        'throw': 'throws'}.get(o.kind, o.kind),
                                                               'on' if auto else 'off'), loc, o.st.path())
                if o.kind == 'exit':
                    ctx.check(is_code(o.val[1][1], errp), 'error exit code', f['q'],
                              'exits with %s instead of the error exit code' % show(o.val[1][1]), loc, o.st.path())
                    ctx.check(o.st.ts == 'msg', 'message before exit', f['q'],
                              'exits without an error message', loc, o.st.path())
    ctx.floor('public error functions', n, 2)
