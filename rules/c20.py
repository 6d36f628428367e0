"""C20: const functions of the parser do not change it."""
from entry import *
from effects import *
from engine import show
import engine as E
from c04 import where

RULE = """
No public const function of ArgumentParser writes to the parser, to the data it owns, or grows or cuts any of its lists, on any
path, with everything it calls inlined up to the preparation, the iterator and the help generator.  What those three are given is a
new object, never the parser's own data, and when it is prepared each field of it, at every level, has been copied (definitions by
their copying functions, see C01) from the parser's data and nothing else.  No function of the library keeps mutable
state in global or static variables.
"""
EXPLAIN = """
Every public const member function is interpreted; all writes on all paths are collected.  The preparation, the parse and the
help generator change only what they are given a reference to.
"""
ASSUME = ["callbacks and streams that the user supplies are shared by design",
          "copies of definitions are complete and independent (C01)"]


def check(ctx):
    r = ctx.roles
    n = 0
    kinds = {}
    for fn in public(r, const=True):
        rule = Entry(r)
        for o in ctx.run(fn, rule):
            n += 1
            loc, path = where(o, fn), o.st.path()
            key = '%s(%s)' % (fn['n'], ', '.join(q['t'] for q in fn['params']))
            for e in o.st.ts or ():
                if e[0] in ('w', 'add', 'del'):
                    ctx.check(not under(e[1], rule.T) and not under(e[1], rule.D), 'parser is unchanged', key,
                              'a const function changes the parser: %s' % show_ev(e), loc, path)
                elif e[0] in ('prepare', 'help', 'start'):
                    kinds[e[0]] = kinds.get(e[0], 0) + 1
                    own = [x for x in e[1:] if isinstance(x, tuple) and (
                        x[:1] == ('p',) and under(x[1], rule.D) or x == ('init', rule.ptr) or x == ('p', rule.ptr))]
                    ctx.check(not own, 'own data is not handed over', key + ', ' + e[0], "the parser's own data is %s" %
                              {'prepare': 'prepared', 'start': 'given to the parse', 'help': 'used for help'}[e[0]], loc, path)
                    if e[0] == 'prepare':
                        ctx.check(not e[2], 'copy is complete', key + ', ' + ' '.join(e[2]),
                                  'the copy that is prepared differs in %s' % ', '.join(e[2]), loc, path)
                else:
                    ctx.ob('parser is unchanged')
    ctx.floor('const functions', len(public(r, const=True)), 20)
    ctx.floor('preparations in const functions', kinds.get('prepare', 0), 4)
    m = state(ctx, r)
    ctx.sample('%d outcomes of %d const functions; %d uses of global and static variables' % (n, len(public(r, const=True)), m))


STREAMS = ('std::cout', 'std::cerr', 'std::clog', 'std::cin')


def state(ctx, r):
    m = 0
    for f in r.p.fns.values():
        for n in f['nodes'].values():
            if n['k'] == 'var' and n.get('st') in ('global', 'static'):
                m += 1
                ctx.seen(f)
                t = n.get('dt', '')
                ok = 'const' in t.split('<')[0].split() or t.startswith('const ') or ' const[' in t or 'cvv' in n or 'sv' in n or \
                    n.get('q') in STREAMS or n.get('q', '').startswith('std::')
                ctx.check(ok, 'no global state', '%s in %s' % (n.get('n') or n.get('q'), f['q']),
                          'the library keeps state in the variable %s of type %s' % (n.get('n') or n.get('q'), t),
                          '%s:%s' % (f['file'], n.get('l', f['line'])))
    return m
