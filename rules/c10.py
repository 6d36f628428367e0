"""C10: conversion of text to numbers."""
from numeric import *
from effects import *
from engine import show
import engine as E
from c04 import where
from facts import AnalysisBroken

RULE = """
For every class of texts - empty, no number, a number with something before or after it (also after a zero byte), and a number below,
at, and above every boundary of every numeric type, with and without sign and space - and whatever errno was: the conversion to T
returns the number iff the whole text was consumed by the conversion and the number is in the range of T, and nothing otherwise.
The base given is the base used.
"""
EXPLAIN = """
The conversion functions are interpreted with the C conversion function as a call that sets its end pointer, errno (which keeps its
former value on success) and result; each path's guards are evaluated on the classes of texts, so that the path taken for
each class, and what it returns, is known.
"""
ASSUME = ["the C library's strtol family works as the C standard says; numbers of an unusual base are not distinguished from decimal ones"]

BOUNDS = sorted({b + d for lo, hi in RANGE.values() for b in (lo, hi) for d in (-1, 0, 1)} | {0, 1, 7, -7, 10**30, -10**30})
INTS = [str(b) for b in BOUNDS] + ['+5', ' 5', ' -5', '  12', '\t-3']
BAD = ['', ' ', 'x', '12x', '12 ', '-', '--1', '12\0', '12\0x', '\0', '1.5x', '-7-', '7-', '1-2', 'x12', '\0' + '1']
FLOATS = ['0', '1.5', '-1.5', '1e10', '3.0e38', '-3.0e38', '3.5e38', '1e39', '-1e39', '1e300', '1e308', '1e309', '-1e309', '1e999', ' 2.5', '+2.5']


class Conv(Effects):
    casts = True

    def on_init(self, eng, st, place):
        if place == ERRNO:
            return ('f', 'stale')
        return None

    def on_call(self, eng, st, fr, nid, node, c):
        if c.n in FUNCS and c.q in (c.n, 'std::' + c.n):
            pl = c.rv(1)
            who = ('s', c.n)
            args = (c.rv(0),) + tuple(c.rv(i) for i in range(2, c.nargs()))
            self.note(eng, st, ('conv', c.n, args))
            if pl[0] == 'p':
                eng.write(st, fr, pl[1], ('f', 'endp', who), node)
            eng.write(st, fr, ERRNO, ('f', 'errno', who, eng.load(st, ERRNO)), node)
            return ('val', ('f', 'number', who))
        if c.n in ('__errno_location', '__error', '_errno'):
            return ('val', ('p', ERRNO))
        return None


ERRNO = (('G', 'errno'),)


def check(ctx):
    p = ctx.roles.p
    fns = [f for f in p.fns.values() if not f.get('cls') and f['rt'].startswith('std::optional<') and f['params'] and
           'string' in f['params'][0]['t'] and number(f['rt'])]
    called = {x for f in fns for x in callees(p, f)}
    fns = [f for f in fns if f['id'] not in called]
    ctx.floor('conversions', len({number(f['rt']) for f in fns}), 8)
    n = 0
    for fn in fns:
        n += conversion(ctx, fn, number(fn['rt']))
    ctx.sample('%d conversions, %d outcomes for %d classes of texts' % (len(fns), n, len(INTS) + len(BAD) + len(FLOATS)))


def number(t):
    t = t[len('std::optional<'):-1]
    return t if t in RANGE and t != 'bool' or t in ('float', 'double') else None


def callees(p, f):
    return [n['fn']['id'] for n in f['nodes'].values() if isinstance(n, dict) and isinstance(n.get('fn'), dict) and n['fn'].get('id') in p.fns]


def conversion(ctx, fn, T):
    name = 'conversion to ' + T
    params = [('init', (('arg', q['n']),)) for q in fn['params']]
    outs = list(ctx.run(fn, Conv()))
    k = 0
    for o in outs:
        ev = [e for e in o.st.ts or () if e[0] == 'conv']
        for e in ev:
            bad = [a for a, w in zip(e[2][1:], params[1:]) if a != w]
            ctx.check(not bad and len(e[2]) == len(params) or FUNCS[e[1]] not in RANGE, 'base', name,
                      'the number is not read with the base given', where(o, fn), o.st.path())
    funcs = {e[1] for o in outs for e in o.st.ts or () if e[0] == 'conv'}
    for text in (INTS if T in RANGE else FLOATS) + BAD:
        want = convert(next(f for f, t in FUNCS.items() if t == (T if T not in RANGE else 'long' if RANGE[T][0] else 'unsigned long')), text)
        if T in RANGE:
            import re
            m = re.fullmatch(r'\s*([+-]?\d+)', text.replace('\0', 'x'))
            v = int(m.group(1)) if m else None
            want = None if v is None or not RANGE[T][0] <= v <= RANGE[T][1] else v
        else:
            want = None if not text or want[1] != len(text) or want[2] else want[0]
        seen = set()
        for stale in (0, ERANGE):
            env = {('f', 'stale'): stale}
            for f in funcs:
                v, e, err = convert(f, text)
                env[('f', 'number', ('s', f))] = v
                env[('f', 'endp', ('s', f))] = BASE + e
            for q in params[1:]:
                env[q] = 10
            t = Text(params[0], text, env)
            for f in funcs:
                err = convert(f, text)[2]
                for prev in (('f', 'stale'), ('c', 0)):
                    env[('f', 'errno', ('s', f), prev)] = err or t.ev(prev)
            for o in outs:
                if not t.allows(o.st.facts):
                    continue
                k += 1
                v = o.val
                if o.kind != 'ret':
                    got, what = 'x', 'throws'
                elif v == E.NONE:
                    got, what = None, 'gives no number'
                elif v and v[0] == 'some':
                    got = t.ev(v[1])
                    if got is not None:
                        got = as_type(T, got)
                    else:
                        got = 'x'
                    what = 'gives %s' % (got if got != 'x' else show(v[1]))
                else:
                    raise AnalysisBroken('the %s returns something unknown: %s' % (name, show(v)))
                seen.add(got)
                ctx.check(got == want, 'whole text in range or nothing', '%s of %r' % (name, text),
                          '%s%s instead of %s' % (what, ' if errno was set before' if stale else '', 'nothing' if want is None else want),
                          where(o, fn), o.st.path())
        ctx.check(bool(seen), 'whole text in range or nothing', '%s of %r' % (name, text), 'no path is taken', where(outs[0], fn), [])
    return k
