"""Value tables of pure functions on characters: constant propagation for every value of a finite domain."""
from facts import AnalysisBroken

SIZES = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'uint8_t': (8, False), 'int8_t': (8, True),
         'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
         'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
         'size_t': (64, False), 'bool': (1, False)}


def strip(t):
    return t.replace('const ', '').replace(' const', '').rstrip('& ').strip()


def wrap(v, t):
    s = SIZES.get(strip(t))
    if s is None:
        raise AnalysisBroken('a character function uses a value of type %s' % t)
    if s[0] == 1:
        return int(v != 0)
    v &= (1 << s[0]) - 1
    return v - (1 << s[0]) if s[1] and v >> (s[0] - 1) else v


def is_char(t):
    return strip(t) in SIZES and strip(t) != 'bool'


def ascii_fn(n):
    up = lambda c: 65 <= c <= 90
    lo = lambda c: 97 <= c <= 122
    return {'tolower': lambda c: c + 32 if up(c) else c, 'toupper': lambda c: c - 32 if lo(c) else c,
            'isupper': lambda c: int(up(c)), 'islower': lambda c: int(lo(c)), 'isalpha': lambda c: int(up(c) or lo(c))}.get(n)


class Table:
    def __init__(self, p):
        self.p = p
        self.memo = {}

    def call(self, fn, args, caps=None, depth=0):
        args = tuple(args)
        k = (fn['id'], args)
        if k in self.memo:
            return self.memo[k]
        if depth > 20 or not fn.get('blocks'):
            raise AnalysisBroken('cannot evaluate %s' % fn['q'])
        env = {q['d']: wrap(a, q['t']) for q, a in zip(fn['params'], args)}
        bl = {b['id']: b for b in fn['blocks']}
        b, steps = bl[fn['entry']], 0
        out = None
        while True:
            steps += 1
            if steps > 2000:
                raise AnalysisBroken('%s does not end' % fn['q'])
            done = {}
            for e in b['e']:
                n = fn['nodes'].get(e) if not isinstance(e, dict) else None
                if not n:
                    continue
                if n['k'] == 'decl':
                    for v in n['vars']:
                        env[v['d']] = wrap(self.ev(fn, v['x'], env, done, depth), v['t']) if v.get('x') else 0
                elif n['k'] == 'asg' or n['k'] == 'un' and n.get('op') in ('++', '--'):
                    done[e] = self.ev(fn, e, env, {}, depth)
                elif n['k'] == 'ret':
                    out = wrap(self.ev(fn, n['x'], env, done, depth), fn['rt'])
                    self.memo[k] = out
                    return out
            ss = b['s']
            if not ss:
                raise AnalysisBroken('%s gives no value' % fn['q'])
            if b.get('tc') is not None and len(ss) == 2:
                nxt = ss[0] if self.ev(fn, b['tc'], env, done, depth) else ss[1]
            else:
                nxt = ss[0]
            b = bl[nxt]

    def ev(self, fn, i, env, done, depth):
        if i in done:
            return done[i]
        n = fn['nodes'][i]
        if n.get('cv') is not None and n['k'] in ('int', 'char', 'cast', 'bool', 'pass', 'bin', 'un'):
            try:
                return int(n['cv'])
            except ValueError:
                pass
        k = n['k']
        E = lambda j: self.ev(fn, j, env, done, depth)
        if k in ('int', 'char', 'bool'):
            v = n['v']
            return int({'true': 1, 'false': 0}.get(str(v), v))
        if k == 'var':
            if n['d'] in env:
                return env[n['d']]
        if k == 'pass':
            return E(n['x'])
        if k == 'cast':
            return wrap(E(n['x']), n['t'])
        if k == 'un':
            op = n['op']
            if op in ('++', '--'):
                d = self.var(fn, n['x'])
                old = env[d]
                env[d] = wrap(old + (1 if op == '++' else -1), fn['nodes'][n['x']]['t'])
                return old if n.get('post') else env[d]
            v = E(n['x'])
            return wrap({'!': lambda: not v, '-': lambda: -v, '~': lambda: ~v, '+': lambda: v}[op](), n['t'])
        if k == 'bin':
            op = n['op']
            if op == '&&':
                return int(bool(E(n['a'])) and bool(E(n['b'])))
            if op == '||':
                return int(bool(E(n['a'])) or bool(E(n['b'])))
            a, b = E(n['a']), E(n['b'])
            f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                 '<<': lambda: a << b, '>>': lambda: a >> b, '==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b,
                 '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, ',': lambda: b}.get(op)
            if f:
                return wrap(int(f()), n['t'])
        if k in ('cond', 'ternary'):
            return E(n['a']) if E(n['c']) else E(n['b'])
        if k == 'asg':
            d = self.var(fn, n['a'])
            v = E(n['b'])
            op = n['op']
            if op != '=':
                a = env[d]
                v = {'+=': a + v, '-=': a - v, '&=': a & v, '|=': a | v, '^=': a ^ v}[op]
            env[d] = wrap(v, fn['nodes'][n['a']]['t'])
            return env[d]
        if k == 'call' and not n.get('obj') and n.get('fn'):
            args = [E(a) for a in n['args']]
            f = ascii_fn(n['fn']['n'])
            if f and not n['fn'].get('repo') and len(args) >= 1:
                return f(args[0])
            g = self.p.fns.get(n['fn']['id'])
            if g:
                return self.call(g, args, depth=depth + 1)
        raise AnalysisBroken('%s:%s: cannot evaluate %s in the character function %s' % (fn['file'], n.get('l'), k, fn['q']))

    def var(self, fn, i):
        n = fn['nodes'][i]
        while n['k'] in ('pass', 'cast'):
            n = fn['nodes'][n['x']]
        return n['d']


def fold(c):
    return c + 32 if 65 <= c <= 90 else c
