"""C19: the argument cursor keeps its arguments in order and its views current."""
from itertools import product
from tokens import *
from engine import show
import engine as E
from c04 import where
from facts import AnalysisBroken

RULE = """
Starting from the cursor that the parser makes for a style, after any sequence of reading, inserting and copying: what is read next
are the inserted arguments in their order, then the flags that are left of the current one, then the arguments that were waiting, in
order, each once; the list of the remaining arguments says the same. A copy goes on from the same position, and is not changed by what
is done with the original. The view into the list of arguments always points into the cursor's own current list: it is derived again
whenever the list may have moved, and never taken over from another cursor. No position outside the lists, views and texts is accessed.
"""
EXPLAIN = """
path-sensitive interpretation of the cursors over lists of tokens of symbolic characters, containers are tracked element by element
with a generation that changes whenever they may move, views carry the container and generation they were made for; the values handed
out on each path are compared with those of the rule under every completion of what the path leaves open.
"""
ASSUME = ["longer sequences and lists behave like those of two tokens and up to eight operations (after each operation the cursor is in "
          "one of a few kinds of states: before a token, in flags, in a value, after a token, at the end)",
          "the string views that callbacks are given are not covered"]

DASH, EQ = ('c', 45), ('c', 61)


class Need(Exception):
    pass


class Model:
    """what reading the tokens in a style must give; is_(char, literal) answers questions about characters"""

    def __init__(self, style, toks, is_):
        self.style, self.rest, self.is_ = style, [list(t) for t in toks], is_
        self.cur, self.left, self.kind = None, None, 'used'

    def clone(self):
        m = Model(self.style, self.rest, self.is_)
        m.cur, m.left, m.kind = self.cur, self.left, self.kind
        return m

    def next(self):
        if self.kind == 'flags' and self.left:
            c = self.left.pop(0)
            if not self.left:
                self.kind = 'used'
            return [DASH, c]
        self.kind, self.left = 'used', None
        if not self.rest:
            self.cur = None
            return None
        t = self.cur = self.rest.pop(0)
        prefix = ('c', ord('/')) if self.style == 'SLASH' else DASH
        if len(t) <= 2 or not self.is_(t[0], prefix):
            return t
        if self.style == 'STANDARD' and not self.is_(t[1], DASH):
            self.kind, self.left = 'flags', t[2:]
            return t[:2]
        for i, c in enumerate(t):
            if self.is_(c, EQ):
                self.kind, self.left = 'value', t[i + 1:]
                return t[:i + 1]
        return t

    def next_value(self):
        if self.kind != 'used':
            v, self.kind, self.left = self.left, 'used', None
            return v
        if not self.rest:
            self.cur = None
            return None
        self.cur = self.rest.pop(0)
        return self.cur

    def unread(self):
        return ([[DASH] + self.left] if self.kind == 'flags' and self.left else []) + self.rest

    def insert(self, toks):
        self.rest = [list(t) for t in toks] + self.unread()
        if self.kind == 'flags':
            self.kind, self.left = 'used', None


class Cursor:
    """the cursor that the parser makes for a style"""

    def __init__(self, ctx, style):
        self.ctx, self.p, self.style = ctx, ctx.p, style
        cs = cursors(ctx.p)
        fns = [f for f in ctx.p.fns.values() if not f.get('cls') and f.get('blocks') and len(f['params']) == 2
               and any('OptionStyle' in q['t'] for q in f['params']) and any(c in f['rt'] for c in cs)]
        if len(fns) != 1:
            raise AnalysisBroken('cannot identify the function that makes the cursor over the arguments')
        self.make = fns[0]

    def set_class(self, cls):
        fs = {}
        self.cls = cls
        for f in self.p.fns.values():
            if f.get('cls') == cls and f.get('blocks'):
                fs.setdefault(f['n'], []).append(f)
        self.m = {n: fs[n][0] for n in ('next', 'next_value', 'insert', 'current', 'remaining_arguments')}
        ct = fs.get(cls.split('::')[-1], [])
        self.copy = [f for f in ct if len(f['params']) == 1 and cls in f['params'][0]['t'] and f['params'][0]['t'].startswith('const')]
        self.spans = [f['n'] for f in self.p.cls(cls)['fields'] if 'std::span' in f['t']]

    def start(self, toks):
        rule = Tokens()
        eng = []
        st, tv = ('val', ('e', 'argos::OptionStyle', self.style)), ('val', ('ilist', tuple(text(*t) for t in toks)))
        args = [st if 'OptionStyle' in q['t'] else tv for q in self.make['params']]
        outs = self.ctx.run(self.make, rule, args=args, engine=eng)
        res = []
        for o in outs:
            v = o.val
            if o.kind != 'ret' or v[0] != 'sym' or not str(v[1]).startswith('new:') or v[1][4:] not in cursors(self.p):
                raise AnalysisBroken('cannot follow the cursor that is made for style ' + self.style)
            self.set_class(v[1][4:])
            at = [k for k, w in o.st.store.items() if len(k) == 1 and w == v]
            res.append((o, at[0]))
        return rule, eng[0], res

    def call(self, eng, st, name, this, *args):
        fn = self.m[name]
        return eng.call_fn(st.copy(), E.Frame(fn, 0), fn, this, list(args), fn['line'])


def cursors(p):
    out = []
    for n, c in p.classes.items():
        if any('std::span' in f['t'] for f in c['fields']) and {'next', 'next_value', 'insert', 'current', 'remaining_arguments'} <= {
                f['n'] for f in p.fns.values() if f.get('cls') == n and f.get('blocks')}:
            out.append(n)
    if not out:
        raise AnalysisBroken('cannot identify the cursors over arguments')
    return sorted(out)


def oracle(rule, st, choice):
    def is_(c, lit):
        k = rule.known(st, c, lit)
        if k is None:
            got = choice.get(c, {})
            if lit in got:
                return got[lit]
            if True in got.values():
                return False
            raise Need((c, lit))
        return k
    return is_


def expectations(rule, st, f):
    """f(oracle) for every way to settle the characters the path leaves open"""
    work, out = [{}], []
    while work:
        ch = work.pop()
        try:
            out.append(f(oracle(rule, st, ch)))
        except Need as e:
            c, lit = e.args[0]
            for v in (True, False):
                d = {k: dict(x) for k, x in ch.items()}
                d.setdefault(c, {})[lit] = v
                work.append(d)
    return out


def spell(t):
    if t is None:
        return 'nothing'
    return '"%s"' % ''.join(chr(c[1]) if c[0] == 'c' else '<%s%d>' % (c[2][1], c[3][1]) for c in t)


INS = [[char('i', 0), char('i', 1), char('i', 2)], [char('j', 0)]]


def sequences(ctx, c, toks, ops, which):
    """interprets the operations and compares what they give; which: 'order' or 'split'"""
    style = c.style
    rule, eng, outs = c.start(toks)
    what = '%s: %s of %s' % (style, ' '.join(ops), ','.join(str(len(t)) for t in toks))
    work = [(o.st, at, 0, [], o) for o, at in outs]
    n = 0
    while work:
        st, this, k, seen, o = work.pop()
        loc, path = where(o, c.make), o.st.path()
        bad = [e for e in st.ts or () if e[0] in ('outside', 'outdated')]
        if not ctx.check(not bad and o.kind == 'ret', 'views', what, '%s%s: %s' % (
                what, '' if o.kind == 'ret' else ' throws', ', '.join('%s (%s)' % (e[0] + ' ' + e[1], e[2]) for e in bad)), loc, path):
            continue
        for f in c.spans:
            v = eng.load(st, this + (f,))
            ok = v[0] == 'spn' and v[1][:len(this)] == this and v[4] == rule.gen(st, v[1])
            if not ctx.check(ok, 'views', what, '%s: the view into the list of arguments is %s' % (
                    what, show(v) if v[0] != 'spn' else 'outdated' if v[1][:len(this)] == this else "one into another cursor's list"), loc, path):
                ok = None
                break
        if c.spans and ok is None:
            continue
        if k == len(ops):
            n += 1
            exp = expectations(rule, st, lambda is_: replay(style, toks, ops, is_))
            for e in exp:
                for i, (a, b) in enumerate(zip(seen, e)):
                    if not ctx.check(a == b, which, what, '%s: step %d gives %s instead of %s' % (
                            what, i + 1, say(a), say(b)), loc, path):
                        break
            continue
        op = ops[k]
        if op == 'copy':
            if not c.copy:
                ctx.check(False, 'views', 'copy of ' + c.cls, 'copying %s copies its views into the list of arguments of the other' % c.cls,
                          '%s:%s' % (c.make['file'], c.make['line']))
                continue
            fn = c.copy[0]
            NEW = (('G', 'cursor %d' % k),)
            for o2 in eng.call_fn(st.copy(), E.Frame(fn, 0), fn, NEW, [('ref', ('p', this))], fn['line']):
                s = o2.st
                # the other one goes on without affecting the copy
                if o2.kind == 'ret':
                    L = (('G', 'more'),)
                    s.store[L] = ('ilist', (text('x'), text('y')))
                    for o3 in c.call(eng, s, 'insert', this, ('ref', ('p', L))):
                        work.append((o3.st, NEW, k + 1, seen, o3))
                else:
                    work.append((s, NEW, k + 1, seen, o2))
            continue
        if op == 'insert':
            L = (('G', 'inserted'),)
            st = st.copy()
            for q in [q for q in st.store if q[:1] == L]:
                del st.store[q]
            v = ('ilist', tuple(text(*t) for t in INS))
            st.store[L] = v
            ref = c.m['insert']['params'][0]['t'].rstrip().endswith('&')
            for o2 in c.call(eng, st, 'insert', this, ('ref', ('p', L)) if ref else ('val', v)):
                work.append((o2.st, this, k + 1, seen, o2))
            continue
        name = {'next': 'next', 'value': 'next_value', 'rest': 'remaining_arguments', 'current': 'current'}[op]
        for o2 in c.call(eng, st, name, this):
            if op == 'current' and o2.kind == 'throw':
                work.append((o2.st, this, k + 1, seen + ['throws'], _Ret(o2)))
                continue
            v = o2.val
            if o2.kind != 'ret':
                work.append((o2.st, this, k + 1, seen, o2))
                continue
            if op == 'rest':
                s = rule.span(eng, o2.st, v)
                got = [rule.txt(eng, o2.st, ('p', s[1] + ('[%d]' % i,))) for i in range(s[2], s[3])] if s else [None]
            elif op == 'current':
                got = rule.txt(eng, o2.st, v)
            else:
                got = None if v == NONE else rule.txt(eng, o2.st, v[1] if v[0] == 'some' else v)
                if got is None and v != NONE:
                    got = ['unknown', v]
            work.append((o2.st, this, k + 1, seen + [got], o2))
    return n


class _Ret:
    def __init__(self, o):
        self.kind, self.val, self.st = 'ret', TOP, o.st
        self.loc = getattr(o, 'loc', None)


def say(x):
    if x == 'throws':
        return 'an exception'
    if isinstance(x, list) and x and (x[0] is None or isinstance(x[0], list)):
        return '[%s]' % ' '.join(map(spell, x))
    if isinstance(x, list) and x and x[0] == 'unknown':
        return show(x[1])
    return '[]' if x == [] else spell(x)


def replay(style, toks, ops, is_):
    m = Model(style, toks, is_)
    out = []
    for op in ops:
        if op == 'next':
            out.append(m.next())
        elif op == 'value':
            out.append(m.next_value())
        elif op == 'rest':
            out.append(m.unread())
            m.insert([])
        elif op == 'insert':
            m.insert(INS)
        elif op == 'current':
            out.append(m.cur if m.cur is not None else m.rest[0] if m.rest else 'throws')
    return [list(x) if isinstance(x, list) else x for x in out]


STYLES = ('STANDARD', 'SLASH', 'DASH')


def pair(la, lb):
    return [[char('a', i) for i in range(la)], [char('b', i) for i in range(lb)]]


def check(ctx):
    n = 0
    for style in STYLES:
        c = Cursor(ctx, style)
        for la, lb in ((0, 1), (2, 3), (3, 0), (4, 2), (5, 4), (3, 4)):
            for mid in product(('next', 'value', 'insert', 'copy'), repeat=3):
                if mid.count('copy') > 1 or mid.count('insert') > 1 + ((la, lb) == (4, 2)) or not {'copy', 'insert'} & set(mid):
                    continue
                n += sequences(ctx, c, pair(la, lb), mid + ('value', 'rest', 'next', 'value', 'next'), 'order')
    ctx.floor('paths through sequences of operations', n, 100)
