"""C29: indentation is balanced."""
import engine as E
from engine import show, TRUE, FALSE
from facts import AnalysisBroken
from effects import Effects
from callgraph import Graph
from c04 import where

RULE = """
(a) Every function of the library that pushes or pops indentation on a text formatter pops on every path exactly what it pushed,
never more (functions that only do half of it are judged together with their callers).
(b) The formatter's own functions: pushing adds one level and makes it the indentation of the line writer, popping removes one
and reinstates the one below; with the paragraph alignment off, which is how it starts, every other public function returns with
as many levels as before and the alignment off, whatever tokens the text consists of; the indentation of an alignment is pushed
exactly once and popped once.
(c) Ending a line leaves no pending spaces and nothing of the line: what is written next starts at the indentation.
"""
EXPLAIN = """
Typestate analysis: each function is interpreted with the number of levels pushed so far, the alignment state and
whether the current line is empty as abstract state; other facts are dropped at every call so that loops reach a fixed point.
"""
ASSUME = ["words that are given to the line writer are not empty, so a line that a word has been written to is not empty",
          "indentation is less than the line width (the line writer ignores a greater one)"]

F, W = 'argos::TextFormatter', 'argos::TextWriter'
OPAQUE = ('next_token', 'next_line', 'is_list_marker', 'get_console_width')


class Levels(Effects):
    """ts: (levels, is the line empty?, events)"""

    def __init__(self, indents, state=None, start=None):
        Effects.__init__(self)
        self.indents, self.state, self.start = indents, state, start

    def inline(self, eng, fn):
        return fn.get('cls') == F or fn.get('lambda')

    def on_init(self, eng, st, place):
        if self.state and place == (('this', F), self.state):
            return self.start

    def on_forall(self, *a):
        pass

    def on_write(self, eng, st, fr, place, val, node):
        d, e, ev = st.ts or (0, None, ())
        if place[-1] == self.indents and val[0] in ('add', 'del'):
            x = val[2] if val[0] == 'add' and len(val) > 2 else None
            st.ts = (d + (1 if val[0] == 'add' else -1), e, (ev + ((val[0], x),))[-4:])

    def on_call(self, eng, st, fr, nid, node, c):
        d, e, ev = st.ts or (0, None, ())
        st.facts.clear()
        if abs(d) > 3:
            return ('stop', 'unbalanced')
        if c.cls == W:
            if c.n == 'write':
                s2 = st.copy()
                s2.ts = (d, False, ev)
                out = [(s2, TRUE)]
                if not (c.nargs() > 1 and c.rv(1) == TRUE):
                    out.append((st, FALSE))
                return ('states', out)
            if c.n in ('newline', 'flush'):
                st.ts = (d, True, ev)
            elif c.n == 'is_current_line_empty':
                if e is not None:
                    return ('val', TRUE if e else FALSE)
                s2 = st.copy()
                s2.ts, st.ts = (d, True, ev), (d, False, ev)
                return ('states', [(s2, TRUE), (st, FALSE)])
            elif c.n == 'set_indentation':
                st.ts = (d, e, (ev + (('set', c.rv(0)),))[-4:])
            return ('val', E.TOP)
        if c.cls and c.cls.startswith('argos::') and c.cls != F or c.n in OPAQUE:
            return ('val', E.TOP)
        return None


class All(Effects):
    """everything is interpreted"""
    def __init__(self):
        Effects.__init__(self, places=lambda p: True)


def fields(p):
    c = p.cls(F)
    ind = [f['n'] for f in c['fields'] if f['t'].startswith('std::vector<unsigned')]
    sta = [f['n'] for f in c['fields'] if f['t'].startswith(F + '::')]
    wri = [f['n'] for f in c['fields'] if f['t'] == W]
    if len(ind) != 1 or len(sta) != 1 or len(wri) != 1:
        raise AnalysisBroken('cannot identify the indentation levels, the alignment and the line writer of the formatter')
    return ind[0], sta[0], wri[0], [f['t'] for f in c['fields'] if f['n'] == sta[0]][0]


def check(ctx):
    p = ctx.p
    ind, sta, wri, enum = fields(p)
    start = alignment_off(ctx, p, sta, enum)
    # ---- the formatter ----
    n = 0
    for fn in sorted((f for f in p.fns.values() if f.get('cls') == F), key=lambda f: f['line']):
        if fn.get('access') != 'public' or fn.get('ctor') or fn.get('implicit') or fn.get('lambda') or '~' in fn['n']:
            continue
        n += 1
        key = '%s(%s)' % (fn['n'], ', '.join(a['t'] for a in fn['params']))
        want = {'push_indentation': 1, 'pop_indentation': -1}.get(fn['n'], 0)
        for o in ctx.run(fn, Levels(ind, sta, start)):
            loc, path = where(o, fn), o.st.path()
            d, _, ev = o.st.ts or (0, None, ())
            if o.kind == 'throw':
                continue
            ctx.check(o.kind == 'ret' and d == want, 'levels', key, 'it leaves %+d levels of indentation' % d, loc, path)
            s = o.st.store.get((('this', F), sta), start)
            ctx.check(s == start, 'alignment is off', key, 'it ends with the alignment %s' % show(s), loc, path)
            if want:
                last = [e for e in ev if e[0] == 'set']
                acts = [e[0] for e in ev]
                if want == 1:
                    ok = acts == ['add', 'set'] and ev[0][1] == ev[1][1] or acts == ['set', 'add'] and ev[0][1] == ev[1][1]
                    ctx.check(ok, 'level is applied', key, 'the level that is pushed is not made the indentation of the line', loc, path)
                else:
                    ok = acts == ['del', 'set'] and last and is_back(last[0][1], ind)
                    ctx.check(ok, 'level is applied', key, 'the level below is not reinstated (%s)' %
                              ', '.join(e[0] + (' ' + show(e[1]) if e[1] else '') for e in ev), loc, path)
    ctx.floor('functions of the formatter', n, 8)
    # ---- its users ----
    flow = Flow(p)
    ctx.floor('functions that set the indentation', len(flow.users), 2)
    todo, bad = list(flow.direct), set()
    while todo:            # a function that leaves something is judged together with its callers
        i = todo.pop()
        ends = [e for e in flow.ends(i) if e[0] or e[1] < 0]
        up = [c for c in flow.callers(i) if c in flow.users]
        if ends and not (up and all(abs(e[0]) <= 3 for e in ends)):
            bad.add(i)
        elif ends:
            todo += [c for c in up if c not in flow.seen]
            flow.seen.update(up)
    for i in sorted(flow.direct, key=lambda i: p.fns[i]['line']):
        f = p.fns[i]
        ends = [e for e in flow.ends(i) if e[0] or e[1] < 0]
        for d, low, path in ends if bad else ():
            ctx.check(False, 'levels', f['q'], 'levels of indentation: %+d on return, at least %+d on the way' % (d, low),
                      '%s:%s' % (f['file'], path[-1] if path else f['line']), ['line %s' % x for x in path])
        ctx.check(True, 'levels', f['q'], '')
    m = len(flow.users)
    # ---- end of a line ----
    fn = p.one(F + '::newline')
    eng = []
    WR = (('this', F), wri)
    for o in ctx.run(fn, All(), engine=eng):
        loc, path = where(o, fn), o.st.path()
        for meth, zero in (('spaces', True), ('is_current_line_empty', None)):
            get = p.one(W + '::' + meth)
            fr = E.Frame(fn, 0)
            for x in eng[0].call_fn(o.st.copy(), fr, get, WR, [], fn['line']):
                v = x.val
                if zero:
                    ctx.check(v == FALSE, 'end of line', 'spaces', 'spaces are left over for the next line', loc, path)
                else:
                    ctx.check(v == TRUE or eng[0].truth(x.st, v) is True, 'end of line', 'text', 'the line is not emptied: %s' % show(v), loc, path)
        get = p.one(W + '::current_width')
        for x in eng[0].call_fn(o.st.copy(), E.Frame(fn, 0), get, WR, [], fn['line']):
            ctx.check(start_of_line(x.val, WR), 'end of line', 'column', 'the next line starts at column %s' % show(x.val), loc, path)
    ctx.sample('%d functions of the formatter, %d that push or pop indentation, starting with the alignment %s' % (n, m, show(start)))


def start_of_line(v, WR):
    """the indentation, possibly as the maximum with 0 and plus 0"""
    if v[0] == 'op' and v[1] == '+':
        return v[2] == FALSE and start_of_line(v[3], WR) or v[3] == FALSE and start_of_line(v[2], WR)
    if v[0] == 'f' and v[1] == 'max':
        return FALSE in v[2:] and any(x != FALSE and start_of_line(x, WR) for x in v[2:])
    return v[0] == 'init' and v[1][:len(WR)] == WR


def is_back(v, ind):
    """the last element of the levels that are left"""
    return v[0] in ('f', 'fld', 'init', 'sym', 'old') and ('back' in repr(v) or "[last]" in repr(v)) or v == E.TOP


class Flow:
    """Which numbers of levels can a function leave, and how many of its callers' levels can it pop? A dataflow analysis over the
    control flow graphs, from the callees up; conditions that are plain local variables keep their value."""

    def __init__(self, p):
        self.p = p
        self.memo = {}
        g = Graph(p)
        direct = {i for i, f in p.fns.items() if f.get('cls') != F and f.get('blocks') and any(
            (x.get('fn') or {}).get('cls') == F and x['fn'].get('n') in ('push_indentation', 'pop_indentation')
            and x['k'] != 'memfn' for x in f['nodes'].values())}
        self.inn = {i: {c for c in g.inn.get(i, ()) if c in p.fns and p.fns[c].get('blocks') and p.fns[c].get('cls') != F} for i in p.fns}
        for i, f in p.fns.items():
            for b in f.get('blocks') or ():
                for e in b['e']:
                    if isinstance(e, dict) and (e.get('fn') or {}).get('id') in p.fns and f.get('cls') != F:
                        self.inn[e['fn']['id']].add(i)
        self.seen = set()
        self.direct, self.users, work = direct, set(direct), list(direct)
        while work:
            i = work.pop()
            if any(d or low < 0 for d, low, _ in self.ends(i)):
                for c in self.inn.get(i, ()):
                    self.memo.pop(c, None)
                    if c not in self.users:
                        self.users.add(c)
                        work.append(c)

    def callers(self, i):
        return self.inn.get(i, set()) - {i}

    def ends(self, i):
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = []
        fn = self.p.fns[i]
        blocks = {b['id']: b for b in fn['blocks']}
        const = self.constants(fn)
        start = (fn['entry'], 0, 0, frozenset())
        prev = {start: None}
        work, res = [start], {}
        while work:
            k = work.pop()
            bid, d, low, known = k
            b = blocks[bid]
            states = {(d, low)}
            dead = False
            for e in b['e']:
                if isinstance(e, dict):
                    n = {'k': 'dtor', 'fn': e.get('fn') or {}}
                else:
                    n = fn['nodes'][e]
                ref = n.get('fn') or {}
                if n['k'] == 'decl':
                    gone = {v['d'] for v in n['vars']}
                    known = frozenset(x for x in known if x[0] not in gone)
                if n['k'] in ('memfn', 'fnref', 'cast') or not ref:
                    if n['k'] == 'throw':
                        dead = True
                    continue
                if ref.get('cls') == F and ref.get('n') in ('push_indentation', 'pop_indentation'):
                    x = 1 if ref['n'] == 'push_indentation' else -1
                    states = {(a + x, min(c, a + x)) for a, c in states}
                elif ref.get('id') in self.users and ref['id'] != i:
                    sub = {(x, y) for x, y, _ in self.ends(ref['id'])}
                    states = {(a + x, min(c, a + y)) for a, c in states for x, y in sub} or states
            if dead:
                continue
            succ = [(x, None) for x in b['s'] if x is not None]
            if b.get('tc') and len(b['s']) == 2:
                v = variable(fn, b['tc'], const)
                if v:
                    succ = [(x, (v[0], v[1] == (j == 0))) for j, x in enumerate(b['s']) if x is not None]
            for x, fact in succ:
                if fact and (fact[0], not fact[1]) in known:
                    continue
                for a, c in states:
                    t = (x, a, c, known | {fact} if fact else known)
                    if t in prev:
                        continue
                    prev[t] = k
                    if abs(a) > 3:
                        res.setdefault((a, c), t)
                        continue
                    work.append(t)
            if bid == fn['exit'] if 'exit' in fn else not b['s']:
                for a, c in states:
                    res.setdefault((a, c), k)
        out = []
        for (a, c), k in sorted(res.items()):
            path = []
            while k:
                path.append(line_of(fn, blocks[k[0]]))
                k = prev[k]
            out.append((a, c, [x for x in reversed(path) if x]))
        self.memo[i] = out
        return out

    def constants(self, fn):
        """local variables whose value never changes after their declaration"""
        w = set()
        for n in fn['nodes'].values():
            if n['k'] == 'asg' or n['k'] == 'un' and n.get('op') in ('++', '--', '&'):
                m = fn['nodes'].get(n.get('a') or n.get('x'))
                if m and m['k'] == 'var':
                    w.add(m.get('d'))
            for x in n.get('args', ()):
                m = fn['nodes'].get(x)
                if m and m['k'] == 'var' and m.get('t') == 'bool':
                    w.add(m.get('d'))
            if n['k'] == 'lambda':
                w |= {c.get('d') for c in n.get('caps', ()) if c.get('kind') == 'ref'}
        return {n['d'] for n in fn['nodes'].values() if n['k'] == 'var' and n.get('t') in ('bool', 'const bool') and n.get('d') is not None} - w


def variable(fn, nid, const):
    n, pos = fn['nodes'].get(nid), True
    while n:
        if n['k'] == 'un' and n.get('op') == '!':
            pos = not pos
        elif n['k'] != 'cast' and n['k'] != 'paren':
            break
        n = fn['nodes'].get(n.get('x'))
    return (n['d'], pos) if n and n['k'] == 'var' and n.get('d') in const else None


def line_of(fn, b):
    for e in reversed(b['e']):
        if not isinstance(e, dict) and fn['nodes'][e].get('l'):
            return fn['nodes'][e]['l']
    return None


def alignment_off(ctx, p, sta, enum):
    """the alignment a formatter starts with"""
    vals = set()
    for fn in p.fns.values():
        if fn.get('cls') == F and fn.get('ctor') and not fn.get('implicit') and len(fn['params']) <= 2 and not fn.get('defaulted'):
            for o in ctx.run(fn, Effects()):
                for pl, v in o.st.store.items():
                    if pl[-1] == sta:
                        vals.add(v)
    if len(vals) != 1:
        raise AnalysisBroken('cannot tell what alignment a formatter starts with: %s' % vals)
    return vals.pop()
