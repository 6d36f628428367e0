"""C28: reading stored values."""
from c07 import Store, it, KEY, OTHERKEY, leaves
from harness import *
from effects import *
from engine import show
import engine as E
from c04 import where

RULE = """
On an abstract multimap with an unknown number of entries under the id (none / one / several) and unknown others: testing presence
answers true iff there is an entry; the single-value reader gives nothing iff there is none, the value of the entry iff there
is exactly one, and throws iff there are several; the plural reader gives the value of every entry under the id exactly once, in
the order of the entries, and no other.  The table of names of a result has, for every argument of its command, its name and its
alias if it has one, for every option that stores values each of its flags and its alias if it has one, with that
definition's value id; a name is looked up by an exact match in the table and an unknown one throws.
"""
EXPLAIN = """
The iterators of the multimap are forked over same key / other key / end; the readers' loops are run to a fixed point with a
typestate that remembers which entry has been handed out.
"""
ASSUME = ["std::multimap keeps entries with equal keys in insertion order; the table of names is sorted before it is searched "
          "(std::sort is not modelled)"]


class Reader(Store):
    """ts: (count known so far, current entry handed out?, bad)"""

    def on_init(self, eng, st, place):
        if place == self.key:
            return KEY
        if len(place) >= 2 and place[0][0] == 'O' and place[0][1][:2] == ('f', 'ITER') and place[1] in (0, 'first'):
            return KEY if place[0][1][2][1] in ('first', 'more') else OTHERKEY
        return None

    def lookup(self, st, name):
        cnt, out, bad = st.ts
        res = []
        if cnt in ('?', '1+', '1', '2+'):
            s = st.copy()
            s.ts = ('1+' if cnt == '?' else cnt, out, bad)
            res.append((s, it('first')))
        if cnt in ('?', '0'):
            for nx in [('end', self.VAL)] + ([it('other')] if name != 'find' else []):
                s = st.copy()
                s.ts = ('0', out, bad)
                res.append((s, nx))
        return ('states', res)

    def adv(self, st, pos):
        cnt, out, bad = st.ts
        if pos not in (it('first'), it('more')):
            st.ts = (cnt, out, 'an iterator is moved past the values')
            return ('val', E.TOP)
        res = []
        for nx in (it('more'), it('other'), ('end', self.VAL)):
            c = cnt
            if pos == it('first'):
                if nx == it('more'):
                    if cnt == '1':
                        continue
                    c = '2+'
                else:
                    if cnt == '2+':
                        continue
                    c = '1'
            s = st.copy()
            b = bad
            o = 'open' if out in ('open', 'given') else out
            if out == 'open' and pos == it('first'):
                o = 'skip'
            s.ts = (c, self.step(out, pos, nx), b)
            res.append((s, nx))
        return ('states', res)

    def step(self, out, pos, nx):
        """out: (position last handed out) -- 'n' nothing, 'cur' current one, 'bad'"""
        if out == 'bad' or self.mode != 'plural':
            return out
        if out != 'cur':
            return 'bad'
        return 'n' if nx == it('more') else 'done'

    def on_call(self, eng, st, fr, nid, node, c):
        if node.get('obj') and c.n == 'contains' and c.objplace() == self.VAL and c.rv(0) == KEY:
            r = self.lookup(st, 'find')
            return ('states', [(s, E.TRUE if x == it('first') else E.FALSE) for s, x in r[1]])
        if node.get('obj') and c.n == 'count' and c.objplace() == self.VAL and c.rv(0) == KEY:
            res = []
            for s, x in self.lookup(st, 'find')[1]:
                if x != it('first'):
                    res.append((s, ('c', 0)))
                    continue
                for k in ('1', '2+'):
                    if s.ts[0] in ('1+', k):
                        t = s.copy()
                        t.ts = (k,) + s.ts[1:]
                        res.append((t, ('c', 1 if k == '1' else 2)))
            return ('states', res)
        if c.n == 'distance' and not node.get('obj'):
            a = c.rvs()
            if a == [it('first'), it('upper')]:
                res = []
                for k in ('1', '2+'):
                    if st.ts[0] in ('1+', k):
                        t = st.copy()
                        t.ts = (k,) + st.ts[1:]
                        res.append((t, ('c', 1 if k == '1' else 2)))
                return ('states', res)
            if len(a) == 2 and a[1] == it('upper'):
                return ('val', ('c', 0))
        if c.n in ('operator==', 'operator!='):
            vs = ([c.objval()] if node.get('obj') else []) + c.rvs()
            if len(vs) == 2 and it('upper') in vs and all(v[:2] == ('f', 'ITER') or v == ('end', self.VAL) for v in vs):
                o = vs[0] if vs[1] == it('upper') else vs[1]
                same = o not in (it('first'), it('more'))
                return ('val', E.TRUE if same == (c.n == 'operator==') else E.FALSE)
            if len(vs) == 2 and all(v[:2] == ('f', 'ITER') or v == ('end', self.VAL) for v in vs):
                same = vs[0] == vs[1]
                return ('val', E.TRUE if same == (c.n == 'operator==') else E.FALSE)
        if c.n == 'next' and c.q.startswith('std::') and not node.get('obj') and c.rv(0)[:2] == ('f', 'ITER'):
            return self.adv(st, c.rv(0))
        if not node.get('obj'):
            return None
        if 'iterator' in E.tmpl(c.cls or '') and c.n == 'operator++':
            v = c.objval()
            if v[:2] == ('f', 'ITER'):
                pl, post = c.objplace(), c.nargs() == 1
                out = self.adv(st, v)
                out = [(st, out[1])] if out[0] == 'val' else out[1]
                for s, nx in out:
                    eng.write(s, fr, pl, nx, node, quiet=True)
                return ('states', [(s, v if post else ('p', pl) if node.get('lv') else nx) for s, nx in out])
        if c.objplace() != self.VAL:
            return None
        if c.n in ('find', 'lower_bound') and c.rv(0) == KEY:
            return self.lookup(st, c.n)
        if c.n == 'upper_bound' and c.rv(0) == KEY:
            return ('val', it('upper'))
        if c.n == 'equal_range' and c.rv(0) == KEY:
            return ('states', [(s, ('tup', (x if x == it('first') else it('upper'), it('upper'))))
                               for s, x in self.lookup(st, 'find')[1]])
        if c.n in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty'):
            return None
        st.ts = st.ts[:2] + ('the stored values are accessed by %s' % c.n,)
        return None

    def on_write(self, eng, st, fr, place, val, node):
        if self.mode == 'plural' and val[0] in ('add',) and val[1] in ('emplace_back', 'push_back') and place[0][0] != 'this':
            cnt, out, bad = st.ts
            vs = leaves(list(val[2:]))
            pos = None
            for v in vs:
                for t in walk(v):
                    if t[:2] == ('f', 'ITER'):
                        pos = t
            if pos is not None:
                ok = out in ('n',) and good_value(vs, pos) and pos in (it('first'), it('more'))
                st.ts = (cnt, 'cur' if ok else 'bad', bad)
            elif cnt != '?':
                st.ts = (cnt, 'bad', bad)
        elif place[0][0] == 'this' and place[:2] == self.VAL:
            st.ts = st.ts[:2] + ('the stored values are changed',)


def walk(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            if isinstance(x, tuple):
                yield from walk(x)


def good_value(vs, pos):
    e = (('O', pos), 1)
    return vs in ([('init', e)], [('p', e)], [('init', e + (0,)), ('init', e + (1,))]) or \
        len(vs) == 1 and vs[0][0] == 'tup' and list(vs[0][1]) == [('init', e + (0,)), ('init', e + (1,))]


class Lookup(E.Rule):
    """a sorted look-up gives an entry (whose name may differ) or the end; ts: set of comparisons made"""

    def __init__(self, r, fn):
        self.r = r
        self.ids = (('this', r.PA), r.pa['ids'])
        self.name = ('init', (('arg', fn['params'][0]['n']),))

    def on_call(self, eng, st, fr, nid, node, c):
        if c.n == 'lower_bound' and not node.get('obj') and c.rv(0) == ('it', self.ids):
            if c.rv(1) == ('end', self.ids) and self.name in [eng.load(st, v[1]) if v[0] == 'p' else v for v in c.rvs()[2:]]:
                s = st.copy()
                s.ts = ('end',)
                return ('states', [(st, it('found')), (s, ('end', self.ids))])
        if c.n in ('operator==', 'operator!='):
            vs = ([c.objval()] if node.get('obj') else []) + c.rvs()
            if it('found') in vs and ('end', self.ids) in vs:
                return ('val', E.TRUE if c.n == 'operator!=' else E.FALSE)
            if vs == [('end', self.ids)] * 2:
                return ('val', E.FALSE if c.n == 'operator!=' else E.TRUE)
            vs = [eng.load(st, v[1]) if v[0] == 'p' else v for v in vs]
            vs = [('init', (('O', it('found')), 0)) if v[0] == 'init' and v[1][:-2] == self.ids and
                  v[1][-2:] == ('[]', 0) else v for v in vs]
            if set(vs) == {('init', (('O', it('found')), 0)), self.name}:
                out = []
                for eq in (True, False):
                    s = st.copy()
                    s.ts = ('hit' if eq else 'miss',)
                    out.append((s, E.TRUE if eq == (c.n == 'operator==') else E.FALSE))
                return ('states', out)
        return None

    def on_forall(self, eng, st, fr, P, evs, node):
        if P == self.ids:
            st.ts = ('end',)


class Names(Effects):
    def note(self, eng, st, ev):
        Effects.note(self, eng, st, ev)
        st.ts = tuple(sorted(st.ts, key=repr))

    def keep_fact(self, eng, t):
        return t[0] == 'op' and t[1] == '==' and all(x[0] in ('e', 'init', 's', 'c') for x in t[2:])


def check(ctx):
    r = ctx.roles
    counts = {'0': 0, '1': 0, '2+': 0}
    for name, mode in (('has', 'has'), ('get_value', 'single'), ('get_values', 'plural')):
        fn = r.p.one(r.PA + '::' + name)
        rule = Reader(r, fn)
        rule.mode = mode
        for o in ctx.run(fn, rule, ts=('?', 'n', '')):
            cnt, out, bad = o.st.ts
            loc, path = where(o, fn), o.st.path()
            ctx.check(not bad, 'stored values untouched', name, bad, loc, path)
            first = (('O', it('first')), 1)
            if mode == 'has':
                ctx.check(o.kind == 'ret' and (o.val == E.TRUE and cnt in ('1+', '1', '2+') or
                                               o.val == E.FALSE and cnt == '0'), 'presence', name,
                          'presence is reported as %s when there %s' % (show(o.val), NUM[cnt]), loc, path)
            elif mode == 'single':
                if cnt in counts:
                    counts[cnt] += 1
                good = {'0': o.kind == 'ret' and o.val == E.NONE,
                        '1': o.kind == 'ret' and o.val[0] == 'some' and good_value(leaves([o.val[1]]), it('first')),
                        '2+': o.kind == 'throw'}
                ctx.check(good.get(cnt, False), 'single value', '%s values' % cnt,
                          'reading a single value %s when there %s' % (
                              'throws' if o.kind == 'throw' else 'gives ' + show(o.val), NUM[cnt]), loc, path)
            else:
                ctx.check(o.kind == 'ret' and (out == 'done' and cnt in ('1', '2+') or
                                               out == 'n' and cnt == '0' and o.val in (('empty',), ('ilist', ()))),
                          'all values', name, 'reading all values does not give each value once, in order, when there %s'
                          % NUM[cnt], loc, path)
    ctx.floor('outcomes of the single-value reader', min(counts.values()), 1)
    # the table of names
    fns = [f for f in r.p.fns.values() if f.get('cls') == r.PA and f.get('ctor') and len(f['params']) == 2]
    ctx.floor('constructors of a result', len(fns), 1)
    n = 0
    A, NA = ('s', 'A'), ('s', '')
    for fn in fns:
        cn = [p['n'] for p in fn['params'] if r.CD in p['t']]
        C = (('O', ('init', (('arg', cn[0]),))),)
        av, ov = C + (r.cd['arguments'],), C + (r.cd['options'],)
        ids = (('this', r.PA), r.pa['ids'])
        for alias in (A, NA):
            for op in ('ASSIGN', 'APPEND', 'CLEAR', 'NONE'):
                rule = Names(pins={(r.od['alias'],): alias, (r.ad['alias'],): alias,
                                     (r.od['operation'],): r.oper(op)},
                             places=lambda p: p == ids)
                a, o_ = elem(av), elem(ov)
                ida = (('init', a + (r.ad['value_id'],)), ('init', a + (r.ad['argument_id'],)))
                ido = (('init', o_ + (r.od['value_id'],)), ('init', o_ + (r.od['argument_id'],)))
                fl = o_ + (r.od['flags'],)
                wa = {(('init', a + (r.ad['name'],)),) + ida}
                wo, wf = set(), set()
                if alias == A:
                    wa.add((A,) + ida)
                if op != 'NONE':
                    wf = {(('init', fl + ('[]',)),) + ido}
                    if alias == A:
                        wo.add((A,) + ido)
                key = '%s, %s' % (op, 'alias' if alias == A else 'no alias')
                for o in ctx.run(fn, rule):
                    if o.kind != 'ret':
                        continue
                    n += 1
                    loc, path, ts = where(o, fn), o.st.path(), o.st.ts or ()
                    top = {tuple(leaves(e[3:])) for e in ts if e[0] == 'add'}
                    for P, want, what in ((av, wa, 'arguments'), (ov, wo, 'options')):
                        fa = foralls(ts, P)
                        ctx.check(bool(fa) and all(x is None or want <= adds(x) for x in fa[:1]), 'names of ' + what, key,
                                  'not every name of the %s can be looked up' % what, loc, path)
                        if P == ov and wf:
                            for x in fa[:1]:
                                inner = [e[2] for e in x or () if e[0] == 'forall' and e[1] == fl]
                                ctx.check(x is None or bool(inner) and all(y is None or wf <= adds(y) for y in inner),
                                          'flags', key, 'not every flag of an option can be looked up', loc, path)
                    extra = top - wa - wo - wf
                    ctx.check(not extra, 'no other names', key, 'the table of names gets %s' % '; '.join(
                        '(%s)' % ', '.join(show(x) for x in e) for e in sorted(extra, key=repr)), loc, path)
                    dels = [e for e in ts if e[0] == 'del' and not (e[2] == 'erase' and len(e) > 3 and e[3][:2] == ('f', 'unique'))]
                    ctx.check(not dels, 'names kept', key, 'names are removed from the table', loc, path)
    ctx.floor('constructions of a result', n, 8)
    fn = r.p.one(r.PA + '::get_value_id')
    k = 0
    for o in ctx.run(fn, Lookup(r, fn)):
        k += 1
        g = o.st.ts or ()
        loc, path = where(o, fn), o.st.path()
        if o.kind == 'ret':
            ctx.check('hit' in g and o.val in (('init', (('O', it('found')), 1)), ('init', (('this', r.PA), r.pa['ids'], '[]', 1))), 'look-up of a name', 'found',
                      'a name is resolved to %s' % show(o.val), loc, path)
        else:
            ctx.check(g and g[-1] in ('miss', 'end') and o.kind == 'throw', 'look-up of a name', 'not found',
                      'a name that is in the table is not found', loc, path)
    ctx.floor('outcomes of the name look-up', k, 2)
    ctx.sample('reader outcomes by number of values: %s; %d table constructions; %d look-ups' % (counts, n, k))


NUM = {'?': 'may be values', '0': 'is none', '1': 'is one', '1+': 'is at least one', '2+': 'are several'}


def adds(evs):
    return {tuple(leaves(e[3:])) for e in evs if e[0] == 'add' and isinstance(e[2], str)}
