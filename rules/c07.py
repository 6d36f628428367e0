"""C07: what an option's operation does to the stored values."""
from harness import *
from engine import show, FALSE, TRUE
import engine as E
from c04 import where

RULE = """
For each operation, with and without a constant, with and without a value on the command line, every path of the
parse step performs exactly the stores of that operation on the innermost active result, under the option's own
value id and argument id: ASSIGN and APPEND store the constant without consuming a value, or consume exactly one
value and store it, or report an error and store nothing; CLEAR removes; NONE touches nothing.  In the value store,
assigning leaves exactly the new value under the id, appending adds exactly one value, clearing leaves none.
"""
EXPLAIN = """
Operation and constant are pinned and propagated through the parse step; the value store's functions are analysed
with an abstract multimap (entries under the id: unknown number / none / one new) whose iterators are forked over
same key, other key and end.
"""

KEY, OTHERKEY = ('c', 7001), ('c', 7002)


def it(x):
    return ('f', 'ITER', ('s', x))


class Store(E.Rule):
    """abstract content under KEY.  ts: (entries, rest, pending, inserted)
    entries: 'any' untouched / 'none' / 'new' first entry overwritten / 'first' exists
    rest: entries after the first: 'any' / 'none' / 'left'"""
    track_text = False

    def __init__(self, r, fn):
        self.r, self.fn = r, fn
        self.VAL = (('this', r.PA), r.pa['values'])
        ps = fn['params']
        self.key = (('arg', ps[0]['n']),)
        self.rest = [('init', (('arg', x['n']),)) for x in ps[1:]]

    def on_init(self, eng, st, place):
        if place == self.key:
            return KEY
        if len(place) == 2 and place[0][0] == 'O' and place[1] == 0 and place[0][1][:2] == ('f', 'ITER'):
            return KEY if place[0][1][2][1] in ('first', 'more') else OTHERKEY
        return None

    def adv(self, st, pos):
        """states and iterators after advancing from pos"""
        ent, rest, pend, ins = st.ts
        if pos == it('more') and pend == 'seen':
            pass
        if pos == it('more'):
            if pend:
                rest = 'left'
            pend = 'skip'
        out = []
        for nx in (it('more'), it('other'), ('end', self.VAL)):
            s = st.copy()
            rr, pp = rest, pend
            if nx != it('more'):
                if rr == 'any':
                    rr = 'none'
            s.ts = (ent, rr, pp, ins)
            if nx == it('more') and rest == 'none':
                continue
            out.append((s, nx))
        return ('states', out)

    def lookup(self, st, name):
        out = []
        ent, rest, pend, ins = st.ts
        if ent != 'none':
            s = st.copy()
            s.ts = ('first' if ent == 'any' else ent, rest, pend, ins)
            out.append((s, it('first')))
        if ent in ('any', 'none'):
            for nx in ([('end', self.VAL)] + ([it('other')] if name == 'lower_bound' else [])):
                s = st.copy()
                s.ts = ('none', 'none', pend, ins)
                out.append((s, nx))
        return ('states', out)

    def erase_at(self, st, pos):
        ent, rest, pend, ins = st.ts
        if pos == it('more'):
            if pend == 'skip':
                st.ts = (ent, rest, None, ins)
                return ('val', E.TOP)
            st.ts = (ent, rest, None, ins)
            return self.adv_fresh(st)
        if pos == it('first'):
            st.ts = ('gone', rest, pend, ins)
            return self.adv_fresh(st)
        st.ts = (ent, 'left', pend, 9)
        return ('val', E.TOP)

    def adv_fresh(self, st):
        out = []
        ent, rest, pend, ins = st.ts
        for nx in (it('more'), it('other'), ('end', self.VAL)):
            if nx == it('more') and rest == 'none':
                continue
            s = st.copy()
            rr = rest
            if nx != it('more') and rr == 'any':
                rr = 'none'
            e = 'none' if ent == 'gone' and rr == 'none' else ent
            s.ts = (e, rr, pend, ins)
            out.append((s, nx))
        return ('states', out)

    def on_call(self, eng, st, fr, nid, node, c):
        if c.n in ('next',) and c.q.startswith('std::') and not node.get('obj'):
            v = c.rv(0)
            if v[:2] == ('f', 'ITER'):
                return self.adv(st, v)
        if c.n in ('operator==', 'operator!='):
            vs = ([c.objval()] if node.get('obj') else []) + c.rvs()
            if len(vs) == 2 and all(v[:2] == ('f', 'ITER') or v == ('end', self.VAL) for v in vs):
                if any(v == ('end', self.VAL) for v in vs) or vs[0] == vs[1] == it('first') or it('first') in vs:
                    return ('val', TRUE if (vs[0] == vs[1]) == (c.n == 'operator==') else FALSE)
        if not node.get('obj'):
            return None
        cls = E.tmpl(c.cls or '')
        if 'iterator' in cls and c.n == 'operator++':
            v = c.objval()
            if v[:2] == ('f', 'ITER'):
                r = self.adv(st, v)
                pl = c.objplace()
                post = c.nargs() == 1
                for s, nx in r[1]:
                    eng.write(s, fr, pl, nx, node, quiet=True)
                return ('states', [(s, v if post else ('p', pl) if node.get('lv') else nx) for s, nx in r[1]])
        if c.objplace() != self.VAL:
            return None
        ent, rest, pend, ins = st.ts
        n = c.n
        if n in ('find', 'lower_bound') and c.rv(0) == KEY:
            return self.lookup(st, n)
        if n in ('contains', 'count') and c.rv(0) == KEY:
            r = self.lookup(st, 'find')
            return ('states', [(s, TRUE if x == it('first') else FALSE) for s, x in r[1]])
        if n == 'upper_bound' and c.rv(0) == KEY:
            return ('val', it('upper'))
        if n == 'equal_range' and c.rv(0) == KEY:
            r = self.lookup(st, 'find')
            return ('states', [(s, ('tup', (x if x == it('first') else it('upper'), it('upper'))))
                               for s, x in r[1]])
        if n == 'erase':
            a = c.rvs()
            if len(a) == 2:
                if a[1] == it('upper') and a[0] == it('first'):
                    st.ts = ('none', 'none', pend, ins)
                elif a[1] == it('upper') and a[0] in (it('more'), it('other'), it('upper'), ('end', self.VAL)):
                    st.ts = (ent, 'none', None, ins)
                else:
                    st.ts = (ent, 'left', pend, 9)
                return ('val', E.TOP)
            if a[0] == KEY:
                st.ts = ('none', 'none', pend, ins)
                return ('val', E.TOP)
            return self.erase_at(st, a[0])
        if n in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign'):
            vals = leaves(c.rvs())
            vals = [v for v in vals if v[:2] != ('f', 'ITER') and v[0] not in ('it', 'end')]
            good = vals == [KEY] + self.rest
            st.ts = (ent, rest, pend, min(9, ins + (1 if good else 9)))
            return ('val', it('inserted'))
        if n in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty'):
            return None
        st.ts = (ent, 'left', pend, 9)
        return None

    def on_write(self, eng, st, fr, place, val, node):
        if place[0] == ('O', it('first')) and len(place) > 1 and place[1] == 1:
            ent, rest, pend, ins = st.ts
            if len(place) == 2 and leaves([val]) == self.rest:
                ent = 'new'
            elif len(place) == 3 and place[2] in ('first', 0) and val == self.rest[0]:
                ent = 'new2' if ent == 'new1' else 'new0'
            elif len(place) == 3 and place[2] in ('second', 1) and val == self.rest[1]:
                ent = 'new2' if ent == 'new0' else 'new1'
            else:
                ins = 9
            st.ts = ('new' if ent == 'new2' else ent, rest, pend, ins)
        elif place[0][0] == 'O' and place[0][1][:2] == ('f', 'ITER') or place == self.VAL and val[0] not in ('sym', 'add', 'del'):
            ent, rest, pend, ins = st.ts
            st.ts = (ent, 'left', pend, 9)


def leaves(vs):
    out = []
    for v in vs:
        if v[0] in ('tup', 'ilist'):
            out += leaves(v[1])
        else:
            out.append(v)
    return out


class Oper(Outcome):
    def event(self, eng, st, fr, kind, d, node):
        Outcome.event(self, eng, st, fr, kind, d, node)
        if kind == 'store':
            self.put(st, 'stores', self.get(st, 'stores', ())[:3] + (d,))
        elif kind == 'take':
            self.put(st, 'takes', self.get(st, 'takes', ())[:3] + ((d[1], d[0]),))


def check(ctx):
    r = ctx.roles
    K = ('s', 'K')
    vid = ('init', (('G', 'OPT'), r.od['value_id']))
    aid = ('init', (('G', 'OPT'), r.od['argument_id']))
    tok = ('f', 'tok', ('s', 'next_value'))
    ops = [n for n, _ in r.p.enum('argos::OptionOperation')]
    ctx.floor('operations', len([o for o in ops if o in ('ASSIGN', 'APPEND', 'CLEAR', 'NONE')]), 4)
    for op in ('ASSIGN', 'APPEND', 'CLEAR', 'NONE'):
        for const in (K, ('s', '')):
            for value in (True, False):
                rule = Oper(r, hooks=dict(auto_exit=False, option=True, token=True, value=value, has=True, complete=True),
                            pins={(('G', 'OPT'), r.od['type']): r.otype('NORMAL'),
                                  (('G', 'OPT'), r.od['operation']): r.oper(op),
                                  (('G', 'OPT'), r.od['constant']): const,
                                  (r.ai['state'],): r.S['ARGUMENTS_AND_OPTIONS']})
                fn = rule.entry()
                n = 0
                for o in ctx.run(fn, rule, setup=rule.setup):
                    g = lambda k, d=None: rule.get(o.st, k, d)
                    if not g('opt') or o.kind != 'ret':
                        continue
                    n += 1
                    loc, path = where(o, fn), o.st.path()
                    takes, stores = g('takes', ())[1:], g('stores', ())
                    uses = op in ('ASSIGN', 'APPEND')
                    name = '%s %s constant' % (op, 'with' if const == K else 'without')
                    if uses and const == ('s', ''):
                        want_t = (('next_value', value),)
                        want_s = ((op.lower(), rule.BACK, (vid, tok, aid)),) if value else ()
                        want_e = not value
                    else:
                        want_t, want_e = (), False
                        want_s = ((op.lower(), rule.BACK, (vid, K, aid)),) if uses else \
                            (('clear', rule.BACK, (vid,)),) if op == 'CLEAR' else ()
                    ctx.check(takes == want_t, 'values consumed', name,
                              '%s consumes %s value(s) instead of %d' % (name, len(takes), len(want_t)), loc, path)
                    ctx.check(stores == want_s, 'values stored', name, '%s performs the stores [%s] instead of [%s]' % (
                        name, '; '.join('%s %s(%s)' % (s[0], show(s[1]), ', '.join(show(x) for x in s[2])) for s in stores),
                        '; '.join('%s(%s)' % (s[0], ', '.join(show(x) for x in s[2])) for s in want_s)), loc, path)
                    ctx.check((outcome_code(o) == 'ERROR') == want_e and bool(g('err')) == want_e, 'missing value', name,
                              '%s: %s although %s' % (name, 'an error' if not want_e else 'no error',
                                                      'nothing is missing' if not want_e else 'the value is missing'),
                              loc, path)
                ctx.floor('outcomes of %s' % op, n, 1)
    # the value store
    for name in ('assign_value', 'append_value', 'clear_value'):
        fn = r.p.one(r.PA + '::' + name)
        rule = Store(r, fn)
        for o in ctx.run(fn, rule, ts=('any', 'any', None, 0)):
            ent, rest, pend, ins = o.st.ts
            if pend:
                rest = 'left'
            loc, path = where(o, fn), o.st.path()
            if name == 'append_value':
                ok = ins == 1 and ent not in ('new', 'new0', 'new1', 'gone') and rest != 'left'
                msg = 'appending does not add exactly the given value'
            elif name == 'assign_value':
                ok = (ins == 1 and ent == 'none' and rest == 'none') or (ins == 0 and ent == 'new' and rest == 'none')
                msg = 'assigning does not leave exactly the new value under the id'
            else:
                ok = ins == 0 and ent == 'none' and rest == 'none'
                msg = 'clearing does not remove all values of the id'
            ctx.check(o.kind == 'ret' and ok, 'value store', name, '%s (entry %s, others %s, inserts %s)'
                      % (msg, ent, rest, ins), loc, path)
        ctx.sample('%s analysed on the abstract multimap' % fn['q'])
