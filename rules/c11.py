"""C11: typed access to values."""
from numeric import Text, RANGE
from c10 import number
from effects import *
from engine import show
import engine as E
from tokens import Tokens, token, text, chars, NPOS
from c04 import where
from c31 import evaluate, holds
from facts import AnalysisBroken

RULE = """
For every reader of a single value, of type T: without a value it returns the default it was given; with one it returns exactly what
the conversion to that T, with the base given, makes of the whole value, and reports an error when the conversion gives nothing; texts are returned
as they are, and truth values are false for "0" and "false" and true for other texts.  Every reader of several values returns
the default given exactly when there are no values, and otherwise a list with the conversion of each value, once, in order, and reports an
error when one gives nothing.  Splitting gives the parts of each value in order, at most as many as given, with the value's own argument,
and reports an error when there are fewer than given.  A value is got by its index, and an index that is too great is an
error.  One text is divided at every separator, up to the limit, after which the rest is one part.  An error is reported under the argument of the value - under that of the values, if it is the same for all.
"""
EXPLAIN = """
The readers are interpreted with the conversion (C10), the splitting of one text and the report of an error (C03, C04) as opaque calls; loops over the values
are summarised by what every iteration adds.  The function that divides one text is interpreted on texts of up to 4 (thorough: 5)
undetermined characters, every limit up to 3, and none.
"""
ASSUME = ["the conversions are checked in C10; longer texts are divided like those enumerated"]
AV, AVS = 'argos::ArgumentValue', 'argos::ArgumentValues'


class Access(Effects):
    casts = True

    def __init__(self, r, top):
        Effects.__init__(self)
        self.r, self.top = r, top

    def on_call(self, eng, st, fr, nid, node, c):
        r, ref = self.r, c.ref
        if ref.get('id') == self.top['id']:
            return None
        if not node.get('obj') and not c.cls and number(ref.get('t', '')) and 'string' in (ref.get('pt') or [''])[0]:
            T = number(ref['t'])
            s = st.copy()
            for x, k in ((st, 'ok'), (s, 'fails')):
                self.note(eng, x, ('conv', k, T) + tuple(c.rvs()))
            return ('states', [(st, ('some', ('f', 'number', ('s', T)) + tuple(c.rvs()))), (s, E.NONE)])
        if c.cls in (r.PA, AV, AVS) and c.n == 'error':
            self.note(eng, st, ('error', c.cls, c.objval() if c.cls == r.PA else ('p', c.objplace())) + tuple(c.rvs()))
            return ('stop', 'error')
        if c.cls == r.PA and c.n.startswith('get_argument_view'):
            return ('val', ('f', c.n) + tuple(c.rvs()))
        if c.cls == AVS and c.n == 'raw_values':
            return ('val', ('f', 'raw', ('p', c.objplace())))
        if c.cls in (AV, AVS) and c.n in ('split', 'value', 'operator[]') and self.top['n'] != c.n:
            v = c.objplace()
            if c.n == 'value' and not c.nargs():
                return None
            return ('val', ('f', c.n, ('p', v)) + tuple(c.rvs()))
        if not c.cls and c.n.startswith('split') and 'vector' in ref.get('t', '') and c.nargs() == 3:
            return ('val', ('f', 'split') + tuple(c.rvs()))
        if ref.get('ctor') and c.cls in (AV, AVS) and c.nargs() in (3, 4):
            return ('val', ('f', c.cls) + tuple(self.value(eng, st, c, i) for i in range(c.nargs())))
        if ref.get('ctor') and c.cls == 'argos::ArgumentValueIterator' and c.nargs() == 3:
            return ('val', ('f', c.cls) + tuple(c.rvs()))
        return None

    def value(self, eng, st, c, i):
        return c.rv(i)

    def on_write(self, eng, st, fr, place, val, node):
        if val[0] in ('add', 'del') and place[0][0] in 'LTBH':
            eng_ev = (val[0], place) + val[1:] + (('at', node.get('l'), id(node)),)
            self.note(eng, st, eng_ev)
            return
        Effects.on_write(self, eng, st, fr, place, val, node)


def field(p, cls, test):
    fs = [f['n'] for f in p.cls(cls)['fields'] if test(f['t'])]
    if len(fs) != 1:
        raise AnalysisBroken('cannot identify a field of %s' % cls)
    return (('this', cls), fs[0])


class Check:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.roles
        p = self.p = self.r.p
        self.n = 0
        self.V = field(p, AV, lambda t: 'optional' in t)
        self.VA = field(p, AV, lambda t: 'shared_ptr' in t)
        self.VID = field(p, AV, lambda t: t.endswith('ValueId'))
        self.AID = field(p, AV, lambda t: t.endswith('ArgumentId'))
        self.L = field(p, AVS, lambda t: 'vector' in t)
        self.LA = field(p, AVS, lambda t: 'shared_ptr' in t)
        self.LID = field(p, AVS, lambda t: t.endswith('ValueId'))
        self.TEXT = ('init', self.V + ('opt',))

    def fns(self, cls):
        return [f for f in self.p.fns.values() if f.get('cls') == cls and f.get('access') == 'public' and not f.get('ctor')
                and not f.get('dtor') and not f.get('asg')]

    def run(self, fn, **k):
        for o in self.ctx.run(fn, Access(self.r, fn), **k):
            self.n += 1
            yield o

    def ok(self, good, rule, fn, msg, o, extra=''):
        self.ctx.check(good, rule, '%s(%s)%s' % (fn['q'].split('::', 1)[-1], ', '.join(q['t'] for q in fn['params']), extra), msg,
                       where(o, fn), o.st.path())

    def present(self, o, P):
        f = o.st.facts.get(('init', P))
        if f is None:
            return None
        if f[0] == '=':
            return f[1] not in (E.NONE, E.FALSE, E.NULL)
        return True if E.NONE in f[1] or E.NULL in f[1] else None

    def objects(self, o, null):
        """is an exception right: the object was never filled"""
        return self.present(o, null) is False


def arg(fn, i):
    return ('init', (('arg', fn['params'][i]['n']),))


def resolve(o, v):
    for _ in range(3):
        if v and v[0] == 'p' and v[1] in o.st.store:
            v = o.st.store[v[1]]
        else:
            break
    return v


def check(ctx):
    c = Check(ctx)
    for fn in c.fns(AV):
        if fn['n'].startswith('as_') and fn['params']:
            single(c, fn)
        elif fn['n'] == 'error':
            error1(c, fn)
        elif fn['n'] == 'split':
            split(c, fn, True)
        elif fn['n'] == 'split_n':
            split_n(c, fn)
        elif fn['n'] in ('value', 'operator bool', 'argument'):
            simple(c, fn)
    for fn in c.fns(AVS):
        if fn['n'].startswith('as_') and fn['params']:
            plural(c, fn)
        elif fn['n'] == 'error':
            error2(c, fn)
        elif fn['n'] == 'split':
            split(c, fn, False)
        elif fn['n'] == 'split_n':
            split_n(c, fn)
        elif fn['n'] in ('values', 'raw_values'):
            lists(c, fn)
        elif fn['n'] in ('value', 'operator[]'):
            index(c, fn)
        elif fn['n'] in ('begin', 'end', 'empty', 'size', 'operator bool', 'arguments'):
            simple(c, fn)
    parts(ctx)
    ctx.floor('outcomes of the readers', c.n, 150)
    ctx.sample('%d outcomes of %d readers' % (c.n, len(c.fns(AV)) + len(c.fns(AVS))))


# ---------------------------------------------------------------- one value
def single(c, fn):
    T = fn['rt']
    default = arg(fn, 0)
    got = set()
    if T == 'bool':
        for text in (None, '0', 'false', '1', 'true', 'no', '00', 'False', 'x', '0 '):
            for o in c.run(fn):
                t = Text({c.TEXT, ('init', c.V)}, text or '')
                if text is None:
                    if c.present(o, c.V) is True:
                        continue
                    c.ok(o.kind == 'ret' and o.val == default, 'default without a value', fn, 'it gives %s' % show(o.val), o)
                    got.add(text)
                    continue
                if c.present(o, c.V) is False or not t.allows(o.st.facts):
                    continue
                v = t.ev(o.val) if o.kind == 'ret' and o.val else None
                if v is None:
                    raise AnalysisBroken('the truth of a value is decided in an unknown way: %s' % show(o.val))
                got.add(text)
                c.ok(bool(v) == (text not in ('0', 'false')), 'converted value', fn, 'it gives %s for %r' % (bool(v), text), o)
        c.ctx.floor('texts as truth values', len(got), 10)
        return
    string = 'string' in T
    for o in c.run(fn):
        has = c.present(o, c.V)
        v = o.val
        if o.kind == 'ret' and v == default:
            got.add('default')
            c.ok(has is False, 'default without a value', fn, 'the default is returned although there may be a value', o)
        elif o.kind == 'ret':
            got.add('value')
            if string:
                good = v in (c.TEXT, ('f', 'string', c.TEXT))
            else:
                good = v[:2] == ('f', 'number') and v[2] == ('s', T) and v[3] in (c.TEXT, ('f', 'string', c.TEXT)) and \
                    tuple(v[4:]) == tuple(arg(fn, i) for i in range(1, len(fn['params'])))
            c.ok(has is not False and good, 'converted value', fn, 'it returns %s' % show(v), o)
        elif o.kind == 'error':
            got.add('error')
            e = [e for e in o.st.ts if e[0] == 'error'][-1]
            own = e[1] == AV and e[2] == ('p', c.V[:1]) or e[1] == c.r.PA and e[-1] == ('init', c.AID)
            c.ok(own and any(x[:2] == ('conv', 'fails') for x in o.st.ts), 'error if it is invalid', fn,
                 'an error is reported without reason, or not under the argument of the value', o)
        else:
            c.ok(c.objects(o, c.VA), 'error if it is invalid', fn, 'it ends with %s' % o.kind, o)
    need = {'default', 'value'} | (set() if string else {'error'})
    c.ctx.check(need <= got, 'all outcomes', fn['n'], 'it never gives %s' % ' or '.join(sorted(need - got)), '%s:%s' % (fn['file'], fn['line']), [])


def error1(c, fn):
    got = set()
    for o in c.run(fn):
        ev = [e for e in o.st.ts or () if e[0] == 'error']
        if o.kind == 'error':
            got.add('error')
            e = ev[-1]
            msg = e[3]
            c.ok(e[1] == c.r.PA and e[2] in (('init', c.VA),) and len(e) == 5 and e[4] == ('init', c.AID) or
                 e[1] == AV and e[2] == ('p', c.V[:1]) and not fn['params'], 'error under its argument', fn,
                 'the error is not reported under the argument of the value', o)
            if fn['params']:
                c.ok(msg == arg(fn, 0), 'error under its argument', fn, 'another message is reported: %s' % show(msg), o)
        else:
            c.ok(o.kind == 'throw' and (c.present(o, c.VA) is False or not fn['params'] and c.present(o, c.V) is False),
                 'error under its argument', fn, 'it ends with %s' % o.kind, o)
    c.ctx.floor('errors of a value', len(got), 1)


def simple(c, fn):
    n, one = fn['n'], fn['cls'] == AV
    got = 0
    for o in c.run(fn):
        v = o.val
        if o.kind == 'throw':
            c.ok(c.objects(o, c.VA if one else c.LA) and n.startswith('argument'), 'simple readers', fn, 'it throws', o)
            continue
        got += 1
        if n == 'value':
            good = v in (('init', c.V), ('p', c.V))
        elif n == 'operator bool' and one:
            s = c.present(o, c.V)
            good = v == ('init', c.V) or s is not None and v == (E.TRUE if s else E.FALSE)
        elif n in ('operator bool', 'empty'):
            good = all(evaluate_bool(o, v, c.L, k) in (None, (k > 0) == (n != 'empty')) for k in (0, 1, 2)) and \
                any(evaluate_bool(o, v, c.L, k) is not None for k in (0, 1, 2))
        elif n == 'size':
            good = v == ('size', c.L)
        elif n in ('argument', 'arguments'):
            good = v == ('f', 'get_argument_view' + ('' if one else 's'), ('init', c.AID if one else c.LID))
        else:
            w = ('it', c.L) if n == 'begin' else ('end', c.L)
            v = resolve(o, v)
            good = v == ('f', 'argos::ArgumentValueIterator', w, ('init', c.LA), ('init', c.LID))
        c.ok(o.kind == 'ret' and good, 'simple readers', fn, 'it gives %s' % show(v), o)
    c.ctx.floor('outcomes of %s' % n, got, 1)


def evaluate_bool(o, v, L, k):
    env = {('size', L): k}
    for t, f in o.st.facts.items():
        x = evaluate(t, env)
        if x is not None and not holds(f, x):
            return None
    x = evaluate(v, env)
    return None if x is None else bool(x)


# ---------------------------------------------------------------- several values
def elements(c, evs_place):
    """is the place a list of all the values?"""
    return evs_place


def norm(c, v):
    """the text of the current value"""
    if v[0] == 'some':
        v = v[1]
    if v[0] == 'f' and v[1] == 'string' and len(v) == 3:
        v = v[2]
    if v == ('init', c.L + ('[]', 0)) or v == ('init', c.L + ('[]', 'first')):
        return 'text'
    s = repr(v)
    raw = ('f', 'raw', ('p', c.L[:1]))
    if repr(raw) in s and s.count("'[]'") == 1 and v[0] in ('init', 'fld') and '[]' in (v[1][-1:] if v[0] == 'init' else v[-1]):
        return 'text'
    if v == ('init', c.L + ('[]', 1)) or v == ('init', c.L + ('[]', 'second')):
        return 'id'
    return v


def adds(evs):
    return [e for e in evs if e[0] == 'add']


def appends(e):
    """values appended at the end"""
    vals = tuple(x for x in e[3:] if not (isinstance(x, tuple) and x and x[0] == 'at'))
    return appended(e[:3] + vals)


def over_values(c, o, P):
    if P == c.L:
        return True
    v = resolve(o, ('p', P))
    if P[0][0] in 'TLB' and v == ('p', P):
        return True     # a temporary; the elements say whose they are
    return v == ('f', 'raw', ('p', c.L[:1])) or P[0] == ('O', ('f', 'raw', ('p', c.L[:1])))


def listing(c, fn, o, what, want):
    """every value adds exactly want(values appended) to the list that is returned"""
    ts = o.st.ts or ()
    if any(e[0] == 'del' for e in ts):
        return 'something is removed again'
    every = [e for e in ts if e[0] == 'forall']
    total = {e for e in ts if e[0] == 'add'}
    if not total:
        return None
    lists = {e[1] for e in total}
    if len(lists) != 1:
        return 'several lists are made'
    if len(total) != 1:
        return 'more than one thing is added for a value'
    e = next(iter(total))
    loop = [x for x in every if e in (x[2] or ())]
    if len(loop) != 1 or not over_values(c, o, loop[0][1]):
        return 'not every value is added'
    a = appends(e)
    if a is None:
        return 'values are not added at the end'
    return None if want(a) else 'what is added for a value is %s' % ', '.join(show(x) for x in a)


def plural(c, fn):
    T = fn['rt'][len('std::vector<'):-1]
    string = 'string' in T
    default = arg(fn, 0)
    bases = tuple(arg(fn, i) for i in range(1, len(fn['params'])))
    got = set()

    def want(a):
        if len(a) != 1:
            return False
        v = a[0]
        if string:
            return norm(c, v) == 'text'
        return v[:2] == ('f', 'number') and v[2] == ('s', T) and norm(c, v[3]) == 'text' and tuple(v[4:]) == bases
    for o in c.run(fn):
        empty = evaluate_bool(o, E.TRUE, c.L, 0), evaluate_bool(o, E.TRUE, c.L, 1)
        if o.kind == 'ret' and o.val in (default, ('p', default[1])):
            got.add('default')
            c.ok(empty[1] is None, 'default without values', fn, 'the default is returned although there are values', o)
        elif o.kind == 'ret':
            c.ok(empty[0] is None, 'default without values', fn, 'the default is not returned although there are no values', o)
            msg = listing(c, fn, o, 'values', want)
            if any(e[0] == 'add' for e in o.st.ts or ()):
                got.add('values')
                v = o.val
                c.ok(v[0] in ('sym', 'p'), 'converted values', fn, 'it returns %s' % show(v), o)
            c.ok(msg is None, 'converted values', fn, msg, o)
            conv = [e for e in o.st.ts or () if e[0] == 'conv']
            c.ok(not any(e[1] == 'fails' for e in conv), 'error if one is invalid', fn,
                 'no error is reported although a value is invalid', o)
        elif o.kind == 'error':
            got.add('error')
            e = [e for e in o.st.ts if e[0] == 'error'][-1]
            c.ok(e[1] == AVS and e[2] == ('p', c.L[:1]) and any(x[:2] == ('conv', 'fails') for x in o.st.ts),
                 'error if one is invalid', fn, 'an error is reported without reason, or not by the values', o)
        else:
            c.ok(c.objects(o, c.LA), 'converted values', fn, 'it ends with %s' % o.kind, o)
    need = {'default', 'values'} | (set() if string else {'error'})
    c.ctx.check(need <= got, 'all outcomes', fn['n'], 'it never gives %s' % ' or '.join(sorted(need - got)), '%s:%s' % (fn['file'], fn['line']), [])


def lists(c, fn):
    full = 'ArgumentValue' in fn['rt']

    def want(a):
        if full and len(a) == 1:
            a = a[0][2:] if a[0][:2] == ('f', AV) else a
        w = ('text', ('init', c.LA), ('init', c.LID), 'id') if full else ('text',)
        return tuple(norm(c, x) for x in a) == w
    got = 0
    for o in c.run(fn):
        got += any(e[0] == 'add' for e in o.st.ts or ())
        msg = listing(c, fn, o, 'values', want)
        c.ok(o.kind == 'ret' and msg is None, 'all values in order', fn, msg or o.kind, o)
        if not any(e[0] == 'add' for e in o.st.ts or ()):
            c.ok(evaluate_bool(o, E.TRUE, c.L, 1) is None or any(e[0] == 'forall' and e[1] == c.L and not e[2] for e in o.st.ts or ()),
                 'all values in order', fn, 'nothing is returned although there are values', o)
    c.ctx.floor('lists of values', got, 1)


def index(c, fn):
    i = arg(fn, 0)
    got = set()
    for o in c.run(fn):
        v = resolve(o, o.val) if o.val else o.val
        if fn['n'] == 'operator[]' and o.kind == 'ret' and v == ('f', 'value', ('p', c.L[:1]), i):
            got |= {0, 1, 2}
            continue
        for size in (0, 1, 2, 3):
            for k in (0, 1, 2, 3):
                env = {('size', c.L): size, i: k}
                if not all(holds(f, evaluate(t, env)) for t, f in o.st.facts.items()):
                    continue
                if size == 0:
                    got.add(0)
                    good = o.kind == 'error' or o.kind == 'ret' and v[:2] == ('f', AV) and v[2] in (E.NONE, ('empty',)) and v[3] == ('init', c.LA)
                    c.ok(good or o.kind == 'throw', 'value by index', fn, 'without values it gives %s' % show(v), o)
                elif k >= size:
                    got.add(1)
                    ev = [e for e in o.st.ts or () if e[0] == 'error']
                    c.ok(o.kind == 'error' and ev[-1][1] == AVS and ev[-1][2] == ('p', c.L[:1]), 'value by index', fn,
                         'an index of %d is accepted for %d values' % (k, size), o)
                else:
                    got.add(2)
                    at = [c.L + ((('at', i),) if x is None else (x,)) for x in (None, '[%d]' % k)]
                    good = v and v[:2] == ('f', AV) and v[2] in [('init', a + (0,)) for a in at] + [('some', ('init', a + (0,))) for a in at] and \
                        v[3] == ('init', c.LA) and v[4] == ('init', c.LID) and v[5] in [('init', a + (1,)) for a in at]
                    c.ok(o.kind == 'ret' and good, 'value by index', fn, 'index %d of %d gives %s' % (k, size, v and show(v)), o)
    c.ctx.floor('cases of an index', len(got), 3)


def split(c, fn, one):
    sep, lo, hi = (arg(fn, i) for i in range(3))
    got = set()
    cls = fn['cls']
    args, vid = (c.VA, c.VID) if one else (c.LA, c.LID)
    for o in c.run(fn):
        v = resolve(o, o.val) if o.val else o.val
        ts = o.st.ts or ()
        if o.kind == 'throw':
            c.ok(c.present(o, args) is False, 'split', fn, 'it throws', o)
            continue
        small = {}
        for t, f in o.st.facts.items():
            part = parts_of(t)
            if part is None:
                continue
            s, m = part
            for count in (0, 1, 2, 3):
                x = evaluate(t, {('f', 'size', s): count, lo: 2})
                if x is not None and not holds(f, x):
                    small.setdefault(s, set()).add(count)
            src = s[2]
            c.ok(s[3] == sep and (norm(c, src) == 'text' if not one else src == c.TEXT), 'split', fn,
                 'something else is split: %s' % show(s), o)
            c.ok(s[4] in (('op', '-', hi, ('c', 1)), ('op', '+', hi, ('c', -1)), ('op', '-', hi, E.TRUE)), 'split', fn,
                 'the number of parts is not limited as given: %s' % show(s[4]), o)
        if o.kind == 'error':
            got.add('error')
            e = [e for e in ts if e[0] == 'error'][-1]
            c.ok(any(ok <= {2, 3} | ok and {2, 3} <= ok for ok in small.values()), 'split', fn,
                 'an error is reported although there are enough parts', o)
            c.ok(e[1] == cls and e[2] == ('p', c.V[:1] if one else c.L[:1]) or e[1] == c.r.PA, 'split', fn, 'the error is not that of the value', o)
            continue
        if o.kind != 'ret' or v[:2] != ('f', AVS):
            c.ok(False, 'split', fn, 'it gives %s' % (v and show(v)), o)
            continue
        c.ok(v[3] == ('init', args) and v[4] == ('init', vid), 'split', fn, 'the parts do not belong to the same option or argument', o)
        c.ok(all({0, 1} <= x and not x & {2, 3} for x in small.values()), 'split', fn, 'too few parts are accepted', o)
        add = {e for e in ts if e[0] == 'add'}
        if one and c.present(o, c.V) is False:
            got.add('none')
            c.ok(not add, 'split', fn, 'there are parts without a value', o)
            continue
        for e in add:
            got.add('parts')
            a = appends(e)
            if a is not None and len(a) == 1 and a[0][0] == 'tup':
                a = a[0][1]
            part = a and a[0]
            own = ('init', c.AID) if one else 'id'
            isp = part and part[0] in ('init', 'fld') and "'[]'" in repr(part) and repr(('f', 'split'))[:-1] in repr(part)
            c.ok(len(add) == 1 and bool(a) and len(a) == 2 and bool(isp) and (a[1] if one else norm(c, a[1])) == own, 'split', fn,
                 'what is added for a part is %s' % ', '.join(show(x) for x in a or ()), o)
            loops = [x for x in ts if x[0] == 'forall' and e in (x[2] or ())]
            c.ok(len(loops) >= 1, 'split', fn, 'not every part is added', o)
            if not one:
                outer = [x for x in ts if x[0] == 'forall' and x[1] == c.L]
                c.ok(len(outer) == 1, 'split', fn, 'not every value is split', o)
    c.ctx.floor('kinds of outcomes of split', len(got), 3 if one else 2)


def parts_of(t):
    """(split term, term) if t compares the number of parts of a text"""
    if t[0] == 'op':
        for x in t[2:]:
            if isinstance(x, tuple) and x[:2] == ('f', 'size') and x[2][:2] == ('f', 'split') and len(x[2]) == 5:
                return x[2], t
    return None


def split_n(c, fn):
    sep, n = arg(fn, 0), arg(fn, 1)
    got = 0
    for o in c.run(fn):
        v = resolve(o, o.val) if o.val else o.val
        got += 1
        c.ok(o.kind == 'ret' and v == ('f', 'split', ('p', ((('this', fn['cls'])),)), sep, n, n), 'split', fn,
             'it gives %s' % (v and show(v)), o)
    c.ctx.floor('outcomes of split_n', got, 1)


def error2(c, fn):
    msg = arg(fn, 0)
    got = set()
    for k in (0, 1, 2, 3):
        rule = Access(c.r, fn)
        rule.concrete = lambda eng, P, k=k: k if P == c.L else None
        for o in c.ctx.run(fn, rule):
            c.n += 1
            if o.kind == 'throw':
                c.ok(c.present(o, c.LA) is False, 'error under its argument', fn, 'it throws', o)
                continue
            e = [e for e in o.st.ts or () if e[0] == 'error']
            c.ok(o.kind == 'error' and e[-1][1] == c.r.PA and e[-1][3] == msg and len(e[-1]) == 5, 'error under its argument', fn,
                 'the error is not reported', o)
            if o.kind != 'error' or len(e[-1]) != 5:
                continue
            v = e[-1][4]
            import itertools
            for ids in itertools.product((1, 2), repeat=k):
                env = {}
                for i, x in enumerate(ids):
                    for y in (c.L + ('[%d]' % i, 1),) + ((c.L + ('[front]', 1),) if i == 0 else ()) + ((c.L + ('[back]', 1),) if i == k - 1 else ()):
                        env[('init', y)] = x
                        for t in ('int', 'unsigned int'):
                            env[('f', 'as', ('s', t), ('init', y))] = x
                if not all(holds(f, evaluate(t, env)) for t, f in o.st.facts.items()):
                    continue
                same = k and len(set(ids)) == 1
                got.add(bool(same))
                x = evaluate(v, env)
                c.ok(x == ids[0] if same else x not in (1, 2), 'error under its argument', fn,
                     'values of the arguments %s: the error is reported under %s' % (list(ids), show(v)), o, ', %d values' % k)
    c.ctx.floor('errors of values', len(got), 2)


# ---------------------------------------------------------------- the parts of one text
class Parts(Tokens):
    def __init__(self, vals):
        Tokens.__init__(self)
        self.vals = vals

    def on_init(self, eng, st, place):
        return self.vals.get(place)


def parts(ctx):
    """splitting at a character: every part between two of them, the rest undivided once the limit is reached"""
    fs = [f for f in ctx.p.fns.values() if f.get('blocks') and 'vector<std::basic_string_view' in (f.get('rt') or '') and
          len(f['params']) == 3 and 'basic_string_view' in f['params'][0]['t'] and f['params'][1]['t'] == 'char']
    if len(fs) != 1:
        raise AnalysisBroken('cannot identify the function that splits a text')
    f = fs[0]
    P = [(('arg', x['n']),) for x in f['params']]
    n = 0
    for size in range(6 if ctx.tier == 'thorough' else 5):
        for limit in (0, 1, 2, 3, NPOS):
            tok = token('t', size)
            for o in ctx.run(f, Parts({P[0]: tok, P[1]: ('c', ord(',')), P[2]: ('c', limit)})):
                n += 1
                want, cur = [], []
                decided = True
                for i, ch in enumerate(chars(tok)):
                    k = Tokens().known(o.st, ch, ('c', ord(',')))
                    if k is None and len(want) < limit:
                        decided = False
                    if k and len(want) < limit:
                        want.append(text(*cur))
                        cur = []
                    else:
                        cur.append(ch)
                want.append(text(*cur))
                got = elements(o)
                key = '%d characters, limit %s' % (size, limit if limit < NPOS else 'none')
                ctx.check(o.kind == 'ret' and decided and got == want, 'parts of a text', key, 'the text %s gives %s' % (
                    word(o, tok), got is None and 'something undecided' or ' | '.join(word(o, x) for x in got) if o.kind == 'ret' else o.kind),
                    where(o, f), o.st.path())
                for e in o.st.ts or ():
                    ctx.check(e[0] != 'outside', 'parts of a text', key + ', bounds', 'an access outside the text', where(o, f), o.st.path())
    ctx.floor('ways to split a text', n, 60)


def elements(o):
    v = o.val
    if v and v[0] == 'ilist':
        return list(v[1])
    if v and v[0] == 'p':
        k = o.st.store.get(v[1] + ('#n',))
        if k and k[0] == 'c':
            return [o.st.store.get(v[1] + ('[%d]' % i,)) for i in range(k[1])]
    return None


def word(o, t):
    if t is None or chars(t) is None:
        return '?'
    return '"%s"' % ''.join(chr(c[1]) if c[0] == 'c' else ',' if Tokens().known(o.st, c, ('c', ord(','))) else 'abcdefgh'[c[3][1]] for c in chars(t))
