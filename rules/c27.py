"""C27: iterating and parsing in one call agree."""
from entry import *
from effects import *
from harness import *
from engine import show
import engine as E
from c04 import where
from facts import AnalysisBroken

RULE = """
Every public parse and make_iterator function either throws, or prepares the parser's data (or its copy) exactly once and then starts
with that very data and the very list of arguments it was given (argv without its first element).  The complete parse starts
an iterator with these, calls next() again as long as, and only as long as, no call reported the end or an error, and returns the
iterator's result for the whole command line, which is the first result of the iterator; the public iterator returns the same
result when asked for it.  The public iterator makes one step per call and gives the definition and the text of that step, with the
view for its kind, and true; nothing for something unknown; and false and nothing when the step is the end or an error.  A
step that reports an option, argument or command reports the definition it found, and the text that was stored for it.
"""
EXPLAIN = """
The entry points, the loop and the iterator are interpreted with a step of the parser as a call with any of the possible results; the
steps themselves are interpreted as in the other checks of the parser, and each result is compared with what was found.
"""
ASSUME = []
IT = 'argos::ArgumentIterator'


def check(ctx):
    r = ctx.roles
    IRC = [q for q in r.p.enums if q.endswith('IteratorResultCode')]
    if len(IRC) != 1:
        raise AnalysisBroken('cannot identify the results of a step')
    codes = [n for n, _ in r.p.enum(IRC[0])]
    a = entries(ctx, r)
    b = loop(ctx, r, IRC[0], codes)
    c = iterator(ctx, r, IRC[0], codes)
    d = steps(ctx, r)
    ctx.sample('%d outcomes of the entry points, %d of the loop, %d of the iterator, %d of a step' % (a, b, c, d))


def entries(ctx, r):
    n = ok = 0
    fns = public(r, names=('parse', 'make_iterator'))
    ctx.floor('entry points', len(fns), 8)
    for fn in fns:
        ps = fn['params']
        # a command line of every small length: none at all, the program's name only, with one and more arguments
        for argc in (None,) if len(ps) == 1 else (-1, 0, 1, 2, 3):
            rule = Entry(r)
            rule.lists = True
            name = '%s(%s)%s' % (fn['n'], ', '.join(q['t'] for q in ps), ' const' if fn.get('const') else '')
            if len(ps) == 1:
                given, args = None, None
                want = [('init', (('arg', ps[0]['n']),))]
            else:
                argv = ('init', (('arg', ps[1]['n']),))
                given, args = 'argc = %d' % argc, [('val', ('c', argc)), ('val', argv)]
                name += ', ' + given
                want = [given_args(argv, argc)]
            for o in ctx.run(fn, rule, args=args):
                n += 1
                f = o.st.facts.get(('init', rule.ptr), ('=', E.TOP))
                if f == ('=', E.NULL):
                    continue  # moved from
                if o.kind != 'ret':
                    ctx.check(argc is None or argc <= 0, 'parse starts', name, 'the command line is refused', where(o, fn), o.st.path())
                    continue
                ts = o.st.ts or ()
                loc, path = where(o, fn), o.st.path()
                ev = [e for e in ts if e[0] in ('prepare', 'start')]
                prep = [e for e in ev if e[0] == 'prepare']
                start = [e for e in ev if e[0] == 'start']
                ctx.check(len(prep) == len(start) == 1 and ev[0][0] == 'prepare', 'prepared, then started', name,
                          'the definitions are not prepared exactly once, before the parse starts', loc, path)
                if len(prep) != 1 or len(start) != 1:
                    continue
                ok += 1
                vals = list(start[0][2:])
                data = prep[0][1]
                same = [v for v in vals if v == data or v[0] == 'init' and data == ('p', (('O', v),)) or
                        v[0] == 'p' and o.st.store.get(v[1]) == data]
                ctx.check(bool(same), 'same data', name, 'the parse does not use the data that was prepared', loc, path)
                rest = [v for v in vals if v not in same]
                ctx.check([listed(o, v, argv, argc) for v in rest] == want if argc is not None else rest == want, 'same arguments',
                          name, 'the parse is started with other arguments than those given: %s' %
                          ', '.join(show(v) for v in rest), loc, path)
    ctx.floor('entry points that start', ok, 10)
    return n


def given_args(argv, argc):
    return tuple(offset(('op', '+', argv, ('c', i)), argv) for i in range(1, max(argc, 1)))


def offset(v, argv):
    """k if v is argv + k"""
    if v == argv:
        return 0
    if v[:2] == ('op', '+') and argv in v[2:] and any(x[0] == 'c' for x in v[2:]):
        return [x[1] for x in v[2:] if x[0] == 'c'][0]
    return None


def listed(o, v, argv, argc):
    """the elements of argv a list holds, as a tuple of indices"""
    if v == ('empty',):
        return ()
    if v[:2] == ('f', 'container') and len(v) >= 4:
        a, b = offset(v[2], argv), offset(v[3], argv)
        return None if a is None or b is None else tuple(range(a, b))
    if v[0] == 'ilist':
        return tuple(element(o, x, argv) for x in v[1])
    return v


def element(o, x, argv):
    if x[0] in ('f', 'sym') and len(x) == 3 and x[1] in ('string', 'string_view'):
        x = x[2]
    if x[0] == 'init' and x[1][:1] == (('O', argv),) and len(x[1]) == 2:
        k = x[1][1]
        return int(k[1:-1]) if isinstance(k, str) and k[1:-1].isdigit() else k
    return x


class Loop(Effects):
    def __init__(self, r, enum, codes):
        Effects.__init__(self)
        self.r, self.enum, self.codes = r, enum, codes

    def on_call(self, eng, st, fr, nid, node, c):
        r = self.r
        if c.cls == r.AI and c.n == 'next':
            last = [e[1] for e in st.ts or () if e[0] == 'last']
            if last and last[0] in ('DONE', 'ERROR'):
                self.note(eng, st, ('again',))
            out = []
            for n in self.codes:
                s = st.copy()
                s.ts = tuple(e for e in s.ts or () if e[0] != 'last') + (('last', n),)
                if ('on', c.objplace()) not in s.ts:
                    s.ts += (('on', c.objplace()),)
                out.append((s, ('tup', (('e', self.enum, n), ('f', 'DATA'), ('f', 'VALUE')))))
            return ('states', out)
        if c.cls == r.AI and c.ref.get('ctor'):
            self.note(eng, st, ('start',) + tuple(c.raw(i) if c.rv(i) == E.TOP else c.rv(i) for i in range(c.nargs())))
            return ('val', ('f', 'iterator'))
        return None


def loop(ctx, r, enum, codes):
    fns = [f for f in r.p.fns.values() if f.get('cls') == r.AI and f.get('static') and f['n'] == 'parse']
    if len(fns) != 1:
        fns = [f for f in r.p.fns.values() if f.get('cls') == r.AI and f['n'] == 'parse']
    if len(fns) != 1:
        raise AnalysisBroken('cannot identify the complete parse')
    fn = fns[0]
    n = 0
    for o in ctx.run(fn, Loop(r, enum, codes)):
        n += 1
        ts = o.st.ts or ()
        loc, path = where(o, fn), o.st.path()
        last = [e[1] for e in ts if e[0] == 'last']
        key = 'last step: %s' % (last[0] if last else 'none')
        ctx.check(o.kind == 'ret' and last and last[0] in ('DONE', 'ERROR'), 'parse runs to the end', key,
                  'the parse stops although neither the end nor an error was reported', loc, path)
        ctx.check(not any(e[0] == 'again' for e in ts), 'parse stops at the end', key,
                  'a step is made after the end or an error was reported', loc, path)
        st = [e for e in ts if e[0] == 'start']
        args = [('init', (('arg', q['n']),)) for q in fn['params']]
        ctx.check(len(st) == 1 and list(st[0][1:]) == args, 'parse starts the iterator', key,
                  'the iterator is not started once, with the arguments and the data given', loc, path)
        v = o.val
        ctx.check(first(o, v, r), 'result of the whole command line', key,
                  'the result is not that of the top level: %s' % show(v), loc, path)
    ctx.floor('outcomes of the parse loop', n, 2)
    return n


def first(o, v, r):
    """is v the first of the active results?"""
    if v is None:
        return False
    if v[0] in ('init', 'fld', 'p'):
        R = [q % r.ai['results'] + x for q in ("'%s'", "'%s')") for x in (", '[front]'", ", '[0]'")]
        if any(x in repr(v) for x in R):
            return True
    return v[0] == 'p' and o.st.store.get(v[1], v) != v and first(o, o.st.store[v[1]], r)


def iterator(ctx, r, enum, codes):
    n = 0
    fns = [f for f in r.p.fns.values() if f.get('cls') == IT and f['n'] == 'next']
    if len(fns) != 1:
        raise AnalysisBroken('cannot identify the step of the public iterator')
    fn = fns[0]
    ap, vp = [(('arg', q['n']),) for q in fn['params']]
    T = (('this', IT),)
    ptr = T + ([f['n'] for f in r.p.cls(IT)['fields'] if '_ptr<' in f['t']][0],)
    view = {'OPTION': 'argos::OptionView', 'ARGUMENT': 'argos::ArgumentView', 'COMMAND': 'argos::CommandView'}

    def setup(st):
        st.facts[('init', ptr)] = ('!=', frozenset({E.NULL}))
        st.facts[('f', 'DATA')] = ('!=', frozenset({E.NULL}))
    for o in ctx.run(fn, Loop(r, enum, codes), setup=setup):
        n += 1
        ts = o.st.ts or ()
        loc, path = where(o, fn), o.st.path()
        last = [e[1] for e in ts if e[0] == 'last']
        if not last:
            ctx.check(False, 'one step', 'no step', 'the iterator does not make a step', loc, path)
            continue
        code = last[0]
        on = [e[1] for e in ts if e[0] == 'on']
        ctx.check(on == [(('O', ('init', ptr)),)] and not any(e[0] == 'again' for e in ts), 'one step', code,
                  'not exactly one step is made', loc, path)
        ctx.check(o.kind == 'ret' and o.val == (E.FALSE if code in ('DONE', 'ERROR') else E.TRUE), 'end is reported', code,
                  'it gives %s after a step that reports %s' % (o.kind if o.kind != 'ret' else show(o.val), code), loc, path)
        a, v = (([e[2] for e in ts if e[0] == 'w' and e[1] == p] or [None])[-1] for p in (ap, vp))
        if code in view:
            good = False
            if a and a[0] == 'p':
                base = o.st.store.get(a[1], E.TOP)
                good = base[0] == 'sym' and base[1] == 'new:' + view[code] and \
                    any(k[:len(a[1])] == a[1] and x == ('f', 'DATA') for k, x in o.st.store.items())
            ctx.check(good, 'definition is given', code, 'the definition of the step is not given as a view of its kind', loc, path)
            ctx.check(v == ('f', 'VALUE'), 'text is given', code, 'the text of the step is not given', loc, path)
        else:
            ctx.check(a in (E.NULL, ('empty',), E.NONE), 'no definition is given', code, 'a definition is given: %s' % (a and show(a)), loc, path)
            want = [('f', 'VALUE')] if code == 'UNKNOWN' else [('s', '')]
            ctx.check(v in want, 'text is given', code, 'the wrong text is given: %s' % (v and show(v)), loc, path)
    ctx.floor('outcomes of the iterator', n, len(codes))
    m = 0
    for f in r.p.fns.values():
        if f.get('cls') == IT and 'ParsedArguments' in f['rt'] and not f['params'] and f.get('access') == 'public':
            for o in ctx.run(f, Result(r), setup=setup):
                m += 1
                v = [e[1] for e in o.st.ts or () if e[0] == 'wrap']
                ctx.check(o.kind == 'ret' and len(v) == 1 and first(o, v[0], r), 'result of the whole command line', f['n'],
                          'the iterator does not give the result of the top level: %s' % ', '.join(show(x) for x in v), where(o, f), o.st.path())
    ctx.floor('result of the iterator', m, 1)
    return n + m


class Result(Effects):
    def __init__(self, r):
        Effects.__init__(self)
        self.r = r

    def on_call(self, eng, st, fr, nid, node, c):
        if c.ref.get('ctor') and c.cls == 'argos::ParsedArguments' and c.nargs() == 1 and 'shared_ptr' in (c.ref.get('pt') or [''])[0]:
            v = c.raw(0)
            self.note(eng, st, ('wrap', c.rv(0) if first_(c.rv(0), self.r) else v))
            return ('val', ('f', 'result'))
        return None


def first_(v, r):
    return "'%s'" % r.ai['results'] in repr(v)


class Stores(Outcome):
    def event(self, eng, st, fr, kind, d, node):
        Outcome.event(self, eng, st, fr, kind, d, node)
        if kind == 'store' and d[0] in ('assign', 'append') and "'tok'" in repr(d[2]):
            self.put(st, 'stored', 1)
        elif kind in ('option', 'argument') and d[0]:
            self.put(st, kind, 1)
        elif kind.startswith('find-') and d[0]:
            self.put(st, 'command', 1)


def steps(ctx, r):
    n = 0
    rule = Stores(r, hooks=dict(auto_exit=False))
    fn = rule.entry()
    seen = set()
    for o in ctx.run(fn, rule, setup=rule.setup):
        if o.kind != 'ret':
            continue
        v = o.val
        if v[0] == 'p':
            v = ('tup', tuple(o.st.store.get(v[1] + (i,), E.TOP) for i in range(3)))
        if v[0] != 'tup' or len(v[1]) != 3 or v[1][0][0] != 'e':
            raise AnalysisBroken('a step gives something unknown: %s' % show(v))
        n += 1
        code, data, text = v[1][0][2], v[1][1], v[1][2]
        while data[0] == 'tup' and len(data[1]) == 1:
            data = data[1][0]
        seen.add(code)
        loc, path = where(o, fn), o.st.path()
        obj = {'OPTION': OPT, 'ARGUMENT': ARG, 'COMMAND': CMD}.get(code)
        if obj:
            ctx.check(data == ('p', obj) and rule.get(o.st, code.lower()), 'step reports what it found', code,
                      'the step reports %s with %s' % (code, show(data)), loc, path)
        if code in ('COMMAND', 'UNKNOWN'):
            good = text == ('f', 'current')
        elif code in obj_codes:
            good = text == (('f', 'stored') if rule.get(o.st, 'stored') else ('s', ''))
        else:
            good = True
        ctx.check(good, 'step reports its text', code, 'the step reports the text %s' % show(text), loc, path)
        if code == 'UNKNOWN':
            ctx.check(not any(rule.get(o.st, k) for k in ('option', 'argument', 'command')), 'step reports what it found', code,
                      'the step reports something known as unknown', loc, path)
    ctx.floor('kinds of steps', len(seen), 6)
    return n


obj_codes = ('OPTION', 'ARGUMENT')
