"""C14: every definition is validated and numbered before parsing."""
from itertools import product
from consttext import *
from engine import show
import engine as E
from c04 import where
from facts import AnalysisBroken

RULE = """
(a) Validating an option throws exactly if it has no flag, a flag whose form the option style does not allow (wrong prefix, too
short, blank characters, one dash before a name in the standard style, a '=' inside, a '=' at the end of a name without argument),
both argument and constant, a constant or alias although it does nothing, nothing to append, or clears and is mandatory; otherwise
it only changes the constant of an ASSIGN option without argument and constant to "1".  (b) Preparing a tree of commands throws if
an option at any place of any command is invalid or a command without subcommands requires one. Otherwise, for every command of the
tree: each command, option and argument has an id that no other of its chain of commands has; each option (but those that do
nothing) and argument has a value id that no command above uses, shared exactly with those linked to it through the same names or
aliases; the index has each flag of each option, the generated help option included, paired with its option, and is sorted; the
number of generated options is one if asked for and none otherwise; whether a subcommand is required is as set, or else true
exactly if there are some.
"""
EXPLAIN = """
the validation is interpreted for every combination of operation, constant, argument, alias, optional and for a set of flags that
covers the alternatives of their form; the preparation is interpreted (constant propagation over the control flow graph, containers
of known size, recursion followed) on trees of commands up to three levels with all arrangements of two or three options and
arguments that share names or aliases.
"""
ASSUME = ["definitions with more options, arguments and subcommands than those listed are treated like them (the code handles them in "
          "uniform loops)", "std::sort sorts by the comparison it is given (which is decided by C13)", "siblings may use the same ids: at "
          "most one of them is active at a time"]

STY = ('STANDARD', 'SLASH', 'DASH')
FLAGS = ['', '-', '--', '/', '-a', '/a', '-ab', '--abc', '/abc', 'a', 'ab', 'abc', '-a b', '--a b', '/a\tb', '- ', '--a=', '-a=', '/ab=',
         '--a=b', '-ab=c', '/ab=c', '-=', '/=', '--=', 'x-a', '-\n', '--a\r', '/ ', '-ab=', '---', '-/', '/-', '//']


def flag_ok(flag, style, arg):
    """the documented form of a flag: dash and one character, two dashes and a name; slash or dash and a name; a '=' at the end
    of a long one only if the option takes an argument"""
    if any(c in ' \t\n\r' for c in flag) or len(flag) < 2:
        return False
    if flag[0] != ('/' if style == 'SLASH' else '-'):
        return False
    if len(flag) == 2:
        return True
    if style == 'STANDARD' and flag[1] != '-':
        return False
    if '=' not in flag:
        return True
    return flag.index('=') == len(flag) - 1 and arg


class Validate(ConstText):
    def __init__(self, flags, P, **k):
        ConstText.__init__(self, **k)
        self.P, self.k = P, len(flags)
        self.flags = flags

    def concrete(self, eng, pl):
        return self.k if pl == self.P else None

    def on_init(self, eng, st, place):
        if place[:-1] == self.P and str(place[-1])[:1] == '[' and place[-1][1:-1].isdigit():
            return ('s', self.flags[int(place[-1][1:-1])])
        return ConstText.on_init(self, eng, st, place)


def validation(ctx):
    r, p = ctx.roles, ctx.p
    fns = [f for f in p.fns.values() if [q['t'] for q in f['params']] == [r.OD + ' &', 'argos::OptionStyle'] and f.get('blocks')]
    if len(fns) != 1:
        raise AnalysisBroken('cannot identify the validation of an option')
    fn = fns[0]
    O = (('G', 'option'),)
    od = r.od
    n = 0

    def run(flags, style, oper, const, arg, alias, opt):
        exact = {O + (od['operation'],): r.oper(oper), O + (od['constant'],): ('s', const), O + (od['argument'],): ('s', arg),
                 O + (od['alias'],): ('s', alias), O + (od['optional'],): boolean(opt)}
        return ctx.run(fn, Validate(flags, O + (od['flags'],), exact=exact),
                       args=[('ref', ('p', O)), ('val', ('e', 'argos::OptionStyle', style))])
    for oper, const, arg, alias, opt in product(('NONE', 'ASSIGN', 'APPEND', 'CLEAR'), ('', 'C'), ('', 'A'), ('', 'L'), (False, True)):
        bad = const and arg or oper == 'NONE' and (const or alias) or oper == 'APPEND' and not const and not arg or \
            oper == 'CLEAR' and not opt
        key = '%s%s%s%s%s' % (oper, const and ', constant', arg and ', argument', alias and ', alias', ', optional' if opt else '')
        for o in run(['-a'], 'STANDARD', oper, const, arg, alias, opt):
            n += 1
            loc, path = where(o, fn), o.st.path()
            ctx.check((o.kind == 'throw') == bool(bad), 'rule of operations', key,
                      'an option with this definition is %s: %s' % ('accepted' if bad else 'rejected', key), loc, path)
            if bad or o.kind != 'ret':
                continue
            v = o.st.store.get(O + (od['constant'],), ('s', const))
            want = [('s', '1')] if oper == 'ASSIGN' and not const and not arg else [('s', const)]
            if oper == 'CLEAR':
                want.append(('s', '1'))      # the constant of a CLEAR option is not used
            ctx.check(v in want, 'constant', key, 'the constant of the option becomes %s: %s' % (show(v), key), loc, path)
            for k, w in o.st.store.items():
                if k[:1] == O and len(k) == 2 and k[1] != od['constant'] and (k[1] in (od['operation'], od['argument'], od['alias'], od['optional'])):
                    ctx.check(w in (r.oper(oper), ('s', arg), ('s', alias), boolean(opt)), 'unchanged', '%s: %s' % (k[1], key),
                              'validation changes %s' % k[1], loc, path)
    lists = [[f] for f in FLAGS] + [[], ['-a', 'b'], ['--ab', '-ab'], ['b', '-a'], ['-a', '-b'], ['/a', '/b', '-c']]
    for style, arg, flags in product(STY, ('', 'A'), lists):
        ok = bool(flags) and all(flag_ok(f, style, arg) for f in flags)
        key = '%s, %s%s' % (style, flags, ', argument' if arg else '')
        for o in run(flags, style, 'ASSIGN', '', arg, '', True):
            n += 1
            ctx.check((o.kind == 'ret') == ok and o.kind in ('ret', 'throw'), 'form of flags', key, 'an option with these flags is %s: %s' % (
                'rejected' if ok else 'accepted', key), where(o, fn), o.st.path())
    ctx.floor('outcomes of validating an option', n, 200)
    return fn



class Opt:
    def __init__(self, flags, oper='ASSIGN', alias='', const='', arg='A', opt=True, type='NORMAL'):
        self.flags, self.oper, self.alias, self.const, self.arg, self.opt, self.type = flags, oper, alias, const, arg, opt, type

    def __str__(self):
        return '%s%s%s' % (','.join(self.flags), self.alias and '=' + self.alias, '' if self.oper == 'ASSIGN' else '/' + self.oper)


class Arg:
    def __init__(self, name, alias=''):
        self.name, self.alias = name, alias

    def __str__(self):
        return self.name + (self.alias and '=' + self.alias)


class Cmd:
    def __init__(self, name, opts=(), args=(), cmds=(), require=None):
        self.name, self.opts, self.args, self.cmds, self.require = name, opts, args, cmds, require

    def __str__(self):
        return '%s(%s)' % (self.name, ' '.join(map(str, list(self.args) + list(self.opts) + list(self.cmds))))


class Prepare(ConstText):
    limit = 90
    recursion = 3
    grow = byvalue = True
    track_loops = False

    def __init__(self, ctx, top, place, **k):
        ConstText.__init__(self, **k)
        self.r = ctx.roles
        self.store, self.where, self.serial = {}, {}, 0
        self.add(top, place)
        self.lost = None

    def inline(self, eng, fn):
        return True

    def elem(self, L, i):
        self.serial += 1
        self.store[L + ('[%d]' % i,)] = ('f', 'ptr', ('c', self.serial))
        return (('O', self.store[L + ('[%d]' % i,)]),)

    def add(self, c, P):
        r, S = self.r, self.store
        self.where[c] = P
        full = [f['n'] for f in r.p.cls(r.CD)['fields'] if f['t'].startswith('std::basic_string<char>') and f['n'].startswith('full')]
        for f in full:
            S[P + (f,)] = ('s', '')
        S[P + (r.cd['name'],)] = ('s', c.name)
        S[P + (r.cd['section'],)] = ('s', '')
        S[P + (r.cd['require'],)] = E.NONE if c.require is None else ('some', boolean(c.require))
        for kind, items in (('options', c.opts), ('arguments', c.args), ('commands', c.cmds)):
            L = P + (r.cd[kind],)
            S[L + ('#n',)] = ('c', len(items))
            for i, x in enumerate(items):
                e = self.elem(L, i)
                self.where[x] = e
                if kind == 'commands':
                    self.add(x, e)
                elif kind == 'arguments':
                    S[e + (r.ad['name'],)] = ('s', x.name)
                    S[e + (r.ad['alias'],)] = ('s', x.alias)
                else:
                    S[e + (r.od['flags'], '#n')] = ('c', len(x.flags))
                    for j, fl in enumerate(x.flags):
                        S[e + (r.od['flags'], '[%d]' % j)] = ('s', fl)
                    S[e + (r.od['operation'],)] = r.oper(x.oper)
                    S[e + (r.od['type'],)] = r.otype(x.type)
                    S[e + (r.od['alias'],)] = ('s', x.alias)
                    S[e + (r.od['constant'],)] = ('s', x.const)
                    S[e + (r.od['argument'],)] = ('s', x.arg)
                    S[e + (r.od['optional'],)] = boolean(x.opt)

    def setup(self, st):
        for k, v in self.store.items():
            st.store[k] = v
            if v[:2] == ('f', 'ptr'):
                st.facts[v] = ('!=', frozenset({E.NULL}))

    def on_call(self, eng, st, fr, nid, node, c):
        if c.n in ('sort', 'stable_sort') and c.nargs() in (2, 3):
            a = c.rv(0)
            self.note(eng, st, ('sorted', a[1] if a[0] in ('it', 'itc') else None))
            return ('val', E.TOP)
        if c.n == 'adjacent_find':
            a = c.rv(1)
            return ('val', a)
        return ConstText.on_call(self, eng, st, fr, nid, node, c)
def commands(c):
    yield c
    for x in c.cmds:
        yield from commands(x)


def components(items):
    """items: lists of names; the groups that share a name, directly or through others"""
    groups = []
    for i, names in enumerate(items):
        hit = [g for g in groups if g[1] & set(names)]
        new = ({i}, set(names))
        for g in hit:
            new = (new[0] | g[0], new[1] | g[1])
            groups.remove(g)
        groups.append(new)
    return {i: n for n, g in enumerate(groups) for i in g[0]}


class Scenarios:
    def __init__(self, ctx, fn):
        self.ctx, self.fn, self.r = ctx, fn, ctx.roles
        r = self.r
        self.C, self.D = (('G', 'cmd'),), (('G', 'data'),)
        self.S = self.D + tuple(f['n'] for f in r.p.cls(r.PD)['fields'] if f['t'] == 'argos::ParserSettings')
        self.cid = [f['n'] for f in r.p.cls(r.CD)['fields'] if f['t'] == 'argos::ArgumentId'][0]
        self.index = [f['n'] for f in r.p.cls(r.CD)['fields'] if 'std::pair<std::basic_string_view' in f['t'] and 'vector' in f['t']][0]

    def run(self, top, style='STANDARD', help=False):
        exact = {}
        for k, v in (('case_insensitive', FALSE), ('generate_help_option', boolean(help)), ('option_style', ('e', 'argos::OptionStyle', style))):
            exact[self.S + (k,)] = v
        rule = Prepare(self.ctx, top, self.C, exact=exact)
        args = [('ref', ('p', self.C)), ('ref', ('p', self.D)), ('val', ('c', 0)), ('val', ('c', 0))]
        return rule, self.ctx.run(self.fn, rule, args=args[:len(self.fn['params'])], setup=rule.setup)

    def rejects(self, top, what, style='STANDARD'):
        rule, outs = self.run(top, style)
        for o in outs:
            self.ctx.check(o.kind == 'throw', 'invalid definition', '%s: %s' % (what, top),
                           'preparing %s succeeds, though %s' % (top, what), where(o, self.fn), o.st.path())
        return len(outs)

    def accepts(self, top, help=False):
        r, ctx = self.r, self.ctx
        rule, outs = self.run(top, help=help)
        for o in outs:
            st, loc, path = o.st, where(o, self.fn), o.st.path()
            key = '%s%s' % (top, ', with help' if help else '')
            if not ctx.check(o.kind == 'ret', 'valid definition', key, 'preparing %s fails' % top, loc, path):
                continue

            def at(pl, f):
                return st.store.get(pl + (f,), rule.store.get(pl + (f,), ('init', pl + (f,))))
            above = {}
            for c in commands(top):
                P = rule.where[c]
                L = P + (r.cd['options'],)
                n = st.store.get(L + ('#n',), ('c', -1))[1]
                opts = [(x, rule.where[x]) for x in c.opts]
                made = [('p', self.made(st, L, i)) for i in range(len(opts), n)]
                ctx.check(len(made) == int(help), 'generated options', '%s in %s' % (c.name, key),
                          '%d options are added to %s' % (len(made), c.name), loc, path)
                # numbers
                ids = [('command ' + c.name, at(P, self.cid))]
                ents = [(str(a), rule.where[a], [a.name] + [a.alias] * bool(a.alias), True) for a in c.args]
                ents += [(str(x), e, x.flags + [x.alias] * bool(x.alias), x.oper != 'NONE') for x, e in opts]
                for q in made:
                    fl = self.flags(st, q[1])
                    ents.append(('the generated option', q[1], fl or ['?'], True))
                for nm, e, names, val in ents:
                    ids.append((nm, at(e, r.od['argument_id'])))
                here = above.get(c, {'arg': [], 'val': []})
                seen = dict((v, k) for k, v in here['arg'])
                for nm, v in ids:
                    ctx.check(v[0] == 'c' and v[1] > 0 and v not in seen, 'argument ids', '%s of %s in %s' % (nm, c.name, key),
                              '%s has the id %s%s' % (nm, show(v), ' of ' + seen[v] if v in seen else ''), loc, path)
                    seen[v] = nm
                vs = [(nm, at(e, r.od['value_id']), names) for nm, e, names, val in ents if val]
                comp = components([x[2] for x in vs])
                for i, (nm, v, names) in enumerate(vs):
                    ctx.check(v[0] == 'c' and v[1] > 0 and v not in [w for _, w in here['val']], 'value ids', '%s of %s in %s' % (nm, c.name, key),
                              '%s has the value id %s%s' % (nm, show(v), ' of a command above it' if v[0] == 'c' and v[1] > 0 else ''), loc, path)
                    for j in range(i):
                        ctx.check((vs[j][1] == v) == (comp[i] == comp[j]), 'shared value ids', '%s and %s of %s in %s' % (vs[j][0], nm, c.name, key),
                                  '%s and %s %s their value' % (vs[j][0], nm, 'share' if vs[j][1] == v else 'do not share'), loc, path)
                # the index
                I = P + (self.index,)
                got = []
                for i in range(st.store.get(I + ('#n',), ('c', 0))[1]):
                    e = st.store.get(I + ('[%d]' % i,))
                    got.append(e[1] if e and e[0] == 'tup' else (st.store.get(I + ('[%d]' % i, 0)), st.store.get(I + ('[%d]' % i, 1))))
                want = [(('s', f), rule.store[L + ('[%d]' % i,)]) for i, (x, e) in enumerate(opts) for f in x.flags]
                for q in made:
                    want += [(('s', f), q) for f in self.flags(st, q[1])]
                ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), 'index', '%s in %s' % (c.name, key),
                          'the index of %s has %s' % (c.name, ', '.join(show(g[0]) if g[0] else '?' for g in got) or 'nothing'), loc, path)
                ctx.check(any(e == ('sorted', I) or e[0] == 'sorted' for e in st.ts or ()), 'index', 'sorted: %s in %s' % (c.name, key),
                          'the index of %s is not sorted' % c.name, loc, path)
                q = at(P, r.cd['require'])
                w = boolean(bool(c.cmds)) if c.require is None else boolean(c.require)
                ctx.check(q == ('some', w), 'required subcommand', '%s in %s' % (c.name, key),
                          'whether %s requires a subcommand is %s' % (c.name, show(q)), loc, path)
                for x in c.cmds:
                    above[x] = {'arg': here['arg'] + ids, 'val': here['val'] + [(nm, v) for nm, v, _ in vs]}
        return len(outs)

    def made(self, st, L, i):
        v = st.store.get(L + ('[%d]' % i,), E.TOP)
        for _ in range(4):
            if v[0] == 'p' and v[1] in st.store and st.store[v[1]][0] == 'p':
                v = st.store[v[1]]
        return v[1] if v[0] == 'p' else (('O', v),)

    def flags(self, st, e):
        F = e + (self.r.od['flags'],)
        n = st.store.get(F + ('#n',))
        v = st.store.get(F)
        if n:
            return [st.store.get(F + ('[%d]' % i,), ('s', '?'))[1] for i in range(n[1])]
        return [x[1] for x in v[1]] if v and v[0] == 'ilist' else []


def preparation(ctx):
    r, p = ctx.roles, ctx.p
    fns = [f for f in p.fns.values() if [q['t'] for q in f['params']][:2] == [r.CD + ' &', 'const %s &' % r.PD] and f.get('blocks') and
           f['rt'] == 'void' and not f.get('cls')]
    if len(fns) != 1:
        raise AnalysisBroken('cannot identify the preparation of a command')
    s = Scenarios(ctx, fns[0])
    n = 0
    bad = [('one of its options appends nothing', Opt(['-x'], 'APPEND', arg='')), ('one of its options has both argument and constant',
           Opt(['-x'], const='C')), ('one of its flags is invalid', Opt(['xyz'])), ('the second flag of an option is invalid', Opt(['-x', '-yz']))]
    # something is wrong at one place of a tree
    for what, o in bad:
        for k in range(8):
            spot = [[Opt(['-%d' % i])] for i in range(8)]
            spot[k] = [o]
            d = Cmd('d', spot[0] + spot[1])
            c = Cmd('c', spot[2] + spot[3], cmds=[d])
            c1 = Cmd('e', spot[4] + spot[5])
            n += s.rejects(Cmd('top', spot[6] + spot[7], cmds=[c, c1]), what)
    n += s.rejects(Cmd('top', [Opt(['-a'])]), 'its flags are of another style', 'SLASH')
    n += s.rejects(Cmd('top', [Opt(['/a'])]), 'its flags are of another style')
    n += s.rejects(Cmd('top', require=True), 'a subcommand is required but there is none')
    n += s.rejects(Cmd('top', cmds=[Cmd('c'), Cmd('d', require=True)]), 'a subcommand is required but there is none')
    n += s.rejects(Cmd('top', cmds=[Cmd('c', cmds=[Cmd('d', require=True)])]), 'a subcommand is required but there is none')
    # numbers and index of a tree
    for help in (False, True):
        n += s.accepts(Cmd('top'), help)
        n += s.accepts(Cmd('top', [Opt(['-a', '--aa']), Opt(['-b'])], [Arg('m'), Arg('n')]), help)
        for req in (None, False, True):
            n += s.accepts(Cmd('top', [Opt(['-a', '--aa']), Opt(['-b'], 'APPEND')], [], [
                Cmd('c', [Opt(['-a']), Opt(['-b'], 'NONE')], [], [Cmd('f', [Opt(['-c'])], [Arg('a')])], require=req),
                Cmd('d', [Opt(['-d', '--dd'], 'CLEAR')], [Arg('n')])], require=req), help)
    # what shares values
    pool = [Arg('n'), Arg('n'), Arg('x'), Arg('m', 'n'), Arg('k', '-a'), Opt(['-a']), Opt(['-b', '--bb']), Opt(['-c'], alias='-a'),
            Opt(['-d', '--dd'], alias='x'), Opt(['-e'], alias='-b'), Opt(['-f'], alias='--bb'), Opt(['-g', '-h'], alias='-f'),
            Opt(['-i'], 'APPEND', alias='n'), Opt(['-j'], 'NONE', arg='')]
    size = (2, 3, 4) if ctx.tier == 'thorough' else (2, 3)
    from itertools import permutations, combinations
    for k in size:
        for items in permutations(pool, k) if k < 4 else combinations(pool, k):
            if ctx.tier != 'thorough' and k == 3 and (sum(isinstance(x, Arg) for x in items) > 1 or pool.index(items[0]) % 2):
                continue
            args, opts = [x for x in items if isinstance(x, Arg)], [x for x in items if isinstance(x, Opt)]
            if list(items) != args + opts:
                continue
            n += s.accepts(Cmd('top', opts, args))
    for x in 'mz', 'zm':
        a, b = [Arg(x[0], '-a'), Arg(x[1], '-b')], [Opt(['-a'], alias=x[1]), Opt(['-b', '--bb']), Opt(['-c'], alias='--bb'), Opt(['-d'])]
        n += s.accepts(Cmd('top', b, a)) + s.accepts(Cmd('top', b[::-1], a)) + s.accepts(Cmd('top', b, a[::-1]))
        n += s.accepts(Cmd('top', [Opt(['-b'], alias=x[1]), Opt(['-c'], alias=x[1]), Opt(['-d'], alias='-c'), Opt(['-e'], alias=x[0]),
                                   Opt(['-f', '--' + x[0]], alias='-e')], [Arg(x[0], x[1])]))
    ctx.floor('scenarios of preparation', n, 100)
    ctx.sample('%d outcomes of preparing a command' % n)


def check(ctx):
    validation(ctx)
    preparation(ctx)
