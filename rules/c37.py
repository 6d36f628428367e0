"""C37: usage, lists and error messages show every definition as it was defined."""
import itertools
import engine as E
from engine import TRUE, FALSE, TOP
from facts import AnalysisBroken
from consttext import ConstText
from helptext import Scenario, Item, Help, functions, flat, F
import helptext
from c04 import where

RULE = """
For every enumerated command the generated usage and the lists are, blanks apart, exactly the documented ones.  Usage: a line with the full
name of the command and one option for each visible option that ends the parse (HELP, STOP, EXIT), by its first flag longer than two
characters, else by its first; then the full name, every other visible option by its first flag, in brackets iff it is
optional; every visible argument; the visible subcommands separated by | and in brackets iff none is required.  An option is shown with its
argument name, in angle brackets (added unless it has them) after a blank, or directly after a flag that ends in =.  An argument that
must be given n times is shown n times, followed by one in square brackets if it may be given once more, or such a one and ... if it may be given more often
than that; a name that begins with < or [ is shown as it is.  Lists: every argument like that, every option with all its flags and their
argument name, in the order in which they were added, each with its own help text.  An error about a definition begins with
the name of the argument, or all flags of the option, that has its id, and nothing if there is none.
"""
EXPLAIN = """
Constant propagation over enumerated commands: names, flags, counts and help texts are distinct constants, formatter calls
are events, string functions on constants are evaluated; the text is compared with the one written down here.
"""
ASSUME = ["commands with more items of a kind than enumerated behave alike (one loop treats all)",
          "the formatter only changes blanks and line ends of what it is given (the wrapping of lines is not decided)"]

MANY = (1 << 32) - 1


class Arg(Item):
    def __init__(self, name='ARG', lo=1, hi=1, **k):
        Item.__init__(self, **k)
        self.name, self.lo, self.hi = name, lo, hi

    def text(self):
        if self.name[0] in '<[':
            return self.name
        x = '<%s>' % self.name
        ws = [x] * self.lo
        if self.hi == self.lo + 1:
            ws.append('[%s]' % x)
        elif self.hi > self.lo:
            ws.append('[%s]...' % x)
        return ' '.join(ws)

    def key(self):
        return '%s %s-%s' % (self.name, self.lo, 'n' if self.hi == MANY else self.hi)


class Opt(Item):
    def __init__(self, flags=('-a',), arg='', optional=True, **k):
        Item.__init__(self, **k)
        self.flags, self.arg, self.optional = flags, arg, optional

    def one(self, f):
        if not self.arg:
            return f
        return f + ('' if f[-1] == '=' else ' ') + (self.arg if self.arg[0] == '<' else '<%s>' % self.arg)

    def stops(self):
        return self.type in ('HELP', 'STOP', 'EXIT')

    def brief(self):
        if self.stops():
            return self.one(next((f for f in self.flags if len(f) > 2), self.flags[0]))
        return ('[%s]' if self.optional else '%s') % self.one(self.flags[0])

    def text(self):
        return ', '.join(map(self.one, self.flags))

    def key(self):
        return '%s%s %s%s' % (self.text(), '' if self.optional else ' mandatory', self.type, '')


class Cmd(Item):
    def __init__(self, name='cmd', **k):
        Item.__init__(self, **k)
        self.name = name

    def text(self):
        return self.name

    key = text


class Detail(Help, ConstText):
    track_text = True
    maps = False

    def __init__(self, roles, cmd, sc):
        Help.__init__(self, roles, cmd, sc)
        r = roles
        lo, hi = counts(r)
        for e, (tag, x) in self.el.items():
            if isinstance(x, Arg):
                self.vals.update({e + (r.ad['name'],): ('s', x.name), e + (lo,): ('c', x.lo), e + (hi,): ('c', x.hi)})
            elif isinstance(x, Opt):
                self.n[e + (r.od['flags'],)] = len(x.flags)
                for i, f in enumerate(x.flags):
                    self.vals[e + (r.od['flags'], '[%d]' % i)] = ('s', f)
                self.vals[e + (r.od['argument'],)] = ('s', x.arg)
                self.vals[e + (r.od['optional'],)] = TRUE if x.optional else FALSE
            elif isinstance(x, Cmd):
                self.vals[e + (r.cd['name'],)] = ('s', x.name)
                self.vals[e + (self.full,)] = ('s', 'FULLNAME ' + x.name)

    def on_call(self, eng, st, fr, nid, node, c):
        ref = c.ref
        pt = ref.get('pt') or []
        if c.cls == F and c.n not in ('write_words', 'write_lines', 'newline') and not ref.get('ctor'):
            if 'push' in c.n or 'pop' in c.n:
                st.ts = (st.ts or ()) + (('blank', None),)
        if ref.get('repo') and not ref.get('cls') and str(ref.get('t')).startswith('std::basic_string<char>') and \
                not any('variant<' in t for t in pt):
            return None
        x = Help.on_call(self, eng, st, fr, nid, node, c)
        return x if x is not None else ConstText.on_call(self, eng, st, fr, nid, node, c)


def counts(r):
    fs = [f['n'] for f in r.p.cls(r.AD)['fields'] if f['t'].startswith('unsigned')]
    lo, hi = [n for n in fs if 'min' in n], [n for n in fs if 'max' in n]
    if len(lo) != 1 or len(hi) != 1:
        raise AnalysisBroken('cannot identify the counts of an argument')
    return lo[0], hi[0]


def text(ts):
    """what is written, every run of blanks and line ends as one blank"""
    out = []
    for n, v in ts or ():
        if n in ('newline', 'blank'):
            out.append(' ')
        else:
            s = flat(v)
            out.append('\0' if s is None else s)
    return ' '.join(''.join(out).split())


def wanted(sc, lists=True):
    use = []
    for o in sc.opts:
        if o.stops() and o.vis in ('USAGE', 'NORMAL'):
            use += ['FULLNAME', o.brief()]
    use.append('FULLNAME')
    use += [o.brief() for o in sc.opts if not o.stops() and o.vis in ('USAGE', 'NORMAL')]
    use += [a.text() for a in sc.args if a.vis in ('USAGE', 'NORMAL')]
    names = [c.name for c in sc.cmds if c.vis in ('USAGE', 'NORMAL')]
    if sc.cmds:
        use.append(('%s' if sc.require else '[%s]') % '|'.join(names))
    out = ['USAGE'] + use
    if lists:
        secs = {}
        for items, tag, title in ((sc.args, 'arg', 'ARGUMENTS'), (sc.cmds, 'cmd', 'COMMANDS'), (sc.opts, 'opt', 'OPTIONS')):
            for i, x in enumerate(items):
                if x.vis in ('TEXT', 'NORMAL'):
                    secs.setdefault(x.section or title, []).extend([x.text()] + (['<help of %s%d>' % (tag, i)] if x.help else []))
        for s, xs in secs.items():
            out += [s] + xs
    return ' '.join(' '.join(out).split())


def scenarios(thorough, types):
    for name in ('ARG', '<ARG>', '[ARG]'):
        for lo, hi in ((1, 1), (0, 1), (0, 2), (0, MANY), (1, 2), (1, 3), (1, MANY), (2, 2), (2, 3), (2, 5), (3, 3), (3, MANY)):
            yield Scenario({}, [Arg(name, lo, hi)])
    yield Scenario({}, [Arg('A'), Arg('B', 0, 1), Arg('C', 2, MANY)])
    yield Scenario({}, [Arg('A', help=False), Arg('B', 2, 3, section='S')], [Opt(section='S'), Opt(('-b', '--bee'), 'B')])
    flags = (('-a',), ('-a', '--all'), ('--all', '-a'), ('--all',), ('--all=',), ('-a', '--all='), ('-a', '-b', '--all', '--bell'), ('/?', '/ab'))
    for fs in flags:
        for arg in ('', 'N', '<N>', '<N>:<M>'):
            for opt in (True, False):
                for t in types if thorough or fs in flags[:2] + flags[4:6] else ('NORMAL', 'HELP'):
                    yield Scenario({}, opts=[Opt(fs, arg, opt, type=t)])
    for t1, t2 in itertools.product(types, repeat=2):
        yield Scenario({}, opts=[Opt(('-a', '--all'), 'N', type=t1), Opt(('-b', '--ball='), 'M', False, type=t2)])
    for req in (None, True, False):
        yield Scenario({}, cmds=[Cmd('one')], require=req)
        yield Scenario({}, cmds=[Cmd('one'), Cmd('two')], require=req)
        yield Scenario({}, cmds=[Cmd('one'), Cmd('two', help=False), Cmd('three')], require=req)
        yield Scenario({}, opts=[Opt(('-a', '--all'), type='HELP'), Opt(('-n', '--num'), 'N')], cmds=[Cmd('one'), Cmd('two')], require=req)
        yield Scenario({}, cmds=[Cmd('one', vis='HIDDEN'), Cmd('two')], require=req)
        yield Scenario({}, cmds=[Cmd('one'), Cmd('two', vis='TEXT'), Cmd('three', vis='USAGE')], require=req)
    for w in (0, 20):
        yield Scenario({}, [Arg('A'), Arg('B', 0, MANY, help=False)], [Opt(('-a', '--all')), Opt(('-n', '--num'), 'N', False)], width=w)
    for va, vb in itertools.product(('NORMAL', 'USAGE', 'TEXT', 'HIDDEN'), repeat=2):
        yield Scenario({}, [Arg('A', vis=va), Arg('B', 0, 1, vis=vb)], [Opt(('-a', '--all'), vis=vb), Opt(('-b',), 'N', False, vis=va)])


def key(sc):
    return '; '.join(', '.join(x.key() + ('' if x.vis == 'NORMAL' else ' ' + x.vis) for x in xs)
                     for xs in (sc.args, sc.opts, sc.cmds) if xs) + ('' if sc.require is None else ' require=%s' % sc.require) + \
        (' width=%d' % sc.width if sc.width != 20 else '')


def run(ctx, fn, sc, more=None):
    old = helptext.Help
    helptext.Help = Detail
    try:
        return helptext.run(ctx, fn, sc, more)
    finally:
        helptext.Help = old


def judge(ctx, fn, sc, want, what, more=None, k=None):
    rule, outs = run(ctx, fn, sc, more)
    if not outs:
        raise AnalysisBroken('%s of %s has no outcome' % (what, k or key(sc)))
    for o in outs:
        got = text(o.st.ts)
        ctx.check(got == want and o.kind == 'ret', what, k or key(sc), 'it is "%s" instead of "%s"' % (
            got.replace('\0', '?'), want), where(o, fn), o.st.path())


def check(ctx):
    r = ctx.roles
    h, e = functions(ctx)
    types = [n for n, _ in ctx.p.enum('argos::OptionType')]
    n = 0
    for sc in scenarios(ctx.tier == 'thorough', types):
        n += 1
        judge(ctx, h, sc, wanted(sc), 'help text')
    ctx.floor('commands', n, 150)
    # ---- errors about a definition ----
    fs = [f for f in ctx.p.fns.values() if f.get('blocks') and [a['t'] for a in f['params']][:2] == ['const %s &' % r.PD, 'const %s &' % r.CD] and
          len(f['params']) == 4 and 'basic_string' in f['params'][2]['t'] and 'ArgumentId' in f['params'][3]['t']]
    if len(fs) != 1:
        raise AnalysisBroken('cannot identify the function that writes errors about definitions')
    f = fs[0]
    items = ([Arg('<A>'), Arg('B', 0, 2)], [Opt(('-a', '--all'), 'N'), Opt(('--num=', '-n', '/num'), 'M')])
    named = ['<A>', 'B', '-a, --all', '--num=, -n, /num', None]
    for i, name in enumerate(named):
        sc = Scenario({'ERROR_USAGE': 'empty'}, *items)

        def more(rule, i=i):
            rule.vals[(('arg', f['params'][2]['n']),)] = ('s', 'MESSAGE')
            rule.vals[(('arg', f['params'][3]['n']),)] = ('c', 11 + i)
            k = 0
            for el, (tag, x) in rule.el.items():
                rule.vals[el + ((r.ad if tag.startswith('arg') else r.od)['argument_id'],)] = ('c', 11 + k)
                k += 1
        judge(ctx, f, sc, ' '.join(x for x in ('FULLNAME:', name and name + ':', 'MESSAGE') if x), 'error message', more,
              'error about ' + (name or 'no definition'))
    ctx.sample('%d commands with different names, flags, counts and kinds, e.g. %s' % (
        n, key(Scenario({}, [Arg('A', 1, MANY)], [Opt(('-n', '--num='), 'N', False)]))))
