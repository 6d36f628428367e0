"""Help and error text of one concrete command: every custom text, title, argument, option and subcommand of a scenario is a
distinct marker, and the text written is the sequence of markers that reaches the formatter."""
import engine as E
from engine import TRUE, FALSE, NULL, TOP
from effects import Effects
from facts import AnalysisBroken

F = 'argos::TextFormatter'
TEXTS = ('INITIAL_TEXT', 'USAGE_TITLE', 'USAGE', 'ABOUT', 'SUBCOMMANDS_TITLE', 'ARGUMENTS_TITLE', 'OPTIONS_TITLE', 'FINAL_TEXT',
         'ERROR_USAGE', 'HELP')


class Item:
    def __init__(self, vis='NORMAL', section='', type='NORMAL', help=True):
        self.vis, self.section, self.type, self.help = vis, section, type, help


class Scenario:
    """texts: {id: 'set' | 'empty'}; the others are absent"""
    def __init__(self, texts=None, args=(), opts=(), cmds=(), width=20, require=None):
        self.texts, self.args, self.opts, self.cmds, self.width, self.require = texts or {}, args, opts, cmds, width, require

    def key(self):
        def it(x):
            return '%s%s%s' % (x.vis, '/' + x.section if x.section else '', '/' + x.type if x.type != 'NORMAL' else '')
        return '; '.join(x for x in (
            ', '.join('%s %s' % (k, v) for k, v in sorted(self.texts.items())) or 'no texts',
            self.args and 'arguments ' + ' '.join(map(it, self.args)),
            self.opts and 'options ' + ' '.join(map(it, self.opts)),
            self.cmds and 'commands ' + ' '.join(map(it, self.cmds))) if x)


class Help(Effects):
    """ts: tuple of (formatter function, value)"""
    grow = True
    track_loops = False

    def __init__(self, roles, cmd, sc):
        Effects.__init__(self)
        self.r, self.cmd, self.sc = roles, cmd, sc
        r, p = roles, roles.p
        self.full = [f['n'] for f in p.cls(r.CD)['fields'] if f['t'].startswith('std::basic_string<char>') and f['n'].startswith('full')]
        if len(self.full) != 1:
            raise AnalysisBroken('cannot identify the full name of a command')
        self.full = self.full[0]
        self.n = {cmd + (r.cd['arguments'],): len(sc.args), cmd + (r.cd['options'],): len(sc.opts),
                  cmd + (r.cd['commands'],): len(sc.cmds)}
        self.vals = {cmd + (r.cd['name'],): ('s', 'NAME'), cmd + (self.full,): ('s', 'FULLNAME')}
        self.vals[cmd + (r.cd['require'],)] = E.NONE if sc.require is None else ('some', TRUE if sc.require else FALSE)
        self.el = {}
        for kind, items, desc in (('arguments', sc.args, r.ad), ('options', sc.opts, r.od), ('commands', sc.cmds, r.cd)):
            for i, x in enumerate(items):
                e = (('O', ('init', cmd + (r.cd[kind], '[%d]' % i))),)
                tag = {'arguments': 'arg', 'options': 'opt', 'commands': 'cmd'}[kind] + str(i)
                self.el[e] = (tag, x)
                self.vals[e + (desc['visibility'],)] = ('e', 'argos::Visibility', x.vis)
                self.vals[e + (desc['section'],)] = ('s', x.section)
                if kind == 'options':
                    self.vals[e + (r.od['type'],)] = r.otype(x.type)
                    self.n[e + (r.od['flags'],)] = 1
                    self.vals[e + (r.od['flags'], '[0]')] = ('s', '<%s>' % tag)
                    self.vals[e + (r.od['argument'],)] = ('s', '')
                    self.vals[e + (r.od['optional'],)] = TRUE
                else:
                    self.vals[e + (desc['name'],)] = ('s', '<%s>' % tag)
                if kind == 'commands':
                    self.vals[e + (self.full,)] = ('s', 'FULLNAME <%s>' % tag)
        self.asked = set()

    def inline(self, eng, fn):
        return True

    def concrete(self, eng, place):
        return self.n.get(place)

    def on_init(self, eng, st, place):
        return self.vals.get(place)

    def on_write(self, *a):
        pass

    on_forall = on_write

    def text_id(self, v):
        return v[2] if v[0] == 'e' and v[1] == 'argos::TextId' else None

    def state(self, root, i):
        """(is it there, its text)"""
        if root == self.cmd:
            s = self.sc.texts.get(i)
            return s is not None, '' if s == 'empty' else '{%s}' % i
        tag, x = self.el[root]
        if i == 'HELP' and x.help is not None:
            return True, '<help of %s>' % tag if x.help else ''
        return False, ''

    def on_call(self, eng, st, fr, nid, node, c):
        r, ref = self.r, c.ref
        pt = ref.get('pt') or []
        P = c.objplace()
        if len(st.ts or ()) > 150:
            return ('stop', 'endless text')
        if P and c.cls == 'std::map' and len(P) > 1 and P[-1] == r.cd['texts'] and (P[:-1] == self.cmd or P[:-1] in self.el):
            i = self.text_id(c.rv(0)) if c.nargs() else None
            if i:
                there, text = self.state(P[:-1], i)
                self.asked.add((P[:-1], i))
                if c.n == 'find':
                    v = ('p', P + (('key', i),))
                    st.facts[('op', '==', v, ('end', P))] = st.facts[('op', '==', ('end', P), v)] = ('=', FALSE)
                    return ('val', v if there else ('end', P))
                if c.n in ('count', 'contains'):
                    return ('val', TRUE if there else FALSE)
                if c.n in ('at', 'operator[]') and there:
                    return ('val', ('p', P + (('key', i), 1)))
                if c.n == 'at':
                    return ('stop', 'throws')
            elif c.n in ('end', 'cend'):
                return ('val', ('end', P))
            return None
        if ref.get('repo') and any('variant<' in t for t in pt) and str(ref.get('t')).startswith('std::basic_string<char>'):
            v = c.raw(0)
            if v[0] == 'p':
                Q = v[1]
                for j, x in enumerate(Q):
                    if isinstance(x, tuple) and x[0] == 'key' and (Q[:j - 1] == self.cmd or Q[:j - 1] in self.el):
                        return ('val', ('s', self.state(Q[:j - 1], x[1])[1]))
                if Q[:1] in self.el:
                    tag, x = self.el[Q[:1]]
                    return ('val', ('s', '<help of %s>' % tag if x.help else ''))
            return ('val', TOP)
        if ref.get('repo') and not ref.get('cls') and str(ref.get('t')).startswith('std::basic_string<char>') and \
                any(t in ('const %s &' % r.OD, 'const %s &' % r.AD) for t in pt):
            for i, t in enumerate(pt):
                if t in ('const %s &' % r.OD, 'const %s &' % r.AD):
                    v = c.raw(i)
                    if v[0] == 'p' and v[1] in self.el:
                        return ('val', ('s', '<%s>' % self.el[v[1]][0]))
            return ('val', TOP)
        if ref.get('repo') and not ref.get('cls') and str(ref.get('t')).startswith('unsigned'):
            return ('val', ('c', self.sc.width))
        if c.cls == F and ref.get('ctor'):
            return ('val', TOP)
        if c.cls == F:
            if node.get('t') == 'bool':
                return ('val', FALSE)
            if str(node.get('t')).startswith('unsigned'):
                return ('val', ('c', 10))
            v = c.rv(0) if c.nargs() else None
            if c.n in ('write_words', 'write_lines'):
                st.ts = (st.ts or ()) + ((c.n, v),)
            elif c.n == 'newline':
                st.ts = (st.ts or ()) + ((c.n, None),)
            return ('val', TOP)
        if c.cls and c.cls.startswith('argos::') and c.cls in ('argos::WordSplitter',):
            return ('val', TOP)
        return None


def words(ts):
    """what is written, blanks and ends of lines left out; a list of strings (None for what is not known)"""
    out = []
    for n, v in ts or ():
        if n == 'newline':
            continue
        s = flat(v)
        if s is None or s.strip():
            out.append(None if s is None else s.strip())
    return out


def flat(v):
    if v[0] == 's':
        return v[1]
    if v[0] == 'c' and isinstance(v[1], int):
        return chr(v[1])
    if v[0] == 'cat':
        xs = [flat(x) for x in v[1]]
        return None if None in xs else ''.join(xs)
    return None


def functions(ctx):
    p, r = ctx.p, ctx.roles
    base = ['const %s &' % r.PD, 'const %s &' % r.CD]
    fs = [f for f in p.fns.values() if [a['t'] for a in f['params']][:2] == base and f.get('blocks')]
    helps = [f for f in fs if len(f['params']) == 2]
    errs = [f for f in fs if len(f['params']) == 3 and 'basic_string' in f['params'][2]['t']]
    if len(helps) != 1 or len(errs) != 1:
        raise AnalysisBroken('cannot identify the functions that write help and error messages')
    return helps[0], errs[0]


def run(ctx, fn, sc, more=None):
    def setup(st):
        d = (('arg', fn['params'][0]['n']),)
        st.facts[('init', d + tuple(ctx.roles.setting('line_width')))] = ('=', FALSE)
        st.facts[('init', d + tuple(ctx.roles.setting('stream')))] = ('=', NULL)
    rule = Help(ctx.roles, (('arg', fn['params'][1]['n']),), sc)
    if more:
        more(rule)
    return rule, list(ctx.run(fn, rule, setup=setup))
