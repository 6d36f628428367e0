"""C21: the look-ahead counts the arguments that processing will see."""
from itertools import product
from activate import *
from engine import show
from c04 import where

RULE = """
(a) The look-ahead, run over any sequence of tokens in a state of the parser, counts those that will be taken as arguments of the
current command: an unknown option counts nothing; a known one counts nothing and takes the following token with it if it takes a
value; an option that asks for help, ends the arguments, stops or exits ends the count; after the last option, and in a state in which
only arguments are read, what looks like an option is an argument; the name of a subcommand ends the count; so does the name of a
sibling below a parent that allows several, once the arguments read before and counted so far are as many as the command needs.
(b) It reads from a copy of the cursor, values of options and tokens among which options are not looked for as values, and looks options, subcommands and siblings up as processing does. (c) It is started with no
arguments read when a command starts, and with the number read so far after arguments are inserted; the sum of both is what the
arguments are spread over.
"""
EXPLAIN = """
path-sensitive interpretation of the look-ahead over every sequence of token classes up to a bound, against a reference count; event
paths of the places that start it
"""
ASSUME = ["sequences longer than the bound (3, thorough: 4) add no behaviour: the loops carry only the count and the kind of reading"]

UNK, ARGT, SUB, SIB = 'unknown option', 'argument', 'subcommand', 'sibling'
SIZE = ('unsigned long', 'size_t', 'std::size_t')
ENDS = ('HELP', 'LAST_ARGUMENT', 'STOP', 'EXIT')


def lookahead(r):
    fs = [f for f in r.p.fns.values() if f.get('cls') == r.AI and f.get('const') and f.get('blocks') and f['rt'] in SIZE and
          all(q['t'] in SIZE for q in f['params'])]
    fs = [f for f in fs if not f.get('access') or True]
    called = {}
    for g in r.p.fns.values():
        for n in (g.get('nodes') or {}).values():
            ref = n.get('fn') or {}
            if ref.get('cls') == r.AI:
                called.setdefault((ref.get('n'), len(ref.get('pt') or ())), set()).add(g['n'])
    names = {f['n'] for f in fs}
    out = [f for f in fs if called.get((f['n'], len(f['params'])), set()) - names]
    if len(out) != 1:
        raise AnalysisBroken('cannot identify the look-ahead count: %s' % sorted(names))
    return out[0]


class Look(Active):
    def __init__(self, roles, seq, multi, least):
        Active.__init__(self, roles, len(multi), multi)
        r = roles
        self.seq, self.least = seq, least
        for i, c in enumerate(seq):
            if isinstance(c, tuple):
                o = ('G', 'OPT%d' % i)
                self.pins[(o, r.od['type'])] = r.otype(c[0])
                self.pins[(o, r.od['operation'])] = r.oper(c[1])
                self.pins[(o, r.od['constant'])] = ('s', c[2])
        self.keepn |= {r.od['type'], r.od['operation'], r.od['constant']}
        self.bad = []

    def tok(self, v):
        for i in range(len(self.seq)):
            if E.contains(v, ('f', 'tok', i)):
                return i
        return None

    def fail(self, st, rule, msg):
        self.put(st, 'bad', self.get(st, 'bad', ()) + ((rule, msg),))

    def on_call(self, eng, st, fr, nid, node, c):
        r = self.r
        ref = c.ref
        rt = ref.get('t', '')
        if c.cls == r.ITER and node.get('obj') and not ref.get('ctor') and c.n != 'operator=':
            if c.objplace() == self.ITERP and not ref.get('const'):
                self.fail(st, 'own cursor', 'the look-ahead moves the cursor of the parser')
            if c.n in ('next', 'next_value'):
                at = self.get(st, 'at', 0)
                if at >= len(self.seq):
                    return ('val', NONE)
                self.put(st, 'at', at + 1)
                self.put(st, 'how', self.get(st, 'how', ()) + (c.n,))
                return ('val', ('some', ('f', 'tok', at)))
            return ('val', TOP)
        if rt == 'bool' and any('OptionStyle' in x for x in ref.get('pt') or ()):
            i = next((j for j in (self.tok(v) for v in c.rvs()) if j is not None), None)
            if i is None:
                self.fail(st, 'look-ups', 'something else than the token is tested for being an option')
                return None
            if not any(v == ('init', self.DATA + tuple(r.setting('option_style'))) for v in c.rvs()):
                self.fail(st, 'look-ups', 'the token is not tested with the option style of the parser')
            k = self.seq[i]
            return ('val', TRUE if k == UNK or isinstance(k, tuple) else FALSE)
        if c.cls == r.CD and rt in ('const %s *' % r.OD, 'const %s *' % r.CD) and fr.fn.get('cls') != r.CD:
            i = self.tok(c.rv(0))
            if i is None:
                self.fail(st, 'look-ups', 'something else than the token is looked up')
                return None
            want = ['case_insensitive'] if rt == 'const %s *' % r.CD else ['allow_abbreviated_options', 'case_insensitive']
            if list(c.rvs())[1:] != [('init', self.DATA + tuple(r.setting(s))) for s in want]:
                self.fail(st, 'look-ups', 'a token is not looked up with the settings of the parser')
            k = self.seq[i]
            if rt == 'const %s *' % r.OD:
                if c.objplace() not in (self.CUR, self.RC[-1]):
                    self.fail(st, 'look-ups', 'an option is not looked up in the current command')
                return ('val', ('p', (('G', 'OPT%d' % i),)) if isinstance(k, tuple) else NULL)
            hit = k == SUB and c.objplace() in (self.CUR, self.RC[-1]) or k == SIB and self.parent() is not None and \
                c.objplace() == self.RC[self.parent()]
            return ('val', ('p', CMD) if hit else NULL)
        if c.cls == r.COUNTER and ref.get('static') and rt != 'bool' and 'pair' in rt:
            if objref(st, c.raw(0)) not in (('p', self.CUR), ('p', self.RC[-1])):
                self.fail(st, 'look-ups', 'the needed arguments are not those of the current command')
            return ('val', ('tup', (('c', self.least), ('c', 99))))
        if ref.get('const') and ref.get('cls') == r.AI and rt in SIZE:
            return None
        return Active.on_call(self, eng, st, fr, nid, node, c)

    def parent(self):
        k = [i for i in range(self.n - 1) if self.pins.get(self.RC[i] + (self.r.cd['multi'],)) == TRUE]
        return k[-1] if k else None


def reference(seq, only, read, least, parent):
    n = i = 0
    how = []
    while i < len(seq):
        k = seq[i]
        how.append('next_value' if only else 'next')
        i += 1
        if not only and k == UNK:
            continue
        if not only and isinstance(k, tuple):
            if k[1] in ('ASSIGN', 'APPEND') and not k[2]:
                i += 1
                how.append('next_value')
            if k[0] in ENDS:
                return n, how
            only = k[0] == 'LAST_OPTION'
            continue
        if k == SUB or k == SIB and parent is not None and read + n >= least:
            return n, how
        n += 1
    return n, how


def check(ctx):
    r = ctx.roles
    fn = lookahead(r)
    opts = [('NORMAL', 'ASSIGN', ''), ('NORMAL', 'CLEAR', ''), ('LAST_OPTION', 'NONE', '')]
    more = [('NORMAL', 'ASSIGN', '1'), ('NORMAL', 'APPEND', ''), ('NORMAL', 'APPEND', 'x'), ('NORMAL', 'NONE', ''),
            ('LAST_OPTION', 'ASSIGN', '')] + [(t, 'NONE', '') for t in ENDS] + [(t, 'APPEND', '') for t in ENDS]
    names = [n for n, _ in r.p.enum('argos::OptionType')]
    for t in names:
        if t not in ENDS and t not in ('NORMAL', 'LAST_OPTION'):
            raise AnalysisBroken('option type %s is not known to the rule' % t)
    base = [ARGT, UNK, SUB, SIB] + opts
    seqs = [()] + [(a,) for a in base + more] + [(a, b) for a in base + more for b in (ARGT, SUB, SIB, opts[0])] + \
        [(ARGT, b) for b in base + more] + list(product(base, repeat=3 if ctx.tier != 'thorough' else 4)) + \
        [(a, b, c) for a in more for b in (ARGT, opts[0]) for c in (ARGT, SIB, UNK)]
    seqs = list(dict.fromkeys(seqs))
    n = 0
    for seq in seqs:
        for multi in ((True, False), (False, False), (True, False, False))[:3 if len(seq) < 3 and SIB in seq else 2 if SIB in seq else 1]:
            for only in (False, True):
                for read, least in ((0, 0), (0, 1), (1, 1), (1, 2), (0, 2)) if SIB in seq else ((0, 0),):
                    if read and not fn['params']:
                        continue
                    rule = Look(r, seq, multi, least)
                    rule.pins[(r.ai['state'],)] = r.S['ARGUMENTS_ONLY' if only else 'ARGUMENTS_AND_OPTIONS']
                    want, how = reference(seq, only, read, least, rule.parent())
                    args = [('val', ('c', read)) for q in fn['params']]
                    text = '%s%s, %d of %d read' % ('only arguments: ' if only else '', ', '.join(
                        x if isinstance(x, str) else '%s option (%s%s)' % (x[0], x[1], ' constant' if x[2] else '') for x in seq) or
                        'nothing', read, least)
                    if seq and SIB in seq:
                        text += ', sibling parent' if rule.parent() is not None else ', no sibling parent'
                    for o in ctx.run(fn, rule, args=args):
                        n += 1
                        ctx.check(o.kind == 'ret' and o.val == ('c', want), 'count', text,
                                  'of "%s" the look-ahead counts %s arguments instead of %d' % (
                                      text, show(o.val) if o.kind == 'ret' else o.kind, want), where(o, fn), o.st.path())
                        ctx.check(list(rule.get(o.st, 'how', ())) == how[:len(rule.get(o.st, 'how', ()))], 'reading', text,
                                  'of "%s" the look-ahead reads the tokens by %s instead of %s' % (
                                      text, ', '.join(rule.get(o.st, 'how', ())), ', '.join(how)), where(o, fn), o.st.path())
                        for k, m in rule.get(o.st, 'bad', ()):
                            ctx.check(False, k, m, m, where(o, fn), o.st.path())
                    ctx.sample('%s: %d' % (text, want))
    ctx.floor('paths through the look-ahead', n, 300)
    starts(ctx, fn)


class Starts(Active):
    def on_call(self, eng, st, fr, nid, node, c):
        if c.cls == self.r.COUNTER and node.get('obj') and not c.ref.get('ctor') and c.n != 'operator=' and \
                c.ref.get('t') in SIZE:
            return ('val', ('f', 'given'))
        return Active.on_call(self, eng, st, fr, nid, node, c)


def starts(ctx, look):
    """the arguments of the look-ahead, and what becomes of its result"""
    r = ctx.roles
    fresh = cont = 0
    none = ((), (FALSE,), (('c', 0),))
    for need in (True, False):
        for kind in ('command', 'argument'):
            rule = Starts(r, 2, (False, False), hooks=dict(auto_exit=False, option=False, token=True, reqcount=need, sibling=False,
                                                          command=kind == 'command', argument=True),
                          pins={(r.ai['state'],): r.S['ARGUMENTS_ONLY']})
            fn = rule.entry()
            for o in ctx.run(fn, rule):
                if o.kind != 'ret' or outcome_code(o) != kind.upper():
                    continue
                log, loc, path = rule.log(o), where(o, fn), o.st.path()
                rec = [e[1] for e in log if e[0] == 'recount']
                cnt = [e[1] for e in log if e[0] == 'counter']
                if not rec:
                    continue
                for a, c in zip(rec, cnt):
                    vals = c[2:] if c[:2] == ('f', 'counter') else ()
                    if kind == 'command':
                        fresh += 1
                        ctx.check(a in none, 'start of a command', 'count', 'the look-ahead at the start of a command counts from %s' %
                                  ', '.join(show(x) for x in a), loc, path)
                        ok = len(vals) >= 2 and vals[1] == ('f', 'recount') and vals[2:] in none
                        ctx.check(ok, 'start of a command', 'spread', 'the arguments of a new command are spread over %s' % (
                            show(c)), loc, path)
                    else:
                        cont += 1
                        ctx.check(not look['params'] or a == (('f', 'given'),), 'after an insertion', 'count',
                                  'the look-ahead after an insertion counts from %s, not from the number of arguments read' %
                                  (', '.join(show(x) for x in a) or 'none'), loc, path)
                        ok = len(vals) == 3 and total(vals[1]) and vals[2] == ('f', 'given')
                        ctx.check(ok, 'after an insertion', 'spread', 'after an insertion the arguments are spread over %s' % (
                            show(c)), loc, path)
    ctx.floor('starts of commands', fresh, 1)
    ctx.floor('insertions', cont, 1)


def total(v):
    return sorted(map(repr, linear_terms(v))) == sorted(map(repr, [('f', 'given'), ('f', 'recount')]))


def linear_terms(v):
    if v[0] == 'op' and v[1] == '+':
        return linear_terms(v[2]) + linear_terms(v[3])
    if v[0] == 'sum':
        return [x for x in v[1:]]
    return [v]
