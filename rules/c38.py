"""C38: text is written completely, in order and within the line width."""
from itertools import product
from tokens import *
import engine as E
from engine import show
from facts import AnalysisBroken
from c04 import where

RULE = """
What the text formatter hands to its stream for a text, once it is flushed, is decided for texts of symbolic characters: (a) all
characters that are not white space appear once and in order, between them only spaces, line breaks and the "-" of a broken word;
(b) where the text has white space there is white space, where it has a line break there is one, and no line break is added but where
the next word does not fit into the line; (c) a word is only broken if it does not fit into a line of its own, at the indentation;
(d) no line is longer than the line width, but one that holds a single word for which the indentation leaves at most two columns.  The same holds from call to call: a text that
is written by several calls appears in the order of the calls, and nothing is left behind by flush.  A text that is written as lines
keeps its lines and the spaces in them.
"""
EXPLAIN = """
Path-sensitive interpretation of the formatter, its line writer and its word splitter, from the constructor to the stream: texts of up to
3 characters of which nothing is known, and texts of words of unknown characters with white space of every kind between them, for small
line widths and indentations.  Every path is compared with the rule.
"""
ASSUME = ["every character is one code point", "no rules for splitting words are set; words are broken by the default rule",
          "wider lines and longer texts are treated like those that are enumerated: the code only compares lengths"]

STREAM = (('G', 'stream'),)
WHITE = ' \t\r\n'
ITER = ('find', 'end', 'cend', 'lower_bound')


class Writing(Tokens):
    """ts: ('out', characters)"""

    def on_call(self, eng, st, fr, nid, node, c):
        n = c.n
        q = (c.ref.get('q') or '') + ' ' + (c.cls or '')
        if c.ref.get('repo') is not False and n == 'count_code_points':
            t = self.txt(eng, st, c.rv(0))
            if t is not None:
                return ('val', ('c', len(t)))
        if n == 'find_nth_code_point':
            t = self.txt(eng, st, c.rv(0))
            k = self.num(c.rv(1))
            if t is not None and k is not None:
                return ('val', ('c', k if k < len(t) else NPOS))
        if n in ('isalnum', 'isdigit', 'isspace', 'isalpha'):
            v = c.rv(0)
            if v[0] == 'c':
                return ('val', boolean(getattr(chr(v[1] & 255), n)()))
            return ('val', ('f', n, v))
        if n in ('is_lower', 'to_lower') and c.nargs() == 1 and node.get('obj') is None:
            # only used to look up rules for splitting
            return ('val', TRUE if n == 'is_lower' else c.rv(0))
        if 'map<' in q or '::map' in q:
            if n in ITER:
                return ('val', ('sym', 'none'))
            if n in ('contains', 'count', 'size'):
                return ('val', FALSE)
            if n == 'empty':
                return ('val', TRUE)
        if n in ('operator==', 'operator!=') and '_iterator' in q and 'Rb_tree' in q:
            return ('val', boolean(n == 'operator=='))
        if n in ('write', 'operator<<', 'put') and 'ostream' in q:
            x = [self.lit(eng, st, c.rv(i)) for i in range(c.nargs() if n == 'operator<<' else 1)]
            x = [y for y in x if y is not None]
            if len(x) == 1:
                k = self.num(c.rv(1)) if n == 'write' else None
                self.note(eng, st, ('out', tuple(x[0][:k] if k is not None else x[0]), len(st.ts or ())))
                return ('val', ('p', STREAM))
            raise AnalysisBroken('cannot follow what is written to the stream at %s' % fr.loc(node))
        if n in ('data', 'c_str'):
            t = self.txt(eng, st, c.objval())
            if t is not None:
                return ('val', text(*t))
        if n in ('append', 'insert') and c.nargs() == 2 and node.get('obj') is not None:
            t = self.txt(eng, st, c.objval())
            k = self.num(c.rv(0))
            if n == 'append' and t is not None and k is not None and k < 1000 and c.rv(1)[0] == 'c':
                eng.write(st, fr, c.objplace(), text(*(t + [c.rv(1)] * k)), node)
                return ('val', ('p', c.objplace()))
        return Tokens.on_call(self, eng, st, fr, nid, node, c)


class Formatter:
    def __init__(self, ctx):
        self.ctx = ctx
        p = ctx.p
        cs = [c for c in p.classes if {'write_words', 'write_lines', 'push_indentation', 'flush'} <= {
            f['n'] for f in p.fns.values() if f.get('cls') == c and f.get('blocks')}]
        if len(cs) != 1:
            raise AnalysisBroken('cannot identify the text formatter')
        self.ms = {}
        for f in p.fns.values():
            if f.get('cls') == cs[0] and f.get('blocks'):
                self.ms.setdefault(f['n'], []).append(f)
        self.ctor = [f for f in self.ms.get(cs[0].split('::')[-1], []) if len(f['params']) == 2 and 'ostream' in f['params'][0]['t']]
        if len(self.ctor) != 1:
            raise AnalysisBroken('cannot identify the constructor of the text formatter')
        self.T = (('G', 'formatter'),)

    def run(self, width, calls, setup=None):
        """[(state, output)] after the calls [(function, arguments)]"""
        rule = Writing()
        eng = []
        outs = self.ctx.run(self.ctor[0], rule, this=('p', self.T), args=[('val', ('p', STREAM)), ('val', ('c', width))], engine=eng, setup=setup)
        for name, args in calls:
            nxt = []
            for o in outs:
                if o.kind != 'ret':
                    nxt.append(o)
                    continue
                fn = self.ms[name][0]
                nxt += eng[0].call_fn(o.st.copy(), E.Frame(fn, 0), fn, ('p', self.T), list(args), fn['line'])
            outs = nxt
        return outs


def char_of(st, c):
    """what the path knows the character to be, or '' """
    if c[0] == 'c':
        return chr(c[1])
    f = st.facts.get(c)
    return chr(f[1][1]) if f and f[0] == '=' and f[1][0] == 'c' else ''


def words_of(st, cs):
    """([word], [white space before each word and at the end])"""
    words, gaps, cur = [], [''], None
    for c in cs:
        k = char_of(st, c)
        if k and k in WHITE:
            if cur is not None:
                words.append(cur)
                gaps.append('')
                cur = None
            gaps[-1] += k
        else:
            cur = (cur or []) + [c]
    if cur is not None:
        words.append(cur)
        gaps.append('')
    return words, gaps


def breaks(gap):
    return gap.replace('\r\n', '\n').replace('\r', '\n').count('\n')


def spell(st, cs):
    return ''.join(char_of(st, c).encode('unicode_escape').decode() or ('abcdefghijklmnopqrstuvwxyz'[c[3][1] % 26] if c[:2] == ('f', 'chr') else '?') for c in cs)


def judge(st, cs, out, width, indent, strict=True):
    """what is wrong with the output out for the text cs, or ''"""
    words, gaps = words_of(st, cs)
    flat = [c for w in words for c in w]
    got = []        # (character, its line, its column)
    line = col = 0
    rows = ''.join(chr(c[1]) if c[0] == 'c' else 'x' for c in out).split('\n')
    longest = max(map(len, rows))
    plain = []      # white space and separators that were added: ('\n' | ' ' | '-', number of characters before)
    for c in out:
        if len(got) < len(flat) and c == flat[len(got)]:
            got.append((c, line, col))
        elif c[0] == 'c' and chr(c[1]) in ' \n-':
            plain.append((chr(c[1]), len(got)))
        else:
            return 'it is out of order, repeated or not part of the text'
        col += 1
        if c == ('c', 10):
            line, col = line + 1, 0
    if len(got) < len(flat):
        return 'the characters from %s on are missing' % spell(st, [flat[len(got)]])
    if longest > width:
        # only a word that has at most two columns
        for ln in rows:
            body = ln.lstrip(' ')
            if len(ln) > width and (width - (len(ln) - len(body)) > 2 or ' ' in body):
                return 'a line is longer than the line width'
    i = 0
    for k, w in enumerate(words + [[]]):
        gap = gaps[k]
        added = [x for x, at in plain if at == i]
        # before the word
        nl = added.count('\n')
        if '-' in added:
            return 'a "-" is added between words'
        need = breaks(gap)
        if nl < need:
            return 'a line break is lost'
        if 0 < i < len(flat) and gap and not need and not nl and ' ' not in added:
            return 'white space between words is lost'
        if nl > need:
            if nl > need + 1 or i == 0 or not w:
                return 'a line break is added'
            if strict and not need and set(gap) <= {' '}:
                c0, l0, p0 = got[i - 1]
                if p0 + 1 + len(gap) + len(w) <= width:
                    return 'a line break is added although the next word fits'
        if strict and 0 < i < len(flat) and gap and set(gap) <= {' '} and not nl and added.count(' ') != len(gap):
            return 'spaces between words are added or lost'
        if not w:
            break
        # in the word
        start = 0
        for j in range(1, len(w)):
            mid = [x for x, at in plain if at == i + j]
            if not mid:
                continue
            if ' ' in mid and '\n' not in mid or mid.count('\n') > 1 or mid.count('-') > 1:
                return 'a word is torn apart'
            if '\n' not in mid:
                return 'a "-" is added in a word'
            if strict and got[i + start][2] + len(w) - start <= width:
                return 'a word that fits is broken'
            start = j
        i += len(w)
    return ''


LETTERS = 'abcdefghijklmnopqrstuvwxyz'
BROKEN = ('1a2b3c', 'ab12cd34', 'ab,cd;ef', 'a+b', '12345678', '++++++++', 'ab(cd)12[ef]gh')


def shape(words, gaps):
    """a text of words (texts or lengths) with the white space in between"""
    k, s = 0, ''
    for w, g in zip(list(words) + [0], gaps):
        s += g
        if isinstance(w, str):
            s += w
        else:
            s += ''.join(LETTERS[(k + i) % 26] for i in range(w))
            k += w
    return [('c', ord(c)) for c in s]


def one(ctx, f, width, indent, calls, cs, key, strict=True, setup=None):
    n = 0
    pre = [('push_indentation', [('val', ('c', indent))])] if indent else []
    for o in f.run(width, pre + calls + [('flush', [])], setup):
        n += 1
        out = [x for e in o.st.ts or () if e[0] == 'out' for x in e[1]]
        oth = [e for e in o.st.ts or () if e[0] != 'out']
        bad = 'it ends with %s' % o.kind if o.kind != 'ret' else 'characters outside the text are used (%s)' % (oth[0][2],) if oth else \
            judge(o.st, cs, out, width, indent, strict)
        fn = f.ms[calls[0][0]][0]
        ctx.check(not bad, 'text', key, '"%s" at width %d, indentation %d, is written as "%s": %s' % (
            spell(o.st, cs), width, indent, spell(o.st, out), bad), '%s:%s' % (fn['file'], fn['line']), o.st.path())
    return n


def words(cs):
    return ('write_words', [('val', text(*cs))])


def lines(cs):
    return ('write_lines', [('val', text(*cs))])


def check(ctx):
    f = Formatter(ctx)
    n = 0
    deep = ctx.tier == 'thorough'
    for L in range(0, 5 if deep else 4):
        for width in (3, 4, 5) if deep else (3, 4):
            cs = [char('a', i) for i in range(L)]
            n += one(ctx, f, width, 0, [words(cs)], cs, 'text of %d characters' % L)
    kinds = (' ', '  ', '\n', '\t', '\n\n', '\r\n', '\r', ' \n')
    for width in (3, 4, 6) + ((9, 12) if deep else ()):
        for a in (1, 2, width - 1, width, width + 1, 2 * width + 1):
            for b in (1, 2, width) + ((width + 1,) if deep else ()):
                for g in kinds:
                    cs = shape((a, b), ('', g, ''))
                    n += one(ctx, f, width, 0, [words(cs)], cs, 'words')
    for width in (4, 6, 8):
        for w in BROKEN:
            cs = shape((w, 2), ('', ' ', ''))
            n += one(ctx, f, width, 0, [words(cs)], cs, 'words of mixed characters')
        for indent in (1, 2, width - 1):
            for ws, gs in (((1, 2), ('', ' ', '')), ((width - indent, width), ('', ' ', '')), ((2 * width, 1), ('', '\n', '')), ((1, 1, 1, 1), ('', ' ', '\n', '  ', '\n'))):
                cs = shape(ws, gs)
                n += one(ctx, f, width, indent, [words(cs)], cs, 'indented words')
        for gs in (('', ' ', ' ', ''), (' ', ' ', '  ', ' '), ('\n', '\n', '\n\n', '\n'), ('\t', '\t', ' \t', '\t'), ('  ', '\r\n', '\r', '\r\n')):
            for ws in ((1, 2, 3), (width, 1, width + 1), (3, 2, 1), ('-', 3, 4), ('12.', 2, 5), (2, '*', 3)):
                cs = shape(ws, gs)
                n += one(ctx, f, width, 0, [words(cs)], cs, 'three words', not any(isinstance(w, str) for w in ws))
        # several calls
        for ws in ((1, 2, 3), (width, 1, 2), (2, width, 2 * width)):
            for parts in product(('w', 'l'), repeat=3):
                cs, calls = [], []
                for i, (k, how) in enumerate(zip(ws, parts)):
                    t = [('c', ord(c)) for c in LETTERS[7 * i:][:k]] if k <= 7 else [('c', ord('A') + x) for x in range(k)]
                    cs += t
                    calls.append(words(t) if how == 'w' else lines(t))
                n += one(ctx, f, width, 0, calls, cs, 'several calls', False)
        for t in ('ab', 'a b', 'a\nb', 'a\r\nb', 'a\rb', 'a\n', 'a\r', 'a\n\nb', 'abcdefghi', 'a b\nc d', 'abcdef\nghijklmno\n'):
            cs = [('c', ord(c)) for c in t]
            n += one(ctx, f, width, 0, [lines(cs)], cs, 'lines', False)
    ctx.floor('paths through the text formatter', n, 300)
