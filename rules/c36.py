"""C36: tokens are split as the option style says."""
from c19 import *

RULE = """
(a) Reading the tokens of a command line through the cursor the parser makes for a style, in any order of asking for the next
token and for a value, gives: standard style: a token of one or two characters, or one that does not start with a dash, as a whole;
from one dash and two or more other characters "-c" for each character in turn, or, when a value is asked for, all the characters
that are left; from two dashes and a name with "=" what precedes and includes the first "=", and what follows as the value (none if
it is not asked for); other tokens as a whole.  Dash and slash style: the same without splitting of "-abc", and with "/" as the first
character in slash style.  A value that is not attached is the next token, whatever it looks like; each token is read once, in order;
nothing is given at the end. The current token is the one that was read last, in full. (b) A text is taken for an option exactly if it has
two or more characters and starts with the character of the style. (c) The wrapper over the cursors hands each call to the same
function of the one it holds.
"""
EXPLAIN = """
(a) path-sensitive interpretation of the cursors over tokens of 0 to 5 symbolic characters; each path (what it found out about the
characters) is compared with the rule under every completion of what it did not find out. (b), (c) path tables.
"""
ASSUME = ["tokens longer than 5 characters are split like those of 5: the code treats all positions from the third on alike"]


def options(ctx):
    fns = [f for f in ctx.p.fns.values() if not f.get('cls') and f.get('blocks') and f['rt'] == 'bool' and len(f['params']) == 2 and
           any('OptionStyle' in q['t'] for q in f['params']) and any('basic_string' in q['t'] for q in f['params'])]
    if not fns:
        raise AnalysisBroken('cannot identify the test for options')
    for fn in fns:
        for style in STYLES:
            for k in range(5):
                T = (('G', 'text'),)
                args = []
                for q in fn['params']:
                    if 'OptionStyle' in q['t']:
                        args.append(('val', ('e', 'argos::OptionStyle', style)))
                    else:
                        args.append(('ref', ('p', T)) if q['t'].rstrip().endswith('&') else ('val', token('a', k)))
                rule = Tokens()

                def setup(st):
                    st.store[T] = token('a', k)
                for o in ctx.run(fn, rule, args=args, setup=setup):
                    key = '%s, %d characters' % (style, k)
                    lit = ('c', ord('/' if style == 'SLASH' else '-'))
                    v = o.val
                    if o.kind == 'ret' and v[0] == 'op' and v[1] in ('==', '!=') and char('a', 0) in v[2:]:
                        other = v[3] if v[2] == char('a', 0) else v[2]
                        ok = k >= 2 and other == lit and v[1] == '=='
                        got = show(v)
                    else:
                        exp = expectations(rule, o.st, lambda is_: k >= 2 and is_(char('a', 0), lit))
                        ok = o.kind == 'ret' and all(v == boolean(e) for e in exp) and not (o.st.ts or ())
                        got = show(v)
                    ctx.check(ok, 'options', key, 'whether a text of %s is an option is %s' % (key, got), where(o, fn), o.st.path())


class Forward(Tokens):
    def __init__(self, classes):
        Tokens.__init__(self)
        self.classes = classes

    def on_call(self, eng, st, fr, nid, node, c):
        if node.get('obj') is not None and c.ref.get('cls') in self.classes:
            self.note(eng, st, ('called', c.ref['cls'], c.n, tuple(c.raw(i) for i in range(c.nargs()))))
            v = ('sym', 'result', c.ref['cls'], c.n)
            return ('val', v)
        if c.n == 'visit':
            self.note(eng, st, ('visit',))
        return None


def wrapper(ctx):
    p = ctx.p
    cs = cursors(p)
    n = 0
    for name, c in p.classes.items():
        if name in cs or not any(all(x in f['t'] for x in cs) and 'variant' in f['t'] for f in c['fields']):
            continue
        for fn in p.fns.values():
            if fn.get('cls') != name or fn['n'] not in ('next', 'next_value', 'insert', 'current', 'remaining_arguments') or not fn.get('blocks'):
                continue
            seen = set()
            for o in ctx.run(fn, Forward(cs)):
                ev = [e for e in o.st.ts or () if e[0] in ('called', 'visit')]
                if any(e[0] == 'visit' for e in ev):
                    seen |= set(cs)
                    continue
                key = '%s of the wrapper' % fn['n']
                held = [f[1][6:] for f, w in o.st.facts.items() if f[:1] == ('f',) and str(f[1]).startswith('holds:') and
                        (w == ('=', TRUE) or w[0] == '!=' and FALSE in w[1])]
                out = {f[1][6:] for f, w in o.st.facts.items() if f[:1] == ('f',) and str(f[1]).startswith('holds:') and (
                    w == ('=', FALSE) or w[0] == '!=' and TRUE in w[1])}
                held = held or [x for x in cs if x not in out]
                if o.kind != 'ret' and len(held) != 1:
                    continue        # no alternative is held
                n += 1
                ok = o.kind == 'ret' and len(held) == 1 and len(ev) == 1 and ev[0][1:3] == (held[0], fn['n'])
                ok = ok and (fn['rt'] == 'void' or o.val == ('sym', 'result', held[0], fn['n']))
                if ok and fn['params']:
                    ok = repr((('arg', fn['params'][0]['n']),))[1:-2] in repr(ev[0][3])
                seen |= set(held)
                ctx.check(ok, 'wrapper', '%s: %s' % (key, ', '.join(held)), '%s calls %s for %s' % (
                    key, ', '.join('%s::%s' % e[1:3] for e in ev) or 'nothing', ', '.join(held)), where(o, fn), o.st.path())
            ctx.check(seen >= set(cs), 'wrapper', fn['n'], '%s of the wrapper does not serve %s' % (fn['n'], ', '.join(set(cs) - seen)),
                      '%s:%s' % (fn['file'], fn['line']))
    ctx.floor('paths through the wrapper of the cursors', n, 4)


def check(ctx):
    options(ctx)
    wrapper(ctx)
    n = 0
    deep = ctx.tier == 'thorough'
    for style in STYLES:
        c = Cursor(ctx, style)
        for la in range(6):
            for k in (1, 2, 3, 4) + ((5,) if deep else ()):
                for ops in product(('next', 'value'), repeat=k):
                    for lb in (1, 3) if k < 4 or deep else (2,):
                        n += sequences(ctx, c, pair(la, lb), ops + ('rest',), 'split')
            for k in (0, 1, 2):
                for ops in product(('next', 'value'), repeat=k):
                    n += sequences(ctx, c, pair(la, 1), ('rest',) + ops + ('rest',) + ops + ('rest', 'next', 'rest', 'value', 'rest'), 'split')
            for ops in product(('next', 'value'), repeat=3):
                n += sequences(ctx, c, pair(la, 3), ('current', ops[0], 'current', ops[1], 'current', ops[2], 'current', 'value', 'current'), 'split')
    ctx.floor('paths through sequences of operations', n, 200)
