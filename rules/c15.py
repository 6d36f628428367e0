"""C15: hidden things stay hidden."""
import itertools
from facts import AnalysisBroken
from helptext import Scenario, Item, functions, run, words
from c04 import where

RULE = """
For every combination of visibilities of two arguments, two options of every type and two subcommands: an item is named in the
generated usage iff its visibility includes the usage, it is listed with its help text iff its visibility includes the text, and the
title of a section is written iff it has an item that is listed.  The usage of error messages does the same.
"""
EXPLAIN = """
Constant propagation over enumerated commands: names, help texts and sections are distinct constants, formatter calls are
events; the constants that reach the formatter are compared with the ones the visibilities allow.
"""
ASSUME = ["commands with more items of a kind than enumerated behave alike (one loop treats all)"]

VIS = ('HIDDEN', 'USAGE', 'TEXT', 'NORMAL')


def in_usage(x):
    return x.vis in ('USAGE', 'NORMAL')


def in_text(x):
    return x.vis in ('TEXT', 'NORMAL')


def scenarios(thorough, types):
    for a, b in itertools.product(VIS, repeat=2):
        for n in ('args', 'opts', 'cmds'):
            yield Scenario({'ABOUT': 'set'}, **{n: [Item(a), Item(b, section='S1')]})
        yield Scenario({'ABOUT': 'set'}, cmds=[Item(a), Item(b)], require=True)
        yield Scenario({'ABOUT': 'set'}, [Item(a)], [Item(b)], [Item(a)])
        for t in types:
            yield Scenario({'ABOUT': 'set'}, opts=[Item(a, type=t), Item(b, section='S1')])
            yield Scenario({'ABOUT': 'set'}, opts=[Item(a), Item(b, type=t)])
    if thorough:
        for v in itertools.product(VIS, repeat=3):
            for n in ('args', 'opts', 'cmds'):
                yield Scenario({'ABOUT': 'set'}, **{n: [Item(x) for x in v]})
            yield Scenario({'ABOUT': 'set'}, [Item(v[0])], [Item(v[1])], [Item(v[2])])


def check(ctx):
    h, e = functions(ctx)
    types = [n for n, _ in ctx.p.enum('argos::OptionType')]
    n = 0
    for sc in scenarios(ctx.tier == 'thorough', types):
        n += 1
        for fn, what in ((h, 'help'), (e, 'error')):
            if what == 'error' and n % 4:
                continue
            rule, outs = run(ctx, fn, sc)
            if not outs:
                raise AnalysisBroken('the text of %s has no outcome' % sc.key())
            for o in outs:
                loc, path = where(o, fn), o.st.path()
                ws = words(o.st.ts)
                if what == 'help':
                    ctx.check('{ABOUT}' in ws, 'parts', sc.key(), 'the help text has no ABOUT between usage and lists', loc, path)
                    if '{ABOUT}' not in ws:
                        continue
                i = ws.index('{ABOUT}') if '{ABOUT}' in ws else len(ws)
                use, text = ' '.join(x or '?' for x in ws[:i]), ' '.join(x or '?' for x in ws[i + 1:])
                for items, tag in ((sc.args, 'arg'), (sc.opts, 'opt'), (sc.cmds, 'cmd')):
                    for k, x in enumerate(items):
                        name = '<%s%d>' % (tag, k)
                        kind = {'arg': 'argument', 'opt': 'option', 'cmd': 'subcommand'}[tag]
                        there = use.count(name) > 0
                        ctx.check(there == in_usage(x), 'usage', sc.key(), '%s %s %s in the usage (%s)' % (
                            x.vis, kind, 'appears' if there else 'is missing', what), loc, path)
                        if what == 'error':
                            continue
                        for what2, y in (('', name), ('help text of the ', '<help of %s%d>' % (tag, k))):
                            there = y in text
                            ctx.check(there == in_text(x), 'lists', sc.key(), '%s%s %s %s in the lists' % (
                                what2, x.vis, kind, 'appears' if there else 'is missing'), loc, path)
                            ctx.check(y not in use or not what2, 'usage', sc.key(), 'the help text of an item is in the usage', loc, path)
                if what == 'help':
                    for s in ('S1',):
                        want = any(in_text(x) and x.section == s for x in list(sc.args) + list(sc.opts) + list(sc.cmds))
                        ctx.check((s in text.split()) == want, 'sections', sc.key(), 'section %s is %s' % (
                            s, 'missing' if want else 'written for hidden items only'), loc, path)
                    for items, s in ((sc.args, 'ARGUMENTS'), (sc.opts, 'OPTIONS'), (sc.cmds, 'COMMANDS')):
                        want = any(in_text(x) and not x.section for x in items)
                        ctx.check((s in text.split()) == want, 'sections', sc.key(), 'section %s is %s' % (
                            s, 'missing' if want else 'written for hidden items only'), loc, path)
    ctx.floor('commands', n, 50)
    ctx.sample('%d commands with different visibilities, e.g. %s' % (n, Scenario({'ABOUT': 'set'}, opts=[Item('USAGE', type='STOP'), Item('TEXT')]).key()))
