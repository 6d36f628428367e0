"""C16: custom texts replace the generated ones."""
import itertools
import engine as E
from engine import show
from facts import AnalysisBroken
from effects import Effects
from helptext import Scenario, Item, functions, run, words
from c04 import where

RULE = """
For every combination of custom texts (not set, set, set to nothing) of a command, the help text consists of exactly: the initial text;
nothing of the usage if its text is set to nothing, otherwise its title (the custom one, or USAGE only if none is set) followed by the
custom usage or, only if none is set, the generated one; ABOUT, or HELP if there is no text for ABOUT; the lists, each under its own
section or under the title for its kind (the custom one, or the default only if none is set), arguments before subcommands before
options and those of one section together; the final text.  An error message is the name of the command and the message followed by
the error usage or, only if none is set, the usage section.  A text given as a function is the result of calling it.
"""
EXPLAIN = """
Constant propagation over enumerated commands: texts, titles, names and sections are distinct constants, formatter calls are
events; the sequence of constants that reaches the formatter is compared with the documented one.
"""
ASSUME = ["commands with more items of a kind than enumerated behave alike (one loop treats all)",
          "a text that is set does not depend on another one (functions are called once each)"]

STATES = (None, 'set', 'empty')


def usage(sc):
    t = sc.texts
    if t.get('USAGE') == 'empty':
        return []
    out = []
    if t.get('USAGE_TITLE') != 'empty':
        out.append('{USAGE_TITLE}' if t.get('USAGE_TITLE') else 'USAGE')
    out.append('{USAGE}' if t.get('USAGE') else 'FULLNAME')
    return out


def lists(sc):
    titles = {'ARGUMENTS_TITLE': 'ARGUMENTS', 'SUBCOMMANDS_TITLE': 'COMMANDS', 'OPTIONS_TITLE': 'OPTIONS'}
    secs = {}
    for items, tag, title in ((sc.args, 'arg', 'ARGUMENTS_TITLE'), (sc.cmds, 'cmd', 'SUBCOMMANDS_TITLE'), (sc.opts, 'opt', 'OPTIONS_TITLE')):
        for i, x in enumerate(items):
            s = x.section or {None: titles[title], 'set': '{%s}' % title, 'empty': ''}[sc.texts.get(title)]
            secs.setdefault(s, []).extend(['<%s%d>' % (tag, i)] + (['<help of %s%d>' % (tag, i)] if x.help else []))
    return [w for s, xs in secs.items() for w in [s] + xs if w]


def help_text(sc):
    t = sc.texts
    out = ['{INITIAL_TEXT}'] if t.get('INITIAL_TEXT') == 'set' else []
    out += usage(sc)
    if t.get('ABOUT') == 'set':
        out.append('{ABOUT}')
    elif t.get('HELP') == 'set':
        out.append('{HELP}')
    out += lists(sc)
    if t.get('FINAL_TEXT') == 'set':
        out.append('{FINAL_TEXT}')
    return out


def configs(ids, base=None):
    for vs in itertools.product(STATES, repeat=len(ids)):
        d = dict(base or {})
        d.update({k: v for k, v in zip(ids, vs) if v})
        yield d


def scenarios(thorough):
    if thorough:
        for t in configs(('INITIAL_TEXT', 'USAGE_TITLE', 'USAGE', 'ABOUT', 'HELP', 'FINAL_TEXT')):
            yield Scenario(t)
    else:
        for t in configs(('INITIAL_TEXT', 'USAGE_TITLE', 'USAGE')):
            yield Scenario(t)
        for base in ({}, {'USAGE': 'set', 'INITIAL_TEXT': 'set'}, {'USAGE': 'empty'}):
            for t in configs(('ABOUT', 'HELP', 'FINAL_TEXT'), base):
                yield Scenario(t)
    for t in configs(('ARGUMENTS_TITLE', 'SUBCOMMANDS_TITLE', 'OPTIONS_TITLE'), {'USAGE': 'set', 'ABOUT': 'set', 'FINAL_TEXT': 'set'}):
        yield Scenario(t, [Item()], [Item()], [Item()])
        yield Scenario(t, [Item(section='S1')], [Item(), Item(section='S1')], [Item(section='S2')])
    for n in ('args', 'opts', 'cmds'):
        for a, b, c in itertools.product(('', 'S1', 'S2'), repeat=3):
            yield Scenario({'USAGE': 'empty'}, **{n: [Item(section=a), Item(section=b, help=False), Item(section=c)]})
    for w in (0, 20):
        yield Scenario({'USAGE': 'empty'}, [Item(), Item(help=False)], [Item()], [Item(help=False), Item()], width=w)


def check(ctx):
    h, e = functions(ctx)
    n = 0
    for sc in scenarios(ctx.tier == 'thorough'):
        n += 1
        judge(ctx, h, sc, help_text(sc), 'help text')
    for t in configs(('ERROR_USAGE', 'USAGE_TITLE', 'USAGE')):
        n += 1
        sc = Scenario(t)
        msg = (('arg', e['params'][2]['n']),)

        def more(rule):
            rule.vals[msg] = ('s', 'MESSAGE')
        want = ['FULLNAME:', 'MESSAGE'] + ({'set': ['{ERROR_USAGE}'], 'empty': [], None: usage(sc)}[t.get('ERROR_USAGE')])
        judge(ctx, e, sc, want, 'error message', more)
    ctx.floor('commands', n, 100)
    # ---- a text that is a function ----
    p = ctx.p
    k = 0
    for f in p.fns.values():
        if f.get('blocks') and len(f['params']) == 1 and 'variant<' in f['params'][0]['t'] and f.get('ret', f.get('t')).startswith('std::basic_string<char>'):
            arg = (('arg', f['params'][0]['n']),)
            for o in ctx.run(f, Effects()):
                if o.kind != 'ret':
                    continue
                k += 1
                v = o.val
                s = next((x for x, fact in o.st.facts.items() if x[:2] == ('f', 'holds:std::basic_string<char>') and fact == ('=', E.TRUE)), None)
                string = v[0] == 'init' and v[1][:1] == arg
                called = v[0] == 'f' and 'operator()' in v[1] and E.contains(v, arg[0])
                ctx.check(string or called or v == ('s', '') and not s, 'text of a function', f['q'], 'it gives %s' % show(v), where(o, f), o.st.path())
    ctx.floor('results of texts', k, 2)
    ctx.sample('%d commands with different texts and sections, e.g. %s' % (n, Scenario({'ABOUT': 'set', 'USAGE': 'empty'}).key()))


def judge(ctx, fn, sc, want, what, more=None):
    rule, outs = run(ctx, fn, sc, more)
    if not outs:
        raise AnalysisBroken('%s of %s has no outcome' % (what, sc.key()))
    for o in outs:
        got = words(o.st.ts)
        norm = [x.rstrip() if x else x for x in got]
        ok = merged(norm) == merged(want) and None not in norm
        ctx.check(ok and o.kind == 'ret', what, sc.key(), 'it consists of %s instead of %s' % (
            ' '.join(x or '?' for x in got) or 'nothing', ' '.join(want) or 'nothing'), where(o, fn), o.st.path())


def merged(ws):
    """independent of how the text is divided into calls"""
    return ''.join(''.join((w or '?').split()) for w in ws)
