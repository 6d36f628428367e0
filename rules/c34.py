"""C34: adding definitions."""
import itertools
from harness import *
from effects import *
from engine import show
import engine as E
from c04 import where

RULE = """
For each of add(Argument), add(Option), add(Command) of ArgumentParser and Command, and each combination of {object emptied or not,
arguments mixed with subcommands or not, name/flags missing or not, own section set or not}: it throws if and only if the
object is empty, arguments and subcommands would be mixed, or the name (flags) is missing, and then nothing of the command has
changed; otherwise the only change is one appended element, the very object that was handed over, at the end of the list of its
kind, whose section is its own if set, else the current section; and the object itself is returned for chaining.
"""
EXPLAIN = """
Every public overload is interpreted with everything it calls inlined, once per combination; all writes and container
changes on all paths are collected and compared.
"""
ASSUME = []


def overloads(p, q, cls):
    fns = [f for f in p.by_q.get(q, []) if len(f['params']) == 1 and cls in f['params'][0]['t']]
    return fns


def pimpl(r, cls):
    return [f['n'] for f in r.p.cls(cls)['fields'] if '_ptr<' in f['t']][0]


def check(ctx):
    r = ctx.roles
    n = 0
    for owner in ('argos::ArgumentParser', 'argos::Command'):
        T = (('this', owner),)
        D = (('O', ('init', T + (pimpl(r, owner),))),)
        if owner.endswith('Parser'):
            D += (r.pd['command'],)
        for cls, lst, other, sec, names in (
                ('argos::Argument', 'arguments', 'commands', r.ad['section'], r.ad['name']),
                ('argos::Option', 'options', None, r.od['section'], r.od['flags']),
                ('argos::Command', 'commands', 'arguments', r.cd['section'], r.cd['name'])):
            fns = overloads(r.p, owner + '::add', cls)
            ctx.floor('overloads of %s::add(%s)' % (owner, cls), len(fns), 2)
            L = D + (r.cd[lst],)
            for fn in fns:
                ap = (('arg', fn['params'][0]['n']), pimpl(r, cls))
                AD = (('O', ('init', ap)),)
                for null, conflict, noname, sect in itertools.product((False, True), repeat=4):
                    if null and (conflict or noname or sect) or conflict and other is None:
                        continue
                    exact = {AD + (sec,): ('s', 'S') if sect else ('s', '')}
                    if null:
                        exact[ap] = E.NULL
                    op = T + (pimpl(r, owner),)
                    f = {}
                    if other:
                        f[D + (r.cd[other],)] = not conflict
                    if cls == 'argos::Option':
                        f[AD + (names,)] = noname
                    else:
                        exact[AD + (names,)] = ('s', '') if noname else ('s', 'N')
                    bad = null or conflict or noname
                    key = '%s.add(%s)%s%s%s%s' % (owner, cls, ', empty object' if null else '',
                                                  ', mixed' if conflict else '', ', no name' if noname else '',
                                                  ', own section' if sect else '')
                    for o in ctx.run(fn, Effects(exact=exact), setup=sizes(f, [op] if null else [op, ap])):
                        ts = o.st.ts or ()
                        loc, path = where(o, fn), o.st.path()
                        mine = [e for e in ts if e[0] in ('w', 'add', 'del') and under(e[1], D)]
                        n += 1
                        if o.kind == 'throw':
                            ctx.check(not mine, 'unchanged when rejected', key, 'the command is changed although adding throws: %s'
                                      % '; '.join(show_ev(e) for e in mine), loc, path)
                            if not bad:
                                ctx.check(False, 'accepted', key,
                                          'adding something allowed throws', loc, path)
                            continue
                        ctx.check(not bad, 'rejected', key, 'something forbidden is added', loc, path)
                        if bad:
                            continue
                        add = [e for e in mine if e[0] == 'add']
                        ctx.check(len(mine) == len(add) == 1 and add[0][1] == L and appended(add[0]) == (('init', ap),),
                                  'appended', key,
                                  'adding does not just append the definition to the list: %s' %
                                  '; '.join(show_ev(e) for e in mine), loc, path)
                        own = [e for e in ts if e[0] in ('w', 'add', 'del') and under(e[1], AD)]
                        want = [] if sect else [('w', AD + (sec,), ('init', D + (r.cd['current_section'],)))]
                        ctx.check(own == want, 'section', key, 'the definition is changed by: %s' %
                                  ('; '.join(show_ev(e) for e in own) or 'nothing'), loc, path)
                        ctx.check(o.val == ('p', T), 'chaining', key, 'the object itself is not returned', loc, path)
    ctx.floor('outcomes', n, 60)
    ctx.sample('%d outcomes of the 12 overloads of add' % n)
