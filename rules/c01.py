"""C01: copies of definitions are complete and independent."""
import re
from harness import *
from effects import *
from engine import show
import engine as E
from c04 import where

RULE = """
For ArgumentData, OptionData, CommandData and ParserData (the implementation classes of the public definition classes): every
copy or move operation that is written out leaves every field of the target with exactly the value the source's field had, where
a list of owned elements holds one new copy per element of the source, in order, and indexes that point into the object itself
are not copied; assignment drops what the target held and does nothing on self-assignment; operations generated by the compiler
do this by definition.  Copying or moving an Argument, Option or Command makes a complete copy of what it owns, or takes it
over; copying or assigning an empty one gives an empty one.  copy_from appends one copy per element to each list, adds every
text or throws if its id is taken, allows several subcommands if the source does, and changes nothing else.
"""
EXPLAIN = """
The copy functions are interpreted; loops over owned elements are summarised by what every round does, a list filled by
one copy per element of a source list gets a symbolic value, and the field values at each exit are compared.
"""
ASSUME = ["copying a value of a standard library type or of an enumeration yields an equal value"]


def clone(cls, place):
    return ('f', 'clone', ('s', cls), ('p', place))


class Copying(Effects):
    """lists of owned elements get the values ('f','clones',P) and ('f','joined',old,P)"""

    def __init__(self, defs, **k):
        Effects.__init__(self, places=lambda p: True, **k)
        self.defs = defs

    def on_call(self, eng, st, fr, nid, node, c):
        if c.n in ('make_unique', 'make_shared') and c.nargs() == 1:
            t = E.strip_cv((node.get('fn', {}).get('ta') or ['?'])[0])
            if t in self.defs and E.strip_cv(fr.fn['nodes'][node['args'][0]].get('t', '')) == t:
                return ('val', clone(t, eng.place(st, fr, node['args'][0])))
        if c.n == 'operator=' and c.cls in self.defs and node.get('obj') and fr.fn.get('cls') != c.cls:
            pt = (c.ref.get('pt') or [''])[0]
            if pt.startswith('const') and not c.ref.get('defaulted'):
                a = c.raw(0)
                d = c.objplace()
                st.store[d] = ('f', 'copyof', a)
                for k in [k for k in st.store if len(k) > len(d) and k[:len(d)] == d]:
                    del st.store[k]
                return ('val', ('p', d))
        return None

    def on_forall(self, eng, st, fr, P, evs, node):
        Effects.on_forall(self, eng, st, fr, P, evs, node)
        if not evs:
            return
        e = elem(P)
        tgt = {x[1] for x in evs if x[0] == 'add' and appended(x) and len(appended(x)) == 1 and
               appended(x)[0][:2] == ('f', 'clone') and appended(x)[0][3] == ('p', e)}
        all_ = {x for x in st.ts if x[0] in ('add', 'del') and x[1] in tgt}
        for Q in tgt:
            own = {x for x in all_ if x[1] == Q and x[0] == 'add'}
            if len(own) > 1:
                continue
            cut = any(x[0] == 'del' and x[1] == Q and x[2] == 'clear' for x in all_)
            fresh = Q[0][0] in ('L', 'T', 'H') or cut or ('w', Q, ('empty',)) in st.ts
            st.store[Q] = ('f', 'clones', ('p', P)) if fresh else ('f', 'joined', ('p', P))


OWN = re.compile(r'^std::vector<std::unique_ptr<([\w:]+)>>$')


def fields(r, cls):
    out = []
    for f in r.p.cls(cls)['fields']:
        t = f['t']
        if OWN.match(t):
            out.append((f['n'], 'own'))
        elif '*' in t and '(' not in t and 'ostream' not in t or 'string_view' in t:
            out.append((f['n'], 'index'))
        else:
            out.append((f['n'], 'plain'))
    return out


def final(o, place):
    v = o.st.store.get(place)
    if v is None:
        for n in range(len(place) - 1, 0, -1):
            b = o.st.store.get(place[:n])
            if b is not None:
                return ('part', b, place[n:])
        return ('init', place)
    return v


def same_field(o, kind, dst, src, move):
    """is the field at dst a faithful copy of the one at src?"""
    v = final(o, dst)
    if v == ('init', src) or v == ('part', ('init', src[:-1]), src[-1:]):
        return kind != 'own' or move
    if kind == 'own':
        if v == ('f', 'clones', ('p', src)):
            return True
        return v == ('empty',) and o.st.facts.get(('size', src)) == ('=', E.FALSE) or \
            v[0] in ('empty', 'sym') and None in foralls(o.st.ts, src)
    return False


def check(ctx):
    r = ctx.roles
    p = r.p
    defs = [r.AD, r.OD, r.CD, r.PD]
    n = gen = 0
    for cls in defs:
        fs = fields(r, cls)
        ctx.floor('fields of ' + cls, len(fs), 3)
        short = cls.split('::')[-1]
        for m in p.cls(cls)['methods']:
            kind = m.get('ctor') if m.get('ctor') in ('copy', 'move') else m.get('asg')
            if m.get('ctor') not in ('copy', 'move') and m['n'] != 'operator=':
                continue
            fn = p.fns.get(m['id'])
            if not fn or m.get('defaulted'):
                gen += 1
                ctx.ob('generated by the compiler')
                continue
            move = m['pt'][0].rstrip().endswith('&&')
            T, S = (('this', cls),), (('arg', fn['params'][0]['n']),)
            asg = m['n'] == 'operator='
            key = '%s %s of %s' % ('move' if move else 'copy', 'assignment' if asg else 'construction', short)
            for o in ctx.run(fn, Copying(defs)):
                if o.kind != 'ret' or aliased(o, T, S):
                    continue
                n += 1
                loc, path = where(o, fn), o.st.path()
                for f, k in fs:
                    if k == 'index':
                        v = final(o, T + (f,))
                        ctx.check(move or v != ('init', S + (f,)), 'own index', '%s, %s' % (key, f),
                                  'the copy refers to elements of the source through %s' % f, loc, path)
                        continue
                    ctx.check(same_field(o, k, T + (f,), S + (f,), move), 'field copied', '%s, %s' % (key, f),
                              '%s is not carried over: it becomes %s' % (f, show(final(o, T + (f,)))), loc, path)
                if not move:
                    bad = [e for e in o.st.ts or () if e[0] in ('w', 'add', 'del') and under(e[1], S)]
                    ctx.check(not bad, 'source unchanged', key, 'copying changes the source: %s' %
                              '; '.join(show_ev(e) for e in bad), loc, path)
                if asg:
                    ctx.check(o.val == ('p', T), 'result', key, 'assignment does not return its target', loc, path)
            if asg:
                for o in ctx.run(fn, Copying(defs), args=[('ref', ('p', T))]):
                    loc, path = where(o, fn), o.st.path()
                    bad = [f for f, k in fs if k != 'index' and o.kind == 'ret' and
                           not (final(o, T + (f,)) == ('init', T + (f,)) or
                                k == 'own' and final(o, T + (f,)) == ('f', 'clones', ('p', T + (f,))))]
                    cut = [e for e in o.st.ts or () if e[0] == 'del' and under(e[1], T)]
                    ctx.check(not bad and not cut, 'self-assignment', key, 'assigning an object to itself changes %s' %
                              ', '.join(bad or [show(('p', e[1])) for e in cut]), loc, path)
    # the public handles
    for cls, impl in (('argos::Argument', r.AD), ('argos::Option', r.OD), ('argos::Command', r.CD)):
        own = [f['n'] for f in p.cls(cls)['fields'] if '_ptr<' in f['t']][0]
        short = cls.split('::')[-1]
        for m in p.cls(cls)['methods']:
            if m.get('ctor') not in ('copy', 'move') and m['n'] != 'operator=':
                continue
            fn = p.fns.get(m['id'])
            move = m['pt'][0].rstrip().endswith('&&')
            asg = m['n'] == 'operator='
            key = '%s %s of %s' % ('move' if move else 'copy', 'assignment' if asg else 'construction', short)
            if not fn or m.get('defaulted'):
                ctx.check(move, 'handle copied', key, 'an owning handle cannot be copied by the compiler', short)
                continue
            T, S = (('this', cls), own), (('arg', fn['params'][0]['n']), own)
            for empty in (False, True):
                rule = Copying(defs, exact={S: E.NULL} if empty else {})
                for o in ctx.run(fn, rule, setup=sizes({}, [] if empty else [S])):
                    if o.kind != 'ret' or aliased(o, T[:1], S[:1]):
                        continue
                    n += 1
                    v = final(o, T)
                    want = E.NULL if empty else ('init', S) if move else clone(impl, (('O', ('init', S)),))
                    ctx.check(v == want or not move and complete_copy(o, v, (('O', ('init', S)),), fields(r, impl)),
                              'handle copied', key + (', empty' if empty else ''),
                              'the new object owns %s' % show(v), where(o, fn), o.st.path())
                    if not move:
                        ctx.check(final(o, S) in (E.NULL if empty else ('init', S), ('init', S)), 'source unchanged', key,
                                  'copying changes the source', where(o, fn), o.st.path())
            if asg and not move:
                for o in ctx.run(fn, Copying(defs), args=[('ref', ('p', T[:1]))], setup=sizes({}, [T])):
                    v = final(o, T)
                    ctx.check(o.kind == 'ret' and v in (('init', T), clone(impl, (('O', ('init', T)),))), 'self-assignment', key,
                              'assigning an object to itself leaves %s' % show(v), where(o, fn), o.st.path())
    k = joined(ctx, r, defs)
    ctx.floor('outcomes of copy operations', n, 12)
    ctx.floor('outcomes of copy_from', k, 4)
    ctx.sample('%d outcomes of written-out copy operations, %d of copy_from; %d operations generated by the compiler' % (n, k, gen))


def complete_copy(o, v, src, fs):
    """v points to a new object whose fields are copies of those at src"""
    if v[0] != 'p' or v[1][0][0] != 'H':
        return False
    return final(o, v[1]) == ('f', 'copy', ('p', src)) or \
        all(same_field(o, k, v[1] + (f,), src + (f,), False) for f, k in fs if k != 'index')


def aliased(o, T, S):
    for k, f in o.st.facts.items():
        if k[0] == 'op' and k[1] == '==' and set(k[2:]) == {('p', T), ('p', S)}:
            return f == ('=', E.TRUE) or f[0] == '!='
    return False


def joined(ctx, r, defs):
    n = 0
    for cls in ('argos::ArgumentParser', 'argos::Command'):
        own = [f['n'] for f in r.p.cls(cls)['fields'] if '_ptr<' in f['t']][0]
        cown = [f['n'] for f in r.p.cls('argos::Command')['fields'] if '_ptr<' in f['t']][0]
        for fn in r.p.by_q.get(cls + '::copy_from', []):
            T = (('this', cls), own)
            D = (('O', ('init', T)),) + ((r.pd['command'],) if cls.endswith('Parser') else ())
            A = (('arg', fn['params'][0]['n']), cown)
            S = (('O', ('init', A)),)
            txt = D + (r.cd['texts'],)
            for multi in (False, True):
                for smulti in (False, True):
                    exact = {D + (r.cd['multi'],): E.TRUE if multi else E.FALSE, S + (r.cd['multi'],): E.TRUE if smulti else E.FALSE}
                    key = '%s.copy_from%s%s' % (cls, ', target allows several' if multi else '', ', source allows several' if smulti else '')
                    for o in ctx.run(fn, Texts(defs, txt, S + (r.cd['texts'],), exact=exact), setup=sizes({}, [T, A])):
                        loc, path = where(o, fn), o.st.path()
                        ts = o.st.ts or ()
                        if o.kind == 'throw':
                            ctx.check(('taken',) in ts, 'copy_from throws', key, 'copying definitions throws although no text is taken', loc, path)
                            continue
                        n += 1
                        ctx.check(('taken',) not in ts, 'copy_from throws', key, 'a text that exists already is not rejected', loc, path)
                        for f in ('arguments', 'options', 'commands'):
                            v, P = final(o, D + (r.cd[f],)), S + (r.cd[f],)
                            ctx.check(v == ('f', 'joined', ('p', P)) or v == ('init', D + (r.cd[f],)) and None in foralls(ts, P),
                                      'definitions joined', '%s, %s' % (key, f),
                                      'not every one of the %s is appended as a copy: %s' % (f, show(v)), loc, path)
                        P = S + (r.cd['texts'],)
                        fa = foralls(ts, P)
                        ctx.check(bool(fa) and all(x is None or ('text',) in x for x in fa), 'texts joined', key,
                                  'not every text is copied', loc, path)
                        v = final(o, D + (r.cd['multi'],))
                        v = exact.get(v[1], v) if v[0] == 'init' else v
                        ctx.check(v == (E.TRUE if multi or smulti else E.FALSE), 'several subcommands', key,
                                  'after copying, several subcommands are %s' % show(v), loc, path)
                        ok = {D + (r.cd[f],) for f in ('arguments', 'options', 'commands', 'texts')} | {D + (r.cd['multi'],)}
                        bad = [e for e in ts if e[0] in ('w', 'add', 'del') and (under(e[1], D) or under(e[1], S)) and
                               e[1] not in ok and e[1][:len(txt)] != txt or e[0] == 'del']
                        ctx.check(not bad, 'nothing else changed', key, 'copying definitions also does: %s' %
                                  '; '.join(show_ev(e) for e in bad), loc, path)
    return n


class Texts(Copying):
    def __init__(self, defs, dst, src, **k):
        Copying.__init__(self, defs, **k)
        self.dst, self.src = dst, src

    def on_call(self, eng, st, fr, nid, node, c):
        if node.get('obj') and c.objplace() == self.dst:
            el = self.src + ('[]',)
            keys = (('init', el + (0,)),)
            vals = (('init', el + (1,)),)
            if c.n in ('contains', 'count', 'find') and c.rv(0) in keys:
                if ('checked',) not in (st.ts or ()):
                    st.ts = (st.ts or ()) + (('checked',),)
                s = st.copy()
                if ('taken',) not in (s.ts or ()):
                    s.ts = (s.ts or ()) + (('taken',),)
                yes, no = {'contains': (E.TRUE, E.FALSE), 'count': (('c', 1), E.FALSE),
                           'find': (('f', 'ITER', ('s', 'taken')), ('end', self.dst))}[c.n]
                return ('states', [(s, yes), (st, no)])
            if c.n in ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'operator[]'):
                a = leaves(c.rvs())
                if a[:1] == [keys[0]] and a[1:] in ([vals[0]], []) or a == [('init', el)]:
                    self.note(eng, st, ('text',))
                    if c.n in ('emplace', 'try_emplace', 'insert') and ('checked',) not in st.ts:
                        s = st.copy()
                        if ('taken',) not in s.ts:
                            s.ts += (('taken',),)
                        return ('states', [(s, ('tup', (E.TOP, E.FALSE))), (st, ('tup', (E.TOP, E.TRUE)))])
        return Copying.on_call(self, eng, st, fr, nid, node, c)
