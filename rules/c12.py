"""C12: an object without content throws instead of crashing."""
import engine as E
from effects import Effects, show_ev
from c04 import where

RULE = """
For every public function of the public classes that hold their content through an owning or counted pointer, and for every
parameter of such a class: with the pointer null no path dereferences it (the members that the library itself calls included), and
a function that needs the content, i.e. that dereferences the pointer on some path when it is set, throws ArgosException without
having changed anything.  Construction, destruction, assignment and the test for content need not throw.
"""
EXPLAIN = """
Each function is interpreted twice per object: with the pointer null, where every use of the null pointer is an event, and
with the pointer set, to see whether the function uses the content at all.
"""
ASSUME = ["an object that was moved from has a null pointer (the standard's unique_ptr and shared_ptr)"]

EXC = 'argos::ArgosException'


class Null(Effects):
    def __init__(self, v):
        Effects.__init__(self)
        self.v = v

    def hit(self, st):
        return any(e[0] == 'null' for e in st.ts or ())

    def on_call(self, eng, st, fr, nid, node, c):
        if self.hit(st):
            return ('stop', 'null')

    def on_deref(self, eng, st, fr, v, node):
        if eng.resolve(st, v) == E.NULL:
            self.note(eng, st, ('null', fr.fn['q'], fr.loc(node) if node else ''))


class Used(Effects):
    def __init__(self, v):
        Effects.__init__(self)
        self.v = v

    def on_call(self, eng, st, fr, nid, node, c):
        if any(e[0] == 'used' for e in st.ts or ()):
            return ('stop', 'used')

    def on_deref(self, eng, st, fr, v, node):
        if v == self.v or eng.resolve(st, v) == self.v:
            self.note(eng, st, ('used',))


def classes(p):
    out = {}
    for q, c in p.classes.items():
        if not q.startswith('argos::') or '(' in q:
            continue
        f = c.get('file', '')
        if not (f.startswith('include/') or f.endswith('Argos.hpp')):
            continue
        fs = [x['n'] for x in c['fields'] if '_ptr<' in x['t'] and 'vector<' not in x['t']]
        if fs:
            out[q] = fs
    return out


def name(fn):
    return '%s(%s)%s' % (fn['q'][7:], ', '.join(a['t'] for a in fn['params']), ' const' if fn.get('const') else '')


def check(ctx):
    p = ctx.p
    cl = classes(p)
    ctx.floor('classes with content behind a pointer', len(cl), 6)
    n = needs = 0
    for fn in sorted(p.fns.values(), key=lambda f: (f['file'], f['line'])):
        q = fn.get('cls')
        if q not in cl or fn.get('access') != 'public' or fn.get('defaulted') and not fn.get('ctor'):
            continue
        cases = []
        if not fn.get('static') and not fn.get('ctor') and not fn.get('dtor') and '~' not in fn['n']:
            cases += [('the object', (('this', q), f)) for f in cl[q]]
        for a in fn['params']:
            t = E.strip_cv(a['t'])
            if t in cl:
                cases += [('the parameter %s' % t[7:], (('arg', a['n']), f)) for f in cl[t]]
        for what, pl in cases:
            ptr = ('init', pl)

            def null(st):
                st.facts[ptr] = ('=', E.NULL)

            def full(st):
                st.facts[ptr] = ('!=', frozenset({E.NULL}))
            key = '%s, %s' % (name(fn), what)
            free = fn.get('ctor') or fn['n'] in ('operator=', 'operator bool')
            outs = ctx.run(fn, Null(ptr), setup=null)
            n += 1
            normals = []
            for o in outs:
                loc, path = where(o, fn), o.st.path()
                hit = [e for e in o.st.ts or () if e[0] == 'null']
                ctx.check(not hit, 'null is not dereferenced', key,
                          'the content of %s is used in %s%s without being there' % (what, hit and hit[0][1], hit and ' (%s)' % (hit[0][2],)),
                          loc, path)
                if hit:
                    continue
                if o.kind == 'throw':
                    ctx.check(o.val == EXC or o.val == 'rethrow' or str(o.val).endswith('ArgosException'), 'ArgosException', key,
                              'it throws %s' % (o.val,), loc, path)
                    if not free:
                        w = [e for e in o.st.ts or () if e[0] in ('add', 'del') or e[0] == 'w' and e[1:] != (pl, E.NULL) and visible(e[1])]
                        ctx.check(not w, 'nothing is touched', key, 'before it throws: %s' % (w and show_ev(w[0])), loc, path)
                elif o.kind == 'ret':
                    normals.append(o)
            if normals and not free:
                # a function may return without content on the paths that do not need it when it is there either
                needs += 1
                without = [facts(o.st, ptr) for o in ctx.run(fn, Used(ptr), setup=full)
                           if o.kind == 'ret' and not any(e[0] == 'used' for e in o.st.ts or ())]
                for o in normals:
                    ctx.check(facts(o.st, ptr) in without, 'missing content is reported', key,
                              'it returns as if nothing was wrong though it needs the content', where(o, fn), o.st.path())
    ctx.floor('functions', n, 150)
    ctx.sample('%d function and object pairs, %d return without content' % (n, needs))



def visible(place):
    """does the place belong to the object or to something that was passed by reference?"""
    while place[0][0] == 'O' and isinstance(place[0][1], tuple) and place[0][1][:1] == ('init',):
        place = place[0][1][1]
    return place[0][0] in ('this', 'arg')


def facts(st, ptr):
    return frozenset((k, v) for k, v in st.facts.items() if k != ptr)
