"""C23: definitions and results are owned once, and live as long as what refers to them."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import engine as E
import facts
from engine import show
from facts import AnalysisBroken
from c04 import where

RULE = """
Nothing in the library is deleted, released or allocated by hand: every new object goes straight into an owner, and no owner is made
from a borrowed pointer, with an own deleter or as an alias.  A definition (what Argument, Option and Command hold) is only ever
held by value or by a unique owner.  A class that keeps pointers or views of definitions, results or texts also keeps an owner
through which those are reachable, or is a member of one that does; objects the user gets only as a view (classes with the common
view interface) and helpers that are never stored are excepted.  Members that can form a cycle of counted owners are only given objects
that have just been made, from arguments that cannot lead back to the one they are added to.  A function that returns a
unique owner no longer has it when it returns.  A function object that is stored
does not refer to local variables, nor to a counted owner.  Objects deleted through a base class have a virtual destructor.  No
function returns a pointer, reference or view of something that dies with it.
"""
EXPLAIN = """
The type of every field of every class makes a graph of owners and borrowers, on which reachability and cycles are decided; every
construction, reset and release of an owner and every lambda that becomes a function object is classified at its site; functions that return unique owners
and those that use the fields on cycles are interpreted; the lifetime diagnostics of the compiler's own (path-insensitive) analysis are
collected for every unit.
"""
ASSUME = ["the user keeps the result as long as the views taken from it, and the ArgumentValues as long as its iterators",
          "a value that was read is not used after a later argument or callback has replaced or cleared it",
          "std::unique_ptr, std::shared_ptr and the containers are right"]

SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr')
TEXT = '$text'
WARN = ['dangling', 'dangling-field', 'dangling-gsl', 'dangling-initializer-list', 'return-stack-address',
        'delete-incomplete', 'delete-non-virtual-dtor', 'delete-abstract-non-virtual-dtor', 'mismatched-new-delete', 'self-move']


def tmpl(t):
    return (t or '').split('<')[0].replace('const ', '').strip()


def split_args(t):
    """template name and arguments of a type"""
    i = t.find('<')
    if i < 0:
        return t.strip(), []
    name, depth, cur, out = t[:i].strip(), 0, '', []
    for ch in t[i:]:
        if ch == '<':
            depth += 1
            if depth == 1:
                continue
        if ch == '>':
            depth -= 1
            if depth == 0:
                break
        if ch == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return name, out + ([cur.strip()] if cur.strip() else [])


class Types:
    def __init__(self, p):
        self.p = p
        self.edges = {}             # class -> [(kind, target, field)]; kind own/shared/weak/borrow
        for q, c in p.classes.items():
            es = []
            for f in c['fields']:
                self.walk(f['t'], 'own', f, es)
            for b in c['bases']:
                if b in p.classes:
                    es.append(('own', b, None))
            self.edges[q] = es

    def walk(self, t, how, f, out):
        t = t.strip()
        for w in ('const ', 'volatile ', 'mutable '):
            while t.startswith(w):
                t = t[len(w):]
        while t.endswith(' const'):
            t = t[:-6]
        if t.endswith(('*', '&')):
            return self.walk(t.rstrip('*& '), 'borrow', f, out)
        name, args = split_args(t)
        if name in ('std::function', 'std::allocator', 'std::less', 'std::basic_ostream'):
            return
        if name in ('std::basic_string_view', 'std::span', '__gnu_cxx::__normal_iterator', 'std::reference_wrapper'):
            if name == 'std::basic_string_view' or 'basic_string' in t:
                out.append(('borrow', TEXT, f))
            for a in args[:1]:
                self.walk(a, 'borrow', f, out)
            return
        if name == 'std::basic_string':
            out.append((how, TEXT, f))
            return
        if name in ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr'):
            k = {'std::unique_ptr': how if how == 'borrow' else 'own', 'std::shared_ptr': how if how == 'borrow' else 'shared',
                 'std::weak_ptr': 'borrow'}[name]
            return self.walk(args[0], k, f, out) if args else None
        if t in self.p.classes or name in self.p.classes:
            out.append((how, t if t in self.p.classes else name, f))
            return
        for a in args:
            self.walk(a, how, f, out)

    def closure(self, q):
        seen, todo = {q}, [q]
        while todo:
            for k, t, _ in self.edges.get(todo.pop(), ()):
                if k in ('own', 'shared') and t not in seen:
                    seen.add(t)
                    todo.append(t)
        return seen

    def holders(self, q):
        """classes with a field that holds a q by value or through an owner"""
        return {c for c, es in self.edges.items() for k, t, f in es if t == q and k != 'borrow' and f is not None}


def strip(fn, i, casts=True):
    while True:
        n = fn['nodes'].get(i)
        if n is None:
            return i
        if n['k'] in ('pass', 'cast') and 'x' in n:
            i = n['x']
        elif n['k'] == 'ctor' and len(n['args']) == 1 and n['fn'].get('ctor') in ('copy', 'move'):
            i = n['args'][0]
        elif n['k'] == 'call' and n['fn'].get('n') in ('move', 'forward') and len(n['args']) == 1:
            i = n['args'][0]
        else:
            return i


def loc(fn, n):
    return '%s:%s' % (fn['file'], n.get('l', fn['line']))


def raw_ptr(fn, i):
    """the argument is a plain pointer"""
    n = fn['nodes'].get(i, {})
    t = n.get('t', '')
    return t.endswith('*') and '(*)' not in t


def own_new(fn, i):
    n = fn['nodes'].get(strip(fn, i), {})
    return n.get('k') in ('new', 'null', 'zero')


def check(ctx):
    p = ctx.p
    T = Types(p)
    manual(ctx, p)
    given(ctx, p, T)
    fields(ctx, p, T)
    cycles(ctx, p, T)
    giving(ctx, p)
    closures(ctx, p)
    bases(ctx, p)
    texts(ctx, p, T)
    dangling(ctx, p)


# ---------- allocation by hand ----------
ALLOC = ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'aligned_alloc', 'destroy_at', 'construct_at', 'uninitialized_copy')


def manual(ctx, p):
    sites = 0
    for fn in p.fns.values():
        ctx.seen(fn)
        owned = set()
        for n in fn['nodes'].values():
            if n['k'] == 'ctor' and tmpl(n.get('cls')) in SMART or \
                    n['k'] == 'call' and n['fn'].get('n') in ('reset', 'operator=') and tmpl(n['fn'].get('cls')) in SMART:
                for a in n['args']:
                    owned.add(strip(fn, a))
        for i, n in sorted(fn['nodes'].items()):
            w = '%s in %s' % (n['k'], fn['q'])
            if n['k'] == 'delete':
                ctx.check(False, 'nothing is deleted by hand', w, 'an object is deleted by hand', loc(fn, n))
            elif n['k'] == 'new':
                ctx.check(i in owned, 'a new object goes into an owner', w, 'a new %s does not go straight into an owner' %
                          n.get('nt', 'object'), loc(fn, n))
            elif n['k'] == 'call' and n['fn'].get('n') in ALLOC and not n['fn'].get('repo') and \
                    not (n['fn'].get('cls') or '').startswith('argos'):
                ctx.check(False, 'nothing is deleted by hand', '%s in %s' % (n['fn']['n'], fn['q']),
                          'memory is managed by hand with %s' % n['fn']['n'], loc(fn, n))
            elif n['k'] == 'call' and n['fn'].get('n') == 'release' and tmpl(n['fn'].get('cls')) in SMART:
                sites += 1
                ctx.check(i in owned, 'a released object goes into an owner', 'release in ' + fn['q'],
                          'what a unique owner released does not go straight into another owner', loc(fn, n))
            elif n['k'] == 'ctor' and tmpl(n.get('cls')) in SMART[:2] or n['k'] == 'call' and n['fn'].get('n') == 'reset' and \
                    tmpl(n['fn'].get('cls')) in SMART[:2]:
                sites += 1
                what = 'owner in ' + fn['q']
                args = n['args']
                if args and raw_ptr(fn, args[0]):
                    src = fn['nodes'].get(strip(fn, args[0]), {})
                    ok = own_new(fn, args[0]) or src.get('k') == 'call' and src['fn'].get('n') == 'release' and \
                        tmpl(src['fn'].get('cls')) in SMART
                    ctx.check(ok, 'no owner of a borrowed object', what, 'an owner is made from a pointer that it does not own', loc(fn, n))
                else:
                    ctx.ob('no owner of a borrowed object')
                ctx.check(len(args) < 2, 'no own deleter or alias', what,
                          'an owner is made with a deleter of its own or as an alias', loc(fn, n))
    ctx.floor('owners made', sites, 40)
    ctx.sample('%d sites where an owner is made, reset or released' % sites)


def given(ctx, p, T):
    """what a borrower is constructed with to keep alive what it refers to"""
    borrows = {q for q, es in T.edges.items() if any(k == 'borrow' for k, _, _ in es) and any(k == 'shared' for k, _, _ in es)}
    n = 0
    for fn in p.fns.values():
        for i, x in sorted(fn['nodes'].items()):
            if x['k'] == 'call' and x['fn'].get('n') in ('make_shared', 'make_unique'):
                q = split_args(x.get('t', ''))[1][:1]
                q = q[0] if q else ''
            elif x['k'] == 'ctor' and x['fn'].get('ctor') == 'other':
                q = x['cls']
            else:
                continue
            if q not in borrows:
                continue
            for a in x['args']:
                t = fn['nodes'].get(a, {}).get('t', '').replace('const ', '')
                if tmpl(t) != 'std::shared_ptr':
                    continue
                n += 1
                s = fn['nodes'].get(strip(fn, a), {})
                while s.get('k') == 'ctor' and tmpl(s.get('cls')) == 'std::shared_ptr' and len(s['args']) == 1:
                    s = fn['nodes'].get(strip(fn, s['args'][0]), {})
                bad = s.get('k') in ('null', 'new', 'zero') or s.get('k') == 'ilist' and not s['elems'] or \
                    s.get('k') == 'ctor' and not s['args'] or s.get('k') == 'call' and s['fn'].get('n') in ('make_shared', 'make_unique')
                ctx.check(not bad, 'what is referred to is kept alive', '%s in %s' % (q, fn['q']),
                          'a %s is made with an owner that does not own what it refers to' % q, loc(fn, x))
    ctx.floor('owners given to borrowers', n, 8)


# ---------- fields ----------
def fields(ctx, p, T):
    defs = set()
    for c in ('argos::Argument', 'argos::Option', 'argos::Command'):
        for k, t, f in T.edges.get(c, ()):
            if k == 'own' and t in p.classes:
                defs.add(t)
    ctx.floor('classes of definitions', len(defs), 3)
    views = set()
    for q, c in p.classes.items():
        b = list(c['bases'])
        while b:
            x = b.pop()
            if x.split('::')[-1] == 'IArgumentView':
                views.add(q)
            b += p.classes.get(x, {}).get('bases', [])
    ctx.floor('view classes', len(views), 3)
    n = 0
    for q, c in sorted(p.classes.items()):
        for k, t, f in T.edges[q]:
            if f is None:
                continue
            n += 1
            w = '%s:%s' % (c['file'], f['line'])
            if t in defs:
                ctx.check(k != 'shared', 'a definition has one owner', '%s::%s' % (q, f['n']),
                          'a definition can have several owners', w)
            m = re.search(r'unique_ptr<[^<>]*, ', f['t'])
            ctx.check(not m, 'no own deleter or alias', '%s::%s' % (q, f['n']), 'a unique owner with a deleter of its own', w)
            if k != 'borrow' or q in views:
                continue
            ok = covered(p, T, q, t, set())
            ctx.check(ok, 'what is referred to is kept alive', '%s::%s' % (q, f['n']),
                      '%s refers to %s through %s, but nothing it owns, or its holder owns, keeps that alive' %
                      (q, 'text' if t == TEXT else t, f['n']), w)
    ctx.floor('fields', n, 60)
    ctx.sample('%d owning or referring components of fields in %d classes; definitions: %s' %
               (n, len(p.classes), ', '.join(sorted(x.split('::')[-1] for x in defs))))
    # counted owners are the only ones results and values refer through
    for q in ('argos::ParsedArguments', 'argos::ArgumentValue', 'argos::ArgumentValues', 'argos::ArgumentValueIterator',
              'argos::ParsedArgumentsBuilder'):
        if q not in p.classes:
            raise AnalysisBroken('class %s not found' % q)
        ok = any(k == 'shared' and not f['t'].startswith(('std::vector', 'std::list')) for k, t, f in T.edges[q] if f)
        ctx.check(ok, 'results are counted', q, '%s does not count its result' % q, p.classes[q]['file'])


def covered(p, T, q, t, seen):
    if q in seen:
        return False
    seen.add(q)
    if t in T.closure(q) - ({q} if t == q else set()) or t == q:
        return True
    hs = T.holders(q)
    public = p.classes[q]['file'].startswith('include/')
    if not hs:
        # never stored: a helper on the stack, unless users hold it
        return not public
    return all(covered(p, T, h, t, seen) for h in hs)


# ---------- cycles of counted owners ----------
class Fresh:
    def __init__(self, cyc):
        self.cyc = cyc

    def fresh(self, fn, nid, depth=0):
        i = strip(fn, nid)
        n = fn['nodes'].get(i, {})
        if n.get('k') == 'call' and n['fn'].get('n') in ('make_shared', 'make_unique'):
            return not self.leads(fn, n)
        if n.get('k') == 'new':
            return True
        if n.get('k') in ('null', 'ilist'):
            return True
        if n.get('k') == 'ctor' and not n['args']:
            return True
        if n.get('k') == 'ctor' and tmpl(n.get('cls')) in SMART and len(n['args']) == 1 and depth < 4:
            return self.fresh(fn, n['args'][0], depth + 1)
        if n.get('k') == 'var' and n.get('st') == 'local' and depth < 4:
            return self.local(fn, n['d'], depth)
        return False

    def local(self, fn, d, depth):
        """every definition of the local variable is fresh"""
        found = False
        for n in fn['nodes'].values():
            if n['k'] == 'decl':
                for v in n['vars']:
                    if v.get('d') == d:
                        x = v.get('init', v.get('x'))
                        if x is not None:
                            if not self.fresh(fn, x, depth + 1):
                                return False
                            found = True
            elif n['k'] == 'call' and n['fn'].get('n') in ('operator=', 'reset') and n.get('args'):
                a = fn['nodes'].get(strip(fn, n['args'][0]), {})
                if a.get('k') == 'var' and a.get('d') == d:
                    return False
        return found

    def leads(self, fn, n):
        return any(tmpl(self.t(fn, a)) in SMART[:2] and any(c in self.t(fn, a) for c in self.cyc) for a in n['args'])

    def t(self, fn, a):
        return fn['nodes'].get(a, {}).get('t', '')


ADD = ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front', 'assign', 'operator=', 'swap', 'reset')


def cycles(ctx, p, T):
    """fields with a counted owner through which the object itself can be reached again"""
    back = []
    for q, es in T.edges.items():
        for k, t, f in es:
            if k == 'shared' and f is not None and t in p.classes and q in T.closure(t):
                back.append((q, f['n'], t))
    for q, es in T.edges.items():
        ctx.ob('no cycle of owners', len(es))
    n = 0
    for q, f, t in back:
        cyc = {c for c in T.closure(t) if q in T.closure(c)} | {q}
        rule = Fresh(cyc)
        used = 0
        for fn in p.fns.values():
            for i, node in fn['nodes'].items():
                if node['k'] == 'mem' and node.get('f') == f and node.get('cls') == q:
                    used += 1
            for i, node in sorted(fn['nodes'].items()):
                args = []
                if node['k'] == 'call' and node['fn'].get('n') in ADD:
                    args = targets(fn, node, q, f)
                elif node['k'] == 'asg' and is_field(fn, node['a'], q, f):
                    args = [node['b']]
                for a in args or ():
                    n += 1
                    at = fn['nodes'].get(strip(fn, a), {})
                    if at.get('k') == 'int' or '__normal_iterator' in at.get('t', ''):
                        continue
                    ctx.check(rule.fresh(fn, a), 'no cycle of owners', '%s::%s in %s' % (q, f, fn['q']),
                              'the list %s of counted owners gets an object that was not just made, or that is given an owner of '
                              'what it is added to: they may keep each other alive' % f, loc(fn, node))
        ctx.floor('uses of %s' % f, used, 1)
    ctx.sample('members that could close a cycle of counted owners: %s; %d additions' %
               (', '.join('%s::%s' % (q, f) for q, f, _ in back) or 'none', n))


def is_field(fn, i, q, f):
    n = fn['nodes'].get(i)
    while n is not None:
        if n['k'] == 'mem':
            if n.get('f') == f and n.get('cls') == q:
                return True
            n = fn['nodes'].get(n.get('b'))
        elif n['k'] in ('pass', 'cast', 'un') and 'x' in n:
            n = fn['nodes'].get(n['x'])
        elif n['k'] == 'call' and n['fn'].get('n') in ('operator*', 'operator[]', 'operator->', 'back', 'front', 'at', 'begin', 'end'):
            n = fn['nodes'].get(obj(fn, n))
        elif n['k'] == 'sub':
            n = fn['nodes'].get(n['a'])
        else:
            return False
    return False


def obj(fn, n):
    if 'obj' in n:
        return n['obj']
    m = fn['nodes'].get(n.get('f'))
    if m is not None and m['k'] == 'memfn':
        return m.get('b')
    return n['args'][0] if n.get('args') else None


def targets(fn, n, q, f):
    """the values that a call adds to the field"""
    o = obj(fn, n)
    if o is None or not is_field(fn, o, q, f):
        return []
    args = list(n['args'])
    if args and args[0] == o:
        args = args[1:]
    return args


# ---------- giving away ----------
class Give(E.Rule):
    def inline(self, eng, fn):
        return False


def giving(ctx, p):
    n = 0
    for fn in sorted(p.fns.values(), key=lambda f: (f['q'], f['line'])):
        if not (fn.get('rt') or '').startswith('std::unique_ptr<') or fn['rt'].endswith('&') or not fn.get('body', True):
            continue
        for o in ctx.run(fn, Give()):
            if o.kind != 'ret':
                continue
            n += 1
            v = o.val
            bad = None
            if isinstance(v, tuple) and v[0] == 'init' and isinstance(v[1], tuple):
                now = o.st.store.get(v[1], v)
                if now == v:
                    bad = v[1]
            ctx.check(bad is None, 'what is returned is not kept', fn['q'], 'the owner that is returned is still held by %s' %
                      (show(('p', bad)) if bad else ''), where(o, fn), o.st.path())
    ctx.floor('outcomes of functions that return a unique owner', n, 6)


# ---------- closures ----------
def closures(ctx, p):
    n = 0
    for fn in p.fns.values():
        parent = {}
        for i, x in fn['nodes'].items():
            if x['k'] in ('pass', 'cast') and 'x' in x:
                parent.setdefault(x['x'], []).append(i)
            elif x['k'] == 'ctor':
                for a in x['args']:
                    parent.setdefault(a, []).append(i)
        for i, x in sorted(fn['nodes'].items()):
            if x['k'] != 'lambda':
                continue
            n += 1
            todo, stored, seen = [i], False, set()
            while todo:
                j = todo.pop()
                if j in seen:
                    continue
                seen.add(j)
                if fn['nodes'][j].get('t', '').replace('const ', '').startswith('std::function<'):
                    stored = True
                todo += parent.get(j, [])
            if not stored:
                ctx.ob('stored functions refer to nothing local')
                continue
            for c in x['caps']:
                v = fn['nodes'].get(c.get('x'), {})
                s = fn['nodes'].get(strip(fn, c.get('x')), {}) if 'x' in c else {}
                if c['kind'] == 'ref':
                    ok = s.get('k') == 'var' and (s.get('dt') or '').endswith('&') and s.get('st') == 'param'
                    ctx.check(ok, 'stored functions refer to nothing local', '%s in %s' % (c.get('n'), fn['q']),
                              'a stored function refers to the local variable %s' % c.get('n'), loc(fn, x))
                else:
                    t = s.get('t', '') or v.get('t', '')
                    ctx.check('shared_ptr<' not in t, 'stored functions own nothing counted', '%s in %s' % (c.get('n'), fn['q']),
                              'a stored function keeps a counted owner (%s)' % c.get('n'), loc(fn, x))
    ctx.floor('lambdas', n, 6)


# ---------- base classes ----------
def bases(ctx, p):
    owned = set()
    for fn in p.fns.values():
        for x in fn['nodes'].values():
            for t in (x.get('t') or '', x.get('cls') or ''):
                for m in re.findall(r'std::unique_ptr<(argos::\w+)', t):
                    owned.add(m)
    n = 0
    for q in sorted(owned):
        if any(q in c['bases'] for c in p.classes.values()):
            n += 1
            ds = [m for m in p.classes[q]['methods'] if m.get('dtor')]
            ctx.check(any(m.get('virtual') for m in ds), 'virtual destructor', q,
                      'objects are deleted through %s, which has no virtual destructor' % q, p.classes[q]['file'])
    ctx.floor('bases that objects are deleted through', n, 1)


# ---------- views of texts ----------
def dies(fn, i):
    """the argument is a text (or has a text) that ends with the function or the expression"""
    j = strip(fn, i)
    n = fn['nodes'].get(j, {})
    t = (n.get('dt') if n.get('k') == 'var' else None) or n.get('t', '')
    t = t.replace('const ', '').strip()
    if not t.startswith(('std::basic_string<', 'std::pair<std::basic_string<', 'std::tuple<std::basic_string<')) or \
            t.endswith(('&', '*')):
        return None
    if n.get('k') == 'var' and n.get('st') in ('local', 'param'):
        return 'the local variable %s' % n.get('n')
    if n.get('k') in ('call', 'ctor', 'str') and not n.get('lv'):
        return 'a temporary'
    return None


def texts(ctx, p, T):
    borrows = {q for q, es in T.edges.items() if any(k == 'borrow' and t == TEXT for k, t, _ in es)}
    n = 0
    for fn in p.fns.values():
        returned = set()
        for x in fn['nodes'].values():
            if x['k'] == 'ret' and 'x' in x:
                v = fn['nodes'].get(strip(fn, x['x']), {})
                if v.get('k') == 'var':
                    returned.add(v.get('d'))
        for i, x in sorted(fn['nodes'].items()):
            args = []
            if x['k'] == 'call' and x['fn'].get('n') in ADD and 'obj' in x:
                c = fn['nodes'].get(strip(fn, x['obj']), {})
                t = c.get('t', '')
                if 'basic_string_view' not in t or 'basic_string<' in t or not t.replace('const ', '').startswith('std::'):
                    continue
                if tmpl(t) in ('std::basic_string_view', 'std::optional') and c.get('k') == 'var':
                    continue
                if c.get('k') == 'var' and c.get('st') == 'local' and not (c.get('dt') or '').endswith('&') and \
                        c.get('d') not in returned:
                    continue
                args = x['args']
            elif x['k'] == 'ctor' and x.get('cls') in borrows and x['fn'].get('ctor') == 'other':
                args = [a for a, pt in zip(x['args'], x['fn'].get('pt') or []) if 'basic_string_view' in pt and
                        'basic_string<' not in pt]
            elif x['k'] == 'call' and x['fn'].get('n') == 'make_shared' and any(q in x.get('t', '') for q in borrows):
                q = (split_args(x.get('t', ''))[1] or [''])[0]
                args = [a for a, pt in zip(x['args'], x['fn'].get('pt') or []) if 'basic_string_view' in pt] if q in borrows else []
            for a in args:
                n += 1
                d = dies(fn, a)
                ctx.check(not d, 'nothing that dies is returned or kept', '%s in %s' % (d, fn['q']),
                          'a view of %s is kept' % d, loc(fn, x))
    ctx.floor('views of texts that are kept', n, 10)


# ---------- what dies with the function ----------
def dangling(ctx, p):
    work = tempfile.mkdtemp(prefix='argoslife.')
    try:
        facts._version_header(p.repo, work)
        inc = ['-I' + p.repo + '/include', '-I' + work] if p.name == 'src' else ['-I' + p.repo + '/single_src']
        clang = next((c for c in (facts.LLVM + '/bin/clang++', '/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(c)), None)
        if not clang:
            raise AnalysisBroken('clang++ 18 not found')
        cmd = [clang, '-std=c++20', '-DNDEBUG', '-fsyntax-only', '-fno-caret-diagnostics', '-Wno-everything', '-ferror-limit=0'] + \
            ['-W' + w for w in WARN] + inc

        def one(u):
            return u, subprocess.run(cmd + [u], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=work)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, p.units))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for u, r in rs:
        if r.returncode:
            raise AnalysisBroken('clang cannot check %s:\n%s' % (u, r.stdout[-1500:]))
        ctx.ob('nothing that dies is returned or kept', sum(1 for f in p.fns.values() if os.path.join(p.repo, f['file']) == u))
        for l in r.stdout.splitlines():
            m = re.match(r'(.*?):(\d+):\d+: warning: (.*) \[-W([\w-]+)\]', l)
            if m:
                f = os.path.relpath(m.group(1), p.repo)
                ln = int(m.group(2))
                fn = next((x['q'] for x in p.fns.values() if x['file'] == f and x['line'] <= ln <= x.get('end', x['line'])), f)
                ctx.check(False, 'nothing that dies is returned or kept', '%s in %s' % (m.group(4), fn), m.group(3), '%s:%d' % (f, ln))
