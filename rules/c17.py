"""C17: all output goes to the stream the parser was given."""
import engine as E
from engine import show, NULL
from facts import AnalysisBroken
from effects import Effects
from callgraph import callees
from c04 import where

RULE = """
(a) Everything that is written by the functions that write help, usage, errors and the version, and by the text formatter they
use, goes to the stream that is set for the parser; only when that is null does it go to std::cout, or to std::cerr for error messages.
ParsedArgumentsBuilder::stream() returns just that stream.
(b) The formatter and its line writer write to the stream they are given and nowhere else; without one they use std::cout.
(c) ArgumentParser::stream(s) is the only thing that changes the stream; print() writes to its own stream only, or std::cout.
(d) Every output operation of the library is in a function that was examined for (a) to (c).
"""
EXPLAIN = """
Value provenance: the functions are interpreted and the stream operand of every output operation is compared with the parser's stream
under the conditions of its path; every output operation, reference to a standard stream and formatter in the program is enumerated.
"""
ASSUME = ["text is written to ostreams, not through system calls made by the standard library"]

F, W = 'argos::TextFormatter', 'argos::TextWriter'
OS = 'std::basic_ostream<char>'
STD = ('std::cout', 'std::cerr', 'std::clog')
CIO = {'printf', 'fprintf', 'puts', 'fputs', 'putchar', 'putc', 'fputc', 'fwrite', 'perror', 'vprintf', 'vfprintf', 'dprintf', 'system', 'println'}
OUT = {'write', 'put', 'flush', 'operator<<', '_M_insert'}
FILES = ('basic_ofstream', 'basic_fstream', 'basic_osyncstream', 'basic_filebuf', 'FILE')


def glob(q):
    return ('p', (('G', q),))


def is_sink(ref, n):
    """indexes of the stream operands of an output operation that is not a function of the repository ('obj' for the object)"""
    if not ref or ref.get('repo') and ref.get('body', True):
        return []
    res = []
    if ref.get('cls') in ('std::basic_ostream', 'std::basic_iostream') and ref.get('n') in OUT:
        res.append('obj')
    for i, t in enumerate(ref.get('pt') or []):
        if t.startswith(OS) and t.rstrip().endswith(('&', '*')):
            res.append(i)
    return res


class Streams(Effects):
    """ts: (stream of the formatter, ((sink, value, line)...))"""

    def __init__(self, formatter=True, own=()):
        Effects.__init__(self)
        self.formatter, self.own = formatter, own

    def inline(self, eng, fn):
        return True

    def on_write(self, *a):
        pass

    on_forall = on_write

    def sink(self, st, what, v, node):
        cur, ev = st.ts or (None, ())
        e = (what, v, node.get('l'))
        if e not in ev:
            st.ts = (cur, ev + (e,))

    def on_call(self, eng, st, fr, nid, node, c):
        ref = c.ref
        cur, ev = st.ts or (None, ())
        for i in is_sink(ref, node):
            if i == 'obj':
                v = ('p', c.objplace()) if c.objplace() else E.TOP
            else:
                v = stream_value(c, i, ref['pt'][i])
            if v[0] == 'p' and v[1][0][0] in ('L', 'T') and len(v[1]) == 1:
                return None         # a local string stream
            self.sink(st, c.n, v, node)
            return ('val', v if c.n == 'operator<<' else E.TOP)
        if ref.get('id') in self.own:
            self.sink(st, c.n, stream_value(c, 1, ref['pt'][1]), node)
            return ('val', E.TOP)
        if not self.formatter:
            return None
        if c.cls == F and ref.get('ctor'):
            pt = ref.get('pt') or []
            v = c.rv(0) if pt and pt[0].startswith(OS) else glob('std::cout')
            if pt and pt[0].rstrip('& ').endswith(F):
                return ('val', E.TOP)
            st.ts = (v, ev)
            return ('val', E.TOP)
        if c.cls == F:
            if c.n == 'set_stream':
                st.ts = (c.rv(0), ev)
            elif c.n == 'stream':
                return ('val', cur or E.TOP)
            elif not ref.get('const') and c.n not in ('word_splitter', 'set_line_width') and '~' not in c.n:
                self.sink(st, 'formatter', cur or E.TOP, node)
            return ('val', E.TOP)
        if any(t.rstrip('& ').endswith(F) and t.rstrip().endswith('&') for t in ref.get('pt') or []) and ref.get('id') not in self.config:
            self.sink(st, 'formatter', cur or E.TOP, node)
            return ('val', E.TOP)
        for i in range(c.nargs()):
            v = c.rv(i)
            if v[0] == 'clo' and v[1] in eng.p.fns and not ref.get('repo'):
                return None
            if v[0] == 'clo' and v[1] in eng.p.fns and eng.p.fns[v[1]] and self.closures is not None:
                self.closures.append((st.copy(), fr, v))
        if ref.get('repo') and ref.get('id') not in self.relevant and not str(ref.get('t')).rstrip().endswith(('&', '*')):
            return ('val', E.TOP)
        return None

    config, closures, relevant = (), None, ()


def stream_value(c, i, t):
    v = c.rv(i)
    if t.rstrip().endswith('&'):
        r = c.raw(i)
        return r if r and r[0] == 'p' else v
    return v


def pointer(v):
    """the pointer whose target the stream is"""
    if v[0] == 'p' and len(v[1]) == 1 and v[1][0][0] == 'O':
        return v[1][0][1]
    return v


class Judge:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.roles
        self.name = self.r.attr('argos::ArgumentParser', 'stream')[-1]
        self.seen = set()

    def path_ok(self, st, v, default):
        """None or what is wrong with writing to v"""
        v = pointer(v)
        if v[:2] == ('f', 'argos::ParsedArgumentsBuilder::stream'):
            return None         # judged by itself
        if v[0] == 'init' and v[1][-1] == self.name and v[1][0][0] != 'L':
            f = st.facts.get(v)
            if f == ('=', NULL):
                return 'output is written to the null stream'
            if f and f[0] == '!=' and NULL in f[1]:
                return None
            return 'the stream of the parser is used without asking whether it is set'
        if v == glob(default):
            if any(k[0] == 'init' and k[1][-1] == self.name and f == ('=', NULL) for k, f in st.facts.items()):
                return None
            return '%s is used although the parser may have a stream' % default
        return 'output goes to %s instead of the stream of the parser' % show(v)

    def run(self, fn, rule, default, key, setup=None):
        ctx, n = self.ctx, 0
        eng = []
        for o in ctx.run(fn, rule, engine=eng, setup=setup):
            self.seen |= eng[0].fns_seen
            if o.kind not in ('ret', 'exit'):
                continue
            for what, v, line in (o.st.ts or (None, ()))[1]:
                n += 1
                bad = self.path_ok(o.st, v, default) if default else None
                ctx.check(not bad, 'stream', key, bad or '', '%s:%s' % (fn['file'], line), o.st.path())
        self.seen.add(fn['id'])
        return n


def check(ctx):
    p, r = ctx.p, ctx.roles
    j = Judge(ctx)
    fm = {i for i, f in p.fns.items() if f.get('blocks') and f.get('cls') != F and any(
        a['t'].rstrip().endswith('&') and a['t'].rstrip('& ').endswith(F) for a in f['params'])}
    std = {i: standard(p, f) for i, f in p.fns.items()}
    # functions with a formatter parameter that choose its stream are interpreted, the others only write to it
    config = {i for i in fm if std[i] or any((n.get('fn') or {}).get('n') in ('set_stream',) for n in p.fns[i]['nodes'].values())
              or any(n['k'] == 'mem' and n.get('f') == j.name for n in p.fns[i]['nodes'].values())}
    from callgraph import Graph
    g = Graph(p)
    Streams.relevant = g.reach_to({i for i, f in p.fns.items() if std[i] or any(True for _ in output_sites(p, f, std[i]))
                                   or any(stores(x, j.name, f) for x in f['nodes'].values())} | {i for i, f in p.fns.items() if f.get('cls') in (F, W)})
    base = ['const %s &' % r.PD, 'const %s &' % r.CD]
    tops = [f for f in p.fns.values() if [a['t'] for a in f['params']][:2] == base and f.get('ret', f.get('t')) == 'void' and f.get('blocks')]
    helps = [f for f in tops if len(f['params']) == 2]
    errs = [f for f in tops if len(f['params']) > 2 and 'basic_string' in f['params'][2]['t']]
    ctx.floor('functions that write help', len(helps), 1)
    ctx.floor('functions that write errors', len(errs), 1)
    n = 0
    for fs, default, what in ((helps, 'std::cout', 'help'), (errs, 'std::cerr', 'error messages')):
        for f in fs:
            rule = Streams()
            rule.config = config
            k = j.run(f, rule, default, what)
            ctx.check(k, 'stream', what, 'nothing is written', '%s:%s' % (f['file'], f['line']))
            n += k
    # ---- version and other callbacks of options the library adds ----
    prep = p.find(None, ptypes=[r.PD + ' &']) if False else [f for f in p.fns.values() if [a['t'] for a in f['params']] == [r.PD + ' &'] and f.get('blocks')]
    for f in prep:
        rule = Streams()
        rule.config, rule.closures = config, []
        rule.inline = lambda eng, fn: not fn.get('cls') or fn.get('lambda')
        eng = []
        list(ctx.run(f, rule, engine=eng))
        j.seen |= eng[0].fns_seen
        for st, fr, v in rule.closures:
            st.ts = None
            lam = p.fns[v[1]]
            args = [('obj', (('arg', a['n'] or 'p%d' % a['d']),)) for a in lam['params']]
            j.seen.add(lam['id'])
            for o in eng[0].call_fn(st, E.Frame(f, 0), lam, None, args, lam['line'], caps=v[2]):
                for what, x, line in (o.st.ts or (None, ()))[1]:
                    n += 1
                    bad = j.path_ok(o.st, x, 'std::cout')
                    ctx.check(not bad, 'stream', 'callbacks', bad or '', '%s:%s' % (lam['file'], line), o.st.path())
    # ---- what is handed out ----
    for f in p.by_q.get('argos::ParsedArgumentsBuilder::stream', []):
        for o in ctx.run(f, Streams()):
            if o.kind == 'ret':
                n += 1
                bad = j.path_ok(o.st, o.val, 'std::cout')
                ctx.check(not bad, 'stream', 'ParsedArgumentsBuilder::stream', bad or '', where(o, f), o.st.path())
        j.seen.add(f['id'])
    # ---- the formatter ----
    wf = [x['n'] for x in p.cls(F)['fields'] if x['t'] == W]
    sf = [x['n'] for x in p.cls(W)['fields'] if x['t'].startswith(OS)]
    if len(wf) != 1 or len(sf) != 1:
        raise AnalysisBroken('cannot identify the stream of the formatter')
    own = (('this', F), wf[0], sf[0])
    for f in sorted(p.fns.values(), key=lambda f: (f['file'], f['line'])):
        if f.get('cls') not in (F, W) or f.get('implicit') or not f.get('blocks') or f.get('lambda'):
            continue
        if f.get('access') != 'public' and not f.get('ctor'):
            continue
        mine = own if f['cls'] == F else (('this', W), sf[0])
        eng = []
        rule = Streams(formatter=False)
        if f['cls'] == F:
            rule.inline = lambda eng, fn: fn.get('cls') in (F, W)
        if f['cls'] == F and not f.get('ctor') and f['n'] not in ('set_stream', 'stream', 'newline', 'flush'):
            continue
        key = '%s::%s(%s)' % (f['cls'].split('::')[-1], f['n'], ', '.join(a['t'] for a in f['params']))
        sp = [a for a in f['params'] if a['t'].startswith(OS)]
        for o in ctx.run(f, rule, engine=eng):
            if o.kind != 'ret':
                continue
            n += 1
            for what, v, line in (o.st.ts or (None, ()))[1]:
                ctx.check(pointer(v) == ('init', mine), 'formatter stream', key, 'it writes to %s' % show(v), '%s:%s' % (f['file'], line), o.st.path())
            v = o.st.store.get(mine)
            if f.get('ctor') or f['n'] == 'set_stream':
                ok = given(v, sp[0]['n']) if sp else v == glob('std::cout')
                ctx.check(ok, 'formatter stream', key, 'the stream is set to %s' % (show(v) if v else 'nothing'), where(o, f), o.st.path())
            else:
                ctx.check(v is None or v == ('init', mine), 'formatter stream', key, 'it changes the stream', where(o, f), o.st.path())
            if f['n'] == 'stream':
                ctx.check(o.val == ('init', mine), 'formatter stream', key, 'it returns %s' % show(o.val), where(o, f), o.st.path())
        j.seen |= eng[0].fns_seen | {f['id']}
    j.seen |= {i for i, f in p.fns.items() if f.get('cls') in (F, W)
               and not std[i] and not any(stores(x, sf[0]) for x in f['nodes'].values()) and f.get('access') != 'public'}
    # ---- print ----
    prints = [f for f in p.by_q.get('argos::print', []) if f.get('blocks')]
    two = {f['id'] for f in prints if len(f['params']) == 2}
    for f in prints:
        want = ('p', (('arg', f['params'][1]['n']),)) if len(f['params']) == 2 else glob('std::cout')
        rule = Streams(own=two)
        rule.stream = want
        clear = rule.on_call

        def on_call(eng, st, fr, nid, node, c, clear=clear):
            st.facts.clear()
            if c.cls and c.cls.startswith('argos::'):
                return ('val', E.TOP)
            return clear(eng, st, fr, nid, node, c)
        rule.on_call = on_call
        eng = []
        k = 0
        for o in ctx.run(f, rule, engine=eng):
            for what, v, line in (o.st.ts or (None, ()))[1]:
                k += 1
                ctx.check(same(v, want), 'print', 'print(%s)' % ', '.join(a['t'] for a in f['params']), 'it writes to %s' % show(v),
                          '%s:%s' % (f['file'], line), o.st.path())
        ctx.check(k, 'print', 'print', 'nothing is written', '%s:%s' % (f['file'], f['line']))
        n += k
        j.seen |= eng[0].fns_seen | {f['id']}
    # ---- who sets it ----
    for f in p.fns.values():
        if not f.get('blocks') or f.get('implicit'):
            continue
        if any(stores(x, j.name, f) for x in f['nodes'].values()):
            ok = f['q'] == 'argos::ArgumentParser::stream'
            if not ok:
                up = g.inn.get(f['id'], set())
                ok = up and all(p.fns[c]['q'] == 'argos::ArgumentParser::stream' for c in up)
            ctx.check(ok, 'setting', f['q'], 'the stream of the parser is changed', '%s:%s' % (f['file'], f['line']))
    for f in p.by_q.get('argos::ArgumentParser::stream', []):
        for o in ctx.run(f, Effects()):
            if o.kind != 'ret':
                continue
            n += 1
            ws = [e for e in o.st.ts or () if e[0] == 'w' and e[1][-1] == j.name]
            if f['params']:
                ctx.check(len(ws) == 1 and given(ws[0][2], f['params'][0]['n']), 'setting', 'stream(s)', 'the stream is not set', where(o, f), o.st.path())
            else:
                ctx.check(not ws and o.val[0] == 'init' and o.val[1][-1] == j.name, 'setting', 'stream()', 'it returns %s' % show(o.val), where(o, f), o.st.path())
    # ---- nothing else ----
    sites = 0
    for i, f in sorted(p.fns.items(), key=lambda x: (x[1]['file'], x[1]['line'])):
        for what, line in output_sites(p, f, std[i]):
            sites += 1
            if what.startswith('!'):
                ctx.check(False, 'other output', f['q'], what[1:], '%s:%s' % (f['file'], line))
            else:
                ctx.check(i in j.seen or i in fm - config, 'other output', f['q'], '%s in a function that has nothing to do with help, errors, version or print' % what,
                          '%s:%s' % (f['file'], line))
    ctx.floor('output operations', sites, 8)
    ctx.sample('%d output operations and standard streams in the program; %d stream values judged' % (sites, n))


def given(v, name):
    """the pointer that is passed as parameter name"""
    return v in (('arg', name), ('init', (('arg', name),)), ('p', (('arg', name),))) or \
        v is not None and v[0] in ('p', 'init') and len(v[1]) == 1 and v[1][0] in (('O', ('arg', name)), ('arg', name))


def same(v, want):
    return v == want or want[0] == 'p' and v[0] == 'p' and v[1] == want[1]


def stores(n, field, f=None):
    if n['k'] == 'asg' and f is not None:
        m = f['nodes'].get(n.get('a'))
        return bool(m and m['k'] == 'mem' and m.get('f') == field and 'ostream' in str(m.get('t')))
    return False


def standard(p, f):
    return [(n['q'], n.get('l')) for n in f['nodes'].values() if n['k'] == 'var' and n.get('q') in STD]


def output_sites(p, f, std):
    for q, line in std:
        yield 'a use of ' + q, line
    for n in f['nodes'].values():
        ref = n.get('fn') or {}
        t = str(n.get('t') or '') + str(n.get('dt') or '')
        if n['k'] in ('call', 'ctor', 'fnref') and not ref.get('repo') and ref.get('n') in CIO and not ref.get('cls'):
            yield '!' + 'output is written with ' + ref['n'], n.get('l')
        elif any(x in t for x in FILES) and n['k'] in ('var', 'ctor', 'decl'):
            yield '!' + 'a file is used', n.get('l')
        elif n['k'] in ('call', 'ctor') and ref.get('cls') == F and ref.get('ctor') and not f.get('cls') == F:
            yield 'a formatter', n.get('l')
        elif n['k'] in ('call', 'ctor') and is_sink(ref, n) and not local_string(f, n, ref):
            yield 'output', n.get('l')


def local_string(f, n, ref):
    """the stream operand is a local string stream"""
    for i in is_sink(ref, n):
        x = n.get('obj') if i == 'obj' else n['args'][i]
        while x is not None:
            m = f['nodes'].get(x)
            if not m:
                return False
            if m['k'] == 'call' and m.get('op') == '<<' and m.get('args'):
                x = m['args'][0]
                continue
            if m['k'] in ('cast', 'paren', 'pass'):
                x = m.get('x')
                continue
            return m['k'] == 'var' and 'stringstream' in str(m.get('dt') or m.get('t'))
    return False
