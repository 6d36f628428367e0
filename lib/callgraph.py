"""Resolved call graph of the repository's functions (direct calls, constructors, closures)."""


def callees(fn):
    for n in fn['nodes'].values():
        f = n.get('fn')
        if n['k'] in ('call', 'ctor', 'cast', 'fnref', 'memfn') and f and f.get('id'):
            yield f['id'], f, n
        if n['k'] == 'lambda':
            if n.get('call'):
                yield n['call'], None, n
            for c in n.get('calls', ()):
                yield c, None, n


class Graph:
    def __init__(self, p):
        self.p = p
        self.out, self.inn = {}, {}
        for i, f in p.fns.items():
            for c, ref, n in callees(f):
                if c in p.fns:
                    self.out.setdefault(i, set()).add(c)
                    self.inn.setdefault(c, set()).add(i)

    def reach_to(self, ids):
        """functions from which one of ids can be reached (inclusive)."""
        seen, work = set(ids), list(ids)
        while work:
            for c in self.inn.get(work.pop(), ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen

    def reach_from(self, ids):
        seen, work = set(ids), list(ids)
        while work:
            for c in self.out.get(work.pop(), ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen


def public_api(p, f):
    """member of a public class declared under include/ (or the single header)"""
    return f.get('access') == 'public' and f.get('cls') in PUBLIC


PUBLIC = {'argos::' + x for x in (
    'Argument', 'ArgumentIterator', 'ArgumentParser', 'ArgumentValue', 'ArgumentValueIterator',
    'ArgumentValues', 'ArgumentView', 'Command', 'CommandView', 'IArgumentView', 'Option',
    'OptionView', 'ParsedArguments', 'ParsedArgumentsBuilder', 'ArgosException')}
