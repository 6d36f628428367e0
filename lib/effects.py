"""Effects of a function: every write, container change and completed loop, as distinct events."""
import engine as E
from engine import FALSE, TRUE, NULL, NONE, TOP


def leaves(vs):
    out = []
    for v in vs:
        if isinstance(v, tuple) and v and v[0] in ('tup', 'ilist'):
            out += leaves(v[1])
        else:
            out.append(v)
    return out


class Effects(E.Rule):
    """ts: tuple of distinct events in order of first occurrence
    ('w', place, value) | ('add', place, name, values...) | ('del', place, name, ...) |
    ('forall', place, events or None)"""
    track_loops = True

    def __init__(self, pins=None, places=None, opaque=(), exact=None):
        self.pins = dict(pins or {})        # suffix of a place -> value it starts with
        self.exact = dict(exact or {})      # place -> value
        self.places = places                # predicate: which places are of interest
        self.opaque = set(opaque)

    def on_init(self, eng, st, place):
        v = self.exact.get(place)
        if v is not None:
            return v
        for n in range(min(4, len(place)), 0, -1):
            if len(place) > n or place[:1] == self.pins.get('root') or n == len(place):
                v = self.pins.get(place[-n:])
                if v is not None and (len(place) > n or place[0][0] == 'G'):
                    return v
        return None

    def inline(self, eng, fn):
        return fn['q'] not in self.opaque and fn['n'] not in self.opaque

    def note(self, eng, st, ev):
        eng.iter_event(st, ev)
        if ev not in (st.ts or ()):
            st.ts = (st.ts or ()) + (ev,)

    def wanted(self, place):
        return place[0][0] not in ('L', 'T', 'B') if self.places is None else self.places(place)

    def on_write(self, eng, st, fr, place, val, node):
        if not self.wanted(place):
            return
        if val[0] in ('add', 'del'):
            self.note(eng, st, (val[0], place) + val[1:])
        else:
            self.note(eng, st, ('w', place, val))

    def on_forall(self, eng, st, fr, P, evs, node):
        self.note(eng, st, ('forall', P, evs))


def elem(P):
    """place of the object an element of the container of owning pointers P points to"""
    return (('O', ('init', P + ('[]',))),)


def foralls(ts, P):
    return [e[2] for e in ts or () if e[0] == 'forall' and e[1] == P]


def sizes(facts, nonnull=()):
    """setup function: {place of a container: is it empty?}, places of pointers that are set"""
    def setup(st):
        for P in nonnull:
            st.facts[('init', P)] = ('!=', frozenset({NULL}))
        for P, empty in facts.items():
            st.facts[('size', P)] = ('=', FALSE) if empty else ('!=', frozenset({FALSE}))
    return setup


def under(place, root):
    return place[:len(root)] == root


def appended(ev):
    """what an ('add', ...) event appends at the end of its container, else None"""
    if ev[0] == 'add' and ev[2] in ('push_back', 'emplace_back'):
        return ev[3:]
    if ev[0] == 'add' and ev[2] in ('insert', 'emplace') and ev[3:4] == (('end', ev[1]),):
        return ev[4:]
    return None


def show_ev(e):
    if e[0] == 'forall':
        return 'loop over %s {%s}' % (E.show(('p', e[1])), '; '.join(show_ev(x) for x in e[2] or ()))
    return '%s %s %s' % ({'w': 'set', 'add': 'grow', 'del': 'cut'}.get(e[0], e[0]), E.show(('p', e[1])),
                         ' '.join(E.show(x) if isinstance(x, tuple) else str(x) for x in e[2:]))
