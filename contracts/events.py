"""P01: events and named tuples. P02: the event builder."""
import importlib
import math
from pyvc.vc import harness
from contracts._events import EV, SCALARS, INTS, leaf_class, same, tree

BLD = 'dp_accounting.dp_event_builder'


def field(vc, E, Leaf, name):
    """an arbitrary value of a field; events are opaque"""
    if name == 'event': return Leaf(vc.int('uid'))
    if name in ('events', 'sensitivities', 'sampling_probs', 'step_counts'):
        if name == 'step_counts' and vc.choice('scalar steps', [True, False]): return vc.int('step_count', ge=0)
        n = vc.int('n_' + name, ge=0, le=None if vc.sym else 5)
        xs = vc.array(name, n, kind='list', ints=name in ('events', 'step_counts'))
        if name == 'events':
            if vc.sym:
                from pyvc.seq import Seq
                xs = Seq(xs.n, (lambda s: lambda j: Leaf(s.elem(j)))(xs), 'list')
            else: xs = [Leaf(x) for x in xs]
        return xs
    return vc.int(name) if name in INTS else vc.real(name)


class LeafTuple(tuple):
    """named-tuple form of an opaque event"""
    _fields = ('module_name', 'class_name', 'uid')
    module_name = 'contracts._events'
    class_name = 'LeafDpEvent'
    @property
    def uid(self): return self[0]


def hypothesis(vc, E, Leaf):
    """sub-events survive the conversion (induction on the size of the event)"""
    real_from = E.DpEvent.__dict__['from_named_tuple']
    Leaf.to_named_tuple = lambda self: LeafTuple((self.uid,))
    def from_nt(cls, obj):
        if isinstance(obj, LeafTuple): return Leaf(obj.uid)
        return real_from.__func__(cls, obj)
    vc.patch(E.DpEvent, 'from_named_tuple', classmethod(from_nt))


@harness('P01', ['DpEvent.to_named_tuple', 'DpEvent.from_named_tuple'], runs=150)
def event_survives_named_tuple(vc):
    """induction step: any event class over opaque sub-events that survive themselves"""
    E = vc.mod(EV)
    Leaf = leaf_class(E)
    c = vc.choice('class', sorted(SCALARS))
    hypothesis(vc, E, Leaf)
    event = getattr(E, c)(**{f: field(vc, E, Leaf, f) for f in SCALARS[c]})
    nt = event.to_named_tuple()
    vc.prove('names the class', vc.and_(nt.module_name == event.__class__.__module__, nt.class_name == c))
    vc.prove('is a named tuple', isinstance(nt, tuple) and isinstance(nt, E.DpEventNamedTuple))
    if vc.choice('bytes', [False, True]):
        nt = nt._replace(module_name=nt.module_name.encode(), class_name=nt.class_name.encode())
    back = E.DpEvent.from_named_tuple(nt)
    vc.prove('same class', type(back) is type(event))
    for f in SCALARS[c]:
        a, b = getattr(event, f), getattr(back, f)
        vc.prove(f'field {f}', same(vc, a, b))
        if f in ('events', 'sensitivities', 'sampling_probs', 'step_counts') and not (f == 'step_counts' and vc.inputs['scalar steps'] in (0, ('const', 0))):
            vc.forall(f'elements of {f}', 0, vc.length(a), lambda j: same(vc, vc.at(a, j), vc.at(b, j)))
            na = nt.__getattribute__(f)
            if f == 'events': vc.forall(f'no event is left in the tuple', 0, vc.length(na), lambda j: isinstance(vc.at(na, j), LeafTuple))


@harness('P01', ['DpEvent.to_named_tuple', 'DpEvent.from_named_tuple'], kind='bounded', runs=1500, budget=20, bound='random event trees of depth <= 4')
def event_trees_survive_named_tuple(vc):
    E = vc.mod(EV)
    b = vc.data('bytes', lambda r: r.random() < .3)
    event = vc.data('event', lambda r: tree(E, r, r.randint(0, 4)))
    nt = event.to_named_tuple()
    vc.prove('no event is left in the tuple', no_event(E, nt))
    if b: nt = as_bytes(E, nt)
    back = E.DpEvent.from_named_tuple(nt)
    vc.prove('equal event', same(vc, event, back) and back == event)


def no_event(E, x):
    if isinstance(x, E.DpEvent): return False
    if isinstance(x, (list, tuple)): return all(no_event(E, y) for y in x)
    return True


def as_bytes(E, x):
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        x = x._replace(**{f: as_bytes(E, getattr(x, f)) for f in x._fields if f not in ('module_name', 'class_name')})
        return x._replace(module_name=x.module_name.encode(), class_name=x.class_name.encode())
    if isinstance(x, (list, tuple)): return type(x)(as_bytes(E, y) for y in x)
    return x


# ------------------------------------------------------------------ P02
def builder(vc, E, B, Leaf):
    """a builder in an arbitrary state reachable through compose: opaque events, positive counts"""
    b = B.DpEventBuilder()
    n = vc.int('n', ge=0, le=None if vc.sym else 5)
    ev = vc.array('events', n, kind='list', ints=True, ge=None if vc.sym else 0, le=None if vc.sym else 2)
    ct = vc.array('counts', n, kind='list', ints=True, ge=1)
    if vc.sym:
        from pyvc.seq import Seq
        b._event_counts = Seq(n, lambda j: (Leaf(ev.elem(j)), ct.elem(j)), 'list')
    else: b._event_counts = [(Leaf(e), c) for e, c in zip(ev, ct)]
    return b, n, ev, ct


def repr_(vc, b, j):
    e, c = vc.at(b._event_counts, j)
    return e.uid, c


@harness('P02', ['DpEventBuilder.compose'], internal=True)
def builder_composes_event(vc):
    """any event that is neither no-op nor self-composed"""
    E, B = vc.mod(EV), vc.mod(BLD)
    Leaf = leaf_class(E)
    b, n, ev, ct = builder(vc, E, B, Leaf)
    cached = vc.choice('cached', [False, True])
    if cached: b._composed_event = Leaf(-7)
    u, k = vc.int('uid', ge=None if vc.sym else 0, le=None if vc.sym else 2), vc.int('count', ge=1)
    b.compose(Leaf(u), k)
    lst = b._event_counts
    m = vc.length(lst)
    vc.prove('cache dropped', b._composed_event is None)
    grown = vc.eq(m, n + 1)
    if vc.case(grown):
        vc.forall('prefix kept', 0, n, lambda j: vc.and_(vc.eq(repr_(vc, b, j)[0], vc.at(ev, j)), vc.eq(repr_(vc, b, j)[1], vc.at(ct, j))))
        x, y = repr_(vc, b, n)
        vc.prove('appended', vc.and_(vc.eq(x, u), vc.eq(y, k)))
    else:
        vc.prove('merged into the last entry', vc.and_(vc.eq(m, n), n >= 1))
        vc.forall('prefix kept (merge)', 0, n - 1, lambda j: vc.and_(vc.eq(repr_(vc, b, j)[0], vc.at(ev, j)), vc.eq(repr_(vc, b, j)[1], vc.at(ct, j))))
        x, y = repr_(vc, b, n - 1)
        vc.prove('last entry grows by count', vc.and_(vc.eq(x, u), vc.eq(vc.at(ev, n - 1), u), vc.eq(y, vc.at(ct, n - 1) + k)))


@harness('P02', ['DpEventBuilder.compose'], internal=True)
def builder_composes_wrapped_event(vc):
    """no-op and self-composed events (the recursive call is seen through its contract)"""
    E, B = vc.mod(EV), vc.mod(BLD)
    Leaf = leaf_class(E)
    b, n, ev, ct = builder(vc, E, B, Leaf)
    before = b._event_counts
    k = vc.int('count', ge=1)
    if vc.choice('noop', [True, False]):
        b.compose(E.NoOpDpEvent(), k)
        vc.prove('no-op changes nothing', vc.eq(vc.length(b._event_counts), n))
        vc.forall('no-op keeps entries', 0, n, lambda j: vc.and_(vc.eq(repr_(vc, b, j)[0], vc.at(ev, j)), vc.eq(repr_(vc, b, j)[1], vc.at(ct, j))))
    else:
        u, i = vc.int('uid'), vc.int('inner', ge=1)
        calls = []
        real = B.DpEventBuilder.compose
        def rec(self, event, count=1):
            if calls is not None and isinstance(event, Leaf): calls.append((event, count)); return None
            return real(self, event, count)
        vc.patch(B.DpEventBuilder, 'compose', rec)
        b.compose(E.SelfComposedDpEvent(Leaf(u), i), k)
        vc.prove('composed once, with the product of the counts', len(calls) == 1 and vc.and_(vc.eq(calls[0][0].uid, u), vc.eq(calls[0][1], k * i)))
        vc.prove('nothing else changes', vc.eq(vc.length(b._event_counts), n))


@harness('P02', ['DpEventBuilder.compose'], internal=True)
def builder_rejects_bad_calls(vc):
    E, B = vc.mod(EV), vc.mod(BLD)
    Leaf = leaf_class(E)
    b, n, ev, ct = builder(vc, E, B, Leaf)
    sentinel = b._composed_event = Leaf(-7)
    bad = vc.int('bad', le=0)
    inner = vc.int('inner', le=0)
    k = vc.int('count', ge=1)
    vc.raises('count below one', ValueError, b.compose, Leaf(1), bad)
    vc.raises('count below one, no-op', ValueError, b.compose, E.NoOpDpEvent(), bad)
    vc.raises('count below one, self-composed', ValueError, b.compose, E.SelfComposedDpEvent(Leaf(1), 2), bad)
    vc.raises('inner count below one', ValueError, b.compose, E.SelfComposedDpEvent(Leaf(1), inner), k)
    vc.raises('float count', TypeError, b.compose, Leaf(1), 1.5)
    vc.raises('text count', TypeError, b.compose, Leaf(1), '2')
    vc.raises('not an event', TypeError, b.compose, 'event')
    vc.raises('not an event', TypeError, b.compose, None, k)
    vc.prove('cached event kept', b._composed_event is sentinel)
    vc.prove('length kept', vc.eq(vc.length(b._event_counts), n))
    vc.forall('entries kept', 0, n, lambda j: vc.and_(vc.eq(repr_(vc, b, j)[0], vc.at(ev, j)), vc.eq(repr_(vc, b, j)[1], vc.at(ct, j))))


@harness('P02', ['DpEventBuilder.build'], internal=True)
def builder_builds_entries(vc):
    E, B = vc.mod(EV), vc.mod(BLD)
    Leaf = leaf_class(E)
    b, n, ev, ct = builder(vc, E, B, Leaf)
    r = b.build()
    r2 = b.build()
    vc.prove('second build returns the same', r2 is r or r2 == r)
    vc.prove('build keeps the entries', vc.eq(vc.length(b._event_counts), n))
    vc.forall('build keeps every entry', 0, n, lambda j: vc.and_(vc.eq(repr_(vc, b, j)[0], vc.at(ev, j)), vc.eq(repr_(vc, b, j)[1], vc.at(ct, j))))
    def entry(x, j):
        """x denotes event j repeated count j times"""
        u, c = vc.at(ev, j), vc.at(ct, j)
        if isinstance(x, Leaf): return vc.and_(vc.eq(x.uid, u), vc.eq(c, 1))
        if isinstance(x, E.SelfComposedDpEvent): return vc.and_(isinstance(x.event, Leaf), vc.eq(x.event.uid, u), vc.eq(x.count, c))
        return False
    if vc.case(vc.eq(n, 0)): vc.prove('no-op when empty', isinstance(r, E.NoOpDpEvent))
    elif vc.case(vc.eq(n, 1)): vc.prove('single entry', entry(r, 0))
    else:
        vc.prove('composition', isinstance(r, E.ComposedDpEvent))
        vc.prove('one event per entry', vc.eq(vc.length(r.events), n))
        vc.forall('entries in order', 0, n, lambda j: entry(vc.at(r.events, j), j))


def expand(E, e, k=1):
    """the sequence of primitive events e stands for, run-length encoded"""
    if isinstance(e, E.NoOpDpEvent): return []
    if isinstance(e, E.SelfComposedDpEvent): return times(expand(E, e.event), k * e.count)
    if isinstance(e, E.ComposedDpEvent): return times(squeeze([p for x in e.events for p in expand(E, x)]), k)
    return [(e, k)]


def times(xs, k): return squeeze(xs * k) if len(xs) > 1 else [(x, c * k) for x, c in xs]


def squeeze(xs):
    out = []
    for e, c in xs:
        if out and out[-1][0] == e: out[-1] = (e, out[-1][1] + c)
        else: out.append((e, c))
    return out


@harness('P02', ['DpEventBuilder.compose', 'DpEventBuilder.build'], kind='bounded', runs=1500, budget=15, bound='random histories of up to 12 calls over random event trees')
def builder_histories(vc):
    E, B = vc.mod(EV), vc.mod(BLD)
    def gen(r):
        pool = [tree(E, r, r.randint(0, 2), ['NoOpDpEvent', 'GaussianDpEvent', 'LaplaceDpEvent', 'SelfComposedDpEvent', 'PoissonSampledDpEvent']) for _ in range(3)] + [E.GaussianDpEvent(1.0), E.ComposedDpEvent([E.GaussianDpEvent(1.0), E.LaplaceDpEvent(2.0)])]
        out = []
        for _ in range(r.randint(1, 12)):
            q = r.random()
            if q < .65: out.append(('compose', r.choice(pool), r.choice([1, 1, 1, 2, 3, 10])))
            elif q < .8: out.append(('build',))
            else: out.append(('bad', r.choice([('x', 1), (pool[0], 0), (pool[1], -2), (pool[2], 1.0), (None, 1), (E.SelfComposedDpEvent(pool[3], 0), 2), (pool[0], '1')])))
        return out
    h = vc.data('history', gen)
    b = B.DpEventBuilder()
    want, built = [], []
    for c in h:
        if c[0] == 'compose':
            b.compose(c[1], c[2])
            want = squeeze(want + expand(E, c[1], c[2]))
        elif c[0] == 'build': built.append((b.build(), list(want)))
        else: vc.raises('bad call', (TypeError, ValueError), b.compose, *c[1])
    built.append((b.build(), list(want)))
    for ev, w in built: vc.prove('built event expands to the composed events', squeeze(expand(E, ev)) == w)
