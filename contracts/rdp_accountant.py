"""P03, P04: the RDP accountant's traversal of events."""
import math
from pyvc.vc import harness
from contracts._acc import *

HIDDEN = 1e-200      # at this delta, epsilon of one order is its RDP plus a constant


def state(vc, rel, inf=True):
    """an accountant in an arbitrary state, its per-mechanism functions seen through their contracts"""
    m = vc.mod(RDP)
    n = vc.int('n', ge=1, le=None if vc.sym else 4)
    orders = vc.array('orders', n, gt=1.01, le=None if vc.sym else 100)
    acc = m.RdpAccountant(orders, rel)
    r0 = vc.array('r0', n, ge=0, inf=inf)
    acc._rdp = r0 + 0.0
    vc.cell(acc, '_rdp')
    arbitrary_parts(vc, m, n)
    return m, n, orders, acc, r0


def leaf_losses(vc, m, Leaf, n, ok=None):
    """opaque events: an arbitrary loss per order, added count times (the induction hypothesis)"""
    if vc.sym:
        import z3
        from pyvc import sym, seq, discharge
        f = z3.Function('leaf', z3.IntSort(), z3.IntSort(), z3.RealSort())
        fi = z3.Function('leaf_inf', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        discharge.UF_AXIOMS['leaf'] = lambda a: [a >= 0]
        def L(u):
            u = seq.zint(u)
            def el(j):
                return sym.Num(f(u, j), pinf=fi(u, j), npy=True)
            return seq.Seq(n, el)
    else:
        import numpy as np
        def L(u): return np.array([INF if (u * 7 + j) % 11 == 0 else abs(math.sin(u * 3.1 + j)) * 5 for j in range(n)])
    real = m.RdpAccountant._maybe_compose
    def maybe(self, event, count, do_compose):
        if not isinstance(event, Leaf): return real(self, event, count, do_compose)
        if ok is not None and not ok(event.uid): return m.CompositionErrorDetails(invalid_event=event, error_message='opaque')
        if do_compose: self._rdp = self._rdp + count * L(event.uid)
        return None
    vc.patch(m.RdpAccountant, '_maybe_compose', maybe)
    return L


SINGLE = ['GaussianDpEvent', 'LaplaceDpEvent', 'RandomizedResponseDpEvent', 'SingleEpochTreeAggregationDpEvent', 'PoissonSampledDpEvent', 'SampledWithoutReplacementDpEvent', 'NoOpDpEvent', 'NonPrivateDpEvent']


@harness('P04', ['RdpAccountant._maybe_compose'], internal=True, limit=300)
def rdp_of_one_event_is_added_count_times(vc):
    E = vc.mod(EV)
    rel = relation(vc)
    c = vc.choice('class', SINGLE)
    m, n, orders, acc, r0 = state(vc, rel)
    ev = single(E, vc, c)
    if isinstance(ev, E.PoissonSampledDpEvent) or isinstance(ev, E.SampledWithoutReplacementDpEvent) or isinstance(ev, E.SingleEpochTreeAggregationDpEvent): vc.assume(ev.event.noise_multiplier > 0 if hasattr(ev, 'event') else ev.noise_multiplier > 0)
    k = vc.int('count', ge=1)
    fresh = m.RdpAccountant(orders, rel)
    if fresh._maybe_compose(ev, 1, True) is not None: return vc.prove('unsupported here', not fresh.supports(ev))
    res = acc._maybe_compose(ev, k, True)
    vc.prove('composed', res is None)
    vc.forall('loss added count times', 0, n, lambda j: vc.eq(vc.at(acc._rdp, j), vc.at(r0, j) + k * vc.at(fresh._rdp, j)))
    if c == 'NoOpDpEvent': vc.forall('no-op adds nothing', 0, n, lambda j: vc.eq(vc.at(acc._rdp, j), vc.at(r0, j)))
    if c == 'NonPrivateDpEvent': vc.forall('no privacy', 0, n, lambda j: vc.isinf(vc.at(acc._rdp, j)))


@harness('P04', ['RdpAccountant._maybe_compose'], internal=True)
def rdp_of_self_composed_event(vc):
    E = vc.mod(EV)
    Leaf = leaf_class(E)
    m, n, orders, acc, r0 = state(vc, relation(vc))
    L = leaf_losses(vc, m, Leaf, n)
    u, i, k = vc.int('uid', ge=0), vc.int('inner', ge=1), vc.int('count', ge=1)
    vc.prove('composed', acc._maybe_compose(E.SelfComposedDpEvent(Leaf(u), i), k, True) is None)
    vc.forall('loss times both counts', 0, n, lambda j: vc.eq(vc.at(acc._rdp, j), vc.at(r0, j) + (k * i) * vc.at(L(u), j)))


@harness('P04', ['RdpAccountant._maybe_compose'], internal=True)
def rdp_of_composed_event(vc):
    E = vc.mod(EV)
    Leaf = leaf_class(E)
    m, n, orders, acc, r0 = state(vc, relation(vc))
    L = leaf_losses(vc, m, Leaf, n)
    c = vc.int('n_events', ge=0, le=None if vc.sym else 5)
    uids = vc.array('uids', c, kind='list', ints=True, ge=0)
    if vc.sym:
        from pyvc.seq import Seq
        events = Seq(c, lambda t: Leaf(uids.elem(t)), 'list')
        j0 = vc.int('any order', ge=0)
        vc.assume(j0 < n)
        vc.hint(j0)
        js = [j0]
    else:
        events = [Leaf(u) for u in uids]
        js = range(n)
    k = vc.int('count', ge=1)
    vc.prove('composed', acc._maybe_compose(E.ComposedDpEvent(events), k, True) is None)
    for j in js:
        vc.prove('sum of the losses', vc.eq(vc.at(acc._rdp, j), vc.at(r0, j) + k * vc.Sum(0, c, lambda x: vc.at(L(vc.at(uids, x)), j))))


@harness('P04', ['RdpAccountant.get_epsilon', 'RdpAccountant.get_delta'], internal=True)
def non_private_for_ever(vc):
    m = vc.mod(RDP)
    n = vc.int('n', ge=1, le=None if vc.sym else 4)
    orders = vc.array('orders', n, ge=1, inf=True)
    acc = m.RdpAccountant(orders)
    acc._rdp = acc._rdp + INF
    vc.hint(0)
    delta = vc.real('delta', ge=0, lt=1)
    eps = vc.real('eps', ge=0)
    vc.prove('epsilon is infinite', vc.eq(acc.get_epsilon(delta), INF))
    vc.prove('delta is 1', vc.eq(acc.get_delta(eps), 1))


def one_order_rdp(acc, a):
    """RDP at order a of an accountant with the single order a, from its public interface"""
    e = acc.get_epsilon(HIDDEN)
    return e if math.isinf(e) else e - (math.log1p(-1 / a) - math.log(HIDDEN * a) / (a - 1))


@harness(['P04', 'P03'], ['RdpAccountant.compose', 'RdpAccountant.get_epsilon', 'RdpAccountant.get_delta'], kind='bounded', runs=400, budget=25, bound='random histories of up to 5 compose calls over event trees of depth <= 3')
def rdp_histories_are_additive(vc):
    m, E, pa = vc.mod(RDP), vc.mod(EV), vc.mod(PA)
    rel = vc.choice('relation', RELATIONS)
    R = getattr(pa.NeighboringRelation, rel)
    hist = vc.data('history', lambda r: [(acc_tree(E, r, rel, r.randint(0, 3)) if r.random() > .06 else E.NonPrivateDpEvent(), r.choice([1, 1, 2, 4])) for _ in range(r.randint(1, 5))])
    orders = vc.data('orders', lambda r: sorted(r.sample([1.5, 2, 3.7, 5, 8.5, 16, 32], r.randint(1, 3))))
    parts = [(e, k) for ev, c in hist for e, k in leaves(E, ev, c)]
    def total(a):
        t = []
        for e, k in parts:
            if isinstance(e, E.NonPrivateDpEvent): return INF
            t.append(k * one_order_rdp(m.RdpAccountant([a], R).compose(e), a))
        return math.fsum(t)
    want = [total(a) for a in orders]
    tol = 1e-9
    # one accountant per order: the loss itself
    for a, w in zip(orders, want):
        acc = m.RdpAccountant([a], R)
        for ev, c in hist: vc.prove('compose returns the accountant', acc.compose(ev, c) is acc)
        vc.prove('loss is the sum over the composed events', vc.eq(one_order_rdp(acc, a), w, rtol=tol, atol=1e-9))
        acc2 = m.RdpAccountant([a], R)
        for ev, c in reversed(hist): acc2.compose(E.SelfComposedDpEvent(ev, c) if c % 2 else E.ComposedDpEvent([ev] * c))
        vc.prove('order and form of composition do not matter', vc.eq(one_order_rdp(acc2, a), w, rtol=tol, atol=1e-9))
    # one accountant with all the orders (repeat-and-select looks across orders)
    if any(isinstance(e, E.RepeatAndSelectDpEvent) for e, _ in parts): return
    acc = m.RdpAccountant(orders, R)
    for ev, c in hist: acc.compose(ev, c)
    for d in (1e-6, .01):
        vc.prove('epsilon is that of the summed losses', vc.eq(acc.get_epsilon(d), m.compute_epsilon(orders, want, d)[0], rtol=1e-8, atol=1e-8))
    vc.prove('delta is that of the summed losses', vc.eq(acc.get_delta(1.0), m.compute_delta(orders, want, 1.0)[0], rtol=1e-7))
