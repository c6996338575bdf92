"""P08: conversion from RDP to (epsilon, delta)."""
import math
from pyvc.vc import harness

RDP = 'dp_accounting.rdp.rdp_privacy_accountant'
INF = math.inf


def eps_bound(vc, a, r, delta):
    """epsilon the published bounds give at one order (Prop. 12 of 2004.00010; KL bound)"""
    if vc.case(delta * delta + vc.expm1(-r) > 0): return 0
    if vc.case(vc.isinf(a)): return r
    if vc.case(a <= 1.01) or vc.case(vc.isinf(r)): return INF
    return vc.max(0, r + vc.log1p(-1 / a) - vc.log(delta * a) / (a - 1))


def log_delta_bound(vc, a, r, eps):
    """log of the delta the published bounds give at one order"""
    if vc.case(vc.isinf(a)) and vc.case(r < eps): return -INF
    if vc.case(vc.isinf(r)): return 0
    kl = 0.5 * vc.log1p(-vc.exp(-r))
    if vc.case(vc.isinf(a)) or vc.case(a <= 1.01): return kl
    return vc.min(kl, (a - 1) * (r - eps + vc.log1p(-1 / a)) - vc.log(a))


def delta_bound(vc, a, r, eps): return vc.min(1, vc.exp(log_delta_bound(vc, a, r, eps)))


def arrays(vc, ints=False):
    n = vc.int('n', ge=1, le=None if vc.sym else 6)
    orders = vc.array('orders', n, ge=1, inf=True)
    rdp = vc.array('rdp', n, ge=0, inf=True)
    return n, orders, rdp


def gdelta(r): return r.choice([10 ** r.uniform(-12, 0), 10 ** r.uniform(-3, 0)])


@harness('P08', 'rdp.compute_epsilon')
def epsilon_is_least_bound(vc):
    m = vc.mod(RDP)
    n, orders, rdp = arrays(vc)
    delta = vc.real('delta', gt=0, le=1, gen=gdelta)
    eps, order = m.compute_epsilon(orders, rdp, delta)
    vc.prove('epsilon is a number', vc.not_(vc.isnan(eps)))
    vc.prove('epsilon is non-negative', vc.le(0, eps))
    vc.forall('epsilon is at most every bound', 0, n, lambda j: vc.le(eps, eps_bound(vc, vc.at(orders, j), vc.at(rdp, j), delta)))
    vc.exists('epsilon is the bound of the returned order', 0, n, lambda j: vc.and_(vc.eq(order, vc.at(orders, j)), vc.le(eps_bound(vc, vc.at(orders, j), vc.at(rdp, j), delta), eps)))


@harness('P08', 'rdp.compute_delta')
def delta_is_least_bound(vc):
    m = vc.mod(RDP)
    n, orders, rdp = arrays(vc)
    eps = vc.real('eps', ge=0)
    delta, order = m.compute_delta(orders, rdp, eps)
    vc.prove('delta is in [0, 1]', vc.and_(vc.le(0, delta, atol=0), vc.le(delta, 1, atol=0)))
    vc.forall('delta is at most every bound', 0, n, lambda j: vc.le(delta, delta_bound(vc, vc.at(orders, j), vc.at(rdp, j), eps)))
    vc.exists('delta is the bound of the returned order', 0, n, lambda j: vc.and_(vc.eq(order, vc.at(orders, j)), vc.le(delta_bound(vc, vc.at(orders, j), vc.at(rdp, j), eps), delta)))


@harness('P08', 'rdp.compute_epsilon')
def epsilon_is_monotone(vc):
    m = vc.mod(RDP)
    n, orders, rdp = arrays(vc)
    delta = vc.real('delta', gt=0, le=1, gen=gdelta)
    rdp2 = vc.array('rdp2', n, ge=0, inf=True)
    delta2 = vc.real('delta2', gt=0, le=1, gen=gdelta)
    vc.assume(delta2 <= delta)
    vc.assume_forall(0, n, lambda j: vc.le(vc.at(rdp, j), vc.at(rdp2, j)))
    e1, _ = m.compute_epsilon(orders, rdp, delta)
    e2, _ = m.compute_epsilon(orders, rdp2, delta2)
    vc.prove('larger RDP or smaller delta never lowers epsilon', vc.le(e1, e2))


def delta_contract(vc):
    """compute_delta as its contract delta_is_least_bound describes it; bounds[k] is log_delta_bound per order of call k"""
    bounds = []
    def f(orders, rdp, eps):
        k = len(bounds)
        n = vc.length(orders)
        b = vc.array(f'bound{k}', n, le=0)
        bounds.append(b)
        w = vc.int(f'delta_witness{k}', ge=0)
        vc.assume(w < n)
        vc.hint(w)
        d = vc.at(b, w)
        vc.assume_forall(0, n, lambda j: vc.le(d, vc.at(b, j)))
        if k:  # delta_bound_is_monotone
            vc.assume_forall(0, n, lambda j: vc.le(vc.at(bounds[0], j), vc.at(b, j)))
        return d, vc.at(orders, w)
    return f


@harness('P08', 'rdp.compute_delta')
def delta_bound_is_monotone(vc):
    a = vc.real('a', ge=1, inf=True, npy=True)
    r = vc.real('r', ge=0, inf=True, npy=True)
    r2 = vc.real('r2', ge=0, inf=True, npy=True)
    eps, eps2 = vc.real('eps', ge=0), vc.real('eps2', ge=0)
    vc.assume(vc.le(r, r2, rtol=0, atol=0))
    vc.assume(eps2 <= eps)
    vc.prove('larger RDP or smaller epsilon never lowers the bound of an order', vc.le(log_delta_bound(vc, a, r, eps), log_delta_bound(vc, a, r2, eps2)))


@harness('P08', 'rdp.compute_delta')
def delta_is_monotone(vc):
    m = vc.mod(RDP)
    n, orders, rdp = arrays(vc)
    eps = vc.real('eps', ge=0)
    rdp2 = vc.array('rdp2', n, ge=0, inf=True)
    eps2 = vc.real('eps2', ge=0)
    vc.assume(eps2 <= eps)
    vc.assume_forall(0, n, lambda j: vc.le(vc.at(rdp, j), vc.at(rdp2, j)))
    vc.stub(m, 'compute_delta', delta_contract(vc))
    # both calls are seen through the contract of compute_delta, in log space
    d1, _ = m.compute_delta(orders, rdp, eps)
    d2, _ = m.compute_delta(orders, rdp2, eps2)
    vc.prove('larger RDP or smaller epsilon never lowers delta', vc.le(d1, d2))


@harness('P08', 'rdp.compute_epsilon')
def epsilon_at_delta_zero(vc):
    m = vc.mod(RDP)
    n, orders, rdp = arrays(vc)
    eps, _ = m.compute_epsilon(orders, rdp, 0.0)
    vc.forall('zero epsilon at delta 0 only without any loss', 0, n, lambda j: vc.implies(vc.not_(vc.isinf(eps)), vc.eq(vc.at(rdp, j), 0)))
    vc.prove('0 or infinite', vc.or_(vc.isinf(eps), vc.eq(eps, 0)))
    vc.exists('0 when there is no loss', 0, n, lambda j: vc.or_(vc.eq(eps, 0), vc.not_(vc.eq(vc.at(rdp, j), 0))))


@harness('P08', ['rdp.compute_epsilon', 'rdp.compute_delta'])
def conversion_rejects_bad_input(vc):
    m = vc.mod(RDP)
    n, orders, rdp = arrays(vc)
    bad = vc.real('bad', lt=0)
    vc.raises('negative delta', ValueError, m.compute_epsilon, orders, rdp, bad)
    vc.raises('negative epsilon', ValueError, m.compute_delta, orders, rdp, bad)
    k = vc.int('k', ge=1, le=None if vc.sym else 6)
    vc.assume(k != n)
    other = vc.array('other', k, ge=1)
    vc.raises('lengths differ (epsilon)', ValueError, m.compute_epsilon, other, rdp, 0.5)
    vc.raises('lengths differ (delta)', ValueError, m.compute_delta, other, rdp, 0.5)
    low = vc.array('low', n)
    w = vc.int('w', ge=0)
    vc.assume(w < n)
    vc.assume(vc.at(low, w) < 1)
    vc.hint(w)
    vc.raises('order below 1 (epsilon)', ValueError, m.compute_epsilon, low, rdp, 0.5)
    vc.raises('order below 1 (delta)', ValueError, m.compute_delta, low, rdp, 0.5)


@harness('P08', ['RdpAccountant.get_epsilon', 'RdpAccountant.get_epsilon_and_optimal_order', 'RdpAccountant.get_delta', 'RdpAccountant.get_delta_and_optimal_order'])
def accountant_queries_convert_its_rdp(vc):
    m = vc.mod(RDP)
    n, orders, rdp = arrays(vc)
    acc = m.RdpAccountant(orders)
    acc._rdp = rdp
    vc.memo(m, 'compute_epsilon')
    vc.memo(m, 'compute_delta')
    delta = vc.real('delta', gt=0, le=1, gen=gdelta)
    eps = vc.real('eps', ge=0)
    e, o = m.compute_epsilon(orders, rdp, delta)
    d, od = m.compute_delta(orders, rdp, eps)
    vc.prove('get_epsilon', vc.eq(acc.get_epsilon(delta), e))
    e2, o2 = acc.get_epsilon_and_optimal_order(delta)
    vc.prove('epsilon and order', vc.and_(vc.eq(e2, e)))
    vc.prove('get_delta', vc.eq(acc.get_delta(eps), d))
    d2, _ = acc.get_delta_and_optimal_order(eps)
    vc.prove('delta and order', vc.eq(d2, d))
