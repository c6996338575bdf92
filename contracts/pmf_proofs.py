"""P09-P11: proofs about discretised privacy loss distributions of any size."""
import math
from pyvc.vc import harness
from contracts._pmf import PM, CM, PLD, INF


def prob(r, i): return r.choice([0.0, r.random(), r.random(), 10 ** r.uniform(-8, 0)]) / 8


def dense(vc, tag='', disc=None, pess=None):
    m = vc.mod(PM)
    n = vc.int('size' + tag, ge=1, gen=lambda r: r.choice([1, 1, 2, 3, 5, 8, 13]))
    lower = vc.int('lower' + tag, gen=lambda r: r.randint(-9, 6))
    h = disc if disc is not None else vc.real('discretization' + tag, gt=0, gen=lambda r: r.choice([1.0, 0.5, 0.1, 0.37, 1e-3]))
    p = vc.array('probs' + tag, n, ge=0, gen=prob)
    inf = vc.real('infinity_mass' + tag, ge=0, le=1, gen=lambda r: r.choice([0.0, 0.0, 1e-9, .25, r.random()]))
    pess = vc.bool('pessimistic' + tag) if pess is None else pess
    return m.DensePLDPmf(h, lower, p, inf, pess), n, (lambda j: (lower + j) * h), p, inf


def sparse(vc, tag=''):
    m = vc.mod(PM)
    n = vc.int('size' + tag, ge=1, gen=lambda r: r.choice([1, 1, 2, 3, 5, 8, 13]))
    h = vc.real('discretization' + tag, gt=0, gen=lambda r: r.choice([1.0, 0.5, 0.1, 0.37, 1e-3]))
    d, K, V = vc.mapping('loss_probs' + tag, n, ge=0, gen=prob)
    inf = vc.real('infinity_mass' + tag, ge=0, le=1, gen=lambda r: r.choice([0.0, 0.0, 1e-9, .25, r.random()]))
    return m.SparsePLDPmf(d, h, inf, vc.bool('pessimistic' + tag)), n, (lambda j: vc.at(K, j) * h), V, inf


def hockey(vc, n, loss, p, inf, eps):
    return inf + vc.Sum(0, n, lambda j: vc.ite(loss(j) > eps, (1 - vc.exp(eps - loss(j))) * vc.at(p, j), 0.0))


def eps_of(vc, name='epsilon'):
    return vc.real(name, gen=lambda r: r.choice([r.uniform(-6, 6), float(r.randint(-5, 5)), 0.0, r.uniform(0, 1), r.randint(-9, 9) * .37, r.randint(-9, 9) * .1]))


@harness('P09', ['DensePLDPmf.get_delta_for_epsilon', '_get_delta_for_epsilon', 'DensePLDPmf.size'], runs=300, budget=4)
def delta_of_dense_storage(vc):
    q, n, loss, p, inf = dense(vc)
    e = eps_of(vc)
    vc.prove('the hockey-stick divergence', vc.eq(q.get_delta_for_epsilon(e), hockey(vc, n, loss, p, inf, e)))
    vc.prove('size', q.size == n)


@harness('P09', ['SparsePLDPmf.get_delta_for_epsilon', '_get_delta_for_epsilon', 'SparsePLDPmf._get_losses_probs'], runs=300, budget=4)
def delta_of_sparse_storage(vc):
    q, n, loss, p, inf = sparse(vc)
    e = eps_of(vc)
    vc.prove('the hockey-stick divergence', vc.eq(q.get_delta_for_epsilon(e), hockey(vc, n, loss, p, inf, e)))
    vc.prove('size', q.size == n)


@harness('P09', ['_get_delta_for_epsilon', 'DensePLDPmf.get_delta_for_epsilon', 'SparsePLDPmf.get_delta_for_epsilon'], runs=200, budget=4)
def delta_falls_with_epsilon(vc):
    q, n, loss, p, inf = vc.choice('storage', [dense, sparse])(vc)
    e = eps_of(vc)
    d = vc.real('step', ge=0, gen=lambda r: r.choice([0.0, r.random(), 1e-6, 3.0]))
    f = e + d
    a, b = q.get_delta_for_epsilon(e), q.get_delta_for_epsilon(f)
    vc.prove('delta does not increase', vc.le(b, a))
    vc.prove('at least the infinity mass', vc.ge(b, inf))
    vc.prove('at most the total mass', vc.le(a, inf + vc.Sum(0, n, lambda j: vc.at(p, j))))


@harness('P09', ['DensePLDPmf.get_delta_for_epsilon', 'SparsePLDPmf.get_delta_for_epsilon', '_get_delta_for_epsilon'], runs=100, budget=3)
def delta_at_infinite_epsilon_is_the_infinity_mass(vc):
    q, n, loss, p, inf = vc.choice('storage', [dense, sparse])(vc)
    vc.prove('the infinity mass', vc.eq(q.get_delta_for_epsilon(math.inf), inf))


@harness('P09', ['SparsePLDPmf.to_dense_pmf', 'dictionary_to_list', 'create_pmf', 'DensePLDPmf.to_dense_pmf'], runs=300, budget=4)
def storage_does_not_matter(vc):
    m = vc.mod(PM)
    lo = vc.int('lowest', gen=lambda r: r.randint(-9, 5))
    hi = vc.int('highest', gen=lambda r: r.randint(-9, 12))
    vc.assume(lo <= hi)
    h = vc.real('discretization', gt=0, gen=lambda r: r.choice([1.0, 0.5, 0.1, 0.37, 1e-3]))
    d = vc.table('loss_probs', lo, hi, ge=0, gen=prob)
    inf = vc.real('infinity_mass', ge=0, le=1, gen=lambda r: r.choice([0.0, 1e-9, .25, r.random()]))
    pess = vc.bool('pessimistic')
    how = vc.choice('built', ['sparse', 'dense', 'created', 'created dense'])
    if how == 'sparse': q = m.SparsePLDPmf(d, h, inf, pess)
    elif how == 'dense': q = m.SparsePLDPmf(d, h, inf, pess).to_dense_pmf()
    else:
        q = m.create_pmf(d, h, inf, pess)
        if how == 'created dense': q = q.to_dense_pmf()
    e = eps_of(vc)
    want = inf + vc.Sum(0, hi - lo + 1, lambda j: term(vc, d, lo + j, h, e))
    vc.prove('the same hockey-stick divergence', vc.eq(q.get_delta_for_epsilon(e), want))
    vc.prove('the same infinity mass', vc.eq(q.get_delta_for_epsilon(math.inf), inf))
    o = m.SparsePLDPmf(d, h, inf, pess)
    if 'dense' in how: o = o.to_dense_pmf()
    if how != 'created' or isinstance(q, type(o)): q.validate_composable(o)


def term(vc, d, k, h, e):
    if not vc.sym: return (1 - vc.exp(e - k * h)) * d[k] if k in d and k * h > e else 0.0
    return vc.ite(vc.and_(vc.has(d, k), k * h > e), (1 - vc.exp(e - k * h)) * vc.get(d, k), 0.0)


def is_num(v): return hasattr(v, 'is_int') and hasattr(v, 'plain')


def sweep(vc, n, loss, eps, k, J, U, L, H):
    """what may hold while two positions sweep down: sums above a position, deltas already written"""
    def candidates(state):
        out = []
        I = [x for x, v in state.items() if is_num(v) and v.is_int or isinstance(v, int)]
        R = [x for x, v in state.items() if is_num(v) and not v.is_int or isinstance(v, float)]
        A = [x for x, v in state.items() if type(v).__name__ in ('Seq', 'Vec')]
        for v in I:
            out += [(f'{v} >= -1', lambda s, v=v: s[v] >= -1), (f'{v} < n', lambda s, v=v: s[v] < n), (f'{v} < k', lambda s, v=v: s[v] < k)]
        for v in I:
            for w in I:
                if v != w: out.append((f'losses above {v} are at least epsilon {w}', lambda s, v=v, w=w: vc.and_(s[v] < n, s[w] < k, vc.implies(vc.and_(s[v] >= -1, s[v] < n - 1, s[w] >= 0), lambda: vc.le(vc.at(eps, s[w]), loss(s[v] + 1))))))
            for r in R:
                out.append((f'{r} is the mass above {v}', lambda s, v=v, r=r: vc.eq(s[r], U(s[v]))))
                out.append((f'{r} is the lower mass above {v}', lambda s, v=v, r=r: vc.eq(s[r], L(s[v]))))
            for a in A:
                out.append((f'{a} is done above {v}', lambda s, v=v, a=a: vc.implies(J > s[v], lambda: vc.eq(vc.at(s[a], J), H(0)))))
        return out
    return candidates


def many(vc, store):
    q, n, loss, p, inf = store(vc)
    k = vc.int('queries', ge=1, gen=lambda r: r.randint(1, 5))
    eps = vc.array('epsilons', k, sort='up', gen=None)
    J = vc.int('position', ge=0)
    vc.assume(J < k)
    vc.assume_forall(0, k - 1, lambda i: vc.at(eps, i) <= vc.at(eps, i + 1))
    x = vc.at(eps, J)
    facts = lambda U, L, H: {
        'the divergence': ([lambda v: vc.implies(v >= 0, lambda: vc.le(loss(v), x)), lambda v: vc.implies(v < n - 1, lambda: vc.le(x, loss(v + 1)))],
                           lambda v: vc.eq(U(v) - vc.exp(x) * L(v), H(0))),
        'one more probability': ([lambda v: v >= 0], lambda v: vc.eq(U(v - 1), U(v) + vc.at(p, v))),
        'one more lower probability': ([lambda v: v >= 0], lambda v: vc.eq(L(v - 1), L(v) + vc.at(p, v) * vc.exp(-loss(v)))),
        'nothing above the top': ([lambda v: v == n - 1], lambda v: vc.and_(vc.eq(U(v), inf), vc.eq(L(v), 0)))}
    U, L, H = vc.abstract('the masses above a position and the divergence they give', -1, n, facts,
                          U=lambda v: inf + vc.Sum(v + 1, n, lambda t: vc.at(p, t)),
                          L=lambda v: vc.Sum(v + 1, n, lambda t: vc.at(p, t) * vc.exp(-loss(t))),
                          H=lambda _: hockey(vc, n, loss, p, inf, x))
    vc.hint(J, n - 1)
    vc.invariants(sweep(vc, n, loss, eps, k, J, U, L, H))
    got = q.get_delta_for_epsilon(eps)
    vc.prove('one delta per epsilon', vc.length(got) == k)
    vc.reveal(H, 0)
    vc.prove('each is the hockey-stick divergence', vc.eq(vc.at(got, J), hockey(vc, n, loss, p, inf, x)))


@harness('P09', ['_get_delta_for_epsilon_vectorized', 'DensePLDPmf.get_delta_for_epsilon'], runs=200, budget=5)
def deltas_of_many_epsilons_dense(vc): many(vc, dense)


@harness('P09', ['_get_delta_for_epsilon_vectorized', 'SparsePLDPmf.get_delta_for_epsilon'], runs=200, budget=5)
def deltas_of_many_epsilons_sparse(vc): many(vc, sparse)


