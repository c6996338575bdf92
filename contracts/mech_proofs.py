"""P15: deductive contracts of mechanism losses, inverses and divergences."""
import math
from pyvc.vc import harness
from contracts._mech import ME, CM, INF

LEAVES = ['privacy_loss_without_subsampling', 'inverse_privacy_loss_without_subsampling']


def adjacency(vc, m):
    return getattr(m.AdjacencyType, vc.choice('adjacency', ['ADD', 'REMOVE']))


def mechanism_class(vc, m):
    """an additive-noise mechanism of which only the noise is opaque"""
    class Opaque(m.AdditiveNoisePrivacyLoss):
        def privacy_loss_tail(self): raise NotImplementedError
        def connect_dots_bounds(self): raise NotImplementedError
        def privacy_loss_without_subsampling(self, x): return x
        def inverse_privacy_loss_without_subsampling(self, v): return v
        def noise_cdf(self, x): raise NotImplementedError
        def noise_log_cdf(self, x): raise NotImplementedError
        @classmethod
        def from_privacy_guarantee(cls, *a, **k): raise NotImplementedError
    return Opaque


def loss_value(vc, name):
    """any real, or plus or minus infinity"""
    k = vc.choice(name + ' kind', ['finite', '+inf', '-inf'])
    return INF if k == '+inf' else -INF if k == '-inf' else vc.real(name, ge=None if vc.sym else -30, le=None if vc.sym else 30)


@harness(['P15', 'P19'], ['_log_add', '_log_sub'], runs=100, budget=4)
def log_of_sums_and_differences(vc):
    m = vc.mod(CM)
    g = lambda r: r.choice([r.uniform(-30, 30), r.uniform(-1, 1), 0.0])
    y = vc.real('y', gen=g)
    x = [vc.real('x', gen=g), INF, -INF][vc.choice('first', [0, 1, 2])]
    r = m._log_add(x, y)
    if vc.case(x == INF): vc.prove('infinite sum', vc.eq(r, INF))
    else: vc.prove('exp(result) = exp(x) + exp(y)', vc.and_(vc.finite(r), vc.eq(vc.exp(r), vc.exp(x) + vc.exp(y))))
    if x > y:
        if not vc.sym: vc.assume(x - y > 1e-3)
        r = m._log_sub(x, y)
        if vc.case(x == INF): vc.prove('infinite difference', vc.eq(r, INF))
        else: vc.prove('exp(result) = exp(x) - exp(y)', vc.and_(vc.finite(r), vc.eq(vc.exp(r), vc.exp(x) - vc.exp(y))))
        if not vc.case(x == INF): vc.prove('nothing subtracted', vc.eq(m._log_sub(x, -INF), x))
    else: vc.raises('no logarithm', ValueError, m._log_sub, x, y)


def log_pair_models(vc, m):
    """the contracts of _log_add and _log_sub"""
    from pyvc import sym, npshim
    lift = sym.lift
    def add(x, y):
        x, y = lift(x), lift(y)
        if vc.case(vc.isinf(x)): return INF if x > 0 else y
        return npshim.s_log(npshim.s_exp(x) + npshim.s_exp(y))
    def sub(x, y):
        x, y = lift(x), lift(y)
        if vc.case(vc.isinf(x)): return INF
        if npshim.s_exp(y) >= npshim.s_exp(x): raise ValueError('no logarithm')
        return npshim.s_log(npshim.s_exp(x) - npshim.s_exp(y))
    vc.stub(m, '_log_add', add)
    vc.stub(m, '_log_sub', sub)


@harness(['P15', 'P19'], ['log_a_times_exp_b_plus_c'], runs=300, budget=5)
def log_of_a_times_exp_b_plus_c(vc):
    m = vc.mod(CM)
    g = lambda r: r.choice([r.uniform(-5, 5), r.uniform(-1, 1), 0.0, 1.0, -1.0])
    a, c = vc.real('a', gen=g), vc.real('c', gen=g)
    b = [vc.real('b', gen=g), INF, -INF][vc.choice('exponent', [0, 1, 2])]
    if vc.sym: log_pair_models(vc, m)
    if vc.case(b == INF):
        vc.assume(a > 0)
        vc.prove('infinite', vc.eq(m.log_a_times_exp_b_plus_c(a, b, c), INF))
    elif vc.case(b == -INF):
        vc.assume(c > 0)
        vc.prove('only c', vc.eq(m.log_a_times_exp_b_plus_c(a, b, c), vc.log(c)))
    else:
        total = a * vc.exp(b) + c
        vc.assume(total > 0 if vc.sym else total > 1e-3)
        vc.prove('exp(result) = a exp(b) + c', vc.eq(vc.exp(m.log_a_times_exp_b_plus_c(a, b, c)), total))


def log_model(vc):
    """the contract of log_a_times_exp_b_plus_c"""
    if not vc.sym: return
    from pyvc import npshim, sym
    def f(a, b, c):
        b = sym.lift(b)
        if vc.case(b == INF):
            vc.prove('precondition of log_a_times_exp_b_plus_c', a > 0)
            return INF
        if vc.case(b == -INF):
            vc.prove('precondition of log_a_times_exp_b_plus_c', c > 0)
            return npshim.s_log(c)
        t = a * npshim.s_exp(b) + c
        if t <= 0: raise ValueError('no logarithm')
        return npshim.s_log(t)
    vc.stub(vc.mod(CM), 'log_a_times_exp_b_plus_c', f)


@harness('P15', ['AdditiveNoisePrivacyLoss.privacy_loss', 'log_a_times_exp_b_plus_c'], runs=200, budget=5)
def sampled_loss_is_the_log_ratio(vc):
    """the unsampled loss l is log(mu shifted / mu): REMOVE ratio 1-q+q e^l, ADD ratio 1/(1-q+q e^-l)"""
    m = vc.mod(ME)
    adj = adjacency(vc, m)
    q = vc.real('q', gt=0, le=1)
    s = vc.real('sens', gt=0)
    mech = mechanism_class(vc, m)(s, False, q, adj)
    log_model(vc)
    l = loss_value(vc, 'unsampled')
    got = mech.privacy_loss(l)
    sign = 1 if adj == m.AdjacencyType.REMOVE else -1
    want = vc.log(1 - q + q * vc.exp(sign * l))
    vc.prove('log ratio of the densities', vc.eq(got, sign * want))


@harness('P15', ['AdditiveNoisePrivacyLoss.privacy_loss', 'AdditiveNoisePrivacyLoss.inverse_privacy_loss'], runs=200, budget=5)
def sampled_inverse_matches_the_sampled_loss(vc):
    """the unsampled threshold v' handed to the noise satisfies: unsampled loss >= v' iff sampled loss >= v"""
    m = vc.mod(ME)
    adj = adjacency(vc, m)
    q = vc.real('q', gt=0, le=1)
    s = vc.real('sens', gt=0)
    mech = mechanism_class(vc, m)(s, False, q, adj)
    log_model(vc)
    v = vc.real('loss', ge=None if vc.sym else -5, le=None if vc.sym else 5)
    l = loss_value(vc, 'unsampled')
    remove = adj == m.AdjacencyType.REMOVE
    if q < 1:
        edge = vc.log(1 - q) if remove else -vc.log(1 - q)
        # within rounding of the end of the range the inverse is that of the end itself
        vc.assume(abs(v - edge) > 1e-6 * (1 + abs(v) + abs(edge)))
        if (v < edge) if remove else (v > edge):
            vc.raises('a loss beyond the range is refused', ValueError, mech.inverse_privacy_loss, v)
            return
        if vc.sym: vc.lemma('inside the range', vc.exp(v if remove else -v) > 1 - q); vc.lemma('a positive argument', vc.exp(v if remove else -v) / q + (1 - 1 / q) > 0)
    vp = mech.inverse_privacy_loss(v)
    loss = mech.privacy_loss(l)
    if not vc.sym and math.isfinite(loss): vc.assume(abs(loss - v) > 1e-7 and abs(l - vp) > 1e-7)
    vc.prove('at least the loss beyond the threshold', vc.implies(l >= vp, lambda: loss >= v))
    vc.prove('less than the loss before the threshold', vc.implies(l < vp, lambda: loss < v))


@harness('P15', ['GaussianPrivacyLoss.privacy_loss_without_subsampling', 'GaussianPrivacyLoss.inverse_privacy_loss_without_subsampling'], runs=200, budget=5)
def gaussian_loss_and_inverse(vc):
    m = vc.mod(ME)
    adj = adjacency(vc, m)
    sd = vc.real('sd', gt=0 if vc.sym else .2, le=None if vc.sym else 20)
    s = vc.real('sens', gt=0 if vc.sym else .1, le=None if vc.sym else 10)
    if vc.sym: vc.model('stats.norm', lambda **k: None)
    mech = m.GaussianPrivacyLoss(sd, sensitivity=s, adjacency_type=adj)
    x, v = vc.real('x', ge=None if vc.sym else -30, le=None if vc.sym else 30), vc.real('loss', ge=None if vc.sym else -5, le=None if vc.sym else 5)
    l = mech.privacy_loss_without_subsampling(x)
    a = x if adj == m.AdjacencyType.ADD else x + s
    # log density of the upper minus that of the lower output distribution (normal, at a and at a - s)
    vc.prove('log ratio of normal densities', vc.eq(l, ((a - s) ** 2 - a ** 2) / (2 * sd ** 2)))
    y = mech.inverse_privacy_loss_without_subsampling(v)
    if not vc.sym: vc.assume(abs(l - v) > 1e-7)
    vc.prove('at least the loss up to the inverse', vc.implies(x <= y, lambda: l >= v))
    vc.prove('less than the loss beyond the inverse', vc.implies(x > y, lambda: l < v))
    vc.prove('every loss', vc.eq(mech.inverse_privacy_loss_without_subsampling(INF), -INF))
    vc.prove('no loss', vc.eq(mech.inverse_privacy_loss_without_subsampling(-INF), INF))


@harness('P15', ['LaplacePrivacyLoss.privacy_loss_without_subsampling', 'LaplacePrivacyLoss.inverse_privacy_loss_without_subsampling'], runs=200, budget=5)
def laplace_loss_and_inverse(vc):
    m = vc.mod(ME)
    adj = adjacency(vc, m)
    b = vc.real('par', gt=0 if vc.sym else .2, le=None if vc.sym else 20)
    s = vc.real('sens', gt=0 if vc.sym else .1, le=None if vc.sym else 10)
    if vc.sym: vc.model('stats.laplace', lambda **k: None)
    mech = m.LaplacePrivacyLoss(b, sensitivity=s, adjacency_type=adj)
    x, v = vc.real('x', ge=None if vc.sym else -30, le=None if vc.sym else 30), vc.real('loss', ge=None if vc.sym else -5, le=None if vc.sym else 5)
    l = mech.privacy_loss_without_subsampling(x)
    a = x if adj == m.AdjacencyType.ADD else x + s
    vc.prove('log ratio of Laplace densities', vc.eq(l, (-abs(a) + abs(a - s)) / b))
    y = mech.inverse_privacy_loss_without_subsampling(v)
    if not vc.sym: vc.assume(abs(l - v) > 1e-7)
    vc.prove('at least the loss up to the inverse', vc.implies(x <= y, lambda: l >= v))
    vc.prove('less than the loss beyond the inverse', vc.implies(x > y, lambda: l < v))
    vc.prove('every loss', vc.eq(mech.inverse_privacy_loss_without_subsampling(INF), -INF))
    vc.prove('no loss', vc.eq(mech.inverse_privacy_loss_without_subsampling(-INF), INF))


@harness('P15', ['DiscreteLaplacePrivacyLoss.privacy_loss_without_subsampling', 'DiscreteLaplacePrivacyLoss.inverse_privacy_loss_without_subsampling'], runs=200, budget=5)
def discrete_laplace_loss_and_inverse(vc):
    m = vc.mod(ME)
    adj = adjacency(vc, m)
    b = vc.real('par', gt=0 if vc.sym else .05, le=None if vc.sym else 5)
    s = vc.int('sens', ge=1, le=None if vc.sym else 8)
    if vc.sym: vc.model('stats.dlaplace', lambda *a: None)
    mech = m.DiscreteLaplacePrivacyLoss(b, sensitivity=s, adjacency_type=adj)
    x, v = vc.int('x', ge=None if vc.sym else -12, le=None if vc.sym else 12), vc.real('loss', ge=None if vc.sym else -5, le=None if vc.sym else 5)
    l = mech.privacy_loss_without_subsampling(x)
    a = x if adj == m.AdjacencyType.ADD else x + s
    vc.prove('log ratio of discrete Laplace masses', vc.eq(l, (-abs(a) + abs(a - s)) * b))
    y = mech.inverse_privacy_loss_without_subsampling(v)
    if not vc.sym: vc.assume(abs(l - v) > 1e-7)
    vc.prove('at least the loss up to the inverse', vc.implies(x <= y, lambda: l >= v))
    vc.prove('less than the loss beyond the inverse', vc.implies(x > y, lambda: l < v))
    vc.prove('every loss', vc.eq(mech.inverse_privacy_loss_without_subsampling(INF), -INF))
    vc.prove('no loss', vc.eq(mech.inverse_privacy_loss_without_subsampling(-INF), INF))
    vc.raises('not an outcome', ValueError, mech.privacy_loss_without_subsampling, x + .5)


def discrete_gaussian(vc, m, adj, q=1.0):
    sd = vc.real('sd', gt=0 if vc.sym else .2, le=None if vc.sym else 10)
    s = vc.int('sens', ge=1, le=None if vc.sym else 6)
    T = vc.int('bound', ge=0, le=None if vc.sym else 30)
    vc.assume(2 * T >= s)
    if vc.sym:
        from pyvc import seq, npshim, sym
        def accumulate(a):
            a = npshim.to_seq(a)
            # running log of the sum of exponentials
            def el(j):
                j1 = j + 1
                t = seq.zsum(seq.z3.IntVal(0), j1, lambda i: sym.toreal(npshim.s_exp(a.elem(i)).z))
                return npshim.s_log(sym.Num(t, npy=True))
            return seq.Seq(a.n, el)
        vc.model('logaddexp.accumulate', accumulate)
    return sd, s, T, m.DiscreteGaussianPrivacyLoss(sd, sensitivity=s, truncation_bound=T, sampling_prob=q, adjacency_type=adj)


@harness('P15', ['DiscreteGaussianPrivacyLoss.privacy_loss_without_subsampling', 'DiscreteGaussianPrivacyLoss.inverse_privacy_loss_without_subsampling'], runs=200, budget=5)
def discrete_gaussian_loss_and_inverse(vc):
    m = vc.mod(ME)
    adj = adjacency(vc, m)
    sd, s, T, mech = discrete_gaussian(vc, m, adj)
    x, v = vc.int('x', ge=None if vc.sym else -40, le=None if vc.sym else 40), vc.real('loss', ge=None if vc.sym else -5, le=None if vc.sym else 5)
    a = x if adj == m.AdjacencyType.ADD else x + s
    if a < -T or a - s > T:
        vc.raises('outcome of neither distribution', ValueError, mech.privacy_loss_without_subsampling, x)
        return
    l = mech.privacy_loss_without_subsampling(x)
    if a > T: vc.prove('only the lower distribution', vc.eq(l, -INF))
    elif a - s < -T: vc.prove('only the upper distribution', vc.eq(l, INF))
    else: vc.prove('log ratio of discrete Gaussian masses', vc.eq(l, ((a - s) ** 2 - a ** 2) / (2 * sd ** 2)))
    y = mech.inverse_privacy_loss_without_subsampling(v)
    if not vc.sym: vc.assume(math.isinf(l) or abs(l - v) > 1e-7)
    vc.prove('at least the loss up to the inverse', vc.implies(x <= y, lambda: l >= v))
    vc.prove('less than the loss beyond the inverse', vc.implies(x > y, lambda: l < v))
    z = mech.inverse_privacy_loss_without_subsampling(INF)
    vc.prove('infinite loss', vc.and_(vc.implies(x <= z, lambda: vc.eq(l, INF)), vc.implies(x > z, lambda: l < INF)))
    z = mech.inverse_privacy_loss_without_subsampling(-INF)
    vc.prove('a loss that is not -infinity', vc.implies(x > z, lambda: vc.eq(l, -INF)))
