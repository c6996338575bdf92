"""P16: noise calibrated from a privacy guarantee (deductive contracts)."""
import math
from pyvc.vc import harness
from contracts._mech import ME, CM, INF
from contracts.mech_proofs import adjacency, log_model

AC = 'dp_accounting.pld.accountant'
PLDM = 'dp_accounting.pld.privacy_loss_distribution'


def inverse_contract(vc, owner):
    """the contract of inverse_monotone_function for decreasing functions, proved as P17"""
    if not vc.sym: return
    n = [0]
    def inverse(func, value, search_parameters, increasing=False):
        p = search_parameters
        lo, hi, guess = p.lower_bound, p.upper_bound, p.initial_guess
        if guess is not None:
            vc.prove('the initial guess is positive', guess > 0)
            vc.prove('the initial guess is within the bounds', vc.and_(lo <= guess, guess <= hi))
        else: vc.prove('a search without a guess has finite bounds', vc.finite(hi))
        vc.prove('bounds in order', lo <= hi)
        vc.prove('continuous search', not p.discrete)
        best = lo if increasing else hi
        if not vc.case(vc.isinf(best)):
            if func(best) > value: return None
        n[0] += 1
        x = vc.real(f'found{n[0]}')
        # decreasing functions are never evaluated at the lower bound itself, unless it is the upper one as well
        vc.assume(vc.and_(lo <= x, x <= hi, x > lo if not increasing else True))
        vc.assume(func(x) <= value)
        return x
    vc.stub(owner, 'inverse_monotone_function', inverse)


def guarantee(vc, tight=False):
    eps = vc.real('epsilon', gt=0, le=None if vc.sym else 12)
    delta = vc.real('delta', gt=0, lt=1, gen=lambda r: 10 ** r.uniform(-9, -.3))
    return eps, delta, vc.mod(CM).DifferentialPrivacyParameters(eps, delta)


def every_loss_within(vc, mech, l, x, eps, q, remove):
    if vc.sym:
        E = vc.named(vc.exp(eps))
        u = vc.named(vc.exp(l if remove else -l))
        W = vc.log(1 + (vc.exp(eps) - 1) / q)
        w = vc.named(1 + (E - 1) / q)
        vc.lemma('cleared ratio', w * q == q + E - 1)
        vc.lemma('its exponential', vc.exp(W) == w)
        if remove:
            vc.lemma('largest unsampled ratio', u <= w)
            vc.lemma('times q', q * u <= q + E - 1)
            vc.lemma('sampled ratio', q * u + 1 - q <= E)
            vc.lemma('logarithm of it', vc.log(q * vc.exp(l) + (1 - q)) <= vc.log(vc.exp(eps)))
            vc.lemma('logarithm of the largest', vc.log(vc.exp(eps)) == eps)
        else:
            vc.lemma('reciprocal', vc.exp(-W) * w == 1)
            vc.lemma('smallest unsampled ratio', u >= vc.exp(-W))
            vc.lemma('smallest unsampled ratio, multiplied', u * w >= 1)
            vc.lemma('times q', u * w * q >= q)
            vc.lemma('cleared', u * (q + E - 1) >= q)
            R = vc.named(q * u + (1 - q))
            vc.lemma('q times', q * u * (q + E - 1) >= q * q)
            vc.lemma('sampled', R * (q + E - 1) >= (1 - q) * (q + E - 1) + q * q)
            vc.lemma('the square is not negative', (1 - q) * ((E - 1) * (E - 1)) >= 0)
            vc.lemma('times E, expanded', ((1 - q) * (q + E - 1) + q * q) * E == (1 - q) * ((E - 1) * (E - 1)) + q + E - 1)
            vc.lemma('times E', R * (q + E - 1) * E >= q + E - 1)
            vc.lemma('divided', R * E >= 1)
            vc.lemma('reciprocal of the largest', vc.exp(-eps) * E == 1)
            vc.lemma('at least the reciprocal', R >= vc.exp(-eps))
            vc.lemma('logarithm of it', vc.log(q * vc.exp(-l) + (1 - q)) >= vc.log(vc.exp(-eps)))
            vc.lemma('logarithm of the smallest', vc.log(vc.exp(-eps)) == -eps)
    vc.prove('no outcome has a loss above epsilon', vc.le(mech.privacy_loss(x), eps))


@harness('P16', ['LaplacePrivacyLoss.from_privacy_guarantee', 'LaplacePrivacyLoss.privacy_loss_without_subsampling', 'AdditiveNoisePrivacyLoss.privacy_loss'], runs=300, budget=6)
def laplace_guarantee_bounds_every_loss(vc):
    m = vc.mod(ME)
    adj = adjacency(vc, m)
    remove = adj == m.AdjacencyType.REMOVE
    eps, delta, p = guarantee(vc)
    q = vc.real('q', gt=0, le=1, gen=lambda r: r.choice([1.0, r.uniform(1e-3, 1)]))
    s = vc.real('sens', gt=0, gen=lambda r: r.choice([1.0, r.uniform(1e-2, 20)]))
    if vc.sym: vc.model('stats.laplace', lambda **k: None)
    log_model(vc)
    if vc.sym: vc.lemma('more than nothing to hide', vc.exp(eps) > 1); vc.lemma('a positive ratio', (vc.exp(eps) - 1) / q > 0); vc.lemma('a positive logarithm', vc.log(1 + (vc.exp(eps) - 1) / q) > 0)
    mech = m.LaplacePrivacyLoss.from_privacy_guarantee(p, sensitivity=s, sampling_prob=q, adjacency_type=adj)
    vc.prove('for the given sensitivity', vc.eq(mech.sensitivity, s))
    vc.prove('for the given sampling probability', vc.eq(mech.sampling_prob, q))
    vc.prove('for the given adjacency', mech.adjacency_type == adj)
    x = vc.real('x', gen=lambda r: r.choice([r.uniform(-3, 3), 100.0, -100.0]) * s)
    l = mech.privacy_loss_without_subsampling(x)
    if vc.sym:
        W = vc.log(1 + (vc.exp(eps) - 1) / q)
        vc.lemma('scale', mech.parameter * W == s)
        vc.lemma('positive scale', mech.parameter > 0)
        vc.lemma('loss times scale', vc.and_(l * mech.parameter <= s, l * mech.parameter >= -s))
        vc.lemma('unsampled loss', vc.and_(l <= W, l >= -W))
    every_loss_within(vc, mech, l, x, eps, q, remove)


@harness('P16', ['DiscreteLaplacePrivacyLoss.from_privacy_guarantee', 'DiscreteLaplacePrivacyLoss.privacy_loss_without_subsampling', 'AdditiveNoisePrivacyLoss.privacy_loss'], runs=300, budget=6)
def discrete_laplace_guarantee_bounds_every_loss(vc):
    m = vc.mod(ME)
    adj = adjacency(vc, m)
    remove = adj == m.AdjacencyType.REMOVE
    eps, delta, p = guarantee(vc)
    q = vc.real('q', gt=0, le=1, gen=lambda r: r.choice([1.0, r.uniform(1e-3, 1)]))
    vc.assume(q > 1e-6)
    s = vc.int('sens', ge=1, le=None if vc.sym else 30)
    if vc.sym: vc.model('stats.dlaplace', lambda *a: None)
    log_model(vc)
    if vc.sym: vc.lemma('more than nothing to hide', vc.exp(eps) > 1); vc.lemma('a positive ratio', (vc.exp(eps) - 1) / q > 0); vc.lemma('a positive logarithm', vc.log(1 + (vc.exp(eps) - 1) / q) > 0)
    mech = m.DiscreteLaplacePrivacyLoss.from_privacy_guarantee(p, sensitivity=s, sampling_prob=q, adjacency_type=adj)
    vc.prove('for the given sensitivity', vc.eq(mech.sensitivity, s))
    vc.prove('for the given sampling probability', vc.eq(mech.sampling_prob, q))
    vc.prove('for the given adjacency', mech.adjacency_type == adj)
    x = vc.int('x', gen=lambda r: r.randint(-2 * s - 2, 2 * s + 2))
    l = mech.privacy_loss_without_subsampling(x)
    if vc.sym:
        W = vc.log(1 + (vc.exp(eps) - 1) / q)
        vc.lemma('scale', mech.parameter * s == W)
        vc.lemma('positive scale', mech.parameter > 0)
        vc.lemma('unsampled loss', vc.and_(l <= mech.parameter * s, l >= -mech.parameter * s))
        vc.lemma('unsampled loss bound', vc.and_(l <= W, l >= -W))
    every_loss_within(vc, mech, l, x, eps, q, remove)


def opaque_delta(vc, m, cls):
    """the mechanism's delta curve, opaque but for the order of the two adjacencies at positive epsilon"""
    if not vc.sym: return lambda mech, eps: mech.get_delta_for_epsilon(eps)
    from pyvc import sym
    import z3
    R = z3.RealSort()
    D = lambda adj, *a: sym.Num(sym.uf('delta_' + adj, R, R, R, R, R)(*[sym.toreal(sym.lift(x).z) for x in a]))
    sd = lambda mech: mech._standard_deviation if cls is m.GaussianPrivacyLoss else mech._sigma
    def delta(mech, eps):
        args = (sd(mech), mech.sensitivity, mech.sampling_prob, eps)
        if mech.adjacency_type == m.AdjacencyType.ADD: vc.assume(vc.implies(eps >= 0, lambda: D('ADD', *args) <= D('REMOVE', *args)))
        return D(mech.adjacency_type.name, *args)
    vc.stub(cls, 'get_delta_for_epsilon', delta)
    return delta


@harness('P16', ['GaussianPrivacyLoss.from_privacy_guarantee'], runs=60, budget=8, assumes=['delta for adding a record is at most that for removing one, at positive epsilon'])
def gaussian_guarantee_meets_its_delta(vc):
    m, c = vc.mod(ME), vc.mod(CM)
    adj = adjacency(vc, m)
    eps, delta, p = guarantee(vc)
    q = vc.real('q', gt=0, le=1, gen=lambda r: r.choice([1.0, r.uniform(1e-3, 1)]))
    vc.assume(q > 1e-6)
    s = vc.real('sens', gt=0, gen=lambda r: r.choice([1.0, r.uniform(1e-2, 20)]))
    if vc.sym: vc.model('stats.norm', lambda **k: None)
    D = opaque_delta(vc, m, m.GaussianPrivacyLoss)
    inverse_contract(vc, c)
    if vc.sym:
        vc.lemma('delta is small', 1.5 / delta > 1)
        vc.lemma('the logarithm is positive', vc.log(1.5 / delta) > 0)
    mech = m.GaussianPrivacyLoss.from_privacy_guarantee(p, sensitivity=s, sampling_prob=q, adjacency_type=adj)
    vc.prove('for the given sensitivity', vc.eq(mech.sensitivity, s))
    vc.prove('for the given sampling probability', vc.eq(mech.sampling_prob, q))
    vc.prove('for the given adjacency', mech.adjacency_type == adj)
    vc.prove('delta at epsilon is within the guarantee', vc.le(D(mech, eps), delta, rtol=1e-9))
    vc.raises('no Gaussian noise is purely private', ValueError, m.GaussianPrivacyLoss.from_privacy_guarantee, c.DifferentialPrivacyParameters(eps, 0))


@harness('P16', ['DiscreteGaussianPrivacyLoss.from_privacy_guarantee'], runs=40, budget=10, assumes=['delta for adding a record is at most that for removing one, at positive epsilon'])
def discrete_gaussian_guarantee_meets_its_delta(vc):
    m, c = vc.mod(ME), vc.mod(CM)
    adj = adjacency(vc, m)
    eps, delta, p = guarantee(vc)
    q = vc.real('q', gt=0, le=1, gen=lambda r: r.choice([1.0, r.uniform(1e-3, 1)]))
    vc.assume(q > 1e-6)
    s = vc.int('sens', ge=1, le=None if vc.sym else 4)
    if vc.sym:
        def init(self, sigma, sensitivity=1, truncation_bound=None, sampling_prob=1.0, adjacency_type=m.AdjacencyType.REMOVE):
            m.AdditiveNoisePrivacyLoss.__init__(self, sensitivity, True, sampling_prob, adjacency_type)
            vc.prove('a positive standard deviation', sigma > 0)
            vc.prove('no truncation of its own', truncation_bound is None)
            self._sigma = sigma
        vc.stub(m.DiscreteGaussianPrivacyLoss, '__init__', init)
    D = opaque_delta(vc, m, m.DiscreteGaussianPrivacyLoss)
    inverse_contract(vc, c)
    if vc.sym:
        vc.lemma('delta is small', 1.5 / delta > 1)
        vc.lemma('the logarithm is positive', vc.log(1.5 / delta) > 0)
    k, mech = vc.call(m.DiscreteGaussianPrivacyLoss.from_privacy_guarantee, p, sensitivity=s, sampling_prob=q, adjacency_type=adj)
    if k == 'exc':
        # so little noise is needed that its truncation would not cover the sensitivity
        vc.prove('refused only if the truncation bound is too small', isinstance(mech, ValueError) and 'runcation' in str(mech))
        return
    vc.prove('for the given sensitivity', vc.eq(mech.sensitivity, s))
    vc.prove('for the given sampling probability', vc.eq(mech.sampling_prob, q))
    vc.prove('for the given adjacency', mech.adjacency_type == adj)
    vc.prove('delta at epsilon is within the guarantee', vc.le(D(mech, eps), delta, rtol=1e-9))
    vc.raises('no Gaussian noise is purely private', ValueError, m.DiscreteGaussianPrivacyLoss.from_privacy_guarantee, c.DifferentialPrivacyParameters(eps, 0))


# ------------------------------------------------------------------ smallest noise over a number of queries
class Curve:
    """a privacy loss distribution of which only the delta after n-fold composition matters"""
    def __init__(self, delta, n=1): self.delta, self.n = delta, n
    def self_compose(self, n, tail_mass_truncation=1e-15): return Curve(self.delta, self.n * n)
    def get_delta_for_epsilon(self, eps): return self.delta(self.n, eps)


def opaque_curve(vc, name, *args):
    """delta as an arbitrary function of the mechanism's parameters, the number of compositions and epsilon"""
    if vc.sym:
        from pyvc import sym
        import z3
        R = z3.RealSort()
        zs = [sym.toreal(sym.lift(x).z) for x in args]
        def f(n, eps):
            n, eps = (sym.toreal(sym.lift(x).z) for x in (n, eps))
            return sym.Num(sym.uf('curve_' + name, *[R] * (len(zs) + 2), R)(*zs, n, eps))
        return f
    # decreasing in the first argument
    return lambda n, eps: n / (1 + eps) * math.exp(-float(args[0])) * (2 + math.sin(sum(float(x) for x in args[1:]))) / 3


def requested(vc):
    eps, delta, p = guarantee(vc)
    n = vc.int('queries', ge=1, le=None if vc.sym else 50)
    return eps, delta, p, n


@harness('P16', ['get_smallest_parameter'], runs=200, budget=5)
def smallest_parameter_meets_the_delta(vc):
    a, c = vc.mod(AC), vc.mod(CM)
    eps, delta, p, n = requested(vc)
    hi = vc.real('upper', gt=0, gen=lambda r: r.uniform(.1, 30))
    inverse_contract(vc, c)
    make = lambda x: Curve(opaque_curve(vc, 'any', x))
    got = a.get_smallest_parameter(p, n, make, c.BinarySearchParameters(0, hi))
    if got is None: vc.prove('nothing is returned only if even the largest parameter exceeds delta', make(hi).self_compose(n).get_delta_for_epsilon(eps) > delta)
    else:
        vc.prove('within the bounds', vc.and_(0 <= got, got <= hi))
        vc.prove('delta of all queries is within the guarantee', make(got).self_compose(n).get_delta_for_epsilon(eps) <= delta)


def fake_mechanisms(vc, made):
    P = vc.mod(PLDM)
    def fake(name):
        def f(parameter, sensitivity=1, pessimistic_estimate=True, value_discretization_interval=1e-4, *a, use_connect_dots=True, sampling_prob=1.0, **k):
            vc.prove('the estimate is pessimistic', pessimistic_estimate)
            vc.prove('a positive parameter', parameter > 0)
            vc.prove('a positive discretisation interval', value_discretization_interval > 0)
            made.append((name, parameter, sensitivity, sampling_prob))
            return Curve(opaque_curve(vc, name, 1 / parameter if name == 'dlaplace' else parameter, sensitivity, sampling_prob))
        return f
    for n, k in (('from_laplace_mechanism', 'laplace'), ('from_discrete_laplace_mechanism', 'dlaplace'), ('from_gaussian_mechanism', 'gaussian')): vc.patch(P, n, fake(k))


def smallest(kind):
    def h(vc):
        a, c, m = vc.mod(AC), vc.mod(CM), vc.mod(ME)
        eps, delta, p, n = requested(vc)
        inverse_contract(vc, c)
        made = []
        fake_mechanisms(vc, made)
        if kind == 'dlaplace': s = vc.int('sens', ge=1, le=None if vc.sym else 20)
        else: s = vc.real('sens', gt=0, gen=lambda r: r.choice([1.0, r.uniform(.1, 9)]))
        q = 1
        if kind == 'gaussian':
            q = vc.real('q', gt=0, le=1)
            sd = vc.real('unsampled', gt=0, gen=lambda r: r.uniform(.1, 30))
            def unsampled(params, num_queries=1, sensitivity=1):
                vc.prove('the unsampled noise is for the same queries', vc.and_(vc.eq(params.epsilon, eps), vc.eq(params.delta, delta), vc.eq(num_queries, n), vc.eq(sensitivity, s)))
                return sd
            vc.patch(a, 'get_smallest_gaussian_noise', unsampled)
            got = a.get_smallest_subsampled_gaussian_noise(p, n, s, q)
            fallback = vc.eq(got, sd)
        elif kind == 'laplace':
            got = a.get_smallest_laplace_noise(p, n, s)
            fallback = vc.ge(got * eps, n * s)
        else:
            got = a.get_smallest_discrete_laplace_noise(p, n, s)
            fallback = vc.le(got * n * s, eps)
        vc.prove('a positive parameter is returned', got > 0)
        d = opaque_curve(vc, kind, 1 / got if kind == 'dlaplace' else got, s, q)(n, eps)
        # without a parameter that meets delta, the one that is safe by other means
        vc.prove('delta of all queries is within the guarantee', vc.or_(vc.le(d, delta), fallback))
    return h


harness('P16', ['get_smallest_laplace_noise', 'get_smallest_parameter'], runs=200, budget=5, name='smallest_laplace_noise_meets_the_delta')(smallest('laplace'))
harness('P16', ['get_smallest_discrete_laplace_noise', 'get_smallest_parameter'], runs=200, budget=5, name='smallest_discrete_laplace_noise_meets_the_delta')(smallest('dlaplace'))
harness('P16', ['get_smallest_subsampled_gaussian_noise', 'get_smallest_parameter'], runs=200, budget=5, internal=True, name='smallest_subsampled_gaussian_noise_meets_the_delta')(smallest('gaussian'))


@harness('P16', ['get_smallest_gaussian_noise'], runs=100, budget=5)
def smallest_gaussian_noise_meets_the_delta(vc):
    a, c, m = vc.mod(AC), vc.mod(CM), vc.mod(ME)
    eps, delta, p, n = requested(vc)
    s = vc.real('sens', gt=0, gen=lambda r: r.choice([1.0, r.uniform(.1, 9)]))
    if vc.sym:
        vc.model('stats.norm', lambda **k: None)
        vc.lemma('delta is small', 1.5 / delta > 1)
        vc.lemma('the logarithm is positive', vc.log(1.5 / delta) > 0)
    D = opaque_delta(vc, m, m.GaussianPrivacyLoss)
    inverse_contract(vc, c)
    got = a.get_smallest_gaussian_noise(p, n, s)
    # n Gaussians of sensitivity s compose to one of sensitivity s sqrt(n)
    composed = m.GaussianPrivacyLoss(got, sensitivity=s * vc.sqrt(n))
    vc.prove('delta of all queries is within the guarantee', vc.le(D(composed, eps), delta))


# ------------------------------------------------------------------ advanced composition
def choose(vc, k, l):
    if not vc.sym: return math.comb(k, l)
    import z3
    from pyvc import sym
    k, l = (sym.toint(sym.lift(x)) for x in (k, l)) if hasattr(sym, 'toint') else (sym.lift(k).z, sym.lift(l).z)
    return sym.Num(sym.uf('binomial', z3.IntSort(), z3.IntSort(), z3.RealSort())(k, l))


def kov_delta(vc, eps, k, i):
    """delta of the k-fold composition of (eps, 0)-private mechanisms at epsilon (k - 2i) eps"""
    return vc.Sum(0, i, lambda l: choose(vc, k, l) * (vc.exp(eps * (k - l)) - vc.exp(eps * (k - 2 * i + l)))) / (1 + vc.exp(eps)) ** k


@harness('P16', ['advanced_composition'], runs=300, budget=6)
def advanced_composition_is_the_optimal_theorem(vc):
    a, c = vc.mod(AC), vc.mod(CM)
    eps = vc.real('epsilon', gt=0, gen=lambda r: r.choice([r.uniform(.01, 3), 10 ** r.uniform(-3, .5)]))
    delta = vc.real('delta', ge=0, lt=1, gen=lambda r: r.choice([0.0, 10 ** r.uniform(-8, -.5)]))
    total = vc.real('total delta', ge=0, le=1, gen=lambda r: r.choice([0.0, 10 ** r.uniform(-8, 0)]))
    k = vc.int('queries', ge=1, le=None if vc.sym else 40)
    if vc.sym: vc.model('special.binom', lambda k, l: choose(vc, k, l))
    def whole(i):
        d = kov_delta(vc, eps, k, i)
        # a delta is at most 1 (the binomial coefficients are opaque to the proof)
        if vc.sym: return vc.ite(d >= 1, 1, 1 - (1 - delta) ** k * (1 - d))
        w = -math.expm1(k * math.log1p(-delta)) + (1 - delta) ** k * d
        vc.assume(abs(w - total) > 1e-9 * total or w == total == 0)
        return w
    got = a.advanced_composition(c.DifferentialPrivacyParameters(eps, delta), k, total)
    top = k // 2
    if got is None:
        vc.forall('nothing is returned only if no multiple of epsilon qualifies', 0, top + 1, lambda j: whole(top - j) > total)
        return
    vc.exists('a multiple of epsilon whose delta is within the total', 0, top + 1, lambda j: vc.and_(vc.eq(got, eps * (k - 2 * (top - j))), whole(top - j) <= total))
    vc.forall('no smaller multiple qualifies', 0, top + 1, lambda j: vc.or_(vc.ge(eps * (k - 2 * (top - j)), got), whole(top - j) > total))


@harness('P16', ['get_smallest_epsilon_from_advanced_composition', 'advanced_composition'], runs=200, budget=5)
def smallest_epsilon_of_advanced_composition(vc):
    """the searched epsilon composes, by the theorem, to no more than the total"""
    a, c = vc.mod(AC), vc.mod(CM)
    eps, total, p = guarantee(vc)
    if not vc.sym and vc.bool('no total delta'): total = 0.0; p = c.DifferentialPrivacyParameters(eps, total)
    delta = vc.real('per query', ge=0, lt=1, gen=lambda r: r.choice([0.0, total, total / 7, 10 ** r.uniform(-9, 0)]))
    k = vc.int('queries', ge=1, le=None if vc.sym else 30)
    if vc.sym:
        from pyvc import sym
        import z3
        inverse_of_increasing(vc, c)
        def advanced(params, num_queries, total_delta):
            vc.prove('composes the queries asked for', vc.and_(vc.eq(num_queries, k), vc.eq(total_delta, total), vc.eq(params.delta, delta)))
            e = params.epsilon
            # the theorem holds for no queries beyond the budget, and basic composition bounds it otherwise
            if 1 - (1 - delta) ** k > total: return None
            r = sym.Num(sym.uf('composed', z3.RealSort(), z3.RealSort())(sym.toreal(sym.lift(e).z)))
            vc.assume(vc.and_(r >= 0, r <= k * e))
            return r
        vc.stub(a, 'advanced_composition', advanced)
        whole = 1 - (1 - delta) ** k
    else: whole = -math.expm1(k * math.log1p(-delta))
    if not vc.sym: vc.assume(abs(whole - total) > 1e-9 * total or whole == total)
    got = a.get_smallest_epsilon_from_advanced_composition(p, k, delta)
    if got is None:
        vc.prove('nothing is returned only if the queries exceed the total delta for any epsilon', whole > total)
        return
    vc.prove('nothing is returned if the queries exceed the total delta for any epsilon', vc.le(whole, total, rtol=1e-12))
    vc.prove('at least basic composition, at most the total', vc.and_(vc.ge(got, eps / k), vc.le(got, eps)))
    e = a.advanced_composition(c.DifferentialPrivacyParameters(got, delta), k, total)
    vc.prove('composes to no more than the total epsilon', vc.le(e, eps, rtol=1e-9))


def inverse_of_increasing(vc, owner):
    if not vc.sym: return
    def inverse(func, value, search_parameters, increasing=False):
        p = search_parameters
        vc.prove('the search is over an increasing function', increasing)
        lo, hi = p.lower_bound, p.upper_bound
        vc.prove('finite bounds in order', vc.and_(lo <= hi, vc.finite(hi)))
        if func(lo) > value: return None
        x = vc.real('found')
        vc.assume(vc.and_(lo <= x, x <= hi))
        vc.assume(func(x) <= value)
        return x
    vc.stub(owner, 'inverse_monotone_function', inverse)


# ------------------------------------------------------------------ against independent oracles
def gen_guarantee(r):
    return {'eps': r.choice([10 ** r.uniform(-2, 1), r.uniform(.05, 4), 1.0]), 'delta': 10 ** r.uniform(-8, -1), 'q': r.choice([1.0, 1.0, r.uniform(.01, 1), .999]), 'adj': r.choice(['ADD', 'REMOVE'])}


@harness('P16', ['LaplacePrivacyLoss.from_privacy_guarantee', 'GaussianPrivacyLoss.from_privacy_guarantee', 'DiscreteLaplacePrivacyLoss.from_privacy_guarantee', 'DiscreteGaussianPrivacyLoss.from_privacy_guarantee'],
         kind='bounded', runs=150, budget=25, bound='random guarantees with epsilon in [0.01, 10], delta in [1e-8, 0.1] (0 for the Laplace mechanisms), sampling probability in [0.01, 1], sensitivity up to 5; delta of both adjacencies computed from the output densities in 40 digits')
def guarantee_holds_for_the_output_distributions(vc):
    from contracts._mech import Oracle
    m, c = vc.mod(ME), vc.mod(CM)
    d = vc.data('guarantee', lambda r: dict(gen_guarantee(r), family=r.choice(['laplace', 'gaussian', 'discrete laplace', 'discrete gaussian']), sens=r.choice([1, 1, 2, 3, 5, r.uniform(.1, 5)])))
    f, q = d['family'], d['q']
    s = max(1, int(d['sens'])) if f.startswith('discrete') else d['sens']
    cls = {'laplace': m.LaplacePrivacyLoss, 'gaussian': m.GaussianPrivacyLoss, 'discrete laplace': m.DiscreteLaplacePrivacyLoss, 'discrete gaussian': m.DiscreteGaussianPrivacyLoss}[f]
    pure = f.endswith('laplace')
    p = c.DifferentialPrivacyParameters(d['eps'], 0 if pure else d['delta'])
    adj = getattr(m.AdjacencyType, d['adj'])
    k, mech = vc.call(cls.from_privacy_guarantee, p, sensitivity=s, sampling_prob=q, adjacency_type=adj)
    if k == 'exc':
        vc.prove('refused only if the truncation bound is too small', f == 'discrete gaussian' and isinstance(mech, ValueError) and 'runcation' in str(mech))
        return
    if f == 'discrete gaussian': par = mech._sigma
    else: par = mech.parameter if pure else mech.standard_deviation
    for a in ('ADD', 'REMOVE'):
        o = Oracle({'family': f, 'adj': a, 'q': q, 'sens': s, 'par': float(par), 'trunc': None})
        top = p.delta * (1 + 1e-7) + (1e-13 if not pure else 1e-12)
        vc.prove(f'delta of the released distributions for {a}', o.delta(d['eps']) <= top)
    vc.prove('the distribution asked for', mech.sampling_prob == q and mech.sensitivity == s and mech.adjacency_type == adj)


def fold(masses, base, n, cut=None):
    """masses on consecutive integers from base, convolved n times (tiny tails dropped: only ever lowers a delta)"""
    import numpy as np
    from scipy import signal
    out, ob = np.array([1.0]), 0
    cur, cb = np.asarray(masses, float), base
    def trim(x, b):
        keep = np.nonzero(x > 1e-22)[0]
        return (x[keep[0]:keep[-1] + 1], b + int(keep[0])) if len(keep) else (x[:1] * 0, b)
    while n:
        if n & 1: out, ob = trim(np.clip(signal.fftconvolve(out, cur), 0, None) if len(out) * len(cur) > 1e5 else np.convolve(out, cur), ob + cb)
        n >>= 1
        if n: cur, cb = trim(np.clip(signal.fftconvolve(cur, cur), 0, None) if len(cur) > 300 else np.convolve(cur, cur), 2 * cb)
    return out, ob


def composed_delta(masses, base, h, n, eps):
    import numpy as np
    out, b = fold(masses, base, n)
    l = (np.arange(len(out)) + b) * h
    k = l > eps
    return float(np.sum(-np.expm1(eps - l[k]) * out[k]))


def buckets(tail, lo, hi, h):
    """masses of losses rounded down to multiples of h, from P[loss > v] = tail(v); losses below lo are dropped"""
    import numpy as np
    a, b = math.floor(lo / h), math.floor(hi / h) + 1
    ks = np.arange(a, b + 1)
    # atoms sit a little above their multiple
    t = np.array([tail(k * h - 1e-9 * h) for k in ks])
    return np.maximum(t[:-1] - t[1:], 0), a


def lower_bound_of_delta(d, par, n, eps):
    """a lower bound of the n-fold delta, from the exact loss distribution rounded down (exact for discrete Laplace)"""
    from scipy import stats
    f, s, q = d['family'], d['sens'], d.get('q', 1.0)
    if f == 'discrete laplace':
        # loss at outcome x: par (|x - s| - |x|); between -s and s in steps of 2
        e = math.exp(-par)
        c = (1 - e) / (1 + e)
        masses = [0.0] * (2 * s + 1)
        for x in range(1, s): masses[(abs(x - s) - abs(x)) + s] += c * math.exp(-par * x)
        masses[2 * s] += 1 / (1 + e)                    # x <= 0
        masses[0] += math.exp(-par * s) / (1 + e)       # x >= s
        return composed_delta(masses, -s, par, n, eps)
    if f == 'laplace':
        L = s / par
        def tail(v):
            if v >= L: return 0.0
            if v < -L: return 1.0
            return 1 - .5 * math.exp((v - L) / 2)
        h = L / max(400, min(6000, math.ceil(40 * L * n / eps)))
        m, a = buckets(tail, -L, L, h)
        return composed_delta(m, a, h, n, eps)
    if f == 'gaussian':
        mu = s * math.sqrt(n) / par
        return stats.norm.sf(eps / mu - mu / 2) - math.exp(eps + stats.norm.logsf(eps / mu + mu / 2))
    mu, best = s / par, 0.0
    for adj in ('REMOVE', 'ADD'):
        def tail(v):
            if adj == 'REMOVE':
                r = math.exp(v) - (1 - q)
                if r <= 0: return 1.0
                y = (math.log(r / q) + mu * mu / 2) / mu      # outcome above y, in units of the noise
                return q * stats.norm.sf(y - mu) + (1 - q) * stats.norm.sf(y)
            r = math.exp(-v) - (1 - q)
            if r <= 0: return 0.0
            y = (math.log(r / q) + mu * mu / 2) / mu          # outcome below y
            return stats.norm.cdf(y)
        reach = math.log1p(q * math.expm1(mu * (9 + mu)))
        h = min(eps / 400 / math.sqrt(n), reach / 200)
        if reach / h > 20000: h = reach / 20000
        m, a = buckets(tail, -reach, reach, h)
        best = max(best, composed_delta(m, a, h, n, eps))
    return best


@harness('P16', ['get_smallest_laplace_noise', 'get_smallest_discrete_laplace_noise', 'get_smallest_gaussian_noise', 'get_smallest_subsampled_gaussian_noise', 'get_smallest_parameter'],
         kind='bounded', runs=60, budget=45, bound='random guarantees with epsilon in [0.1, 5], delta in [1e-6, 0.1] (0 in some Laplace cases), 1 to 12 queries, sensitivities up to 4; delta of the composition from the exact losses, rounded down to a grid (exact for discrete Laplace and Gaussian)')
def smallest_noise_composes_within_the_budget(vc):
    a, c = vc.mod(AC), vc.mod(CM)
    def gen(r):
        f = r.choice(['laplace', 'laplace', 'discrete laplace', 'discrete laplace', 'gaussian', 'gaussian', 'subsampled'])
        return {'family': f, 'eps': r.choice([r.uniform(.1, 5), 10 ** r.uniform(-1, .7)]) if f != 'subsampled' else r.uniform(.5, 3), 'delta': 0.0 if f.endswith('laplace') and r.random() < .15 else 10 ** r.uniform(-6, -1),
                'sens': r.choice([1, 2, 3]) if f == 'discrete laplace' else r.choice([1, 1.0, r.uniform(.2, 4)]), 'n': r.choice([1, 1, 2, 3, 5, r.randint(1, 12)]) if f != 'subsampled' else r.randint(1, 5), 'q': r.choice([1.0, r.uniform(.05, 1), .5]) if f == 'subsampled' else 1.0}
    d = vc.data('budget', gen)
    eps, delta, n = d['eps'], d['delta'], d['n']
    p = c.DifferentialPrivacyParameters(eps, delta)
    f = {'laplace': a.get_smallest_laplace_noise, 'discrete laplace': a.get_smallest_discrete_laplace_noise, 'gaussian': a.get_smallest_gaussian_noise}.get(d['family'])
    par = f(p, n, d['sens']) if f else a.get_smallest_subsampled_gaussian_noise(p, n, d['sens'], d['q'])
    vc.prove('a positive parameter', par > 0 and math.isfinite(par))
    vc.prove('delta of the composed queries is within the budget', lower_bound_of_delta(d, float(par), n, eps) <= delta * (1 + 1e-6) + 2e-13 * n)


@harness('P16', ['advanced_composition', 'get_smallest_epsilon_from_advanced_composition'], kind='bounded', runs=400, budget=10, bound='random epsilons in [0.001, 3], up to 40 queries, deltas from 1e-10; the theorem evaluated in 60 digits')
def advanced_composition_matches_the_theorem(vc):
    from mpmath import mp, mpf
    a, c = vc.mod(AC), vc.mod(CM)
    d = vc.data('parameters', lambda r: {'eps': r.choice([10 ** r.uniform(-3, .5), r.uniform(.01, 3), 1.0]), 'k': r.choice([1, 2, r.randint(1, 40)]), 'delta': r.choice([0.0, 10 ** r.uniform(-10, -.5)]), 'total': r.choice([0.0, 10 ** r.uniform(-10, 0), 'same', 'exact'])})
    k, delta, total = d['k'], d['delta'], d['total']
    if total == 'same': total = delta
    with mp.workdps(60):
        whole = 1 - (1 - mpf(delta)) ** k
        if total == 'exact': total = float(whole)
        e = mpf(d['eps'])
        def kov(e, i): return sum(mp.binomial(k, l) * (mp.exp(e * (k - l)) - mp.exp(e * (k - 2 * i + l))) for l in range(i)) / (1 + mp.exp(e)) ** k
        def composed(e, i): return 1 - (1 - mpf(delta)) ** k * (1 - kov(e, i))
        close = lambda x: abs(x - mpf(total)) <= 1e-9 * mpf(total)
        vals = [composed(e, i) for i in range(k // 2 + 1)]
        got = a.advanced_composition(c.DifferentialPrivacyParameters(d['eps'], delta), k, total)
        sure = [i for i, v in enumerate(vals) if v <= total and not close(v) or v == total == 0]
        maybe = [i for i, v in enumerate(vals) if v <= total or close(v)]
        if got is None: vc.prove('nothing is returned only if no multiple qualifies', not sure)
        else:
            js = [i for i in range(k // 2 + 1) if abs(got - d['eps'] * (k - 2 * i)) <= 1e-9 * d['eps'] * k]
            vc.prove('a multiple of epsilon that the theorem allows', bool(js) and js[0] in maybe)
            vc.prove('no smaller multiple qualifies', not sure or js[0] >= max(sure))
        # the reverse search: d['eps'] is now the total
        x = a.get_smallest_epsilon_from_advanced_composition(c.DifferentialPrivacyParameters(d['eps'], total), k, delta)
        if x is None: vc.prove('no epsilon only if the queries exceed the total delta', whole > total or close(whole) and whole != 0)
        else:
            vc.prove('an epsilon only if the queries are within the total delta', whole <= total or close(whole))
            ok = any((composed(mpf(x), i) <= total or close(composed(mpf(x), i))) and x * (k - 2 * i) <= d['eps'] * (1 + 1e-9) for i in range(k // 2 + 1))
            vc.prove('the theorem allows the total epsilon', ok)
            vc.prove('at least basic composition', x >= d['eps'] / k * (1 - 1e-9))
