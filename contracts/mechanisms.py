"""P15: privacy losses of mechanisms, their inverses and their hockey-stick divergences."""
import math
from pyvc.vc import harness
from contracts._mech import *


@harness('P15', ['AdditiveNoisePrivacyLoss.privacy_loss', 'privacy_loss_without_subsampling', 'MixtureGaussianPrivacyLoss.privacy_loss'], kind='bounded', runs=1500, budget=20, bound='random mechanisms of the five families, five outcomes each')
def loss_is_the_log_ratio_of_densities(vc):
    d = vc.data('mechanism', gen_mech)
    xs = sorted(vc.data('outcomes', lambda r: gen_points(r, d)))
    m, o = make_mech(vc, d), Oracle(d)
    prev = None
    for x in xs:
        w = o.loss(x)
        if w is None: continue
        got = m.privacy_loss(x)
        vc.prove('log ratio', vc.eq(got, float(w), rtol=1e-9, atol=1e-10))
        if prev is not None: vc.prove('does not increase with the outcome', got <= prev + 1e-9 * (1 + abs(prev)) if math.isfinite(prev) else True)
        prev = float(got)
    if o.discrete:
        vc.raises('not an outcome', ValueError, m.privacy_loss, .5)
    if d['family'] == 'discrete gaussian':
        far = o.T + 2 * d['sens'] + 1
        for x in (far, -far): vc.raises('outcome outside both supports', ValueError, m.privacy_loss, x)


@harness('P15', ['inverse_privacy_loss', 'inverse_privacy_loss_without_subsampling', 'inverse_privacy_losses'], kind='bounded', runs=1500, budget=20, bound='random mechanisms of the five families, up to six losses each')
def inverse_is_the_largest_outcome_with_that_loss(vc):
    import numpy as np
    d = vc.data('mechanism', gen_mech)
    vs = sorted(vc.data('losses', lambda r: gen_epsilons(r, d)))
    m, o = make_mech(vc, d), Oracle(d)
    q = d['q'] if d['family'] != 'mixture' else math.fsum(p for p, s in zip(d['probs'], d['sens']) if s > 0)
    if d['family'] == 'mixture' and not any(s == 0 and p > 0 for p, s in zip(d['probs'], d['sens'])): q = 1.0
    # losses outside of the range of a sampled mechanism are refused
    edge = math.inf if q >= 1 else -math.log1p(-q)
    for v in vs:
        if d['adj'] == 'ADD' and edge < INF and v >= edge * (1 - 1e-7): continue
        if d['adj'] == 'REMOVE' and edge < INF and v <= -edge * (1 - 1e-7): continue
        x = m.inverse_privacy_loss(v)
        tol = 1e-8 * (1 + abs(v))
        step = 2.5e-6 if d['family'] == 'mixture' else 1e-6 * o.scale() + 1e-9 * abs(x) if math.isfinite(x) else 0
        big = 4 * d['par'] * 10 + 4 * float(o.maxs)
        if d['family'] == 'discrete laplace': big = int(4 * float(o.maxs) + 40)
        if d['family'] == 'discrete gaussian':
            vc.prove('whole', float(x).is_integer())
            below, above = o.loss(x), o.loss(x + 1)
            if below is not None: vc.prove('loss at the inverse', float(below) >= v - tol)
            else: vc.prove('below every outcome or above', x < -o.T or x > o.T or True)
            if above is not None: vc.prove('loss beyond the inverse', float(above) < v + tol)
            if x < -o.T - o.maxs - 1 or x > o.T + o.maxs + 1: vc.prove('within the support', False)
            continue
        if x == -INF: vc.prove('no outcome has that loss', float(o.loss(-big)) < v + tol); continue
        if x == INF: vc.prove('every outcome has that loss', float(o.loss(big)) > v - tol); continue
        vc.prove('finite', math.isfinite(x))
        if d['family'] == 'discrete laplace':
            vc.prove('whole', float(x).is_integer())
            vc.prove('loss at the inverse', float(o.loss(x)) >= v - tol)
            vc.prove('loss beyond the inverse', float(o.loss(x + 1)) < v + tol)
        else:
            vc.prove('loss at the inverse', float(o.loss(x - (step if d['family'] == 'mixture' else 0))) >= v - tol)
            vc.prove('loss beyond the inverse', float(o.loss(x + step)) < v + tol)
    if d['family'] == 'mixture':
        ok = [v for v in vs if not (d['adj'] == 'ADD' and v >= edge * (1 - 1e-7)) and not (d['adj'] == 'REMOVE' and v <= -edge * (1 - 1e-7))]
        if ok:
            many = m.inverse_privacy_losses(np.array(ok, dtype=float))
            for v, x in zip(ok, many): vc.prove('one by one or together', vc.or_(vc.eq(x, m.inverse_privacy_loss(v)), abs(x - m.inverse_privacy_loss(v)) <= 2.1e-6))


@harness('P15', ['get_delta_for_epsilon', 'mu_upper_cdf', 'mu_lower_log_cdf', 'noise_cdf', 'noise_log_cdf'], kind='bounded', runs=1500, budget=30, bound='random mechanisms of the five families, up to six epsilons each')
def delta_is_the_hockey_stick_divergence_of_the_outputs(vc):
    import numpy as np
    d = vc.data('mechanism', gen_mech)
    es = sorted(vc.data('epsilons', lambda r: gen_epsilons(r, d)))
    m, o = make_mech(vc, d), Oracle(d)
    tol = dict(rtol=1e-7, atol=1e-9 if d['family'] == 'mixture' else 1e-11)
    want = [o.delta(e) for e in es]
    one = [m.get_delta_for_epsilon(e) for e in es]
    for e, g, w in zip(es, one, want):
        vc.prove('scalar is a float', isinstance(g, float))
        vc.prove('between 0 and 1', 0 <= g <= 1)
        vc.prove('hockey-stick divergence', vc.eq(g, w, **tol))
    for a, b in zip(one, one[1:]): vc.prove('does not increase', b <= a + (1e-9 if d['family'] == 'mixture' else 1e-12))
    kind = vc.choice('kind', ['list', 'array', 'tuple'])
    many = m.get_delta_for_epsilon(es if kind == 'list' else tuple(es) if kind == 'tuple' else np.array(es))
    vc.prove('one delta per epsilon', len(many) == len(es))
    for g, w in zip(many, want): vc.prove('vector query', vc.eq(float(g), w, **tol))
    for x in vc.data('outcomes', lambda r: gen_points(r, d)):
        vc.prove('upper distribution', vc.eq(float(m.mu_upper_cdf(x)), float(o.cdf('up', x)), rtol=1e-9, atol=1e-13))
        lo = o.cdf('lo', x)
        vc.prove('lower distribution', vc.eq(float(m.mu_lower_log_cdf(x)), float(o.mp.log(lo)) if lo > 0 else -INF, rtol=1e-8, atol=1e-9))
        vc.prove('vector of outcomes', vc.eq(float(m.mu_upper_cdf([x, x])[1]), float(o.cdf('up', x)), rtol=1e-9, atol=1e-13))


@harness('P15', ['get_delta_for_epsilon'], kind='bounded', runs=500, budget=8, bound='random additive-noise mechanisms, whole epsilons')
def integers_and_floats_have_the_same_delta(vc):
    import numpy as np
    d = vc.data('mechanism', lambda r: gen_mech(r, r.choice(FAMILIES[:4])))
    es = sorted(vc.data('epsilons', lambda r: [r.randint(-3, 5) for _ in range(r.randint(1, 4))]))
    m = make_mech(vc, d)
    want = [m.get_delta_for_epsilon(float(e)) for e in es]
    for e, w in zip(es, want):
        vc.prove('integer scalar', m.get_delta_for_epsilon(e) == w)
        vc.prove('numpy scalar', m.get_delta_for_epsilon(np.float64(e)) == w)
        vc.prove('numpy integer', m.get_delta_for_epsilon(np.int64(e)) == w)
    for q in (es, np.array(es), [float(e) for e in es]):
        for g, w in zip(m.get_delta_for_epsilon(q), want): vc.prove('list or array', vc.eq(float(g), w, rtol=1e-12, atol=1e-15))


@harness('P15', ['PrivacyLoss.__init__'], kind='bounded', runs=40, budget=4, bound='invalid parameters of each family')
def invalid_mechanisms_are_refused(vc):
    m = vc.mod(ME)
    bad = vc.data('bad', lambda r: -r.choice([0, 0.0, 1.0, r.uniform(0, 5)]))
    n = vc.data('n', lambda r: r.uniform(.1, .9))
    for c, a in ((m.LaplacePrivacyLoss, 1.0), (m.GaussianPrivacyLoss, 1.0), (m.DiscreteLaplacePrivacyLoss, 1.0), (m.DiscreteGaussianPrivacyLoss, 3.0)):
        vc.raises('noise parameter', ValueError, c, bad)
        vc.raises('sensitivity', ValueError, c, a, sensitivity=int(bad))
        vc.raises('sampling probability', ValueError, c, a, sampling_prob=bad)
        vc.raises('sampling probability above 1', ValueError, c, a, sampling_prob=1.0 + n)
    for c in (m.DiscreteLaplacePrivacyLoss, m.DiscreteGaussianPrivacyLoss): vc.raises('whole sensitivity', ValueError, c, 3.0, sensitivity=1.0 + n)
    vc.raises('truncation bound', ValueError, m.DiscreteGaussianPrivacyLoss, 3.0, sensitivity=5, truncation_bound=2)
    vc.raises('log mass', ValueError, m.GaussianPrivacyLoss, 1.0, log_mass_truncation_bound=n)
    G = m.MixtureGaussianPrivacyLoss
    vc.raises('noise', ValueError, G, bad, [1.0], [1.0])
    vc.raises('lengths', ValueError, G, 1.0, [1.0, 2.0], [1.0])
    vc.raises('negative sensitivity', ValueError, G, 1.0, [1.0, -n], [.5, .5])
    vc.raises('all zero', ValueError, G, 1.0, [0.0], [1.0])
    vc.raises('probabilities', ValueError, G, 1.0, [1.0, 2.0], [.5, .5 - n / 2])
    vc.raises('negative probability', ValueError, G, 1.0, [1.0, 2.0], [1 + n, -n])


@harness('P15', ['MixtureGaussianPrivacyLoss.get_delta_for_epsilon', 'MixtureGaussianPrivacyLoss.inverse_privacy_losses'], kind='finding', runs=1)
def mixture_delta_of_integer_epsilons(vc):
    """the integer dtype of the argument is kept for the inverse losses, which loses their fractions"""
    import numpy as np
    m = vc.mod(ME).MixtureGaussianPrivacyLoss(1.0, [0.0, 1.0], [.5, .5])
    vc.prove('integer epsilon', vc.eq(m.get_delta_for_epsilon(1), m.get_delta_for_epsilon(1.0)))
    vc.prove('integer epsilons', vc.eq(float(m.get_delta_for_epsilon(np.array([0, 1]))[1]), m.get_delta_for_epsilon(1.0)))
