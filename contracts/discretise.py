"""P12: discretised privacy loss distributions of mechanisms, against the mechanisms' own divergences."""
import math
from pyvc.vc import harness
from contracts._mech import ME, Oracle, gen_mech
from contracts._pmf import PM, PLD, INF, hockey

BUILD = {'laplace': 'from_laplace_mechanism', 'gaussian': 'from_gaussian_mechanism', 'discrete laplace': 'from_discrete_laplace_mechanism', 'discrete gaussian': 'from_discrete_gaussian_mechanism', 'mixture': 'from_mixture_gaussian_mechanism'}


def spread(d):
    """roughly the largest privacy loss worth a grid point"""
    s = max(d['sens']) if d['family'] == 'mixture' else d['sens']
    if d['family'] == 'laplace': return s / d['par']
    if d['family'] == 'discrete laplace': return s * d['par']
    u = s / d['par']
    return u * u / 2 + u * 11.6


def gen_case(r):
    d = gen_mech(r)
    w = spread(d)
    if w > 60: d['par'] = d['par'] * w if d['family'] != 'discrete laplace' else d['par'] / w; w = spread(d)
    d['interval'] = r.choice([w / r.randint(2, 12), w / r.uniform(3, 300), w / 100, 10 ** r.uniform(-3, 0), 1.5 * w])
    if w / d['interval'] > 1200: d['interval'] = w / 1200
    if d['family'] == 'discrete gaussian' and (d['trunc'] or 12 * d['par']) > 400: d['trunc'] = 300
    d['pess'] = r.random() < .65
    d['dots'] = r.random() < .5
    d['trunc log'] = r.choice([-50, -50, -20, -5, -3.0, -1.5])
    return d


def mechanism_pld(vc, d):
    P = vc.mod(PLD)
    kw = dict(pessimistic_estimate=d['pess'], value_discretization_interval=d['interval'], use_connect_dots=d['dots'])
    f = d['family']
    if f == 'mixture': return P.from_mixture_gaussian_mechanism(d['par'], d['sens'], d['probs'], log_mass_truncation_bound=d['trunc log'], **kw)
    kw.update(sensitivity=d['sens'], sampling_prob=d['q'])
    if f == 'gaussian': kw.update(log_mass_truncation_bound=d['trunc log'])
    if f == 'discrete gaussian': kw.update(truncation_bound=d['trunc'])
    return getattr(P, BUILD[f])(d['par'], **kw)


def grid_points(r, d, n=4):
    w, h = spread(d), d['interval']
    lq = math.log1p(-d['q']) if d['q'] < 1 else -w
    return [r.choice([0.0, r.uniform(-1, 1) * w, r.uniform(0, 1.3) * w, w, h * r.randint(-3, 9), h * (r.randint(-3, 9) + r.random()), h * math.floor(w / h), h * math.ceil(w / h), lq, -lq, r.uniform(-3, 3), w + h, -w - h, INF, 2 * w]) for _ in range(n)]


def as_float(x): return float(x)


@harness('P12', ['from_laplace_mechanism', 'from_gaussian_mechanism', 'from_discrete_laplace_mechanism', 'from_discrete_gaussian_mechanism', 'from_mixture_gaussian_mechanism', '_create_pld_pmf_from_monotone_privacy_loss'],
         kind='bounded', runs=400, budget=60, bound='random mechanisms with losses up to 60, up to 1200 grid points, truncation of the Gaussian at mass e^-50 to e^-1.5; four epsilons each; delta from the output densities in 40 digits')
def discretised_mechanisms_are_on_the_safe_side(vc):
    d = vc.data('mechanism', gen_case)
    eps = vc.data('epsilons', lambda r: grid_points(r, d))
    pld = mechanism_pld(vc, d)
    symmetric = d['q'] == 1 and d['family'] != 'mixture'
    oracles = {a: Oracle(dict(d, adj=a)) for a in (('REMOVE',) if symmetric else ('REMOVE', 'ADD'))}
    parts = {'both': pld.get_delta_for_epsilon}
    for a, n in (('REMOVE', '_pmf_remove'), ('ADD', '_pmf_add')):
        p = getattr(pld, n, None)
        if p is not None and not symmetric: parts[a] = p.get_delta_for_epsilon
    for name, f in parts.items():
        for e in eps:
            true = max(o.delta(e) for a, o in oracles.items() if name in ('both', a))
            got = as_float(f(e))
            tol = 1e-11 + 1e-9 * true
            if d['pess']: vc.prove(f'pessimistic delta is at least the true delta ({name})', got >= true - tol)
            elif e != INF or d['family'] != 'discrete gaussian': vc.prove(f'optimistic delta is at most the true delta ({name})', got <= true + tol + (1e-9 if e < 0 else 0))
        total = as_float(f(-INF))
        if d['pess']: vc.prove(f'masses sum to 1 ({name})', abs(total - 1) <= 1e-9)
        else: vc.prove(f'masses sum to at most 1 ({name})', total <= 1 + 1e-9)
        vc.prove(f'infinity mass is not negative ({name})', 0 <= as_float(f(INF)) <= 1)
    for n in ('_pmf_remove', '_pmf_add'):
        masses(vc, getattr(pld, n, None))


def masses(vc, pmf):
    dense = pmf.to_dense_pmf() if hasattr(pmf, 'to_dense_pmf') else None
    probs = getattr(dense, '_probs', None)
    if probs is not None: vc.prove('no negative probability', min(float(x) for x in probs) >= -1e-15)


def gen_curve(r):
    """a hockey-stick curve on a grid: that of an arbitrary distribution"""
    n = r.choice([1, 2, 2, 3, 5, 12])
    h = r.choice([1.0, .5, .1, .01, 2.0, r.uniform(.01, 1)])
    lo = r.randint(-15, 5)
    ks = sorted(r.sample(range(lo, lo + 2 * n + 2), n)) if r.random() < .6 else list(range(lo, lo + n))
    m = r.randint(1, 7)
    losses = [r.uniform(ks[0] - 2, ks[-1] + 2) * h if r.random() < .7 else r.choice(ks) * h for _ in range(m)]
    w = [r.random() + 1e-3 for _ in range(m)]
    inf = r.choice([0.0, 0.0, .01, .3, 1.0 if r.random() < .2 else .5])
    t = math.fsum(w)
    return {'h': h, 'ks': ks, 'pairs': [[l, x / t * (1 - inf)] for l, x in zip(losses, w)], 'inf': inf}


def exact_curve(d, e):
    return math.fsum([d['inf']] + [-math.expm1(e - l) * p for l, p in d['pairs'] if l > e])


@harness('P12', ['create_pmf_pessimistic_connect_dots', 'create_pmf_pessimistic_connect_dots_fixed_gap'], kind='bounded', runs=600, budget=15, bound='random hockey-stick curves on up to 12 grid points')
def connecting_the_dots(vc):
    m = vc.mod(PM)
    d = vc.data('curve', gen_curve)
    qs = vc.data('between', lambda r: [r.random() for _ in range(3)])
    h, ks = d['h'], d['ks']
    # the hockey-stick curve as a divergence: bounded by 1, falling, convex in e^epsilon
    def curve(e): return min(1.0, exact_curve(d, e))
    deltas = [curve(k * h) for k in ks]
    for i in range(1, len(deltas)): deltas[i] = min(deltas[i], deltas[i - 1])
    made = [m.create_pmf_pessimistic_connect_dots(h, ks, deltas)]
    if ks == list(range(ks[0], ks[-1] + 1)): made.append(m.create_pmf_pessimistic_connect_dots_fixed_gap(h, ks[0], ks[-1], deltas))
    for p in made:
        tol = 1e-12 * len(ks) / min(1, h)
        for k, x in zip(ks, deltas):
            vc.prove('the delta at every grid point is the given one', abs(as_float(p.get_delta_for_epsilon(k * h)) - x) <= tol + 1e-9 * x)
        for q in qs:
            e = (ks[0] - 2 + q * (ks[-1] - ks[0] + 4)) * h
            vc.prove('no less than the curve in between', as_float(p.get_delta_for_epsilon(e)) >= curve(e) - tol)
        vc.prove('the masses sum to 1', abs(as_float(p.get_delta_for_epsilon(-INF)) - 1) <= tol)
        vc.prove('infinity mass', abs(as_float(p.get_delta_for_epsilon(INF)) - deltas[-1]) <= 1e-15)
        masses(vc, p)
    bad = list(deltas)
    if len(bad) > 1 and bad[0] > bad[-1] + 1e-6:
        vc.raises('increasing deltas are refused', ValueError, m.create_pmf_pessimistic_connect_dots, h, ks, bad[::-1])
        vc.raises('decreasing epsilons are refused', ValueError, m.create_pmf_pessimistic_connect_dots, h, ks[::-1], bad)
        vc.raises('too few deltas are refused', ValueError, m.create_pmf_pessimistic_connect_dots, h, ks, bad[:-1])
        if len(made) > 1:
            vc.raises('increasing deltas are refused', ValueError, m.create_pmf_pessimistic_connect_dots_fixed_gap, h, ks[0], ks[-1], bad[::-1])
            vc.raises('too few deltas are refused', ValueError, m.create_pmf_pessimistic_connect_dots_fixed_gap, h, ks[0], ks[-1], bad[:-1])
    vc.raises('deltas above 1 are refused', ValueError, m.create_pmf_pessimistic_connect_dots, h, ks, [1.5] + deltas[1:])


@harness('P12', ['create_from_cdf', 'create_from_rounded_probability'], kind='bounded', runs=300, budget=15, bound='loss distributions of Gaussian mechanisms and with up to 7 atoms, up to 600 grid points')
def discretising_a_distribution_function(vc):
    P = vc.mod(PLD)
    def gen(r):
        if r.random() < .4: d = {'mu': r.uniform(.2, 3)}
        else:
            m = r.randint(1, 7)
            ls = [r.choice([r.uniform(-3, 3), r.uniform(-.2, .2), 0.0, .5]) for _ in range(m)]
            w = [r.random() + 1e-2 for _ in range(m)]
            d = {'pairs': [[l, x / math.fsum(w)] for l, x in zip(ls, w)], 'mu': None}
        d.update(h=r.choice([.5, .1, .25, r.uniform(.05, .6)]), tail=r.choice([1e-15, 1e-9, 1e-3, .05]), pess=r.random() < .6)
        return d
    d = vc.data('distribution', gen)
    eps = vc.data('epsilons', lambda r: [r.choice([r.uniform(-3, 4), 0.0, d['h'] * r.randint(-5, 9), r.uniform(0, 1)]) for _ in range(5)])
    from mpmath import mp, mpf
    if d['mu']:
        mu = d['mu']
        cdf = lambda v: .5 * math.erfc(-(v - mu * mu / 2) / mu / math.sqrt(2))
        def true(e): return float(mp.ncdf(-e / mu + mu / 2) - mp.exp(e) * mp.ncdf(-e / mu - mu / 2))
    else:
        cdf = lambda v: min(1.0, math.fsum(p for l, p in d['pairs'] if l <= v))
        def true(e): return hockey({}, 0, e) + math.fsum(-math.expm1(e - l) * p for l, p in d['pairs'] if l > e)
        if math.fsum(p for l, p in d['pairs']) > 1 - 1e-15 / 2: pass
        vc.assume(cdf(1e9) >= 1 - d['tail'] / 2)
    pld = P.PrivacyLossDistribution.create_from_cdf(cdf, d['pess'], d['h'], d['tail']) if not hasattr(P, 'create_from_cdf') else P.create_from_cdf(cdf, d['pess'], d['h'], d['tail'])
    for e in eps:
        got, t = as_float(pld.get_delta_for_epsilon(e)), true(e)
        # a negative epsilon counts mass that the truncation of the lower tail may drop
        slack = 1e-10 + (d['tail'] * abs(math.expm1(e)) if e < 0 else 0)
        if d['pess']: vc.prove('pessimistic delta is at least the true delta', got >= t - slack)
        else: vc.prove('optimistic delta is at most the true delta', got <= t + 1e-10)
    total = as_float(pld.get_delta_for_epsilon(-INF))
    vc.prove('the masses sum to 1, up to the truncated tails', 1 - d['tail'] - 1e-9 <= total <= 1 + d['tail'] + 1e-9)
