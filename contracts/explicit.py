"""P14: distributions built from explicit probabilities or guarantees."""
import math
from pyvc.vc import harness
from contracts._pmf import *


def hs(up, lo, eps):
    """hockey-stick divergence of two distributions given as {outcome: probability}"""
    if eps == -INF: return math.fsum(up.values())
    t = []
    for o, u in up.items():
        l = lo.get(o, 0.0)
        if l == 0.0: t.append(u)
        elif math.isinf(eps): continue
        elif eps < 700:
            d = u - math.exp(eps) * l
            if d > 0: t.append(d)
        elif u > 0 and math.log(u) - math.log(l) > eps: t.append(-math.expm1(eps - math.log(u) + math.log(l)) * u)
    return math.fsum(t)


def P_(logs): return {o: math.exp(v) for o, v in logs.items()}


def gen_two(r):
    """log probabilities of two distributions; some outcomes only on one side"""
    n = r.choice([1, 2, 2, 3, 5, 9])
    aligned = r.random() < .4
    h = r.choice([0.5, 0.25, 1.0]) if aligned else r.choice([0.5, 0.1, 1e-2, 0.37, 1e-4, 2.0])
    up, lo = {}, {}
    if aligned:
        for i in range(n):
            u, l = -r.randint(5, 16) * h * (2 if h < 1 else 1), -r.randint(5, 16) * h * (2 if h < 1 else 1)
            up[f'o{i}'], lo[f'o{i}'] = u - 3, l - 3
    else:
        a, b = gen_probs(r, n), gen_probs(r, n)
        sa, sb = math.fsum(a), math.fsum(b)
        for i in range(n):
            for d, w, s in ((up, a, sa), (lo, b, sb)):
                p = w[i] / s
                if p > 0: d[f'o{i}'] = math.log(p)
                elif r.random() < .5: d[f'o{i}'] = -INF
    for d, nm in ((up, 'up'), (lo, 'lo')):
        rest = 1 - math.fsum(math.exp(v) for v in d.values())
        if rest > 1e-9: d['rest' if r.random() < .3 and not aligned else 'rest-' + nm] = math.log(rest)
    ko = list(up); r.shuffle(ko)
    return {'up': {k: up[k] for k in ko}, 'lo': lo, 'h': h, 'aligned': aligned}


def sandwich(vc, label, pld, want, h, pess, extra, pts, exact=False, tol=1e-11):
    """pessimistic: never below, at most one step of discretisation above; optimistic: mirrored"""
    for e in pts:
        g, w = pld.get_delta_for_epsilon(e), want(e)
        t = tol + 1e-9 * abs(w)
        if exact: vc.prove(label + ': exact on the grid', abs(g - w) <= t)
        if pess:
            vc.prove(label + ': a pessimistic estimate is never below', g >= w - t)
            vc.prove(label + ': a pessimistic estimate is less than one step off', g <= want(e - h * (1 + 1e-9)) + extra + t)
        else:
            vc.prove(label + ': an optimistic estimate is never above', g <= w + t)
            vc.prove(label + ': an optimistic estimate is less than one step off', g >= want(e + h * (1 + 1e-9)) - extra - t)


def points(r, h, top=4.0):
    return sorted([r.choice([r.uniform(-2, top), r.randint(-8, 12) * h, (r.randint(-8, 12) + .5) * h, 0.0, r.uniform(0, 1), r.uniform(-top, top) * 3]) for _ in range(9)])


@harness('P14', ['from_two_probability_mass_functions'], kind='bounded', runs=1500, budget=25, bound='random pairs of distributions over up to 10 outcomes')
def two_probability_mass_functions(vc):
    vp = vc.mod(PLD)
    d = vc.data('distributions', gen_two)
    pess = vc.data('pess', lambda r: r.random() < .6)
    sym = vc.data('symmetric', lambda r: r.random() < .5)
    cut = vc.data('log_mass_truncation_bound', lambda r: r.choice([-INF, -INF, -INF, -50, -5, -2.0]))
    h = d['h']
    pts = vc.data('epsilons', lambda r: points(r, h) + [-INF] * (r.random() < .2))
    up, lo = P_(d['up']), P_(d['lo'])
    pld = vp.from_two_probability_mass_functions(dict(d['lo']), dict(d['up']), pess, h, cut, sym)
    def mass(a): return math.fsum(p for o, p in a.items() if p > 0 and math.log(p) <= cut)
    want = (lambda e: hs(up, lo, e)) if sym else (lambda e: max(hs(up, lo, e), hs(lo, up, e)))
    extra = mass(up) if sym else max(mass(up), mass(lo))
    sandwich(vc, 'distribution', pld, want, h, pess, extra, pts, exact=d['aligned'] and extra == 0)
    if cut == -INF:
        inf = lambda a, b: math.fsum(p for o, p in a.items() if b.get(o, 0.0) == 0.0)
        vc.prove('outcomes of one side only have infinite loss', vc.eq(pld.get_delta_for_epsilon(INF), inf(up, lo) if sym else max(inf(up, lo), inf(lo, up)), atol=1e-11))
    if pess: vc.prove('composes', pld.compose(pld).get_delta_for_epsilon(1.0) >= want(1.0) - 1e-9)


@harness('P14', ['from_randomized_response'], kind='bounded', runs=1200, budget=15, bound='random parameters, up to 200 buckets')
def randomized_response_distribution(vc):
    vp = vc.mod(PLD)
    pa = vc.mod('dp_accounting.privacy_accountant')
    p = vc.data('noise_parameter', lambda r: r.choice([r.uniform(1e-6, 1 - 1e-6), 10 ** r.uniform(-9, -0.01), .5, 1 - 10 ** r.uniform(-9, -1)]))
    k = vc.data('num_buckets', lambda r: r.choice([2, 2, 3, 4, 7, 20, 200]))
    pess = vc.data('pess', lambda r: r.random() < .6)
    h = vc.data('h', lambda r: r.choice([1e-4, 1e-2, .5, 1.0]))
    rel = vc.choice('relation', ['REPLACE_ONE', 'REPLACE_SPECIAL'])
    pts = vc.data('epsilons', lambda r: points(r, h))
    a = {i: p / k for i in range(k)}
    a[0] = 1 - p + p / k
    if rel == 'REPLACE_ONE':
        b = {i: p / k for i in range(k)}
        b[1] = 1 - p + p / k
    else: b = {i: 1 / k for i in range(k)}
    pts += [math.log(a[0] / b[0])]
    want = lambda e: max(hs(a, b, e), hs(b, a, e))
    pld = vp.from_randomized_response(p, k, pess, h, getattr(pa.NeighboringRelation, rel))
    sandwich(vc, 'randomized response', pld, want, h, pess, 0.0, pts, tol=1e-10)
    if rel == 'REPLACE_ONE': sandwich(vc, 'default relation', vp.from_randomized_response(p, k, pess, h), want, h, pess, 0.0, pts[:3], tol=1e-10)
    P = vp.from_randomized_response
    for bad in (0.0, 1.0, -0.5, 1.5): vc.raises('noise parameter out of range', ValueError, P, bad, k)
    vc.raises('too few buckets', ValueError, P, p, 1)
    vc.raises('relation', ValueError, P, p, k, neighboring_relation=pa.NeighboringRelation.ADD_OR_REMOVE_ONE)


@harness('P14', ['from_privacy_parameters', 'DifferentialPrivacyParameters'], kind='bounded', runs=1200, budget=12, bound='random guarantees with epsilon up to 50')
def privacy_guarantee_distribution(vc):
    vp, cm = vc.mod(PLD), vc.mod(CM)
    h = vc.data('h', lambda r: r.choice([1e-4, 1e-2, .5, 1.0]))
    eps = vc.data('epsilon', lambda r: r.choice([0.0, r.uniform(0, 5), r.randint(0, 6) * h, 10 ** r.uniform(-8, 1.5), 50.0, 1]))
    dl = vc.data('delta', lambda r: r.choice([0.0, 0.0, 1e-6, r.random(), .25, 1.0, 10 ** r.uniform(-12, 0), 0]))
    pts = vc.data('epsilons', lambda r: points(r, h)) + [float(eps), eps - h / 2]
    up = {'inf': dl, 'a': (1 - dl) / (1 + math.exp(-eps)), 'b': (1 - dl) / (1 + math.exp(eps))}
    lo = {'zero': dl, 'a': up['b'], 'b': up['a']}
    pld = vp.from_privacy_parameters(cm.DifferentialPrivacyParameters(eps, dl), h)
    on = (eps / h).is_integer() and h >= .5
    sandwich(vc, 'guarantee', pld, lambda e: hs(up, lo, e), h, True, 0.0, pts, exact=on)
    vc.prove('delta at the epsilon is the delta', pld.get_delta_for_epsilon(eps) >= dl - 1e-12)
    vc.prove('infinity mass', vc.eq(pld.get_delta_for_epsilon(INF), dl))
    if on: vc.prove('epsilon at the delta is the epsilon', pld.get_epsilon_for_delta(dl) <= eps + 1e-9)
    D = cm.DifferentialPrivacyParameters
    vc.raises('negative epsilon', ValueError, D, -0.5)
    vc.raises('delta above 1', ValueError, D, 1.0, 1.5)
    vc.raises('negative delta', ValueError, D, 1.0, -0.1)
