"""P09, P10, P11, P13: discretised privacy loss distributions."""
import math
from pyvc.vc import harness
from contracts._pmf import *


# ------------------------------------------------------------------ run-time contracts (bounded)
@harness('P09', ['PLDPmf.get_delta_for_epsilon', 'get_delta_for_epsilon_for_composed_pld', 'to_dense_pmf', 'create_pmf'], kind='bounded', runs=1500, budget=20,
         bound='random distributions with up to 30 losses (and a few with > 1000), up to 7 epsilons per query')
def delta_is_the_hockey_stick_divergence(vc):
    import numpy as np
    d = vc.data('pmf', gen_pmf)
    st = vc.choice('storage', STORAGES)
    eps = vc.data('epsilons', lambda r: gen_eps(r, d))
    kind = vc.choice('query', ['list', 'array', 'tuple'])
    p = build(vc, d, st)
    want = [hockey(losses(d), d['inf'], e) for e in eps]
    for e, w in zip(eps, want):
        vc.prove('scalar query', vc.eq(p.get_delta_for_epsilon(e), w, atol=1e-12))
        if math.isfinite(e): vc.prove('numpy scalar query', vc.eq(p.get_delta_for_epsilon(np.float64(e)), w, atol=1e-12))
    q = eps if kind == 'list' else tuple(eps) if kind == 'tuple' else np.array(eps)
    got = p.get_delta_for_epsilon(q)
    vc.prove('one delta per epsilon', len(got) == len(eps))
    for g, w in zip(got, want): vc.prove('vector query', vc.eq(g, w, atol=1e-12))
    ints = [int(e) for e in eps if math.isfinite(e)]
    if ints:
        for e, g in zip(ints, p.get_delta_for_epsilon(ints)): vc.prove('integer epsilons', vc.eq(g, hockey(losses(d), d['inf'], e), atol=1e-12))
    dense = p.to_dense_pmf()
    for e, w in zip(eps, want): vc.prove('dense storage agrees', vc.eq(dense.get_delta_for_epsilon(e), w, atol=1e-12))
    if st != 'dense': vc.prove('size', p.size == len(d['probs']))
    for a, b in zip(want, want[1:]): vc.prove('delta does not increase', a >= b - 1e-15)


@harness('P09', ['get_delta_for_epsilon_for_composed_pld'], kind='bounded', runs=1500, budget=15, bound='random pairs of distributions with up to 14 losses')
def delta_of_a_composition_without_composing(vc):
    a = vc.data('a', lambda r: gen_pmf(r, small=r.random() < .6))
    b = vc.data('b', lambda r: dict(gen_pmf(r, small=r.random() < .6, disc=a['disc']), pess=a['pess']))
    sa, sb = vc.choice('storage_a', STORAGES), vc.choice('storage_b', STORAGES)
    c = convolve(pdict(a), pdict(b))
    im = 1 - (1 - a['inf']) * (1 - b['inf'])
    cl = {k * a['disc']: p for k, p in c.items()}
    eps = vc.data('epsilons', lambda r: [e for e in gen_eps(r, {'probs': [[k, 1] for k in c], 'disc': a['disc']}, 6) if math.isfinite(e)])
    pa, pb = build(vc, a, sa), build(vc, b, sb)
    vp = vc.mod(PLD)
    for e in eps:
        w = hockey(cl, im, e)
        vc.prove('composed delta', vc.eq(pa.get_delta_for_epsilon_for_composed_pld(pb, e), w, atol=1e-11))
        vc.prove('through the distribution', vc.eq(vp.PrivacyLossDistribution(pa).get_delta_for_epsilon_for_composed_pld(vp.PrivacyLossDistribution(pb), e), w, atol=1e-11))


def least_epsilon(d, delta):
    """least non-negative epsilon whose delta is at most `delta` (mpmath)"""
    from mpmath import mp, mpf
    with mp.workdps(60):
        inf, dl = mpf(d['inf']), mpf(delta)
        if inf > dl: return INF
        ls = sorted(((mpf(k) * mpf(d['disc']), mpf(p)) for k, p in d['probs'] if p > 0), reverse=True)
        U, L = inf, mpf(0)
        # delta(eps) = U - e^eps L for eps between two losses, from the right
        for i, (l, p) in enumerate(ls):
            U, L = U + p, L + p * mp.exp(-l)
            nxt = ls[i + 1][0] if i + 1 < len(ls) else -mp.inf
            lo = max(nxt, mpf(0))
            if l <= 0: return mpf(0)
            if U - mp.exp(lo) * L > dl:      # crosses in (lo, l)
                return max(mpf(0), mp.log((U - dl) / L))
            if nxt <= 0: return mpf(0)
        return mpf(0)


@harness('P10', ['PLDPmf.get_epsilon_for_delta', 'PrivacyLossDistribution.get_epsilon_for_delta'], kind='bounded', runs=2500, budget=20,
         bound='random distributions with up to 30 losses')
def epsilon_inverts_delta(vc):
    d = vc.data('pmf', lambda r: gen_pmf(r, small=r.random() < .4))
    st = vc.choice('storage', STORAGES)
    p = build(vc, d, st)
    tot = d['inf'] + math.fsum(x for _, x in d['probs'])
    def gd(r):
        e = max(0, gen_eps(r, d, 1)[0])
        at = hockey(losses(d), d['inf'], e) if math.isfinite(e) else d['inf']
        return min(1.0, max(0.0, r.choice([at, at, d['inf'], d['inf'], 0.0, d['inf'] + 1e-9, d['inf'] / 2, r.random(), tot * r.random(), 1.0, 1e-6, hockey(losses(d), d['inf'], 0.0)])))
    delta = vc.data('delta', gd)
    e = p.get_epsilon_for_delta(delta)
    vc.prove('a number', e == e)
    vc.prove('non-negative', e >= 0)
    tiny = 4e-16 * (1 + len(d['probs']))
    exact = all(x == 0 or (x * 2 ** 20).is_integer() for x in [d['inf']] + [q for _, q in d['probs']])
    if d['inf'] > delta:
        vc.prove('infinite when the infinity mass exceeds delta', e == INF)
        return
    vc.prove('finite otherwise', math.isfinite(e))
    vc.prove('delta at the epsilon is at most the target', vc.le(hockey(losses(d), d['inf'], e), delta, rtol=1e-9, atol=1e-13))
    vc.prove('own delta at the epsilon is at most the target', vc.le(p.get_delta_for_epsilon(e), delta, rtol=1e-9, atol=1e-13))
    if exact and delta == d['inf']: hi = least_epsilon(d, delta)
    else: hi = least_epsilon(d, delta - tiny - 1e-13)
    if d['inf'] <= delta - tiny - 1e-13 or exact and delta == d['inf']:
        vc.prove('no smaller epsilon has that delta', e <= float(hi) * (1 + 1e-9) + 1e-9)
    vp = vc.mod(PLD)
    vc.prove('through the distribution', vc.eq(vp.PrivacyLossDistribution(p).get_epsilon_for_delta(delta), e))


def check_deltas(vc, label, got, probs, inf, disc, pess, tail, tol=1e-11, mixed=True):
    """got: a PLDPmf; probs: exact {index: prob}. Every grid point decides the distribution."""
    ls = {k * disc: p for k, p in probs.items()}
    ks = sorted(probs)
    pts = sorted(set(ks + [ks[0] - 1, ks[-1] + 1]))
    if len(pts) > 40: pts = pts[::max(1, len(pts) // 40)] + pts[-3:]
    for k in pts:
        for e in (k * disc, (k + .5) * disc):
            w, g = hockey(ls, inf, e), got.get_delta_for_epsilon(e)
            if pess: vc.prove(label + ': never below the exact composition', g >= w - tol, )
            else: vc.prove(label + ': at least the exact composition without its tails', g >= w - tail - tol)
            vc.prove(label + ': at most the tail mass above the exact composition', g <= w + tail * (1 + 1e-9) + tol)
    vc.prove(label + ': infinity mass', inf - tol - (0 if pess else tail) <= got.get_delta_for_epsilon(INF) <= inf + tail * (1 + 1e-9) + tol)


@harness('P11', ['PLDPmf.compose', 'compose_pmfs', 'PrivacyLossDistribution.compose'], kind='bounded', runs=1200, budget=25, bound='random pairs of distributions with up to 14 losses')
def composition_is_convolution(vc):
    m, vp = vc.mod(PM), vc.mod(PLD)
    a = vc.data('a', lambda r: gen_pmf(r, small=r.random() < .7))
    b = vc.data('b', lambda r: dict(gen_pmf(r, small=r.random() < .7, disc=a['disc']), pess=a['pess']))
    sa, sb = vc.choice('storage_a', STORAGES), vc.choice('storage_b', STORAGES)
    tail = vc.data('tail', lambda r: r.choice([0, 0, 1e-15, 1e-9, 1e-3, 0.1]))
    pa, pb = build(vc, a, sa), build(vc, b, sb)
    probe = [k * a['disc'] for k, _ in a['probs'][:3]]
    before = [pa.get_delta_for_epsilon(e) for e in probe] + [pb.get_delta_for_epsilon(e) for e in probe]
    c = convolve(pdict(a), pdict(b))
    im = 1 - (1 - a['inf']) * (1 - b['inf'])
    args = (a['disc'], a['pess'], tail)
    same = {sa, sb} <= {'sparse', 'created'} or sa == sb == 'dense'
    if same: check_deltas(vc, 'compose', pa.compose(pb, tail), c, im, *args)
    check_deltas(vc, 'compose_pmfs', m.compose_pmfs(pa, pb, tail), c, im, *args)
    if a['pess'] == b['pess']:
        check_deltas(vc, 'PrivacyLossDistribution.compose', vp.PrivacyLossDistribution(pa).compose(vp.PrivacyLossDistribution(pb), tail), c, im, *args)
    after = [pa.get_delta_for_epsilon(e) for e in probe] + [pb.get_delta_for_epsilon(e) for e in probe]
    vc.prove('the composed distributions are unchanged', before == after)
    # a three-fold composition: the result composes further
    c3 = convolve(c, pdict(b))
    check_deltas(vc, 'compose twice', m.compose_pmfs(m.compose_pmfs(pa, pb, tail), pb, tail), c3, 1 - (1 - im) * (1 - b['inf']), a['disc'], a['pess'], 2 * tail)


@harness('P11', ['PLDPmf.self_compose', 'PrivacyLossDistribution.self_compose'], kind='bounded', runs=800, budget=30, bound='random distributions with up to 14 losses, up to 60 compositions')
def self_composition_is_repeated_composition(vc):
    vp = vc.mod(PLD)
    d = vc.data('pmf', lambda r: gen_pmf(r, small=True))
    st = vc.choice('storage', STORAGES)
    n = vc.data('times', lambda r: r.choice([1, 2, 2, 3, 4, 5, 7, 10, 16, 33, 60]))
    tail = vc.data('tail', lambda r: r.choice([0, 0, 1e-15, 1e-9, 1e-3, 0.1]))
    span = max(k for k, _ in d['probs']) - min(k for k, _ in d['probs']) + 1
    if span * n > 1500: n = max(1, 1500 // span)
    p = build(vc, d, st)
    c = conv_power(pdict(d), n)
    im = 1.0 if d['inf'] >= 1 else -math.expm1(n * math.log1p(-d['inf']))
    # the truncated mass counts as infinite and may wrap around as well
    check_deltas(vc, 'self_compose', p.self_compose(n, tail), c, im, d['disc'], d['pess'], 2 * tail)
    check_deltas(vc, 'PrivacyLossDistribution.self_compose', vp.PrivacyLossDistribution(p).self_compose(n, tail), c, im, d['disc'], d['pess'], 2 * tail)
    check_deltas(vc, 'default tail mass', p.self_compose(n), c, im, d['disc'], d['pess'], 1e-15)
    again = p.self_compose(n, tail).to_dense_pmf().compose(p.to_dense_pmf(), tail)
    check_deltas(vc, 'composed further', again, convolve(c, pdict(d)), 1 - (1 - im) * (1 - d['inf']), d['disc'], d['pess'], 3 * tail)
    for bad in (0, -1): vc.raises('no zero-fold composition', ValueError, p.self_compose, bad)


@harness('P11', ['PLDPmf.validate_composable', 'PLDPmf.compose', 'PrivacyLossDistribution.compose', 'get_delta_for_epsilon_for_composed_pld'], kind='bounded', runs=150, budget=6, bound='random pairs of small distributions')
def incompatible_distributions_are_refused(vc):
    m, vp = vc.mod(PM), vc.mod(PLD)
    a = vc.data('a', lambda r: gen_pmf(r, small=True, disc=r.choice([1.0, 0.5, 0.1])))
    what = vc.choice('difference', ['discretisation', 'estimate', 'both'])
    b = vc.data('b', lambda r: dict(gen_pmf(r, small=True, disc=a['disc'] * (1 if what == 'estimate' else r.choice([2, 0.5, 1.0000001, 3]))), pess=a['pess'] if what == 'discretisation' else not a['pess']))
    st = vc.choice('storage', STORAGES)
    sb = vc.choice('storage_b', STORAGES)
    pa, pb = build(vc, a, st), build(vc, b, sb)
    P = vp.PrivacyLossDistribution
    vc.raises('compose_pmfs', ValueError, m.compose_pmfs, pa, pb)
    vc.raises('validate_composable', ValueError, pa.validate_composable, pb)
    vc.raises('compose', ValueError, pa.compose, pb)
    vc.raises('PrivacyLossDistribution.compose', ValueError, P(pa).compose, P(pb))
    vc.raises('PrivacyLossDistribution.validate_composable', ValueError, P(pa).validate_composable, P(pb))
    vc.raises('composed delta', ValueError, pa.get_delta_for_epsilon_for_composed_pld, pb, 0.5)


# ------------------------------------------------------------------ the two adjacencies
@harness('P13', ['PrivacyLossDistribution.get_delta_for_epsilon', 'get_epsilon_for_delta', 'compose', 'self_compose', 'identity', 'create_from_rounded_probability', 'get_delta_for_epsilon_for_composed_pld'], kind='bounded', runs=800, budget=25,
         bound='random pairs of small distributions per direction, symmetric and asymmetric')
def worse_of_the_two_directions(vc):
    import numpy as np
    m, vp = vc.mod(PM), vc.mod(PLD)
    P = vp.PrivacyLossDistribution
    disc = vc.data('disc', lambda r: r.choice([1.0, 0.5, 0.1]))
    pess = vc.data('pess', lambda r: r.random() < .7)
    def one(nm): return vc.data(nm, lambda r: dict(gen_pmf(r, small=True, disc=disc), pess=pess))
    r1, a1, r2, a2 = one('remove1'), one('add1'), one('remove2'), one('add2')
    s1, s2 = vc.choice('symmetric1', [True, False]), vc.choice('symmetric2', [True, False])
    if s1: a1 = r1
    if s2: a2 = r2
    how = vc.choice('built', ['pmfs', 'probabilities'])
    def mk(r, a, sym):
        if how == 'pmfs': return P(build(vc, r, 'sparse'), None if sym else build(vc, a, 'dense'))
        if sym: return P.create_from_rounded_probability(pdict(r), r['inf'], disc, pess)
        return P.create_from_rounded_probability(pdict(r), r['inf'], disc, pess, pdict(a), a['inf'], symmetric=False)
    x, y = mk(r1, a1, s1), mk(r2, a2, s2)
    n = vc.data('times', lambda r: r.choice([1, 2, 3, 5, 12]))
    eps = vc.data('epsilons', lambda r: [e for e in gen_eps(r, {'probs': r1['probs'] + a1['probs'] + r2['probs'] + a2['probs'], 'disc': disc}, 5)])
    delta = vc.data('delta', lambda r: r.choice([r.random(), 1e-5, .1, r1['inf'], a1['inf'], 0.0]))
    def agree(label, got, rem, add, tol=1e-11):
        (pr, ir), (pa, ia) = rem, add
        lr, la = {k * disc: v for k, v in pr.items()}, {k * disc: v for k, v in pa.items()}
        want = [max(hockey(lr, ir, e), hockey(la, ia, e)) for e in eps]
        for e, w in zip(eps, want): vc.prove(label + ': delta of the worse direction', vc.eq(got.get_delta_for_epsilon(e), w, atol=tol))
        for g, w in zip(got.get_delta_for_epsilon(eps), want): vc.prove(label + ': vector of deltas', vc.eq(g, w, atol=tol))
        # epsilon: both directions meet delta there, and not before
        e = got.get_epsilon_for_delta(delta)
        worst = lambda t: max(hockey(lr, ir, t), hockey(la, ia, t))
        if math.isinf(e): vc.prove(label + ': infinite epsilon', max(ir, ia) >= delta - tol)
        else:
            vc.prove(label + ': delta at epsilon', worst(e) <= delta + 2 * tol)
            if e > 0: vc.prove(label + ': no smaller epsilon', worst(max(0.0, e - 1e-6 * (1 + e))) >= delta - 2 * tol)
    I = lambda a, b: 1 - (1 - a['inf']) * (1 - b['inf'])
    base = ((pdict(r1), r1['inf']), (pdict(a1), a1['inf']))
    agree('distribution', x, *base)
    agree('composition', x.compose(y, 0), (convolve(pdict(r1), pdict(r2)), I(r1, r2)), (convolve(pdict(a1), pdict(a2)), I(a1, a2)))
    pw = lambda d: (conv_power(pdict(d), n), 1.0 if d['inf'] >= 1 else -math.expm1(n * math.log1p(-d['inf'])))
    if max(abs(k) for k, _ in r1['probs'] + a1['probs']) * n < 600: agree('self-composition', x.self_compose(n), pw(r1), pw(a1))
    for e in eps:
        if math.isfinite(e):
            vc.prove('delta of the composition without composing', vc.eq(x.get_delta_for_epsilon_for_composed_pld(y, e), x.compose(y, 0).get_delta_for_epsilon(e), atol=1e-10))
    if pess:
        agree('identity after', x.compose(vp.identity(disc)), *base)
        agree('identity before', vp.identity(disc).compose(x), *base)
        z = vp.identity(disc)
        vc.prove('identity', z.get_epsilon_for_delta(0.0) == 0 and z.get_delta_for_epsilon(0.0) == 0)
        z = z.self_compose(3)
        vc.prove('identity composed', z.get_epsilon_for_delta(1e-14) == 0)
        agree('class method identity', P.identity(disc).compose(x), *base)
    if how == 'probabilities':
        vc.raises('symmetric with details', ValueError, P.create_from_rounded_probability, pdict(r1), r1['inf'], disc, pess, pdict(a1), a1['inf'])
        vc.raises('asymmetric without details', ValueError, P.create_from_rounded_probability, pdict(r1), r1['inf'], disc, pess, symmetric=False)
