"""Shared pieces of the PLD contracts: generators and the hockey-stick oracle."""
import math

PM = 'dp_accounting.pld.pld_pmf'
CM = 'dp_accounting.pld.common'
PLD = 'dp_accounting.pld.privacy_loss_distribution'
INF = math.inf


def hockey(loss_probs, inf_mass, eps):
    """inf_mass + sum over losses above eps of (1 - exp(eps - loss)) prob. loss_probs: {loss: prob}"""
    if eps == -INF: return inf_mass + math.fsum(loss_probs.values())
    return math.fsum([inf_mass] + [-math.expm1(eps - l) * p for l, p in loss_probs.items() if l > eps])


def gen_probs(r, n, zeros=True):
    w = [r.choice([r.random(), r.random(), 10 ** r.uniform(-9, 0)] + ([0.0] if zeros else [])) for _ in range(n)]
    if not any(w): w[r.randrange(n)] = 1.0
    return w


def gen_pmf(r, small=False, zeros=True, disc=None):
    """{'disc', 'probs': {k: p}, 'inf', 'pess'}: an arbitrary discretised distribution"""
    n = r.choice([1, 1, 2, 3, 4, 6]) if small else r.choice([1, 2, 3, 4, 6, 9, 14, 30])
    disc = disc or r.choice([1.0, 0.5, 0.25, 0.1, 0.37, 1e-2, 1e-3])
    width = r.choice([n, n, 2 * n, 5 * n + 3])
    off = r.randint(-width, width // 2) if r.random() < .8 else r.randint(-3 * width, 3 * width)
    ks = sorted(r.sample(range(off, off + width), n))
    w = gen_probs(r, n, zeros)
    inf = r.choice([0.0, 0.0, 0.0, 1e-12, 1e-5, 0.0625, 0.25, 0.5, r.random(), 1.0 if r.random() < .3 else .9])
    s = math.fsum(w)
    if r.random() < .3:            # exactly representable
        w = [2.0 ** -r.randint(1, 6) * (x > 0) for x in w]
        while math.fsum(w) > 1 - inf: w = [x / 2 if inf < 1 else 0.0 for x in w]
    else: w = [x / s * (1 - inf) for x in w]
    order = list(zip(ks, w))
    r.shuffle(order)
    return {'disc': disc, 'probs': [[k, p] for k, p in order], 'inf': inf, 'pess': r.random() < .7}


def pdict(d): return {k: p for k, p in d['probs']}
def losses(d): return {k * d['disc']: p for k, p in d['probs']}


def build(vc, d, storage):
    import numpy as np
    m = vc.mod(PM)
    p = pdict(d)
    if storage == 'sparse': return m.SparsePLDPmf(dict(p), d['disc'], d['inf'], d['pess'])
    if storage == 'created': return m.create_pmf(dict(p), d['disc'], d['inf'], d['pess'])
    lo, hi = min(p), max(p)
    return m.DensePLDPmf(d['disc'], lo, np.array([float(p.get(k, 0.0)) for k in range(lo, hi + 1)]), d['inf'], d['pess'])


STORAGES = ['sparse', 'dense', 'created']


def gen_eps(r, d, n=None):
    ks = [k for k, _ in d['probs']]
    lo, hi, h = min(ks) * d['disc'], max(ks) * d['disc'], d['disc']
    n = n or r.randint(1, 7)
    return sorted(r.choice([r.uniform(lo - 1, hi + 1), r.uniform(lo, hi) if hi > lo else lo, r.choice(ks) * h, r.choice(ks) * h + h / 2, r.randint(-3, 5), 0.0, r.uniform(0, 3), lo - 2 * h, hi + h, INF if r.random() < .3 else 1.0, -INF if r.random() < .2 else 0.5]) for _ in range(n))


def convolve(p, q):
    out = {}
    for a, x in p.items():
        for b, y in q.items(): out.setdefault(a + b, []).append(x * y)
    return {k: math.fsum(v) for k, v in out.items()}


def conv_power(p, n):
    r = {0: 1.0}
    for _ in range(n): r = convolve(r, p)
    return r
