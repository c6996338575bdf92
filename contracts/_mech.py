"""Oracles for additive-noise and mixture mechanisms: output densities, losses, hockey-stick divergences."""
import math
from contracts._pmf import PM, CM, PLD, INF

ME = 'dp_accounting.pld.privacy_loss_mechanism'
FAMILIES = ['laplace', 'gaussian', 'discrete laplace', 'discrete gaussian', 'mixture']


def gen_mech(r, family=None, q=None):
    f = family or r.choice(FAMILIES)
    d = {'family': f, 'adj': r.choice(['ADD', 'REMOVE']), 'q': q or r.choice([1.0, 1.0, .5, .01, r.uniform(.001, 1), .999])}
    scale = r.choice([1.0, r.uniform(.3, 5), 10 ** r.uniform(-1, 1.5)])
    if f in ('laplace', 'gaussian'):
        d['sens'] = r.choice([1, 1.0, 2, r.uniform(.1, 4)])
        d['par'] = scale * d['sens'] if r.random() < .7 else max(scale, .3 * d['sens'])
    elif f == 'discrete laplace':
        d['sens'] = r.choice([1, 1, 2, 3, 5, 8])
        d['par'] = r.choice([1.0, .5, 2.0, r.uniform(.05, 3), 1 / d['sens']])
    elif f == 'discrete gaussian':
        d['sens'] = r.choice([1, 1, 2, 3, 5])
        d['par'] = max(scale, .3 * d['sens']) if r.random() < .8 else r.choice([1, 2, 3])
        d['trunc'] = r.choice([None, None, None, math.ceil(d['sens'] / 2) + r.randint(0, 6), r.randint(10, 40) + d['sens']])
    else:
        n = r.randint(1, 4)
        s = [r.choice([1.0, 2.0, r.uniform(.1, 4), 0.0]) for _ in range(n)]
        if max(s) == 0.0: s[r.randrange(n)] = 1.0
        w = [r.choice([r.random() + .01, 10 ** r.uniform(-3, 0)]) for _ in range(n)]
        if r.random() < .3: w[r.randrange(n)] = 0.0
        if not sum(x for x, y in zip(w, s) if y > 0): w[s.index(max(s))] = 1.0
        t = math.fsum(w)
        d.update(sens=s, probs=[x / t for x in w], par=max(scale, .4 * max(s)), q=1.0)
    return d


def make_mech(vc, d, **kw):
    m = vc.mod(ME)
    adj = getattr(m.AdjacencyType, d['adj'])
    f = d['family']
    if f == 'laplace': return m.LaplacePrivacyLoss(d['par'], sensitivity=d['sens'], sampling_prob=d['q'], adjacency_type=adj)
    if f == 'gaussian': return m.GaussianPrivacyLoss(d['par'], sensitivity=d['sens'], sampling_prob=d['q'], adjacency_type=adj, **kw)
    if f == 'discrete laplace': return m.DiscreteLaplacePrivacyLoss(d['par'], sensitivity=d['sens'], sampling_prob=d['q'], adjacency_type=adj)
    if f == 'discrete gaussian': return m.DiscreteGaussianPrivacyLoss(d['par'], sensitivity=d['sens'], truncation_bound=d['trunc'], sampling_prob=d['q'], adjacency_type=adj)
    return m.MixtureGaussianPrivacyLoss(d['par'], d['sens'], d['probs'], adjacency_type=adj, **kw)


class Oracle:
    """upper and lower output distributions of a mechanism, as weighted shifts of the noise, in mpmath"""
    def __init__(self, d):
        from mpmath import mp, mpf
        self.d, self.f, self.mp = d, d['family'], mp
        self.discrete = self.f.startswith('discrete')
        if self.f == 'mixture': parts = [(mpf(p), mpf(s)) for p, s in zip(d['probs'], d['sens']) if p > 0]
        else: parts = [(mpf(d['q']), mpf(d['sens']))] + ([(1 - mpf(d['q']), mpf(0))] if d['q'] < 1 else [])
        one = [(mpf(1), mpf(0))]
        # ADD: upper is the noise, lower the noise shifted right;  REMOVE: upper is the noise shifted left, lower the noise
        if d['adj'] == 'ADD': self.up, self.lo = one, [(w, s) for w, s in parts]
        else: self.up, self.lo = [(w, -s) for w, s in parts], one
        self.maxs = max(s for _, s in parts)
        self.par = mpf(d['par'])
        if self.f == 'discrete gaussian':
            self.T = d['trunc'] if d['trunc'] is not None else math.ceil(11.6 * d['par'])
            w = [mp.exp(-mpf(i) ** 2 / (2 * self.par ** 2)) for i in range(-self.T, self.T + 1)]
            z = mp.fsum(w)
            self.pmf = [x / z for x in w]
            self.cum = [mpf(0)]
            for x in self.pmf: self.cum.append(self.cum[-1] + x)
    def log_noise(self, x):
        """log density up to a constant shared by all shifts"""
        p = self.par
        if self.f == 'laplace': return -abs(x) / p
        if self.f == 'discrete laplace': return -abs(x) * p
        if self.f == 'discrete gaussian' and abs(x) > self.T: return -self.mp.inf
        return -x ** 2 / (2 * p ** 2)
    def cdf1(self, x):
        mp, p = self.mp, self.par
        if x == -mp.inf: return mp.mpf(0)
        if x == mp.inf: return mp.mpf(1)
        if self.f == 'laplace': return mp.exp(x / p) / 2 if x < 0 else 1 - mp.exp(-x / p) / 2
        if self.f == 'discrete laplace':
            x = mp.floor(x); e = mp.exp(-p)
            return mp.exp(p * x) / (1 + e) if x < 0 else 1 - e * mp.exp(-p * x) / (1 + e)
        if self.f == 'discrete gaussian':
            i = int(mp.floor(x)) + self.T + 1
            return self.cum[min(max(i, 0), len(self.cum) - 1)]
        return mp.ncdf(x / p)
    def mix(self, parts, x): return self.mp.log(self.mp.fsum(w * self.mp.exp(self.log_noise(x - s)) for w, s in parts)) if any(self.log_noise(x - s) > -self.mp.inf for w, s in parts) else -self.mp.inf
    def loss(self, x):
        """log(upper/lower) at x, or None where both vanish"""
        x = self.mp.mpf(x)
        # factor out the largest term, so that far tails do not vanish
        def logsum(parts):
            t = [self.mp.log(w) + self.log_noise(x - s) for w, s in parts if self.log_noise(x - s) > -self.mp.inf]
            if not t: return -self.mp.inf
            m = max(t)
            return m + self.mp.log(self.mp.fsum(self.mp.exp(v - m) for v in t))
        u, l = logsum(self.up), logsum(self.lo)
        if u == l == -self.mp.inf: return None
        if l == -self.mp.inf: return self.mp.inf
        if u == -self.mp.inf: return -self.mp.inf
        return u - l
    def cdf(self, which, x):
        return self.mp.fsum(w * self.cdf1(x - s) for w, s in (self.up if which == 'up' else self.lo))
    def delta(self, eps):
        """hockey-stick divergence: the losses fall with the outcome, so it is the best threshold's"""
        mp = self.mp
        with mp.workdps(40):
            if eps == INF:
                if self.f != 'discrete gaussian': return 0.0
                return float(mp.fsum(self.at('up', x) for x in self.support() if self.at('lo', x) == 0))
            e = mp.mpf(eps)
            if self.f == 'discrete gaussian':
                return float(mp.fsum(max(mp.mpf(0), self.at('up', x) - mp.exp(e) * self.at('lo', x)) for x in self.support()))
            if self.discrete: ts = list(range(-int(self.maxs) - 2, int(self.maxs) + 3))
            elif self.f == 'laplace': ts = [-self.maxs, mp.mpf(0), self.maxs, self.cross(e, -self.maxs, self.maxs)]
            else:
                w = 60 * self.par + 3 * self.maxs
                while w < 1e7 * self.par and self.loss(-w) < e: w *= 4
                while w < 1e7 * self.par and self.loss(w) > e: w *= 4
                ts = [self.cross(e, -w, w)]
            ts = [-mp.inf, mp.inf] + ts
            return float(max(self.cdf('up', t) - mp.exp(e) * self.cdf('lo', t) for t in ts))
    def cross(self, e, a, b):
        for _ in range(110):
            m = (a + b) / 2
            if self.loss(m) >= e: a = m
            else: b = m
        return a
    def support(self): return range(-self.T - int(self.maxs), self.T + int(self.maxs) + 1)
    def at(self, which, x): return self.mp.fsum(w * self.pmf[int(x - s) + self.T] for w, s in (self.up if which == 'up' else self.lo) if abs(x - s) <= self.T)
    def scale(self): return float(self.par if self.f != 'discrete laplace' else 1 / self.par)


def gen_points(r, d):
    o = d['par'] if d['family'] != 'discrete laplace' else 1 / d['par']
    s = max(d['sens']) if d['family'] == 'mixture' else d['sens']
    if d['family'].startswith('discrete'):
        T = (d['trunc'] if d.get('trunc') is not None else math.ceil(11.6 * d['par'])) if d['family'] == 'discrete gaussian' else int(20 * o + 2 * s)
        return [r.choice([r.randint(-T, T), r.randint(-s - 1, s + 1), 0, s, -s]) for _ in range(5)]
    return [r.choice([r.uniform(-1, 1) * s, r.gauss(0, 1) * o, r.uniform(-8, 8) * o, 0.0, s, -s, s / 2, r.randint(-3, 3)]) for _ in range(5)]


def gen_epsilons(r, d, n=None):
    s = max(d['sens']) if d['family'] == 'mixture' else d['sens']
    top = s / d['par'] if d['family'] == 'laplace' else s * d['par'] if d['family'] == 'discrete laplace' else s / d['par'] * 3
    lq = math.log1p(-d['q']) if d['q'] < 1 else -1.0
    return [r.choice([0.0, r.uniform(-1, 1) * top, r.uniform(0, 1.2) * top, top, -top, lq, -lq, lq / 2, -lq / 2, r.uniform(-4, 4), float(r.randint(-3, 4)), top * 2, 10.0, 1e-3]) for _ in range(n or r.randint(1, 6))]
