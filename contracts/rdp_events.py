"""P06: the RDP of every event is its documented formula."""
import math
from pyvc.vc import harness
from contracts._acc import *


def Rel(vc, name): return getattr(vc.mod(PA).NeighboringRelation, name)


def rdp_of(vc, event, rel, lo=1):
    """(n, orders, rdp) of a fresh accountant after composing the event"""
    m = vc.mod(RDP)
    n = vc.int('n', ge=1, le=None if vc.sym else 4)
    orders = vc.array('orders', n, ge=lo, inf=True)
    acc = m.RdpAccountant(orders, rel)
    acc.compose(event)
    return n, orders, acc.rdp


def positive(vc, name): return vc.real(name, gt=0, gen=lambda r: r.choice([1.0, 10 ** r.uniform(-3, 3), 10 ** r.uniform(-8, 8)]))


@harness('P06', ['RdpAccountant.compose', '_compute_rdp_poisson_subsampled_gaussian'])
def gaussian_rdp(vc):
    E = vc.mod(EV)
    sigma = positive(vc, 'sigma')
    n, orders, rdp = rdp_of(vc, E.GaussianDpEvent(sigma), relation(vc))
    vc.forall('order / (2 sigma^2)', 0, n, lambda j: vc.eq(vc.at(rdp, j), vc.at(orders, j) / (2 * sigma * sigma)))


@harness('P06', ['RdpAccountant.compose'])
def no_noise_is_no_privacy(vc):
    E = vc.mod(EV)
    c = vc.choice('event', ['gaussian', 'laplace', 'poisson', 'without replacement', 'tree', 'randomized response', 'randomized response one'])
    rel = {'without replacement': 'REPLACE_ONE', 'tree': 'REPLACE_SPECIAL', 'randomized response': 'REPLACE_SPECIAL', 'randomized response one': 'REPLACE_ONE'}.get(c, 'ADD_OR_REMOVE_ONE')
    lo = 1
    if c == 'gaussian': ev = E.GaussianDpEvent(0)
    elif c == 'laplace': ev = E.LaplaceDpEvent(0.0)
    elif c == 'poisson': ev = E.PoissonSampledDpEvent(vc.real('q', gt=0, le=1), E.ComposedDpEvent([E.GaussianDpEvent(1.5), E.GaussianDpEvent(0.0)]))
    elif c == 'without replacement':
        size = vc.int('size', ge=1)
        s = vc.int('sample', ge=1, gen=None if vc.sym else lambda r: r.randint(1, size))
        vc.assume(s <= size)
        ev = E.SampledWithoutReplacementDpEvent(size, s, E.GaussianDpEvent(0.0))
    elif c == 'tree': ev = E.SingleEpochTreeAggregationDpEvent(0.0, vc.int('steps', ge=1))
    else:
        ev, lo = E.RandomizedResponseDpEvent(0.0, vc.int('buckets', ge=2)), 1.01
    n, orders, rdp = rdp_of(vc, ev, Rel(vc, rel), lo)
    vc.forall('infinite', 0, n, lambda j: vc.eq(vc.at(rdp, j), INF))


@harness('P06', ['RdpAccountant.compose', '_laplace_rdp'])
def laplace_rdp(vc):
    E = vc.mod(EV)
    b = vc.real('b', gt=0, gen=lambda r: 10 ** r.uniform(-2, 3))
    m = vc.mod(RDP)
    n = vc.int('n', ge=1, le=None if vc.sym else 4)
    shape = vc.choice('kind of orders', ['one', 'infinite', 'other'])
    orders = vc.array('orders', n, **({'ge': 1, 'le': 1, 'gen': lambda r, i: 1.0} if shape == 'one' else {'ge': 1.1, 'le': None if vc.sym else 1e4}))
    if shape == 'infinite': orders = orders + INF
    acc = m.RdpAccountant(orders, relation(vc))
    acc.compose(E.LaplaceDpEvent(b))
    rdp = acc.rdp
    def ok(j):
        a, r = vc.at(orders, j), vc.at(rdp, j)
        e = 1 / b
        if shape == 'one': return vc.eq(r, e + vc.exp(-e) - 1, rtol=1e-8, atol=1e-12)
        if shape == 'infinite': return vc.eq(r, e)
        if not vc.sym:
            import mpmath as mp
            with mp.workdps(60):
                a, e = mp.mpf(a), 1 / mp.mpf(b)
                return vc.eq(r, float(mp.log(a / (2 * a - 1) * mp.exp(e * (a - 1)) + (a - 1) / (2 * a - 1) * mp.exp(-e * a)) / (a - 1)), rtol=1e-8, atol=1e-12)
        # Proposition 6 of Mironov (2017)
        y = vc.named(a / (2 * a - 1) * vc.exp(e * (a - 1)) + (a - 1) / (2 * a - 1) * vc.exp(-e * a))
        x = vc.named(1 + (a - 1) * (vc.exp(e * (1 - 2 * a)) - 1) / (2 * a - 1))
        vc.lemma('the sum is positive', y > 0)
        vc.lemma('common factor', vc.eq(y, x * vc.exp(e * (a - 1))))
        vc.lemma('the rest is positive', x > 0)
        vc.lemma('logarithm of the product', vc.eq(vc.log(x * vc.exp(e * (a - 1))), vc.log(x) + e * (a - 1)))
        return vc.eq(r, vc.log(y) / (a - 1))
    vc.forall('the Renyi divergence of shifted Laplace distributions', 0, n, ok)


@harness('P06', ['RdpAccountant.compose', '_compute_randomized_response_rdp'])
def randomized_response_rdp(vc):
    E = vc.mod(EV)
    one = vc.bool('replace one')
    p = vc.real('p', gt=0, lt=1, gen=lambda r: r.choice([r.random(), 10 ** r.uniform(-12, 0) * .99, 1 - 10 ** r.uniform(-9, -.01)]))
    k = vc.int('k', ge=2, gen=lambda r: r.choice([2, 2, 3, r.randint(2, 50), 10 ** r.randint(1, 8)]))
    m = vc.mod(RDP)
    n = vc.int('n', ge=1, le=None if vc.sym else 4)
    infinite = vc.bool('infinite order')
    orders = vc.array('orders', n, ge=1.01, le=None if vc.sym else 500)
    if infinite: orders = orders + INF
    if vc.sym:
        def logsumexp(a, b):
            t = 0
            for x, y in zip(list(a), list(b)): t = t + y * vc.exp(x)
            return vc.log(t)
        vc.model('special.logsumexp', logsumexp)
    acc = m.RdpAccountant(orders, Rel(vc, 'REPLACE_ONE' if one else 'REPLACE_SPECIAL'))
    acc.compose(E.RandomizedResponseDpEvent(p, k))
    rdp = acc.rdp
    hi, lo = 1 - p + p / k, p / k
    def div(a, P, Q, W, ratios, left=True):
        """Renyi divergence; P, Q: probabilities per group of buckets, W: number of buckets per group, ratios: P / Q"""
        if infinite: return vc.max(*[vc.log(x / y) for x, y in zip(P, Q)])
        if not vc.sym:
            import mpmath as mp
            with mp.workdps(60):
                a, x = mp.mpf(a), mp.mpf(p)
                v = {0: 1 - x + x / k, 1: x / k, 2: mp.mpf(1) / k}
                return float(mp.log(sum(w * v[s] ** a * v[t] ** (1 - a) for s, t, w in zip(*[[{hi: 0, lo: 1}.get(y, 2) for y in Z] for Z in (P, Q)], W))) / (a - 1))
        # sum of y (x/y)^a = x (x/y)^(a-1)
        t = 0
        for x, y, w, q in zip(P, Q, W, ratios):
            vc.lemma('ratio', vc.and_(vc.eq(x, q * y), q > 0))
            t = t + w * (y * vc.exp(a * vc.log(q)) if left else x * vc.exp((a - 1) * vc.log(q)))
        return vc.log(t) / (a - 1)
    def ok(j):
        a, r = vc.at(orders, j), vc.at(rdp, j)
        # the divergence of two nearly equal distributions is only known to about the unit roundoff
        tol = dict(rtol=1e-7, atol=2e-14 * (1 + (0 if infinite or vc.sym else 1 / (a - 1))))
        if one: return vc.eq(r, div(a, [hi, lo, lo], [lo, hi, lo], [1, 1, k - 2], [k / p - k + 1, 1 / (k / p - k + 1), 1]), **tol)
        x2 = vc.named(k * (1 - p) + p)
        if not infinite and vc.sym:
            vc.lemma('logarithm', vc.eq(vc.log(x2), vc.log(k * (1 - p) + p)))
            vc.lemma('logarithm of the inverse', vc.eq(vc.log(1 / x2), -vc.log(x2)))
            vc.lemma('power', vc.eq(vc.exp((a - 1) * vc.log(1 / x2)), vc.exp((1 - a) * vc.log(x2))))
        d1 = div(a, [hi, lo], [1 / k, 1 / k], [1, k - 1], [x2, p])
        d2 = div(a, [1 / k, 1 / k], [hi, lo], [1, k - 1], [1 / x2, 1 / p], left=False)
        if not infinite and vc.sym:
            # the documented form of the two divergences
            F = [vc.log(1 / k * vc.exp(x * vc.log(k * (1 - p) + p)) + (1 - 1 / k) * vc.exp(x * vc.log(p))) / (a - 1) for x in (a, 1 - a)]
            vc.lemma('documented form of the first divergence', vc.eq(d1, F[0]))
            vc.lemma('documented form of the second divergence', vc.eq(d2, F[1]))
            d1, d2 = F
        return vc.eq(r, vc.max(d1, d2), **tol)
    vc.forall('the Renyi divergence of the two responses', 0, n, ok)


@harness('P06', ['RdpAccountant.compose', '_compute_rdp_single_epoch_tree_aggregation'])
def tree_aggregation_rdp(vc):
    E = vc.mod(EV)
    sigma = positive(vc, 'sigma')
    many = vc.bool('several trees')
    if many:
        c = vc.int('trees', ge=1, le=None if vc.sym else 5)
        steps = vc.array('steps', c, kind='list', ints=True, ge=0)
    else: steps = vc.int('steps', ge=1, gen=lambda r: r.choice([r.randint(1, 40), 2 ** r.randint(1, 40) + r.choice([-1, 0, 1])]))
    if vc.sym:
        # the depth of the deepest tree: the least d with max(steps) + 1 <= 2^d
        d, ln2 = vc.int('depth', ge=0), vc.log(2)
        most = steps
        if many:
            w = vc.int('deepest', ge=0)
            vc.assume(w < c)
            vc.hint(w)
            most = vc.at(steps, w)
            vc.assume_forall(0, c, lambda j: vc.at(steps, j) <= most)
        vc.assume(vc.and_(vc.log(most + 1) <= d * ln2, vc.log(most + 1) > (d - 1) * ln2))
        vc.lemma('logarithm to base 2', vc.and_(vc.log(most + 1) / ln2 <= d, vc.log(most + 1) / ln2 > d - 1))
        vc.lemma('rounded up', vc.eq(vc.mod(RDP).math.ceil(vc.log(most + 1) / ln2), d))
    else: d = (max(steps) if many else steps).bit_length()
    n, orders, rdp = rdp_of(vc, E.SingleEpochTreeAggregationDpEvent(sigma, steps), Rel(vc, 'REPLACE_SPECIAL'))
    vc.forall('order * depth / (2 sigma^2)', 0, n, lambda j: vc.eq(vc.at(rdp, j), vc.ite(d > 0, vc.at(orders, j) * d / (2 * sigma * sigma), 0)))


# ------------------------------------------------------------------ sampled Gaussian mechanism
@harness('P06', ['RdpAccountant.compose', '_effective_gaussian_noise_multiplier'])
def composed_gaussians_are_one(vc):
    E = vc.mod(EV)
    shape = vc.choice('shape', ['composed', 'self-composed', 'nested', 'without replacement'])
    c = vc.int('c', ge=1, le=None if vc.sym else 6)
    sig = vc.array('sigmas', c, kind='list', gt=0, le=None if vc.sym else 50, gen=None if vc.sym else lambda r, i: r.choice([r.uniform(.1, 9), r.randint(1, 9)]))
    k = vc.int('k', ge=1, gen=lambda r: r.choice([1, 2, 3, r.randint(1, 1000)]))
    if vc.sym:
        from pyvc.seq import Seq
        events = Seq(c, lambda t: E.GaussianDpEvent(sig.elem(t)), 'list')
    else: events = [E.GaussianDpEvent(s) for s in sig]
    total = vc.Sum(0, c, lambda j: 1 / (vc.at(sig, j) * vc.at(sig, j)))
    ev = E.ComposedDpEvent(events)
    if shape == 'self-composed': ev, total = E.SelfComposedDpEvent(ev, k), k * total
    if shape == 'nested':
        s = vc.real('sigma', gt=0, le=None if vc.sym else 30)
        ev, total = E.ComposedDpEvent([E.SelfComposedDpEvent(E.GaussianDpEvent(s), k), ev]), total + k / (s * s)
    # with every record sampled, only the composition is left
    if shape == 'without replacement': n, orders, rdp = rdp_of(vc, E.SampledWithoutReplacementDpEvent(k, k, ev), Rel(vc, 'REPLACE_ONE'))
    else: n, orders, rdp = rdp_of(vc, E.PoissonSampledDpEvent(1, ev), Rel(vc, 'ADD_OR_REMOVE_ONE'))
    if vc.sym: vc.lemma('positive', total > 0)
    vc.forall('order / 2 times the sum of sigma^-2', 0, n, lambda j: vc.or_(vc.and_(vc.isinf(vc.at(orders, j)), vc.isinf(vc.at(rdp, j))), vc.eq(vc.at(rdp, j), vc.at(orders, j) / 2 * total)))


def log_add_model(vc):
    """the contract of _log_add: exp of the result is the sum of the exponentials"""
    def f(x, y):
        from pyvc import sym, loops
        import z3
        x, y = sym.lift(x), sym.lift(y)
        s = loops.exp_of(x) + loops.exp_of(y)
        return sym.Num(sym.L(s), False, sym.b_and(x.ninf, y.ninf), False, True)
    return f


@harness('P06', ['_log_add'], internal=True)
def log_add_contract(vc):
    m = vc.mod(RDP)
    x, y = vc.real('x', inf=False), vc.real('y')
    e = vc.choice('infinite', ['none', 'first', 'second', 'both'])
    if e in ('first', 'both'): x = x - INF
    if e in ('second', 'both'): y = y - INF
    r = m._log_add(x, y)
    if e == 'both': vc.prove('zero plus zero', vc.eq(r, -INF))
    else: vc.prove('exp(result) = exp(x) + exp(y)', vc.and_(vc.finite(r), vc.eq(vc.exp(r), vc.exp(x) + vc.exp(y))))


def gammaln(vc):
    import z3
    from pyvc import sym
    f = z3.Function('gammaln', z3.RealSort(), z3.RealSort())
    return lambda x: sym.Num(f(sym.toreal(sym.lift(x).z)), npy=True)


@harness('P06', ['RdpAccountant.compose', '_compute_log_a_int', '_log_comb'])
def poisson_sampled_gaussian_at_integer_orders(vc):
    E, m = vc.mod(EV), vc.mod(RDP)
    q = vc.real('q', gt=0, lt=1, gen=lambda r: r.choice([r.random(), 10 ** r.uniform(-6, -1)]))
    sigma = vc.real('sigma', gt=0, gen=lambda r: r.choice([r.uniform(.3, 5), 10 ** r.uniform(-1, 2)]))
    a = vc.int('order', ge=2, gen=lambda r: r.choice([2, 3, r.randint(2, 40), r.randint(2, 300)]))
    if vc.sym:
        vc.stub(m, '_log_add', log_add_model(vc))
        gl = gammaln(vc)
        vc.hint(0)
        vc.model('special.gammaln', gl)
    acc = m.RdpAccountant([a, 2.5], Rel(vc, 'ADD_OR_REMOVE_ONE' if not vc.bool('special') else 'REPLACE_SPECIAL')) if not vc.sym else m.RdpAccountant(vc.array('orders', 1, ints=True, ge=2), Rel(vc, 'ADD_OR_REMOVE_ONE'))
    acc.compose(E.PoissonSampledDpEvent(q, E.GaussianDpEvent(sigma)))
    r = vc.at(acc.rdp, 0)
    if vc.sym:
        a = vc.at(acc.orders, 0)
        t = vc.Sum(0, a + 1, lambda i: vc.exp(gl(a + 1) - gl(i + 1) - gl(a - i + 1) + i * vc.log(q) + (a - i) * vc.log(1 - q) + (i * i - i) / (2 * sigma * sigma)))
        vc.prove('log of the binomial sum', vc.eq((a - 1) * r, vc.log(t)))
        return
    import mpmath as mp
    with mp.workdps(40):
        s = mp.mpf(sigma)
        t = mp.fsum(mp.binomial(a, i) * mp.mpf(q) ** i * (1 - mp.mpf(q)) ** (a - i) * mp.exp((i * i - i) / (2 * s * s)) for i in range(a + 1))
        want = float(mp.log(t) / (a - 1))
    vc.prove('log of the binomial sum', vc.eq(r, want, rtol=1e-9, atol=1e-11 / (a - 1)))


@harness('P06', ['_compute_log_a_frac', '_log_erfc', 'RdpAccountant.compose'], kind='bounded', runs=300, budget=25, bound='random sampling rates, noise multipliers in [0.4, 8], fractional orders up to 60; reference: numerical integration with 30 digits')
def poisson_sampled_gaussian_at_fractional_orders(vc):
    import mpmath as mp
    E, m = vc.mod(EV), vc.mod(RDP)
    q = vc.data('q', lambda r: r.choice([r.random(), 10 ** r.uniform(-6, -1), 1 - 10 ** r.uniform(-6, -1)]))
    s = vc.data('sigma', lambda r: r.choice([r.uniform(.4, 4), r.uniform(.4, 8)]))
    a = vc.data('order', lambda r: r.choice([r.uniform(1.05, 3), r.uniform(2, 20), r.uniform(2, 60), r.randint(1, 9) + .5]))
    vc.assume(a != int(a))
    acc = m.RdpAccountant([a])
    acc.compose(E.PoissonSampledDpEvent(q, E.GaussianDpEvent(s)))
    got = float(acc.rdp[0])
    with mp.workdps(30):
        q, s, b = mp.mpf(q), mp.mpf(s), mp.mpf(a)
        z0 = s * s * mp.log(1 / q - 1) + mp.mpf(.5)
        f = lambda z: mp.npdf(z, 0, s) * ((1 - q) + q * mp.exp((2 * z - 1) / (2 * s * s))) ** b
        w = float(mp.log(mp.quad(f, sorted({-40 * s, -8 * s, mp.mpf(0), z0, b, b + 8 * s, b + 40 * s, (z0 + b) / 2}))) / (b - 1))
        # section 3.3 of 1908.10530 with the absolute values of its terms
        t, last, n = mp.mpf(0), None, 0
        while n < 1100:
            j = b - n
            c = abs(mp.binomial(b, n))
            x0 = q ** n * (1 - q) ** j * mp.exp((n * n - n) / (2 * s * s)) * mp.erfc((n - z0) / (mp.sqrt(2) * s)) / 2
            x1 = q ** j * (1 - q) ** n * mp.exp((j * j - j) / (2 * s * s)) * mp.erfc((z0 - j) / (mp.sqrt(2) * s)) / 2
            x = c * (x0 + x1)
            t += x
            if n > b and last is not None and x < last and x < t * mp.mpf(10) ** -14: break
            last = x
            n += 1
        up = float(mp.log(t) / (b - 1)) if n < 1000 else INF
    tol = 1e-13 / (a - 1)
    vc.prove('never below the Renyi divergence', got >= w - tol - 1e-9 * abs(w))
    if n < 900: vc.prove('at most the documented series', got <= up * (1 + 1e-8) + 3e-13 / (a - 1))


@harness('P06', ['_compute_rdp_sample_wor_gaussian_int', '_compute_rdp_sample_wor_gaussian_scalar', '_get_forward_diffs', '_stable_inplace_diff_in_log', 'RdpAccountant.compose'], kind='bounded', runs=300, budget=25, bound='random sampling ratios, noise multipliers in [0.2, 1e10], orders up to 300; reference: Theorem 27 of 1808.00087 with 120 digits')
def sampling_without_replacement(vc):
    import mpmath as mp
    E, m = vc.mod(EV), vc.mod(RDP)
    size = vc.data('size', lambda r: r.choice([r.randint(2, 20), r.randint(2, 10 ** 6)]))
    sample = vc.data('sample', lambda r: r.choice([1, r.randint(1, size - 1), max(1, size // 100)]))
    s = vc.data('sigma', lambda r: r.choice([r.uniform(.2, 4), r.uniform(.5, 30), 10 ** r.uniform(0, 10)]))
    a = vc.data('order', lambda r: r.choice([2, 3, 4, r.randint(2, 12), r.randint(2, 40), r.uniform(1.02, 3), r.uniform(2, 20), r.choice([256, 257, 300, 256.5]) if r.random() < .3 else 5]))
    acc = m.RdpAccountant([a], Rel(vc, 'REPLACE_ONE'))
    acc.compose(E.SampledWithoutReplacementDpEvent(size, sample, E.GaussianDpEvent(s)))
    got = float(acc.rdp[0])
    q = mp.mpf(sample) / size
    def bound(al):
        """log of the moment bound at an integer order; the lower and the upper end allow for rounding in the differences"""
        if al == 1: return mp.mpf(0), mp.mpf(0)
        v = 1 / (mp.mpf(s) ** 2)
        K = [k * (k - 1) * v / 2 for k in range(al + 3)]
        f = [mp.exp(x) for x in K]
        lo, hi = mp.mpf(1), mp.mpf(1)
        if al <= 256 and al > 2:
            rows, d = list(f), {}
            for l in range(1, al + 2):
                rows = [y - x for x, y in zip(rows, rows[1:])]
                if l <= al + 1: d[l] = abs(rows[0])
            err = {l: mp.fsum(mp.binomial(l, i) * f[i] for i in range(l + 1)) * mp.mpf(10) ** -14 for l in d}
        for i in range(2, al + 1):
            c = mp.binomial(al, i) * q ** i
            if i == 2: x = y = min(4 * mp.expm1(v), 2 * mp.exp(v))
            else:
                y = x = 2 * mp.exp(K[i])
                if al <= 256:
                    h, g = 2 * (i // 2), 2 * ((i + 1) // 2)
                    x = min(x, 4 * mp.sqrt(max(d[h] - err[h], 0) * max(d[g] - err[g], 0)))
                    y = min(y, 4 * mp.sqrt((d[h] + err[h]) * (d[g] + err[g])))
            lo += c * x
            hi += c * y
        return mp.log(lo), mp.log(hi)
    with mp.workdps(120):
        fl, ce = math.floor(a), math.ceil(a)
        (l0, h0), (l1, h1) = bound(fl), bound(ce)
        t = mp.mpf(a) - fl
        lo, hi = [float(((1 - t) * x + t * y) / (mp.mpf(a) - 1)) for x, y in ((l0, l1), (h0, h1))]
    vc.prove('not below the bound of the theorem', got >= lo * (1 - 1e-8))
    vc.prove('not above the bound of the theorem', got <= hi * (1 + 1e-8))


@harness('P06', ['RdpAccountant.compose'], kind='bounded', runs=400, budget=8, bound='random parameters')
def rdp_edge_cases(vc):
    """order 1, rates 0 and 1, infinite noise, invalid parameters"""
    E, m = vc.mod(EV), vc.mod(RDP)
    c = vc.data('case', lambda r: r.choice(['order one', 'order one wor', 'rate 0', 'rate 1', 'infinite noise', 'infinite noise wor', 'invalid', 'laplace near 1']))
    s = vc.data('sigma', lambda r: r.choice([r.uniform(.3, 5), r.randint(1, 5)]))
    q = vc.data('q', lambda r: r.choice([.5, r.uniform(.001, .999), 10 ** r.uniform(-5, -1)]))
    orders = vc.data('orders', lambda r: sorted(r.sample([1.5, 2, 3, 4.25, 8, 20, 33], 3)))
    def rdp(ev, os=None, rel='ADD_OR_REMOVE_ONE'):
        acc = m.RdpAccountant(os or orders, Rel(vc, rel))
        acc.compose(ev)
        return [float(x) for x in acc.rdp]
    G = E.GaussianDpEvent(s)
    if c == 'order one':
        r = rdp(E.PoissonSampledDpEvent(q, G), [1, 2])
        import mpmath as mp
        with mp.workdps(30):
            Q, S = mp.mpf(q), mp.mpf(s)
            # the larger of the two Kullback-Leibler divergences
            g = lambda z: mp.log1p(Q * mp.expm1((2 * z - 1) / (2 * S * S)))
            pts = [-30 * S, -6 * S, 0, 1, 6 * S + 1, 30 * S + 1]
            kl = max(mp.quad(lambda z: ((1 - Q) * mp.npdf(z, 0, S) + Q * mp.npdf(z, 1, S)) * g(z), pts), mp.quad(lambda z: -mp.npdf(z, 0, S) * g(z), pts))
        vc.prove('at least the Kullback-Leibler divergence, at most RDP of a larger order', float(kl) * (1 - 1e-9) <= r[0] <= r[1] * (1 + 1e-12))
    elif c == 'order one wor':
        r = rdp(E.SampledWithoutReplacementDpEvent(100, 1 + int(q * 98), G), [1, 2], 'REPLACE_ONE')
        vc.prove('positive, at most RDP of a larger order', 0 < r[0] <= r[1] * (1 + 1e-12))
    elif c == 'rate 0':
        vc.prove('nothing is released', rdp(E.PoissonSampledDpEvent(0, G)) == [0, 0, 0])
        vc.prove('nothing is released without replacement', rdp(E.SampledWithoutReplacementDpEvent(10, 0, G), None, 'REPLACE_ONE') == [0, 0, 0])
    elif c == 'rate 1': vc.prove('the Gaussian mechanism itself', all(abs(x - o / (2 * s * s)) <= 1e-12 * x for o, x in zip(orders, rdp(E.PoissonSampledDpEvent(1, G)))))
    elif c == 'infinite noise': vc.prove('nothing is released', rdp(E.PoissonSampledDpEvent(q, E.ComposedDpEvent([]))) == [0, 0, 0] and rdp(E.PoissonSampledDpEvent(q, E.GaussianDpEvent(INF))) == [0, 0, 0])
    elif c == 'infinite noise wor': vc.prove('nothing is released', rdp(E.SampledWithoutReplacementDpEvent(100, 1 + int(q * 98), E.ComposedDpEvent([])), None, 'REPLACE_ONE') == [0, 0, 0])
    elif c == 'laplace near 1':
        import mpmath as mp
        a = 1 + q * .2
        b = 1 / vc.data('laplace', lambda r: 10 ** r.uniform(-3, 2.5))
        with mp.workdps(60):
            e, x = 1 / mp.mpf(b), mp.mpf(a)
            w = float(mp.log(x / (2 * x - 1) * mp.exp(e * (x - 1)) + (x - 1) / (2 * x - 1) * mp.exp(-e * x)) / (x - 1))
        vc.prove('the Renyi divergence of shifted Laplace distributions', vc.eq(rdp(E.LaplaceDpEvent(b), [a])[0], w, rtol=1e-7, atol=1e-13))
    else:
        for ev, rel in ((E.GaussianDpEvent(-s), 'ADD_OR_REMOVE_ONE'), (E.LaplaceDpEvent(-s), 'ADD_OR_REMOVE_ONE'), (E.PoissonSampledDpEvent(1 + q, G), 'ADD_OR_REMOVE_ONE'), (E.PoissonSampledDpEvent(-q, G), 'ADD_OR_REMOVE_ONE'), (E.PoissonSampledDpEvent(q, E.GaussianDpEvent(-s)), 'ADD_OR_REMOVE_ONE'),
                        (E.SampledWithoutReplacementDpEvent(10, 11, G), 'REPLACE_ONE'), (E.SampledWithoutReplacementDpEvent(10, 4, E.GaussianDpEvent(-s)), 'REPLACE_ONE'), (E.RandomizedResponseDpEvent(1 + q, 3), 'REPLACE_ONE'), (E.RandomizedResponseDpEvent(-q, 3), 'REPLACE_SPECIAL'), (E.RandomizedResponseDpEvent(q, 0), 'REPLACE_SPECIAL'),
                        (E.SingleEpochTreeAggregationDpEvent(-s, 4), 'REPLACE_SPECIAL'), (E.SingleEpochTreeAggregationDpEvent(s, [4, -1]), 'REPLACE_SPECIAL')):
            vc.raises(f'{type(ev).__name__} with invalid parameters raises', (ValueError, AssertionError), lambda: rdp(ev, None, rel))
