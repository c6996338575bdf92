"""P07: repeat-and-select accounting."""
import math
from pyvc.vc import harness
from contracts._acc import *
from contracts._events import leaf_class
from contracts.rdp_accountant import state, leaf_losses

SEL = '_compute_rdp_repeat_and_select'


def shape_mean(vc):
    return vc.data('shape', lambda r: r.choice([INF, 1, 0, 1.0, r.uniform(0, 3), 10 ** r.uniform(-6, 2)])), vc.data('mean', lambda r: r.choice([1, 1.0, 2, r.uniform(1, 20), 10 ** r.uniform(0, 5)]))


@harness('P07', ['RdpAccountant._maybe_compose'], internal=True)
def repeat_and_select_is_isolated(vc):
    """the charge is a function of the single run's loss alone, added count times to the old state"""
    E = vc.mod(EV)
    Leaf = leaf_class(E)
    m, n, orders, acc, r0 = state(vc, relation(vc))
    ok = vc.bool('supported')
    L = leaf_losses(vc, m, Leaf, n, ok=lambda u: ok)
    u, k = vc.int('uid', ge=0), vc.int('count', ge=1)
    mean, shape = vc.real('mean', ge=1), vc.real('shape', ge=0, inf=True)
    charge = vc.array('charge', n, ge=0, inf=True)
    seen = []
    def sel(os, rdp, mu, sh):
        seen.append((os, rdp, mu, sh))
        return charge
    vc.patch(m, SEL, sel)
    res = acc._maybe_compose(E.RepeatAndSelectDpEvent(Leaf(u), mean, shape), k, True)
    if res is not None:
        vc.prove('only refused when the inner event is', vc.not_(ok))
        vc.forall('refused: the loss is unchanged', 0, n, lambda j: vc.eq(vc.at(acc._rdp, j), vc.at(r0, j)))
        return
    vc.prove('accepted when the inner event is', ok)
    vc.prove('one charge', len(seen) == 1)
    os, rdp, mu, sh = seen[0]
    vc.prove('for the repetition distribution of the event', vc.and_(vc.eq(mu, mean), vc.eq(sh, shape)))
    vc.forall('the charge is computed from a single run alone', 0, n, lambda j: vc.and_(vc.eq(vc.at(rdp, j), vc.at(L(u), j)), vc.eq(vc.at(os, j), vc.at(orders, j))))
    vc.forall('added count times', 0, n, lambda j: vc.eq(vc.at(acc._rdp, j), vc.at(r0, j) + k * vc.at(charge, j)))


@harness('P07', [SEL], internal=True)
def poisson_repetitions(vc):
    """Theorem 6 of Papernot & Steinke (2021)"""
    m = vc.mod(RDP)
    n = vc.int('n', ge=1, le=None if vc.sym else 5)
    orders = vc.array('orders', n, ge=1)
    rdp = vc.array('rdp', n, ge=0, inf=True)
    mean = vc.real('mean', ge=1)
    if vc.sym:
        import z3
        from pyvc import sym
        d = sym.uf('dp_delta', z3.RealSort(), z3.RealSort())
        from pyvc import discharge
        discharge.UF_AXIOMS['dp_delta'] = lambda a: [a >= 0, a <= 1]
        dh = lambda e: sym.Num(d(sym.toreal(sym.lift(e).z)))
    else: dh = lambda e: math.exp(-e)
    seen = []
    def cd(os, r, eps):
        seen.append((os, r))
        t = vc.int('any', ge=0, le=n - 1) if vc.sym else 0
        vc.prove('delta of the single run', vc.and_(vc.eq(vc.at(os, t), vc.at(orders, t)), vc.eq(vc.at(r, t), vc.at(rdp, t)), vc.eq(vc.length(os), n), vc.eq(vc.length(r), n)))
        return dh(eps), None
    vc.patch(m, 'compute_delta', cd)
    out = getattr(m, SEL)(orders, rdp, mean, INF)
    def ok(j):
        a, r = vc.at(orders, j), vc.at(rdp, j)
        if vc.case(a <= 1): return vc.eq(vc.at(out, j), INF)
        return vc.eq(vc.at(out, j), r + mean * dh(vc.log(1 + 1 / (a - 1))) + vc.log(mean) / (a - 1))
    vc.forall('the bound of the theorem', 0, n, ok)


@harness('P07', [SEL], internal=True)
def truncated_negative_binomial_repetitions(vc):
    """Theorem 2 of Papernot & Steinke (2021), with the constant optimised over the orders, closed under monotonicity"""
    m = vc.mod(RDP)
    n = vc.int('n', ge=1, le=None if vc.sym else 5)
    orders = vc.array('orders', n, ge=1)
    rdp = vc.array('rdp', n, ge=0, inf=True)
    mean, shape = vc.real('mean', ge=1), vc.real('shape', ge=0)
    g = vc.real('gamma', gt=0, le=1)
    asked = []
    def gamma(sh, mu, *a):
        asked.append((sh, mu))
        return g
    vc.patch(m, '_gamma_truncated_negative_binomial', gamma)
    O, R = (lambda j: vc.at(orders, j)), (lambda j: vc.at(rdp, j))
    def term(j): return vc.ite(vc.isinf(R(j)), INF, (1 - 1 / O(j)) * R(j) - vc.log(g) / O(j))
    if vc.sym:
        # the constant: (1 + shape) times the least term; closure: least bound of the orders from O(t) on
        import z3
        from pyvc import seq, sym
        w = z3.Function('closure_at', z3.IntSort(), z3.IntSort())
        best = vc.int('best order', ge=0)
        vc.assume(best < n)
        if vc.case(vc.isinf(R(best))):
            vc.assume_forall(0, n, lambda j: vc.isinf(R(j)))
            c = INF
        else:
            c = vc.named((1 + shape) * term(best))
            vc.assume_forall(0, n, lambda j: vc.or_(vc.isinf(R(j)), vc.le(term(best), term(j))))
        def B(j):
            r = R(j)
            r = sym.Num(r.z)      # finite where it is used
            return vc.ite(vc.and_(O(j) > 1, vc.not_(vc.isinf(R(j)))), r + vc.log(mean) / (O(j) - 1) + c, INF)
        W = lambda t: seq.mknum(w(seq.zint(t)))
        C = lambda t: B(W(t))
        # W(t): an order index with the least bound among those not below O(t); one exists, since t itself qualifies
        vc.assume_forall(0, n, lambda t: vc.and_(W(t) >= 0, W(t) < n, O(t) <= O(W(t))))
        from pyvc.sym import CTX
        def least(t):
            out = []
            for u in list(CTX.indices)[-10:] + list(CTX.active):
                for v in (u, w(u), w(w(u))):
                    v = seq.mknum(v)
                    out.append(vc.implies(vc.and_(v >= 0, v < n, O(t) <= O(v)), vc.le(C(t), B(v))))
            return vc.and_(*out) if out else True
        vc.assume_forall(0, n, least)
        def given(d, N):
            for name, v in d.items():
                if isinstance(v, seq.Seq) and v.kind == 'array' and vc.holds_at(0, n, lambda t: vc.eq(v.elem(seq.zint(t)), B(t))):
                    return {name: lambda i: vc.seq(n, lambda t: vc.ite(t < i, C(t), B(t)))}
        vc.loop_given(given)
        vc.hint(best)
    out = getattr(m, SEL)(orders, rdp, mean, shape)
    vc.prove('gamma of the requested distribution', vc.and_(len(asked) == 1, vc.eq(asked[0][0], shape), vc.eq(asked[0][1], mean)))
    if not vc.sym:
        c = (1 + shape) * min(term(j) for j in range(n))
        B = [R(j) + math.log(mean) / (O(j) - 1) + c if O(j) > 1 else INF for j in range(n)]
        C = lambda t: min(B[j] for j in range(n) if O(j) >= O(t))
    vc.forall('the least bound over the orders from this one on', 0, n, lambda t: vc.eq(vc.at(out, t), C(t)))


def tnb_mean(vc, g, s):
    """mean of the truncated negative binomial distribution (Definition 1)"""
    import mpmath as mp
    with mp.workdps(60):
        g, s = mp.mpf(g), mp.mpf(s)
        if g == 1: return 1.0
        return float((1 - 1 / g) / mp.log(g) if s == 0 else s * (1 / g - 1) / (1 - g ** s))


@harness('P07', ['_gamma_truncated_negative_binomial'], internal=True)
def gamma_search(vc):
    """the distribution found has at least the mean asked for"""
    m = vc.mod(RDP)
    shape, mean = vc.real('shape', ge=0, gen=lambda r: r.choice([0, 0.5, 2, 10 ** r.uniform(-3, 2)])), vc.real('mean', ge=1, gen=lambda r: r.choice([1, 10 ** r.uniform(0, 6)]))
    tol = vc.real('tol', gt=0, gen=lambda r: 10 ** r.uniform(-12, -2))
    if vc.sym:
        import z3
        from pyvc import sym, discharge
        M = sym.uf('tnb_mean', z3.RealSort(), z3.RealSort())
        mu = lambda g: sym.Num(M(sym.toreal(sym.lift(g).z)))
        vc.assume(shape != 1)
    else:
        if shape == 1: return
        mu = lambda g: tnb_mean(vc, g, shape)
    def tn(g, s):
        vc.prove('gamma in range, of the same shape', vc.and_(g > 0, g <= 1, vc.eq(s, shape)))
        return mu(g)
    vc.patch(m, '_truncated_negative_binomial_mean', tn)
    def inv(st):
        out = []
        for a in st:
            out += [(f'{a} > 0', lambda s, a=a: s[a] > 0), (f'{a} >= 0', lambda s, a=a: s[a] >= 0), (f'{a} <= 1', lambda s, a=a: s[a] <= 1),
                    (f'mean({a}) >= mean', lambda s, a=a: vc.or_(vc.eq(s[a], 0), mu(s[a]) >= mean))]
            for b in st:
                if a != b: out.append((f'{a} <= {b}', lambda s, a=a, b=b: s[a] <= s[b]))
        return out
    vc.invariants(inv)
    g = m._gamma_truncated_negative_binomial(shape, mean, tol)
    vc.prove('in range', vc.and_(g > 0, g <= 1))
    vc.prove('the mean is at least the requested one', mu(g) >= mean * (1 - (0 if vc.sym else 1e-12)))
    if not vc.sym: vc.prove('and not much larger', mean == 1 or mu(g) <= mean * (1 + 3 * tol) + 1e-9)


@harness('P07', ['_truncated_negative_binomial_mean'], internal=True)
def mean_of_truncated_negative_binomial(vc):
    m = vc.mod(RDP)
    g = vc.real('gamma', gt=0, lt=1, gen=lambda r: r.choice([r.random(), 1 - 10 ** r.uniform(-9, -1), 10 ** r.uniform(-9, 0) * .999]))
    shape = vc.choice('kind of shape', ['one', 'zero', 'other'])
    s = {'one': 1, 'zero': 0}.get(shape)
    if s is None: s = vc.real('shape', gt=0, gen=lambda r: 10 ** r.uniform(-4, 2))
    if vc.sym:
        # contracts of the two stable evaluations; their series are checked against an arbitrary-precision oracle
        vc.patch(m, '_expm1_over_x', lambda x: vc.ite(vc.eq(x, 0), 1, (vc.exp(x) - 1) / x))
        vc.patch(m, '_logx_over_xm1', lambda x: vc.ite(vc.eq(x, 1), 1, vc.log(x) / (x - 1)))
    r = m._truncated_negative_binomial_mean(g, s)
    if not vc.sym: return vc.prove('mean', vc.eq(r, tnb_mean(vc, g, s), rtol=1e-9))
    lg = vc.log(g)
    vc.lemma('logarithm is negative', lg < 0)
    if shape == 'zero': vc.prove('mean of the logarithmic distribution', vc.eq(r * lg, 1 - 1 / g))
    elif shape == 'one': vc.prove('mean of the geometric distribution', vc.eq(r * g, 1))
    else:
        p = vc.named(vc.exp(s * lg))
        vc.lemma('power below one', vc.and_(p < 1, p > 0))
        vc.prove('mean of the truncated negative binomial distribution', vc.eq(r * (1 - p), s * (1 / g - 1)))


def dp_delta(orders, rdp, eps):
    """least of the published conversion bounds"""
    import mpmath as mp
    best = mp.mpf(1)
    for a, r in zip(orders, rdp):
        if r == INF: continue
        best = min(best, mp.sqrt(-mp.expm1(-mp.mpf(r))))
        if 1.01 < a < INF: best = min(best, mp.exp((a - 1) * (mp.mpf(r) - eps + mp.log1p(-1 / mp.mpf(a)))) / a)
    return best


@harness('P07', ['RdpAccountant.compose', SEL], kind='bounded', runs=2500, budget=40, bound='random events, distributions of the number of runs, counts and histories')
def repeat_and_select_charge(vc):
    import mpmath as mp
    E, m = vc.mod(EV), vc.mod(RDP)
    orders = vc.data('orders', lambda r: r.choice([sorted(r.sample([1.05, 1.5, 2, 3, 4.5, 8, 16, 32, 64, 128, 1000], r.randint(1, 6))), [1, 1.5, 2, 7], [1 + 10 / x for x in range(1, 30, 4)] + [12, 20], [8, 2, 30, 4]]))
    inner = vc.data('inner', lambda r: r.choice(['gaussian', 'gaussian', 'laplace', 'composed', 'poisson', 'noop', 'non private', 'no noise', 'nested']))
    s = vc.data('sigma', lambda r: r.choice([.5, 1, 3, 10 ** r.uniform(-.5, 2), 10 ** r.uniform(0, 4)]))
    shape, mean = shape_mean(vc)
    k = vc.data('count', lambda r: r.choice([1, 1, 2, 5]))
    G = E.GaussianDpEvent(s)
    e = {'gaussian': lambda: G, 'laplace': lambda: E.LaplaceDpEvent(s), 'composed': lambda: E.ComposedDpEvent([G, E.SelfComposedDpEvent(E.LaplaceDpEvent(2.0), 3)]), 'poisson': lambda: E.PoissonSampledDpEvent(.1, G),
         'noop': E.NoOpDpEvent, 'non private': E.NonPrivateDpEvent, 'no noise': lambda: E.ComposedDpEvent([G, E.GaussianDpEvent(0)]), 'nested': lambda: E.RepeatAndSelectDpEvent(G, 2, 1)}[inner]()
    if inner == 'poisson': orders = [a for a in orders if a == int(a) and a > 1] or [4]
    one = m.RdpAccountant(orders)
    one.compose(e)
    R = [float(x) for x in one.rdp]
    before = vc.data('before', lambda r: r.choice([None, 0.7, 3.0]))
    after = vc.data('after', lambda r: r.choice([None, 5.0]))
    acc = m.RdpAccountant(orders)
    if before: acc.compose(E.GaussianDpEvent(before), 2)
    acc.compose(E.RepeatAndSelectDpEvent(e, mean, shape), k)
    if after: acc.compose(E.GaussianDpEvent(after))
    got = [float(x) for x in acc.rdp]
    rest = [(2 * a / (2 * before ** 2) if before else 0) + (a / (2 * after ** 2) if after else 0) for a in orders]
    alone = m.RdpAccountant(orders)
    alone.compose(E.RepeatAndSelectDpEvent(e, mean, shape))
    single = [float(x) for x in alone.rdp]
    for a, g, x, y in zip(orders, got, rest, single):
        vc.prove('added count times to the rest of the history', vc.eq(g, x + k * y, rtol=1e-9))
    for a, r, y in zip(orders, R, single):
        vc.prove('never NaN', not math.isnan(y))
        vc.prove('at least a single run', y >= r * (1 - 1e-9))
        if inner in ('non private', 'no noise'): vc.prove('a non-private run has infinite cost', y == INF)
    with mp.workdps(40):
        M = mp.mpf(mean)
        if shape == INF: B = [r + M * dp_delta(orders, R, mp.log1p(1 / (mp.mpf(a) - 1))) + mp.log(M) / (a - 1) if a > 1 and r < INF else INF for a, r in zip(orders, R)]
        else:
            s = mp.mpf(shape)
            mu = lambda g: (1 - 1 / g) / mp.log(g) if s == 0 else s * (1 / g - 1) / (1 - g ** s)
            if shape == 1: g = 1 / M
            elif mean == 1: g = mp.mpf(1)
            else:
                lo, hi = mp.mpf(0), mp.mpf(1)
                for _ in range(140):
                    mid = (lo + hi) / 2
                    if mid == 1 or mu(mid) < M: hi = mid
                    else: lo = mid
                g = lo
            fin = [(mp.mpf(a), r) for a, r in zip(orders, R) if r < INF]
            c = (1 + s) * min((1 - 1 / a) * r - mp.log(g) / a for a, r in fin) if fin else INF
            raw = [r + mp.log(M) / (mp.mpf(a) - 1) + c if a > 1 and r < INF else INF for a, r in zip(orders, R)]
            B = [min(raw[j] for j in range(len(orders)) if orders[j] >= orders[i]) for i in range(len(orders))]
        least = min([r for r in R if r > 0] or [1.0])
        for b, y in zip(B, single):
            slack = 1e-9 * (1 + (shape if shape < INF else 0))
            # 1 - exp(-r) is rounded before its square root is taken
            vc.prove('at least the bound of the theorem', y >= float(b) * (1 - 1e-9) - 1e-13 - (mean * 1e-15 / math.sqrt(least) if shape == INF else 0))
            vc.prove('at most the bound of the theorem', y <= float(b) * (1 + 1e-8) + 4 * slack + (mean * 1e-15 / math.sqrt(least) if shape == INF else 0))


@harness('P07', ['_expm1_over_x', '_logx_over_xm1', '_truncated_negative_binomial_mean'], kind='bounded', internal=True, runs=4000, budget=8, bound='random arguments')
def series_of_the_mean(vc):
    import mpmath as mp
    m = vc.mod(RDP)
    x = vc.data('x', lambda r: r.choice([r.uniform(-.11, .11), r.uniform(-20, 20), 10 ** r.uniform(-12, -1), 0.0]))
    with mp.workdps(50):
        vc.prove('(exp(x) - 1) / x', vc.eq(m._expm1_over_x(x), float(mp.expm1(x) / x) if x else 1.0, rtol=1e-11))
        y = vc.data('y', lambda r: r.choice([r.uniform(.88, 1.12), 10 ** r.uniform(-9, 9), 1 - 10 ** r.uniform(-12, -1)]))
        vc.prove('log(y) / (y - 1)', vc.eq(m._logx_over_xm1(y), float(mp.log(y) / (mp.mpf(y) - 1)) if y != 1 else 1.0, rtol=1e-11))


@harness('P07', ['RdpAccountant.compose'], kind='bounded', runs=60, budget=4, bound='listed invalid parameters')
def invalid_repetitions(vc):
    E, m = vc.mod(EV), vc.mod(RDP)
    mean, shape = vc.data('params', lambda r: r.choice([(.5, 1), (0, INF), (-2, 0), (math.nan, 1), (2, -.5), (2, math.nan), (.99, INF)]))
    acc = m.RdpAccountant([2, 3])
    acc.compose(E.GaussianDpEvent(1.0))
    vc.raises('raises', ValueError, lambda: acc.compose(E.RepeatAndSelectDpEvent(E.GaussianDpEvent(1.0), mean, shape)))
    vc.prove('the loss is unchanged', [float(x) for x in acc.rdp] == [1.0, 1.5])
