"""P18: mechanism calibration."""
import math
from pyvc.vc import harness
from contracts.search import make_fun, increasing_fun, INCREASING, DECREASING

MC = 'dp_accounting.mechanism_calibration'
INF = math.inf


def with_contracts(vc, m, F):
    """brentq and (inside itself) _bisect by their contracts, in proof mode"""
    if not vc.sym: return
    def brentq(f, a, b, xtol=2e-12, full_output=False, **k):
        fa, fb = f(a), f(b)
        if vc.case(fa * fb > 0): raise ValueError('f(a) and f(b) must have different signs')
        vc.prove('a positive tolerance is asked of brentq', xtol > 0)
        converged = vc.bool('brentq_converged')
        r, t = vc.real('brentq_root'), vc.real('brentq_turn')
        vc.assume(vc.and_(between(vc, r, a, b), between(vc, t, a, b)))
        vc.assume(vc.or_(abs(r - t) <= xtol, vc.not_(converged)))
        fr, ft = f(r), f(t)
        vc.assume(vc.or_(vc.and_(fr <= 0, ft >= 0), vc.and_(fr >= 0, ft <= 0)))
        class R: pass
        R.converged = converged
        return (r, R) if full_output else r
    vc.stub(m.optimize, 'brentq', brentq)


def between(vc, x, a, b): return vc.and_(vc.le(vc.min(a, b), x), vc.le(x, vc.max(a, b)))


def near_zero(vc, F, r, tol, a, b, points):
    """some point between the ends, no further than tol from r, where the function is not negative"""
    return vc.or_(*[vc.and_(F(t) >= 0, vc.le(abs(r - t), tol, rtol=0), between(vc, t, a, b)) for t in points])


def bisect_contract(vc, points, nested=True):
    n = [0]
    def f(function, lower, upper, tol, lower_value=None, upper_value=None):
        a = lower_value if lower_value is not None else function(lower)
        b = upper_value if upper_value is not None else function(upper)
        vc.prove('bisection is told the values at the end points', vc.and_(vc.eq(a, function(lower)), vc.eq(b, function(upper))))
        vc.prove('bisection has a positive tolerance', tol > 0)
        if vc.case(a * b > 0): raise ValueError('Values must have opposite signs.')
        n[0] += 1
        r, t = vc.real(f'root{n[0]}'), vc.real(f'turn{n[0]}')
        vc.assume(between(vc, r, lower, upper))
        vc.assume(function(r) <= 0)
        vc.assume(near_zero(vc, function, r, tol, lower, upper, [t]))
        points.append(t)
        return r
    return f


@harness('P18', ['_bisect'], internal=True)
def bisection_returns_a_point_within_the_target(vc):
    m = vc.mod(MC)
    F = vc.fun('F', INCREASING, inf=True)
    a, b, tol = vc.real('a'), vc.real('b'), vc.real('tol', gt=0)
    given = vc.choice('values given', [True, False])
    real = m._bisect
    points = []
    vc.stub(m, '_bisect', bisect_contract(vc, points))
    args = (F(a), F(b)) if given else ()
    k, r = vc.call(real, F, a, b, tol, *args)
    if k == 'exc':
        vc.prove('fails only if both ends have the same sign', vc.and_(isinstance(r, ValueError), F(a) * F(b) > 0))
        return
    vc.prove('within the end points', between(vc, r, a, b))
    vc.prove('the function is not positive there', F(r) <= 0)
    vc.prove('within the tolerance of a change of sign', near_zero(vc, F, r, tol, a, b, [r, a, b] + points))


def fresh(vc, F, E, composed=None):
    """an accountant whose epsilon for the event made from x is F(x)"""
    class Accountant:
        def __init__(self): self.x = None
        @property
        def ledger(self): return E.NoOpDpEvent()
        def compose(self, event, count=1):
            if not isinstance(event, tuple) or event[0] != 'event' or self.x is not None: raise AssertionError('one event per accountant')
            self.x = event[1]
            return self
        def get_epsilon(self, delta): return F(self.x)
    return Accountant


def make_calibration(vc, discrete, kind, inf=True, monotone=None):
    """(the calibration call, gap function, end points)"""
    m, E = vc.mod(MC), vc.mod('dp_accounting.dp_event')
    F = vc.fun('F', DECREASING if monotone == 'decreasing' else INCREASING, monotone=monotone, inf=inf)
    if not vc.sym:
        G = F
        F = lambda x: max(0.0, G(x))
    else:
        pass
    target = vc.real('target', ge=0, gen=lambda r: r.choice([0.0, 1.0, r.uniform(0, 5), 10 ** r.uniform(-6, 1.5)]))
    tol = vc.choice('tol', ['none', 'given'])
    tol = None if tol == 'none' else vc.real('tolerance', gt=0, gen=lambda r: r.choice([1e-6, 1e-3, .1, 1.0, 2.5]))
    num = vc.int if discrete else vc.real
    e1 = num('end1', gen=None if vc.sym else (lambda r: r.randint(-5, 12) if discrete else r.choice([0.0, 1.0, r.uniform(-4, 8)])))
    e2 = num('end2', gen=None if vc.sym else (lambda r: e1 + r.choice([1, 2, 7, 30, -3]) if discrete else e1 + r.choice([1.0, r.uniform(0, 20), -2.0, 1e-7])))
    br = m.ExplicitBracketInterval(e1, e2) if kind == 'bracket' else m.LowerEndpointAndGuess(e1, e2)
    seen = []
    def event(x):
        seen.append(x)
        return ('event', x)
    call = lambda: m.calibrate_dp_mechanism(fresh(vc, F, E), event, target, 0.25, br, discrete, tol)
    return m, F, target, (tol if tol is not None else (1.0 if discrete else 1e-6)), e1, e2, seen, call


def search_invariants(vc, F, target, e1, e2):
    S = vc.S
    def cands(st):
        names = [k for k, v in st.items() if S.lift(v) is not None and not isinstance(v, bool)]
        out = [(f'{k} finite', lambda st, k=k: vc.finite(st[k])) for k in names]
        out += [(f'{k} positive', lambda st, k=k: st[k] > 0) for k in names]
        out += [(f'{k} above the lower end', lambda st, k=k: vc.le(e1, st[k])) for k in names]
        for a in names:
            for b in names:
                if a == b: continue
                out.append((f'{a} < {b}', lambda st, a=a, b=b: st[a] < st[b]))
                def value(st, a=a, b=b):
                    if S.lift(st[b]).nan is not False: return False
                    return vc.and_(vc.finite(st[b]), vc.eq(st[a], F(S.Num(S.lift(st[b]).z)) - target))
                out.append((f'{a} is the gap at {b}', value))
                out.append((f'{a}, {b} are the first gaps, or these have one sign', lambda st, a=a, b=b: vc.or_((F(e1) - target) * (F(e2) - target) > 0, vc.and_(vc.eq(st[a], F(e1) - target), vc.eq(st[b], F(e2) - target)))))
        return out
    vc.invariants(cands)


def calibration(vc, discrete, kind, monotone):
    m, F, target, tol, e1, e2, seen, call = make_calibration(vc, discrete, kind, monotone=monotone)
    with_contracts(vc, m, F)
    if vc.sym and hasattr(m, '_bisect'): vc.stub(m, '_bisect', bisect_contract(vc, []))
    if vc.sym and kind == 'guess': search_invariants(vc, F, target, e1, e2)
    k, r = vc.call(call)
    # (with invariants the loop body is also run from hypothetical states)
    for x in seen if kind == 'bracket' or not vc.sym else []:
        if discrete: vc.prove('events are made from integers', vc.S.lift(x).is_int if vc.sym else isinstance(x, int))
        if kind == 'bracket': vc.prove('events are made from points within the bracket', between(vc, x, e1, e2))
        else: vc.prove('events are made from points above the lower end', x >= e1 or e1 >= e2)
    g = lambda x: F(x) - target
    if k == 'exc':
        if kind == 'bracket': vc.prove('fails only if the bracket has no change of sign', vc.and_(isinstance(r, ValueError), g(e1) * g(e2) > 0))
        elif isinstance(r, m.NoBracketIntervalFoundError): vc.prove('no bracket found only without a change of sign at the start', g(e1) * g(e2) > 0)
        else: vc.prove('fails only for a guess below the lower end', vc.and_(isinstance(r, ValueError), e1 >= e2 if vc.sym else e1 >= e2 or g(e1) * g(e2) > 0))
        return
    lo, hi = vc.min(e1, e2), vc.max(e1, e2)
    vc.prove('epsilon is within the target', F(r) <= target)
    if kind == 'bracket': vc.prove('the value is within the bracket', between(vc, r, e1, e2))
    else: vc.prove('the value is above the lower end', e1 <= r)
    if discrete: vc.prove('an integer is returned', vc.S.lift(r).is_int if vc.sym else isinstance(r, int))
    elif monotone:
        slack = 0 if vc.sym else 1e-14 * (abs(r) + 1)
        y = r + tol + slack if monotone == 'increasing' else r - tol - slack
        if kind == 'bracket': y = vc.max(lo, vc.min(y, hi))
        elif monotone == 'decreasing': y = vc.max(y, e1)
        vc.prove('within the tolerance of the best value', F(y) >= target)


def _register(discrete, kind, monotone):
    if discrete and monotone == 'decreasing': return
    name = f"{'discrete_' if discrete else ''}calibration_{'within_a_bracket' if kind == 'bracket' else 'from_a_guess'}_{monotone}"
    @harness('P18', ['calibrate_dp_mechanism', '_search_for_explicit_bracket_interval'], name=name, runs=1500, budget=8)
    def h(vc): calibration(vc, discrete, kind, monotone)


for _d in (False, True):
    for _k in ('bracket', 'guess'):
        for _m in ('increasing', 'decreasing'): _register(_d, _k, _m)


@harness('P18', ['calibrate_dp_mechanism'], kind='bounded', runs=400, budget=25, bound='random targets for five event families with the real accountants')
def calibration_with_real_accountants(vc):
    m, E = vc.mod(MC), vc.mod('dp_accounting.dp_event')
    R, P = vc.mod('dp_accounting.rdp.rdp_privacy_accountant'), vc.mod('dp_accounting.pld.pld_privacy_accountant')
    fam = vc.choice('family', ['sigma', 'laplace', 'count', 'sampling', 'steps'])
    acc = vc.choice('accountant', ['rdp', 'rdp', 'pld']) if fam != 'sampling' else 'rdp'
    fresh = (lambda: R.RdpAccountant([1.5, 2, 3, 4, 6, 8, 16, 32, 64])) if acc == 'rdp' else (lambda: P.PLDAccountant(value_discretization_interval=1e-2))
    delta = vc.data('delta', lambda r: 10 ** r.uniform(-8, -2))
    disc = fam in ('count', 'steps')
    eps = vc.data('epsilon', lambda r: r.choice([.5, 1.0, 10 ** r.uniform(-.7, 1)]))
    make = {'sigma': E.GaussianDpEvent, 'laplace': E.LaplaceDpEvent, 'count': lambda k: E.SelfComposedDpEvent(E.GaussianDpEvent(20.0), k),
            'sampling': lambda q: E.PoissonSampledDpEvent(q, E.GaussianDpEvent(1.0)), 'steps': lambda k: E.SelfComposedDpEvent(E.LaplaceDpEvent(30.0), k)}[fam]
    br = {'sigma': m.LowerEndpointAndGuess(.1, 1), 'laplace': m.ExplicitBracketInterval(.05, 200), 'count': m.LowerEndpointAndGuess(1, 4), 'sampling': m.ExplicitBracketInterval(0, 1), 'steps': m.ExplicitBracketInterval(1, 300)}[fam]
    tol = vc.data('tol', lambda r: r.choice([None, 1e-3, 1e-6]) if not disc else r.choice([None, .1, 3]))
    e = lambda x: fresh().compose(make(x)).get_epsilon(delta)
    if fam == 'count': vc.assume(e(1) <= eps)
    seen = []
    k, x = vc.call(lambda: m.calibrate_dp_mechanism(fresh, lambda v: (seen.append(v), make(v))[1], eps, delta, br, disc, tol))
    if k == 'exc':
        if isinstance(br, m.ExplicitBracketInterval): vc.prove('fails only if the bracket has no change of sign', (e(br.endpoint_1) - eps) * (e(br.endpoint_2) - eps) > 0)
        else: vc.prove('a bracket above the lower end is found', e(br.lower_endpoint) < eps and disc or not disc and e(br.lower_endpoint) < eps or e(br.initial_guess) == e(br.lower_endpoint) or isinstance(x, m.NoBracketIntervalFoundError))
        return
    vc.prove('epsilon is within the target', e(x) <= eps)
    vc.prove('integers', not disc or isinstance(x, int) and all(isinstance(v, int) for v in seen))
    t = tol or (1 if disc else 1e-6)
    if disc: t = max(t, 1) + .5
    y = x - t * (1 + 1e-9) if fam in ('sigma', 'laplace') else x + t * (1 + 1e-9)
    if disc: y = math.floor(y) + 1
    if fam == 'sampling' and y > 1 or fam == 'laplace' and y < br.endpoint_1 or fam == 'steps' and y > 300: return
    vc.prove('within the tolerance of the best value', e(y) >= eps)


@harness('P18', ['calibrate_dp_mechanism'], kind='bounded', runs=60, budget=5, bound='random invalid arguments')
def calibration_refuses_invalid_arguments(vc):
    m, E = vc.mod(MC), vc.mod('dp_accounting.dp_event')
    R = vc.mod('dp_accounting.rdp.rdp_privacy_accountant')
    f = lambda: R.RdpAccountant([2.0, 4.0, 8.0])
    used = lambda: R.RdpAccountant([2.0, 4.0, 8.0]).compose(E.GaussianDpEvent(1.0))
    g, c = E.GaussianDpEvent, m.calibrate_dp_mechanism
    x = vc.data('x', lambda r: 10 ** r.uniform(-4, 3))
    vc.raises('used accountant', m.NonEmptyAccountantError, c, used, g, 1.0, 1e-5, m.ExplicitBracketInterval(.1, 10))
    vc.raises('used accountant', m.NonEmptyAccountantError, c, used, g, 1.0, 1e-5)
    vc.raises('accountant', TypeError, c, f(), g, 1.0, 1e-5)
    vc.raises('event', TypeError, c, f, g(1.0), 1.0, 1e-5)
    vc.raises('bracket', TypeError, c, f, g, 1.0, 1e-5, (0.1, 10))
    vc.raises('negative epsilon', ValueError, c, f, g, -x, 1e-5)
    vc.raises('negative delta', ValueError, c, f, g, 1.0, -x)
    vc.raises('delta above 1', ValueError, c, f, g, 1.0, 1 + x)
    for t in (0, -x): vc.raises('tolerance', ValueError, c, f, g, 1.0, 1e-5, None, False, t)
    vc.raises('reversed guess', ValueError, c, f, g, 1.0, 1e-5, m.LowerEndpointAndGuess(1 + x, 1))
    # no noise multiplier gives epsilon 0
    vc.raises('no bracket', m.NoBracketIntervalFoundError, c, f, lambda s: g(1 / (1 + s)), 1e-9, 1e-9)
