"""P17: search for the inverse of a monotone function."""
import math
from pyvc.vc import harness

CM = 'dp_accounting.pld.common'
INF = math.inf


# ------------------------------------------------------------------ arbitrary monotone functions
def make_fun(r):
    """data of an increasing function: steps, lines, or a smooth curve; sometimes infinite from a point on"""
    k = r.choice(['steps', 'line', 'cubic', 'exp', 'const', 'int-steps'])
    return {'kind': k, 'at': sorted(r.choice([r.uniform(-20, 20), r.randint(-12, 30), r.uniform(0, 3)]) for _ in range(r.randint(1, 6))),
            'a': r.choice([0.0, 1.0, r.uniform(0, 3), 10 ** r.uniform(-3, 3)]), 'b': r.choice([0.0, r.uniform(-5, 5)]), 'inf': r.choice([None, None, None, r.uniform(-10, 30), r.randint(-5, 40)])}


def increasing_fun(d):
    def f(x):
        x = float(x)
        if d['inf'] is not None and x >= d['inf']: return INF
        k = d['kind']
        if k == 'steps': return d['b'] + sum(x >= t for t in d['at'])
        if k == 'int-steps': return d['b'] + math.floor(x)
        if k == 'line': return d['b'] + d['a'] * x
        if k == 'cubic': return d['b'] + d['a'] * (x - d['at'][0]) ** 3
        if k == 'exp': return d['b'] + d['a'] * math.exp(min(x, 300.0))
        return d['b']
    return f


INCREASING = (make_fun, increasing_fun)
DECREASING = (make_fun, lambda d: (lambda g: lambda x: g(-x))(increasing_fun(d)))


def any_value(vc, f, lo, hi):
    return vc.real('value', gen=lambda r: r.choice([f(lo), f(hi), f((lo + hi) / 2), f(lo + (hi - lo) * r.random()), r.uniform(-10, 10), f(hi) + 1, f(lo) - 1]) if not vc.sym else 0)


def unknowns(st):
    from pyvc import sym
    return [v for v in st.values() if isinstance(v, sym.Num)]


def search_invariants(vc, f, value, lo, hi, increasing, whole, guess=None):
    """candidates over every real in the loop's state: sides of the target, bounds, integrality"""
    S = vc.S
    import z3
    def cands(st):
        out = []
        names = [k for k, v in st.items() if S.lift(v) is not None and not isinstance(v, bool)]
        def add(label, g): out.append((label, g))
        for k in names:
            g = lambda st, k=k: S.lift(st[k])
            fin = lambda st, g=g: vc.finite(g(st))
            add(f'{k} finite', fin)
            hold = lambda c, k=k: (lambda st: vc.implies(vc.finite(st[k]), lambda: c(vc.real_of(S.Num(S.lift(st[k]).z)))))
            add(f'{k} inf or at most hi', lambda st, k=k: vc.or_(vc.and_(vc.not_(vc.finite(st[k])), vc.not_(vc.finite(hi))), vc.and_(vc.finite(st[k]), vc.le(S.Num(S.lift(st[k]).z), hi))))
            add(f'{k} at least lo', hold(lambda x: vc.le(lo, x)))
            add(f'{k} positive', hold(lambda x: x > 0))
            add(f'{k} at least the guess', hold(lambda x: vc.le(guess, x) if guess is not None else True))
            add(f'f({k}) within', hold(lambda x: f(x) <= value))
            add(f'f({k}) beyond', hold(lambda x: f(x) > value))
            add(f'{k} is lo or f({k}) beyond', hold(lambda x: vc.or_(vc.eq(x, lo), f(x) > value)))
            add(f'{k} is hi or f({k}) beyond', lambda st, k=k: vc.or_(vc.eq(st[k], hi), vc.and_(vc.finite(st[k]), f(S.Num(S.lift(st[k]).z)) > value)))
        for a in names:
            for b in names:
                if a != b: add(f'{a} <= {b}', lambda st, a=a, b=b: vc.le(st[a], st[b]))
                if a != b: add(f'{a} < {b}', lambda st, a=a, b=b: vc.lt(st[a], st[b]))
        return out
    vc.invariants(cands)


def one_search(vc, increasing, whole, shape):
    c = vc.mod(CM)
    num = vc.int if whole else vc.real
    f = vc.fun('f', INCREASING if increasing else DECREASING, monotone='increasing' if increasing else 'decreasing', inf=True)
    lo = num('lower', **({} if vc.sym else {'gen': (lambda r: r.randint(-12, 12)) if whole else (lambda r: r.choice([0.0, r.uniform(-5, 5), r.uniform(0, 1)]))}))
    guess = None
    if shape != 'no guess':
        guess = num('guess', gen=None if vc.sym else (lambda r: max(1, lo) + r.choice([0, 0, 1, 5, r.randint(0, 30)]) if whole else max(1e-3, lo) + r.choice([0, .5, 1, r.uniform(0, 20), 1e-3])))
        vc.assume(guess > 0)
        vc.assume(guess >= lo)
    if shape == 'no upper bound': hi = INF
    else:
        hi = num('upper', gen=None if vc.sym else (lambda r: lo + r.choice([0, 1, 2, 10, r.randint(0, 60)]) if whole else lo + r.choice([0.0, 1.0, r.uniform(0, 30), 1e-9])))
        vc.assume(lo <= hi)
        if guess is not None: vc.assume(guess <= hi)
    value = any_value(vc, f, lo, hi if shape != 'no upper bound' else lo + 40)
    tol = 1e-7 if whole else vc.real('tolerance', gt=0, gen=lambda r: r.choice([1e-7, 1e-3, .5, 1e-2]))
    if not vc.sym and shape == 'no upper bound':
        # the search doubles until it passes the target: some point has to
        far = lo + 40 if lo + 40 > 0 else 40
        vc.assume(f(4 * far + 4 * guess) > value if increasing else f(4 * far + 4 * guess) <= value)
    p = c.BinarySearchParameters(lo, hi, guess, tol, whole)
    if vc.sym: search_invariants(vc, f, value, lo, hi, increasing, whole, guess)
    x = c.inverse_monotone_function(f, value, p, increasing)
    best = lo if increasing else hi
    if x is None:
        vc.prove('nothing is returned only if no point qualifies', f(best) > value)
        return
    if best != INF: vc.prove('nothing is returned if no point qualifies', f(best) <= value)
    vc.prove('the point is within the bounds', vc.and_(lo <= x, vc.le(x, hi, rtol=0, atol=0)))
    vc.prove('the function does not exceed the target there', f(x) <= value)
    if whole:
        y = x + 1 if increasing else x - 1
        vc.prove('the best integer', vc.or_(y > hi if increasing else y < lo, f(y) > value))
        if vc.sym: vc.prove('an integer', vc.S.lift(x).is_int)
        else: vc.prove('an integer', float(x).is_integer())
    else:
        slack = 0 if vc.sym else 1e-12
        y = x + tol + slack if increasing else x - tol - slack
        vc.prove('within the tolerance of the best point', vc.or_(vc.ge(y, hi) if increasing else y <= lo, f(y) > value))


def _register(increasing, whole, shape):
    name = f"{'increasing' if increasing else 'decreasing'}_{'discrete' if whole else 'continuous'}_{shape.replace(' ', '_')}"
    @harness('P17', ['inverse_monotone_function'], name='search_' + name, runs=1500, budget=8, limit=300)
    def h(vc): one_search(vc, increasing, whole, shape)


for i in (True, False):
    for w in (True, False):
        for s in ('no guess', 'guess', 'no upper bound'): _register(i, w, s)


@harness('P17', ['inverse_monotone_function'], kind='bounded', runs=1500, budget=8, bound='random functions, bounds of magnitude up to 1e15, at most 3000 evaluations')
def search_ends_at_any_magnitude(vc):
    c = vc.mod(CM)
    up = vc.choice('increasing', [True, False])
    scale = vc.data('scale', lambda r: 10 ** r.uniform(-12, 15))
    t = vc.data('threshold', lambda r: r.uniform(0, 1.2))
    d = vc.data('shape', lambda r: r.choice(['step', 'line', 'cubic']))
    guess = vc.data('guess', lambda r: r.choice([None, r.uniform(1e-9, 1), r.uniform(1e-3, 1)]))
    wide = vc.data('wide', lambda r: r.random() < .4) and guess is not None
    n = [0]
    def f(x):
        n[0] += 1
        if n[0] > 3000: raise AssertionError('3000 evaluations')
        y = (x / scale - t) * (1 if up else -1)
        return (0.0 if y <= 0 else 1.0) if d == 'step' else y if d == 'line' else y ** 3
    hi = INF if wide else scale
    tol = vc.data('tolerance', lambda r: r.choice([1e-7, 1e-7, 1e-3]))
    x = c.inverse_monotone_function(f, 0.0, c.BinarySearchParameters(0, hi, None if guess is None else guess * scale, tol), up)
    if x is None:
        vc.prove('nothing is returned only if no point qualifies', f(0.0 if up else hi) > 0)
        return
    vc.prove('the function does not exceed the target', f(x) <= 0)
    vc.prove('within the bounds', 0 <= x <= hi)
    y = x + (tol + 4e-16 * scale * 4) * (1 if up else -1)
    vc.prove('within the tolerance of the best point', not 0 <= y <= hi or f(y) > 0)
