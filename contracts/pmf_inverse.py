"""P10: the inversion of delta, for discretised distributions of any size."""
import math
from pyvc.vc import harness
from contracts.pmf_proofs import dense, sparse


def inversion(vc, store):
    q, n, loss_, p_, inf = store(vc)
    loss, p = (lambda t: loss_(n - 1 - t)), (lambda t: vc.at(p_, n - 1 - t))      # from the greatest loss down
    delta = vc.real('delta', ge=0, le=1, gen=lambda r: r.choice([r.random(), 10 ** r.uniform(-9, 0), 0.0, .25, 1.0]))
    e = vc.real('smaller', ge=0, gen=lambda r: r.choice([0.0, r.random() * 5, r.random()]))
    # the laws hold for any descending losses and any masses
    B = vc.theory(l=loss, p=p)
    B.pairwise('losses descend', 0, n, lambda F, i, j: (vc.hint(n - 1 - i, n - 1 - j), vc.lt(F.l(j), F.l(i)))[1] if F.proving else vc.lt(F.l(j), F.l(i)), slow=True)
    B.everywhere('masses are not negative', 0, n, lambda F, t: ([], F.p(t) >= 0), slow=True)
    T = vc.theory(U=lambda m: inf + vc.Sum(0, m, B.p), L=lambda m: vc.Sum(0, m, lambda t: vc.exp(-B.l(t)) * B.p(t)),
                  H_r=lambda x: inf + vc.Sum(0, n, lambda t: vc.ite(B.l(t) > x, (1 - vc.exp(x - B.l(t))) * B.p(t), 0.0)))
    if vc.sym:
        inside = lambda v: [v >= 0, v <= n]
        prev = lambda v: (vc.hint(v - 1), True)[1]
        split = T.law('delta where the losses cross epsilon', 'ir', lambda F, v, x: (inside(v) + [lambda: prev(v),
            lambda: vc.implies(v > 0, lambda: B.l(v - 1) >= x), lambda: vc.implies(v < n, lambda: B.l(v) <= x)], vc.eq(F.H(x), F.U(v) - vc.exp(x) * F.L(v))))
        below = T.law('delta is at least what any set of outcomes gives', 'ir', lambda F, v, x: (inside(v), F.H(x) >= F.U(v) - vc.exp(x) * F.L(v)))
        vc.hint(0, n)
        T.law('the masses at the top', '', lambda F: ([], vc.and_(vc.eq(F.U(0), inf), vc.eq(F.L(0), 0))))()
        T.everywhere('the masses one loss further down', 0, n, lambda F, v: ([], vc.and_(vc.eq(F.U(v + 1), F.U(v) + B.p(v)), vc.eq(F.L(v + 1), F.L(v) + vc.exp(-B.l(v)) * B.p(v)))), slow=True)
        signs = T.law('masses are positive', 'i', lambda F, v: (inside(v), vc.and_(F.L(v) >= 0, F.U(v) >= inf)))
        empty = T.law('no mass without lower mass', 'i', lambda F, v: (inside(v), F.U(v) - inf <= vc.exp(B.l(0)) * F.L(v)))
        some = lambda v: vc.and_(T.L(v) >= 0, T.U(v) >= inf, vc.or_(T.L(v) > 0, T.U(v) == inf))
        vc.forall('lemma: some lower mass', 0, n + 1, lambda v: (signs(v), empty(v), some(v))[2])
        vc.assume_forall(0, n + 1, some)
        B.everywhere('definition', 0, n, lambda F, t: ([], vc.and_(vc.eq(F.l(t), loss(t)), vc.eq(F.p(t), p(t)))), slow=True)
        # arithmetic
        A = vc.theory()
        # (logarithms of quotients of positive numbers)
        law = lambda label, sorts, fn: A.law(label, sorts, fn, clean=True)
        less = law('quotient below', 'rrr', lambda F, X, Y, l: ([X > 0, Y > 0, lambda: vc.quotient_log(X, Y) < l], lambda: X < vc.exp(l) * Y))
        more = law('quotient above', 'rrr', lambda F, X, Y, l: ([X > 0, Y > 0, lambda: vc.quotient_log(X, Y) >= l], lambda: X >= vc.exp(l) * Y))
        small = law('log of a small quotient', 'rrr', lambda F, X, Y, l: ([X > 0, Y > 0, lambda: X <= vc.exp(l) * Y], lambda: vc.quotient_log(X, Y) <= l))
        large = law('log of a large quotient', 'rr', lambda F, X, Y: ([X > Y, Y > 0], lambda: vc.quotient_log(X, Y) > 0))
        back = law('exp of log of a quotient', 'rr', lambda F, X, Y: ([X > 0, Y > 0], lambda: vc.exp(vc.quotient_log(X, Y)) * Y == X))
        step = law('one loss further', 'rrrr', lambda F, X, Y, l, p: ([p >= 0, lambda: X <= vc.exp(l) * Y], lambda: X + p <= vc.exp(l) * (Y + vc.exp(-l) * p)))
        neg = law('a loss below zero', 'rrr', lambda F, X, Y, l: ([Y >= 0, l <= 0, lambda: X <= vc.exp(l) * Y], X <= Y))
        posi = law('a loss above zero', 'rrr', lambda F, X, Y, l: ([Y > 0, l > 0, lambda: X >= vc.exp(l) * Y], X > Y))
        below_law = law('smaller epsilons', 'rrrr', lambda F, x, y, Y, X: ([Y > 0, x < y, lambda: vc.exp(y) * Y == X], lambda: vc.exp(x) * Y < X))
        # the number of positive losses
        v = vc.int('positive', ge=0)
        vc.assume(v <= n)
        vc.assume(vc.implies(v > 0, lambda: B.l(v - 1) > 0))
        vc.assume(vc.implies(v < n, lambda: B.l(v) <= 0))
        vc.loop_given(lambda init, k: {nm: T.U if vc.proves(x == inf) else T.L for nm, x in init.items() if vc.proves(vc.or_(x == inf, x == 0))})
    got = q.get_epsilon_for_delta(delta)
    if vc.case(inf > delta):
        vc.prove('infinite when the infinity mass exceeds delta', vc.isinf(got))
        return
    if vc.sym:
        m = vc.left_at()
        vc.hint(m - 1, v, v - 1)
        X, Y = (lambda w: T.U(w) - delta), T.L
        for w in (m, m - 1, v): less(X(w), Y(w), B.l(w)); more(X(w), Y(w), B.l(w)); neg(X(w), Y(w), B.l(w)); posi(X(w), Y(w), B.l(w))
        large(X(m), Y(m))
    vc.prove('finite otherwise', vc.finite(got))
    vc.prove('non-negative', got >= 0)
    if vc.sym:
        if vc.case(got <= 0):
            vc.lemma('the loop passes all positive losses', m >= v)
            vc.lemma('the masses of the positive losses', T.U(v) <= T.L(v) + delta)
            split(v, 0)
        else:
            vc.lemma('lower mass is positive', Y(m) > 0)
            vc.lemma('the loop does not stop at once', m > 0)
            vc.lemma('losses by name', vc.and_(m <= n, B.l(m - 1) == loss(m - 1), B.p(m - 1) == p(m - 1), B.p(m - 1) >= 0))
            vc.lemma('the last loss passed', X(m - 1) <= vc.exp(B.l(m - 1)) * Y(m - 1))
            vc.lemma('the masses after the last loss passed', vc.and_(X(m) == X(m - 1) + B.p(m - 1), Y(m) == Y(m - 1) + vc.exp(-B.l(m - 1)) * B.p(m - 1)))
            step(X(m - 1), Y(m - 1), B.l(m - 1), B.p(m - 1))
            vc.lemma('epsilon is the logarithm', vc.and_(got == vc.quotient_log(X(m), Y(m)), X(m) > 0))
            small(X(m), Y(m), B.l(m - 1)); back(X(m), Y(m))
            vc.lemma('the last loss passed is at least epsilon', B.l(m - 1) >= got)
            vc.lemma('the next loss is at most epsilon', vc.implies(m < n, lambda: B.l(m) <= got))
            vc.lemma('epsilon solves the equation', vc.exp(got) * Y(m) == X(m))
            split(m, got)
            below(m, e)
            below_law(e, got, Y(m), X(m))
    H = T.H
    vc.prove('delta at epsilon is at most the target', vc.le(H(got), delta))
    if vc.case(e < got): vc.prove('delta at a smaller epsilon is above the target', H(e) > delta if vc.sym else H(e) > delta - 1e-12)


@harness('P10', ['_get_epsilon_for_delta', 'DensePLDPmf.get_epsilon_for_delta'], runs=300, budget=4)
def epsilon_of_dense_storage(vc): inversion(vc, dense)


@harness('P10', ['_get_epsilon_for_delta', 'SparsePLDPmf.get_epsilon_for_delta'], runs=300, budget=4)
def epsilon_of_sparse_storage(vc): inversion(vc, sparse)
