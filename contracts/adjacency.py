"""P13: the two adjacencies of a distribution, over arbitrary one-directional distributions."""
import math
from pyvc.vc import harness
from contracts._pmf import PM, CM, PLD, INF
from contracts.pmf_proofs import dense, eps_of

OPS = ['compose', 'self_compose']


def opaque(vc, m, disc, pess):
    """one-directional operations by their contracts: pure, and otherwise arbitrary (P09, P10, P11 say what they are)"""
    if not vc.sym: return
    C = m.DensePLDPmf
    def pure(name, make):
        calls = []
        def f(self, *a, **k):
            args = [self, *a, *k.values()]
            for old, r in calls:
                if len(old) == len(args) and all(x is y or vc.S.lift(x) is not None and vc.S.lift(y) is not None and vc.proves(vc.eq(x, y)) for x, y in zip(old, args)): return r
            r = make(f'{name}{len(calls)}', self, *a)
            calls.append((args, r))
            return r
        vc.stub(C, name, f)
    fresh = lambda nm, self, *a: dense(vc, '_' + nm, disc, pess)[0]
    for op in OPS: pure(op, fresh)
    pure('get_epsilon_for_delta', lambda nm, *a: vc.real(nm, ge=0, inf=True))
    pure('get_delta_for_epsilon_for_composed_pld', lambda nm, *a: vc.real(nm, ge=0, le=1))
    def delta(nm, self, e):
        if type(e).__name__ in ('Seq', 'Vec'): return vc.array(nm, vc.length(e), ge=0)
        return vc.real(nm, ge=0, le=1)
    pure('get_delta_for_epsilon', delta)


def pair(vc, tag, disc, pess):
    P = vc.mod(PLD).PrivacyLossDistribution
    r = dense(vc, '_remove' + tag, disc, pess)[0]
    if vc.choice('symmetric' + tag, [True, False]): return P(r), r, r
    a = dense(vc, '_add' + tag, disc, pess)[0]
    return P(r, a), r, a


def start(vc):
    m = vc.mod(PM)
    disc = vc.real('interval', gt=0, gen=lambda r: r.choice([1.0, .5, .1]))
    pess = vc.bool('pess')
    opaque(vc, m, disc, pess)
    return m, disc, pess


def worse(vc, label, x, r, a):
    e = eps_of(vc, 'epsilon')
    delta = vc.real('delta', ge=0, le=1, gen=lambda r: r.choice([r.random(), 10 ** r.uniform(-9, 0), 0.0]))
    both = lambda f: vc.max(f(r), f(a))
    vc.prove(label + ': delta of the worse direction', vc.eq(x.get_delta_for_epsilon(e), both(lambda q: q.get_delta_for_epsilon(e))))
    vc.prove(label + ': epsilon of the worse direction', vc.eq(x.get_epsilon_for_delta(delta), both(lambda q: q.get_epsilon_for_delta(delta))))


@harness('P13', ['PrivacyLossDistribution.get_delta_for_epsilon', 'PrivacyLossDistribution.get_epsilon_for_delta'], runs=300, budget=4)
def queries_answer_for_the_worse_direction(vc):
    m, disc, pess = start(vc)
    x, r, a = pair(vc, '', disc, pess)
    worse(vc, 'distribution', x, r, a)


@harness('P13', ['PrivacyLossDistribution.get_delta_for_epsilon'], runs=200, budget=3)
def vector_queries_answer_for_the_worse_direction(vc):
    m, disc, pess = start(vc)
    x, r, a = pair(vc, '', disc, pess)
    k = vc.int('queries', ge=1, gen=lambda r: r.randint(1, 5))
    es = vc.array('epsilons', k, sort='up', gen=None)
    j = vc.int('position', ge=0)
    vc.assume(j < k)
    vc.hint(j)
    got = x.get_delta_for_epsilon(es)
    vc.prove('one per epsilon', vc.length(got) == k)
    vc.prove('delta of the worse direction', vc.eq(vc.at(got, j), vc.max(vc.at(r.get_delta_for_epsilon(es), j), vc.at(a.get_delta_for_epsilon(es), j))))


@harness('P13', ['PrivacyLossDistribution.compose', 'PrivacyLossDistribution.get_delta_for_epsilon_for_composed_pld', 'PrivacyLossDistribution.validate_composable'], runs=300, budget=5)
def composition_keeps_the_directions_apart(vc):
    m, disc, pess = start(vc)
    (x, r, a), (y, s, b) = pair(vc, '1', disc, pess), pair(vc, '2', disc, pess)
    t = vc.real('tail', ge=0, le=1, gen=lambda r: r.choice([0.0, 1e-15, 1e-9, 1e-4]))
    z = x.compose(y, t)
    worse(vc, 'composition', z, m.compose_pmfs(r, s, t), m.compose_pmfs(a, b, t))
    f = vc.real('epsilon of both', gen=lambda r: r.uniform(-3, 5))
    want = vc.max(r.get_delta_for_epsilon_for_composed_pld(s, f), a.get_delta_for_epsilon_for_composed_pld(b, f))
    vc.prove('delta without composing', vc.eq(x.get_delta_for_epsilon_for_composed_pld(y, f), want))
    # composed once more: the history goes on as for any distribution
    (w, u, c) = pair(vc, '3', disc, pess)
    worse2 = z.compose(w, t)
    e = vc.real('epsilon after three', gen=lambda r: r.uniform(-3, 5))
    q1 = m.compose_pmfs(m.compose_pmfs(r, s, t), u, t)
    q2 = m.compose_pmfs(m.compose_pmfs(a, b, t), c, t)
    vc.prove('three compositions: delta of the worse direction', vc.eq(worse2.get_delta_for_epsilon(e), vc.max(q1.get_delta_for_epsilon(e), q2.get_delta_for_epsilon(e))))


@harness('P13', ['PrivacyLossDistribution.self_compose'], runs=300, budget=4)
def self_composition_keeps_the_directions_apart(vc):
    m, disc, pess = start(vc)
    x, r, a = pair(vc, '', disc, pess)
    n = vc.int('times', ge=1, gen=lambda r: r.randint(1, 6))
    t = vc.real('tail', ge=0, le=1, gen=lambda r: r.choice([0.0, 1e-15, 1e-9]))
    worse(vc, 'self-composition', x.self_compose(n, t), r.self_compose(n, t), a.self_compose(n, t))


@harness('P13', ['PrivacyLossDistribution.create_from_rounded_probability'], runs=200, budget=3)
def probabilities_per_direction(vc):
    m, h, pess = start(vc)
    P = vc.mod(PLD).PrivacyLossDistribution
    prob = lambda r, i: r.random() / 12
    if vc.sym:
        made = []
        def create(d, disc, inf, pess):
            for old, r in made:
                if old[0] is d and all(vc.proves(vc.eq(x, y)) for x, y in zip(old[1:3], (disc, inf))) and vc.proves(vc.eq(vc.ite(old[3], 1, 0), vc.ite(pess, 1, 0))): return r
            made.append(((d, disc, inf, pess), dense(vc, f'_made{len(made)}', disc, pess)[0]))
            return made[-1][1]
        vc.stub(m, 'create_pmf', create)
    def given(tag):
        lo = vc.int('lowest' + tag, gen=lambda r: r.randint(-9, 5))
        hi = vc.int('highest' + tag, gen=lambda r: r.randint(-9, 12))
        vc.assume(lo <= hi)
        return vc.table('probs' + tag, lo, hi, ge=0, gen=prob), vc.real('infinity_mass' + tag, ge=0, le=1, gen=lambda r: r.choice([0.0, .25, r.random()]))
    d, i = given('_remove')
    made_of = lambda d, i: m.create_pmf(d, h, i, pess)
    if vc.choice('symmetric', [True, False]):
        worse(vc, 'symmetric', P.create_from_rounded_probability(d, i, h, pess), made_of(d, i), made_of(d, i))
    else:
        c, j = given('_add')
        worse(vc, 'asymmetric', P.create_from_rounded_probability(d, i, h, pess, c, j, symmetric=False), made_of(d, i), made_of(c, j))
