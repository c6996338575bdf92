"""P03: checking before accounting, for both accountants. P05: the PLD accountant's traversal."""
import math
from pyvc.vc import harness
from contracts._acc import *
from contracts._events import tree
from contracts.events import expand, squeeze

PLDM = 'dp_accounting.pld.privacy_loss_distribution'


# ------------------------------------------------------------------ opaque privacy loss distributions
class FakePLD:
    """a privacy loss distribution, seen through an arbitrary homomorphism from (compose, self_compose) to (+, *)"""
    def __init__(self, w): self.w = w
    def compose(self, other, *a, **k): return FakePLD(self.w + other.w)
    def self_compose(self, n, *a, **k): return FakePLD(self.w * n)


def fake_pld(vc, m):
    """PLD constructors as uninterpreted functions of their parameters (both modes)"""
    P = vc.mod(PLDM)
    if vc.sym:
        from pyvc import sym
        import z3
        def u(name, *a):
            zs = [sym.toreal(sym.lift(x).z) for x in a]
            return sym.Num(sym.uf('pld_' + name, *[z3.RealSort()] * len(zs), z3.RealSort())(*zs))
    else:
        def u(name, *a): return 1 + abs(math.sin(sum((i + 1) * float(x) for i, x in enumerate(a)) + len(name)))
    def gauss(standard_deviation, sensitivity=1, pessimistic_estimate=True, value_discretization_interval=1e-4, log_mass_truncation_bound=-50, use_connect_dots=True, sampling_prob=1.0, **kw):
        if standard_deviation <= 0: raise ValueError('standard deviation')
        if not sampling_prob > 0: raise ValueError('sampling probability')
        if isinstance(sampling_prob, (int, float)) and sampling_prob == 1.0: return FakePLD(u('g', sensitivity, value_discretization_interval) / (standard_deviation * standard_deviation))
        return FakePLD(u('sg', standard_deviation, sensitivity, sampling_prob, value_discretization_interval))
    def laplace(parameter, sensitivity=1, pessimistic_estimate=True, value_discretization_interval=1e-4, use_connect_dots=True, sampling_prob=1.0, **kw):
        if parameter <= 0: raise ValueError('parameter')
        if not sampling_prob > 0: raise ValueError('sampling probability')
        return FakePLD(u('l', parameter, sensitivity, sampling_prob, value_discretization_interval))
    def rr(noise_parameter, num_buckets, pessimistic_estimate=True, value_discretization_interval=1e-4, neighboring_relation=None, **kw):
        if noise_parameter <= 0 or noise_parameter >= 1: raise ValueError('noise parameter')
        if num_buckets <= 1: raise ValueError('buckets')
        return FakePLD(u('rr' + str(neighboring_relation), noise_parameter, num_buckets, value_discretization_interval))
    def mog(standard_deviation, sensitivities, sampling_probs, pessimistic_estimate=True, value_discretization_interval=1e-4, **kw):
        if standard_deviation <= 0: raise ValueError('standard deviation')
        return FakePLD(u(f'mog{len(sensitivities)}', standard_deviation, *sensitivities, *sampling_probs, value_discretization_interval))
    for n, f in (('from_gaussian_mechanism', gauss), ('from_laplace_mechanism', laplace), ('from_randomized_response', rr), ('from_mixture_gaussian_mechanism', mog),
                 ('identity', lambda value_discretization_interval=1e-4, **kw: FakePLD(0))): vc.patch(P, n, f)
    class Acc(m.PLDAccountant):
        """the accountant with the opaque distribution kept as a number"""
        @property
        def _pld(self): return FakePLD(self._w)
        @_pld.setter
        def _pld(self, v): self._w = v.w
    return Acc, u


def pld_state(vc, rel):
    m = vc.mod(PLDA)
    Acc, u = fake_pld(vc, m)
    step = vc.real('interval', gt=0)
    acc = Acc(rel, step)
    acc._w = vc.real('w0', ge=0)
    acc._contains_non_dp_event = vc.bool('non_dp_before')
    vc.cell(acc, '_w')
    vc.cell(acc, '_contains_non_dp_event')
    return m, acc, u, step


def pld_leaves(vc, m, Leaf, ok=None):
    """opaque events: weight and whether they are non-private, as the induction hypothesis has it"""
    if vc.sym:
        import z3
        from pyvc import sym, seq
        W = lambda x: sym.Num(sym.uf('leaf_w', z3.IntSort(), z3.RealSort())(seq.zint(x)))
        B = lambda x: sym.mkbool(sym.uf('leaf_nondp', z3.IntSort(), z3.BoolSort())(seq.zint(x)))
    else:
        W = lambda x: abs(math.sin(x * 2.3 + 1)) * 3
        B = lambda x: x % 7 == 3
    real = m.PLDAccountant._maybe_compose
    def maybe(self, event, count, do_compose):
        if not isinstance(event, Leaf): return real(self, event, count, do_compose)
        if ok is not None and not ok(event.uid): return m.CompositionErrorDetails(invalid_event=event, error_message='opaque')
        if do_compose:
            self._w = self._w + W(event.uid) * count
            if B(event.uid): self._contains_non_dp_event = True
        return None
    vc.patch(m.PLDAccountant, '_maybe_compose', maybe)
    return W, B


PLD_SINGLE = ['GaussianDpEvent', 'LaplaceDpEvent', 'RandomizedResponseDpEvent', 'PoissonSampledDpEvent', 'PoissonSampledLaplace', 'MixtureOfGaussiansDpEvent', 'NoOpDpEvent', 'NonPrivateDpEvent']


@harness('P05', ['PLDAccountant._maybe_compose'], internal=True, limit=300)
def pld_of_one_event_is_composed_count_times(vc):
    E = vc.mod(EV)
    rel = relation(vc)
    c = vc.choice('class', PLD_SINGLE)
    m, acc, u, step = pld_state(vc, rel)
    w0, non0 = acc._w, acc._contains_non_dp_event
    ev = single(E, vc, c)
    k = vc.int('count', ge=1)
    if not acc.supports(ev): return vc.prove('unsupported under this relation only', (c in ('RandomizedResponseDpEvent') and rel.name == 'ADD_OR_REMOVE_ONE') or (c.startswith('Poisson') and rel.name == 'REPLACE_ONE'))
    vc.prove('composed', acc._maybe_compose(ev, k, True) is None)
    nothing, broken, w = False, False, None
    if c == 'GaussianDpEvent':
        broken = ev.noise_multiplier == 0
        if vc.case(vc.not_(broken)): w = u('g', 1, step) / (ev.noise_multiplier * ev.noise_multiplier)
    elif c == 'LaplaceDpEvent':
        broken = ev.noise_multiplier == 0
        w = u('l', ev.noise_multiplier, 1, 1.0, step)
    elif c == 'RandomizedResponseDpEvent':
        nothing = vc.or_(ev.num_buckets == 1, ev.noise_parameter == 1)
        broken = ev.noise_parameter == 0
        w = u('rr' + str(rel), ev.noise_parameter, ev.num_buckets, step)
    elif c == 'PoissonSampledDpEvent':
        nothing = ev.sampling_probability == 0
        broken = ev.event.noise_multiplier == 0
        w = u('sg', ev.event.noise_multiplier, 1, ev.sampling_probability, step)
        if not vc.sym and ev.sampling_probability == 1.0 and not broken: w = u('g', 1, step) / (ev.event.noise_multiplier * ev.event.noise_multiplier)
    elif c == 'PoissonSampledLaplace':
        nothing = ev.sampling_probability == 0
        broken = ev.event.noise_multiplier == 0
        w = u('l', ev.event.noise_multiplier, 1, ev.sampling_probability, step)
    elif c == 'MixtureOfGaussiansDpEvent':
        broken = ev.standard_deviation == 0
        w = u('mog2', ev.standard_deviation, *ev.sensitivities, *ev.sampling_probs, step)
    elif c == 'NoOpDpEvent': nothing = True
    elif c == 'NonPrivateDpEvent': broken = True
    if vc.case(nothing):
        vc.prove('an event that releases nothing leaves the distribution unchanged', vc.eq(acc._w, w0))
        vc.prove('and is not non-private', acc._contains_non_dp_event == non0)
    elif vc.case(broken): vc.prove('no noise is non-private', vc.and_(acc._contains_non_dp_event))
    else:
        vc.prove('composed count times', vc.eq(acc._w, w0 + w * k))
        vc.prove('not non-private', acc._contains_non_dp_event == non0)


@harness('P05', ['PLDAccountant._maybe_compose'], internal=True)
def pld_of_wrapped_events(vc):
    E = vc.mod(EV)
    Leaf = leaf_class(E)
    m, acc, u, step = pld_state(vc, relation(vc))
    W, B = pld_leaves(vc, m, Leaf)
    w0, non0 = acc._w, acc._contains_non_dp_event
    k = vc.int('count', ge=1)
    if vc.choice('self-composed', [True, False]):
        x, i = vc.int('uid', ge=0), vc.int('inner', ge=1)
        vc.prove('composed', acc._maybe_compose(E.SelfComposedDpEvent(Leaf(x), i), k, True) is None)
        vc.prove('composed with both counts', vc.eq(acc._w, w0 + W(x) * (i * k)))
        vc.prove('non-private only if it was or the event is', acc._contains_non_dp_event == vc.or_(non0, B(x)))
        return
    c = vc.int('n_events', ge=0, le=None if vc.sym else 5)
    uids = vc.array('uids', c, kind='list', ints=True, ge=0)
    vc.prove('composed', acc._maybe_compose(E.ComposedDpEvent(leaf_list(vc, Leaf, uids)), k, True) is None)
    vc.prove('all events are composed', vc.eq(acc._w, w0 + vc.Sum(0, c, lambda t: W(vc.at(uids, t)) * k)))
    non = acc._contains_non_dp_event
    vc.forall('a non-private event is remembered', 0, c, lambda t: vc.implies(vc.or_(non0, B(vc.at(uids, t))), non))
    vc.prove('what was before is remembered', vc.implies(non0, non))
    vc.exists('non-private only for a reason', -1, c, lambda t: vc.implies(non, vc.or_(non0, vc.and_(t >= 0, vc.lt(-1, t), B(vc.at(uids, t)) if vc.sym or t >= 0 else False))))


def leaf_list(vc, Leaf, uids):
    if vc.sym:
        from pyvc.seq import Seq
        return Seq(uids.n, lambda t: Leaf(uids.elem(t)), 'list')
    return [Leaf(x) for x in uids]


@harness('P05', ['PLDAccountant.get_epsilon', 'PLDAccountant.get_delta'], internal=True)
def pld_queries(vc):
    m = vc.mod(PLDA)
    E = vc.mod(EV)
    Acc, u = fake_pld(vc, m)
    acc = Acc(relation(vc), 0.1)
    eps, delta = vc.real('eps', ge=0), vc.real('delta', ge=0, le=1)
    qe, qd = vc.real('answer_eps', ge=0), vc.real('answer_delta', ge=0, le=1)
    class Q(FakePLD):
        def get_epsilon_for_delta(self, d): asked.append(('e', d)); return qe
        def get_delta_for_epsilon(self, e): asked.append(('d', e)); return qd
    asked = []
    non = vc.bool('non_dp')
    class Acc2(m.PLDAccountant):
        _pld = property(lambda self: Q(1), lambda self, v: None)
    acc = Acc2(relation(vc, 'relation2'), 0.1)
    acc._contains_non_dp_event = non
    e, d = acc.get_epsilon(delta), acc.get_delta(eps)
    if vc.case(non): vc.prove('non-private for ever', vc.and_(vc.eq(e, INF), vc.eq(d, 1)))
    else:
        vc.prove('answers of the distribution', vc.and_(vc.eq(e, qe), vc.eq(d, qd)))
        vc.prove('the query is passed on', len(asked) == 2 and vc.and_(vc.eq(dict(asked)['e'], delta), vc.eq(dict(asked)['d'], eps)))


# ------------------------------------------------------------------ P03
def must_support(c, rel, pld):
    """whether an event class (without sub-events) has a documented bound under the relation"""
    if c in ('NoOpDpEvent', 'NonPrivateDpEvent', 'GaussianDpEvent', 'LaplaceDpEvent'): return True
    if c == 'PoissonSampledDpEvent': return rel != 'REPLACE_ONE'
    if c == 'RandomizedResponseDpEvent': return rel != 'ADD_OR_REMOVE_ONE'
    if c == 'PoissonSampledLaplace': return pld and rel != 'REPLACE_ONE'
    if c == 'MixtureOfGaussiansDpEvent': return pld
    if c == 'SampledWithoutReplacementDpEvent': return not pld and rel == 'REPLACE_ONE'
    if c == 'SingleEpochTreeAggregationDpEvent': return not pld and rel == 'REPLACE_SPECIAL'
    return False


class Ledger:
    """the event builder, recorded"""
    def __init__(self): self.calls = []
    def compose(self, e, count=1): self.calls.append((e, count))
    def build(self): return ('built', len(self.calls))


def any_state(vc, pld, rel):
    if pld:
        m, acc, u, step = pld_state(vc, rel)
        keep = lambda a: (a._w, a._contains_non_dp_event)
        same = lambda a, s: vc.and_(vc.eq(a._w, s[0]), a._contains_non_dp_event == s[1])
    else:
        from contracts.rdp_accountant import state
        m, n, orders, acc, r0 = state(vc, rel)
        s0 = acc._rdp
        keep = lambda a: (a._rdp, [x for x in a._rdp] if not vc.sym else None)
        def same(a, s):
            if not vc.sym: return len(a._rdp) == len(s[1]) and all(x == y for x, y in zip(a._rdp, s[1]))
            j = vc.int(f'any_order{len(vc.inputs)}', ge=0)
            vc.assume(j < n); vc.hint(j)
            return vc.and_(vc.eq(vc.length(a._rdp), n), vc.eq(vc.at(a._rdp, j), vc.at(r0, j)))
    acc._ledger = Ledger()
    return m, acc, keep, same


def check_and_compose(vc, m, acc, keep, same, ev, supported):
    U = vc.mod(PA).UnsupportedEventError
    s = keep(acc)
    k = vc.int('count', ge=1)
    got = acc.supports(ev)
    vc.prove('supports answers what is supported', got == supported if isinstance(got, bool) and isinstance(supported, bool) else vc.eq(vc.ite(got, 1, 0), vc.ite(supported, 1, 0)))
    vc.prove('supports leaves the ledger', acc._ledger.calls == [])
    vc.prove('supports leaves the loss', same(acc, s))
    if vc.case(supported):
        r = acc.compose(ev, k)
        vc.prove('compose returns the accountant', r is acc)
        vc.prove('the ledger grows by the event and count', len(acc._ledger.calls) == 1 and acc._ledger.calls[0][0] is ev and vc.eq(acc._ledger.calls[0][1], k))
    else:
        vc.raises('compose rejects', U, acc.compose, ev, k)
        vc.prove('compose leaves the ledger', acc._ledger.calls == [])
        vc.prove('compose leaves the loss', same(acc, s))


@harness('P03', ['PrivacyAccountant.compose', 'PrivacyAccountant.supports', 'RdpAccountant._maybe_compose', 'PLDAccountant._maybe_compose'], internal=True, limit=300)
def unsupported_primitive_changes_nothing(vc):
    E = vc.mod(EV)
    pld = vc.choice('pld', [False, True])
    rel = relation(vc)
    c = vc.choice('class', sorted(set(PLD_SINGLE + ['SampledWithoutReplacementDpEvent', 'SingleEpochTreeAggregationDpEvent', 'SampledWithReplacementDpEvent', 'UnsupportedDpEvent', 'Leaf', 'sampled leaf', 'sampled leaf 2'])))
    m, acc, keep, same = any_state(vc, pld, rel)
    Leaf = leaf_class(E)
    if c == 'Leaf': ev = Leaf(vc.int('uid'))
    elif c == 'sampled leaf': ev = E.PoissonSampledDpEvent(vc.real('q', ge=0, le=1), Leaf(vc.int('uid')))
    elif c == 'sampled leaf 2': ev = E.SampledWithoutReplacementDpEvent(10, 5, E.SelfComposedDpEvent(E.ComposedDpEvent([E.GaussianDpEvent(vc.real('sigma', gt=0)), Leaf(vc.int('uid'))]), 2))
    else: ev = single(E, vc, c)
    if c == 'SampledWithoutReplacementDpEvent' and not vc.sym: vc.assume(ev.event.noise_multiplier > .05)
    check_and_compose(vc, m, acc, keep, same, ev, must_support(c, rel.name, pld))


@harness('P03', ['PrivacyAccountant.compose', 'PrivacyAccountant.supports', 'RdpAccountant._maybe_compose', 'PLDAccountant._maybe_compose'], internal=True, limit=300)
def unsupported_sub_event_changes_nothing(vc):
    """events over opaque sub-events, each supported or not"""
    E = vc.mod(EV)
    pld = vc.choice('pld', [False, True])
    m, acc, keep, same = any_state(vc, pld, relation(vc))
    Leaf = leaf_class(E)
    if vc.sym:
        import z3
        from pyvc import sym, seq
        ok = lambda x: sym.mkbool(sym.uf('supported', z3.IntSort(), z3.BoolSort())(seq.zint(x)))
    else: ok = lambda x: x % 3 != 1
    if pld: pld_leaves(vc, m, Leaf, ok)
    else:
        from contracts.rdp_accountant import leaf_losses
        leaf_losses(vc, m, Leaf, vc.length(acc._rdp), ok)
    shape = vc.choice('shape', ['self-composed', 'composed', 'repeat', 'all', 'some'])
    if shape == 'self-composed':
        x = vc.int('uid', ge=0)
        return check_and_compose(vc, m, acc, keep, same, E.SelfComposedDpEvent(Leaf(x), vc.int('inner', ge=1)), ok(x))
    if shape == 'repeat':
        x = vc.int('uid', ge=0)
        return check_and_compose(vc, m, acc, keep, same, E.RepeatAndSelectDpEvent(Leaf(x), vc.real('mean', ge=1), vc.real('shape_', ge=0)), False if pld else ok(x))
    c = vc.int('n_events', ge=0, le=None if vc.sym else 5)
    uids = vc.array('uids', c, kind='list', ints=True, ge=0)
    if shape == 'composed':   # either all are supported or one, anywhere, is not
        vc.assume_forall(0, c, lambda t: ok(vc.at(uids, t)))
        supported = True
    else:
        w = vc.int('bad one', ge=0)
        vc.assume(w < c)
        vc.hint(w)
        vc.assume(vc.not_(ok(vc.at(uids, w))))
        supported = False
    ev = E.ComposedDpEvent(leaf_list(vc, Leaf, uids))
    check_and_compose(vc, m, acc, keep, same, ev, supported)


@harness('P03', ['PrivacyAccountant.compose'])
def compose_rejects_what_is_no_event(vc):
    E = vc.mod(EV)
    pld = vc.choice('pld', [False, True])
    m = vc.mod(PLDA if pld else RDP)
    acc = m.PLDAccountant(relation(vc), 1.0) if pld else m.RdpAccountant([2.0], relation(vc))
    for bad in ('event', None, 3, E.GaussianDpEvent): vc.raises('not an event', TypeError, acc.compose, bad)
    vc.prove('ledger untouched', isinstance(acc.ledger, E.NoOpDpEvent))


def supported_tree(E, e, rel, pld):
    """the documented support of an event tree"""
    if isinstance(e, E.ComposedDpEvent): return all(supported_tree(E, x, rel, pld) for x in e.events)
    if isinstance(e, E.SelfComposedDpEvent): return supported_tree(E, e.event, rel, pld)
    if isinstance(e, E.RepeatAndSelectDpEvent): return not pld and supported_tree(E, e.event, rel, pld)
    def gaussian(x):
        if isinstance(x, E.ComposedDpEvent): return all(gaussian(y) for y in x.events)
        if isinstance(x, E.SelfComposedDpEvent): return gaussian(x.event)
        return isinstance(x, E.GaussianDpEvent)
    if isinstance(e, E.PoissonSampledDpEvent):
        return rel != 'REPLACE_ONE' and (isinstance(e.event, (E.GaussianDpEvent, E.LaplaceDpEvent)) if pld else gaussian(e.event))
    if isinstance(e, E.SampledWithoutReplacementDpEvent): return not pld and rel == 'REPLACE_ONE' and gaussian(e.event)
    return must_support(type(e).__name__, rel, pld)


def mixed_tree(E, r, rel, pld, depth):
    """mostly supported events with an unsupported one somewhere"""
    if depth <= 0 or r.random() < .2:
        if r.random() < .15: return r.choice([E.UnsupportedDpEvent(), E.SampledWithReplacementDpEvent(5, 2, E.GaussianDpEvent(1.0)), E.NonPrivateDpEvent(), E.PoissonSampledDpEvent(.5, E.GaussianDpEvent(1.0)),
                                              E.PoissonSampledDpEvent(.5, E.ComposedDpEvent([E.GaussianDpEvent(1.0), E.LaplaceDpEvent(1.0)])), E.RandomizedResponseDpEvent(.5, 3), E.SingleEpochTreeAggregationDpEvent(1.0, 4),
                                              E.SampledWithoutReplacementDpEvent(5, 2, E.GaussianDpEvent(2.0)), E.SampledWithoutReplacementDpEvent(5, 2, E.NoOpDpEvent()), E.MixtureOfGaussiansDpEvent(1.0, [1.0], [1.0])])
        return base_event(E, r, rel, pld)
    q = r.random()
    if q < .35: return E.SelfComposedDpEvent(mixed_tree(E, r, rel, pld, depth - 1), r.choice([1, 2, 3]))
    if q < .45: return E.RepeatAndSelectDpEvent(mixed_tree(E, r, rel, pld, depth - 1), 2.0, 1.0)
    es = [mixed_tree(E, r, rel, pld, depth - 1) for _ in range(r.randint(0, 4))]
    return E.ComposedDpEvent(es)


@harness('P03', ['PrivacyAccountant.compose', 'PrivacyAccountant.supports', 'PrivacyAccountant.ledger'], kind='bounded', runs=500, budget=40, bound='random histories of up to 5 calls over event trees of depth <= 3, both accountants')
def histories_check_before_accounting(vc):
    E, pa = vc.mod(EV), vc.mod(PA)
    pld = vc.choice('pld', [False, True])
    rel = vc.choice('relation', RELATIONS)
    R = getattr(pa.NeighboringRelation, rel)
    hist = vc.data('history', lambda r: [(r.choice(['compose', 'compose', 'supports']), mixed_tree(E, r, rel, pld, r.randint(0, 3)), r.choice([1, 1, 2])) for _ in range(r.randint(1, 5 if not pld else 3))])
    # tree aggregation and large compositions are cheap enough on a coarse grid
    acc = vc.mod(PLDA).PLDAccountant(R, 0.2) if pld else vc.mod(RDP).RdpAccountant([1.5, 2, 8, 32.5], R)
    want = []
    def loss(): return [acc.get_epsilon(1e-200), acc.get_epsilon(1e-3), acc.get_epsilon(.2), acc.get_delta(.5), acc.get_delta(2.0)]
    def same(a, b): return all(x == y or x != x and y != y for x, y in zip(a, b))
    for what, ev, k in hist:
        before, led = loss(), acc.ledger
        ok = supported_tree(E, ev, rel, pld)
        vc.prove('supports answers what is supported', acc.supports(ev) == ok)
        vc.prove('supports changes nothing', same(loss(), before) and acc.ledger == led)
        if what == 'supports': continue
        if ok:
            vc.prove('compose returns the accountant', acc.compose(ev, k) is acc)
            want = squeeze(want + expand(E, ev, k))
        else:
            vc.raises('compose rejects', pa.UnsupportedEventError, acc.compose, ev, k)
            vc.prove('a rejected event leaves the loss', same(loss(), before))
            vc.prove('a rejected event leaves the ledger', acc.ledger == led)
        vc.prove('the ledger is exactly what was composed', squeeze(expand(E, acc.ledger)) == want)


def oracle_pld(vc, E, parts, R, step):
    """composition of one distribution per event, each composed with itself one by one; None if non-private"""
    P = vc.mod(PLDM)
    total, n = P.identity(value_discretization_interval=step), 0
    for e, k in parts:
        q = 1.0
        if isinstance(e, E.NoOpDpEvent): continue
        if isinstance(e, E.NonPrivateDpEvent): return None, 0
        if isinstance(e, E.PoissonSampledDpEvent):
            q, e = e.sampling_probability, e.event
            if q == 0: continue
        if isinstance(e, E.RandomizedResponseDpEvent):
            if e.num_buckets == 1 or e.noise_parameter == 1: continue
            if e.noise_parameter == 0: return None, 0
            p = P.from_randomized_response(e.noise_parameter, e.num_buckets, value_discretization_interval=step, neighboring_relation=R)
        elif isinstance(e, E.MixtureOfGaussiansDpEvent):
            if all(s == 0 for s in e.sensitivities): continue
            if e.standard_deviation == 0: return None, 0
            p = P.from_mixture_gaussian_mechanism(e.standard_deviation, e.sensitivities, e.sampling_probs, value_discretization_interval=step)
        elif e.noise_multiplier == 0: return None, 0
        elif isinstance(e, E.GaussianDpEvent): p = P.from_gaussian_mechanism(e.noise_multiplier, value_discretization_interval=step, sampling_prob=q)
        else: p = P.from_laplace_mechanism(e.noise_multiplier, value_discretization_interval=step, sampling_prob=q)
        for _ in range(k): total = total.compose(p)
        n += k
    return total, n


@harness('P05', ['PLDAccountant.compose', 'PLDAccountant.get_epsilon', 'PLDAccountant.get_delta'], kind='bounded', runs=250, budget=50, bound='random histories of up to 3 compose calls over event trees of depth <= 2, at most 60 compositions, answers compared up to the discretisation')
def pld_histories_compose_everything(vc):
    m, E, pa = vc.mod(PLDA), vc.mod(EV), vc.mod(PA)
    rel = vc.choice('relation', RELATIONS)
    R = getattr(pa.NeighboringRelation, rel)
    def leaf(r):
        q = r.random()
        if q < .05: return E.NonPrivateDpEvent()
        if q < .1: return r.choice([E.GaussianDpEvent(0.0), E.LaplaceDpEvent(0), E.MixtureOfGaussiansDpEvent(0.0, [1.0], [1.0])] + ([E.RandomizedResponseDpEvent(0.0, 3)] if rel != 'ADD_OR_REMOVE_ONE' else []) + ([E.PoissonSampledDpEvent(.5, E.GaussianDpEvent(0.0)), E.PoissonSampledDpEvent(.5, E.LaplaceDpEvent(0.0))] if rel != 'REPLACE_ONE' else []))
        if q < .2: return r.choice([E.NoOpDpEvent(), E.MixtureOfGaussiansDpEvent(1.0, [0.0], [1.0])] + ([E.RandomizedResponseDpEvent(r.choice([0.0, .5]), 1), E.RandomizedResponseDpEvent(1.0, 4)] if rel != 'ADD_OR_REMOVE_ONE' else []) + ([E.PoissonSampledDpEvent(0.0, r.choice([E.GaussianDpEvent(r.choice([0.0, 1.0])), E.LaplaceDpEvent(2.0)]))] if rel != 'REPLACE_ONE' else []))
        e = base_event(E, r, rel, True)
        if isinstance(e, (E.GaussianDpEvent, E.LaplaceDpEvent)): e = type(e)(max(.6, e.noise_multiplier))
        if isinstance(e, E.PoissonSampledDpEvent): e = E.PoissonSampledDpEvent(e.sampling_probability, type(e.event)(max(.6, e.event.noise_multiplier)))
        if isinstance(e, E.MixtureOfGaussiansDpEvent): e = E.MixtureOfGaussiansDpEvent(max(.6, e.standard_deviation), e.sensitivities, e.sampling_probs)
        return e
    hist = vc.data('history', lambda r: [(acc_tree(E, r, rel, r.randint(0, 2), True, lambda: leaf(r)), r.choice([1, 1, 2, 3])) for _ in range(r.randint(1, 3))])
    parts = [p for ev, c in hist for p in leaves(E, ev, c)]
    if sum(k for _, k in parts) > 60 or sum(k for e, k in parts if isinstance(e, E.MixtureOfGaussiansDpEvent)) > 12: vc.assume(False)
    step = .05
    want, n = oracle_pld(vc, E, parts, R, step)
    acc = m.PLDAccountant(R, step)
    for ev, c in hist: vc.prove('compose returns the accountant', acc.compose(ev, c) is acc)
    if want is None:
        vc.prove('non-private for ever', acc.get_epsilon(.5) == INF and acc.get_delta(3.0) == 1)
        return
    if n == 0:
        vc.prove('nothing is released', acc.get_epsilon(0.0) == 0 and acc.get_delta(0.0) <= 1e-12 and acc.get_epsilon(1e-6) == 0)
        return
    slack = step * (n + 1)
    for eps in (0.0, .3, 1.0, 3.0, 10.0):
        d = acc.get_delta(eps)
        vc.prove('delta is that of the composition', vc.and_(vc.le(want.get_delta_for_epsilon(eps + slack), d, atol=1e-9, rtol=1e-6), vc.le(d, want.get_delta_for_epsilon(eps - slack), atol=1e-9, rtol=1e-6)))
    for delta in (1e-4, .05):
        e = acc.get_epsilon(delta)
        vc.prove('epsilon is that of the composition', abs(e - want.get_epsilon_for_delta(delta)) <= slack + 1e-6)
