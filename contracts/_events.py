"""Generators of events, opaque events (induction hypotheses) and structural comparison."""
import math
from pyvc.vc import Skip

EV = 'dp_accounting.dp_event'
SCALARS = {  # class -> scalar fields; event and list fields are handled separately
    'NoOpDpEvent': [], 'NonPrivateDpEvent': [], 'UnsupportedDpEvent': [],
    'RandomizedResponseDpEvent': ['noise_parameter', 'num_buckets'],
    'GaussianDpEvent': ['noise_multiplier'], 'LaplaceDpEvent': ['noise_multiplier'],
    'SelfComposedDpEvent': ['event', 'count'], 'ComposedDpEvent': ['events'],
    'PoissonSampledDpEvent': ['sampling_probability', 'event'],
    'SampledWithReplacementDpEvent': ['source_dataset_size', 'sample_size', 'event'],
    'SampledWithoutReplacementDpEvent': ['source_dataset_size', 'sample_size', 'event'],
    'SingleEpochTreeAggregationDpEvent': ['noise_multiplier', 'step_counts'],
    'RepeatAndSelectDpEvent': ['event', 'mean', 'shape'],
    'MixtureOfGaussiansDpEvent': ['standard_deviation', 'sensitivities', 'sampling_probs'],
}
INTS = {'num_buckets', 'count', 'source_dataset_size', 'sample_size'}

_leaf = {}


def leaf_class(E):
    """an event class the library knows nothing about, standing for any event (induction hypothesis)"""
    if E not in _leaf:
        import attr
        @attr.s(frozen=True, slots=True, auto_attribs=True)
        class LeafDpEvent(E.DpEvent):
            uid: int
        LeafDpEvent.__module__ = __name__
        _leaf[E] = LeafDpEvent
    return _leaf[E]


def same(vc, a, b):
    """structural equality of field values / events; types included"""
    if vc.sym:
        from pyvc import seq, sym
        if isinstance(a, seq.Seq) or isinstance(b, seq.Seq):
            from pyvc import npshim
            if isinstance(a, seq.Seq) != isinstance(b, seq.Seq) and not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)): return False
            la, lb = vc.length(a), vc.length(b)
            return vc.eq(la, lb)   # elements are compared by the caller with vc.forall
        if isinstance(a, (sym.Num, sym.Bool)) or isinstance(b, (sym.Num, sym.Bool)):
            return vc.eq(a, b) if sym.lift(a) is not None and sym.lift(b) is not None else False
    import attr
    if type(a) is not type(b): return False
    if attr.has(type(a)):
        return vc.and_(*[same(vc, getattr(a, f.name), getattr(b, f.name)) for f in attr.fields(type(a))]) if attr.fields(type(a)) else True
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and (vc.and_(*[same(vc, x, y) for x, y in zip(a, b)]) if len(a) else True)
    return vc.same(a, b)


def real(r):
    return r.choice([0.0, 0.5, 1.0, 2.0, 0.1, 1e-3, 3.5, 10.0, 7.0, r.uniform(0, 5), 10 ** r.uniform(-6, 6)])


def scalar(r, f):
    if f in INTS: return r.choice([1, 2, 3, 5, 10, 1000, 0]) if f != 'count' else r.choice([1, 1, 2, 3, 7])
    if f == 'step_counts': return r.choice([r.randint(1, 50), [r.randint(1, 40) for _ in range(r.randint(1, 4))]])
    if f in ('sensitivities', 'sampling_probs'): return None
    v = real(r)
    return r.choice([v, v, int(v)]) if r.random() < .3 else v


def tree(E, r, depth, classes=None, tuples=True, maxlen=4):
    """a random event tree"""
    names = classes or list(SCALARS)
    for _ in range(50):
        c = r.choice(names)
        fs = SCALARS[c]
        if depth <= 0 and ('event' in fs or 'events' in fs): continue
        break
    else: c = 'GaussianDpEvent'; fs = SCALARS[c]
    kw = {}
    for f in fs:
        if f == 'event': kw[f] = tree(E, r, depth - 1, classes, tuples, maxlen)
        elif f == 'events':
            es = [tree(E, r, depth - 1, classes, tuples, maxlen) for _ in range(r.randint(0, maxlen))]
            if es and r.random() < .4: es += [es[r.randrange(len(es))]] * r.randint(1, 2)
            kw[f] = tuple(es) if tuples and r.random() < .3 else es
        elif f not in ('sensitivities', 'sampling_probs'): kw[f] = scalar(r, f)
    if c == 'MixtureOfGaussiansDpEvent':
        k = r.randint(1, 4)
        ps = [r.random() + 1e-3 for _ in range(k)]
        kw['sensitivities'] = [abs(real(r)) for _ in range(k)]
        kw['sampling_probs'] = [p / sum(ps) for p in ps]
        if r.random() < .3: kw = {k2: tuple(v) if isinstance(v, list) else v for k2, v in kw.items()}
    return getattr(E, c)(**kw)
