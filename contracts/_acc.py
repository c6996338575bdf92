"""Shared parts of the accountant contracts."""
import math
from contracts._events import EV, leaf_class, tree

RDP = 'dp_accounting.rdp.rdp_privacy_accountant'
PLDA = 'dp_accounting.pld.pld_privacy_accountant'
PA = 'dp_accounting.privacy_accountant'
INF = math.inf
RELATIONS = ['ADD_OR_REMOVE_ONE', 'REPLACE_ONE', 'REPLACE_SPECIAL']
RDP_PARTS = ['_compute_rdp_poisson_subsampled_gaussian', '_compute_rdp_sample_wor_gaussian', '_compute_rdp_single_epoch_tree_aggregation',
             '_laplace_rdp', '_compute_rdp_repeat_and_select', '_compute_randomized_response_rdp']


def relation(vc, name='relation'):
    return getattr(vc.mod(PA).NeighboringRelation, vc.choice(name, RELATIONS))


def opaque_parts(vc, m):
    """the per-mechanism RDP functions, each an arbitrary function of its arguments (proof mode only)"""
    if not vc.sym: return
    def arr(name):
        def f(*a, **k):
            c = f.calls; f.calls += 1
            n = f.n()
            return vc.array(f'{name}_{c}', n, ge=0, inf=True)
        f.calls = 0
        return f
    def scal(name):
        def f(*a, **k):
            from pyvc import sym
            import z3
            zs = [sym.toreal(sym.lift(x).z) for x in a]
            r = sym.Num(sym.uf(name, *[z.sort() for z in zs], z3.RealSort())(*zs), pinf=sym.uf(name + '_inf', *[z.sort() for z in zs], z3.BoolSort())(*zs), npy=True)
            sym.CTX.add(sym.zb(sym.Num._le(sym.lift(0), r)))
            return r
        return f
    return arr, scal


def arbitrary_parts(vc, m, n):
    if not vc.sym: return
    arr, scal = opaque_parts(vc, m)
    for p in RDP_PARTS:
        if not hasattr(m, p): continue
        if p == '_laplace_rdp': vc.stub(m, p, scal(p)); continue
        f = arr(p)
        f.n = lambda: n
        vc.stub(m, p, f)
        vc.memo(m, p)


def single(E, vc, c):
    """an event of class c without sub-events, arbitrary parameters"""
    if c == 'GaussianDpEvent': return E.GaussianDpEvent(vc.real('sigma', ge=0))
    if c == 'LaplaceDpEvent': return E.LaplaceDpEvent(vc.real('b', ge=0))
    if c == 'RandomizedResponseDpEvent': return E.RandomizedResponseDpEvent(vc.real('p', ge=0, le=1), vc.int('buckets', ge=1))
    if c == 'SingleEpochTreeAggregationDpEvent': return E.SingleEpochTreeAggregationDpEvent(vc.real('sigma', ge=0), vc.int('steps', ge=1, le=None if vc.sym else 40))
    if c == 'PoissonSampledDpEvent': return E.PoissonSampledDpEvent(vc.real('q', ge=0, le=1), E.GaussianDpEvent(vc.real('sigma', ge=0)))
    if c == 'PoissonSampledLaplace': return E.PoissonSampledDpEvent(vc.real('q', ge=0, le=1), E.LaplaceDpEvent(vc.real('b', ge=0)))
    if c == 'SampledWithoutReplacementDpEvent':
        s = vc.int('sample', ge=1, le=None if vc.sym else 20)
        return E.SampledWithoutReplacementDpEvent(s + vc.int('rest', ge=0, le=None if vc.sym else 20), s, E.GaussianDpEvent(vc.real('sigma', ge=0)))
    if c == 'SampledWithReplacementDpEvent': return E.SampledWithReplacementDpEvent(vc.int('n_src', ge=1), vc.int('sample', ge=1), E.GaussianDpEvent(vc.real('sigma', ge=0)))
    if c == 'MixtureOfGaussiansDpEvent': return E.MixtureOfGaussiansDpEvent(vc.real('sigma', ge=0), [vc.real('s0', ge=0), vc.real('s1', ge=0)], [0.25, 0.75])
    if c == 'UnsupportedDpEvent': return E.UnsupportedDpEvent()
    if c == 'NoOpDpEvent': return E.NoOpDpEvent()
    if c == 'NonPrivateDpEvent': return E.NonPrivateDpEvent()
    raise KeyError(c)


# ------------------------------------------------------------------ concrete event generators
def good_param(r): return r.choice([0.5, 1.0, 2.0, 1, 3, 0.1, 10.0, r.uniform(.3, 8), r.uniform(.5, 3)])


def base_event(E, r, rel, pld=False):
    """an event both supported by the accountant and without unbounded cost"""
    opts = ['g', 'g', 'l', 'noop']
    if rel != 'REPLACE_ONE': opts += ['pg', 'pg']
    if pld and rel != 'REPLACE_ONE': opts += ['pl']
    if rel != 'ADD_OR_REMOVE_ONE': opts += ['rr', 'rr']
    if pld: opts += ['mog']
    else:
        if rel == 'REPLACE_ONE': opts += ['wor', 'wor']
        if rel == 'REPLACE_SPECIAL': opts += ['tree']
        opts += ['rs']
    c = r.choice(opts)
    if c == 'g': return E.GaussianDpEvent(good_param(r))
    if c == 'l': return E.LaplaceDpEvent(good_param(r))
    if c == 'noop': return E.NoOpDpEvent()
    if c == 'pg':
        s = E.GaussianDpEvent(good_param(r))
        if not pld and r.random() < .4: s = r.choice([E.SelfComposedDpEvent(s, r.randint(1, 4)), E.ComposedDpEvent([s, E.GaussianDpEvent(good_param(r))])])
        return E.PoissonSampledDpEvent(r.choice([0.0, 1.0, .01, .1, .5, r.random()]), s)
    if c == 'pl': return E.PoissonSampledDpEvent(r.choice([0.0, 1.0, .01, .1, .5, r.random()]), E.LaplaceDpEvent(good_param(r)))
    if c == 'rr': return E.RandomizedResponseDpEvent(r.choice([1.0, .5, .1, r.uniform(.01, 1)]), r.choice([1, 2, 3, 10]))
    if c == 'mog':
        k = r.randint(1, 3)
        ps = [r.random() + .05 for _ in range(k)]
        return E.MixtureOfGaussiansDpEvent(good_param(r), [r.choice([0.0, 1.0, 2.0, r.uniform(.2, 2)]) for _ in range(k - 1)] + [r.choice([1.0, r.uniform(.2, 2)])], [p / sum(ps) for p in ps])
    if c == 'wor':
        n = r.randint(2, 100)
        return E.SampledWithoutReplacementDpEvent(n, r.randint(1, n), E.GaussianDpEvent(good_param(r)))
    if c == 'tree': return E.SingleEpochTreeAggregationDpEvent(good_param(r), r.choice([r.randint(1, 40), [r.randint(1, 20) for _ in range(r.randint(1, 3))]]))
    if c == 'rs': return E.RepeatAndSelectDpEvent(acc_tree(E, r, rel, 1, leaf=lambda: r.choice([E.GaussianDpEvent(good_param(r)), E.LaplaceDpEvent(good_param(r))])), r.uniform(1, 5), r.choice([0, 1, .5, INF, 2.0]))
    raise KeyError(c)


def acc_tree(E, r, rel, depth, pld=False, leaf=None):
    leaf = leaf or (lambda: base_event(E, r, rel, pld))
    if depth <= 0 or r.random() < .25: return leaf()
    if r.random() < .45: return E.SelfComposedDpEvent(acc_tree(E, r, rel, depth - 1, pld, leaf), r.choice([1, 2, 3, 5]))
    es = [acc_tree(E, r, rel, depth - 1, pld, leaf) for _ in range(r.randint(0, 3))]
    if es and r.random() < .4: es.append(r.choice(es))
    return E.ComposedDpEvent(es)


def leaves(E, e, k=1):
    """[(primitive event, multiplicity)]"""
    if isinstance(e, E.SelfComposedDpEvent): return leaves(E, e.event, k * e.count)
    if isinstance(e, E.ComposedDpEvent): return [p for x in e.events for p in leaves(E, x, k)]
    return [(e, k)]
