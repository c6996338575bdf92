"""P20, P21, P22: private clustering."""
import math
from pyvc.vc import harness
from contracts._clu import *


# ------------------------------------------------------------------ P22
@harness('P22', ['Data.clip_by_radius', 'Data.__post_init__'], runs=400)
def clipping_bounds_the_norm_and_keeps_the_rest(vc):
    cp = vc.mod(CP)
    n = vc.int('n', ge=0, gen=lambda r: r.choice([0, 1, 1, 2, 3, 5, 9]))
    dim = vc.int('dim', ge=1, le=None if vc.sym else 4)
    r = vc.real('radius', gt=0, gen=lambda r: r.choice([1.0, 5.0, 2.0, 10 ** r.uniform(-3, 3)]))
    x = points(vc, 'x', n, dim)
    other = vc.choice('points given', [False, True])
    d = cp.Data(points(vc, 'own', vc.int('m', ge=1, le=None if vc.sym else 3), dim) if other else x, r)
    if not other: vc.prove('the shape is that of the points', vc.and_(vc.eq(d.num_points, n), vc.eq(d.dim, dim)))
    kind, y = vc.call(d.clip_by_radius, *([x] if other else []))
    vc.prove('every set of points can be clipped', kind == 'ok')
    vc.prove('clipping keeps the number of points', vc.eq(size(vc, y), n))
    def row(j):
        a, b = row_norm(vc, x, j), row_norm(vc, y, j)
        return vc.le(b, r, rtol=1e-12, atol=0)
    vc.forall('clipped points are within the radius', 0, n, row)
    vc.forall('points within the radius are unchanged', 0, n, lambda j: vc.implies(row_norm(vc, x, j) <= (r if vc.sym else r * (1 - 1e-12)), lambda: vc.and_(*[vc.eq(a, b, rtol=0, atol=0) for a, b in zip(coords(vc, x, j), coords(vc, y, j))])))
    vc.forall('points outside the radius keep their direction', 0, n, lambda j: vc.implies(row_norm(vc, x, j) > r, lambda: vc.and_(*[vc.eq(b * (row_norm(vc, x, j) / r), a, rtol=1e-12, atol=0) for a, b in zip(coords(vc, x, j), coords(vc, y, j))])))


@harness('P22', ['get_private_count', 'CountPrivacyParam'], runs=200)
def the_private_count_is_the_count_and_noise(vc):
    cu = vc.mod(CU)
    c = vc.int('count', ge=0)
    a = vc.real('laplace parameter', inf=True, gen=lambda r: r.choice([1.0, 0.0, -1.0, 10 ** r.uniform(-5, 3)]))
    z = Noise(vc, 1)
    kind, p = vc.call(cu.CountPrivacyParam, a)
    if kind == 'exc':
        vc.prove('only parameters that are not positive are refused', vc.and_(isinstance(p, ValueError), vc.not_(a > 0)))
        return
    vc.prove('the parameter is positive', a > 0)
    v = cu.get_private_count(c, p)
    if vc.case(vc.isinf(a)):
        vc.prove('without noise the count is exact', vc.eq(v, c))
        return
    vc.prove('one draw of noise', len(z.counts) == 1)
    vc.prove('the noise has the given parameter', vc.eq(z.counts[0][0], a, rtol=0, atol=0))
    vc.prove('the count is the number of points and the noise', vc.eq(v, c + z.counts[0][1]))


@harness('P22', ['get_private_average', 'AveragePrivacyParam'], runs=300)
def the_private_average_is_the_noised_sum_over_the_private_count(vc):
    cu = vc.mod(CU)
    n = vc.int('n', ge=0, gen=lambda r: r.choice([0, 1, 2, 3, 7]))
    dim = vc.int('dim', ge=1, le=None if vc.sym else 4)
    x = points(vc, 'x', n, dim, gen_small_row)
    if not vc.sym and vc.choice('integers', [False, False, True]): x = x.astype(int)
    std, sens = vc.real('std', gen=lambda r: r.choice([0.0, -1.0, 10 ** r.uniform(-3, 3)])), vc.real('sens', gen=lambda r: r.choice([0.0, -1.0, 1.0, 10 ** r.uniform(-3, 3)]))
    c = vc.int('private count', gen=lambda r: r.choice([-5, 0, 1, 2, 3, 4, 10, 1000]))
    z = Noise(vc, dim)
    kind, p = vc.call(cu.AveragePrivacyParam, std, sens)
    if kind == 'exc':
        vc.prove('only negative noise or a sensitivity that is not positive is refused', vc.and_(isinstance(p, ValueError), vc.or_(std < 0, sens <= 0)))
        return
    vc.prove('parameters are valid', vc.and_(std >= 0, sens > 0))
    kind, v = vc.call(cu.get_private_average, x, c, p, dim)
    if kind == 'exc':
        vc.prove('only private counts below 1 are refused', vc.and_(isinstance(v, ValueError), c < 1))
        return
    vc.prove('the private count is at least 1', c >= 1)
    vc.prove('one draw of noise', len(z.sums) == 1)
    scale, sz, noise = z.sums[0]
    vc.prove('the noise has the calibrated standard deviation', vc.eq(scale, std, rtol=0, atol=0))
    vc.prove('noise is drawn for every coordinate', vc.eq(sz, dim))
    s = column_sum(vc, x, n, dim)
    for got, a, b in zip(vector(vc, v, dim), s, vector(vc, noise, dim)):
        vc.prove('the average is the noised sum divided by the private count', vc.eq(got * c, a + b, rtol=1e-9, atol=1e-9))


def make_node(vc, n, dim, x, hi=5, gen=gen_small_row):
    """a node over the points x, its tree parameters and its noise"""
    lh, lt, co, cp = vc.mod(LH), vc.mod(LT), vc.mod(CO), vc.mod(CP)
    p = prefix(vc, hi=hi)
    M = vc.int('max hash length', ge=0, gen=lambda r: r.randint(0, 6))
    if not vc.sym: vc.assume(M >= 1)
    dirs = vc.directions('projections', M, dim, gen=gen)
    sim = lh.SimHash(dim, M, dirs)
    a = vc.real('laplace parameter', gt=0, inf=True)
    std = vc.real('std', ge=0)
    pc = no_noise(vc, std, 1.0, a)
    z = Noise(vc, dim)
    return p, M, dirs, sim, a, std, pc, z


@harness('P22', ['LshTreeNode.get_private_count', 'LshTreeNode.get_private_average', 'LshTreeNode.__post_init__'], runs=200)
def nodes_release_one_noised_count_and_average(vc):
    lt = vc.mod(LT)
    n = vc.int('n', ge=0, gen=lambda r: r.choice([0, 1, 2, 3, 7]))
    dim = vc.int('dim', ge=1, le=None if vc.sym else 4)
    x = points(vc, 'x', n, dim, gen_small_row)
    p, M, dirs, sim, a, std, pc, z = make_node(vc, n, dim, x)
    given = vc.choice('count given', [False, True])
    kw = {'private_count': vc.int('private count', gen=lambda r: r.choice([-2, 0, 1, 5]))} if given else {}
    node = lt.LshTreeNode(p, x, vc.mod(CO).CoresetParam(pc, vc.mod(CP).TreeParam(2, 1, M), '', 1.0), sim, **kw)
    c = node.private_count
    if given:
        vc.prove('a given private count is used', vc.and_(vc.eq(c, kw['private_count']), len(z.counts) == 0))
    elif vc.case(vc.isinf(a)):
        vc.prove('without noise the count is exact', vc.eq(c, n))
    else:
        vc.prove('one draw of noise for the count, of the calibrated parameter', len(z.counts) == 1 and vc.eq(z.counts[0][0], a, rtol=0, atol=0))
        vc.prove('the count is the number of points of the node and the noise', vc.eq(c, n + z.counts[0][1]))
    vc.prove('the count is released once', vc.and_(vc.eq(node.get_private_count(), c), len(z.counts) <= 1))
    kind, v = vc.call(node.get_private_average)
    if kind == 'exc':
        vc.prove('only private counts below 1 have no average', vc.and_(isinstance(v, ValueError), c < 1))
        return
    vc.prove('one draw of noise for the sum', len(z.sums) == 1)
    scale, sz, noise = z.sums[0]
    vc.prove('with the calibrated standard deviation, for every coordinate', vc.and_(vc.eq(scale, std, rtol=0, atol=0), vc.eq(sz, dim)))
    s = column_sum(vc, x, n, dim)
    for got, q, b in zip(vector(vc, v, dim), s, vector(vc, noise, dim)):
        vc.prove('the average is the noised sum divided by the private count of the node', vc.eq(got * c, q + b, rtol=1e-9, atol=1e-9))
    again = vector(vc, node.get_private_average(), dim)
    vc.prove('the average is released once', vc.and_(len(z.sums) == 1, *[vc.eq(p_, q_, rtol=0, atol=0) for p_, q_ in zip(again, vector(vc, v, dim))]))


# ------------------------------------------------------------------ P21
@harness('P21', ['SimHash.group_by_next_hash'], runs=300)
def the_next_hash_partitions_the_points(vc):
    lh = vc.mod(LH)
    n = vc.int('n', ge=0, gen=lambda r: r.choice([0, 1, 2, 3, 7, 20]))
    dim = vc.int('dim', ge=1, le=None if vc.sym else 4)
    x = points(vc, 'x', n, dim, gen_small_row)
    M = vc.int('max hash length', ge=0, gen=lambda r: r.randint(1, 6))
    dirs = vc.directions('projections', M, dim, gen=gen_small_row)
    sim = lh.SimHash(dim, M, dirs)
    p = prefix(vc)
    L = vc.int('prefix length copy') if False else (p.n if vc.sym else len(p))
    kind, g = vc.call(sim.group_by_next_hash, x, p)
    if kind == 'exc':
        vc.prove('only prefixes of the maximal length are refused', vc.and_(isinstance(g, ValueError), L >= M))
        return
    vc.prove('the prefix is shorter than the maximal length', L < M)
    vc.prove('one character per group', all(isinstance(k, str) and len(k) == 1 for k in g))
    vc.forall('every point is in exactly one group', 0, n, lambda j: vc.eq(sum(contains(vc, v, x, j) for v in g.values()), multiplicity(vc, x, j)))
    if not vc.sym: vc.prove('groups hold nothing else', sum(len(v) for v in g.values()) == n)
    vc.forall('points are grouped by the sign of the next projection', 0, n, lambda j: vc.and_(
        vc.implies(row_dot(vc, x, j, dirs, L) > 0, lambda: contains(vc, g['0'], x, j) >= 1), vc.implies(row_dot(vc, x, j, dirs, L) < 0, lambda: contains(vc, g['1'], x, j) >= 1)))


@harness('P21', ['LshTreeNode.children', 'SimHash.group_by_next_hash'], runs=300)
def children_partition_the_points_of_their_parent(vc):
    lt = vc.mod(LT)
    n = vc.int('n', ge=0, gen=lambda r: r.choice([0, 1, 2, 3, 7, 20]))
    dim = vc.int('dim', ge=1, le=None if vc.sym else 4)
    x = points(vc, 'x', n, dim, gen_small_row)
    p, M, dirs, sim, a, std, pc, z = make_node(vc, n, dim, x)
    param = vc.mod(CO).CoresetParam(pc, vc.mod(CP).TreeParam(2, 1, M), '', 1.0)
    node = lt.LshTreeNode(p, x, param, sim, private_count=vc.int('private count', gen=lambda r: r.choice([0, 1, 5, -3])))
    L = p.n if vc.sym else len(p)
    kind, kids = vc.call(node.children)
    if kind == 'exc':
        vc.prove('only nodes of the maximal depth have no children', vc.and_(isinstance(kids, ValueError), L >= M))
        return
    vc.prove('the node is above the maximal depth', L < M)
    chars = [extends(vc, k.hash_prefix, p) for k in kids]
    vc.prove('children extend the prefix by one character, each a different one', None not in chars and len(set(chars)) == len(chars))
    vc.forall('every point is in exactly one child', 0, n, lambda j: vc.eq(sum(contains(vc, k.nonprivate_points, x, j) for k in kids), multiplicity(vc, x, j)))
    if not vc.sym: vc.prove('children hold nothing else', sum(len(k.nonprivate_points) for k in kids) == n)
    for k in kids: vc.prove('children use the parameters of their parent', k.coreset_param is param and k.sim_hash is sim and k.private_average is None)
    if vc.case(vc.isinf(a)):
        for k in kids: vc.prove('without noise counts are exact', vc.eq(k.private_count, size(vc, k.nonprivate_points)))
        return
    vc.prove('every child is counted once', len(z.counts) == len(kids))
    for k, (q, v) in zip(kids, z.counts):
        vc.prove('counts have the calibrated noise', vc.eq(q, a, rtol=0, atol=0))
        vc.prove('the count of a child is the number of its points and noise', vc.eq(k.private_count, size(vc, k.nonprivate_points) + v))


def hash_of(x, dirs, L): return ''.join('0' if math.fsum(float(a) * float(b) for a, b in zip(x, dirs[k])) >= 0 else '1' for k in range(L))


def gen_tree(r):
    dim = r.choice([1, 2, 2, 3])
    n = r.choice([0, 1, 2, 3, 5, 8, 15, 30])
    x = [gen_small_row(r, dim) for _ in range(n)]
    if r.random() < .3: x = [r.choice(x) for _ in x] if x else x
    depth = r.choice([0, 1, 1, 2, 3, 4, 6])
    lo = r.choice([1, 1, 2, 3, 5])
    return {'dim': dim, 'x': x, 'depth': depth, 'branch': lo + r.choice([0, 0, 1, 2, 6]), 'node': lo, 'dirs': [gen_small_row(r, dim) for _ in range(depth)],
            'noise': r.choice([0, 0, 1, 2, -1, 5]), 'vary': r.random() < .4, 'root': r.choice([None, None, 1, 3, 50, 0, -2]), 'seed': r.randint(0, 10 ** 6),
            'shift': r.choice([0.0, 1.0, -3.5]), 'a': r.choice([0.5, 2.0]), 'std': r.choice([0.0, 1.5]), 'radius': r.choice([1.0, 2.0, 10.0])}


def tree_setting(vc, d, noise=None):
    import numpy as np, random
    lh, lt, co, cp = vc.mod(LH), vc.mod(LT), vc.mod(CO), vc.mod(CP)
    x = np.array(d['x'], dtype=float).reshape(len(d['x']), d['dim'])
    tp = cp.TreeParam(min_num_points_in_branching_node=d['branch'], min_num_points_in_node=d['node'], max_depth=d['depth'])
    pc = no_noise(vc, d['std'], d['radius'], d['a'])
    param = co.CoresetParam(pc, tp, 'test', d['radius'])
    z = Noise(vc, d['dim'], fixed=(d['noise'], d['shift']))
    if d['vary']:
        r = random.Random(d['seed'])
        real = z.dlaplace
        def vary(a, *k, **kw):
            z.values = (r.choice([0, 0, 1, -1, 4, -6, 12]), d['shift'])
            return real(a, *k, **kw)
        import scipy.stats
        scipy.stats.dlaplace.rvs = vary
    sim = lh.SimHash(d['dim'], d['depth'], np.array(d['dirs'], dtype=float).reshape(d['depth'], d['dim']))
    return x, tp, param, z, sim


@harness('P21', ['LshTree.__init__', 'LshTree.is_leaf', 'LshTree.get_next_level', 'LshTree.filter_branching_nodes', 'root_node'], kind='bounded', runs=1500, budget=12, shards=2,
         bound='up to 30 points in up to 3 dimensions, depth up to 6')
def every_level_of_the_tree_partitions_points(vc):
    import numpy as np
    lt, cp = vc.mod(LT), vc.mod(CP)
    d = vc.data('tree', gen_tree)
    x, tp, param, z, sim = tree_setting(vc, d)
    root = lt.LshTreeNode('', x, param, sim, private_count=d['root'])
    if d['root'] is None: vc.prove('the root is counted once', len(z.counts) == 1 and root.private_count == len(x) + z.counts[0][1])
    kind, t = vc.call(lt.LshTree, root)
    if root.private_count < 1:
        vc.prove('a root without points is refused', kind == 'exc' and isinstance(t, ValueError)); return
    vc.prove('a tree is built', kind == 'ok')
    levels = t.tree
    vc.prove('the depth is at most the maximum', sorted(levels) == list(range(len(levels))) and len(levels) - 1 <= d['depth'])
    nodes = [n for l in levels.values() for n in l]
    branching = 0
    for l, ns in levels.items():
        pre = [n.hash_prefix for n in ns]
        vc.prove('nodes of a level have distinct prefixes of its length', len(set(pre)) == len(pre) and all(len(p) == l and set(p) <= {'0', '1'} for p in pre))
        vc.prove('levels are not empty', len(ns) > 0)
        for n in ns:
            mine = [row for row in d['x'] if hash_of(row, d['dirs'], l) == n.hash_prefix]
            vc.prove('a node holds the points with its hash prefix', sorted(map(tuple, np.asarray(n.nonprivate_points).tolist())) == sorted(map(tuple, [list(map(float, m)) for m in mine])))
            if l:
                vc.prove('nodes have enough points', n.private_count >= d['node'])
                par = [m for m in levels[l - 1] if m.hash_prefix == n.hash_prefix[:-1]]
                vc.prove('the parent is in the tree and has enough points to branch', len(par) == 1 and par[0].private_count >= d['branch'])
            if n.private_count >= d['branch'] and l < d['depth']: branching += 1
    vc.prove('nodes are counted once, when their parent branches', len(z.counts) == (d['root'] is None) + 2 * branching)
    vc.prove('counts have the calibrated noise', all(a == d['a'] for a, v in z.counts))
    if not d['vary']:
        vc.prove('private counts are the numbers of points and noise', all(n.private_count == len(n.nonprivate_points) + d['noise'] for n in nodes if n is not root))
        for l, ns in levels.items():
            if l < d['depth']:
                kids = {n.hash_prefix for n in levels.get(l + 1, [])}
                want = {n.hash_prefix + c for n in ns if n.private_count >= d['branch'] for c in '01' if sum(hash_of(row, d['dirs'], l + 1) == n.hash_prefix + c for row in d['x']) + d['noise'] >= d['node']}
                vc.prove('the next level holds the children with enough points', kids == want)
    has = {n.hash_prefix[:-1] for n in nodes if n.hash_prefix}
    want = [n for n in nodes if n.hash_prefix not in has]
    vc.prove('leaves are the nodes without children', sorted(n.hash_prefix for n in t.leaves) == sorted(n.hash_prefix for n in want) and all(any(n is m for m in nodes) for n in t.leaves))
    vc.prove('no point is in two leaves', sum(len(n.nonprivate_points) for n in t.leaves) <= len(x))
    vc.prove('building the tree releases no averages', not z.sums)


def clip(p, r):
    n = math.hypot(*p)
    return [c * (r / n) for c in p] if n > r else list(p)


def reference_coreset(rows, dirs, dim, branch, node, depth, radius, noise, shift, root):
    """the documented algorithm with constant noise: (points, weights) of the leaves"""
    level = [('', rows, root)]
    leaves = []
    for l in range(depth + 1):
        nxt = []
        for p, mine, c in level:
            kids = []
            if l < depth and c >= branch:
                for ch in '01':
                    sub = [row for row in mine if (math.fsum(a * b for a, b in zip(row, dirs[l])) >= 0) == (ch == '0')]
                    if len(sub) + noise >= node: kids.append((p + ch, sub, len(sub) + noise))
            if kids: nxt += kids
            else: leaves.append((clip([(math.fsum(r_[k] for r_ in mine) + shift) / c for k in range(dim)], radius), c))
        level = nxt
    return leaves


def agree(got, want, tol=1e-9):
    a = sorted((tuple(float(v) for v in p), float(w)) for p, w in got)
    b = sorted((tuple(p), float(w)) for p, w in want)
    if len(a) != len(b): return False
    used = set()
    for p, w in a:
        for i, (q, v) in enumerate(b):
            if i not in used and w == v and all(abs(s - t) <= tol * (1 + abs(t)) for s, t in zip(p, q)): used.add(i); break
        else: return False
    return True


@harness(['P22', 'P21'], ['get_private_coreset', 'LshTreeNode.get_private_average'], kind='bounded', runs=1500, budget=12,
         bound='up to 30 points in up to 3 dimensions, depth up to 6')
def the_coreset_holds_noised_values_only(vc):
    import numpy as np
    ca, cp = vc.mod(CA), vc.mod(CP)
    d = vc.data('tree', gen_tree)
    d['vary'] = False
    x, tp, param, z, sim = tree_setting(vc, d)
    keep = z.real_normal
    z.real_normal = lambda loc, scale, size: np.array(d['dirs'], dtype=float).reshape(size)
    data = cp.Data(x, d['radius'])
    c = ca.get_private_coreset(data, param, d['root'])
    first = len(x) + d['noise'] if d['root'] is None else d['root']
    want = reference_coreset(d['x'], d['dirs'], d['dim'], d['branch'], d['node'], d['depth'], d['radius'], d['noise'], d['shift'], max(1, first))
    vc.prove('weights are the private counts and points the clipped private averages of the leaves', agree(zip(np.asarray(c.datapoints), np.asarray(c.weights)), want))
    vc.prove('one noised sum per leaf, of the calibrated standard deviation', len(z.sums) == len(want) and all(s == d['std'] and k == d['dim'] for s, k, v in z.sums))
    vc.prove('counts have the calibrated noise', all(a == d['a'] for a, v in z.counts))
    vc.prove('the coreset is within the radius', all(math.hypot(*p) <= d['radius'] * (1 + 1e-12) for p in np.asarray(c.datapoints).tolist()))


def gen_run(r):
    d = gen_tree(r)
    d['eps'] = r.choice([INF] * 6 + [1.0, 5.0])
    d['delta'] = r.choice([1.0, 1e-5]) if d['eps'] == INF else r.choice([1e-6, 1e-5, 1.0])
    d['tree'] = r.random() < .7
    d['k'] = r.choice([1, 2, 5])
    d['mult'] = r.choice([None, (1.0, 20.0), (3.0, 2.0)])
    d['labels'] = r.random() < .3
    if d['tree'] and r.random() < .1:
        d['depth'] = r.choice([21, 25, 40])
        d['dirs'] = [gen_small_row(r, d['dim']) for _ in range(d['depth'])]
    if not d['tree'] or d['depth'] > 8: d['noise'] = min(0, d['noise'])     # positive noise at every node would fill a tree of depth 20
    if r.random() < .5: d['x'] = [[v * r.choice([1, 1, 30]) for v in p] for p in d['x']]
    return d


@harness(['P22', 'P20', 'P21'], ['private_lsh_clustering', 'default_tree_param', 'get_private_coreset'], kind='bounded', runs=300, budget=40, shards=2,
         bound='up to 30 points in up to 3 dimensions, depth up to 6 or the default')
def clustering_releases_what_it_accounts_for(vc):
    import numpy as np, sklearn.cluster
    ca, cp = vc.mod(CA), vc.mod(CP)
    d = vc.data('run', gen_run)
    d['vary'] = False
    x, tp, param, z, sim = tree_setting(vc, d)
    rg = np.random.RandomState(d['seed'])
    drawn = []
    def project(loc, scale, size):
        v = np.round(rg.normal(size=size) * 8)
        drawn.append(v)
        return v
    z.real_normal = project
    data = cp.Data(x, d['radius'], labels=np.zeros(len(x), dtype=int) if d['labels'] else None)
    before = x.copy()
    priv = cp.DifferentialPrivacyParam(d['eps'], d['delta'])
    mult = cp.PrivacyCalculatorMultiplier(*d['mult']) if d['mult'] else None
    seen = {}
    class KMeans:
        def __init__(self, n_clusters=8, **k): seen['k'] = n_clusters
        def fit(self, p, y=None, sample_weight=None):
            seen['p'], seen['w'] = np.array(p), np.array(sample_weight)
            self.cluster_centers_ = np.array(p)[:seen['k']]
            return self
    vc.patch(sklearn.cluster, 'KMeans', KMeans)
    res = ca.private_lsh_clustering(d['k'], data, priv, tree_param=tp if d['tree'] else None, multipliers=mult)
    vc.prove('only the coreset is clustered', 'p' in seen and np.array_equal(res.centers, seen['p'][:seen['k']]))
    vc.prove('the data is left as it was', np.array_equal(x, before))
    private = not (d['eps'] == INF or d['delta'] >= 1)
    depth = d['depth'] if d['tree'] else 20
    # what was drawn is what the accounting assumes
    stds, params = sorted({float(q) for q, k, v in z.sums}), sorted({float(q) for q, v in z.counts})
    vc.prove('one noised sum per point of the coreset, all with the same noise', len(z.sums) == len(seen['p']) and len(stds) == 1 and all(k == d['dim'] for q, k, v in z.sums))
    std = stds[0]
    if private:
        vc.prove('all counts have the same noise', len(params) == 1 and params[0] < INF)
        a = params[0]
        vc.prove('sums are noised', std > 0)
        acct = vc.mod('dp_accounting.pld.pld_privacy_accountant').PLDAccountant()
        E = vc.mod('dp_accounting.dp_event')
        acct.compose(E.GaussianDpEvent(std / d['radius'])).compose(E.LaplaceDpEvent(1 / a), depth + 1)
        vc.prove('the noise drawn for the sums and for the counts of every level keeps to the budget', acct.get_delta(d['eps']) <= d['delta'] * (1 + 1e-9) and acct.get_epsilon(d['delta']) <= d['eps'] * (1 + 1e-9))
    else: vc.prove('without privacy there is no noise', std == 0 and not z.counts)
    vc.prove('one set of projections for the tree', len(drawn) == 1 and drawn[0].shape == (depth, d['dim']))
    noise = d['noise'] if private else 0
    rows = [clip(p, d['radius']) for p in x.tolist()]
    if any(abs(math.fsum(u * v for u, v in zip(p, q))) < 1e-9 * (1 + math.hypot(*p)) and any(p) and any(q) for p in rows for q in drawn[0].tolist()): return   # the side of a projection is a matter of rounding
    root = len(rows) + noise
    if d['tree']: branch, node = d['branch'], d['node']
    else:
        low = int(10 * math.sqrt(d['dim']) * std / d['radius'])
        node = max(1, min(low, root // (2 * d['k'])))
        branch = 3 * node
    want = reference_coreset(rows, drawn[0].tolist(), d['dim'], branch, node, depth, d['radius'], noise, d['shift'], max(1, root))
    vc.prove('the coreset is that of the clipped points: noised averages and private counts of the leaves', agree(zip(seen['p'], seen['w']), want, 1e-6))
    levels = depth + 1
    vc.prove('every point is counted at most once per level', len(z.counts) <= 2 ** levels)


# ------------------------------------------------------------------ P20
def event_terms(vc, e, E):
    """[(leaf event, count)] of a composition"""
    if isinstance(e, E.ComposedDpEvent): return [t for x in e.events for t in event_terms(vc, x, E)]
    if isinstance(e, E.SelfComposedDpEvent): return [(x, k * e.count) for x, k in event_terms(vc, e.event, E)]
    if isinstance(e, E.NoOpDpEvent): return []
    return [(e, 1)]


def accounts_for(vc, e, E, std, a, sens, depth):
    t = event_terms(vc, e, E)
    gauss = [x for x in t if isinstance(x[0], E.GaussianDpEvent)]
    lap = [x for x in t if isinstance(x[0], E.LaplaceDpEvent)]
    non = [x for x in t if isinstance(x[0], E.NonPrivateDpEvent)]
    vc.prove('only sums and counts are accounted for', len(gauss) + len(lap) + len(non) == len(t))
    if vc.case(std == 0): vc.prove('sums without noise are not private', len(gauss) == 0 and len(non) >= 1)
    else:
        vc.prove('one Gaussian mechanism for the sums', len(gauss) == 1 and vc.eq(gauss[0][1], 1))
        vc.prove('its noise is that added to the sums, in units of the sensitivity', vc.eq(gauss[0][0].noise_multiplier * sens, std, rtol=1e-12, atol=0))
    if vc.case(vc.isinf(a)): vc.prove('counts without noise are not private', len(lap) == 0 and len(non) >= 1)
    else:
        vc.prove('one Laplace mechanism for the counts', len(lap) == 1)
        vc.prove('once per level of the tree', vc.eq(lap[0][1], depth + 1))
        vc.prove('its noise is that added to the counts', vc.eq(lap[0][0].noise_multiplier * a, 1, rtol=1e-12, atol=0))


def gen_scale(r): return r.choice([1.0, 5.4, 0.2, 10 ** r.uniform(-4, 4)])


@harness('P20', ['make_clustering_event'], runs=300)
def the_event_has_the_noise_that_is_added(vc):
    pc, E = vc.mod(PC), vc.mod('dp_accounting.dp_event')
    std = vc.real('std', ge=0, gen=lambda r: r.choice([0.0, gen_scale(r)]))
    a = vc.real('laplace parameter', gt=0, inf=True, gen=gen_scale)
    sens = vc.real('sensitivity', gt=0, gen=gen_scale)
    depth = vc.int('depth', ge=0, le=None if vc.sym else 50)
    e = pc.make_clustering_event(std, a, sens, depth)
    accounts_for(vc, e, E, std, a, sens, depth)


def multipliers(vc):
    return vc.mod(CP).PrivacyCalculatorMultiplier(vc.real('sum multiplier', gt=0, gen=gen_scale), vc.real('count multiplier', gt=0, gen=gen_scale))


@harness('P20', ['make_clustering_event_from_param', 'PrivacyCalculatorMultiplier', 'make_clustering_event'], runs=300)
def multipliers_determine_the_noise(vc):
    pc, E = vc.mod(PC), vc.mod('dp_accounting.dp_event')
    m = multipliers(vc)
    alpha = vc.real('alpha', gt=0, gen=gen_scale)
    sens = vc.real('sensitivity', gt=0, gen=gen_scale)
    depth = vc.int('depth', ge=0, le=None if vc.sym else 50)
    std, a = m.get_gaussian_std_dev(alpha, sens), m.get_laplace_param(alpha)
    vc.prove('the standard deviation is the multiplier times alpha and the sensitivity', vc.eq(std, m.gaussian_std_dev_multiplier * alpha * sens, rtol=1e-12, atol=0))
    vc.prove('the Laplace parameter is the inverse of the multiplier times alpha', vc.eq(a * (m.laplace_param_multiplier * alpha), 1, rtol=1e-12, atol=0))
    vc.prove('alpha is recovered from the standard deviation', vc.eq(m.get_alpha(std, sens), alpha, rtol=1e-12, atol=0))
    accounts_for(vc, pc.make_clustering_event_from_param(m, sens, depth, alpha), E, std, a, sens, depth)


def gen_budget(r):
    return r.choice([(INF, 1e-5), (1.0, 1.0), (INF, 1.0), (r.choice([0.1, 1.0, 10.0, 10 ** r.uniform(-1.3, 1.5)]), r.choice([1e-6, 1e-2, 10 ** r.uniform(-9, -1)]))])


@harness('P20', ['PrivacyCalculator.__init__'], internal=True)
def the_calculator_keeps_the_calibrated_noise(vc):
    """calibration enters by its contract (P18): the event of the parameter it returns is within the target"""
    pc, cp, E = vc.mod(PC), vc.mod(CP), vc.mod('dp_accounting.dp_event')
    MC, PA = vc.mod('dp_accounting.mechanism_calibration'), vc.mod('dp_accounting.pld.pld_privacy_accountant')
    eps, delta = vc.real('epsilon', ge=0, inf=True), vc.real('delta', ge=0)
    radius = vc.real('radius', gt=0)
    depth = vc.int('depth', ge=0)
    m = multipliers(vc)
    alpha, calls, guess = vc.real('alpha', gt=0), [], vc.real('smallest Gaussian noise', gt=0)
    def calibrate(make_fresh_accountant, make_event_from_param, target_epsilon, target_delta, bracket_interval=None, discrete=False, tol=None):
        vc.prove('calibration is for the accountant of the budget check', make_fresh_accountant is PA.PLDAccountant or isinstance(make_fresh_accountant(), PA.PLDAccountant))
        vc.prove('calibration has the requested target', vc.and_(vc.eq(target_epsilon, eps), vc.eq(target_delta, delta)))
        vc.prove('the parameter is continuous', discrete is False)
        vc.prove('the search is bracketed by positive parameters', bracket_interval is None or vc.and_(bracket_interval.endpoint_1 > 0, bracket_interval.endpoint_2 > 0) if not isinstance(bracket_interval, MC.LowerEndpointAndGuess) else vc.and_(bracket_interval.lower_endpoint > 0, bracket_interval.initial_guess > bracket_interval.lower_endpoint))
        calls.append(make_event_from_param(alpha))
        return alpha
    vc.patch(MC, 'calibrate_dp_mechanism', calibrate)
    vc.patch(pc.accountant, 'get_smallest_gaussian_noise', lambda *a, **k: guess)
    c = pc.PrivacyCalculator(cp.DifferentialPrivacyParam(eps, delta), radius, depth, m)
    std, a = c.average_privacy_param.gaussian_standard_deviation, c.count_privacy_param.laplace_param
    vc.prove('the sensitivity is the radius', vc.eq(c.average_privacy_param.sensitivity, radius))
    if vc.case(vc.or_(vc.isinf(eps), delta >= 1)):
        vc.prove('no noise without a budget', vc.and_(std == 0, vc.isinf(a)))
        return
    vc.prove('the noise is calibrated', len(calls) == 1)
    accounts_for(vc, calls[0], E, std, a, radius, depth)


@harness('P20', ['PrivacyCalculator.validate_accounting'], internal=True)
def budgets_that_are_exceeded_are_rejected(vc):
    """the accountant is any accountant (P05): it composes events and gives some epsilon and delta"""
    pc, cp, E = vc.mod(PC), vc.mod(CP), vc.mod('dp_accounting.dp_event')
    PA = vc.mod('dp_accounting.pld.pld_privacy_accountant')
    eps, delta = vc.real('epsilon', ge=0, inf=True), vc.real('delta', ge=0)
    e2, d2 = vc.real('accounted epsilon', ge=0, inf=True), vc.real('accounted delta', ge=0)
    std, a, sens = vc.real('std', ge=0), vc.real('laplace parameter', gt=0, inf=True), vc.real('sensitivity', gt=0)
    depth = vc.int('depth', ge=0)
    composed = []
    class Accountant:
        def __init__(self, *a, **k): pass
        def compose(self, e, count=1):
            composed.append(e if isinstance(count, int) and count == 1 else E.SelfComposedDpEvent(e, count))
            return self
        def get_epsilon(self, d):
            vc.prove('epsilon is asked at the requested delta', vc.eq(d, delta)); return e2
        def get_delta(self, x):
            vc.prove('delta is asked at the requested epsilon', vc.eq(x, eps)); return d2
    vc.patch(PA, 'PLDAccountant', Accountant)
    c = no_noise(vc, std, sens, a)
    kind, v = vc.call(c.validate_accounting, cp.DifferentialPrivacyParam(eps, delta), depth)
    if vc.case(vc.or_(vc.isinf(eps), delta >= 1)):
        vc.prove('an infinite budget is never exceeded', kind == 'ok'); return
    ev = E.ComposedDpEvent(composed)
    accounts_for(vc, ev, E, std, a, sens, depth)
    over = vc.or_(e2 > eps, d2 > delta)
    vc.prove('a budget that is exceeded is rejected', vc.implies(over, kind == 'exc' and isinstance(v, ValueError)))
    vc.prove('a budget that is kept is accepted', vc.implies(vc.not_(over), kind == 'ok'))


@harness(['P20', 'P22'], ['private_lsh_clustering'], internal=True)
def nothing_is_released_before_the_budget_is_checked(vc):
    ca, cp, cu, dp = vc.mod(CA), vc.mod(CP), vc.mod(CU), vc.mod(DP)
    n, dim = vc.int('n', ge=0), vc.int('dim', ge=1)
    x = points(vc, 'x', n, dim)
    r = vc.real('radius', gt=0)
    data = cp.Data(x, r)
    priv = cp.DifferentialPrivacyParam(vc.real('epsilon', ge=0, inf=True), vc.real('delta', ge=0))
    over = vc.bool('over the budget')
    given = vc.choice('tree parameters given', [True, False])
    depth = vc.int('depth', ge=0)
    tp = cp.TreeParam(2, 1, depth)
    mult = vc.choice('multipliers given', [True, False])
    m = multipliers(vc) if mult else None
    log = []
    class Calculator:
        average_privacy_param = cu.AveragePrivacyParam(vc.real('std', ge=0), r)
        count_privacy_param = cu.CountPrivacyParam(vc.real('laplace parameter', gt=0, inf=True))
        def __init__(self, p, radius, max_depth, multipliers):
            log.append('calibrated')
            self.depth = max_depth
            vc.prove('the noise is calibrated for the requested budget and the radius of the data', vc.and_(p is priv, vc.eq(radius, r)))
            vc.prove('with the given multipliers', multipliers is m if m is not None else multipliers == cp.PrivacyCalculatorMultiplier())
        def validate_accounting(self, p, max_depth):
            log.append('validated')
            vc.prove('the budget is checked for the requested parameters and the calibrated depth', vc.and_(p is priv, vc.eq(max_depth, self.depth)))
            if vc.case(over): raise ValueError('over the budget')
    class Stop(Exception): pass
    pcount = vc.int('private count')
    def tree_param(k, d, pcalc, max_depth):
        vc.prove('the private count is released after the check', log == ['calibrated', 'validated'])
        log.append('counted')
        vc.prove('the tree is as deep as accounted for', vc.eq(max_depth, pcalc.depth))
        return cp.TreeParam(2, 1, max_depth), pcount
    def coreset(d, param, count=None):
        log.append('coreset')
        vc.prove('the coreset is released after the check', log[:2] == ['calibrated', 'validated'])
        vc.prove('the noise is the calibrated one', isinstance(param.pcalc, Calculator))
        vc.prove('the tree has at most the accounted depth', vc.le(param.tree_param.max_depth, param.pcalc.depth))
        vc.prove('the root is counted once', (count is None) == ('counted' not in log) and (count is None or vc.eq(count, pcount)))
        vc.prove('as many points as in the data', vc.eq(d.num_points, n))
        vc.prove('the radius is that of the calibration', vc.eq(d.radius, r))
        vc.forall('points of the coreset are clipped to the radius', 0, n, lambda j: vc.le(row_norm(vc, d.datapoints, j), r))
        raise Stop()
    vc.patch(ca.privacy_calculator, 'PrivacyCalculator', Calculator)
    vc.patch(ca.default_clustering_params, 'default_tree_param', tree_param)
    vc.patch(ca, 'get_private_coreset', coreset)
    kind, v = vc.call(ca.private_lsh_clustering, vc.int('k', ge=1), data, priv, tree_param=tp if given else None, multipliers=m)
    vc.prove('the clustering stops at an exceeded budget, and only there', kind == 'exc' and (vc.implies(over, isinstance(v, ValueError)) if not isinstance(v, Stop) else vc.not_(over)))


@harness('P20', ['PrivacyCalculator.__init__', 'PrivacyCalculator.validate_accounting', 'get_alpha_interval'], kind='bounded', runs=60, budget=40, shards=2, bound='seeded budgets, radii, depths and multipliers')
def calibrated_noise_keeps_to_the_budget(vc):
    pc, cp, E = vc.mod(PC), vc.mod(CP), vc.mod('dp_accounting.dp_event')
    PA = vc.mod('dp_accounting.pld.pld_privacy_accountant')
    eps, delta = vc.data('budget', gen_budget)
    radius = vc.real('radius', gt=0, gen=lambda r: r.choice([1.0, 7.2, 10 ** r.uniform(-3, 3)]))
    depth = vc.int('depth', ge=0, le=25)
    m = cp.PrivacyCalculatorMultiplier(*vc.data('multipliers', lambda r: r.choice([(1.0, 20.0), (3.5, 2.1), (10 ** r.uniform(-1, 1), 10 ** r.uniform(0, 2))])))
    p = cp.DifferentialPrivacyParam(eps, delta)
    c = pc.PrivacyCalculator(p, radius, depth, m)
    std, a = c.average_privacy_param.gaussian_standard_deviation, c.count_privacy_param.laplace_param
    vc.prove('the sensitivity is the radius', c.average_privacy_param.sensitivity == radius)
    vc.prove('calibrated noise passes the check', vc.call(c.validate_accounting, p, depth)[0] == 'ok')
    if eps == INF or delta >= 1:
        vc.prove('no noise without a budget', std == 0 and a == INF); return
    vc.prove('the noise is in the proportion of the multipliers', vc.eq(std / radius * a, m.gaussian_std_dev_multiplier / m.laplace_param_multiplier))
    acct = PA.PLDAccountant()
    acct.compose(E.GaussianDpEvent(std / radius)).compose(E.LaplaceDpEvent(1 / a), depth + 1)
    vc.prove('the noise for the sums and for the counts of every level keeps to the budget', acct.get_delta(eps) <= delta * (1 + 1e-9) and acct.get_epsilon(delta) <= eps * (1 + 1e-9))
    # noise that is not enough is rejected
    f = vc.data('factor', lambda r: r.choice([0.5, 0.8, 0.9]))
    which = vc.choice('less noise', ['sums', 'counts', 'both', 'depth', 'none'])
    s2, a2, d2 = std, a, depth
    if which in ('sums', 'both'): s2 = std * f
    if which in ('counts', 'both'): a2 = a / f
    if which == 'depth': d2 = depth + 40
    if which == 'none': s2 = 0.0
    bad = no_noise(vc, s2, radius, a2)
    acct = PA.PLDAccountant()
    acct.compose(E.GaussianDpEvent(s2 / radius) if s2 else E.NonPrivateDpEvent()).compose(E.LaplaceDpEvent(1 / a2), d2 + 1)
    gd, ge = acct.get_delta(eps), acct.get_epsilon(delta)
    kind, v = vc.call(bad.validate_accounting, p, d2)
    if gd > delta * (1 + 1e-9) or ge > eps * (1 + 1e-9): vc.prove('a configuration over the budget is rejected', kind == 'exc' and isinstance(v, ValueError))


@harness('P20', ['make_clustering_event', 'get_private_count'], kind='finding')
def discrete_laplace_counts_are_accounted_as_continuous(vc):
    """counts get discrete Laplace noise, whose divergence exceeds that of the Laplace mechanism accounted for"""
    pc, cp = vc.mod(PC), vc.mod(CP)
    from dp_accounting.pld import privacy_loss_distribution as pld
    eps, delta, depth, m = 10.0, 1e-2, 3, cp.PrivacyCalculatorMultiplier(3.5, 2.1)
    c = pc.PrivacyCalculator(cp.DifferentialPrivacyParam(eps, delta), 1.0, depth, m)
    std, a = c.average_privacy_param.gaussian_standard_deviation, c.count_privacy_param.laplace_param
    d = pld.from_gaussian_mechanism(std, pessimistic_estimate=False).compose(pld.from_discrete_laplace_mechanism(a, pessimistic_estimate=False).self_compose(depth + 1))
    lower = d.get_delta_for_epsilon(eps)
    vc.prove('the mechanisms run keep to the requested budget', lower <= delta * (1 + 1e-6))
