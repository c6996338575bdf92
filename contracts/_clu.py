"""Noise stand-ins, points and prefixes for the clustering contracts."""
import math
from pyvc import stubs

stubs.install()

CP, CU, PC = 'clustering.clustering_params', 'clustering.central_privacy_utils', 'clustering.privacy_calculator'
LH, LT, CO, CA, DP = 'clustering.lsh', 'clustering.lsh_tree', 'clustering.coreset_params', 'clustering.clustering_algorithm', 'clustering.default_clustering_params'
INF = math.inf


class Noise:
    """Replaces the two sources of noise; every draw is recorded with its parameters."""
    def __init__(self, vc, dim, fixed=False):
        self.vc, self.dim, self.counts, self.sums, self.k = vc, dim, [], [], 0
        self.values = None
        self.real_normal = None
        if vc.sym:
            vc.model('stats.dlaplace.rvs', self.dlaplace)
            vc.model('np.random.normal', self.normal)
        else:
            import numpy, scipy.stats
            self.real_normal = numpy.random.normal
            vc.patch(scipy.stats.dlaplace, 'rvs', self.dlaplace)
            vc.patch(numpy.random, 'normal', self.normal)
        if fixed: self.values = fixed

    def dlaplace(self, a, loc=0, size=None, random_state=None):
        vc = self.vc
        if self.values: v = self.values[0]
        else:
            self.k += 1
            v = vc.int(f'count noise {self.k}', gen=lambda r: r.choice([0, 0, 1, -1, 3, -3, 10, -20]))
        self.counts.append((a, v))
        return v + loc

    def normal(self, loc=0.0, scale=1.0, size=None):
        vc = self.vc
        if isinstance(size, tuple): return self.real_normal(loc, scale, size)   # projections
        if self.values:
            import numpy
            v = numpy.full(size, self.values[1])
        elif vc.sym:
            self.k += 1
            v = vc.real(f'sum noise {self.k}')
        else:
            import numpy
            self.k += 1
            v = numpy.array(vc.array(f'sum noise {self.k}', self.dim, gen=lambda r, i: r.choice([0.0, r.gauss(0, 1), r.gauss(0, 100)])))
        self.sums.append((scale, size, v))
        return v + loc


class Prefix:
    """a hash prefix of any length"""
    _vc_symbolic = True
    def __init__(self, n, more=''): self.n, self.more = n, more
    def __vc_len__(self): return self.n + len(self.more)
    def __add__(self, c):
        if not isinstance(c, str): return NotImplemented
        return Prefix(self.n, self.more + c)
    def __str__(self): return '<prefix>' + self.more


def prefix(vc, name='prefix length', hi=5):
    if vc.sym: return Prefix(vc.int(name, ge=0))
    n = vc.int(name, ge=0, gen=lambda r: r.randint(0, hi))
    return ''.join('01'[i % 2] for i in range(n))


def extends(vc, p, base):
    """p is base and one more character: that character, or None"""
    if vc.sym: return p.more[len(base.more):] if isinstance(p, Prefix) and p.n is base.n and len(p.more) == len(base.more) + 1 and p.more.startswith(base.more) else None
    return p[-1] if p[:-1] == base and len(p) == len(base) + 1 else None


def gen_row(r, dim, i=0):
    k = r.random()
    if k < .1: return [0.0] * dim
    if k < .5: return [float(r.randint(-4, 4)) for _ in range(dim)]
    if k < .6: return [r.gauss(0, 1) * 10 ** r.uniform(-100, 100)] * dim
    s = 10 ** r.uniform(-3, 3)
    return [r.gauss(0, s) for _ in range(dim)]


def gen_small_row(r, dim, i=0): return [float(r.randint(-3, 3)) for _ in range(dim)]


def points(vc, name, n, dim, gen=gen_row): return vc.rows(name, n, dim, gen=gen)


def contains(vc, part, whole, j):
    """how many times row j of `whole` is in `part` (0 or 1 for a selection of rows, in a proof)"""
    if not vc.sym: return sum(1 for x in part if (x == whole[j]).all())
    from pyvc import seq, sym
    i = seq.zint(j)
    b = part.coord
    base = b.base if isinstance(b, seq.Filtered) else b
    keep = vc.and_(vc.eq(base.elem(i), whole.coord.elem(i)), vc.eq((part.norm.base if isinstance(b, seq.Filtered) else part.norm).elem(i), whole.norm.elem(i)))
    inside = sym.mkbool(sym.tz(b.mask.elem(i))) if isinstance(b, seq.Filtered) else True
    if not isinstance(b, seq.Filtered): vc.prove('as many rows as the whole', vc.eq(b.n, whole.coord.n))
    vc.prove('rows are kept as they are', keep)
    return vc.ite(inside, 1, 0)


def multiplicity(vc, whole, j):
    if vc.sym: return 1
    return sum(1 for x in whole if (x == whole[j]).all())


def size(vc, part): return part.shape[0]


def row_dot(vc, x, j, d, k):
    if vc.sym:
        from pyvc import seq
        return x.dot(k).elem(seq.zint(j))
    return math.fsum(float(a) * float(b) for a, b in zip(x[j], d[k]))


def row_norm(vc, x, j):
    if vc.sym:
        from pyvc import seq
        return x.norm.elem(seq.zint(j))
    return math.hypot(*[float(a) for a in x[j]])


def coords(vc, x, j):
    """the coordinates of a row (in a proof: an arbitrary one)"""
    if vc.sym:
        from pyvc import seq
        return [x.coord.elem(seq.zint(j))]
    return [float(a) for a in x[j]]


def vector(vc, v, dim): return [v] if vc.sym else [float(a) for a in v]


def column_sum(vc, x, n, dim):
    if vc.sym: return [vc.Sum(0, n, lambda i: coords(vc, x, i)[0])]
    return [math.fsum(float(x[i][c]) for i in range(n)) for c in range(dim)]


def no_noise(vc, std, sens, param):
    """a privacy calculator with the given noise"""
    cp, pc, cu = vc.mod(CP), vc.mod(PC), vc.mod(CU)
    c = pc.PrivacyCalculator(cp.DifferentialPrivacyParam(INF, 0.5), 1.0, 1, cp.PrivacyCalculatorMultiplier())
    c.average_privacy_param = cu.AveragePrivacyParam(std, sens)
    c.count_privacy_param = cu.CountPrivacyParam(param)
    return c
