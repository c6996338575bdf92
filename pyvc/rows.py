"""Matrices of symbolic shape (n rows of dim coordinates), seen one row at a time.

A row enters the code under contract only through its norm, its inner products with a vector and one
arbitrary coordinate: all three scale with the row, so a matrix is kept as parallel sequences of them.
A vector (a sum or a mean of rows) is its value at the arbitrary coordinate."""
import z3
from .sym import *
from .sym import CTX
from .seq import *
from .seq import Seq, Filtered, elementwise, mknum, zint
from . import npshim
from .npshim import NP, s_sqrt, np_sum


def ew(f, *a): return elementwise(f, *a)


class Rows:
    _vc_symbolic = True
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 2
    dtype = float

    def __init__(self, n, dim, coord, norm, dot):
        self._n, self.dim, self.coord, self.norm, self.dot = n, dim, coord, norm, dot
    @property
    def shape(self): return (self._n, self.dim)
    @property
    def size(self): return self._n * self.dim
    def __vc_len__(self): return self._n
    def __len__(self): raise Unsupported('len of a symbolic matrix')
    def __bool__(self): raise Unsupported('truth value of an array')
    def __repr__(self): return f'<Rows {self._n}x{self.dim}>'
    def scale(self, c):
        if isinstance(c, Rows): raise Unsupported('product of matrices')
        return Rows(self._n, self.dim, self.coord * c, self.norm * abs_(c), lambda k: self.dot(k) * c)
    def __mul__(self, c): return self.scale(c)
    __rmul__ = __mul__
    def __truediv__(self, c):
        # x / c = x * (1 / c) for a nonzero finite c; checked elementwise by the division of the coordinate
        return Rows(self._n, self.dim, self.coord / c, self.norm / abs_(c), lambda k: self.dot(k) / c)
    def __neg__(self): return self.scale(-1)
    def __pow__(self, k):
        if k != 2: raise Unsupported('power of a matrix')
        return Squares(self)
    def copy(self): return self
    def astype(self, *a, **k): return self
    def __getitem__(self, m):
        if isinstance(m, tuple) and len(m) == 2 and isinstance(m[1], slice) and m[1] == slice(None): m = m[0]
        if not isinstance(m, (Seq, Filtered)): raise Unsupported(f'row index {m!r}')
        if isinstance(m, Filtered):
            b = m.base
            if not isinstance(self.coord, Filtered): raise Unsupported('filtered index of an unfiltered matrix')
            outer = m.mask
            both = elementwise(npshim.s_and, outer, b)
            g = lambda s: Filtered(s.base, both)
            return Rows(npshim.count_true(both), self.dim, g(self.coord), g(self.norm), lambda k: g(self.dot(k)))
        if not npshim.is_bool_seq(m): raise Unsupported('fancy index')
        g = lambda s: s[m]
        return Rows(npshim.count_true(m), self.dim, g(self.coord), g(self.norm), lambda k: g(self.dot(k)))
    def sum(self, axis=None): return rows_sum(self, axis)
    def mean(self, axis=None): return rows_sum(self, axis) / self._n
    def dot_(self, v): return matmul(self, v)
    def __matmul__(self, v): return matmul(self, v)


class Squares:
    """the squared coordinates of a matrix; only their sum over a row is known"""
    _vc_symbolic = True
    def __init__(self, rows): self.rows = rows
    def sum(self, axis=None, **k): return rows_sum(self, axis)


class Direction:
    """the k-th of a list of vectors"""
    _vc_symbolic = True
    def __init__(self, k): self.k = k


class Directions:
    _vc_symbolic = True
    def __init__(self, n, dim): self.n, self.dim = n, dim
    @property
    def shape(self): return (self.n, self.dim)
    def __vc_len__(self): return self.n
    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[1] == slice(None): k = k[0]
        k = lift(k)
        if k is None: raise Unsupported('index of the projections')
        if k < 0: k = k + self.n
        if (k < 0) or (k >= self.n): raise IndexError('index out of bounds')
        return Direction(k)


def abs_(c):
    if isinstance(c, (Seq, Filtered)): return ew(abs, c)
    return abs(c)


def rows_sum(x, axis):
    if isinstance(x, Squares):
        if axis not in (-1, 1): raise Unsupported('sum of squares')
        return x.rows.norm * x.rows.norm
    if axis != 0: raise Unsupported('sum over the coordinates')
    return np_sum(x.coord)


def matmul(a, b):
    if isinstance(a, Rows) and isinstance(b, Direction): return a.dot(b.k)
    raise Unsupported('matrix product')


def norm(x, ord=None, axis=None, keepdims=False):
    if not isinstance(x, Rows) or axis not in (-1, 1) or ord not in (None, 2): raise Unsupported('norm')
    return x.norm


def rows(name, n, dim):
    co, no = z3.Function(name, z3.IntSort(), z3.RealSort()), z3.Function(name + '_norm', z3.IntSort(), z3.RealSort())
    dt = z3.Function(name + '_dot', z3.IntSort(), z3.RealSort(), z3.RealSort())
    s = lambda f: Seq(n, lambda j: Num(f(j), npy=True), 'array')
    # a norm is at least the size of each coordinate
    CTX.add_universal(z3.IntVal(0), zint(n), lambda j: z3.And(no(j) >= 0, no(j) >= co(j), no(j) >= -co(j)))
    return Rows(n, dim, s(co), s(no), lambda k: s(lambda j: dt(j, toreal(lift(k).z))))


def install():
    old = dict(NP)
    def over(name, f):
        o = old.get(name)
        def g(x, *a, **k):
            if isinstance(x, (Rows, Squares)): return f(x, *a, **k)
            if o is None: raise Unsupported(f'no model of {name}')
            return o(x, *a, **k)
        NP[name] = g
    over('sum', lambda x, axis=None, **k: rows_sum(x, axis))
    over('shape', lambda x: x.shape)
    over('array', lambda x, *a, **k: x)
    over('asarray', lambda x, *a, **k: x)
    over('square', lambda x: x ** 2)
    NP['matmul'] = NP['dot2'] = matmul
    o = old.get('dot')
    NP['dot'] = lambda a, b: matmul(a, b) if isinstance(a, Rows) else o(a, b)
    npshim.SUB['linalg.norm'] = norm


_done = []


def install_once():
    if not _done:
        _done.append(1); install()
