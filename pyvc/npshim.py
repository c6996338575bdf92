"""Models of numpy / math / builtins on symbolic values; concrete calls fall through."""
import builtins
import math as _math
import types
import numpy as _np
import z3
from .sym import *
from .sym import CTX, _proves
from .seq import *
from .seq import Seq, Filtered, mknum, zint, elementwise, concat, npy, select, new_index, zsum, note_index
from . import poly as P


def symbolic(x, depth=0):
    if isinstance(x, (Num, Bool, Seq, Filtered)): return True
    if isinstance(x, (SymRange, SymZip, SymEnum, Lazy)): return True
    if hasattr(type(x), '_vc_symbolic'): return True
    if depth < 3:
        if isinstance(x, (list, tuple, set, frozenset)): return any(symbolic(y, depth + 1) for y in x)
        if isinstance(x, dict): return any(symbolic(y, depth + 1) for y in x.values()) or any(symbolic(y, depth + 1) for y in x)
    return False


def to_seq(x, kind='array'):
    if isinstance(x, Filtered): return x
    if isinstance(x, Seq):
        return x if x.kind == kind else Seq(x.n, x._elem, kind)
    if isinstance(x, SymRange): return x.seq(kind)
    if isinstance(x, Lazy): return x.seq()
    if isinstance(x, _np.ndarray):
        if x.ndim == 0: return x.item()
        if x.ndim > 1: raise Unsupported('2-d array')
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        x = list(x)
        if x and isinstance(x[0], (list, tuple, Seq)): raise Unsupported('nested array')
        return Seq(len(x), lambda j: select(x, j), kind)
    if isinstance(x, types.GeneratorType): return to_seq(list(x), kind)
    raise Unsupported(f'array from {type(x)}')


def is_seq(x): return isinstance(x, (Seq, Filtered, list, tuple, _np.ndarray, SymRange, Lazy)) and not (isinstance(x, _np.ndarray) and x.ndim == 0)


def is_bool_seq(s):
    t = new_index('b')
    v = s.elem(t)
    return isinstance(v, (Bool, bool, _np.bool_))


class Lazy:
    """A generator/comprehension over a symbolic sequence."""
    def __init__(self, seq): self._s = seq
    def seq(self): return self._s


class SymRange:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def seq(self, kind='list'):
        n = z3.simplify(self.hi - self.lo)
        if not _proves(n >= 0): n = z3.simplify(z3.If(n < 0, z3.IntVal(0), n))
        return Seq(mknum(n), lambda j: mknum(z3.simplify(self.lo + j)), kind)
    def __len__(self): raise Unsupported('len of symbolic range')


class SymZip:
    def __init__(self, seqs): self.seqs = seqs
    def seq(self):
        if any(isinstance(s, Filtered) for s in self.seqs):
            if not all(isinstance(s, Filtered) and same_mask(s.mask, self.seqs[0].mask) for s in self.seqs): raise Unsupported('zip of differently filtered sequences')
            r = Filtered(Seq(self.seqs[0].mask.n, lambda j: tuple(s.base.elem(j) for s in self.seqs), 'list'), self.seqs[0].mask)
            r.kind = 'list'
            return r
        n = self.seqs[0].n
        for s in self.seqs[1:]:
            if s.n is n: continue
            a, b = zint(n), zint(s.n)
            if not _proves(a == b): n = mknum(z3.simplify(z3.If(a <= b, a, b)))
        return Seq(n, lambda j: tuple(s.elem(j) for s in self.seqs), 'list')


class SymEnum(SymZip):
    pass


class Counter:
    """itertools.count with a symbolic start or step"""
    _vc_symbolic = True
    def __init__(self, start=0, step=1): self.start, self.step = lift(start), lift(step)
    def seq(self, n): return Seq(n, lambda j: n_add(self.start, n_mul(self.step, Num(z3.simplify(j)))), 'list')
    def __iter__(self): raise Unsupported('native iteration over a symbolic progression')


# -------------------------------------------------------------- scalar maps
def s_exp(a): return n_exp(lift(a))
def s_log(a): return n_log(lift(a))
def s_expm1(a): return n_add(n_exp(lift(a)), lift(-1))
def s_log1p(a): return n_log(n_add(lift(1), lift(a)))
def s_sqrt(a): return n_sqrt(lift(a))
def s_abs(a): return abs(a)
def s_min(a, b):
    x, y = lift(a), lift(b)
    r = ite(y._lt(x), b, a)
    if x.nan is False and y.nan is False: return r
    return ite(b_or(x.nan, y.nan), lift(_math.nan), r)
def s_max(a, b):
    x, y = lift(a), lift(b)
    r = ite(x._lt(y), b, a)
    if x.nan is False and y.nan is False: return r
    return ite(b_or(x.nan, y.nan), lift(_math.nan), r)
def s_floor(a):
    r = n_floor(lift(a).np()); return Num(toreal(r.z), r.pinf, r.ninf, r.nan, True)
def s_ceil(a):
    r = n_ceil(lift(a).np()); return Num(toreal(r.z), r.pinf, r.ninf, r.nan, True)
def s_isinf(a): a = lift(a); return mkbool(b_or(a.pinf, a.ninf))
def s_isnan(a): return mkbool(lift(a).nan)
def s_isfinite(a): return mkbool(lift(a).fin())
def s_isposinf(a): return mkbool(lift(a).pinf)
def s_isclose(a, b, rtol=1e-05, atol=1e-08):
    """numpy.isclose on reals: |a-b| <= atol + rtol*|b| (infinities equal)."""
    x, y = lift(a), lift(b)
    d = abs(n_sub(Num(x.z), Num(y.z)))
    t = n_add(lift(atol), n_mul(lift(rtol), abs(Num(y.z))))
    return mkbool(b_or(b_and(x.fin(), y.fin(), d._le(t)), b_and(b_not(b_and(x.fin(), y.fin())), x._eq(y))))
def m_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    x, y = lift(a), lift(b)
    d = abs(n_sub(Num(x.z), Num(y.z)))
    t1 = n_mul(lift(rel_tol), abs(Num(x.z))); t2 = n_mul(lift(rel_tol), abs(Num(y.z)))
    return mkbool(b_or(x._eq(y), b_and(x.fin(), y.fin(), b_or(d._le(t1), d._le(t2), d._le(lift(abs_tol))))))
def s_where(c, a, b): return ite(tz(c), a, b)
def s_not(a): return mkbool(b_not(tz(a)))
def s_and(a, b): return mkbool(b_and(tz(a), tz(b)))
def s_or(a, b): return mkbool(b_or(tz(a), tz(b)))
def s_clip(a, lo, hi):
    r = a
    if lo is not None: r = s_max(r, lo)
    if hi is not None: r = s_min(r, hi)
    return r


def ufunc(f, nargs=1):
    def g(*args, **kw):
        kw = {k: v for k, v in kw.items() if k in ('rtol', 'atol')}
        a = [to_seq(x) if is_seq(x) else x for x in args]
        ff = (lambda *v: f(*v, **kw)) if kw else f
        if any(isinstance(x, (Seq, Filtered)) for x in a): return elementwise(ff, *a)
        return ff(*[npy(x) if not isinstance(x, (Bool, bool)) else x for x in a])
    return g


# -------------------------------------------------------------- reductions
def num_elem(s, j):
    v = s.elem(j)
    n = lift(v)
    if n is None: raise Unsupported(f'sum of {v!r}')
    return n


def flags_at(s):
    t = new_index('f')
    v = num_elem(s, t)
    return v, t


def np_sum(x, axis=None, **kw):
    if isinstance(x, maps.Unordered): x = x.seq
    if lift(x) is not None and not is_seq(x): return x
    s = to_seq(x)
    if isinstance(s, Filtered):
        base, mask = s.base, s.mask
        return np_sum(Seq(mask.n, lambda j: ite(tz(mask.elem(j)), base.elem(j), 0)))
    return sum_range(z3.IntVal(0), s.zn, lambda j: num_elem(s, j))


def sum_range(lo, hi, at):
    """the sum of at(j) for lo <= j < hi"""
    t = new_index('f')
    v = at(t)
    rng = z3.And(t >= lo, t < hi)
    # infinite / nan elements
    fl = {}
    for nm in ('pinf', 'ninf', 'nan'):
        f = getattr(v, nm)
        if f is not False and _proves(z3.Implies(rng, z3.Not(zb(f)))): f = False
        fl[nm] = f
    def known(v): return Num(v.z, *[getattr(v, nm) if fl[nm] is not False else False for nm in ('pinf', 'ninf', 'nan')], v.npy)
    sm = zsum(lo, hi, lambda j: toreal(_mask_inf(known(at(j)))))
    def some(nm):
        if fl[nm] is False: return False
        b = CTX.fresh('some_' + nm, z3.BoolSort())
        w = CTX.fresh('wit_' + nm, z3.IntSort()); note_index(w)
        CTX.add(z3.Implies(b, z3.And(w >= lo, w < hi, zb(getattr(at(w), nm)))))
        CTX.add_universal(lo, hi, lambda j: z3.Implies(zb(getattr(at(j), nm)), b))
        return b
    p, n, na = some('pinf'), some('ninf'), some('nan')
    nan = b_or(na, b_and(p, n))
    return Num(sm, b_and(p, b_not(nan)), b_and(n, b_not(nan)), nan, True)


def _mask_inf(v):
    if v.plain: return v.z
    return z3.If(zb(v.fin()), toreal(v.z), z3.RealVal(0))


def count_true(mask):
    return Num(z3.ToInt(zsum(z3.IntVal(0), mask.zn, lambda j: z3.If(zb(tz(mask.elem(j))), z3.RealVal(1), z3.RealVal(0)))))


def np_dot(a, b):
    return np_sum(elementwise(lambda x, y: x * y, to_seq(a), to_seq(b)))


def nonempty(s, what):
    if isinstance(s.n, int):
        if s.n == 0: raise ValueError(f'{what} of empty sequence')
    elif CTX.branch(s.zn <= 0): raise ValueError(f'{what} of empty sequence')


def np_argext(s, better, what, first_nan=True):
    """index of the first optimum under the strict order better(x, y)."""
    s = to_seq(s)
    if isinstance(s, Filtered):
        mask, s = s.mask, s.base
        if not CTX.branch(zb(tz(np_any(mask)))): raise ValueError(f'{what} of empty sequence')
        v, t = flags_at(s)
        if v.nan is not False and not _proves(z3.Implies(z3.And(t >= 0, t < s.zn), z3.Not(zb(v.nan)))): raise Unsupported('reduction of a filtered array with NaN')
        a = CTX.fresh('arg', z3.IntSort()); note_index(a)
        CTX.add(z3.And(a >= 0, a < s.zn, zb(tz(mask.elem(a)))))
        CTX.add_universal(z3.IntVal(0), s.zn, lambda j: z3.Implies(zb(tz(mask.elem(j))), zb(b_not(better(num_elem(s, j), num_elem(s, a))))))
        return Num(a)
    nonempty(s, what)
    a = CTX.fresh('arg', z3.IntSort()); note_index(a)
    CTX.add(z3.And(a >= 0, a < s.zn))
    v, t = flags_at(s)
    hasnan = False
    if first_nan and v.nan is not False and not _proves(z3.Implies(z3.And(t >= 0, t < s.zn), z3.Not(zb(v.nan)))):
        b = CTX.fresh('hasnan', z3.BoolSort())
        CTX.add_universal(z3.IntVal(0), s.zn, lambda j: z3.Implies(zb(num_elem(s, j).nan), b))
        hasnan = CTX.branch(b)
    if hasnan:
        CTX.add(zb(num_elem(s, a).nan))
        CTX.add_universal(z3.IntVal(0), a, lambda j: z3.Not(zb(num_elem(s, j).nan)))
    else:
        CTX.add_universal(z3.IntVal(0), s.zn, lambda j: zb(b_not(better(num_elem(s, j), num_elem(s, a)))))
        CTX.add_universal(z3.IntVal(0), a, lambda j: zb(better(num_elem(s, a), num_elem(s, j))))
    return Num(a)


def settled(v):
    """v without the special values it provably does not take"""
    if not isinstance(v, Num) or v.plain: return v
    from . import discharge
    f = lambda b: False if isinstance(b, z3.ExprRef) and discharge.valid(CTX, z3.Not(b), budget=1) else b
    return Num(v.z, f(v.pinf), f(v.ninf), f(v.nan), v.npy)


def np_argmin(s, axis=None): return np_argext(s, lambda x, y: x._lt(y), 'argmin')
def np_argmax(s, axis=None): return np_argext(s, lambda x, y: y._lt(x), 'argmax')
def np_min(s, axis=None, **k):
    if isinstance(s, Num): return s
    s = to_seq(s)
    return settled(npy(s.elem(zint(np_argmin(s)))))
def np_max(s, axis=None, **k):
    if isinstance(s, Num): return s
    s = to_seq(s)
    return settled(npy(s.elem(zint(np_argmax(s)))))


def np_any(s, *a, **k):
    if isinstance(s, Bool) or isinstance(s, bool): return s
    if isinstance(s, Num): return mkbool(tz(s))
    s = to_seq(s)
    if isinstance(s.n, int):
        return mkbool(b_or(*[tz(s.elem(z3.IntVal(i))) for i in range(s.n)]))
    b = CTX.fresh('any', z3.BoolSort())
    w = CTX.fresh('anyw', z3.IntSort()); note_index(w)
    CTX.add(z3.Implies(b, z3.And(w >= 0, w < s.zn, zb(tz(s.elem(w))))))
    CTX.add_universal(z3.IntVal(0), s.zn, lambda j: z3.Implies(zb(tz(s.elem(j))), b))
    return Bool(b)


def np_all(s, *a, **k):
    if isinstance(s, (Bool, bool, Num)): return mkbool(tz(s))
    s = to_seq(s)
    return mkbool(b_not(tz(np_any(elementwise(s_not, s)))))


def np_cumsum(x, axis=None):
    s = to_seq(x)
    return Seq(s.n, lambda j: Num(zsum(z3.IntVal(0), z3.simplify(j + 1), lambda i: toreal(num_elem(s, i).z)), npy=True))


def np_diff(x, n=1, prepend=None, append=None):
    s = to_seq(x)
    if prepend is not None: s = concat([[prepend] if not is_seq(prepend) else prepend, s])
    if append is not None: s = concat([s, [append] if not is_seq(append) else append])
    ln = z3.simplify(s.zn - 1)
    return Seq(mknum(ln), lambda j: npy(s.elem(z3.simplify(j + 1))) - npy(s.elem(j)))


def np_array(x, dtype=None, copy=None, **k):
    if lift(x) is not None and not is_seq(x):
        return x.np() if isinstance(x, Num) else x
    s = to_seq(x)
    if isinstance(s, Filtered): return s
    if not isinstance(s, Seq): return s
    el = s._elem
    r = Seq(s.n, lambda j: npy(s.elem(j)), 'array')
    return r


def np_atleast_1d(x):
    if is_seq(x): return np_array(x)
    return Seq(1, lambda j: npy(x), 'array')


def _len(x):
    if isinstance(x, (Num, int)): return x
    if isinstance(x, tuple): return x[0]
    raise Unsupported('shape')


def np_full(n, v, dtype=None):
    n = _len(n)
    return Seq(n, lambda j: npy(v), 'array')


def np_full_like(a, v, dtype=None):
    if lift(a) is not None and not is_seq(a): return npy(lift(v))
    s = to_seq(a)
    if isinstance(s, Filtered): return Filtered(Seq(s.base.n, lambda j: npy(v)), s.mask)
    return Seq(s.n, lambda j: npy(v), 'array')


def np_arange(a, b=None, step=1, dtype=None):
    if b is None: a, b = 0, a
    if lift(step).concrete() != 1: raise Unsupported('arange step')
    la, lb = lift(a), lift(b)
    if la.is_int and lb.is_int:
        n = z3.simplify(lb.z - la.z)
    else:
        n = n_ceil(n_sub(lb, la)).z
    if not _proves(n >= 0): n = z3.If(n < 0, z3.IntVal(0), n)
    return Seq(mknum(z3.simplify(n)), lambda j: n_add(la, Num(j)).np(), 'array')


def np_concatenate(parts, axis=0):
    return concat([to_seq(p) for p in parts])


def np_append(a, b): return concat([to_seq(a) if is_seq(a) else to_seq([a]), to_seq(b) if is_seq(b) else to_seq([b])])


def np_flip(a):
    s = to_seq(a)
    if isinstance(s, Filtered): return s.reversed()
    n = s.zn
    return Seq(s.n, lambda j: s.elem(z3.simplify(n - 1 - j)))


def np_shape(a):
    if lift(a) is not None and not is_seq(a): return ()
    return to_seq(a).shape


def np_repeat(a, n):
    if not is_seq(a): return Seq(n, lambda j: npy(a))
    raise Unsupported('repeat')


NP = {
    'exp': ufunc(s_exp), 'log': ufunc(s_log), 'expm1': ufunc(s_expm1), 'log1p': ufunc(s_log1p),
    'sqrt': ufunc(s_sqrt), 'abs': ufunc(s_abs), 'minimum': ufunc(s_min), 'maximum': ufunc(s_max),
    'floor': ufunc(s_floor), 'ceil': ufunc(s_ceil), 'isinf': ufunc(s_isinf), 'isnan': ufunc(s_isnan),
    'isfinite': ufunc(s_isfinite), 'isposinf': ufunc(s_isposinf), 'isclose': ufunc(s_isclose),
    'where': ufunc(s_where), 'logical_not': ufunc(s_not), 'logical_and': ufunc(s_and), 'logical_or': ufunc(s_or),
    'clip': lambda a, lo=None, hi=None, a_min=None, a_max=None: ufunc(lambda x: s_clip(x, lo if lo is not None else a_min, hi if hi is not None else a_max))(a),
    'sum': np_sum, 'dot': np_dot, 'inner': np_dot, 'argmin': np_argmin, 'argmax': np_argmax, 'min': np_min, 'max': np_max, 'amin': np_min, 'amax': np_max,
    'any': np_any, 'all': np_all, 'cumsum': np_cumsum, 'diff': np_diff,
    'array': np_array, 'asarray': np_array, 'copy': np_array, 'atleast_1d': np_atleast_1d, 'asfarray': np_array,
    'zeros': lambda n, dtype=None: np_full(n, 0), 'ones': lambda n, dtype=None: np_full(n, 1),
    'zeros_like': lambda a, dtype=None: np_full_like(a, 0.0), 'ones_like': lambda a, dtype=None: np_full_like(a, 1.0),
    'full_like': np_full_like, 'full': np_full, 'arange': np_arange, 'concatenate': np_concatenate, 'append': np_append,
    'flip': np_flip, 'shape': np_shape, 'repeat': np_repeat,
    'isscalar': lambda x: isinstance(x, (Num, Bool)),
    'add': ufunc(lambda a, b: a + b), 'subtract': ufunc(lambda a, b: a - b), 'multiply': ufunc(lambda a, b: a * b), 'divide': ufunc(lambda a, b: a / b),
    'power': ufunc(lambda a, b: a ** b), 'square': ufunc(lambda a: a * a), 'negative': ufunc(lambda a: -a),
    'less': ufunc(lambda a, b: a < b), 'greater': ufunc(lambda a, b: a > b),
    'size': lambda a: to_seq(a).n if is_seq(a) else 1,
    'logaddexp': ufunc(lambda a, b: n_logaddexp(lift(a), lift(b))),
    'float64': lambda x: lift(x).np(), 'prod': None,
}


def n_logaddexp(a, b):
    s = n_log(Num(E(toreal(a.z)) + E(toreal(b.z)), npy=True)) if a.plain and b.plain else None
    if s is not None: return s
    return n_log(n_add(n_exp(a), n_exp(b)).np())


class NPShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_extra'] = {}

    def __getattr__(self, name):
        real = getattr(_np, name)
        h = self._extra.get(name, NP.get(name))
        if name == 'float64' or h is None or isinstance(real, type) and name != 'float64':
            if isinstance(real, types.ModuleType) and name in ('random', 'linalg'):
                return SubShim(real, name)
            if h is None:
                if callable(real) and not isinstance(real, type): return Guard(real, name)
                return real
            return real
        return Dispatch(real, h, name)


SUB = {}


class SubShim:
    def __init__(self, real, name): self._real, self._name = real, name
    def __getattr__(self, a):
        real = getattr(self._real, a)
        h = CTX.models.get(f'np.{self._name}.{a}') if hasattr(CTX, 'models') else None
        if h is not None: return h
        if f'{self._name}.{a}' in SUB: return Dispatch(real, SUB[f'{self._name}.{a}'], f'{self._name}.{a}')
        return Guard(real, f'{self._name}.{a}') if callable(real) and not isinstance(real, type) else real


class Guard:
    """A library function without a model: concrete arguments only."""
    def __init__(self, real, name): self._real, self._name = real, name
    def __call__(self, *a, **k):
        h = CTX.models.get(self._name)
        if h is not None: return h(*a, **k)
        if symbolic(a) or symbolic(k): raise Unsupported(f'no model of {self._name}')
        return self._real(*a, **k)
    def __getattr__(self, a):
        r = getattr(self._real, a)
        return Guard(r, f'{self._name}.{a}') if callable(r) else r


class Dispatch(Guard):
    def __init__(self, real, h, name): self._real, self._h, self._name = real, h, name
    def __call__(self, *a, **k):
        m = CTX.models.get(self._name)
        if m is not None: return m(*a, **k)
        if symbolic(a) or symbolic(k): return self._h(*a, **k)
        return self._real(*a, **k)


CTX.models = {}


# -------------------------------------------------------------- math
def _py(f):
    def g(*a, **k):
        args = [lift(x) for x in a]
        args = [Num(x.z, x.pinf, x.ninf, x.nan, False) if isinstance(x, Num) else x for x in args]
        return f(*args, **k)
    return g


def m_floor(a): return n_trunc_checked(n_floor(Num(a.z, a.pinf, a.ninf, a.nan, False)))
def n_trunc_checked(a): return a
def m_pow(a, b): return n_pow(a, b)
def m_fsum(xs):
    if isinstance(xs, (Seq, Filtered, Lazy, SymRange, maps.Unordered)): return np_sum(xs)
    r = 0.0
    for x in xs: r = r + x
    return r


def m_log(a, b=None):
    r = n_log(a, False)
    if b is None: return r
    return n_div(r, n_log(b, False))


MATH = {
    'exp': _py(n_exp), 'log': _py(m_log), 'expm1': _py(s_expm1),
    'log1p': _py(lambda a: n_log(n_add(lift(1), a), False)), 'sqrt': _py(lambda a: n_sqrt(a, False)),
    'floor': _py(m_floor), 'ceil': _py(lambda a: -m_floor(-a)), 'isnan': _py(s_isnan), 'isinf': _py(s_isinf),
    'isfinite': _py(s_isfinite), 'isclose': lambda a, b, **k: m_isclose(a, b, **k), 'pow': _py(m_pow), 'fsum': m_fsum,
    'fabs': _py(abs), 'log2': _py(lambda a: n_div(n_log(a, False), Num(L(z3.RealVal(2))))),
}


class MathShim(types.ModuleType):
    def __init__(self): super().__init__('math')
    def __getattr__(self, name):
        real = getattr(_math, name)
        if not callable(real): return real
        h = MATH.get(name)
        return Dispatch(real, h, 'math.' + name) if h else Guard(real, 'math.' + name)


class IterShim(types.ModuleType):
    def __init__(self): super().__init__('itertools')
    def __getattr__(self, name):
        import itertools
        real = getattr(itertools, name)
        if name == 'count': return lambda *a, **k: Counter(*a, **k) if symbolic(a) or symbolic(k) else real(*a, **k)
        if name in ('repeat', 'chain', 'accumulate', 'product', 'zip_longest', 'islice'):
            def f(*a, **k):
                if symbolic(a) or symbolic(k): raise Unsupported(f'no model of itertools.{name}')
                return real(*a, **k)
            return f
        return real


class LibShim(types.ModuleType):
    """scipy and friends: functions are guarded, models come from CTX.models."""
    def __init__(self, real, name):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_nm'] = name
    def __getattr__(self, a):
        r = getattr(self._real, a)
        nm = f'{self._nm}.{a}'
        if isinstance(r, types.ModuleType): return LibShim(r, a)
        if callable(r) and not isinstance(r, type): return Guard(r, nm)
        return r


# -------------------------------------------------------------- builtins
def vc_len(x):
    if isinstance(x, (Seq, Filtered)): return x.n
    if isinstance(x, SymRange): return x.seq().n
    if isinstance(x, (SymZip, )): return x.seq().n
    f = getattr(type(x), '__vc_len__', None)
    if f: return f(x)
    return builtins.len(x)


def vc_float(x=0.0):
    if isinstance(x, Num): return Num(toreal(x.z), x.pinf, x.ninf, x.nan, False)
    if isinstance(x, Bool): return float(x._n())
    return builtins.float(x)


def vc_int(x=0, *a):
    if isinstance(x, Num): return n_trunc(x)
    if isinstance(x, Bool): return x._n()
    return builtins.int(x, *a)


def vc_bool(x=False):
    if isinstance(x, Bool): return x
    if isinstance(x, Num): return mkbool(tz(x))
    return builtins.bool(x)


def _minmax(better, np_red):
    def g(*args, key=None, default=UNDEF):
        if key is not None: 
            if symbolic(args): raise Unsupported('min/max with key')
            return (builtins.min if better is _lt else builtins.max)(*args, key=key)
        xs = args[0] if len(args) == 1 else args
        if isinstance(xs, types.GeneratorType): xs = list(xs)
        if isinstance(xs, maps.SymDict):
            if xs.bounds is not None: return xs.bounds[0 if better is _lt else 1]
            xs = xs.keys()
        if isinstance(xs, maps.Unordered): xs = xs.seq
        if isinstance(xs, (Seq, SymRange, Lazy, Filtered)):
            s = to_seq(xs, 'list')
            j = zint(np_argext(s, better, 'min/max', first_nan=False))
            return settled((s.base if isinstance(s, Filtered) else s).elem(j))
        if not symbolic(list(xs)):
            kw = {} if default is UNDEF else {'default': default}
            return (builtins.min if better is _lt else builtins.max)(*args, **kw)
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = ite(better(lift(x), lift(r)), x, r)
        return r
    return g


def _lt(a, b): return a._lt(b)
def _gt(a, b): return b._lt(a)


vc_min = _minmax(_lt, None)
vc_max = _minmax(_gt, None)


def vc_sum(xs, start=0):
    if isinstance(xs, (Seq, Filtered, Lazy, SymRange, maps.Unordered)):
        r = np_sum(xs)
        return r if isinstance(start, int) and start == 0 else start + r
    r = start
    for x in xs: r = r + x
    return r


def vc_range(*a):
    if not symbolic(a): return builtins.range(*a)
    if len(a) == 1: return SymRange(z3.IntVal(0), zint(a[0]))
    if len(a) == 3 and symbolic(a[2]): raise Unsupported('range step')
    if len(a) == 3 and a[2] != 1:
        if a[2] == 0: raise ValueError('range() arg 3 must not be zero')
        lo, hi, st = zint(a[0]), zint(a[1]), a[2]
        n = (hi - lo + st - 1) / st if st > 0 else (lo - hi - st - 1) / (-st)
        n = z3.simplify(z3.If(n < 0, z3.IntVal(0), n))
        return Seq(mknum(n), lambda j: mknum(z3.simplify(lo + st * j)), 'list')
    return SymRange(zint(a[0]), zint(a[1]))


def vc_isinstance(x, t):
    if isinstance(t, tuple): return any(vc_isinstance(x, y) for y in t)
    if isinstance(x, Num):
        import numbers
        if t is int: return x.is_int and not x.npy
        if t is float: return not x.is_int
        if t in (numbers.Number, numbers.Real, object): return True
        if t is numbers.Integral: return x.is_int
        if t is bool: return False
        if getattr(t, '__module__', '') == 'numpy':
            if t in (_np.floating, _np.float64): return x.npy and not x.is_int
            return False
        return builtins.isinstance(x, t)
    if isinstance(x, Seq):
        from collections import abc
        if t is _np.ndarray: return x.kind == 'array'
        if t in (list, abc.Sequence, abc.MutableSequence): return x.kind == 'list'
        if t in (abc.Iterable, abc.Sized, abc.Collection, object): return True
        return builtins.isinstance(x, t)
    f = getattr(type(x), '__vc_isinstance__', None)
    if f:
        r = f(x, t)
        if r is not None: return r
    return builtins.isinstance(x, t)


def vc_abs(x): return abs(x)
def vc_round(x, nd=None):
    if isinstance(x, Num):
        if nd is None: return x.__round__()
        raise Unsupported('round to digits')
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def vc_any(xs):
    if isinstance(xs, (Seq, Lazy)): return np_any(xs)
    return builtins.any(xs)


def vc_all(xs):
    if isinstance(xs, (Seq, Lazy)): return np_all(xs)
    return builtins.all(xs)


def vc_enumerate(xs, start=0):
    if isinstance(xs, (Seq, Lazy, SymRange)):
        s = to_seq(xs, 'list')
        return SymEnum([Seq(s.n, lambda j: mknum(z3.simplify(j + zint(start))), 'list'), s])
    if isinstance(xs, SymZip): 
        s = xs.seq()
        return SymEnum([Seq(s.n, lambda j: mknum(z3.simplify(j + zint(start))), 'list'), s])
    return builtins.enumerate(xs, start)


def vc_zip(*xs):
    if any(isinstance(x, (Seq, Filtered, Lazy, SymRange, SymZip, Counter)) for x in xs):
        xs = [x for x in xs]
        if any(isinstance(x, Counter) for x in xs):
            # an endless progression is as long as the other sequence
            o = [x for x in xs if not isinstance(x, Counter)]
            if len(o) + 1 != len(xs): raise Unsupported('zip of progressions')
            o = o[0].seq() if isinstance(o[0], SymZip) else to_seq(o[0], 'list')
            if isinstance(o, Filtered): raise Unsupported('zip of a filtered sequence with a progression')
            xs = [x.seq(o.n) if isinstance(x, Counter) else o for x in xs]
        return SymZip([x.seq() if isinstance(x, SymZip) else to_seq(x, 'list') for x in xs])
    return builtins.zip(*xs)


def vc_list(xs=()):
    if isinstance(xs, (Seq, Lazy, SymRange)):
        s = to_seq(xs, 'list'); return Seq(s.n, s._elem, 'list')
    if isinstance(xs, SymZip): return xs.seq()
    if isinstance(xs, (maps.Unordered, Filtered)): return xs
    if isinstance(xs, maps.SymDict): return xs.keys()
    return builtins.list(xs)


def vc_tuple(xs=()):
    if isinstance(xs, (Seq, Lazy, SymRange)):
        s = to_seq(xs, 'list'); return Seq(s.n, s._elem, 'list')
    return builtins.tuple(xs)


def vc_sorted(xs, key=None, reverse=False):
    if isinstance(xs, maps.SymDict): xs = xs.keys()
    if isinstance(xs, maps.Unordered) and xs.ascending and key is None: return xs.seq[::-1] if reverse else xs.seq
    if symbolic(xs):
        h = CTX.models.get('sorted')
        if h: return h(xs, key, reverse)
        xs = list(xs) if not isinstance(xs, Seq) else None
        if xs is not None and len(xs) <= 4:
            # insertion sort by branching
            out = []
            for x in xs:
                k = key(x) if key else x
                i = 0
                while i < len(out):
                    kk = key(out[i]) if key else out[i]
                    if (k > kk if reverse else k < kk): break
                    i += 1
                out.insert(i, x)
            return out
        raise Unsupported('sorted of a symbolic sequence')
    return builtins.sorted(xs, key=key, reverse=reverse)


def vc_reversed(xs):
    if isinstance(xs, Seq): return Seq(xs.n, lambda j: xs.elem(z3.simplify(xs.zn - 1 - j)), 'list')
    if isinstance(xs, Filtered): return xs.reversed()
    return builtins.reversed(xs)


def vc_pow(a, b): return a ** b


def vc_type(x, *rest):
    if rest: return builtins.type(x, *rest)
    f = getattr(builtins.type(x), '__vc_type__', None)
    if f: return f(x)
    if isinstance(x, Seq) and x.kind == 'list': return vc_list
    return builtins.type(x)


def vc_map(f, *xs):
    if any(isinstance(x, (Seq, Lazy, SymRange)) for x in xs):
        from . import loops
        return loops.comp(lambda *a: f(*a), SymZip([to_seq(x, 'list') for x in xs]) if len(xs) > 1 else xs[0], star=len(xs) > 1)
    return builtins.map(f, *xs)


BUILTINS = {'len': vc_len, 'float': vc_float, 'int': vc_int, 'bool': vc_bool, 'min': vc_min, 'max': vc_max,
            'sum': vc_sum, 'range': vc_range, 'isinstance': vc_isinstance, 'round': vc_round, 'any': vc_any,
            'all': vc_all, 'enumerate': vc_enumerate, 'zip': vc_zip, 'list': vc_list, 'tuple': vc_tuple,
            'sorted': vc_sorted, 'reversed': vc_reversed, 'pow': vc_pow, 'type': vc_type, 'map': vc_map}


from . import maps
