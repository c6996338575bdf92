"""Sequences of symbolic length, sums over them, and reductions."""
import z3
from .sym import *
from .sym import CTX
from . import poly as P


def zint(n):
    if isinstance(n, bool): return z3.IntVal(int(n))
    if isinstance(n, int): return z3.IntVal(n)
    if isinstance(n, Num):
        if n.is_int: return n.z
        if n.plain: return z3.simplify(z3.ToInt(n.z))
        raise Unsupported(f'index {n}')
    if isinstance(n, z3.ExprRef): return n
    if hasattr(n, '__index__'): return z3.IntVal(n.__index__())
    raise Unsupported(f'index {n!r}')


def mknum(z):
    if z3.is_int_value(z): return z.as_long()
    return Num(z)


def new_index(name='j', lo=None, hi=None):
    """A fresh index constant that is a parameter of everything built under it."""
    j = z3.Const(f'{name}!{CTX.tick()}', z3.IntSort())
    CTX.index_consts[j.get_id()] = j
    return j




def free_index_consts(e, _memo=None):
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.get_id() in CTX.index_consts:
            out[x.get_id()] = x
        st.extend(x.children())
    return out


def depends(e, j):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(j): return True
        st.extend(x.children())
    return False


def zsum(lo, hi, fn):
    """z3 Real: sum of fn(j) for lo <= j < hi (0 if empty). fn: z3 Int -> z3 Real."""
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() <= 4:
        r = z3.RealVal(0)
        for i in range(lo.as_long(), hi.as_long()): r = r + toreal(fn(z3.IntVal(i)))
        return r
    j = new_index('s')
    body = P.ipoly(toreal(fn(j)))
    groups = {}
    for m, c in body.items():
        dep = tuple((k, p) for k, p in m if depends(P.ATOMS[k], j))
        ind = tuple((k, p) for k, p in m if not depends(P.ATOMS[k], j))
        groups[dep] = P.add(groups.get(dep, {}), {ind: c})
    r = z3.RealVal(0)
    for dep, coef in groups.items():
        if not coef: continue
        c = P.to_z3(coef)
        if not dep:
            s = toreal(z3.If(hi >= lo, hi - lo, z3.IntVal(0)))
        else:
            s = sum_app(lo, hi, j, dep)
        r = r + c * s
    return r


def sum_app(lo, hi, j, dep):
    # one order of the factors, whatever the name of the index
    if len(dep) > 1: dep = sorted(dep, key=lambda kp: (z3.substitute(P.ATOMS[kp[0]], (j, z3.Int('sj$'))).sexpr(), kp[1]))
    core = P.mono_z3(dep)
    params = [x for x in free_index_consts(core).values() if not x.eq(j)]
    params.sort(key=lambda x: str(x))
    formals = [z3.Const(f'sp${i}', x.sort()) for i, x in enumerate(params)]
    fj = z3.Const('sj$', z3.IntSort())
    body = z3.substitute(core, (j, fj), *zip(params, formals))
    key = body.get_id()
    if key not in CTX.sums:
        f = z3.Function(f'S${len(CTX.sums)}', *[x.sort() for x in formals], z3.IntSort(), z3.IntSort(), z3.RealSort())
        CTX.sums[key] = (f, formals, fj, body)
        CTX.sum_by_name[f.name()] = CTX.sums[key]
    f = CTX.sums[key][0]
    return f(*params, lo, hi)




def sum_body(app, j):
    """body of a sum application at index j."""
    f, formals, fj, body = CTX.sum_by_name[app.decl().name()]
    args = app.children()[:-2]
    return z3.substitute(body, (fj, j), *zip(formals, args))


def value_subst(v, pairs):
    if isinstance(v, Num):
        s = lambda f: f if isinstance(f, bool) else z3.substitute(f, *pairs)
        return Num(z3.substitute(v.z, *pairs), s(v.pinf), s(v.ninf), s(v.nan), v.npy)
    if isinstance(v, Bool): return mkbool(z3.simplify(z3.substitute(v.z, *pairs)))
    if isinstance(v, tuple): return tuple(value_subst(x, pairs) for x in v)
    if isinstance(v, list): return [value_subst(x, pairs) for x in v]
    if isinstance(v, z3.ExprRef): return z3.substitute(v, *pairs)
    if hasattr(v, '_vc_subst'): return v._vc_subst(pairs)
    import attr
    if attr.has(type(v)):
        kw = {a.name: value_subst(getattr(v, a.name), pairs) for a in attr.fields(type(v))}
        return type(v)(**kw)
    return v


def merge_outcomes(outs):
    """[(cond, value)] (exhaustive) -> value."""
    r = outs[-1][1]
    for c, v in reversed(outs[:-1]):
        r = merge2(c, v, r)
    return r


def merge2(c, a, b):
    if a is b: return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge2(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (Num, Bool, int, float, bool)) and isinstance(b, (Num, Bool, int, float, bool)):
        if not isinstance(a, (Num, Bool)) and type(a) is type(b) and a == b: return a
        return ite(c, a, b)
    try:
        if type(a) is type(b) and not isinstance(a, (Seq,)) and a == b: return a
    except BaseException:
        pass
    raise Unsupported(f'cannot merge {a!r} / {b!r}')


def branch_cond(delta):
    return b_and(*[f.z for f in delta if isinstance(f, Fact) and f.branch])


class Seq:
    """list or 1-d ndarray of symbolic length. elem: z3 Int -> value."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, n, elem, kind='array', dtype=float, tag=None, sortedness=None):
        self.n = n if isinstance(n, (int, Num)) else mknum(n)
        self._elem = elem
        self.kind = kind
        self.dtype = dtype
        self.tag = tag
        self._cache = {}
        self.depth = len(CTX.active)

    def _may_change(self):
        # an array from outside the body of a symbolic loop changes only as carried state
        if self.depth < len(CTX.active): raise Unsupported('a sequence from outside the loop is changed in place')

    # --
    @property
    def zn(self): return zint(self.n)
    def elem(self, j):
        k = j.get_id()
        r = self._cache.get(k)
        if r is not None: return r[0]
        last = CTX.pc[-1] if CTX.pc else None
        k2 = (k, len(CTX.pc), id(last))
        r = self._cache.get(k2)
        if r is not None: return r[0]
        old, CTX.decided = CTX.decided, False
        try: v = self._elem(j)
        finally: d, CTX.decided = CTX.decided, CTX.decided or old
        # a value chosen by branching holds only under the facts of this path
        if not d: self._cache[k] = (v, j)
        elif len(CTX.pc) == k2[1]: self._cache[k2] = (v, j, last)
        return v
    @property
    def size(self): return self.n
    @property
    def shape(self): return (self.n,)
    ndim = 1
    def __len__(self):
        if isinstance(self.n, int): return self.n
        c = self.n.concrete()
        if c is not None: return c
        raise Unsupported('len() of a symbolic sequence in native code')
    def __bool__(self):
        if self.kind == 'array': raise Unsupported('truth value of an array')
        return bool(self.n > 0) if isinstance(self.n, Num) else self.n > 0
    def __repr__(self): return f'<Seq {self.kind} n={self.n}>'
    def __hash__(self): return id(self)
    def copy(self): return Seq(self.n, self._elem, self.kind, self.dtype)
    def astype(self, t, *a, **k): return self
    def tolist(self): return Seq(self.n, self._elem, 'list', self.dtype)
    def __copy__(self): return self.copy()

    def map(self, f, kind=None):
        npy = (kind or self.kind) == 'array'
        return Seq(self.n, lambda j: f(self.elem(j)), kind or self.kind)

    def at(self, i):
        """element at a Python-style index, with bounds check."""
        if isinstance(i, int) and not isinstance(i, bool):
            if i < 0:
                if isinstance(self.n, int):
                    if -i > self.n: raise IndexError('index out of range')
                elif not (self.n >= -i): raise IndexError('index out of range')
                return self.elem(z3.simplify(self.zn + i))
            if isinstance(self.n, int):
                if i >= self.n: raise IndexError('index out of range')
            elif not (self.n > i): raise IndexError('index out of range')
            return self.elem(z3.IntVal(i))
        if isinstance(i, Num):
            z = zint(i)
            if CTX.branch(z < 0):
                z = z3.simplify(z + self.zn)
                if CTX.branch(z < 0): raise IndexError('index out of range')
            if CTX.branch(z >= self.zn): raise IndexError('index out of range')
            CTX.note_index(z)
            return self.elem(z3.simplify(z))
        if hasattr(i, '__index__'): return self.at(i.__index__())
        raise Unsupported(f'index {i!r}')

    def bound(self, x, default):
        if x is None: return default
        z = z3.simplify(zint(x))
        n = self.zn
        if _pv(z < 0): z = z3.simplify(z + n)
        elif not _pv(z >= 0): z = z3.If(z < 0, z + n, z)
        if not _pv(z >= 0): z = z3.If(z < 0, z3.IntVal(0), z)
        if not _pv(z <= n): z = z3.If(z > n, n, z)
        return z3.simplify(z)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and i.step == -1 and i.start is None and i.stop is None:
                n = self.zn
                return Seq(self.n, lambda j: self.elem(z3.simplify(n - 1 - j)), self.kind)
            if i.step not in (None, 1): raise Unsupported('slice step')
            a, b = self.bound(i.start, z3.IntVal(0)), self.bound(i.stop, self.zn)
            ln = z3.simplify(b - a)
            if not _pv(ln >= 0): ln = z3.simplify(z3.If(ln < 0, z3.IntVal(0), ln))
            return Seq(mknum(ln), lambda j: self.elem(z3.simplify(j + a)), self.kind)
        if isinstance(i, Seq) and i.kind == 'array':
            from .npshim import is_bool_seq
            if is_bool_seq(i): return Filtered(self, i)
            return Seq(i.n, lambda j: self.elem(zint(i.elem(j))), 'array')
        if isinstance(i, tuple) and len(i) == 1: return self[i[0]]
        if isinstance(i, tuple) and len(i) == 2 and i[1] is None: return self[i[0]]
        return self.at(i)

    def __iter__(self):
        if isinstance(self.n, int): return iter([self.elem(z3.IntVal(i)) for i in range(self.n)])
        raise Unsupported('native iteration over a symbolic sequence')

    # updates produce a new element function in place (arrays / lists are mutable)
    def __setitem__(self, i, v):
        self._may_change()
        old = self._elem
        if isinstance(i, slice):
            a, b = self.bound(i.start, z3.IntVal(0)), self.bound(i.stop, self.zn)
            if isinstance(v, Seq):
                if not _pv(zint(v.n) == b - a):
                    raise Unsupported('slice assignment of unproved length')
                g = lambda j: v.elem(z3.simplify(j - a))
            else:
                g = lambda j: v
            self._elem = lambda j: ite(z3.And(a <= j, j < b), g(j), old(j))
        elif isinstance(i, Seq):
            from .npshim import is_bool_seq
            if not is_bool_seq(i): raise Unsupported('fancy assignment')
            if isinstance(v, Filtered): g = lambda j: v.base.elem(j)
            elif isinstance(v, Seq): raise Unsupported('masked assignment of an array')
            else: g = lambda j: v
            self._elem = lambda j: ite(tz(i.elem(j)), g(j), old(j))
        else:
            z = zint(i)
            if isinstance(i, int) and i < 0: z = z3.simplify(z + self.zn)
            if CTX.branch(z3.Or(z < 0, z >= self.zn)): raise IndexError('assignment index out of range')
            self._elem = lambda j: pick(j == z, v, lambda: old(j))
        self._cache = {}

    # list API
    def append(self, v):
        self._may_change()
        old, n = self._elem, self.zn
        self.n = mknum(z3.simplify(n + 1))
        self._elem = lambda j: pick(j == n, v, lambda: old(j))
        self._cache = {}

    def __contains__(self, v): raise Unsupported('in on a symbolic sequence')

    def sum(self, axis=None):
        from . import npshim
        return npshim.np_sum(self)
    def min(self): 
        from . import npshim
        return npshim.np_min(self)
    def max(self):
        from . import npshim
        return npshim.np_max(self)
    def any(self):
        from . import npshim
        return npshim.np_any(self)
    def all(self):
        from . import npshim
        return npshim.np_all(self)
    def argmin(self):
        from . import npshim
        return npshim.np_argmin(self)
    def dot(self, o):
        from . import npshim
        return npshim.np_dot(self, o)
    def reshape(self, *a):
        if a in ((-1,), ((-1,),), (-1, 1), ((-1, 1),)): return self   # a column scales the rows of a matrix (pyvc.rows)
        raise Unsupported('reshape')
    def flatten(self): return self
    def cumsum(self):
        from . import npshim
        return npshim.np_cumsum(self)

    def _vc_subst(self, pairs):
        d = Num(z3.substitute(self.n.z, *pairs)) if isinstance(self.n, Num) else self.n
        def el(j):
            t = new_index('t')
            v = self.elem(t)
            v = value_subst(v, pairs)
            return value_subst(v, [(t, j)])
        return Seq(d, el, self.kind, self.dtype)


def pick(c, a, bf):
    """a if c else bf(), by merging when possible and by branching otherwise."""
    c = z3.simplify(c) if isinstance(c, z3.ExprRef) else c
    if c is True or (isinstance(c, z3.ExprRef) and z3.is_true(c)): return a
    if c is False or (isinstance(c, z3.ExprRef) and z3.is_false(c)): return bf()
    if isinstance(a, (Num, Bool, int, float)): return ite(c, a, bf())
    return a if CTX.branch(c) else bf()


def _pv(z):
    from .sym import _proves
    return _proves(z)


def note_index(z):
    if not any(z.eq(x) for x in CTX.indices): CTX.indices.append(z)


CTX.note_index = note_index


class Filtered:
    """base[mask]: elements of base whose mask holds, in order."""
    __array_ufunc__ = None
    kind = 'array'

    def __init__(self, base, mask):
        self.base, self.mask = base, mask
    def map(self, f): return Filtered(self.base.map(f), self.mask)
    @property
    def size(self):
        from . import npshim
        return npshim.count_true(self.mask)
    @property
    def n(self): return self.size
    @property
    def shape(self): return (self.size,)
    ndim = 1
    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step == -1: return self.reversed()
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step in (None, 1): return self
        if isinstance(i, Filtered):
            from .npshim import is_bool_seq
            if not is_bool_seq(i.base) or not same_mask(i.mask, self.mask): raise Unsupported('index of a filtered array')
            b = i.base
            r = Filtered(self.base, Seq(self.mask.n, lambda j: mkbool(b_and(tz(self.mask.elem(j)), tz(b.elem(j)))), 'list'))
            r.kind = self.kind
            return r
        raise Unsupported('element of a filtered array')
    def reversed(self):
        n = self.mask.zn
        f = lambda s: Seq(s.n, lambda j: s.elem(z3.simplify(n - 1 - j)), s.kind)
        if self.__dict__.get('_rev') is None:
            self._rev_mask = self.mask.__dict__.setdefault('_rev', f(self.mask))
        r = Filtered(f(self.base), self._rev_mask)
        r.kind = self.kind
        return r
    def copy(self): return self
    def astype(self, t, *a, **k): return self
    def __len__(self): raise Unsupported('len of filtered array')
    def __repr__(self): return f'<Filtered {self.base}>'
    def sum(self, *a):
        from . import npshim
        return npshim.np_sum(self)


def same_mask(a, b):
    if a is b: return True
    if not _pv(zint(a.n) == zint(b.n)): return False
    j = new_index('m')
    x, y = tz(a.elem(j)), tz(b.elem(j))
    if isinstance(x, bool) and isinstance(y, bool): return x == y
    x, y = zb(x), zb(y)
    if z3.simplify(x).eq(z3.simplify(y)): return True
    from . import discharge
    return discharge.quick_valid(CTX, z3.Implies(z3.And(j >= 0, j < zint(a.n)), x == y))


def elementwise(f, *args):
    """apply a scalar function elementwise with broadcasting of scalars."""
    if any(isinstance(a, Filtered) for a in args):
        mask = [a for a in args if isinstance(a, Filtered)][0].mask
        bs = []
        for a in args:
            if isinstance(a, Filtered):
                if not same_mask(a.mask, mask): raise Unsupported('arrays filtered by different masks')
                bs.append(a.base)
            elif isinstance(a, Seq): raise Unsupported('filtered with unfiltered array')
            else: bs.append(a)
        return Filtered(elementwise(f, *bs), mask)
    seqs = [a for a in args if isinstance(a, Seq)]
    if not seqs: return f(*args)
    n = seqs[0].n
    for s in seqs[1:]:
        if isinstance(n, int) and n == 1 and not (isinstance(s.n, int) and s.n == 1): n = s.n; continue
        if isinstance(s.n, int) and s.n == 1: continue
        if s.n is n: continue
        if not bool(lift(s.n) == lift(n)):
            raise ValueError('operands could not be broadcast together')
    def el(j):
        vals = []
        for a in args:
            if isinstance(a, Seq):
                if isinstance(a.n, int) and a.n == 1 and not (isinstance(n, int) and n == 1):
                    vals.append(npy(a.elem(z3.IntVal(0))))
                else:
                    vals.append(npy(a.elem(j)))
            else: vals.append(npy(a))
        return f(*vals)
    return Seq(n, el, 'array')


def npy(v):
    if isinstance(v, Num): return v.np()
    if isinstance(v, (Bool, bool)): return v
    if isinstance(v, (int, float)):
        r = lift(v)
        return r.np()
    return v


def _ew(op):
    def f(self, o):
        if isinstance(self, Seq) and self.kind == 'list': return NotImplemented
        if isinstance(o, (Seq, Filtered)) or lift(o) is not None or isinstance(o, Bool):
            return elementwise(op, self, o)
        if isinstance(o, list) or type(o).__name__ == 'ndarray':
            from . import npshim
            return elementwise(op, self, npshim.to_seq(o))
        return NotImplemented
    return f


def _logic(op):
    def g(a, b):
        return mkbool(op(tz(a), tz(b)))
    return g


import operator as _op
for _cls in (Seq, Filtered):
    for _n, _f in (('add', _op.add), ('sub', _op.sub), ('mul', _op.mul), ('truediv', _op.truediv),
                   ('pow', _op.pow), ('floordiv', _op.floordiv), ('mod', _op.mod)):
        setattr(_cls, f'__{_n}__', _ew(_f))
        setattr(_cls, f'__r{_n}__', _ew(lambda a, b, f=_f: f(b, a)))
    for _n, _f in (('lt', _op.lt), ('le', _op.le), ('gt', _op.gt), ('ge', _op.ge), ('eq', _op.eq), ('ne', _op.ne)):
        setattr(_cls, f'__{_n}__', _ew(_f))
    setattr(_cls, '__and__', _ew(_logic(b_and)))
    setattr(_cls, '__or__', _ew(_logic(b_or)))
    setattr(_cls, '__rand__', _ew(_logic(b_and)))
    setattr(_cls, '__ror__', _ew(_logic(b_or)))
    setattr(_cls, '__neg__', lambda s: elementwise(lambda a: -a, s))
    setattr(_cls, '__invert__', lambda s: elementwise(lambda a: mkbool(b_not(tz(a))), s))
    setattr(_cls, '__abs__', lambda s: elementwise(abs, s))
    _cls.__hash__ = lambda s: id(s)


_radd = Seq.__add__


def _list_add(self, o):
    if self.kind == 'list':
        if isinstance(o, (list, tuple)) or (isinstance(o, Seq) and o.kind == 'list'):
            return concat([self, o], 'list')
        return NotImplemented
    return _radd(self, o)


Seq.__add__ = _list_add


def concat(parts, kind='array'):
    parts = [p if isinstance(p, Seq) else Seq(len(p), (lambda p: lambda j: select(p, j))(list(p)), kind) for p in parts]
    offs, tot = [], z3.IntVal(0)
    for p in parts:
        offs.append(tot)
        tot = z3.simplify(tot + p.zn)
    def el(j):
        def rec(i):
            if i == len(parts) - 1: return parts[i].elem(z3.simplify(j - offs[i]))
            c = z3.simplify(j < offs[i + 1])
            if z3.is_true(c): return parts[i].elem(z3.simplify(j - offs[i]))
            if z3.is_false(c): return rec(i + 1)
            a = parts[i].elem(z3.simplify(j - offs[i]))
            if isinstance(a, (Num, Bool, int, float)): return ite(c, a, rec(i + 1))
            return a if CTX.branch(c) else rec(i + 1)
        return rec(0)
    return Seq(mknum(tot), el, kind)


def select(lst, j):
    """lst[j] for a concrete list and symbolic index."""
    if z3.is_int_value(j):
        return lst[j.as_long()] if 0 <= j.as_long() < len(lst) else (lst[-1] if lst else 0)
    if not lst: return 0
    r = lst[-1]
    for i in range(len(lst) - 2, -1, -1):
        r = pick(j == i, lst[i], lambda r=r: r)
    return r
