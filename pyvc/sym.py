"""Symbolic values: extended reals (Num), booleans (Bool) and path exploration."""
import fractions
import math
import numbers
import itertools
import z3

Fraction = fractions.Fraction


class Unsupported(BaseException):
    """A construct outside the engine's subset (never reported as proved)."""


class PathEnd(BaseException):
    """Ends the current path without an outcome."""


class Undef:
    def __repr__(self):
        return '<undef>'


UNDEF = Undef()

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
E = z3.Function('exp', REAL, REAL)
L = z3.Function('log', REAL, REAL)
SQRT = z3.Function('sqrt', REAL, REAL)
UF = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.name() for s in sorts)
    if key not in UF:
        UF[key] = z3.Function(name, *sorts)
    return UF[key]


# ---------------------------------------------------------------- booleans
def b_not(a):
    if a is True: return False
    if a is False: return True
    return z3.Not(a)


def b_and(*xs):
    r = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)


def b_or(*xs):
    r = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def b_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else b_not(c)
    if a is True: return b_or(c, b)
    if a is False: return b_and(b_not(c), b)
    if b is True: return b_or(b_not(c), a)
    if b is False: return b_and(c, a)
    return z3.If(c, a, b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ---------------------------------------------------------------- context
class Frame:
    __slots__ = ('prefix', 'pos', 'alts', 'taken')

    def __init__(self, prefix):
        self.prefix, self.pos, self.alts, self.taken = prefix, 0, [], []


class Fact:
    __slots__ = ('z', 'branch')

    def __init__(self, z, branch):
        self.z, self.branch = z, branch


UIDS = itertools.count()


class Universal:
    """forall j in [lo,hi): fn(j) (a z3 Bool), instantiated at index terms."""
    __slots__ = ('lo', 'hi', 'fn', 'cache', 'slow', 'uid')

    def __init__(self, lo, hi, fn, slow=False):
        # slow: only for obligations, never for the choice of a branch
        self.lo, self.hi, self.fn, self.cache, self.slow = lo, hi, fn, {}, slow


class Context:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pc = []            # Fact | Universal
        self.frames = []
        self.counter = 0
        self.active = []        # active index constants (z3)
        self.indices = []       # known index terms (z3 Int)
        self.cells = []         # heap cells [(obj, attr)] saved across explorations
        self.sums = {}
        self.sum_by_name = {}
        self.houdini = {}
        self.solving = False
        self.probing = False    # obligations met now are not recorded
        self.index_consts = {}
        self.lemmas = []        # extra facts valid everywhere (instances of axioms)
        self.n_paths = 0
        self.max_paths = 4000
        self.assumed_notes = set()
        self.nofork = False
        self.noinst = False
        self.decided = False
        self.keepall = []
        self.uids = {}          # identities of universals

    # -- names
    def tick(self):
        # names met while solving are numbered apart: whether a proof is redone leaves no trace
        if self.solving: return f's{next(UIDS)}'
        self.counter += 1
        return self.counter

    def fresh(self, name, sort, const=False):
        nm = f'{name}!{self.tick()}'
        if self.active and not const:
            f = z3.Function(nm, *[a.sort() for a in self.active], sort)
            return f(*self.active)
        return z3.Const(nm, sort)

    # -- facts
    def add(self, z, branch=False):
        if isinstance(z, bool):
            if z: return
            z = z3.BoolVal(False)
        f = Fact(z, branch)
        self.pc.append(f)
        self.keepall.append(f)

    def add_universal(self, lo, hi, fn, slow=False):
        u = Universal(lo, hi, fn, slow)
        # replays of a path state the same universals again: what was proved with them is not proved anew
        key = (self.pc_key(), lo.get_id(), hi.get_id(), self.counter, fn.__code__, slow, tuple(tuple(f.taken) for f in self.frames), tuple(a.get_id() for a in self.active))
        if key not in self.uids: self.uids[key] = next(UIDS)
        u.uid = self.uids[key]
        self.pc.append(u)
        self.keepall.append(u)

    def pc_key(self):
        return tuple(f.z.get_id() if isinstance(f, Fact) else -1 - f.uid for f in self.pc)

    def ground(self):
        return [f.z for f in self.pc if isinstance(f, Fact)]

    def feasible(self, z):
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(*self.ground())
        s.add(z)
        return s.check() != z3.unsat

    def branch(self, z):
        if isinstance(z, bool): return z
        from . import discharge
        z = discharge.norm_bool(z3.simplify(z))
        if z3.is_true(z): return True
        if z3.is_false(z): return False
        self.decided = True
        if self.nofork:
            if discharge.quick_valid(self, z, 0.2): return True
            if discharge.quick_valid(self, z3.Not(z), 0.2): return False
            raise PathEnd()
        if not self.frames:
            raise Unsupported('branch outside of an exploration')
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
            fr.pos += 1
            if d[1]:
                self.add(z if d[0] else z3.Not(z), True)
            fr.taken.append(d)
            return d[0]
        t = f = True
        if discharge.quick_valid(self, z3.Not(z)): t = False
        if discharge.quick_valid(self, z): f = False
        fr.pos += 1
        if t and f:
            fr.alts.append(fr.taken + [(False, True)])
            fr.taken.append((True, True))
            fr.prefix = fr.prefix + [(True, True)]
            self.add(z, True)
            return True
        if not t and not f:
            raise PathEnd()
        fr.taken.append((t, False))
        fr.prefix = fr.prefix + [(t, False)]
        return t

    def choose(self, n):
        """Non-deterministic choice among n alternatives (all explored)."""
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
            fr.pos += 1
            fr.taken.append(d)
            return d[0]
        for k in range(1, n):
            fr.alts.append(fr.taken + [(k, False)])
        fr.pos += 1
        fr.taken.append((0, False))
        fr.prefix = fr.prefix + [(0, False)]
        return 0

    # -- exploration
    def save_cells(self):
        out = []
        for o, a in self.cells:
            v = getattr(o, a, UNDEF)
            if isinstance(v, list): v = list(v)
            elif isinstance(v, dict): v = dict(v)
            out.append((o, a, v))
        return out

    def restore_cells(self, saved):
        for o, a, v in saved:
            if v is not UNDEF:
                if isinstance(v, list): v = list(v)
                elif isinstance(v, dict): v = dict(v)
                object.__setattr__(o, a, v)

    def explore(self, fn):
        """Runs fn on every feasible path. Returns [(facts, kind, value)]."""
        outs, work = [], [[]]
        saved = self.save_cells()
        mark = len(self.pc)
        imark = len(self.indices)
        while work:
            prefix = work.pop()
            fr = Frame(prefix)
            self.frames.append(fr)
            self.n_paths += 1
            if self.n_paths > self.max_paths:
                self.frames.pop()
                raise Unsupported('too many paths')
            try:
                try:
                    r = ('ok', fn())
                except PathEnd:
                    r = None
                except (Unsupported, KeyboardInterrupt, MemoryError):
                    raise
                except Exception as e:  # noqa
                    r = ('exc', e)
                delta = self.pc[mark:]
                cells = self.save_cells()
            finally:
                del self.pc[mark:]
                self.frames.pop()
                self.restore_cells(saved)
            work.extend(reversed(fr.alts))
            if r is not None:
                outs.append((delta, r[0], r[1], cells))
        return outs


CTX = Context()


class Bool:
    __slots__ = ('z',)
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CTX.branch(self.z)

    def _o(self, o):
        if isinstance(o, Bool): return o.z
        if isinstance(o, bool) or type(o).__name__ == 'bool_': return bool(o)
        return None

    def __and__(self, o):
        z = self._o(o)
        return NotImplemented if z is None else mkbool(b_and(self.z, z))
    __rand__ = __and__

    def __or__(self, o):
        z = self._o(o)
        return NotImplemented if z is None else mkbool(b_or(self.z, z))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(b_not(self.z))

    def __eq__(self, o):
        z = self._o(o)
        if z is None: return Num(z3.If(self.z, z3.IntVal(1), z3.IntVal(0))) == o
        return mkbool(z3.simplify(self.z == zb(z)))

    def __ne__(self, o):
        return ~(self == o) if isinstance(self == o, Bool) else not (self == o)

    def __hash__(self):
        return self.z.hash()

    def __repr__(self):
        return f'<{self.z}>'

    def _n(self):
        return Num(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()

    def item(self): return self
    def any(self): return self
    def all(self): return self


def mkbool(z):
    if isinstance(z, bool): return z
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    return Bool(z)


def tz(c):
    """truth value (bool | Bool | np.bool_) -> bool | z3."""
    if isinstance(c, Bool): return c.z
    if isinstance(c, z3.ExprRef): return c
    if isinstance(c, Num): return c._ne(lift(0))
    return bool(c)


class ZLit:
    pass


def zconst(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    return z3.RealVal(str(Fraction(repr(float(x)))))


def lift(x):
    """Concrete number or Num -> Num; None if not a number."""
    if isinstance(x, Num): return x
    if isinstance(x, Bool): return x._n()
    if isinstance(x, (bool, int, Fraction)): return Num(zconst(x))
    tn = type(x)
    if tn.__module__ == 'numpy':
        if tn.__name__ == 'bool_': return Num(zconst(bool(x)))
        if isinstance(x, numbers.Integral): return Num(zconst(int(x)), npy=True)
        if isinstance(x, numbers.Real):
            r = lift(float(x))
            return Num(r.z, r.pinf, r.ninf, r.nan, True)
        if tn.__name__ == 'ndarray' and x.ndim == 0:
            return lift(x.item())
        return None
    if isinstance(x, float):
        if math.isnan(x): return Num(z3.RealVal(0), nan=True)
        if x == math.inf: return Num(z3.RealVal(0), pinf=True)
        if x == -math.inf: return Num(z3.RealVal(0), ninf=True)
        return Num(zconst(x))
    return None


def toreal(z):
    if z.sort() == INT:
        if z3.is_int_value(z): return z3.RealVal(z.as_long())
        return z3.ToReal(z)
    return z


def unify(a, b):
    if a.sort() == b.sort(): return a, b
    return toreal(a), toreal(b)


def is_const(z):
    return z3.is_int_value(z) or z3.is_rational_value(z)


def cval(z):
    if z3.is_int_value(z): return z.as_long()
    return Fraction(z.numerator_as_long(), z.denominator_as_long())


class Num:
    """Extended real number. z is meaningful only if no flag holds."""
    __slots__ = ('z', 'pinf', 'ninf', 'nan', 'npy')
    __array_ufunc__ = None

    def __init__(self, z, pinf=False, ninf=False, nan=False, npy=False):
        self.z, self.pinf, self.ninf, self.nan, self.npy = z, pinf, ninf, nan, npy

    # ---- structure
    @property
    def is_int(self):
        return self.z.sort() == INT and self.plain

    @property
    def plain(self):
        return self.pinf is False and self.ninf is False and self.nan is False

    def fin(self):
        return b_not(b_or(self.pinf, self.ninf, self.nan))

    def np(self):
        return self if self.npy else Num(self.z, self.pinf, self.ninf, self.nan, True)

    def real(self):
        return toreal(self.z)

    def concrete(self):
        """Python value if this is a literal, else None."""
        if self.pinf is True: return math.inf
        if self.ninf is True: return -math.inf
        if self.nan is True: return math.nan
        if not self.plain: return None
        z = z3.simplify(self.z)
        if is_const(z): return cval(z)
        return None

    # numpy scalar / array look-alike API
    shape = ()
    ndim = 0
    dtype = float
    def item(self): return self
    def any(self): return mkbool(tz(self))
    def all(self): return mkbool(tz(self))
    def sum(self, *a, **k): return self
    def astype(self, t, *a, **k):
        return self
    def reshape(self, *a): return self
    def is_integer(self):
        return mkbool(b_and(self.fin(), z3.simplify(z3.IsInt(self.real())) if self.z.sort() == REAL else True))
    @property
    def real_part(self): return self

    def __repr__(self):
        f = ''.join(n for n, x in (('+inf?', self.pinf), ('-inf?', self.ninf), ('nan?', self.nan)) if x is not False)
        s = str(self.z)
        return f'Num({s if len(s) < 200 else s[:200] + "..."}{f})'
    __str__ = __repr__
    def __format__(self, spec): return repr(self)
    def __hash__(self): return self.z.hash()

    def __index__(self):
        c = self.concrete()
        if isinstance(c, int): return c
        raise Unsupported(f'symbolic index in a concrete context: {self}')

    def __float__(self):
        c = self.concrete()
        if c is not None: return float(c)
        raise Unsupported('float() of a symbolic number in native code')

    def __int__(self):
        c = self.concrete()
        if c is not None: return int(c)
        raise Unsupported('int() of a symbolic number in native code')

    def __bool__(self):
        return CTX.branch(self._ne(lift(0)))

    # ---- arithmetic
    def _bin(self, o, f):
        b = lift(o)
        if b is None:
            if type(o).__name__ == 'ndarray':
                from . import npshim, seq
                return seq.elementwise(lambda x, y: f(lift(x), lift(y)), self, npshim.to_seq(o))
            return NotImplemented
        return f(self, b)

    def __add__(self, o): return self._bin(o, n_add)
    def __radd__(self, o): return self._bin(o, lambda a, b: n_add(b, a))
    def __sub__(self, o): return self._bin(o, n_sub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: n_sub(b, a))
    def __mul__(self, o): return self._bin(o, n_mul)
    def __rmul__(self, o): return self._bin(o, lambda a, b: n_mul(b, a))
    def __truediv__(self, o): return self._bin(o, n_div)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: n_div(b, a))
    def __floordiv__(self, o): return self._bin(o, n_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: n_floordiv(b, a))
    def __mod__(self, o): return self._bin(o, lambda a, b: n_sub(a, n_mul(b, n_floordiv(a, b))))
    def __rmod__(self, o): return self._bin(o, lambda a, b: n_sub(b, n_mul(a, n_floordiv(b, a))))
    def __pow__(self, o): return self._bin(o, n_pow)
    def __rpow__(self, o): return self._bin(o, lambda a, b: n_pow(b, a))
    def __neg__(self):
        return Num(-self.z, self.ninf, self.pinf, self.nan, self.npy)
    def __pos__(self): return self
    def __abs__(self):
        return Num(z3.If(self.z >= 0, self.z, -self.z), b_or(self.pinf, self.ninf), False, self.nan, self.npy)
    def __round__(self, nd=None):
        if self.is_int: return self
        return Num(uf('py_round', REAL, INT)(self.z), self.pinf, self.ninf, self.nan, self.npy)
    def __floor__(self): return n_floor(self)
    def __ceil__(self): return n_ceil(self)
    def __trunc__(self): return n_trunc(self)

    # ---- comparison
    def _lt(a, b):
        x, y = unify(a.z, b.z)
        if a.plain and b.plain: return x < y
        return b_and(b_not(a.nan), b_not(b.nan),
                     b_or(b_and(a.ninf, b_not(b.ninf)), b_and(b.pinf, b_not(a.pinf)),
                          b_and(a.fin(), b.fin(), x < y)))

    def _eq(a, b):
        x, y = unify(a.z, b.z)
        if a.plain and b.plain: return x == y
        return b_and(b_not(a.nan), b_not(b.nan),
                     b_or(b_and(a.ninf, b.ninf), b_and(b.pinf, a.pinf),
                          b_and(a.fin(), b.fin(), x == y)))

    def _le(a, b):
        x, y = unify(a.z, b.z)
        if a.plain and b.plain: return x <= y
        return b_or(a._lt(b), a._eq(b))

    def _ne(a, b):
        return b_not(a._eq(b))

    def _cmp(self, o, f):
        b = lift(o)
        if b is None: return NotImplemented
        r = f(self, b)
        return mkbool(r if isinstance(r, bool) else z3.simplify(r))

    def __lt__(self, o): return self._cmp(o, Num._lt)
    def __le__(self, o): return self._cmp(o, Num._le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: b._lt(a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: b._le(a))
    def __eq__(self, o):
        r = self._cmp(o, Num._eq)
        return False if r is NotImplemented and not hasattr(o, 'elem') else r
    def __ne__(self, o):
        r = self._cmp(o, Num._ne)
        return True if r is NotImplemented and not hasattr(o, 'elem') else r


numbers.Number.register(Num)


def _sg(n):
    return n.z > 0, n.z < 0, n.z == 0


def n_add(a, b):
    x, y = unify(a.z, b.z)
    npy = a.npy or b.npy
    if a.plain and b.plain:
        if is_const(x) and is_const(y): return Num(z3.simplify(x + y), npy=npy)
        if is_const(x) and cval(x) == 0: return Num(y, npy=npy)
        if is_const(y) and cval(y) == 0: return Num(x, npy=npy)
        return Num(x + y, npy=npy)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    return Num(x + y, b_and(b_or(a.pinf, b.pinf), b_not(nan)),
               b_and(b_or(a.ninf, b.ninf), b_not(nan)), nan, npy)


def n_sub(a, b):
    return n_add(a, -b) if not (a.plain and b.plain) else _sub(a, b)


def _sub(a, b):
    x, y = unify(a.z, b.z)
    npy = a.npy or b.npy
    if is_const(x) and is_const(y): return Num(z3.simplify(x - y), npy=npy)
    if is_const(y) and cval(y) == 0: return Num(x, npy=npy)
    return Num(x - y, npy=npy)


def n_mul(a, b):
    x, y = unify(a.z, b.z)
    npy = a.npy or b.npy
    if a.plain and b.plain:
        for u, v in ((x, y), (y, x)):
            if is_const(u):
                if is_const(v): return Num(z3.simplify(u * v), npy=npy)
                if cval(u) == 1: return Num(v, npy=npy)
                if cval(u) == 0: return Num(u, npy=npy)
        return Num(x * y, npy=npy)
    for u, v in ((a, b), (b, a)):
        if v.plain and not u.plain:   # the sign of the finite factor is known
            if _proves(v.z > 0): return Num(x * y, u.pinf, u.ninf, u.nan, npy)
            if _proves(v.z < 0): return Num(x * y, u.ninf, u.pinf, u.nan, npy)
    ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    apos = b_or(a.pinf, b_and(b_not(ainf), a.z > 0))
    aneg = b_or(a.ninf, b_and(b_not(ainf), a.z < 0))
    bpos = b_or(b.pinf, b_and(b_not(binf), b.z > 0))
    bneg = b_or(b.ninf, b_and(b_not(binf), b.z < 0))
    azero = b_and(b_not(ainf), a.z == 0)
    bzero = b_and(b_not(binf), b.z == 0)
    nan = b_or(a.nan, b.nan, b_and(ainf, bzero), b_and(binf, azero))
    anyinf = b_and(b_or(ainf, binf), b_not(nan))
    return Num(x * y, b_and(anyinf, b_or(b_and(apos, bpos), b_and(aneg, bneg))),
               b_and(anyinf, b_or(b_and(apos, bneg), b_and(aneg, bpos))), nan, npy)


def _proves(z):
    from . import discharge
    if isinstance(z, bool): return z
    z = z3.simplify(z)
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    if not CTX.frames: return False
    return discharge.quick_valid(CTX, z)


def n_div(a, b):
    x, y = toreal(a.z), toreal(b.z)
    npy = a.npy or b.npy
    if a.plain and b.plain and is_const(y) and cval(y) != 0:
        if is_const(x): return Num(z3.simplify(x / y), npy=npy)
        return Num(x / y, npy=npy)
    bz = b_and(b.fin(), y == 0)
    if bz is not False and _proves(b_not(bz)): bz = False
    if not npy and bz is not False:
        if CTX.branch(bz): raise ZeroDivisionError('division by zero')
        bz = False
    if a.plain and b.plain and bz is False:
        return Num(x / y, npy=npy)
    ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    # x / +-inf = 0 ; inf / inf = nan ; 0/0 = nan ; x/0 = sign(x) inf (zeros taken as +0)
    nan = b_or(a.nan, b.nan, b_and(ainf, binf), b_and(bz, b_not(ainf), x == 0))
    apos = b_or(a.pinf, b_and(a.fin(), x > 0))
    aneg = b_or(a.ninf, b_and(a.fin(), x < 0))
    bneg = b_and(b.fin(), y < 0)
    isinf = b_and(b_not(nan), b_or(bz, ainf))
    return Num(x / y if binf is False else z3.If(zb(binf), z3.RealVal(0), x / y),
               b_and(isinf, b_or(b_and(apos, b_not(bneg)), b_and(aneg, bneg))),
               b_and(isinf, b_or(b_and(aneg, b_not(bneg)), b_and(apos, bneg))), nan, npy)


def n_floor(a):
    if a.is_int: return a
    c = a.concrete()
    if a.plain and c is not None: return Num(z3.IntVal(math.floor(c)))
    if not a.plain and not a.npy:
        if CTX.branch(b_or(a.pinf, a.ninf)): raise OverflowError('cannot convert float infinity to integer')
        if CTX.branch(a.nan): raise ValueError('cannot convert float NaN to integer')
        return Num(z3.ToInt(a.z))
    return Num(z3.ToInt(toreal(a.z)), a.pinf, a.ninf, a.nan, a.npy)


def n_ceil(a):
    return -n_floor(-a)


def n_trunc(a):
    if a.is_int: return a
    if not a.plain:
        if CTX.branch(b_or(a.pinf, a.ninf)): raise OverflowError('cannot convert float infinity to integer')
        if CTX.branch(zb(a.nan)): raise ValueError('cannot convert float NaN to integer')
    return Num(z3.If(a.z >= 0, z3.ToInt(toreal(a.z)), -z3.ToInt(-toreal(a.z))))


def n_floordiv(a, b):
    if a.is_int and b.is_int:
        if CTX.branch(b.z == 0): raise ZeroDivisionError('integer division or modulo by zero')
        if is_const(b.z) and cval(b.z) > 0: return Num(a.z / b.z)
        return Num(z3.ToInt(toreal(a.z) / toreal(b.z)))
    r = n_floor(Num(n_div(a, b).z))
    return Num(toreal(r.z), npy=a.npy or b.npy)


def n_exp(a):
    c = a.concrete() if a.plain else None
    if c == 0: return Num(z3.RealVal(1), npy=a.npy)
    z = E(toreal(a.z))
    if a.plain: return Num(z, npy=a.npy)
    return Num(z if a.ninf is False else z3.If(zb(a.ninf), z3.RealVal(0), z), a.pinf, False, a.nan, a.npy)


def n_log(a, npy=None):
    npy = a.npy if npy is None else npy
    x = toreal(a.z)
    if a.plain and is_const(x):
        c = cval(x)
        if c == 1: return Num(z3.RealVal(0), npy=npy)
    nonpos = b_or(b_and(a.fin(), x <= 0), a.ninf)
    if nonpos is not False and _proves(b_not(nonpos)): nonpos = False
    if nonpos is False:
        return Num(L(x), a.pinf, False, a.nan, npy)
    if not npy:
        if CTX.branch(nonpos): raise ValueError('math domain error')
        return Num(L(x), a.pinf, False, a.nan, npy)
    return Num(L(x), a.pinf, b_and(a.fin(), x == 0), b_or(a.nan, b_and(a.fin(), x < 0), a.ninf), npy)


def n_sqrt(a, npy=None):
    npy = a.npy if npy is None else npy
    x = toreal(a.z)
    neg = b_or(b_and(a.fin(), x < 0), a.ninf)
    if is_const(x) and a.plain and cval(x) >= 0:
        neg = False
    if neg is not False and _proves(b_not(neg)): neg = False
    if neg is not False and not npy:
        if CTX.branch(neg): raise ValueError('math domain error')
        neg = False
    return Num(SQRT(x), a.pinf, False, b_or(a.nan, neg), npy)


def n_pow(a, b):
    npy = a.npy or b.npy
    c = b.concrete() if b.plain else None
    if c is not None and Fraction(c).denominator == 1 and abs(c) <= 16:
        c = int(c)
        r = Num(z3.IntVal(1) if a.z.sort() == INT and c >= 0 else z3.RealVal(1), npy=npy)
        if c == 0: return r
        r = a
        for _ in range(abs(c) - 1): r = n_mul(r, a)
        r = Num(r.z, r.pinf, r.ninf, r.nan, npy)
        if c < 0: return n_div(Num(z3.RealVal(1), npy=npy), r)
        if b.z.sort() == REAL: return Num(toreal(r.z), r.pinf, r.ninf, r.nan, npy)
        return r
    if c is not None and Fraction(c) == Fraction(1, 2):
        return n_sqrt(a, npy=True if npy else False)
    if c is not None and Fraction(c) == Fraction(-1, 2):
        return n_div(Num(z3.RealVal(1), npy=npy), n_sqrt(a, npy=True if npy else False))
    # general: positive finite base
    if a.plain and b.plain:
        if _proves(a.z > 0) or CTX.branch(a.z > 0):
            return n_exp(Num(toreal(b.z) * L(toreal(a.z)), npy=npy))
        if CTX.branch(a.z == 0):
            if CTX.branch(b.z > 0): return Num(z3.RealVal(0), npy=npy)
            if CTX.branch(b.z == 0): return Num(z3.RealVal(1), npy=npy)
            raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    if b.plain and a.pinf is True:
        if CTX.branch(b.z > 0): return Num(z3.RealVal(0), pinf=True, npy=npy)
        if CTX.branch(b.z < 0): return Num(z3.RealVal(0), npy=npy)
        return Num(z3.RealVal(1), npy=npy)
    raise Unsupported(f'power {a} ** {b}')


def ite(c, a, b):
    """Merge of two numbers/booleans under a condition."""
    c = tz(c)
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, (Bool, bool)) and isinstance(b, (Bool, bool)):
        return mkbool(b_ite(c, tz(a), tz(b)))
    x, y = lift(a), lift(b)
    if x is None or y is None: raise Unsupported(f'cannot merge {a!r} and {b!r}')
    npy = x.npy or y.npy
    # a literal infinity keeps the other side's value in z (irrelevant under the flag)
    if x.plain or y.plain or True:
        if x.pinf is True or x.ninf is True or x.nan is True: zx = y.z
        else: zx = x.z
        if y.pinf is True or y.ninf is True or y.nan is True: zy = x.z
        else: zy = y.z
    zx, zy = unify(zx, zy)
    z = zx if zx.eq(zy) else z3.If(c, zx, zy)
    return Num(z, b_ite(c, x.pinf, y.pinf), b_ite(c, x.ninf, y.ninf), b_ite(c, x.nan, y.nan), npy)


def same(a, b):
    """Identity of extended reals as z3 Bool (nan equals nan)."""
    a, b = lift(a), lift(b)
    x, y = unify(a.z, b.z)
    if a.plain and b.plain: return x == y
    return b_and(b_ite(zb(a.nan), b.nan, b_not(b.nan)) if True else None,
                 b_ite(zb(a.pinf), b.pinf, b_not(b.pinf)),
                 b_ite(zb(a.ninf), b.ninf, b_not(b.ninf)),
                 b_or(b_not(a.fin()), x == y))
