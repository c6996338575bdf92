"""Polynomial normal form of z3 real terms, with exp/indicator canonicalisation."""
from fractions import Fraction
import z3
from .sym import E, L, SQRT, toreal, is_const, cval, Unsupported

ATOMS = {}
EXP_ATOMS = {}
MAX_TERMS = 4000


def atom(e):
    ATOMS[e.get_id()] = e
    return {((e.get_id(), 1),): Fraction(1)}


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def is_indicator(aid):
    e = ATOMS[aid]
    return z3.is_app_of(e, z3.Z3_OP_ITE) and is_const(e.arg(1)) and is_const(e.arg(2)) \
        and cval(e.arg(1)) == 1 and cval(e.arg(2)) == 0


def mono_mul(a, b):
    d = dict(a)
    for k, p in b:
        d[k] = d.get(k, 0) + p
    r = []
    for k in sorted(d):
        p = d[k]
        if p == 0: continue
        if p > 1 and is_indicator(k): p = 1
        r.append((k, p))
    return tuple(r)


def add(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def mul(p, q):
    if len(p) * len(q) > MAX_TERMS: raise Unsupported('polynomial too large')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    return r


def inv(p):
    if not p:
        return atom(z3.RealVal(1) / z3.RealVal(0))
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((k, -q) for k, q in m): 1 / c}
    # make monic on a canonical monomial so that equal denominators unify
    lead = min(p)
    c = p[lead]
    e = to_z3({m: v / c for m, v in p.items()})
    ATOMS[e.get_id()] = e
    return {((e.get_id(), -1),): 1 / c}


_cache = {}
_icache = {}
IND = [False]
NORM_BOOL = [None]      # set by discharge


def poly(z):
    k = z.get_id()
    c = _icache if IND[0] else _cache
    r = c.get(k)
    if r is None:
        r = _poly(z)
        c[k] = r
        ATOMS[k] = z      # keep the ast alive so that ids stay unique
    return r


def ipoly(z):
    """poly with conditionals expanded into indicator products"""
    old = IND[0]
    IND[0] = True
    try: return poly(z)
    finally: IND[0] = old


def _poly(z):
    if is_const(z): return const(cval(z))
    if not z3.is_app(z): return atom(toreal(z))
    k = z.decl().kind()
    ch = z.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch: r = add(r, poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = poly(ch[0])
        for c in ch[1:]: r = add(r, neg(poly(c)))
        return r
    if k == z3.Z3_OP_UMINUS: return neg(poly(ch[0]))
    if k == z3.Z3_OP_MUL:
        r = const(1)
        for c in ch: r = mul(r, poly(c))
        return r
    if k == z3.Z3_OP_DIV:
        return mul(poly(ch[0]), inv(poly(ch[1])))
    if k == z3.Z3_OP_TO_REAL:
        return poly(ch[0])
    if k == z3.Z3_OP_POWER and is_const(ch[1]) and cval(ch[1]) == int(cval(ch[1])) and 0 <= cval(ch[1]) <= 8:
        r = const(1)
        for _ in range(int(cval(ch[1]))): r = mul(r, poly(ch[0]))
        return r
    if k == z3.Z3_OP_ITE:
        c = ch[0]
        c = NORM_BOOL[0](c) if NORM_BOOL[0] else z3.simplify(c)
        if z3.is_true(c): return poly(ch[1])
        if z3.is_false(c): return poly(ch[2])
        neg_ = False
        if z3.is_not(c):
            c = c.arg(0); neg_ = True
        a, b = (ch[2], ch[1]) if neg_ else (ch[1], ch[2])
        pa, pb = poly(a), poly(b)
        if pa == pb: return pa
        if not IND[0] and z.sort() == z3.RealSort():
            za, zb_ = to_z3(pa), to_z3(pb)
            if is_const(za) and is_const(zb_):
                i = atom(z3.If(c, z3.RealVal(1), z3.RealVal(0)))
                return add(mul(i, add(pa, neg(pb))), pb)
            return atom(z3.If(c, za, zb_))
        i = atom(z3.If(c, z3.RealVal(1), z3.RealVal(0)))
        return add(mul(i, add(pa, neg(pb))), pb)
    if z.decl().eq(E):
        return exp_poly(poly(ch[0]))
    if z.decl().eq(L):
        # log(exp(t)) = t
        p = poly(ch[0])
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][0] in EXP_ATOMS:
                return mul(const(m[0][1]), EXP_ATOMS[m[0][0]])
        if p == const(1): return {}
        e = L(to_z3(p))
        return atom(e)
    if z.sort() == z3.IntSort():
        return atom(z3.ToReal(z))
    if z.num_args() > 0:
        # canonicalise arguments of uninterpreted functions
        args = [to_z3(poly(c)) if c.sort() == z3.RealSort() else z3.simplify(c) for c in ch]
        return atom(z.decl()(*args))
    return atom(z)


def exp_poly(p):
    """poly of exp(p)."""
    r = const(1)
    for m, c in sorted(p.items()):
        n, d = c.numerator, c.denominator
        if len(m) == 1 and m[0][1] == 1 and d == 1:
            a = ATOMS[m[0][0]]
            if z3.is_app(a) and a.decl().eq(L):
                x = poly(a.arg(0))
                f = x if n > 0 else inv(x)
                if abs(n) <= 12:
                    for _ in range(abs(n)): r = mul(r, f)
                    continue
        if abs(n) > 40 or d != 1:
            # keep the sign outside so that exp(-x) = 1/exp(x)
            arg = {m: abs(c)}
            e = E(to_z3(arg))
            w = 1 if n > 0 else -1
        else:
            arg = {m: Fraction(1, d)}
            e = E(to_z3(arg))
            w = n
        ATOMS[e.get_id()] = e
        EXP_ATOMS[e.get_id()] = arg
        r = mul(r, {((e.get_id(), w),): Fraction(1)})
    return r


def mono_z3(m):
    num = []
    for k, p in m:
        e = toreal(ATOMS[k])
        if p > 0: num += [e] * p
        else:
            d = e
            for _ in range(-p - 1): d = d * e
            num.append(z3.RealVal(1) / d)
    if not num: return z3.RealVal(1)
    r = num[0]
    for e in num[1:]: r = r * e
    return r


def to_z3(p):
    r = None
    for m in sorted(p):
        c = p[m]
        t = mono_z3(m)
        if c != 1 or not m:
            cz = z3.RealVal(str(c))
            t = cz if not m else cz * t
        r = t if r is None else r + t
    return z3.RealVal(0) if r is None else r


def norm(z):
    if z.sort() == z3.BoolSort(): return z3.simplify(z)
    return to_z3(poly(z))
