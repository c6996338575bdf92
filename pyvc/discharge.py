"""Validity queries: normal form, literal propagation, fact generation, z3, nlsat, cvc5."""
import math
import os
import sys
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from .sym import *
from .sym import CTX, E, L, SQRT, zb, is_const, cval, toreal
from . import poly as P

DEBUG = os.environ.get('PYVC_DEBUG')
STATS = {'z3': 0, 'z3-nlsat': 0, 'cvc5': 0, 'trivial': 0, 'solver_s': 0.0, 'queries': 0}
UF_AXIOMS = {}      # function name -> fn(app) -> [z3 Bool]
UF_PAIR_AXIOMS = {}  # function name -> fn(app1, app2) -> [z3 Bool]


def _round_axioms(a):
    # nearest integer, ties to even
    x, h = a.arg(0), z3.RealVal('1/2')
    d = x - z3.ToReal(a)
    half = z3.Function('py_round_half', REAL, INT)(x)
    return [d <= h, d >= -h, z3.Implies(z3.Or(d == h, d == -h), a == 2 * half)]


UF_AXIOMS['py_round'] = _round_axioms
UF_PAIR_AXIOMS['py_round'] = lambda a, b: [z3.Implies(a.arg(0) <= b.arg(0), a <= b)]
_keep = {}
_ua = {}
UFAPP = {}


def ufs(e):
    """ids of the uninterpreted applications (with arguments) occurring in e"""
    k = e.get_id()
    r = _ua.get(k)
    if r is not None: return r
    st = [e]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in _ua: st.pop(); continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _ua]
        if todo: st.extend(todo); continue
        s = frozenset()
        for c in ch:
            t = _ua[c.get_id()]
            s = t if not s else (s if not t else s | t)
        if ch and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            UFAPP[i] = x
            s = s | {i}
        _ua[i] = s
        _keep[i] = x
        st.pop()
    return _ua[k]


def apps(es):
    ids = set()
    for e in es: ids |= ufs(e)
    return [UFAPP[i] for i in sorted(ids)]


def walk(es):
    seen, st = set(), list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        yield x
        st.extend(x.children())


_nb = {}
CMP = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)
ZERO = z3.RealVal(0)


def norm_bool(z):
    k = z.get_id()
    r = _nb.get(k)
    if r is not None: return r[0]
    r = _norm_bool(z)
    _nb[k] = (r, z)
    _nb[r.get_id()] = (r, r)
    return r


def _norm_bool(z):
    if z3.is_true(z) or z3.is_false(z): return z
    if not z3.is_app(z): return z
    k = z.decl().kind()
    ch = z.children()
    if k in CMP and len(ch) == 2 and ch[0].sort() != z3.BoolSort():
        if ch[0].sort() not in (REAL, INT): return z
        isint = ch[0].sort() == INT
        p = P.add(P.poly(ch[0]), P.neg(P.poly(ch[1])))
        if not p or list(p) == [()]:
            c = p.get((), 0)
            return z3.BoolVal({z3.Z3_OP_LE: c <= 0, z3.Z3_OP_LT: c < 0, z3.Z3_OP_GE: c >= 0, z3.Z3_OP_GT: c > 0, z3.Z3_OP_EQ: c == 0, z3.Z3_OP_DISTINCT: c != 0}[k])
        if isint:
            s = z3.simplify(z)
            return s
        lead = max(p)      # () sorts first: never the constant unless alone
        c = p[lead]
        if c != 1: p = {m: v / c for m, v in p.items()}
        if c < 0: k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        e = P.to_z3(p)
        if k == z3.Z3_OP_LE: return e <= ZERO
        if k == z3.Z3_OP_LT: return e < ZERO
        if k == z3.Z3_OP_GE: return z3.Not(e < ZERO)
        if k == z3.Z3_OP_GT: return z3.Not(e <= ZERO)
        if k == z3.Z3_OP_EQ: return e == ZERO
        return z3.Not(e == ZERO)
    if k == z3.Z3_OP_NOT:
        a = norm_bool(ch[0])
        if z3.is_not(a): return a.arg(0)
        if z3.is_true(a): return z3.BoolVal(False)
        if z3.is_false(a): return z3.BoolVal(True)
        return z3.Not(a)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        neutral = k == z3.Z3_OP_AND
        out, seen = [], set()
        for c in ch:
            a = norm_bool(c)
            subs = a.children() if z3.is_app(a) and a.decl().kind() == k else [a]
            for a in subs:
                if z3.is_true(a) or z3.is_false(a):
                    if z3.is_true(a) == neutral: continue
                    return z3.BoolVal(not neutral)
                if a.get_id() in seen: continue
                seen.add(a.get_id()); out.append(a)
        if not out: return z3.BoolVal(neutral)
        if len(out) == 1: return out[0]
        return z3.And(*out) if neutral else z3.Or(*out)
    if k == z3.Z3_OP_IMPLIES:
        return norm_bool(z3.Or(z3.Not(ch[0]), ch[1]))
    if z.sort() == z3.BoolSort() and ch and all(c.sort() == z3.BoolSort() for c in ch):
        return z3.simplify(z.decl()(*[norm_bool(c) for c in ch]))
    return z


P.NORM_BOOL[0] = norm_bool
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def propagate(es):
    """unit propagation of literal facts through the other facts"""
    lits = {}
    rest = []
    work = list(es)
    for rnd in range(6):
        new = []
        nxt = []
        st = list(reversed(work))
        while st:
            e = st.pop()
            if z3.is_true(e): continue
            if z3.is_false(e): return [FALSE]
            k = e.decl().kind() if z3.is_app(e) else None
            if k == z3.Z3_OP_AND: st.extend(reversed(e.children())); continue
            pos = True
            a = e
            if k == z3.Z3_OP_NOT:
                a = e.arg(0); pos = False
                if z3.is_or(a): st.extend(z3.Not(c) if not z3.is_not(c) else c.arg(0) for c in a.children()); continue
            ka = a.decl().kind() if z3.is_app(a) else None
            if ka in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES) or (ka in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR) and a.arg(0).sort() == z3.BoolSort()):
                nxt.append(e); continue
            o = lits.get(a.get_id())
            if o is not None:
                if o[1] != pos: return [FALSE]
                continue
            lits[a.get_id()] = (a, pos)
            new.append((a, pos))
        if not new: rest = nxt; break
        subs = []
        for a, pos in new:
            subs.append((a, TRUE if pos else FALSE))
            if z3.is_app(a) and a.num_args() == 2 and a.arg(0).sort() == REAL:
                k = a.decl().kind()
                x = a.arg(0)
                if k == z3.Z3_OP_LT and pos: subs += [(x <= ZERO, TRUE), (x == ZERO, FALSE)]
                elif k == z3.Z3_OP_LE and not pos: subs += [(x < ZERO, FALSE), (x == ZERO, FALSE)]
                elif k == z3.Z3_OP_EQ and pos: subs += [(x <= ZERO, TRUE), (x < ZERO, FALSE)]
        work = []
        for e in nxt:
            e2 = z3.substitute(e, *subs)
            if not e2.eq(e): e2 = norm_bool(z3.simplify(e2))
            work.append(e2)
        # literals may contain conditionals decided by other literals
        ls = list(lits.values())
        for a, pos in ls:
            if has_ite(a):
                others = [s for s in subs if not s[0].eq(a)]
                a2 = z3.substitute(a, *others)
                if not a2.eq(a):
                    del lits[a.get_id()]
                    a2 = norm_bool(z3.simplify(a2))
                    work.append(a2 if pos else norm_bool(z3.Not(a2)))
        rest = work
    return [a if pos else z3.Not(a) for a, pos in lits.values()] + rest


_hi = {}


def has_ite(e):
    k = e.get_id()
    r = _hi.get(k)
    if r is None:
        r = any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in walk([e]))
        _hi[k] = r
        _keep[k] = e
    return r


def rat_bounds(c, f):
    try: v = f(float(c))
    except OverflowError: return None
    if not math.isfinite(v) or abs(v) > 1e12: return None
    e = abs(v) * 1e-12 + 1e-300
    return Fraction(v) - Fraction(e), Fraction(v) + Fraction(e)


def uni_at(ctx, u, t):
    """instance of a universal at t (cached); None if it cannot be evaluated"""
    c = u.cache
    k = t.get_id()
    if k in c: return c[k][0]
    last = ctx.pc[-1] if ctx.pc else None
    k2 = (k, len(ctx.pc), id(last))
    if k2 in c: return c[k2][0]
    old = ctx.nofork, ctx.noinst, ctx.decided
    ctx.nofork = ctx.noinst = True
    ctx.decided = False
    try: b = zb(u.fn(t))
    except (PathEnd, Unsupported): b = None
    finally:
        d = ctx.decided
        ctx.nofork, ctx.noinst, ctx.decided = old
    # decisions taken under the current facts hold only while those facts do
    c[k2 if d else k] = (b, t, last)
    return b


def instantiate(ctx, goal, extra_terms=(), slow=True):
    """ground facts of the context plus universals at the index terms."""
    facts = list(ctx.ground()) + list(ctx.lemmas)
    if ctx.noinst: return facts
    unis = [f for f in ctx.pc if isinstance(f, Universal) and (slow or not f.slow)]
    if unis:
        terms = list(ctx.indices) + list(extra_terms)
        if goal is not None:
            consts = {c.get_id() for c in ctx.index_consts.values()}
            for x in int_consts(goal):
                if x.get_id() in consts and not any(x.eq(t) for t in terms): terms.append(x)
        for a in ctx.active:
            if not any(a.eq(t) for t in terms): terms.append(a)
        for u in unis:
            for t in terms[-16:]:
                b = uni_at(ctx, u, t)
                if b is None or z3.is_true(b): continue
                facts.append(z3.Implies(z3.And(u.lo <= t, t < u.hi), b))
    return facts


_ic = {}


def int_consts(e):
    k = e.get_id()
    if k not in _ic:
        _ic[k] = [x for x in walk([e]) if z3.is_const(x) and x.sort() == INT and not is_const(x)]
        _keep[k] = e
    return _ic[k]


def sum_apps(es):
    return [x for x in apps(es) if x.decl().name() in CTX.sum_by_name and x.num_args() >= 2]


def sum_facts(facts, goal, deep, ctx, deadline):
    from .seq import sum_body
    aps = sum_apps(goal)
    out, pre = [], {}
    byf = {}
    for a in aps:
        lo, hi = a.children()[-2:]
        ps = a.children()[:-2]
        key = (a.decl().name(),) + tuple(p.get_id() for p in ps)
        pf = z3.Function('P' + a.decl().name(), *[p.sort() for p in ps], z3.IntSort(), z3.RealSort())
        P_ = (lambda pf, ps: lambda x: pf(*ps, x))(pf, ps)
        pts = pre.setdefault(key, (P_, a, {}))[2]
        out.append(z3.Implies(hi >= lo, a == P_(hi) - P_(lo)))
        out.append(z3.Implies(hi <= lo, a == 0))
        for x in (lo, hi): pts[z3.simplify(x).get_id()] = z3.simplify(x)
        byf.setdefault(key, []).append(a)
    for key, (P_, a, pts) in pre.items():
        xs = list(pts.values())
        # unit steps between mentioned bounds
        for x in xs:
            for y in xs:
                if x is y: continue
                d = z3.simplify(y - x)
                if z3.is_int_value(d) and 1 <= d.as_long() <= 2:
                    r = P_(x)
                    for i in range(d.as_long()): r = r + toreal(sum_body(a, z3.simplify(x + i)))
                    out.append(P_(y) == r)
    if not deep: return out
    # sign and pairwise comparison of summands (extensionality / monotonicity)
    reps = []
    for a in aps:
        if not any(a.eq(b) for b in reps): reps.append(a)
    base = facts
    signs = {}
    out += combined_sums(goal, base, ctx, deadline)
    for key, (P_, a, pts) in pre.items():
        j = ctx_index()
        b = toreal(sum_body(a, j))
        los = [x.children()[-2] for x in byf[key]]
        lo0 = los[0]
        rng = z3.And(*[z3.Or(*[z3.And(j >= x.children()[-2], j < x.children()[-1]) for x in byf[key]])])
        s = None
        if time.time() > deadline: break
        if sub_valid(base, z3.Implies(rng, b >= 0), ctx, j): s = 1
        elif sub_valid(base, z3.Implies(rng, b <= 0), ctx, j): s = -1
        signs[key] = s
        if s and sub_valid(base, z3.Implies(rng, b != 0), ctx, j):
            for a1 in byf[key]: out.append(z3.Implies(a1.children()[-1] > a1.children()[-2], a1 > 0 if s > 0 else a1 < 0))
        if s:
            xs = list(pts.values())
            for a1 in byf[key]:
                out.append(a1 >= 0 if s > 0 else a1 <= 0)
            if len(byf[key]) > 1 or True:
                for x in xs:
                    for y in xs:
                        if x is not y:
                            # valid when [x,y) lies in one of the ranges
                            g = z3.Or(*[z3.And(z.children()[-2] <= x, y <= z.children()[-1]) for z in byf[key]])
                            out.append(z3.Implies(z3.And(x <= y, g), P_(x) <= P_(y) if s > 0 else P_(x) >= P_(y)))
    for i in range(len(reps)):
        for k in range(i + 1, len(reps)):
            a, b = reps[i], reps[k]
            if time.time() > deadline: return out
            same_f = a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children()[:-2], b.children()[:-2]))
            if same_f: continue
            la, ha = a.children()[-2:]; lb, hb = b.children()[-2:]
            j = ctx_index()
            if not (la.eq(lb) and ha.eq(hb)) and not sub_valid(base, z3.Implies(z3.Or(ha > la, hb > lb), ha - la == hb - lb), ctx, None): continue
            fa = toreal(sum_body(a, z3.simplify(la + j))); fb = toreal(sum_body(b, z3.simplify(lb + j)))
            rng = z3.And(j >= 0, j < ha - la)
            if sub_valid(base, z3.Implies(rng, fa == fb), ctx, j): out.append(a == b)
            elif sub_valid(base, z3.Implies(rng, fa <= fb), ctx, j): out.append(a <= b)
            elif sub_valid(base, z3.Implies(rng, fa >= fb), ctx, j): out.append(a >= b)
    return out


def merge_exps(p):
    """the polynomial with the exponentials of each monomial multiplied together"""
    r = ZERO
    for m in sorted(p):
        arg, rest = {}, []
        for k, w in m:
            if k in P.EXP_ATOMS: arg = P.add(arg, P.mul(P.const(w), P.EXP_ATOMS[k]))
            else: rest.append((k, w))
        t = P.to_z3({tuple(rest): p[m]})
        r = r + (t * E(P.to_z3(arg)) if arg else t)
    return r


def combined_sums(goal, base, ctx, deadline):
    """a linear combination of sums over the same range has the sign of the combined summand"""
    from .seq import sum_body
    out, done = [], set()
    for lit in goal:
        a = lit.arg(0) if z3.is_not(lit) else lit
        if not (z3.is_app(a) and a.decl().kind() in CMP and a.num_args() == 2 and a.arg(0).sort() == REAL): continue
        if len(sum_apps([a])) < 2: continue
        p = P.add(P.poly(a.arg(0)), P.neg(P.poly(a.arg(1))))
        groups = {}
        items = []
        for m, c in p.items():
            ss = [(k, w) for k, w in m if z3.is_app(P.ATOMS[k]) and P.ATOMS[k].decl().name() in CTX.sum_by_name]
            if len(ss) != 1 or ss[0][1] != 1: continue
            items.append((P.ATOMS[ss[0][0]], {tuple(x for x in m if x[0] != ss[0][0]): c}, m, c))
        was_split = set()
        for rnd in range(2):
            cut = None
            rs = {}
            for s, *_ in items: rs.setdefault((s.arg(s.num_args() - 2).get_id(), s.arg(s.num_args() - 1).get_id()), s.children()[-2:])
            rs = list(rs.values())
            for x in rs:
                for y in rs:
                    if x is y or time.time() > deadline: continue
                    if x[1].eq(y[1]) and not x[0].eq(y[0]) and sub_valid(base, z3.And(x[0] <= y[0], y[0] <= x[1]), ctx, None): cut = (x, y[0])
                    elif x[0].eq(y[0]) and not x[1].eq(y[1]) and sub_valid(base, z3.And(x[0] <= y[1], y[1] <= x[1]), ctx, None): cut = (x, y[1])
                    if cut: break
                if cut: break
            if not cut: break
            (lo, hi), at = cut
            new = []
            for s, co, m, c in items:
                if not (s.children()[-2].eq(lo) and s.children()[-1].eq(hi)): new.append((s, co, m, c)); continue
                ps = s.children()[:-2]
                a1, a2 = s.decl()(*ps, lo, at), s.decl()(*ps, at, hi)
                out.append(s == a1 + a2)
                for t in (a1, a2):
                    d = z3.simplify(t.children()[-1] - t.children()[-2])
                    if z3.is_int_value(d) and d.as_long() == 1: out.append(t == toreal(sum_body(t, t.children()[-2])))
                    P.atom(t)
                    was_split.add(t.get_id())
                    new.append((t, co, P.mono_mul(tuple(x for x in m if x[0] != s.get_id()), ((t.get_id(), 1),)), c))
            items = new
        for t in items:
            lo, hi = t[0].children()[-2:]
            n = z3.simplify(hi - lo)
            groups.setdefault(n.get_id(), (n, []))[1].append(t)
        for n, ts in groups.values():
            if (len({t[0].get_id() for t in ts}) < 2 and ts[0][0].get_id() not in was_split) or time.time() > deadline: continue
            key = tuple(sorted((t[2], t[3]) for t in ts))
            if key in done: continue
            done.add(key)
            j = ctx_index()
            g = {}
            for s, co, _, _ in ts: g = P.add(g, P.mul(co, P.poly(toreal(sum_body(s, z3.simplify(s.children()[-2] + j))))))
            g = merge_exps(g)
            acc = {}
            for t in ts: acc = P.add(acc, {t[2]: t[3]})     # the same sum may come twice, from a split
            tot = P.to_z3(acc)
            rng = z3.And(j >= 0, j < n)
            if sub_valid(base, z3.Implies(rng, g == 0), ctx, j): out.append(tot == 0)
            elif sub_valid(base, z3.Implies(rng, g >= 0), ctx, j): out.append(tot >= 0)
            elif sub_valid(base, z3.Implies(rng, g <= 0), ctx, j): out.append(tot <= 0)
            if len(done) > 6: return out
    return out


def ctx_index():
    from .seq import new_index
    return new_index('e')


def sub_valid(facts, goal, ctx, j):
    fs = list(facts)
    if j is not None:
        # universals at the summation index
        for u in [f for f in ctx.pc if isinstance(f, Universal)]:
            for t in [j] + [x for x in index_terms(goal) if not x.eq(j)][:3]:
                b = uni_at(ctx, u, t)
                if b is None: continue
                fs.append(z3.Implies(z3.And(u.lo <= t, t < u.hi), b))
    return solve(fs, goal, ctx, 1.5, deep=False)[0]


def index_terms(z):
    """integer arguments that look like indices (inside uninterpreted applications)."""
    out = []
    for x in walk([z]):
        if z3.is_app(x) and x.num_args() >= 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for c in x.children():
                if c.sort() == z3.IntSort() and not is_const(c) and not any(c.eq(o) for o in out): out.append(c)
    return out


def relevant(facts, goal):
    return facts


def fun_facts(raw, es):
    """axiom instances for exp, log, sqrt and registered functions."""
    out = []
    exps, logs = {}, {}
    eas = apps(es)
    live = {x.get_id() for x in eas}
    for x in raw:
        if x.decl().eq(E):
            t = P.to_z3(P.poly(x.arg(0)))
            p = P.to_z3(P.exp_poly(P.poly(t)))
            if all(y.get_id() in live for y in apps([p]) if y.decl().eq(E)): exps[t.get_id()] = t
    for x in eas:
        if x.decl().eq(E): exps.setdefault(x.arg(0).get_id(), x.arg(0))
        elif x.decl().eq(L): logs[x.get_id()] = x
        elif x.decl().eq(SQRT):
            a = x.arg(0)
            out += [z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)), z3.Implies(a > 0, x > 0)]
    args = list(exps.values())[:24]
    prods = [P.to_z3(P.exp_poly(P.poly(t))) for t in args]
    one, zero = z3.RealVal(1), z3.RealVal(0)
    seen = set()
    for x in apps(prods) + eas:
        if x.decl().eq(E) and x.get_id() not in seen:
            seen.add(x.get_id()); out.append(x > 0)
    for t, p in zip(args, prods):
        out += [p > 0, (t > 0) == (p > 1), (t < 0) == (p < 1), p >= 1 + t]
        if is_const(t):
            b = rat_bounds(cval(t), math.exp)
            if b: out += [p >= z3.RealVal(str(b[0])), p <= z3.RealVal(str(b[1]))]
    for i in range(len(args)):
        for k in range(i + 1, len(args)):
            out.append((args[i] < args[k]) == (prods[i] < prods[k]))
            out.append((args[i] == args[k]) == (prods[i] == prods[k]))
    # logs
    frontier = list(logs.values())
    n = 0
    while frontier and n < 40:
        x = frontier.pop(); n += 1
        a = x.arg(0)
        p = P.poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and (len(m) > 1 or (len(m) == 1 and (m[0][1] != 1 or c != 1))):
                guards, terms = [], []
                if c != 1:
                    lc = L(z3.RealVal(str(c)))
                    terms.append(lc)
                    if lc.get_id() not in logs: logs[lc.get_id()] = lc; frontier.append(lc)
                for k, pw in m:
                    at = toreal(P.ATOMS[k])
                    if k in P.EXP_ATOMS:
                        terms.append(pw * P.to_z3(P.EXP_ATOMS[k])); continue
                    guards.append(at > 0)
                    la = L(P.to_z3(P.poly(at)))
                    terms.append(pw * la)
                    if la.get_id() not in logs: logs[la.get_id()] = la; frontier.append(la)
                out.append(z3.Implies(z3.And(*guards) if guards else z3.BoolVal(True), x == z3.Sum(terms)))
        if is_const(a) and cval(a) > 0:
            b = rat_bounds(cval(a), math.log)
            if b: out += [x >= z3.RealVal(str(b[0])), x <= z3.RealVal(str(b[1]))]
        out += [z3.Implies(a > 0, z3.And((x > 0) == (a > 1), (x < 0) == (a < 1), x <= a - 1))]
    ls = list(logs.values())[:14]
    for i in range(len(ls)):
        for k in range(i + 1, len(ls)):
            a, b = ls[i].arg(0), ls[k].arg(0)
            out.append(z3.Implies(z3.And(a > 0, b > 0), z3.And((a < b) == (ls[i] < ls[k]), (a == b) == (ls[i] == ls[k]))))
        for t, p in list(zip(args, prods))[:10]:
            a = ls[i].arg(0)
            out.append(z3.Implies(a > 0, z3.And((a < p) == (ls[i] < t), (a == p) == (ls[i] == t))))
    ax = {}
    for x in eas:
        if x.decl().name() in UF_AXIOMS or x.decl().name() in UF_PAIR_AXIOMS:
            ax.setdefault(x.decl().name(), {})[x.get_id()] = x
    for nm, d in ax.items():
        xs = list(d.values())[:12]
        if nm in UF_AXIOMS:
            for x in xs: out += UF_AXIOMS[nm](x)
        if nm in UF_PAIR_AXIOMS:
            for i in range(len(xs)):
                for k in range(len(xs)):
                    if i != k: out += UF_PAIR_AXIOMS[nm](xs[i], xs[k])
    return [norm_bool(f) for f in out]


def purify(es):
    """replaces applications of uninterpreted functions by constants."""
    out = []
    for e in es:
        ids = ufs(e)
        if not ids: out.append(e); continue
        # outermost applications first: z3 replaces matching subterms top-down
        subs = [(UFAPP[i], z3.Const(f'u!{i}', UFAPP[i].sort())) for i in sorted(ids, reverse=True)]
        out.append(z3.substitute(e, *subs))
    return out


def has_nonlinear(es):
    return True


def run_z3(es, ms, logic=None):
    s = z3.Solver() if logic is None else z3.Tactic(logic).solver()
    # a resource limit, so that the answer does not depend on the load of the machine; time only as a backstop
    s.set('rlimit', max(20, int(ms)) * 25000)
    s.set('timeout', max(20, int(ms)) * 5)
    s.add(*es)
    r = s.check()
    return r, (s.model() if r == z3.sat else None)


def solve(facts, goal, ctx, budget, deep=True, want_model=False):
    """Is goal a consequence of facts? (valid?, backend, model|None, verdict)."""
    t0 = time.time()
    STATS['queries'] += 1
    try:
        ng = norm_bool(z3.Not(goal))
        if z3.is_false(ng): STATS['trivial'] += 1; return True, 'normal form', None, 'unsat'
        base = propagate([ng] + [norm_bool(f) for f in facts])
        if len(base) == 1 and z3.is_false(base[0]): STATS['trivial'] += 1; return True, 'propagation', None, 'unsat'
        sf = sum_facts(facts, base, deep, ctx, t0 + budget * 8)
        es = base
        if sf:
            es = propagate(base + [norm_bool(f) for f in sf])
            if len(es) == 1 and z3.is_false(es[0]): STATS['trivial'] += 1; return True, 'propagation', None, 'unsat'
        raw = apps(facts + [goal])
        es = es + fun_facts(raw, es)
        verdict, model = 'unknown', None
        pe = purify(es)
        r, m = run_z3(pe, budget * 500)
        if r == z3.unsat: STATS['z3'] += 1; return True, 'z3', None, 'unsat'
        if r == z3.sat: verdict, model = 'sat', m
        # purification forgets congruence
        r, m = run_z3(es, budget * 500)
        if r == z3.unsat: STATS['z3'] += 1; return True, 'z3', None, 'unsat'
        if r == z3.sat:
            return False, 'z3', m, 'sat'
        if budget >= 3:
            if not any(int_consts(x) for x in pe):
                try: r, m = run_z3(pe, budget * 1000, 'qfnra-nlsat')
                except z3.Z3Exception: r, m = z3.unknown, None
                if r == z3.unsat: STATS['z3-nlsat'] += 1; return True, 'z3-nlsat', None, 'unsat'
                if r == z3.sat: verdict, model = 'sat', m
            if cvc5_unsat(pe, budget): STATS['cvc5'] += 1; return True, 'cvc5', None, 'unsat'
        return False, None, model, verdict if verdict == 'sat' else 'unknown'
    finally:
        dt = time.time() - t0
        STATS['solver_s'] += dt
        if DEBUG and dt > 0.3: print(f'   [solve {dt:.2f}s facts={len(facts)} goal={goal.sexpr()[:150]!r}]', file=sys.stderr, flush=True)


def cvc5_unsat(es, budget):
    s = z3.Solver(); s.add(*es)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', f'--tlimit={int(budget * 3000)}', f'--rlimit={int(budget * 400000)}', '--nl-ext-tplanes', f.name], capture_output=True, text=True, timeout=budget * 3 + 5)
        return r.stdout.strip().startswith('unsat')
    except Exception:
        return False
    finally:
        os.unlink(f.name)


_qv = {}


def ctx_key(ctx):
    return (ctx.pc_key(), tuple(t.get_id() for t in ctx.indices), ctx.nofork, ctx.noinst, len(ctx.lemmas))


def quick_valid(ctx, z, budget=0.6):
    if isinstance(z, bool): return z
    k = (ctx_key(ctx), z.get_id())
    if k in _qv: return _qv[k][0]
    was, ctx.solving = ctx.solving, True
    try:
        facts = instantiate(ctx, z, slow=False)
        r = solve(facts, z, ctx, budget, deep=False)[0]
    finally: ctx.solving = was
    _qv[k] = (r, z, list(ctx.pc))
    return r


def about_integers(z):
    return not any(z3.is_expr(x) and x.sort() == REAL for x in walk([z]))


def int_split(z):
    """a comparison of integers that decides a conditional of z"""
    for x in walk([z]):
        if z3.is_app_of(x, z3.Z3_OP_ITE) and x.sort() == REAL:
            c = x.arg(0)
            while z3.is_not(c): c = c.arg(0)
            if z3.is_app(c) and c.decl().kind() in CMP and c.num_args() == 2 and c.arg(0).sort() == INT and not any(n.startswith('sj$') or n.startswith('sp$') for n in map(str, int_consts(c))): return c
    return None


def valid(ctx, z, budget=8, info=None, splits=2, split_first=False):
    c = int_split(z) if split_first and not isinstance(z, bool) else None
    ok = valid1(ctx, z, budget if c is None else .3, info)
    if ok or isinstance(z, bool) or budget < 4 or not splits: return ok
    c = int_split(z)
    if c is None: return ok
    for a, b in ((c, TRUE), (z3.Not(c), FALSE)):
        g = z3.simplify(z3.substitute(z, (c, b)))
        if b is TRUE and c.decl().kind() == z3.Z3_OP_EQ:
            # the younger of two equal positions is replaced by the other
            x, y = sorted(c.children(), key=lambda t: '!' in str(t))
            if z3.is_const(y) and not is_const(y) and not any(y.eq(t) for t in int_consts(x)): g = z3.simplify(z3.substitute(g, (y, x)))
        g = z3.Implies(a, g)
        if int_split(g) is not None and any(c.eq(x) for x in walk([z3.simplify(z3.substitute(z, (c, b)))])): return ok
        if not valid(ctx, g, budget, {}, splits - 1, split_first): return ok
    if info is not None: info.update(backend='cases', model=None, verdict='unsat')
    return True


def valid1(ctx, z, budget=8, info=None):
    was, ctx.solving = ctx.solving, True
    try: return valid2(ctx, z, budget, info)
    finally: ctx.solving = was


def valid2(ctx, z, budget=8, info=None):
    if isinstance(z, bool):
        if z: 
            if info is not None: info.update(backend='trivial')
            return True
        z = z3.BoolVal(False)
    facts = instantiate(ctx, z)
    ok, be, model, verdict = solve(facts, z, ctx, min(2, budget), deep=False)
    if not ok and budget > 1:
        it = index_terms(z)
        facts = instantiate(ctx, z, it[:6])
        ok, be, model, verdict = solve(facts, z, ctx, budget, deep=True)
    if info is not None: info.update(backend=be, model=model, verdict=verdict)
    return ok
