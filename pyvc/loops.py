"""Loop rule: inductive summaries (folds, maps), invariants (Houdini)."""
import os
import sys
import z3
from .sym import *
from .sym import CTX, _proves
from .seq import *
from .seq import Seq, Filtered, mknum, zint, new_index, zsum, depends, value_subst, branch_cond, merge_outcomes, note_index
from . import poly as P
from . import npshim
from .npshim import SymRange, SymZip, Lazy, to_seq
from . import maps


def symbolic_iter(it):
    if isinstance(it, (SymRange, SymZip, Lazy)): return True
    if isinstance(it, Seq): return not isinstance(it.n, int)
    if isinstance(it, (Filtered, maps.Unordered, maps.SymDict)): return True
    f = getattr(type(it), '__vc_iter__', None)
    return f is not None


def as_seq(it):
    f = getattr(type(it), '__vc_iter__', None)
    if f: return f(it)
    if isinstance(it, SymZip): return it.seq()
    return to_seq(it, 'list')


def comp(f, it, cond=None, star=False, lazy=False):
    if not symbolic_iter(it):
        if cond is None:
            g = (f(*x) for x in it) if star else (f(x) for x in it)
        else:
            g = (f(*x) for x in it if cond(*x)) if star else (f(x) for x in it if cond(x))
        return g if lazy else list(g)
    if isinstance(it, maps.SymDict): it = it.keys()
    if isinstance(it, maps.Unordered):
        r = comp(f, it.seq, cond, star, lazy)
        return maps.Unordered(r.seq() if isinstance(r, Lazy) else r)
    seq = as_seq(it)
    ff = (lambda x: f(*x)) if star else f
    if isinstance(seq, Filtered):
        if cond is not None: raise Unsupported('filtered comprehension of filtered array')
        # the elements that were filtered out are not visited
        both = Seq(seq.mask.n, lambda j: (seq.base.elem(j), seq.mask.elem(j)), 'list')
        r = comp_map(lambda xm: ff(xm[0]) if xm[1] else 0, both)
        return Filtered(r, seq.mask)
    if cond is not None:
        cc = (lambda x: cond(*x)) if star else cond
        base = comp_map(ff, seq)
        mask = comp_map(cc, seq)
        r = Filtered(base, mask)
    else:
        r = comp_map(ff, seq)
    return Lazy(r) if lazy and isinstance(r, Seq) else r


def comp_map(f, seq):
    n = seq.zn
    k = new_index('c')
    CTX.active.append(k)
    try:
        def run():
            CTX.add(z3.And(k >= 0, k < n))
            return f(seq.elem(k))
        outs = CTX.explore(run)
    finally:
        CTX.active.pop()
    oks = [o for o in outs if o[1] == 'ok']
    bad = [o for o in outs if o[1] == 'exc']
    leave_loop(oks, bad, k, n, lambda j: [])
    if not oks:
        CTX.add(n <= 0)
        return Seq(0, lambda j: 0, 'list')
    vals = [o[2] for o in oks]
    facts_forall(oks, k, n, lambda j: [])
    if all(isinstance(v, (Num, Bool, bool)) or lift(v) is not None for v in vals):
        t = merge_outcomes([(branch_cond(o[0]), o[2]) for o in oks])
        return Seq(seq.n, lambda j: value_subst(t, [(k, j)]) if isinstance(t, (Num, Bool)) else t, 'list')
    return Seq(seq.n, lambda j: f(seq.elem(j)), 'list')


def facts_forall(outs, k, n, state_pairs):
    """Facts assumed while running the body hold at every index."""
    fs = []
    for o in outs:
        c = branch_cond(o[0])
        plain = [f.z for f in o[0] if isinstance(f, Fact) and not f.branch]
        plain = [z for z in plain if not is_range_fact(z, k)]
        if plain:
            b = b_and(*plain)
            fs.append(z3.Implies(zb(c), zb(b)))
    if fs:
        body = z3.And(*fs)
        CTX.add_universal(z3.IntVal(0), n, lambda j: z3.substitute(body, (k, j), *state_pairs(j)))


def is_range_fact(z, k):
    return z3.is_and(z) and z.num_args() == 2 and z.arg(0).eq(k >= 0)


def leave_loop(oks, bad, k, n, state_pairs):
    """Non-deterministically leaves the loop through one of the `bad` outcomes.
    Returns (outcome, m) after assuming its condition at iteration m, or None
    after assuming that every iteration continues. Exceptions are re-raised."""
    if not bad: return None
    conds = [branch_cond(o[0]) for o in oks]
    nxt = zb(b_or(*conds)) if conds else z3.BoolVal(False)
    c = CTX.choose(1 + len(bad))
    sub = lambda z, j: z3.substitute(z, (k, j), *state_pairs(j))
    if c == 0:
        CTX.add_universal(z3.IntVal(0), n, lambda j: sub(nxt, j))
        CTX.left_at = n
        return None
    o = bad[c - 1]
    m = CTX.fresh('brk', z3.IntSort())
    note_index(m)
    CTX.left_at = m
    CTX.add(z3.And(m >= 0, m < n))
    CTX.add_universal(z3.IntVal(0), m, lambda j: sub(nxt, j))
    for f in o[0]:
        if isinstance(f, Fact): CTX.add(sub(zb(f.z), m), f.branch)
        else:
            CTX.add_universal(sub(f.lo, m), sub(f.hi, m), (lambda g: lambda i: sub(zb(g(i)), m))(f.fn))
    s = z3.Solver(); s.set('timeout', 500); s.add(*CTX.ground())
    if s.check() == z3.unsat: raise PathEnd()
    if o[1] == 'exc': raise o[2]
    return o, m


class LoopList:
    """A list inside the body of a symbolic loop: records what is appended."""
    def __init__(self, base): self.base, self.added, self.depth = base, [], len(CTX.active) + 1
    def append(self, x):
        if self.depth < len(CTX.active): raise Unsupported('a list grows in a nested symbolic loop')
        self.added.append(x)
    def extend(self, xs):
        if self.depth < len(CTX.active): raise Unsupported('a list grows in a nested symbolic loop')
        if npshim.symbolic(xs) and not isinstance(xs, (list, tuple)): raise Unsupported('extend by a symbolic sequence in a loop')
        self.added.extend(xs)
    def __iadd__(self, xs): self.extend(xs); return self
    def __getattr__(self, a): raise Unsupported(f'list.{a} inside a symbolic loop')
    def __len__(self): raise Unsupported('len of a list under construction in a symbolic loop')
    def __getitem__(self, i): raise Unsupported('element of a list under construction in a symbolic loop')


def havoc(v, name, real=False):
    if isinstance(v, Bool) or isinstance(v, bool):
        return Bool(CTX.fresh(name, z3.BoolSort()))
    n = lift(v)
    if n is not None:
        if not n.plain:
            h = getattr(CTX, 'havoc_special', None)
            if h: return h(v, name)
            return Num(CTX.fresh(name, z3.RealSort()), Bf(name, n.pinf), Bf(name, n.ninf), Bf(name, n.nan), n.npy)
        so = z3.IntSort() if n.is_int and not real else z3.RealSort()
        return Num(CTX.fresh(name, so), npy=n.npy)
    if isinstance(v, list) or (isinstance(v, Seq) and v.kind == 'list'):
        return LoopList(v)
    if isinstance(v, Seq) and v.kind == 'array': return Vec(v, name)
    return v


class Vec(Seq):
    """A carried array: its element at any index is an unknown; folded elementwise."""
    def __init__(self, init, name):
        no = CTX.tick()
        act = list(CTX.active)
        srt = [a.sort() for a in act] + [z3.IntSort()]
        p = init.elem(new_index('v'))
        p = lift(p)
        if p is None or p.ninf is not False and not z3_false(p.ninf) or p.nan is not False and not z3_false(p.nan): raise Unsupported(f'loop: carried array {name}')
        self.hf = z3.Function(f'{name}!{no}', *srt, z3.RealSort())
        self.hi = z3.Function(f'{name}_inf!{no}', *srt, z3.BoolSort()) if p.pinf is not False else None
        self.act = act
        self.init = init
        self.own = None          # the loop index, if element `own` is known to be untouched before iteration `own`
        def el(j):
            if self.own is not None and z3.simplify(j).eq(self.own): return init.elem(j)
            return Num(self.hf(*act, j), pinf=self.hi(*act, j) if self.hi is not None else False, npy=True)
        super().__init__(init.n, el, 'array')
        self.base_elem = el
        self.writes = []
        self.depth = len(CTX.active) + 1

    def reset(self):
        self._elem, self._cache, self.writes = self.base_elem, {}, []

    def __setitem__(self, i, v):
        if isinstance(i, (int, Num)) and not isinstance(i, bool):
            z = z3.simplify(zint(i))
            if z3.is_int_value(z) and z.as_long() < 0: z = z3.simplify(z + self.zn)
            self.writes.append((z, v))
        else: self.writes.append((None, v))
        super().__setitem__(i, v)

    def ended(self):
        # what the array is at the end of an iteration
        if not self.writes: return self
        e = Seq(self.n, self._elem, 'array')
        e.writes = list(self.writes)
        return e

    def uses(self, z):
        """does z mention the unknown array?"""
        st, seen = [z], set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and (x.decl().eq(self.hf) or self.hi is not None and x.decl().eq(self.hi)): return True
            st.extend(x.children())
        return False

    def delta(self, e, allH):
        """(t, g): the new value is the old one plus g at every index t; None if it is not of that form"""
        if not isinstance(e, Seq) or not _proves(zint(e.n) == zint(self.n)): return None
        t = new_index('v')
        CTX.active.append(t)
        try:
            x = lift(e.elem(t))
            if x is None: return None
            c = Num(z3.Const(f'vc!{t}', z3.RealSort()), pinf=z3.Const(f'vi!{t}', z3.BoolSort()) if self.hi is not None else False)
            pairs = [(self.hf(*self.act, t), c.z)] + ([(self.hi(*self.act, t), c.pinf)] if self.hi is not None else [])
            x = value_subst(x, pairs)
            if any(self.uses(f) for f in [x.z, x.pinf, x.ninf, x.nan] if isinstance(f, z3.ExprRef)): return None
            g = fold_delta(c, x, list(allH) + hvars(c))
            return None if g is None else (t, g)
        finally: CTX.active.pop()


def z3_false(f): return isinstance(f, z3.ExprRef) and z3.is_false(z3.simplify(f))


def Bf(name, f):
    return False if f is False else CTX.fresh(name + '_f', z3.BoolSort())


def hvars(v):
    """z3 constants of a havocked value."""
    if isinstance(v, Num):
        return [v.z] + [f for f in (v.pinf, v.ninf, v.nan) if isinstance(f, z3.ExprRef)]
    if isinstance(v, Bool): return [v.z]
    return []


def mentions(v, consts):
    if isinstance(v, Num):
        return any(depends(x, c) for c in consts for x in [v.z] + [f for f in (v.pinf, v.ninf, v.nan) if isinstance(f, z3.ExprRef)])
    if isinstance(v, Bool): return any(depends(v.z, c) for c in consts)
    if isinstance(v, z3.ExprRef): return any(depends(v, c) for c in consts)
    if isinstance(v, (tuple, list)): return any(mentions(x, consts) for x in v)
    import attr
    if attr.has(type(v)):
        return any(mentions(getattr(v, a.name), consts) for a in attr.fields(type(v)))
    return False


def is_same(a, b):
    if a is b: return True
    if isinstance(a, Num) and isinstance(b, Num):
        return a.z.eq(b.z) and all((x is y) or (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y)) for x, y in ((a.pinf, b.pinf), (a.ninf, b.ninf), (a.nan, b.nan)))
    if isinstance(a, Bool) and isinstance(b, Bool): return a.z.eq(b.z)
    if isinstance(a, (int, float, str, type(None))) and type(a) is type(b): return a == b
    return False


def for_loop(it, body, state, names=(), cells=()):
    if not symbolic_iter(it):
        st = tuple(state)
        for x in it:
            k, r = body(x, *st)
            if k == 'next': st = r
            else: return k, r
        return 'end', st
    if isinstance(it, maps.SymDict): it = it.keys()
    unordered = isinstance(it, maps.Unordered)
    if unordered: it = it.seq
    seq = as_seq(it)
    mask = None
    if isinstance(seq, Filtered):
        mask, seq = seq.mask, seq.base
        raw = body
        def body(x, *st):
            xx, mm = x
            if mm: return raw(xx, *st)
            return ('next', st)
        b0 = seq
        seq = Seq(mask.n, lambda j: (b0.elem(j), mask.elem(j)), 'list')
    cells = list(cells) + [c for c in getattr(CTX, 'loop_cells', []) if not any(c[0] is d[0] and c[1] == d[1] for d in cells)]
    cells = [c for c in cells if hasattr(c[0], c[1])]
    return sym_for(seq, body, list(state), list(names), cells, unordered)


def written(e): return [] if isinstance(e, Vec) else getattr(e, 'writes', [])


def snapshot(v):
    if isinstance(v, dict): return [(id(a), id(b)) for a, b in v.items()]
    if isinstance(v, (set, frozenset)): return sorted(id(a) for a in v)
    if type(v).__name__ == 'ndarray': return v.tolist() if v.dtype != object else [id(x) for x in v.ravel()]
    return None


def given_summaries(init, labels, n):
    """user-given values of carried variables at every iteration: checked to be inductive"""
    h = getattr(CTX, 'loop_given', None)
    d = h(dict(zip(labels, init)), n) if h else None
    out = {}
    for nm, f in (d or {}).items():
        i = labels.index(nm)
        out[i] = f
        prove_same(f'summary of {nm} before the loop', init[i], f(z3.IntVal(0)), init[i])
    return out


def prove_same(label, a, b, like):
    if isinstance(a, Seq) and isinstance(b, Seq):
        CTX.prover(label + ' (length)', mkbool(zint(a.n) == zint(b.n)))
        t = new_index('g')
        mark = len(CTX.pc)
        note_index(t)
        CTX.add(z3.And(t >= 0, t < zint(b.n)))
        outs = CTX.explore(lambda: CTX.prover(label, mkbool(same(a.elem(t), b.elem(t)))))
        for o in outs:
            if o[1] == 'exc': raise o[2]
        del CTX.pc[mark:]
        return
    CTX.prover(label, mkbool(same(a, b)))


def sym_for(seq, body, state, names, cells, unordered=False):
    n = seq.zn
    np_ = len(state)
    init = state + [getattr(o, a) for o, a in cells]
    labels = list(names) + [f'.{a}' for _, a in cells]
    k = new_index('k')
    fixed = [False] * len(init)      # found unchanged: keep the initial value
    realify = [False] * len(init)
    own = [True] * len(init)
    given = given_summaries(init, labels, n)
    snap = [snapshot(v) for v in init]
    for rnd in range(8):
        hv = [v if fixed[i] or v is UNDEF else given[i](k) if i in given else havoc(v, labels[i], realify[i]) for i, v in enumerate(init)]
        for i, v in enumerate(hv):
            if isinstance(v, Vec) and not fixed[i] and own[i]: v.own = k
            if i in given and isinstance(v, Seq): v.depth = len(CTX.active) + 1
        saved_cells = CTX.cells
        CTX.cells = CTX.cells + [c for c in cells if not any(c[0] is d[0] and c[1] == d[1] for d in CTX.cells)]
        CTX.active.append(k)
        for i, (o, a) in enumerate(cells): object.__setattr__(o, a, hv[np_ + i])
        try:
            def run():
                for i, v in enumerate(hv):
                    if isinstance(v, LoopList): v.added = []
                    if isinstance(v, Vec) and not fixed[i]: v.reset()
                    if i in given and isinstance(v, Seq):
                        hv[i] = v = v.copy(); v.depth = len(CTX.active)
                for i, (o, a) in enumerate(cells): object.__setattr__(o, a, hv[np_ + i])
                CTX.add(z3.And(k >= 0, k < n))
                kk, r = body(seq.elem(k), *hv[:np_])
                if kk == 'return': end = list(hv[:np_])
                else: end = list(r)
                end += [getattr(o, a) for o, a in cells]
                end = [('added', list(e.added)) if isinstance(e, LoopList) else e.ended() if isinstance(e, Vec) else e for e in end]
                for v, s0 in zip(init, snap):
                    if s0 is not None and snapshot(v) != s0: raise Unsupported('loop: a native container is changed in place')
                if kk == 'next':
                    for i in given: prove_same(f'summary of {labels[i]} after an iteration', end[i], given[i](z3.simplify(k + 1)), init[i])
                return kk, r, end
            outs = CTX.explore(run)
        finally:
            CTX.active.pop()
            CTX.cells = saved_cells
            for i, (o, a) in enumerate(cells): object.__setattr__(o, a, init[np_ + i])
        nexts = [o for o in outs if o[1] == 'ok' and o[2][0] == 'next']
        bad = [o for o in outs if not (o[1] == 'ok' and o[2][0] == 'next')]
        changed = False
        for i in range(len(init)):
            if fixed[i] or init[i] is UNDEF or i in given: continue
            es = [o[2][2][i] for o in nexts]
            if isinstance(hv[i], Vec) and own[i]:
                # own-index writes only?
                ws = [w for o in outs if o[1] == 'ok' for e in [o[2][2][i]] for w in written(e)]
                if any(z is None or not z.eq(k) for z, _ in ws) or any(e is not hv[i] and not written(e) for e in es):
                    own[i] = False; changed = True; continue
            if isinstance(hv[i], LoopList):
                if all(e == ('added', []) for e in es): fixed[i] = changed = True
                continue
            if all(is_same(e, hv[i]) for e in es):
                if hvars(hv[i]) or not fixed[i]:
                    fixed[i] = True
                    changed = changed or bool(hvars(hv[i])) or isinstance(hv[i], Vec)
                continue
            if isinstance(hv[i], Num) and hv[i].is_int and any(lift(e) is not None and not lift(e).is_int for e in es):
                realify[i] = changed = True
        if not changed: break
    # -- summaries
    H = {}
    for i in range(len(init)):
        if not fixed[i] and init[i] is not UNDEF and i not in given:
            H[i] = hvars(hv[i])
    allH = [c for cs in H.values() for c in cs]
    # conditions of the continuing outcomes, without the conjuncts they share
    cj = []
    for o in nexts:
        cj.append([f.z for f in o[0] if isinstance(f, Fact) and f.branch])
    common = [z for z in (cj[0] if cj else []) if all(any(z.eq(y) for y in c) for c in cj)]
    nconds = [b_and(*[z for z in c if not any(z.eq(y) for y in common)]) for c in cj]
    nx = [o[2][2] for o in nexts]
    # values that are never read inside the loop
    def read(i):
        cs = H.get(i, [])
        if not cs: return False
        for o in outs:
            for f in o[0]:
                if isinstance(f, Fact) and any(depends(zb(f.z), c) for c in cs): return True
        for o in nexts:
            for j, e in enumerate(o[2][2]):
                if j != i or True:
                    if mentions(e if not (isinstance(e, tuple) and e and e[0] == 'added') else e[1], cs): return True
        return False
    summ = {}
    order_last = []
    vecs = {i: hv[i] for i in range(len(init)) if isinstance(hv[i], Vec) and not fixed[i] and init[i] is not UNDEF and i not in given}
    if vecs:
        def vec_used(v):
            if isinstance(v, Num): return any(vec_used(f) for f in (v.z, v.pinf, v.ninf, v.nan))
            if isinstance(v, Bool): return vec_used(v.z)
            if isinstance(v, z3.ExprRef): return any(x.uses(v) for x in vecs.values())
            if isinstance(v, (tuple, list)): return any(vec_used(x) for x in v)
            return False
        for o in outs:
            if any(isinstance(f, Fact) and vec_used(f.z) for f in o[0]): raise Unsupported('loop: a carried array decides a branch')
        for o in nexts:
            if any(vec_used(v) for i in vecs for _, v in written(o[2][2][i])) and any(own[i] for i in vecs): raise Unsupported('loop: elements of a carried array depend on each other')
            if any(vec_used(e) for i, e in enumerate(o[2][2]) if i not in vecs): raise Unsupported('loop: a carried array flows into another carried value')
    for i in H:
        es = [e[i] for e in nx]
        if i in vecs:
            if not es: summ[i] = ('const', None); continue
            if own[i]:
                summ[i] = ('own', [written(e)[-1][1] if written(e) else hv[i].base_elem(k) for e in es]); continue
            ds = [hv[i].delta(e, allH) for e in es]
            if any(d is None for d in ds) or any(mentions(c, allH) for c in nconds if not isinstance(c, bool)):
                raise Unsupported(f'loop: no summary for array {labels[i]}')
            t0 = ds[0][0]
            gs = [value_subst(g, [(t, t0)]) for t, g in ds]
            summ[i] = ('vfold', (t0, merge_outcomes(list(zip(nconds, gs)))))
            continue
        if isinstance(hv[i], LoopList):
            if any(mentions(e[1], allH) for e in es) or any(mentions(c, allH) for c in nconds if not isinstance(c, bool)):
                raise Unsupported(f'loop: list {labels[i]} depends on carried values')
            cnt = {len(e[1]) for e in es}
            base = init[i]
            if cnt == {1}:
                summ[i] = ('map', [e[1][0] for e in es])
            elif cnt <= {0, 1}:
                summ[i] = ('filter', [e[1] for e in es])
            else:
                raise Unsupported(f'loop: list {labels[i]} grows by a varying amount')
            continue
        if not es:
            summ[i] = ('const', None); continue
        if isinstance(hv[i], Num):
            ds = []
            for e in es:
                d = fold_delta(hv[i], e, allH)
                if d is None: break
                ds.append(d)
            else:
                if all(is_same(d, ds[0]) for d in ds):      # the same whatever the iteration decides
                    summ[i] = ('fold', ds[0])
                    continue
                if not any(mentions(c, allH) for c in nconds if not isinstance(c, bool)):
                    g = merge_outcomes(list(zip(nconds, ds)))
                    summ[i] = ('fold', g)
                    continue
        if isinstance(hv[i], Bool):
            ds = [or_delta(hv[i], e, allH) for e in es]
            if all(d is not None for d in ds) and not any(mentions(c, allH) for c in nconds if not isinstance(c, bool)):
                summ[i] = ('orfold', merge_outcomes([(c, mkbool(d)) for c, d in zip(nconds, ds)]))
                continue
        if not read(i):
            order_last.append(i); continue
        if isinstance(hv[i], Num) and not any(mentions(c, [x for j in H if j != i for x in H[j]]) for c in nconds if not isinstance(c, bool)):
            r = log_fold(hv[i], init[i], es, nconds, allH, k)
            if r is not None:
                summ[i] = ('view', r); continue
        h = getattr(CTX, 'fold_views', None)
        if h and isinstance(hv[i], Num):
            r = h(hv[i], init[i], es, nconds, allH, k)
            if r is not None:
                summ[i] = ('view', r); continue
        raise Unsupported(f'loop: no summary for {labels[i]} ({[str(e)[:200] for e in es]})')

    def state_at(j):
        """[(const, term)] for the carried constants at iteration j."""
        out = []
        for i, (kind, g) in [(i, s) for i, s in summ.items()]:
            if kind == 'fold':
                v = fold_value(init[i], g, k, j)
                x, y = hv[i].z, v.z
                if x.sort() != y.sort(): y = toreal(y) if x.sort() == z3.RealSort() else z3.ToInt(y)
                out.append((x, y))
                for nm in ('pinf', 'ninf', 'nan'):
                    f = getattr(hv[i], nm)
                    if isinstance(f, z3.ExprRef): out.append((f, zb(getattr(v, nm))))
            elif kind == 'orfold':
                out.append((hv[i].z, zb(tz(or_value(init[i], g, k, j)))))
            elif kind == 'view':
                v = g(j)
                out.append((hv[i].z, v.z))
                for nm in ('pinf', 'ninf', 'nan'):
                    f = getattr(hv[i], nm)
                    if isinstance(f, z3.ExprRef): out.append((f, zb(getattr(v, nm))))
        return out

    def value_at(i, j):
        """value of carried variable i before iteration j."""
        if fixed[i]: return init[i]
        if i in given: return given[i](j)
        if i in summ:
            kind, g = summ[i]
            if kind == 'fold': return fold_value(init[i], g, k, j)
            if kind == 'view': return g(j)
            if kind == 'orfold': return or_value(init[i], g, k, j)
            if kind == 'const': return init[i]
            if kind == 'own':
                old = init[i]
                return Seq(old.n, (lambda vs: lambda x: ite(z3.simplify(z3.And(x >= 0, x < j)), pick_outcome(nconds, vs, k, x, state_at(x)), old.elem(x)))(g), 'array')
            if kind == 'vfold':
                t0, d = g
                old = init[i]
                def el(x): return fold_value(old.elem(x), value_subst(d, [(t0, x)]), k, j)
                return Seq(old.n, el, 'array')
            if kind == 'map':
                old = init[i]
                m = Seq(mknum(z3.simplify(j)), (lambda vs: lambda t: pick_outcome(nconds, vs, k, t, state_at(t)))(g), 'list')
                if (isinstance(old, list) and not old): return m
                return concat([old, m], 'list')
            if kind == 'filter':
                old = init[i]
                if not (isinstance(old, list) and not old): raise Unsupported('filter onto a non-empty list')
                base = Seq(mknum(z3.simplify(j)), lambda t: pick_outcome([c for c, v in zip(nconds, g) if v], [v[0] for v in g if v], k, t, []), 'list')
                mk = merge_outcomes([(c, bool(v)) for c, v in zip(nconds, g)])
                mask = Seq(mknum(z3.simplify(j)), lambda t: value_subst(mk, [(k, t)]) if isinstance(mk, Bool) else mk, 'list')
                f = Filtered(base, mask); f.kind = 'list'
                return f
        return None

    if unordered and (order_last or any(i in given or s[0] not in ('fold', 'orfold', 'vfold', 'const') for i, s in summ.items()) or any(o[1] == 'ok' for o in bad)):
        raise Unsupported('loop: the outcome may depend on the order of a dictionary')
    res = leave_loop(nexts, bad, k, n, state_at)
    if res is not None:
        o, m = res
        kk, r, end = o[2]
        pairs = [(k, m)] + state_at(m)
        def fin(v, i):
            if i in given: return value_subst(v, pairs)
            if i in vecs and own[i]:
                at = value_at(i, m)
                w = written(v)
                return Seq(at.n, lambda x: ite(x == m, value_subst(lift(w[-1][1]), pairs), at.elem(x)), 'array') if w else at
            if i in vecs:
                ds = hv[i].delta(v, allH)
                if ds is None: raise Unsupported(f'loop: array {labels[i]} when leaving')
                t0, d = ds
                at = value_at(i, m)
                return Seq(at.n, lambda x: n_add(lift(at.elem(x)), value_subst(d, [(t0, x)] + pairs)), 'array')
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == 'added':
                base = value_at(i, m)
                add = value_subst(v[1], pairs)
                return concat([base, add], 'list') if add else base
            return value_subst(v, pairs) if not fixed[i] or not is_same(v, hv[i]) else init[i]
        newst = [fin(v, i) for i, v in enumerate(end)]
        for i, (ob, a) in enumerate(cells): object.__setattr__(ob, a, newst[np_ + i])
        if kk == 'return': return 'return', value_subst(r, pairs)
        return kk, tuple(newst[:np_])
    facts_forall(nexts, k, n, state_at)
    nn = n if _proves(n >= 0) else z3.simplify(z3.If(n < 0, z3.IntVal(0), n))
    final = []
    for i in range(len(init)):
        if fixed[i]: final.append(init[i]); continue
        if i in order_last or init[i] is UNDEF:
            vals = [e[i] for e in nx]
            if any(v is UNDEF for v in vals) or not vals: final.append(init[i]); continue
            try:
                v = merge_outcomes(list(zip(nconds, vals)))
                v = value_subst(v, [(k, n - 1)] + state_at(n - 1))
            except Unsupported:
                v = UNDEF
            if init[i] is UNDEF: final.append(v)
            elif v is UNDEF: raise Unsupported(f'loop: value of {labels[i]} after the loop')
            elif _proves(n > 0): final.append(v)
            else: final.append(ite(n > 0, v, init[i]))
            continue
        final.append(value_at(i, nn))
    for i, (ob, a) in enumerate(cells): object.__setattr__(ob, a, final[np_ + i])
    # in-place growth is visible through aliases of a symbolic list
    for i in range(np_):
        if isinstance(init[i], Seq) and isinstance(final[i], Seq) and init[i] is not final[i] and init[i].kind == 'list' and not fixed[i] and summ.get(i, ('',))[0] in ('map',):
            init[i].n, init[i]._elem, init[i]._cache = final[i].n, final[i]._elem, {}
            final[i] = init[i]
    return 'end', tuple(final[:np_])


def pick_outcome(conds, vals, k, t, pairs):
    pr = [(k, t)] + list(pairs)
    if len(vals) == 1: return value_subst(vals[0], pr)
    if all(lift(v) is not None or isinstance(v, (Bool, bool)) for v in vals):
        return value_subst(merge_outcomes(list(zip(conds, vals))), pr)
    for c, v in list(zip(conds, vals))[:-1]:
        c = z3.substitute(zb(c), *pr)
        if CTX.branch(c): return value_subst(v, pr)
    return value_subst(vals[-1], pr)


def fold_delta(h, e, allH):
    """e - h if it does not mention carried constants; None otherwise."""
    e = lift(e)
    if e is None: return None
    if h.z.sort() == z3.IntSort() and e.is_int:
        d = z3.simplify(e.z - h.z)
        if not any(depends(d, c) for c in allH): return Num(d)
    inf = False
    off = lambda f: f is False or _proves(z3.Not(f))
    if off(e.ninf) and off(e.nan): e = Num(e.z, e.pinf, False, False, e.npy)
    if not h.plain:
        if h.ninf is not False or h.nan is not False or not isinstance(h.pinf, z3.ExprRef) or e.ninf is not False: return None
        inf = z3.simplify(z3.substitute(zb(e.pinf), (h.pinf, z3.BoolVal(False))))
        if not _proves(zb(e.pinf) == z3.Or(h.pinf, inf)): return None
        nan = z3.simplify(z3.substitute(zb(e.nan), (h.pinf, z3.BoolVal(False)))) if e.nan is not False else False
        if e.nan is not False and not _proves(zb(e.nan) == nan): return None
        e = Num(e.z, inf if not z3.is_false(inf) else False, False, nan, e.npy)
    p = P.ipoly(toreal(e.z) - toreal(h.z))
    if any(len(m) > 0 for m in p) and len(p) > 200: return None
    d = P.to_z3(p)
    r = Num(d, e.pinf, e.ninf, e.nan, e.npy)
    if mentions(r, allH): return None
    return r


def exp_of(v):
    """exp of a number known not to be +inf or nan, as z3"""
    z = E(toreal(v.z))
    return z if v.ninf is False else z3.If(zb(v.ninf), z3.RealVal(0), z)


def log_fold(h, init, es, nconds, allH, k):
    """a sum kept as its logarithm: exp(new) = exp(old) + g; the view j -> log(exp(init) + sum of g)"""
    i0 = lift(init)
    if i0 is None or h.pinf not in (False,) and not _proves(z3.Not(zb(h.pinf))): return None
    if i0.pinf is True or i0.nan is True: return None
    hx = Num(h.z, False, h.ninf, False)
    gs = []
    for e in es:
        e = lift(e)
        if e is None or not z3.is_app(e.z) or not e.z.decl().eq(L): return None
        if any(f is not False and not _proves(z3.Not(zb(f))) for f in (e.pinf, e.nan)): return None
        p = P.ipoly(e.z.arg(0) - exp_of(hx))
        d = Num(P.to_z3(p))
        if mentions(d, allH): return None
        if not (e.ninf is False or _proves(zb(e.ninf) == (e.z.arg(0) <= 0))): return None
        gs.append(d)
    if any(mentions(c, allH) for c in nconds if not isinstance(c, bool)): return None
    g = merge_outcomes(list(zip(nconds, gs)))
    e0 = z3.RealVal(0) if i0.ninf is True else exp_of(i0)
    def view(j):
        s = z3.simplify(e0 + zsum(z3.IntVal(0), j, lambda t: z3.substitute(toreal(g.z), (k, t))))
        return Num(L(s), False, s <= 0, False, True)
    return view


def or_delta(h, e, allH):
    """d with e = (h or d), free of carried constants; None otherwise"""
    z = zb(tz(e))
    d = z3.simplify(z3.substitute(z, (h.z, z3.BoolVal(False))))
    if any(depends(d, c) for c in allH): return None
    return d if _proves(z == z3.Or(h.z, d)) else None


def or_value(init, g, k, j):
    """init or g(t) for some t in [0, j)"""
    i = tz(init)
    if i is True or g is False: return mkbool(i)
    at = lambda t: zb(tz(value_subst(g, [(k, t)]) if isinstance(g, Bool) else g))
    b = CTX.fresh('some_it', z3.BoolSort())
    w = CTX.fresh('wit_it', z3.IntSort()); note_index(w)
    CTX.add(z3.Implies(b, z3.And(w >= 0, w < j, at(w))))
    CTX.add_universal(z3.IntVal(0), j, lambda t: z3.Implies(at(t), b))
    return mkbool(b_or(i, b))


def fold_value(init, g, k, j):
    i = lift(init)
    g = lift(g)
    if not g.plain:
        s = npshim.np_sum(Seq(mknum(z3.simplify(j)), lambda t: value_subst(g, [(k, t)])))
        return n_add(i, s)
    isint = i.is_int and g.is_int
    s = zsum(z3.IntVal(0), j, lambda t: z3.substitute(g.z, (k, t)))
    if isint:
        return Num(z3.simplify(i.z + z3.ToInt(s)))
    return n_add(Num(i.z, i.pinf, i.ninf, i.nan, i.npy or g.npy), Num(s))


# ------------------------------------------------------------------ while
def while_loop(cond, body, state, names=(), cells=()):
    st = tuple(state)
    inv = getattr(CTX, 'invariants', None)
    if inv is not None and (npshim.symbolic(list(st)) or npshim.symbolic([getattr(o, a, None) for o, a in cells])):
        if inv(dict(zip(names, st))) is not None:
            return houdini(cond, body, list(st), list(names), cells, inv)
    steps = 0
    while True:
        depth = len(CTX.frames[-1].taken) if CTX.frames else 0
        c = cond(*st)
        if not c: return 'end', st
        if CTX.frames and len(CTX.frames[-1].taken) > depth:
            steps += 1
            if steps > getattr(CTX, 'unroll', 2): raise Unsupported('symbolic while loop without invariant')
        k, r = body(*st)
        if k == 'next': st = r
        else: return k, r


def houdini(cond, body, init, names, cells, inv):
    """inv: state dict -> list of (label, fn(state dict) -> z3 Bool | bool)."""
    from . import discharge
    as_dict = lambda st: dict(zip(names, st))
    def val(c, st):
        z = c[1](as_dict(st))
        return zb(tz(z))
    def holds(z, budget):
        if not any(isinstance(f, Universal) and f.slow for f in CTX.pc): return discharge.valid(CTX, z, budget=max(4, budget))
        # with costly facts around: little effort for what is easy or unlikely
        return discharge.quick_valid(CTX, z, 2) if discharge.about_integers(z) else discharge.valid(CTX, z, budget=budget, split_first=True)
    live = []
    # the same loop met again after the same decisions (a replay): what was found holds
    key = (cond.__code__, tuple(n.z.get_id() if (n := lift(v)) is not None else None for v in init), tuple(tuple(f.taken) for f in CTX.frames), len(CTX.pc), len(CTX.lemmas))
    again = CTX.houdini.get(key)
    kinds = [UNDEF if v is UNDEF else v for v in init]
    realify = list(again[1]) if again else [False] * len(init)
    # which integers become reals
    for rnd in range(len(init) + 1):
        hv = [v if v is UNDEF else havoc(v, nm, realify[i]) for i, (v, nm) in enumerate(zip(kinds, names))]
        if again: break
        def probe():
            for v in hv:
                if isinstance(v, Vec): v.reset(); v.depth = len(CTX.active)
            if not cond(*hv): return
            r = body(*hv)
            if r[0] == 'next':
                for i, e in enumerate(r[1]):
                    if isinstance(hv[i], Num) and hv[i].is_int and lift(e) is not None and not lift(e).is_int: realify[i] = True
        was = list(realify)
        CTX.probing = True
        try: CTX.explore(probe)
        finally: CTX.probing = False
        if realify == was: break
    cands = inv(as_dict(hv))
    if again: live = [c for c in cands if c[0] in again[0]]
    for c in cands if not again else ():
        try:
            if holds(val(c, init), .3): live.append(c)
        except (KeyError, Unsupported, TypeError, AttributeError):
            continue
    if discharge.DEBUG: print('  candidates', [c[0] for c in live], file=sys.stderr)
    for rnd in range(40):
        hv = [v if v is UNDEF else havoc(v, nm, realify[i]) for i, (v, nm) in enumerate(zip(kinds, names))]
        snap = [snapshot(v) for v in init]
        def fresh():
            for v in hv:
                if isinstance(v, Vec): v.reset(); v.depth = len(CTX.active)
                elif isinstance(v, Num) and v.is_int: note_index(v.z)
        def run():
            fresh()
            for c in live: CTX.add(val(c, hv))
            if not cond(*hv): return ('exit', None)
            r = body(*hv)
            if any(s0 is not None and snapshot(v) != s0 for v, s0 in zip(init, snap)): raise Unsupported('while: a native container is changed in place')
            return r
        failed, redo = [], False
        def run2():
            r = run()
            if r[0] == 'next':
                for i, e in enumerate(r[1]):
                    if isinstance(hv[i], Num) and hv[i].is_int and lift(e) is not None and not lift(e).is_int:
                        realify[i] = True
                        raise Redo()
                    if lift(e) is None and e is not hv[i] and not isinstance(e, (Bool, bool)) and init[i] is not UNDEF:
                        raise Unsupported(f'while: {names[i]} changes to {e!r}')
                for c in live if not again else ():
                    if c not in failed and not holds(val(c, r[1]), 6):
                        failed.append(c)
                        if discharge.DEBUG: print('  not inductive:', c[0], val(c, r[1]) if os.environ.get('DUMP') else '', file=sys.stderr)
            return r
        outs = CTX.explore(run2)
        if any(o[1] == 'exc' and isinstance(o[2], Redo) for o in outs): continue
        if not failed: break
        live = [c for c in live if c not in failed]
    else:
        raise Unsupported('invariant search did not stabilise')
    CTX.inv_found = [c[0] for c in live]
    CTX.houdini[key] = (CTX.inv_found, realify, list(init), cond)
    # leave: either the condition fails, or the body leaves from an invariant state
    fresh()
    for c in live: CTX.add(val(c, hv))
    if not cond(*hv): return 'end', tuple(hv)
    k, r = body(*hv)
    if k == 'next': raise PathEnd()
    return k, r


class Redo(Exception):
    pass
