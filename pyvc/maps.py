"""Dictionaries with integer keys and an arbitrary number of entries.

A dictionary is presented either by key (a function of the key and a membership predicate over a range of keys)
or by index (strictly increasing keys K(0) < K(1) < ... with values V(j)). Either way its entries are listed in
ascending order of keys; unless the insertion order is known to be ascending too, what an iteration produces is
`Unordered`: it may be summed, sorted, or folded, but no result may depend on its order."""
import builtins
import z3
from .sym import *
from .sym import CTX, _proves
from .seq import *
from .seq import Seq, Filtered, mknum, zint, new_index, note_index
from . import npshim


class Unordered:
    """the entries of a sequence in an unknown order"""
    _vc_symbolic = True

    def __init__(self, seq, ascending=False): self.seq, self.ascending = seq, ascending
    def __vc_len__(self): return self.seq.n
    def __iter__(self): raise Unsupported('native iteration over a symbolic dictionary')
    def __len__(self): raise Unsupported('len of a symbolic dictionary view in native code')


class SymDict:
    _vc_symbolic = True

    def __init__(self, entries, lookup, ordered=False, bounds=None):
        """entries: Seq or Filtered of (key, value), keys strictly ascending; lookup(z3 key) -> (member, value)"""
        self.entries, self.lookup, self.ordered, self.bounds = entries, lookup, ordered, bounds

    def _view(self, f, ascending):
        e = self.entries
        if isinstance(e, Filtered):
            r = Filtered(Seq(e.base.n, lambda j: f(e.base.elem(j)), 'list'), e.mask)
            r.kind = 'list'
        else: r = Seq(e.n, lambda j: f(e.elem(j)), 'list')
        return r if self.ordered else Unordered(r, ascending)

    def items(self): return self._view(lambda kv: kv, False)
    def keys(self): return self._view(lambda kv: kv[0], True)
    def values(self): return self._view(lambda kv: kv[1], False)
    def __vc_len__(self): return self.entries.n
    def __iter__(self): raise Unsupported('native iteration over a symbolic dictionary')
    def __len__(self):
        n = self.entries.n
        if isinstance(n, int): return n
        raise Unsupported('len of a symbolic dictionary in native code')
    def __bool__(self): return bool(self.entries.n > 0)
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
    def __vc_isinstance__(self, t):
        from collections import abc
        if t in (dict, abc.Mapping, abc.MutableMapping, abc.Iterable, abc.Sized, abc.Collection, abc.Container, object): return True
        return isinstance(t, builtins.type) and False
    def _find(self, k):
        n = lift(k)
        if n is None: raise Unsupported(f'key {k!r}')
        return self.lookup(zint(n))
    def __getitem__(self, k):
        m, v = self._find(k)
        if m is not True and not CTX.branch(zb(m)): raise KeyError(k)
        return v
    def get(self, k, default=None):
        m, v = self._find(k)
        if m is True: return v
        if lift(v) is not None and lift(default) is not None: return ite(zb(m), v, default)
        return v if CTX.branch(zb(m)) else default
    def __contains__(self, k):
        m, _ = self._find(k)
        return True if m is True else CTX.branch(zb(m))
    def copy(self): return SymDict(self.entries, self.lookup, self.ordered, self.bounds)
    def __setitem__(self, k, v): raise Unsupported('a symbolic dictionary is changed in place')
    def __vc_iter__(self): return self.keys()


def by_key(lo, hi, has, val, ordered=False):
    """the dictionary {k: val(k) for lo <= k <= hi if has(k)}; lo and hi are members"""
    lo, hi = zint(lo), zint(hi)
    n = mknum(z3.simplify(hi - lo + 1))
    base = Seq(n, lambda j: (mknum(z3.simplify(lo + j)), val(z3.simplify(lo + j))), 'list')
    mask = Seq(n, lambda j: mkbool(has(z3.simplify(lo + j))), 'list')
    e = Filtered(base, mask)
    e.kind = 'list'
    return SymDict(e, lambda k: (z3.And(k >= lo, k <= hi, has(k)), val(k)), ordered, (mknum(lo), mknum(hi)))


def by_index(keys, vals, ordered=False):
    """the dictionary {keys[j]: vals[j]}, keys strictly ascending"""
    e = Seq(keys.n, lambda j: (keys.elem(j), vals.elem(j)), 'list')
    def lookup(k):
        k = z3.simplify(k)
        # a key written as keys[j]
        for j in list(CTX.active)[::-1] + index_args(k) + list(CTX.indices):
            kk = lift(keys.elem(j))
            if kk is not None and z3.simplify(kk.z).eq(k) and _proves(z3.And(j >= 0, j < keys.zn)): return True, vals.elem(j)
        b = CTX.fresh('member', z3.BoolSort())
        w = CTX.fresh('at_key', z3.IntSort()); note_index(w)
        CTX.add(z3.Implies(b, z3.And(w >= 0, w < keys.zn, zint(keys.elem(w)) == k)))
        CTX.add_universal(z3.IntVal(0), keys.zn, lambda j: z3.Implies(zint(keys.elem(j)) == k, z3.And(b, j == w)))
        return b, vals.elem(w)
    return SymDict(e, lookup, ordered, (keys.elem(z3.IntVal(0)), keys.elem(z3.simplify(keys.zn - 1))) if True else None)


def index_args(k):
    out, st = [], [k]
    while st:
        x = st.pop()
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out += [c for c in x.children() if c.sort() == z3.IntSort()]
        else: st.extend(x.children())
    return out


def vc_dict(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymDict): return x.copy()
        if isinstance(x, npshim.SymZip) and len(x.seqs) == 2:
            ks, vs = x.seqs
            if isinstance(ks, Filtered) or isinstance(vs, Filtered):
                if not (isinstance(ks, Filtered) and isinstance(vs, Filtered) and same_mask(ks.mask, vs.mask)): raise Unsupported('dict of differently filtered sequences')
                a0 = lift(ks.base.elem(z3.IntVal(0)))
                lo = zint(a0)
                t = new_index('d')
                if not (a0.is_int and _proves(zint(ks.base.elem(t)) == lo + t)): raise Unsupported('dict of filtered keys')
                hi = z3.simplify(lo + ks.base.zn - 1)
                at = lambda k: z3.simplify(k - lo)
                return by_key(mknum(lo), mknum(hi), lambda k: zb(tz(ks.mask.elem(at(k)))), lambda k: vs.base.elem(at(k)), ordered=True)
            n = x.seq().n
            ks, vs = Seq(n, ks._elem, 'list'), Seq(n, vs._elem, 'list')
            if isinstance(n, int) and n == 0: return {}
            t = new_index('d')
            if not ascending(ks): raise Unsupported('dict of keys that are not known to ascend')
            a0, at = lift(ks.elem(z3.IntVal(0))), lift(ks.elem(t))
            if a0 is None or not (a0.is_int or a0.npy): raise Unsupported('dict keys')
            lo = zint(a0)
            if _proves(zint(at) == lo + t):
                hi = z3.simplify(lo + zint(n) - 1)
                d = by_key(mknum(lo), mknum(hi), lambda k: z3.BoolVal(True), lambda k: vs.elem(z3.simplify(k - lo)), ordered=True)
                d.entries = Seq(n, lambda j: (ks.elem(j), vs.elem(j)), 'list')
                return d
            return by_index(ks, vs, ordered=True)
        if npshim.symbolic(x): raise Unsupported(f'dict of {type(x).__name__}')
    return builtins.dict(*a, **k)


def ascending(ks):
    from . import discharge
    a, b = new_index('asc'), new_index('asc')
    note_index(a); note_index(b)
    x, y = lift(ks.elem(a)), lift(ks.elem(b))
    if x is None or y is None: return False
    return discharge.valid(CTX, z3.Implies(z3.And(a >= 0, a < b, b < ks.zn), x.z < y.z), budget=2)


npshim.BUILTINS['dict'] = vc_dict
