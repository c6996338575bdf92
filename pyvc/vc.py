"""Harness API. The same harness runs symbolically (proof) and concretely (replay, run-time check)."""
import importlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback

HARNESSES = {}


class Skip(BaseException):
    """The concrete inputs do not satisfy the precondition."""


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__(f'{label}: {detail}')
        self.label, self.detail = label, detail


def harness(prop, target, kind='proof', name=None, runs=60, budget=6, solver=8, limit=400, **opts):
    """Registers a contract harness for `target` (real functions) deciding property `prop`.

    kind 'proof': run symbolically (obligations) and concretely (run-time check of the contract);
    kind 'bounded': run concretely only. runs/budget bound the concrete part (count, seconds)."""
    def deco(f):
        props = [prop] if isinstance(prop, str) else list(prop)
        nm = name or f.__name__
        assert nm not in HARNESSES, nm
        HARNESSES[nm] = {'fn': f, 'props': props, 'target': [target] if isinstance(target, str) else list(target),
                         'name': nm, 'kind': kind, 'runs': runs, 'budget': budget, 'solver': solver, 'limit': limit, 'opts': opts}
        return f
    return deco


def load_contracts():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    sys.path.insert(0, os.path.dirname(d))
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'): importlib.import_module('contracts.' + f[:-3])


class Mods:
    """lazily imported modules of /repo"""
    def __init__(self, load): self._load = load
    def __call__(self, name): return self._load(name)


NICE = [0.0, 1.0, 0.5, 2.0, 0.1, 3.0, 10.0, 0.01, 1.5, 4.0, 100.0, 1e-3, 7.25, 0.25, 1e-6, 50.0]


def gen_real(rng, lo, hi, lo_strict, hi_strict):
    for _ in range(100):
        r = rng.random()
        if lo is not None and hi is not None:
            if r < .1: x = lo
            elif r < .2: x = hi
            elif r < .7: x = rng.uniform(lo, hi)
            else: x = lo + (hi - lo) * 10 ** rng.uniform(-6, 0)
        else:
            if r < .45: x = rng.choice(NICE)
            elif r < .75: x = rng.uniform(0, 5)
            else: x = 10 ** rng.uniform(-4, 3)
            if lo is None and hi is None:
                if rng.random() < .4: x = -x
            elif lo is not None: x = lo + x
            else: x = hi - x
        if lo is not None and (x < lo or lo_strict and x == lo): continue
        if hi is not None and (x > hi or hi_strict and x == hi): continue
        return float(x)
    raise Skip()


def gen_int(rng, lo, hi):
    if lo is not None and hi is not None: return rng.randint(lo, hi) if hi - lo < 50 or rng.random() < .5 else min(hi, max(lo, rng.choice([lo, lo + 1, lo + 2, hi, hi - 1, lo + rng.randint(0, 20)])))
    x = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 20, 25, 33, 50, 64, 100])
    if lo is not None: return lo + x
    if hi is not None: return hi - x
    return x if rng.random() < .6 else -x


class Conc:
    """Concrete mode: real, unmodified code; values from a generator or a counter-model."""
    sym = False

    def __init__(self, rng=None, given=None, small=False):
        self.rng = rng or random.Random(0)
        self.given = given
        self.inputs = {}
        self.checked = 0
        self.small = small
        self.undo = []

    # -- inputs
    def _in(self, name, make):
        assert name not in self.inputs, name
        if self.given is not None:
            if name not in self.given: v = make()
            else: v = self.given[name]
        else: v = make()
        self.inputs[name] = v
        return v

    def real(self, name, ge=None, gt=None, le=None, lt=None, gen=None, inf=False, npy=False):
        lo = ge if ge is not None else gt
        hi = le if le is not None else lt
        def mk():
            if inf and self.rng.random() < .12: return math.inf
            if gen is not None: return gen(self.rng)
            return gen_real(self.rng, lo, hi, ge is None and gt is not None, le is None and lt is not None)
        v = self._in(name, mk)
        if isinstance(v, (int, float)) and not (inf and v == math.inf):
            if ge is not None and v < ge or gt is not None and v <= gt or le is not None and v > le or lt is not None and v >= lt: raise Skip()
        if npy:
            import numpy as np
            return np.float64(v)
        return v

    def int(self, name, ge=None, le=None, gen=None):
        v = self._in(name, lambda: gen(self.rng) if gen else gen_int(self.rng, ge, le))
        if ge is not None and v < ge or le is not None and v > le: raise Skip()
        return v

    def bool(self, name):
        return bool(self._in(name, lambda: self.rng.random() < .5))

    def choice(self, name, options):
        return options[self._in(name, lambda: self.rng.randrange(len(options)))]

    def data(self, name, gen):
        """arbitrary concrete data (bounded harnesses only)"""
        return self._in(name, lambda: gen(self.rng))

    def array(self, name, n, ge=None, gt=None, le=None, lt=None, kind='array', sort=None, gen=None, inf=False, ints=False):
        import numpy as np
        def mk():
            if gen is not None: return [gen(self.rng, i) for i in range(n)]
            if ints: xs = [gen_int(self.rng, ge, le) for _ in range(n)]
            else: xs = [math.inf if inf and self.rng.random() < .15 else gen_real(self.rng, ge if ge is not None else gt, le if le is not None else lt, ge is None and gt is not None, le is None and lt is not None) for _ in range(n)]
            if sort == 'strict':
                xs = sorted(set(xs))
                while len(xs) < n: xs.append(xs[-1] + (1 if ints else 1.0 + self.rng.random()) if xs else (ge or 1))
            elif sort: xs.sort()
            return xs
        v = self._in(name, mk)
        if len(v) != n: raise Skip()
        for x in v:
            if inf and x == math.inf: continue
            if ge is not None and x < ge or gt is not None and x <= gt or le is not None and x > le or lt is not None and x >= lt: raise Skip()
        if sort and any((b <= a) if sort == 'strict' else b < a for a, b in zip(v, v[1:])): raise Skip()
        return np.array(v, dtype=(int if ints else float)) if kind == 'array' else list(v)

    def rows(self, name, n, dim, gen=None):
        """n rows of dim coordinates"""
        import numpy as np
        v = self._in(name, lambda: [gen(self.rng, dim, i) for i in range(n)])
        if len(v) != n or any(len(x) != dim for x in v): raise Skip()
        return np.array(v, dtype=float).reshape(n, dim)

    directions = rows

    def table(self, name, lo, hi, ge=None, le=None, gen=None):
        """a dictionary whose integer keys lie in [lo, hi], lo and hi among them, in any insertion order"""
        def mk():
            ks = [k for k in range(lo, hi + 1) if k in (lo, hi) or self.rng.random() < .7]
            self.rng.shuffle(ks)
            return [[k, gen(self.rng, k) if gen else gen_real(self.rng, ge, le, False, False)] for k in ks]
        v = self._in(name, mk)
        if not all(lo <= k <= hi for k, _ in v) or lo not in [k for k, _ in v] or hi not in [k for k, _ in v]: raise Skip()
        if any(ge is not None and x < ge or le is not None and x > le for _, x in v): raise Skip()
        return {k: x for k, x in v}

    def mapping(self, name, n, ge=None, le=None, gen=None):
        """(dictionary with n integer keys in any insertion order, its keys ascending, its values in that order)"""
        def mk():
            ks = self.rng.sample(range(-2 * n - 2, 3 * n + 3), n)
            return [[k, gen(self.rng, i) if gen else gen_real(self.rng, ge, le, False, False)] for i, k in enumerate(ks)]
        v = self._in(name, mk)
        if len({k for k, _ in v}) != n: raise Skip()
        if any(ge is not None and x < ge or le is not None and x > le for _, x in v): raise Skip()
        d = {k: x for k, x in v}
        ks = sorted(d)
        return d, ks, [d[k] for k in ks]

    def has(self, d, k): return k in d
    def get(self, d, k): return d[k]

    # -- logic
    def assume(self, c):
        if not c: raise Skip()

    def prove(self, label, c, **k):
        self.checked += 1
        if not (c() if callable(c) else c): raise Violation(label, 'false on these inputs')

    def fun(self, name, gen, monotone=None, inf=False):
        """an arbitrary (monotone) function of one real; `gen` maps drawn data to a concrete one"""
        make, build = gen
        d = self._in(name, lambda: make(self.rng))
        return build(d)

    def forall(self, label, lo, hi, fn, **k):
        for j in range(lo, hi):
            self.checked += 1
            if not fn(j): raise Violation(label, f'false at index {j}')

    def assume_forall(self, lo, hi, fn):
        for j in range(lo, hi):
            if not fn(j): raise Skip()

    def exists(self, label, lo, hi, fn, **k):
        self.checked += 1
        if not any(fn(j) for j in range(lo, hi)): raise Violation(label, 'no index satisfies it')

    def unreachable(self, label, detail=''):
        raise Violation(label, f'reached {detail}')

    def eq(self, a, b, rtol=1e-9, atol=1e-11):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return False
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))

    def le(self, a, b, rtol=1e-9, atol=1e-11):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return False
        if math.isinf(a) or math.isinf(b): return a <= b
        return a <= b + atol + rtol * max(abs(a), abs(b))

    def ge(self, a, b, **k): return self.le(b, a, **k)
    def lt(self, a, b): return not self.ge(a, b, rtol=0, atol=0) if False else a < b
    def same(self, a, b): return a == b or (a != a and b != b)
    def implies(self, a, b): return (not a) or (b() if callable(b) else b)
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def ite(self, c, a, b): return a if c else b
    def max(self, *a): return max(a)
    def min(self, *a): return min(a)
    def isinf(self, a): return math.isinf(a)
    def isnan(self, a): return a != a
    def finite(self, a): return math.isfinite(a)

    def Sum(self, lo, hi, fn): return math.fsum(fn(j) for j in range(lo, hi))
    def exp(self, x):
        try: return math.exp(x)
        except OverflowError: return math.inf
    def log(self, x):
        if x == 0: return -math.inf
        return math.log(x)
    def sqrt(self, x): return math.sqrt(x)
    def expm1(self, x):
        try: return math.expm1(x)
        except OverflowError: return math.inf
    def log1p(self, x):
        if x == -1: return -math.inf
        return math.log1p(x)
    def at(self, s, j): return s[j]
    def real_of(self, x): return float(x)
    def length(self, s): return len(s)
    def merged(self, f): return f()

    # -- code
    def mod(self, name): return importlib.import_module(name)
    def stub(self, owner, attr, fn): pass
    def memo(self, owner, attr): pass
    def model(self, name, fn): pass
    def lemma(self, label, c): pass
    def lemma_forall(self, label, lo, hi, fn): pass
    def abstract(self, label, lo, hi, facts, **fns): return fns.values()
    def reveal(self, F, *args): pass
    def theory(self, **fns): return Theory(None, fns)
    def hint(self, *terms): pass
    def named(self, x): return x
    def invariants(self, fn): pass
    def loop_given(self, fn): pass
    def cell(self, obj, attr): pass
    def case(self, c): return bool(c)

    def patch(self, owner, attr, fn):
        """replaces a dependency in both modes (restored afterwards)"""
        self.undo.append((owner, attr, getattr(owner, attr)))
        setattr(owner, attr, fn)

    def finish(self):
        for o, a, v in reversed(self.undo): setattr(o, a, v)
        self.undo = []

    def call(self, f, *a, **k):
        """('ok', value) or ('exc', exception)"""
        try: return 'ok', f(*a, **k)
        except Exception as e: return 'exc', e

    def raises(self, label, exc, f, *a, **k):
        self.checked += 1
        kind, v = self.call(f, *a, **k)
        if kind == 'ok': raise Violation(label, f'returned {v!r} instead of raising')
        if not isinstance(v, exc): raise Violation(label, f'raised {v!r}')
        return v


# ------------------------------------------------------------------ symbolic
class Sym:
    sym = True

    def __init__(self, h):
        from . import sym, seq, discharge, npshim, loops, loader
        self.S, self.Q, self.D, self.N, self.Lp, self.Ld = sym, seq, discharge, npshim, loops, loader
        from . import rows
        rows.install_once()
        self.h = h
        self.obl = {}          # label -> dict
        self.inputs = {}
        self.cache = {}
        self.reach = 0
        self.undo = []

    # -- inputs
    def real(self, name, ge=None, gt=None, le=None, lt=None, gen=None, inf=False, npy=False):
        import z3
        C = self.S.CTX
        x = z3.Const(name, z3.RealSort())
        p = z3.Const(name + '_is_inf', z3.BoolSort()) if inf else False
        n = self.S.Num(x, pinf=p, npy=npy)
        self.inputs[name] = ('real', n)
        for c, op in ((ge, lambda v: x >= v), (gt, lambda v: x > v), (le, lambda v: x <= v), (lt, lambda v: x < v)):
            if c is not None:
                z = op(self.S.toreal(self.S.lift(c).z))
                C.add(z if not inf else z3.Or(p, z))
        return n

    def int(self, name, ge=None, le=None, gen=None):
        import z3
        x = z3.Const(name, z3.IntSort())
        if ge is not None: self.S.CTX.add(x >= self.Q.zint(ge))
        if le is not None: self.S.CTX.add(x <= self.Q.zint(le))
        n = self.S.Num(x)
        self.inputs[name] = ('int', n)
        return n

    def bool(self, name):
        import z3
        b = self.S.Bool(z3.Const(name, z3.BoolSort()))
        self.inputs[name] = ('bool', b)
        return b

    def choice(self, name, options):
        i = self.S.CTX.choose(len(options)) if len(options) > 1 else 0
        self.inputs[name] = ('const', i)
        return options[i]

    def data(self, name, gen): raise self.S.Unsupported('data() in a proof harness')

    def fun(self, name, gen, monotone=None, inf=False):
        import z3
        S, D = self.S, self.D
        F = S.uf(name, z3.RealSort(), z3.RealSort())
        I = S.uf(name + '_inf', z3.RealSort(), z3.BoolSort()) if inf else None
        def f(x):
            x = S.lift(x)
            if x is None or not x.plain: raise S.Unsupported(f'{name} of {x!r}')
            z = S.toreal(x.z)
            return S.Num(F(z), pinf=I(z) if inf else False)
        if monotone is not None:
            up = lambda x, y: x <= y if monotone == 'increasing' else y <= x
            def pair(a, b):
                x, y = a.arg(0), b.arg(0)
                r = [z3.Implies(up(x, y), z3.Or(I(y), F(x) <= F(y)) if inf else F(x) <= F(y))]
                if inf: r.append(z3.Implies(z3.And(up(x, y), I(x)), I(y)))
                return r
            D.UF_PAIR_AXIOMS[name] = pair
            if inf: D.UF_PAIR_AXIOMS[name + '_inf'] = pair
        else:
            D.UF_PAIR_AXIOMS.pop(name, None); D.UF_PAIR_AXIOMS.pop(name + '_inf', None)
        return f

    def array(self, name, n, ge=None, gt=None, le=None, lt=None, kind='array', sort=None, gen=None, inf=False, ints=False):
        import z3
        S, Q = self.S, self.Q
        so = z3.IntSort() if ints else z3.RealSort()
        f = z3.Function(name, z3.IntSort(), so)
        fi = z3.Function(name + '_is_inf', z3.IntSort(), z3.BoolSort()) if inf else None
        npy = kind == 'array'
        s = Q.Seq(n, lambda j: S.Num(f(j), pinf=fi(j) if inf else False, npy=npy), kind)
        self.inputs[name] = ('array', s)
        cs = [(c, k) for c, k in ((ge, 'ge'), (gt, 'gt'), (le, 'le'), (lt, 'lt')) if c is not None]
        if cs:
            def uni(j):
                out = []
                for c, k in cs:
                    v = S.lift(c).z
                    a, b = S.unify(f(j), v)
                    out.append({'ge': a >= b, 'gt': a > b, 'le': a <= b, 'lt': a < b}[k])
                z = S.b_and(*out)
                return z3.Or(fi(j), z) if inf else z
            S.CTX.add_universal(z3.IntVal(0), Q.zint(n), uni)
        if sort:
            # sorted: compare every pair of known indices
            def uni2(j):
                out = []
                for t in list(S.CTX.indices)[:10] + list(S.CTX.active):
                    a, b = f(t), f(j)
                    rng = z3.And(t >= 0, t < Q.zint(n))
                    out.append(z3.Implies(z3.And(rng, t < j), (a < b) if sort == 'strict' else (a <= b)))
                    out.append(z3.Implies(z3.And(rng, t > j), (a > b) if sort == 'strict' else (a >= b)))
                return z3.And(*out) if out else True
            S.CTX.add_universal(z3.IntVal(0), Q.zint(n), uni2)
        return s

    def rows(self, name, n, dim, gen=None):
        from . import rows
        r = rows.rows(name, n, dim)
        self.inputs[name + ' coord'] = ('array', r.coord)
        return r

    def directions(self, name, n, dim, gen=None):
        from . import rows
        return rows.Directions(n, dim)

    def table(self, name, lo, hi, ge=None, le=None, gen=None):
        import z3
        from . import maps
        S, Q = self.S, self.Q
        has = z3.Function(name + '_has', z3.IntSort(), z3.BoolSort())
        val = z3.Function(name + '_val', z3.IntSort(), z3.RealSort())
        l, h = Q.zint(lo), Q.zint(hi)
        S.CTX.add(z3.And(l <= h, has(l), has(h)))
        if ge is not None or le is not None:
            n = z3.simplify(h - l + 1)
            def uni(j):
                v = val(z3.simplify(l + j))
                return z3.And(*([v >= S.toreal(S.lift(ge).z)] if ge is not None else []), *([v <= S.toreal(S.lift(le).z)] if le is not None else []))
            S.CTX.add_universal(z3.IntVal(0), n, uni)
        self.inputs[name] = ('table', (l, h, has, val))
        return maps.by_key(lo, hi, lambda k: has(k), lambda k: S.Num(val(k)))

    def mapping(self, name, n, ge=None, le=None, gen=None):
        from . import maps
        K = self.array(name + ' keys', n, ints=True, sort='strict', kind='list')
        V = self.array(name + ' values', n, ge=ge, le=le, kind='list')
        self.inputs[name] = ('mapping', (K, V))
        return maps.by_index(K, V), K, V

    def has(self, d, k): return self.S.mkbool(d._find(k)[0])
    def get(self, d, k): return d._find(k)[1]

    # -- logic
    def assume(self, c):
        z = self.S.tz(c)
        self.S.CTX.add(z)

    def assume_forall(self, lo, hi, fn):
        self.S.CTX.add_universal(self.Q.zint(lo), self.Q.zint(hi), lambda j: self.S.zb(self.S.tz(fn(self.Q.mknum(j)))))

    def _record(self, label, ok, info):
        o = self.obl.setdefault(label, {'label': label, 'paths': 0, 'ok': True, 'backends': {}, 'model': None, 'verdict': None})
        o['paths'] += 1
        b = info.get('backend') or 'none'
        o['backends'][b] = o['backends'].get(b, 0) + 1
        if not ok:
            if o['ok'] or (o['model'] is None and info.get('inputs')):
                o['model'] = info.get('inputs')
                o['verdict'] = info.get('verdict')
                o['query'] = info.get('query')
            o['ok'] = False

    def prove(self, label, c, budget=None, hints=()):
        S, D = self.S, self.D
        if callable(c): c = c()
        z = S.tz(c)
        C = S.CTX
        if C.probing: return
        if z is True:
            self._record(label, True, {'backend': 'trivial'}); return
        z = S.zb(z)
        key = (z.get_id(), C.pc_key())
        if key in self.cache and self.cache[key][0]:
            self._record(label, True, {'backend': 'cached'})
        else:
            info = {}
            ok = D.valid(C, z, budget=budget or self.h['solver'], info=info)
            if not ok:
                if info.get('model') is not None: info['inputs'] = self.extract(info['model'])
                info['query'] = z.sexpr()[:1500]
            self.cache[key] = (ok, z)
            self._record(label, ok, info)
            if D.DEBUG: print('  prove', label, ok, info.get('backend'), info.get('verdict'), file=sys.stderr, flush=True)
        C.add(z)   # later obligations of this path may use it

    def lemma(self, label, c):
        """an intermediate obligation (proved, then available)"""
        self.prove('lemma: ' + label, c)

    def forall(self, label, lo, hi, fn, **k):
        import z3
        C = self.S.CTX
        saved = len(C.pc)
        j = self.Q.new_index('q')
        C.indices.append(j)
        C.add(z3.And(j >= self.Q.zint(lo), j < self.Q.zint(hi)))
        zs = []
        # the body may fork
        outs = C.explore(lambda: self.prove(label, fn(self.Q.mknum(j)), **k))
        for o in outs:
            if o[1] == 'exc': raise o[2]
        del C.pc[saved:]
        C.indices.remove(j) if False else None

    def lemma_forall(self, label, lo, hi, fn):
        """an intermediate obligation over a range of integers (proved at an arbitrary one, then available at all)"""
        self.forall('lemma: ' + label, lo, hi, fn)
        self.assume_forall(lo, hi, fn)

    def abstract(self, label, lo, hi, facts, **fns):
        """opaque functions standing for the given ones: facts(functions...) = {name: ([hypotheses(v)], conclusion(v))}
        is proved of the given ones at an arbitrary v in [lo, hi) and is all that is known of the opaque ones (until
        revealed)"""
        import z3
        S = self.S
        real = facts(*fns.values())
        for i, name in enumerate(real):
            def body(v, name=name):
                self.hint(v + 1)
                hyp, concl = real[name]
                for h in hyp: self.assume(h(v))
                return concl(v)
            self.forall(f'lemma: {label}: {name}', lo, hi, body)
        out = []
        for nm, f in fns.items():
            d = z3.Function(f'abs:{nm}!{S.CTX.counter}', z3.IntSort(), z3.RealSort())
            g = (lambda d: lambda v: S.Num(d(self.Q.zint(v))))(d)
            g.of = f
            out.append(g)
            self.keep = getattr(self, 'keep', []) + [f]
        def all_of(v):
            r = []
            for hyp, concl in facts(*out).values():
                c = lambda concl=concl: concl(v)
                for h in reversed(hyp): c = (lambda h, c: lambda: self.implies(h(v), c))(h, c)
                r.append(c())
            return self.and_(*r)
        self.S.CTX.add_universal(self.Q.zint(lo), self.Q.zint(hi), lambda j: self.S.zb(self.S.tz(all_of(self.Q.mknum(j)))), slow=True)
        return out

    def theory(self, **fns):
        """opaque functions of one argument standing for the given ones ('name_r' takes a real, others an integer);
        what is known of them are the laws proved of the given ones"""
        return Theory(self, fns)

    def proves(self, c):
        """(symbolic only) does c follow from what is known here?"""
        return self.S._proves(self.S.zb(self.S.tz(c)))

    def quotient_log(self, a, b):
        """(symbolic only) the logarithm of a / b for positive numbers"""
        S = self.S
        return S.Num(S.L(S.toreal(S.lift(a).z) / S.toreal(S.lift(b).z)))

    def left_at(self):
        """(symbolic only) the iteration at which the last loop that can be left early was left (all: their number)"""
        return self.Q.mknum(self.S.CTX.left_at)

    def reveal(self, F, v):
        """the definition of an opaque function at v"""
        self.assume(F(v) == F.of(v))

    def exists(self, label, lo, hi, fn, **k):
        """some index in [lo, hi) satisfies fn: the witness is sought among the known index terms"""
        import z3
        S = self.S
        def at(t):
            r = self.merged(lambda: fn(self.Q.mknum(t)))
            return S.b_and(t >= self.Q.zint(lo), t < self.Q.zint(hi), S.tz(r))
        self.prove(label, S.mkbool(S.b_or(*[at(t) for t in [self.Q.zint(lo)] + list(S.CTX.indices)[-6:]])), **k)

    def merged(self, f):
        """value of f() as one condition, forks inside f merged"""
        S = self.S
        old, S.CTX.nofork = S.CTX.nofork, False
        try: outs = S.CTX.explore(f)
        finally: S.CTX.nofork = old
        zs = []
        for d, kind, v, _ in outs:
            if kind == 'exc': raise v
            zs.append(S.b_and(self.Q.branch_cond(d), S.tz(v)))
        return S.mkbool(S.b_or(*zs))

    def holds_at(self, lo, hi, fn, budget=2):
        """can fn be proved at an arbitrary index? (a question, not an obligation)"""
        import z3
        C = self.S.CTX
        mark = len(C.pc)
        j = self.Q.new_index('q')
        C.add(z3.And(j >= self.Q.zint(lo), j < self.Q.zint(hi)))
        C.active.append(j)
        try: return self.D.valid(C, self.S.zb(self.S.tz(self.merged(lambda: fn(self.Q.mknum(j))))), budget=budget)
        finally:
            C.active.pop()
            del C.pc[mark:]

    def seq(self, n, fn):
        """the array of fn(j) for j < n"""
        return self.Q.Seq(n, lambda j: fn(self.Q.mknum(j)), 'array')

    def unreachable(self, label, detail=''):
        self.prove(label, False)

    def eq(self, a, b, **k): return self.S.mkbool(self.S.same(a, b))
    def le(self, a, b, **k):
        return self.S.mkbool(self.S.Num._le(self.S.lift(a), self.S.lift(b)))
    def ge(self, a, b, **k): return self.le(b, a)
    def lt(self, a, b): return self.S.mkbool(self.S.Num._lt(self.S.lift(a), self.S.lift(b)))
    def same(self, a, b):
        if self.S.lift(a) is not None and self.S.lift(b) is not None: return self.eq(a, b)
        return a == b
    def implies(self, a, b):
        a = self.S.tz(a)
        if callable(b):
            if a is False: return True
            C = self.S.CTX; mark = len(C.pc)
            C.add(self.S.zb(a))
            try: b = b()
            finally:
                extra = C.pc[mark + 1:]
                del C.pc[mark:]
                for f in extra: C.pc.append(f) if not isinstance(f, self.S.Fact) or not f.branch else None
        return self.S.mkbool(self.S.b_or(self.S.b_not(a), self.S.tz(b)))
    def and_(self, *a): return self.S.mkbool(self.S.b_and(*[self.S.tz(x) for x in a]))
    def or_(self, *a): return self.S.mkbool(self.S.b_or(*[self.S.tz(x) for x in a]))
    def not_(self, a): return self.S.mkbool(self.S.b_not(self.S.tz(a)))
    def ite(self, c, a, b): return self.S.ite(self.S.tz(c), a, b)
    def max(self, *a):
        r = a[0]
        for x in a[1:]: r = self.N.s_max(r, x)
        return r
    def min(self, *a):
        r = a[0]
        for x in a[1:]: r = self.N.s_min(r, x)
        return r
    def isinf(self, a): return self.N.s_isinf(a)
    def isnan(self, a): return self.N.s_isnan(a)
    def finite(self, a): return self.N.s_isfinite(a)

    def Sum(self, lo, hi, fn):
        import z3
        C = self.S.CTX
        lo, hi = z3.simplify(self.Q.zint(lo)), z3.simplify(self.Q.zint(hi))
        def el(j):
            # the summand is only of interest within the range
            mark = len(C.pc)
            C.add(z3.And(j >= lo, j < hi))
            try: r = self.S.lift(fn(self.Q.mknum(z3.simplify(j))))
            finally: del C.pc[mark]
            return r.np()
        r = self.N.sum_range(lo, hi, el)
        return self.S.Num(r.z, r.pinf, r.ninf, r.nan)

    def _len(self, lo, hi):
        import z3
        n = z3.simplify(self.Q.zint(hi) - self.Q.zint(lo))
        if not self.S._proves(n >= 0): n = z3.simplify(z3.If(n < 0, z3.IntVal(0), n))
        return n

    def exp(self, x): return self.S.n_exp(self.S.lift(x))
    def log(self, x): return self.S.n_log(self.S.lift(x), True)
    def sqrt(self, x): return self.S.n_sqrt(self.S.lift(x), True)
    def expm1(self, x): return self.exp(x) - 1
    def log1p(self, x): return self.log(self.S.lift(x) + 1)
    def at(self, s, j):
        if isinstance(s, self.Q.Seq): return s.elem(self.Q.zint(j))
        if isinstance(s, (list, tuple)): return self.Q.select(list(s), self.Q.zint(j))
        import numpy as np
        if isinstance(s, np.ndarray): return self.Q.select(s.tolist(), self.Q.zint(j))
        raise self.S.Unsupported(f'at {s!r}')
    def length(self, s): return s.n if isinstance(s, self.Q.Seq) else len(s)
    def real_of(self, x): return self.S.Num(self.S.toreal(self.S.lift(x).z))

    # -- code
    def mod(self, name): return self.Ld.load(name)

    def stub(self, owner, attr, fn):
        """uses the contract `fn` for owner.attr while this path runs"""
        self.undo.append((owner, attr, owner.__dict__.get(attr, self.S.UNDEF) if hasattr(owner, '__dict__') else getattr(owner, attr)))
        setattr(owner, attr, fn)
    patch = stub

    def memo(self, owner, attr):
        """calls of a pure function with provably equal arguments share their result"""
        real = getattr(owner, attr)
        calls = []
        def same_arg(x, y):
            if x is y: return True
            S, Q = self.S, self.Q
            if isinstance(x, Q.Seq) or isinstance(y, Q.Seq):
                try: x, y = self.N.to_seq(x), self.N.to_seq(y)
                except S.Unsupported: return False
                if not isinstance(x, Q.Seq) or not isinstance(y, Q.Seq): return False
                if not S._proves(Q.zint(x.n) == Q.zint(y.n)): return False
                t = Q.new_index('m')
                e = S.same(x.elem(t), y.elem(t))
                return S._proves(self.D.norm_bool(S.zb(S.b_or(S.b_not(S.zb(S.b_and(t >= 0, t < Q.zint(x.n)))), e))))
            if S.lift(x) is not None and S.lift(y) is not None: return S._proves(S.same(x, y))
            try: return bool(x == y)
            except Exception: return False
        def f(*a, **k):
            for a0, k0, r in calls:
                if len(a0) == len(a) and set(k0) == set(k) and all(same_arg(x, y) for x, y in zip(a0, a)) and all(same_arg(k0[i], k[i]) for i in k): return r
            r = real(*a, **k)
            calls.append((a, k, r))
            return r
        self.stub(owner, attr, f)

    def model(self, name, fn):
        self.S.CTX.models[name] = fn

    def named(self, x):
        """a fresh name of a finite number"""
        x = self.S.lift(x)
        c = self.S.CTX.fresh('name', x.z.sort())
        self.S.CTX.add(self.S.zb(self.S.b_and(x.fin(), c == x.z)))
        return self.S.Num(c, npy=True)

    def hint(self, *terms):
        for t in terms: self.Q.note_index(self.Q.zint(t))

    def invariants(self, fn): self.S.CTX.invariants = fn
    def loop_given(self, fn):
        """fn(carried values, number of iterations) -> {name: i -> value before iteration i} or None; proved inductive"""
        self.S.CTX.loop_given = (lambda d, n: {k: (lambda f: lambda i: f(self.Q.mknum(i)))(f) for k, f in (fn(d, self.Q.mknum(n)) or {}).items()})
        self.S.CTX.prover = lambda label, c: self.prove('loop: ' + label, c)
    def cell(self, obj, attr):
        """obj.attr may change in any loop"""
        self.S.CTX.loop_cells = list(self.S.CTX.loop_cells) + [(obj, attr)]
        self.S.CTX.cells = list(self.S.CTX.cells) + [(obj, attr)]
    def case(self, c):
        return self.S.CTX.branch(self.S.zb(self.S.tz(c))) if not isinstance(c, bool) else c

    def finish(self):
        for o, a, v in reversed(self.undo):
            if v is self.S.UNDEF: delattr(o, a)
            else: setattr(o, a, v)
        self.undo = []
        self.S.CTX.models = {}
        self.S.CTX.invariants = None
        self.S.CTX.loop_given = None
        self.S.CTX.fold_views = None
        self.S.CTX.havoc_special = None
        self.S.CTX.loop_cells = []

    def call(self, f, *a, **k):
        try: return 'ok', f(*a, **k)
        except Exception as e: return 'exc', e

    def raises(self, label, exc, f, *a, **k):
        kind, v = self.call(f, *a, **k)
        if kind == 'ok' or not isinstance(v, exc): self.prove(label, False)
        else: self.prove(label, True)
        return v if kind == 'exc' else None

    # -- counter-model
    def extract(self, model):
        import z3
        out = {}
        def num(z):
            v = model.eval(z, model_completion=True)
            if z3.is_int_value(v): return v.as_long()
            if z3.is_rational_value(v): return float(v.as_fraction())
            if z3.is_algebraic_value(v): return float(v.approx(30).as_fraction())
            raise ValueError(v)
        def ext(n):
            if isinstance(n, self.S.Num):
                for f, val in ((n.pinf, math.inf), (n.ninf, -math.inf), (n.nan, math.nan)):
                    if f is not False and z3.is_true(model.eval(self.S.zb(f), model_completion=True)): return val
                return num(n.z)
            if isinstance(n, self.S.Bool): return z3.is_true(model.eval(n.z, model_completion=True))
            return n
        try:
            for name, (k, v) in self.inputs.items():
                if k in ('real', 'int', 'bool'): out[name] = ext(v)
                elif k == 'const': out[name] = v
                elif k == 'table':
                    lo, hi = num(v[0]), num(v[1])
                    if hi - lo > 40: return None
                    out[name] = [[i, num(v[3](i))] for i in range(lo, hi + 1) if z3.is_true(model.eval(v[2](i), model_completion=True))]
                elif k == 'mapping':
                    K, V = v
                    n = K.n if isinstance(K.n, int) else num(self.Q.zint(K.n))
                    if n > 40: return None
                    out[name] = [[ext(K.elem(z3.IntVal(i))), ext(V.elem(z3.IntVal(i)))] for i in range(n)]
                elif k == 'array':
                    n = v.n if isinstance(v.n, int) else num(self.Q.zint(v.n))
                    if n > 40: return None
                    out[name] = [ext(v.elem(z3.IntVal(i))) for i in range(n)]
        except Exception:
            return None
        return out


class Theory:
    def __init__(self, vc, fns):
        import z3
        self.vc = vc
        self.real, self.opaque = {}, {}
        for nm, f in fns.items():
            r = nm.endswith('_r')
            nm = nm[:-2] if r else nm
            self.real[nm] = self.opaque[nm] = f
            if vc:
                C = vc.S.CTX
                d = z3.Function(f'th:{nm}!{C.counter}', z3.RealSort() if r else z3.IntSort(), z3.RealSort())
                self.opaque[nm] = (lambda d, r: lambda x: vc.S.Num(d(vc.S.toreal(vc.S.lift(x).z) if r else z3.simplify(vc.Q.zint(x)))))(d, r)
            setattr(self, nm, self.opaque[nm])

    class Given:
        def __init__(self, d, proving=False): self.__dict__.update(d); self.proving = proving

    def _prove(self, label, sorts, fn, rng=None, clean=False):
        import z3
        vc = self.vc
        C = vc.S.CTX
        whole, known = C.pc, list(C.indices)
        saved = len(C.pc)
        if clean:           # from nothing but the hypotheses
            C.pc, saved = [], 0
            del C.indices[:]
        xs = []
        for so in sorts:
            if so == 'i':
                j = vc.Q.new_index('q')
                vc.Q.note_index(j)
                xs.append(vc.Q.mknum(j))
            else: xs.append(vc.S.Num(C.fresh('x', z3.RealSort())))
        if rng: C.add(z3.And(vc.Q.zint(xs[0]) >= vc.Q.zint(rng[0]), vc.Q.zint(xs[0]) < vc.Q.zint(rng[1])))
        def body():
            hyp, concl = fn(Theory.Given(self.real, True), *xs)
            for h in hyp: vc.assume(h() if callable(h) else h)
            vc.prove('lemma: ' + label, concl)
        try:
            for o in C.explore(body):
                if o[1] == 'exc': raise o[2]
        finally:
            del C.pc[saved:]
            C.pc = whole
            C.indices[:] = known

    def law(self, label, sorts, fn, clean=False):
        """fn(functions, *arguments) = ([hypotheses], conclusion): proved for arbitrary arguments of the given
        functions; the result states it of the opaque ones at chosen arguments"""
        if self.vc is None: return lambda *xs: None
        self._prove(label, sorts, fn, clean=clean)
        def inst(*xs):
            vc = self.vc
            hyp, concl = fn(Theory.Given(self.opaque), *xs)
            c = concl
            for h in reversed(hyp): c = vc.implies(h() if callable(h) else h, c)
            vc.assume(c() if callable(c) else c)
        return inst

    def pairwise(self, label, lo, hi, fn, slow=False):
        """a law over pairs i < j of a range of integers, known at all pairs of known positions"""
        if self.vc is None: return
        vc = self.vc
        self._prove(label, 'ii', lambda F, i, j: ([i >= lo, i < j, j < hi], fn(F, i, j)))
        C, Q = vc.S.CTX, vc.Q
        def at(t):
            out = []
            F = Theory.Given(self.opaque)
            a = Q.mknum(t)
            for u in list(C.indices)[-8:] + list(C.active):
                if u.eq(t): continue
                b = Q.mknum(u)
                out.append(vc.implies(vc.and_(a < b, b < hi), lambda: fn(F, a, b)))
                out.append(vc.implies(vc.and_(b >= lo, b < a), lambda: fn(F, b, a)))
            return vc.S.zb(vc.S.tz(vc.and_(*out))) if out else vc.S.zb(True)
        C.add_universal(Q.zint(lo), Q.zint(hi), at, slow=slow)

    def everywhere(self, label, lo, hi, fn, slow=False):
        """a law over a range of integers, known at all of them"""
        if self.vc is None: return
        self._prove(label, 'i', fn, (lo, hi))
        vc = self.vc
        def at(j):
            hyp, concl = fn(Theory.Given(self.opaque), vc.Q.mknum(j))
            c = concl() if callable(concl) else concl
            for h in reversed(hyp): c = vc.implies(h() if callable(h) else h, c)
            return vc.S.zb(vc.S.tz(c))
        vc.S.CTX.add_universal(vc.Q.zint(lo), vc.Q.zint(hi), at, slow=slow)


def run_symbolic(h):
    """Runs the proof of one harness. Returns a report dict."""
    from . import sym, discharge
    S = sym
    C = S.CTX
    C.reset()
    C.models, C.invariants, C.fold_views, C.havoc_special, C.loop_cells = {}, None, None, None, []
    C.loop_given = None
    vc = Sym(h)
    t0 = time.time()
    rep = {'harness': h['name'], 'target': h['target'], 'props': h['props'], 'error': None}
    canary = []

    def body():
        C.counter = 0
        del C.indices[:]
        vc.inputs = {}
        C.cells = []
        try:
            h['fn'](vc)
            # vacuity: the end of the path must be satisfiable, and False unprovable
            if len(canary) < 6:
                canary.append(not discharge.valid(C, False, budget=1 if len(canary) < 2 else .3))
        except Skip:
            raise S.PathEnd()
        except (S.Unsupported, S.PathEnd, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            info = {}
            ok = discharge.valid(C, False, budget=h['solver'], info=info)
            if info.get('model') is not None: info['inputs'] = vc.extract(info['model'])
            tb = traceback.extract_tb(e.__traceback__)
            where = [f'{f.filename.split("/")[-1]}:{f.lineno} {f.name}' for f in tb][-3:]
            info['query'] = f'{type(e).__name__}: {e} at {where}'
            vc._record('no unexpected exception', ok, info)
        finally:
            vc.finish()

    def alarm(*a): raise S.Unsupported(f'time limit of {h["limit"]} s')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(h['limit'])
    try:
        outs = C.explore(body)
        rep['paths'] = len(outs)
    except S.Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        rep['error'] = f'unsupported: {e}'
        rep['where'] = [f'{f.filename.split("/")[-1]}:{f.lineno} {f.name}' for f in tb if '/pyvc/' not in f.filename][-4:]
        rep['trace'] = [f'{f.filename.split("/")[-1]}:{f.lineno} {f.name}' for f in tb][-14:]
    except RecursionError as e:
        rep['error'] = 'recursion limit'
    finally:
        signal.alarm(0)
    rep['obligations'] = list(vc.obl.values())
    rep['canary'] = canary
    if not rep['error']:
        if not vc.obl: rep['error'] = 'no obligations generated'
        elif not canary or not any(canary): rep['error'] = 'vacuous: no path reaches the end satisfiably'
    rep['stats'] = {k: round(v, 2) if isinstance(v, float) else v for k, v in discharge.STATS.items()}
    rep['n_paths'] = C.n_paths
    rep['wall_s'] = round(time.time() - t0, 2)
    rep['notes'] = sorted(C.assumed_notes)
    return rep


def run_concrete(h, seed, runs, budget, given=None):
    """Runs the harness on the real code. Returns a report dict (first violation kept)."""
    t0 = time.time()
    rep = {'harness': h['name'], 'evaluations': 0, 'skipped': 0, 'checks': 0, 'violation': None, 'samples': []}
    seen = set()
    i = 0
    import logging, warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    while i < runs and (time.time() - t0 < budget or i < 1):
        i += 1
        rng = random.Random(f'{seed}/{h["name"]}/{i}')
        vc = Conc(rng, given)
        v = None
        try:
            h['fn'](vc)
            rep['evaluations'] += 1
            rep['checks'] += vc.checked
            k = json.dumps(vc.inputs, default=str, sort_keys=True)
            if k not in seen and len(rep['samples']) < 3: rep['samples'].append(json.loads(k))
            seen.add(k)
        except Skip:
            rep['skipped'] += 1
        except Violation as e:
            v = {'label': e.label, 'detail': e.detail}
        except KeyboardInterrupt: raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            if '/contracts/' in tb[-1].filename and (isinstance(e, (AttributeError, ImportError)) and "'NoneType'" not in str(e) or isinstance(e, TypeError) and 'argument' in str(e)):
                # the contract names something internal that the code no longer has
                rep['inapplicable'] = f'{type(e).__name__}: {e}'
                break
            v = {'label': 'no unexpected exception', 'detail': f'{type(e).__name__}: {e} at ' + '; '.join(f'{f.filename.split("/")[-1]}:{f.lineno} {f.name}' for f in tb[-4:])}
        finally:
            vc.finish()
        if v:
            rep['evaluations'] += 1
            v['inputs'] = json.loads(json.dumps(vc.inputs, default=str))
            v['raw'] = vc.inputs
            rep['violation'] = v
            break
        if given is not None: break
    rep['distinct'] = len(seen)
    rep['wall_s'] = round(time.time() - t0, 2)
    return rep
