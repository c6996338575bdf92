"""P19: convolution helpers."""
import math
from pyvc.vc import harness
from contracts._pmf import *


def gen_list(r, n=None):
    n = n or r.choice([1, 2, 2, 3, 5, 8, 13, 25])
    w = gen_probs(r, n)
    s = math.fsum(w)
    total = r.choice([1.0, 1.0, 1.0, r.random(), 1e-6])
    return [x / s * total for x in w]


def gen_dict(r):
    l = gen_list(r)
    off, step = r.randint(-40, 40), r.choice([1, 1, 2, 7])
    ks = list(range(off, off + step * len(l), step))
    d = list(zip(ks, l)); r.shuffle(d)
    return [[k, v] for k, v in d]


def gen_tail(r): return r.choice([0, 0, 0, 1e-15, 1e-9, 1e-4, 1e-2, 0.3])


@harness('P19', ['dictionary_to_list', 'list_to_dictionary'], kind='bounded', runs=1500, budget=8, bound='random dictionaries and lists of up to 25 entries')
def conversions_lose_nothing(vc):
    c = vc.mod(CM)
    d = dict((k, v) for k, v in vc.data('dictionary', gen_dict))
    off, l = c.dictionary_to_list(dict(d))
    vc.prove('offset is the least key', off == min(d))
    vc.prove('length', len(l) == max(d) - min(d) + 1)
    for i in range(len(l)): vc.prove('entries', l[i] == d.get(off + i, 0))
    x = vc.data('list', gen_list)
    t = vc.data('tail', gen_tail)
    o = vc.data('offset', lambda r: r.randint(-50, 50))
    r = c.list_to_dictionary(list(x), o, t)
    for k, v in r.items(): vc.prove('values are those of the list', 0 <= k - o < len(x) and v == x[k - o] and v > 0)
    gone = [i for i in range(len(x)) if x[i] > 0 and i + o not in r]
    kept = [k - o for k in r]
    vc.prove('only a head and a tail are dropped', not kept or not any(min(kept) < i < max(kept) for i in gone))
    low, high = [i for i in gone if not kept or i < min(kept)], [i for i in gone if kept and i > max(kept)]
    if kept:
        for part, nm in ((low, 'head'), (high, 'tail')): vc.prove(f'dropped {nm} is at most half the allowed mass', math.fsum(x[i] for i in part) <= t / 2 + 1e-15)
    else: vc.prove('dropped mass is allowed', math.fsum(x) <= t + 1e-15)
    if t == 0: vc.prove('nothing is dropped', not gone)


@harness('P19', ['convolve_dictionary'], kind='bounded', runs=1200, budget=10, bound='random dictionaries of up to 25 entries')
def convolution_of_dictionaries(vc):
    c = vc.mod(CM)
    a, b = (dict((k, v) for k, v in vc.data(n, gen_dict)) for n in 'ab')
    t = vc.data('tail', gen_tail)
    got = c.convolve_dictionary(a, b, t)
    want = convolve(a, b)
    scale = math.fsum(want.values()) + 1e-300
    tol = 1e-13 * scale + 1e-18
    lost = []
    for k in sorted(set(got) | set(want)):
        w = want.get(k, 0.0)
        if k in got: vc.prove('value is the sum over pairs of keys', abs(got[k] - w) <= tol + 1e-12 * w)
        elif w > tol: lost.append(w)
    vc.prove('no more than the allowed mass is dropped', math.fsum(lost) <= t + 1e-12 * scale)
    for v in got.values(): vc.prove('no entry without probability', v > 0)


@harness('P19', ['compute_self_convolve_bounds', 'self_convolve', 'self_convolve_dictionary'], kind='bounded', runs=1200, budget=25, bound='random lists of up to 25 entries, up to 64 times')
def self_convolution(vc):
    c = vc.mod(CM)
    x = vc.data('list', gen_list)
    n = vc.data('times', lambda r: r.choice([1, 2, 3, 4, 6, 9, 16, 33, 64]))
    t = vc.data('tail', gen_tail)
    if len(x) * n > 800: n = max(1, 800 // len(x))
    lo, hi = c.compute_self_convolve_bounds(list(x), n, t)
    vc.prove('bounds are ordered and within the support', 0 <= lo <= hi <= (len(x) - 1) * n)
    want = conv_power(dict(enumerate(x)), n)
    scale = math.fsum(want.values()) + 1e-300
    out = math.fsum(v for k, v in want.items() if not lo <= k <= hi)
    vc.prove('mass outside the bounds is at most the allowed mass', out <= t * (1 + 1e-9))
    orders = vc.data('orders', lambda r: [r.choice([-1, 1]) * 10 ** r.uniform(-3, 0.5) for _ in range(r.randint(1, 4))])
    lo2, hi2 = c.compute_self_convolve_bounds(list(x), n, t, orders)
    vc.prove('mass outside the bounds for given orders', math.fsum(v for k, v in want.items() if not lo2 <= k <= hi2) <= t * (1 + 1e-9))
    if t == 0: vc.prove('whole support', (lo, hi) == (0, (len(x) - 1) * n))
    import numpy as np
    L, o = c.self_convolve(np.array(x) if vc.choice('as array', [True, False]) else list(x), n, t)
    vc.prove('range', L == lo and len(o) == hi - lo + 1)
    tol = 1e-12 * max(scale, max(x) ** n, 1e-3 * math.fsum(x) ** n) + 1e-17
    for i, v in enumerate(o):
        w = want.get(i + L, 0.0)
        vc.prove('self-convolution is the n-fold convolution', w - tol - 1e-11 * w <= v <= w + out + tol + 1e-11 * w)
    d = dict((k, v) for k, v in vc.data('dictionary', gen_dict))
    m = min(n, 5)
    if (max(d) - min(d) + 1) * m <= 800:
        g = c.self_convolve_dictionary(d, m, t)
        w = conv_power(d, m)
        sc = math.fsum(d.values()) ** m
        off = min(d) * m
        # the conversion keeps every positive entry: only mass outside the bounds may be missing
        lo3, hi3 = c.compute_self_convolve_bounds(c.dictionary_to_list(d)[1], m, t)
        outm = math.fsum(v for k, v in w.items() if not lo3 <= k - off <= hi3)
        for k in range(off + lo3, off + hi3 + 1):
            v = w.get(k, 0.0)
            vc.prove('self-convolution of a dictionary', v - 1e-12 * sc - 1e-17 - 1e-11 * v <= g.get(k, 0.0) <= v + outm + 1e-12 * sc + 1e-17 + 1e-11 * v)
        vc.prove('nothing outside the bounds', all(lo3 <= k - off <= hi3 for k in g))
