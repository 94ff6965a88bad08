"""shared random generators"""
from mliconf import *

# emphasis of the generated data: 'ties' (few fractional bits to drop, small odd values), 'ext' (the ends of the ranges)
MODE = [None]

def mode(m, g):
    """generator g under emphasis m"""
    def f(rng, n, tier):
        MODE[0] = m
        try: return g(rng, n, tier)
        finally: MODE[0] = None
    return f

def tie_scale(rng):
    """(scale, fraction bits): a power of two, or three times one, close to 1"""
    k = rng.randint(0, 13)
    return (rng.choice([1, 1, 1, 3]) if k < 13 else 1) << k, k + rng.randint(0, 2)

def rval(rng, bits, small=None):
    lo, hi = rng_range(bits)
    if MODE[0] == 'ext' and rng.random() < .6: return rng.choice([lo, lo, hi, hi, lo + 1, hi - 1])
    if MODE[0] == 'ties' and rng.random() < .6:
        v = 2 * rng.randint(-12, 11) + 1
        return v if lo <= v <= hi else v % 4 - 2
    x = rng.random()
    if small and x < .5: return rng.randint(-small, small)
    if x < .1: return rng.choice([lo, hi, lo + 1, hi - 1])
    if x < .2: return rng.choice([0, 1, -1])
    if x < .35: return rng.randint(-8, 8)
    if x < .5:
        v = rng.choice([1, -1]) * (1 << rng.randint(0, bits - 2)) + rng.randint(-1, 1)
        return max(lo, min(hi, v))
    return rng.randint(lo, hi)

def rdata(rng, el, shape, bits=None):
    n = 1
    for s in shape: n *= s
    b = BITS[el]
    style = rng.random()
    eff = min(b, bits or b)
    if style < .2: eff = max(2, eff - rng.randint(1, 4))
    if el == 'fp32': raise Exception
    return [rval(rng, eff) for _ in range(n)]

def long_dim(rng):
    """sizes around the limits of 8-bit counters"""
    return rng.choice([64, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300])

def rshape(rng, maxrank=4, maxn=24, minrank=1, maxdim=6, plong=.012):
    if maxn >= 24 and maxrank == 4 and rng.random() < plong:
        r = rng.randint(minrank, maxrank); sh = [1] * r; k = rng.randrange(r); sh[k] = long_dim(rng)
        if r > 1 and sh[k] <= 130 and rng.random() < .5: sh[rng.choice([j for j in range(r) if j != k])] = 2
        return sh
    while True:
        r = rng.randint(minrank, maxrank)
        sh = [rng.choice([1, 1, 2, 2, 3, 3, 4, 5, maxdim]) for _ in range(r)]
        n = 1
        for s in sh: n *= s
        if n <= maxn: return sh

def rstrides(rng, shape, p=.5, inner1=True, p1=.4, wide=.004):
    """row-major strides, possibly with gaps"""
    st = [1] * len(shape)
    if not inner1 and rng.random() < p * p1: st[-1] = rng.randint(2, 3)
    for i in range(len(shape) - 2, -1, -1):
        st[i] = st[i + 1] * shape[i + 1] + (rng.randint(1, 4) if rng.random() < p else 0)
    far = [i for i in range(len(shape) - 1) if 1 < shape[i] <= 6]
    if p and far and rng.random() < wide:       # strides beyond 16 bits
        i = rng.choice(far); d = rng.choice([32768, 33000, 40000, 65536, 70000]) // rng.choice([1, shape[i] - 1]) + rng.randint(0, 9)
        if d > st[i]:
            st[i] = d
            for j in range(i - 1, -1, -1): st[j] = st[j + 1] * shape[j + 1] + (rng.randint(1, 4) if rng.random() < p else 0)
            if sum((n - 1) * t for n, t in zip(shape, st)) > 150000: return rstrides(rng, shape, p, inner1, p1, wide)
    return st

def rq(c, el, frlo=None, frhi=None, scalebits=15):
    """random per-tensor quantisation parameters"""
    r = c.r
    if el in ('fx8', 'fx16'):
        b = BITS[el]
        if MODE[0] == 'ties' and frlo is None and frhi is None: return c.q(el, fr=r.randint(1, 5))
        return c.q(el, fr=r.randint(0 if frlo is None else frlo, b - 1 if frhi is None else frhi))
    x = r.random()
    zp = 0 if x < .2 else r.randint(-4, 4) if MODE[0] == 'ties' else r.randint(-128, 127) if x < .9 else r.choice([-128, 127])
    if MODE[0] == 'ties':
        sc, fr = tie_scale(r)
        return c.q(el, fr=fr, zp=zp, sc=sc)
    sc = 1 if r.random() < .15 else r.randint(1 << r.randint(0, scalebits - 1), (1 << scalebits) - 1) if r.random() < .8 else (1 << r.randint(0, scalebits - 1))
    nb = sc.bit_length()
    fr = r.randint(max(0, nb - 3), min(nb + 8, 22))
    return c.q(el, fr=fr, zp=zp, sc=sc)
