"""sessions for the compiled (3.0) kernels: random shapes, tilings, strides, banks and data"""
from mliconf import *
from genlib import *


def prod(l):
    n = 1
    for x in l: n *= x
    return n


import os

class Case30:
    def __init__(self, rng, k, tag=None):
        self.r = rng; self.tag = tag or 'k30_' + k; k = k[:-1] if k.endswith('convb') else k; self.k = k
        self.ops = []; self.cfg = []; self.tile = []; self.tile2 = []; self.form = []; self.skew = 0
        self.passes = rng.choice([1, 1, 2])
        self.fill = rng.choice([0, 255, 127, 128, rng.randint(0, 255)])
        self.mis = [rng.randint(0, 15) for _ in range(3)]; self.descmis = rng.randint(0, 7)
        self.calls = [dict(k=k)]

    def op(self, bits, sh, data, st=None, gap=None):
        if st is None: st = dense(sh)
        self.ops.append(dict(b=bits, sh=list(sh), st=list(st), v=list(data), bank=self.r.randint(0, 2),
                             gap=self.r.randint(0, 3) if gap is None else gap))
        return len(self.ops) - 1

    def text(self, sid):
        L = ['S %s' % sid]
        for o in self.ops:
            ext = sum((s - 1) * t for s, t in zip(o['sh'], o['st'])) + 1
            vals = [self.junkval(o['b'], i) for i in range(ext)]
            for i, v in enumerate(o['v']): vals[Case.offs(i, o['sh'], o['st'])] = v
            L.append('O %d %d %s %s %d %d %s' % (o['b'], len(o['sh']), ' '.join(map(str, o['sh'])), ' '.join(map(str, o['st'])),
                                                 o['bank'], o['gap'], enc(o['b'], vals).hex()))
        for v in (self.cfg, self.tile, self.tile2, (self.form + [0, 0, 0])[:3] + [self.skew]): L.append('V %d %s' % (len(v), ' '.join(map(str, v))))
        L.append('K %s %d %d %d %d %d %d' % (self.k, self.passes, self.fill, *self.mis, self.descmis))
        return '\n'.join(L) + '\n'

    @staticmethod
    def junkval(bits, i):
        lo, hi = rng_range(bits)
        return lo + (i * 7919 + 77) % (hi - lo + 1)

    @staticmethod
    def parse_out(path, cases, obs):
        done = []; cur = None
        for line in open(path):
            f = line.split()
            if not f: continue
            if f[0] == 'S':
                i = int(f[1]); cur = dict(ev=[], notes=[], bufs=[], done=0, crash=None); obs[i] = cur; done.append(i)
            elif f[0] == 'Q':
                it = iter(map(int, f[1:])); q = []
                for _ in range(next(it)):
                    r = next(it); q.append(dict(p=[next(it) for _ in range(r)], s=[next(it) for _ in range(r)]))
                cur['ev'].append(dict(q=q, v=[], f=-1, st=-1))
            elif f[0] == 'V': cur['ev'][-1]['v'] = [int(x) for x in f[1:]]
            elif f[0] == 'F': cur['ev'][-1]['f'], cur['ev'][-1]['st'] = int(f[1]), int(f[2])
            elif f[0] == 'B': cur['bufs'].append([int(f[1]), int(f[2])])
            elif f[0] == 'X': cur['notes'].append(f[1])
            elif f[0] == 'Z': cur['done'] = 1
        return done

    def record(self, o):
        return dict(tag=self.tag, k=self.k, was=((self.fill ^ 0x55) + 128) % 256 - 128, cfg=self.cfg, tile=self.tile, tile2=self.tile2, skew=self.skew, passes=self.passes,
                    ops=[dict(b=x['b'], sh=x['sh'], st=x['st'], v=x['v']) for x in self.ops], bufs=o.get('bufs', []),
                    ev=o['ev'], notes=o['notes'], done=o.get('done', 0), crash=1 if o.get('crash') else 0)


# ---------------------------------------------------------------- helpers
def forms(r, c, k, nform):
    """constructor / attachment / encoding variants; tensors as they are make a single tile"""
    if r.random() < .6: return c
    f = r.randint(0, nform); c.form = [f, r.randint(0, 1), r.randint(0, 1)]
    o = c.ops[-1 if k not in ('clip', 'prelu') else 1]
    if f == nform: c.tile = list(o['sh'])
    return c

def data(r, bits, n, lim=None):
    if lim is None: return [rval(r, bits) for _ in range(n)]
    return [max(-lim, min(lim - 1, rval(r, bits))) for _ in range(n)]

def strides(r, sh, p=.4): return rstrides(r, sh, p if r.random() < .6 else 0)

def rtile(r, n):
    """a tile extent for an axis of n elements"""
    return n if r.random() < .35 else r.randint(1, n)

def few_tiles(r, sh, lim=24, lo=None):
    if max(sh) > 60 and r.random() < .3: lim = 310          # more tiles than an 8-bit counter holds
    while True:
        t = [max(rtile(r, n), 1 if lo is None else min(n, lo[i])) for i, n in enumerate(sh)]
        if prod(-(-n // x) for n, x in zip(sh, t)) <= lim: return t


def win_out(n, k, s, pb, pe, d=1):
    e = (k - 1) * d + 1
    return (n + pb + pe - e) // s + 1 if n + pb + pe >= e else 0


def big_window(r, dil=True):
    """a spatial axis with one quantity beyond 8-bit signed counters"""
    from gen_conv import huge_dim
    while True:
        k, s, d, n, pb, pe, o = huge_dim(r, False)
        if (d == 1 or dil) and (k <= 255 or dil): return n, k, s, pb, pe, d, o

def windows(r, dil=True, maxn=6):
    """two spatial axes"""
    x = r.random()
    if x > .03: return window(r, maxn, dil), window(r, maxn, dil)
    while True:
        a, b = big_window(r, dil), window(r, 2, dil)
        if a[6] * b[6] * a[1] * b[1] <= 900: return (a, b) if r.random() < .5 else (b, a)


def window(r, maxn=6, dil=True, pads=True):
    """one spatial axis: n, k, s, pad begin/end, dilation, out"""
    while True:
        n = r.randint(1, maxn); k = r.choice([1, 1, 2, 2, 3, 3, 4]); s = r.choice([1, 1, 2, 3])
        d = r.choice([1, 1, 1, 2, 3]) if dil and k > 1 else 1
        e = (k - 1) * d + 1
        pb = r.randint(0, e - 1) if pads and r.random() < .6 else 0
        pe = r.randint(0, e - 1) if pads and r.random() < .6 else 0
        o = win_out(n, k, s, pb, pe, d)
        if 1 <= o <= 6: return n, k, s, pb, pe, d, o


def win_tile(r, n, k, s, pb, d, o):
    """an output tile extent the iterator accepts: the first increment must clear the padding,
    and no input tile may be empty"""
    ok = []
    e = (k - 1) * d + 1
    for t in range(1, o + 1):
        c = -(-o // t)
        if c == 1:
            if t * s >= pb: ok.append(t)
            continue
        if t * s < pb: continue
        if all(i * t * s - pb < n for i in range(c)): ok.append(t)
    return r.choice(ok) if ok and r.random() < .8 else (ok[-1] if ok else None)


def conv_case(r, k):
    while True:
        wy, wx = windows(r)
        ty = win_tile(r, wy[0], wy[1], wy[2], wy[3], wy[5], wy[6]); tx = win_tile(r, wx[0], wx[1], wx[2], wx[3], wx[5], wx[6])
        if ty and tx: break
    b = r.choice([1, 1, 2, 3]) if k in ('dw', 'convb') else 1; ci = r.randint(1, 4); co = ci if k == 'dw' else r.randint(1, 5)
    if max(wy[:6] + wx[:6]) > 60: b = 1; ci = r.randint(1, 2); co = ci if k == 'dw' else r.randint(1, 2)
    elif r.random() < .02:
        if k == 'dw': ci = co = long_dim(r)
        elif r.random() < .5: ci = long_dim(r); co = 1
        else: co = long_dim(r); ci = 1
        while wy[6] * wx[6] * wy[1] * wx[1] > 40 or not ty or not tx:
            wy, wx = window(r, 3), window(r, 3)
            ty = win_tile(r, wy[0], wy[1], wy[2], wy[3], wy[5], wy[6]); tx = win_tile(r, wx[0], wx[1], wx[2], wx[3], wx[5], wx[6])
    if b * wy[6] * wx[6] * co > 90: b = 1
    c = Case30(r, k)
    c.cfg = [wy[1], wx[1], wy[2], wx[2], wy[3], wx[3], wy[4], wx[4], wy[5], wx[5]]
    c.op(8, [b, wy[0], wx[0], 1, ci], data(r, 8, b * wy[0] * wx[0] * ci), strides(r, [b, wy[0], wx[0], 1, ci]))
    wsh = [wy[1], wx[1], co] if k == 'dw' else [1, wy[1], wx[1], ci, co]
    c.op(8, wsh, data(r, 8, prod(wsh)))
    z = [0] * co if r.random() < .2 else [rval(r, 8)] * co if r.random() < .3 else data(r, 8, co)
    c.op(8, [co], z); c.op(8, [1], [0 if r.random() < .2 else rval(r, 8)])
    osh = [b, wy[6], wx[6], 1, co]
    c.op(32, osh, [0] * prod(osh), strides(r, osh))
    c.tile = [rtile(r, b), ty, tx, 1, rtile(r, co)]
    return forms(r, c, k, 2)


def tconv_case(r, k):
    # output extent: (n - 1) * s + k - pb - pe
    def ax():
        while True:
            s = r.choice([1, 1, 2, 2, 3]); kk = s if r.random() < .4 else r.randint(s, 4); n = r.randint(1, 5)
            pb = r.randint(0, kk - 1) if r.random() < .6 else 0; pe = r.randint(0, kk - 1) if r.random() < .6 else 0
            cut = kk == s and r.random() < .7
            if cut: n = r.randint(1, 8)
            o = (n - 1) * s + kk - pb - pe
            if o < 1 or o > (16 if cut else 8) or n * s < pb: continue
            t = r.randint(1, n) if cut else n
            return n, kk, s, pb, pe, o, t
    y, x = ax(), ax()
    ci = r.randint(1, 3); co = r.randint(1, 4); b = r.choice([1, 1, 2]) if k == 'tconvb' else 1
    c = Case30(r, k)
    c.cfg = [y[1], x[1], y[2], x[2], y[3], x[3], y[4], x[4]]
    ish = [b, y[0], x[0], 1, ci]; osh = [b, y[5], x[5], 1, co]
    c.op(8, ish, data(r, 8, prod(ish)), strides(r, ish))
    c.op(8, [1, y[1], x[1], ci, co], data(r, 8, y[1] * x[1] * ci * co))
    c.op(8, [co], data(r, 8, co)); c.op(8, [1], [rval(r, 8)])
    c.op(32, osh, [0] * prod(osh), strides(r, osh))
    c.tile = [rtile(r, b), y[6], x[6], 1, ci, rtile(r, co)]
    if r.random() < .4: c.form = [r.randint(0, 1), 0, r.randint(0, 1)]
    return c


def fc_case(r, k):
    m, n, o = 1, r.randint(1, 8), r.randint(1, 6)
    if r.random() < .02: n = long_dim(r)
    elif r.random() < .02: o = long_dim(r)
    c = Case30(r, k)
    c.op(8, [m, n], data(r, 8, m * n), strides(r, [m, n]))
    c.op(8, [n, o], data(r, 8, n * o))
    nz = r.choice([1, o])
    c.op(16 if k == 'fc_old' else 8, [nz], data(r, 8, nz))
    c.op(32, [m, o], [0] * (m * o), strides(r, [m, o]))
    c.tile = [m, o]
    c.form = [r.choice([0, 0, 1, 2 if nz == 1 and k == 'fc' else 1]), 0, 0]
    return c


def matmul_case(r, k):
    m, n, o = r.randint(1, 5), r.randint(1, 6), r.randint(1, 5)
    x = r.random()
    if x < .01: m = long_dim(r); o = r.randint(1, 2)
    elif x < .02: n = long_dim(r)
    elif x < .03: o = long_dim(r); m = r.randint(1, 2)
    c = Case30(r, k)
    c.op(8, [m, n], data(r, 8, m * n), strides(r, [m, n]))
    c.op(8, [n, o], data(r, 8, n * o), strides(r, [n, o]))
    c.op(8, [2], data(r, 8, 2))
    c.op(32, [m, o], [0] * (m * o), strides(r, [m, o]))
    c.tile = [rtile(r, m), rtile(r, o)]
    return c


def pool_case(r, k):
    while True:
        wy, wx = windows(r, False, 7)
        ty = win_tile(r, wy[0], wy[1], wy[2], wy[3], 1, wy[6]); tx = win_tile(r, wx[0], wx[1], wx[2], wx[3], 1, wx[6])
        if ty and tx: break
    b = r.choice([1, 1, 2, 3]); ch = r.randint(1, 4)
    if max(wy[:6] + wx[:6]) > 60: b = r.choice([1, 1, 2]); ch = 1
    elif wy[6] * wx[6] * wy[1] * wx[1] < 20 and r.random() < .1:
        if r.random() < .5: ch = long_dim(r)
        else: b = long_dim(r); ch = 1
    c = Case30(r, k)
    c.cfg = [wy[1], wx[1], wy[2], wx[2], wy[3], wx[3], wy[4], wx[4]]
    ish = [b, wy[0], wx[0], ch]; osh = [b, wy[6], wx[6], ch]
    bi = r.choice([8, 8, 16] if k == 'maxpool' else [8])
    c.op(bi, ish, data(r, bi, prod(ish)), strides(r, ish))
    c.op(bi if k == 'maxpool' else 32, osh, [0] * prod(osh), strides(r, osh))
    c.tile = [rtile(r, b), ty, tx, rtile(r, ch)]
    return forms(r, c, k, 1)


def shape4(r, lim=60):
    if r.random() < .015:
        sh = [1] * 4; i, j = r.sample(range(4), 2); sh[i] = long_dim(r); sh[j] = r.choice([1, 1, 2]); return sh
    while True:
        sh = [r.choice([1, 1, 2, 3, 4, 5]) for _ in range(4)]
        if prod(sh) <= lim: return sh


def reduce_case(r, k):
    sh = shape4(r); ax = r.randint(0, 3)
    if r.random() < .03: sh = [1] * 4; sh[r.randint(0, 3)] = 2; sh[ax] = long_dim(r)
    osh = list(sh); osh[ax] = 1
    c = Case30(r, k)
    bi = r.choice([8, 16, 32])
    c.cfg = [ax]
    lim = None if k == 'rmax' or r.random() < .15 and sh[ax] == 1 else 2 ** (bi - 1) // sh[ax]     # sums stay in range
    c.op(bi, sh, data(r, bi, prod(sh), lim), strides(r, sh))
    c.op(bi, osh, [0] * prod(osh), strides(r, osh))
    c.tile = few_tiles(r, sh); c.tile[ax] = sh[ax]
    return c


def permute_case(r, k):
    sh = shape4(r); p = [0, 1, 2, 3]; r.shuffle(p)
    osh = [sh[i] for i in p]
    c = Case30(r, k); c.cfg = p
    b = r.choice([8, 16, 32])
    c.op(b, sh, data(r, b, prod(sh)), strides(r, sh)); c.op(b, osh, [0] * prod(osh), strides(r, osh))
    c.tile = few_tiles(r, sh)
    return c


def mbcast_case(r, k):
    osh = shape4(r); ish = [1 if r.random() < .4 else n for n in osh]
    c = Case30(r, k)
    b = r.choice([8, 16, 32])
    c.op(b, ish, data(r, b, prod(ish)), strides(r, ish)); c.op(b, osh, [0] * prod(osh), strides(r, osh))
    c.tile = few_tiles(r, osh)
    return c


def elt_case(r, k):
    osh = shape4(r)
    l, rr = list(osh), list(osh)        # same shape, or one scalar operand
    if r.random() < .35:
        if r.random() < .5: l = [1] * 4
        else: rr = [1] * 4
    c = Case30(r, k)
    if k == 'mul': bi = r.choice([8, 16]); bo = 32
    else: bi = bo = r.choice([8, 16, 32])
    c.op(bi, l, data(r, bi, prod(l)), strides(r, l)); c.op(bi, rr, data(r, bi, prod(rr)), strides(r, rr))
    c.op(bo, osh, [0] * prod(osh), strides(r, osh))
    c.tile = few_tiles(r, osh)
    return forms(r, c, k, 1)


def clip_case(r, k):
    sh = shape4(r); w = r.choice([8, 8, 32]); a, b = sorted(data(r, w, 2))
    c = Case30(r, k)
    c.op(w, sh, data(r, w, prod(sh)), strides(r, sh)); c.op(w, sh, [0] * prod(sh), strides(r, sh))
    c.op(w, [1], [a]); c.op(w, [1], [b])
    c.tile = few_tiles(r, sh)
    return forms(r, c, k, 1)


def nop_case(r, k):
    sh = shape4(r); c = Case30(r, k)
    c.op(8, sh, data(r, 8, prod(sh)), strides(r, sh)); c.tile = few_tiles(r, sh)
    return c


def scale(r):
    if MODE[0] == 'ties': return r.choice([1, 1, 2, 3, 4, 8])
    return r.choice([1, 32767, 16384, r.randint(1, 32767), r.randint(1, 100)])
def shift(r, small=False):
    if MODE[0] == 'ties': return r.choice([1, 1, 2, 2, 3, 4])
    return r.choice([0, 1, 2, 7, 14, 15, 16, 20, 30, 31, 40, 46, r.randint(0, 30)])

def LIM(): return 100 if MODE[0] == 'ties' else 3000

def rescale_case(r, k):
    sh = shape4(r); c = Case30(r, k)
    bi, bo = r.choice([(32, 8), (32, 8), (8, 8), (8, 32)])
    ax = r.choice([-1, 3, 3, 3, 0, 1, 2])
    n = 1 if ax < 0 else sh[ax]
    c.cfg = [ax]
    base = [0] * n if r.random() < .3 else data(r, bi, n)
    xs = data(r, bi, prod(sh)) if r.random() < .3 else [max(rng_range(bi)[0], min(rng_range(bi)[1], base[0] + r.randint(-LIM(), LIM()))) for _ in range(prod(sh))]
    c.op(bi, sh, xs, strides(r, sh)); c.op(bo, sh, [0] * prod(sh), strides(r, sh))
    c.op(bi, [n], base)
    c.op(16, [n], [scale(r) for _ in range(n)]); c.op(8, [n], [shift(r) for _ in range(n)]); c.op(bo, [n], data(r, bo, n) if r.random() < .7 else [0] * n)
    c.tile = few_tiles(r, sh)
    return c


def prelu_case(r, k):
    sh = shape4(r); sh = sh[:3] + [1] + sh[3:]; c = Case30(r, k)
    ax = r.choice([-1, 4, 4])
    n = 1 if ax < 0 else sh[ax]
    c.cfg = [ax]
    base = [0] * n if r.random() < .3 else data(r, 32, n)
    xs = data(r, 32, prod(sh)) if r.random() < .3 else [max(-2**31, min(2**31 - 1, base[i % n] + r.randint(-LIM(), LIM()))) for i in range(prod(sh))]
    c.op(32, sh, xs, strides(r, sh)); c.op(8, sh, [0] * prod(sh), strides(r, sh))
    c.op(32, [n], base)
    for _ in range(2): c.op(16, [n], [scale(r) for _ in range(n)])
    for _ in range(2): c.op(8, [n], [shift(r) for _ in range(n)])
    c.op(8, [n], data(r, 8, n))
    c.tile = few_tiles(r, sh)
    if ax == 4 and r.random() < .2: c.form = [1, 0, 0]; c.tile = list(sh)
    return c


def move_case(r, k):
    import gen_iter
    c = Case30(r, k); b = r.choice([8, 16, 32])
    how = r.choice([0, 0, 1, 1, 2])
    kk = [1] * 5; ss = [1] * 5; pp = [0] * 5; on = [1] * 5
    if how == 0:
        sh = shape4(r, 40); sh = sh[:r.randint(0, 4)] + [1] + sh; sh = sh[:5]
        tile = few_tiles(r, sh)
    else:
        x = None
        while True:
            x = gen_iter.make(r, 'in' if how == 1 else 'noov').rec
            if x['ord'] != sorted(x['ord']) or x['skew'] or prod(x['ish']) > 250 or gen_iter.tiles(x) > 16: continue
            break
        f = [1] * (5 - len(x['sh']))
        sh = x['ish'] + f; on = x['sh'] + f; tile = x['tile'] + f; kk = x['k'] + f; ss = x['s'] + f; pp = x['p'] + [0] * len(f)
    how |= r.choice([0, 4])
    if r.random() < .15: how = 8; tile = list(sh)
    full = list(sh); pos = [0] * 5
    if r.random() < .4:
        for d in range(5):
            if r.random() < .4: pos[d] = r.randint(0, 2); full[d] += pos[d] + r.randint(0, 1)
        if prod(full) > 700: full = list(sh); pos = [0] * 5
    c.cfg = [how] + pos + kk + ss + pp + on
    c.op(b, full, data(r, b, prod(full)), strides(r, full)); c.op(b, sh, [0] * prod(sh), strides(r, sh))
    c.tile = tile; c.tile2 = tile
    c.form = [0, r.choice([0, 0, 1]), 0]
    return c


def resize_case(r, k):
    sh = [r.randint(1, 2), r.randint(1, 5), r.randint(1, 5), r.randint(1, 3)]
    osh = [sh[0], r.randint(1, 6), r.randint(1, 6), sh[3]]
    c = Case30(r, k)
    s = r.randint(1, 11)
    def st(): return r.randint(1, min((16 << s) - 1, 32767)) if r.random() < .3 else min((16 << s) - 1, max(1, (1 << s) * r.randint(1, 4) // r.randint(1, 4)))
    def ok(x): return x if s < 4 or x > (1 << (s - 4)) else (1 << (s - 4)) + 1
    lim = min((16 << s) - 1, 32767)
    def of(): return r.choice([0, r.randint(-lim, lim), r.randint(-(2 << s), 2 << s), -(1 << s) // 2])
    c.cfg = [ok(st()), ok(st()), max(-lim, min(lim, of())), max(-lim, min(lim, of())), s, r.choice([0, rval(r, 8)])]
    c.op(8, sh, data(r, 8, prod(sh)), strides(r, sh)); c.op(32, osh, [0] * prod(osh), strides(r, osh))
    c.passes = 1
    return c


def over8(kind):
    """window parameters that the 32-bit fields of the configuration hold and 8 bits do not (known findings)"""
    import random
    r = random.Random('over8'); L = []
    def pool(k, tag, kw, sw, pl, iw, ow):
        c = Case30(r, k, 'over8_%s_%s' % (k, tag)); c.cfg = [1, kw, 1, sw, 0, pl, 0, 0]
        c.op(8, [1, 1, iw, 1], [1 + i % 100 for i in range(iw)]); c.op(8 if k == 'maxpool' else 32, [1, 1, ow, 1], [0] * ow)
        c.tile = [1, 1, ow, 1]; c.skew = 0; c.passes = 1; L.append(c)
    def conv(k, tag, kw, sw, pl, dw, iw, ow):
        c = Case30(r, k, 'over8_%s_%s' % (k, tag)); c.cfg = [1, kw, 1, sw, 0, pl, 0, 0, 1, dw]
        c.op(8, [1, 1, iw, 1, 1], [1 + i % 100 for i in range(iw)]); c.op(8, [1, kw, 1] if k == 'dw' else [1, 1, kw, 1, 1], [1 + i % 5 for i in range(kw)])
        c.op(8, [1], [1]); c.op(8, [1], [0]); c.op(32, [1, 1, ow, 1, 1], [0] * ow)
        c.tile = [1, 1, ow, 1, 1]; c.passes = 1; L.append(c)
    if kind == 'pool':
        for k in ('maxpool', 'sumpool'):
            pool(k, 'kernel', 257, 1, 0, 258, 2); pool(k, 'stride', 1, 257, 0, 300, 2)
    else:
        for k in ('conv', 'dw'):
            conv(k, 'stride', 1, 257, 0, 1, 300, 2); conv(k, 'dilation', 2, 1, 0, 257, 260, 3); conv(k, 'padding', 2, 1, 257, 258, 4, 3)
    return L

MAKE = dict(convb=conv_case, tconvb=tconv_case, conv=conv_case, dw=conv_case, tconv=tconv_case, fc=fc_case, fc_old=fc_case, matmul=matmul_case,
            maxpool=pool_case, sumpool=pool_case, rmax=reduce_case, rsum=reduce_case, permute=permute_case,
            mbcast=mbcast_case, nop=nop_case, clip=clip_case, rescale=rescale_case, prelu=prelu_case, move=move_case, resize=resize_case,
            add=elt_case, sub=elt_case, mul=elt_case, max=elt_case, min=elt_case)

SKEW = ('conv', 'dw', 'maxpool', 'sumpool', 'rmax', 'rsum', 'mbcast', 'clip', 'rescale', 'prelu', 'matmul', 'add', 'sub', 'mul', 'max', 'min')
def skewed(r, c):
    """a smaller first tile along the first dimension"""
    if c.k not in SKEW or (c.form and c.form[0]) or not c.tile or c.tile[0] < 2 or r.random() < .4: return c
    if c.k in ('rmax', 'rsum') and c.cfg[0] == 0: return c
    c.skew = r.randint(1, c.tile[0] - 1)
    return c

def gen(kinds):
    def g(rng, n, tier):
        return [skewed(rng, MAKE[k](rng, k)) for k in (kinds[i % len(kinds)] for i in range(n))]
    return g
