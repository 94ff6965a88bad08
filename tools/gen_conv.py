"""multiply-accumulate layers: conv2d, depthwise, group, transpose, fully connected"""
from mliconf import *
from genlib import *

VAR = ['fx16', 'fx16_fx8_fx8', 'sa8_sa8_sa32']
TYPES = {'fx8': ('fx8', 'fx8', 'fx8'), 'fx16': ('fx16', 'fx16', 'fx16'), 'fx16_fx8_fx8': ('fx16', 'fx8', 'fx8'), 'sa8_sa8_sa32': ('sa8', 'sa8', 'sa32')}

def scale_of(rng, x):
    """(scale, frac) close to the real x, random precision"""
    import math
    bits = rng.choice([15, 15, 15, 14, 10, 7, 1])
    m, e = math.frexp(x)             # x = m 2^e, .5<=m<1
    sc = max(1, min(32767, int(m * (1 << bits))))
    return sc, bits - e

def bias_q(sin, fin, sw, fw, rng):
    """scale of the bias = scale_in * scale_w, as int16 with shift"""
    prod = sin * sw
    sh = max(0, prod.bit_length() - 15)
    if rng.random() < .3 and (prod >> (sh + 1)) >= 1: sh += 1
    v = (prod + ((1 << sh) >> 1)) >> sh
    if v > 32767: sh += 1; v = (prod + ((1 << sh) >> 1)) >> sh
    return v, fin + fw - sh

def mac_tensors(rng, c, var, shi, shw, nout, sho, ntaps, wzp=False, dense_io=False, stw=None):
    """input, weights, bias, output with matching quantisation"""
    ei, ew, eb = TYPES[var]
    sti = None if dense_io else rstrides(rng, shi)
    sto = None if dense_io else rstrides(rng, sho)
    if stw is None: stw = rstrides(rng, shw, .3)
    mag = rng.random()
    bits = lambda el: None if mag < .5 else rng.randint(2, BITS[el])
    di = rdata(rng, ei, shi, bits(ei)); dw = rdata(rng, ew, shw, bits(ew))
    axis = len(shw) - 1
    import math
    if ei == 'sa8':
        perax = rng.random() < .6
        zi = rng.choice([0, -128, 127, rng.randint(-128, 127), rng.randint(-128, 127)])
        si = rng.randint(1 << 13, 32767) if rng.random() < .7 else rng.randint(1, 32767); fi = rng.randint(4, 18)
        n = nout if perax else 1
        sw = [rng.randint(1 << 13, 32767) if rng.random() < .7 else rng.randint(1, 32767) for _ in range(n)]
        base = rng.randint(6, 20); fw = [base + rng.choice([0, 0, 1, -1, 3]) for _ in range(n)]
        if MODE[0] == 'ties':
            si, fi = tie_scale(rng); t = [tie_scale(rng) for _ in range(n)]; sw, fw = [x[0] for x in t], [x[1] for x in t]
        bq = [bias_q(si, fi, s, f, rng) for s, f in zip(sw, fw)]
        zw = 0
        if wzp: zw = rng.randint(-128, 127)
        qi = c.q(ei, fr=fi, zp=zi, sc=si)
        if perax:
            qw = c.q(ew, dim=axis, zp=[zw] * n, sc=sw, fr=fw)
            qb = c.q(eb, dim=0, zp=[0] * n, sc=[b[0] for b in bq], fr=[b[1] for b in bq])
        else:
            qw = c.q(ew, fr=fw[0], zp=zw, sc=sw[0]); qb = c.q(eb, fr=bq[0][1], zp=0, sc=bq[0][0])
        k = rng.randrange(n); real = si * sw[k] / 2.0 ** (fi + fw[k])
        so, fo = scale_of(rng, real * math.sqrt(ntaps + 1) * 2.0 ** rng.uniform(2, 9))
        if rng.random() < .1: so, fo = rng.randint(1, 32767), rng.randint(0, 20)
        if MODE[0] == 'ties': so, fo = tie_scale(rng); fo -= rng.randint(1, 4)
        zo = rng.choice([0, -128, 127, rng.randint(-128, 127), rng.randint(-128, 127)])
        qo = c.q(ei, fr=fo, zp=zo, sc=so)
        bb = rng.choice([4, 8, 12, 14, 16, 18, 22, 26, 29, 30]); db = [rval(rng, bb) for _ in range(nout)]
    else:
        fi = rng.randint(0, 15); fw = rng.randint(0, BITS[ew] - 1)
        need = 16 + BITS[ew] - 16 - rng.randint(-2, 6)           # shift to a useful range
        fo = max(-4, min(fi + fw, fi + fw - max(0, need)))
        if rng.random() < .2: fo = rng.randint(0, min(15, fi + fw))
        if MODE[0] == 'ties':
            fi, fw = rng.randint(0, 5), rng.randint(0, 4); fo = max(0, fi + fw - rng.randint(1, 4))
        fb = rng.randint(max(0, fi + fw - 22), min(fi + fw, BITS[eb] - 1)) if fi + fw - 22 <= BITS[eb] - 1 else fi + fw - 22
        if rng.random() < .15: fb = min(fi + fw, fb, rng.randint(0, 7))
        qi, qw, qb, qo = c.q(ei, fr=fi), c.q(ew, fr=fw), c.q(eb, fr=fb), c.q(ei, fr=fo)
        db = [rval(rng, BITS[eb]) for _ in range(nout)]
    a = c.tensor(ei, shi, sti, di, qi)
    w = c.tensor(ew, shw, stw, dw, qw)
    b = c.tensor(eb, [nout], None, db, qb)
    o = c.tensor(ei, sho, sto, None, qo)
    return a, w, b, o

def dim(rng, k, stride, dil, trans=False):
    """(in, pad_lo, pad_hi, out) for one axis"""
    eff = (k - 1) * dil + 1
    tight = rng.random() < .3      # inputs no larger than the kernel, generous pads
    wide = not tight and not (trans and stride > 3) and rng.random() < .12     # long rows: several windows beyond both borders
    while True:
        n = rng.choice([1, 1, 2, 3] if tight else list(range(8, 17)) if wide else [1, 2, 3, 4, 5, 6, 7])
        pads = lambda: rng.choice([eff - 1, eff - 1, max(0, eff - 2), min(1, eff - 1), rng.randint(0, eff - 1)] if tight else [0, 0, eff - 1, rng.randint(0, eff - 1)])
        pl, ph = pads(), pads()
        if trans:
            o = (n - 1) * stride + k - pl - ph
            if o >= 1 and o <= (20 if wide else 12): return n, pl, ph, o
        else:
            if n + pl + ph < eff: continue
            o = (n + pl + ph - eff) // stride + 1
            if rng.random() < .15: o = rng.randint(1, o)
            if o <= (16 if wide else 6): return n, pl, ph, o

def huge_dim(rng, trans):
    """(k, stride, dilation, in, pad_lo, pad_hi, out) of an axis with one quantity beyond 8-bit signed counters"""
    k, s, d = rng.choice([1, 2, 3]), rng.choice([1, 2]), 1
    what = rng.choice(['n', 'n', 'k', 's', 'd', 'p', 'p'])
    if trans:
        k = rng.choice([1, 2, 3]); s = rng.randint(1, k); n = long_dim(rng); pl, ph = rng.randint(0, k - 1), rng.randint(0, k - 1)
        o = (n - 1) * s + k - pl - ph
        return (k, s, 1, n, pl, ph, o) if o <= 320 else huge_dim(rng, trans)
    if what == 'n': n = long_dim(rng); s = rng.choice([1, 2, 3])
    elif what == 'k': k = long_dim(rng); n = k + rng.randint(-3, 4)
    elif what == 's': s = rng.choice([100, 128, 130, 200, 255]); n = k + rng.choice([s, 2 * s, 2 * s + 5])
    elif what == 'd': k = rng.choice([2, 3]); d = rng.choice([64, 100, 128, 130, 200, 255]); n = (k - 1) * d + 1 + rng.randint(-3, 4)
    else: k = 2; d = rng.choice([130, 200, 255]); n = rng.randint(1, 8)
    eff = (k - 1) * d + 1
    pl, ph = [rng.choice([0, 0, min(3, eff - 1)]) for _ in 'ab']
    if what == 'p': pl, ph = [min(eff - 1, 255, rng.choice([127, 128, 129, 200, 255])) for _ in 'ab']
    if n + pl + ph < eff: return huge_dim(rng, trans)
    return k, s, d, n, pl, ph, (n + pl + ph - eff) // s + 1

def conv_case(rng, kind, var, budget, special=None, both=False, free=False):
    lng = not both and rng.random() < .04
    if lng: budget = 4000
    while True:
        if special: kh, kw = special if isinstance(special, tuple) else (special, special)
        else: kh, kw = rng.choice([1, 2, 3, 3, 4, 5]), rng.choice([1, 2, 3, 3, 4, 5])
        if kind == 'transpose':
            sh_ = rng.randint(1, min(3, kh)); sw_ = rng.randint(1, min(3, kw))
            if special and both != 'gen': sh_ = sw_ = 2
            if free:        # one stride other than the two the specialisation is for
                sh_, sw_ = rng.choice([(rng.randint(1, kh), 2), (kh, 2), (kh, 2), (2, rng.randint(1, kw)), (2, kw), (2, kw), (1, 1)])
                sh_, sw_ = min(sh_, kh), min(sw_, kw)
            dh = dw = 1
        else:
            sh_, sw_ = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
            dh, dw = rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 1, 1, 2, 3])
        if lng and not special and rng.random() < .5:
            small = rng.choice([1, 2]); ax = rng.randint(0, 1)
            big = huge_dim(rng, kind == 'transpose')
            if ax: kw, sw_, dw, iw, pl, pr, ow = big; kh = small; sh_ = dh = 1; ih, pt, pb, oh = small + rng.randint(0, 1), 0, 0, None; oh = ih - small + 1 if kind != 'transpose' else ih + small - 1
            else: kh, sh_, dh, ih, pt, pb, oh = big; kw = small; sw_ = dw = 1; iw, pl, pr = small + rng.randint(0, 1), 0, 0; ow = iw - small + 1 if kind != 'transpose' else iw + small - 1
            wide = False
        else:
            ih, pt, pb, oh = dim(rng, kh, sh_, dh, kind == 'transpose'); iw, pl, pr, ow = dim(rng, kw, sw_, dw, kind == 'transpose')
            wide = lng
        if kind == 'depthwise':
            ci = co = rng.choice([1, 2, 3, 4, 5]); nc = 1
        elif kind == 'group':
            g = rng.choice([1, 2, 2, 3]); nc = rng.choice([1, 1, 2, 3]); ci = g * nc; co = g * rng.choice([1, 2, 3])
        else:
            ci = nc = rng.choice([1, 2, 3, 4]); co = rng.choice([1, 2, 3, 4, 5])
        if wide:      # many channels
            x = long_dim(rng)
            if kind == 'depthwise': ci = co = x
            elif kind == 'group': g, nc, co = rng.choice([(x, 1, x), (2, x, 2), (2, 1, 2 * x), (1, x, 1)]); ci = g * nc
            elif rng.random() < .5: ci = nc = x; co = rng.choice([1, 2])
            else: co = x; ci = nc = rng.choice([1, 2])
        cost = oh * ow * co * kh * kw * nc
        if cost <= budget: break
    c = Case(rng, '%s_%s%s' % (kind, var, '_k%dx%d' % (kh, kw) if special else ''))
    shi, shw, sho = [ih, iw, ci], [kh, kw, nc, co], [oh, ow, co]
    a, w, b, o = mac_tensors(rng, c, var, shi, shw, co, sho, kh * kw * nc)
    p = dict(relu=rng.choice([0, 0, 1, 2, 3]), sw=sw_, sh=sh_, pl=pl, pt=pt, dw=dw, dh=dh)
    fn = {'conv': 'conv2d', 'depthwise': 'depthwise_conv2d', 'group': 'group_conv2d', 'transpose': 'transpose_conv2d'}[kind] + '_hwcn_' + var
    suf = ''
    if special: suf = '_k%dx%d' % (kh, kw) + ('_str2' if kind == 'transpose' else '')
    args = lambda out: '%d %d %d 0 %d %d %d %d %d %d %d %d %d %d' % (a - 1, w - 1, b - 1, p['relu'], sw_, sh_, pl, pr, pt, pb, dw, dh, out - 1)
    rec = lambda out: {'kind': kind, 'p': p, 'in': a, 'w': w, 'b': b, 'out': out}
    if both:
        t = c.ts[o - 1]
        o2 = c.tensor(t['el'], sho, rstrides(rng, sho), None, dict(t['q']))
        c.call(fn, args(o), 'any', {'out': [o], 'free': []})
        c.call(fn + suf, args(o2), 'same_as', {'ref': o, 'out': o2})
    else:
        c.call(fn + suf, args(o), 'conv', rec(o))
    return c

SPECIAL = {'conv': [None, None, None, 1, 3, 5], 'depthwise': [None, None, 3, 5], 'group': [None, None, 3, 5], 'transpose': [None, None, 2, 4]}

def gen(kinds, budget=700):
    def g(rng, n, tier):
        out = []
        for i in range(n):
            k = rng.choice(kinds)
            out.append(conv_case(rng, k, VAR[i % 3] if rng.random() < .6 else 'sa8_sa8_sa32', budget if tier == 'quick' else budget * 2, rng.choice(SPECIAL[k])))
        return out
    return g

def gen_special(rng, n, tier):
    out = []
    import gen_pool
    for i in range(n):
        if rng.random() < .3:
            out.append(gen_pool.pool_case(rng, rng.choice(['max', 'ave']), rng.choice(['fx8', 'fx16', 'sa8']), rng.choice([2, 3]), True)); continue
        k = rng.choice(list(SPECIAL))
        out.append(conv_case(rng, k, rng.choice(VAR), 6000, rng.choice([s for s in SPECIAL[k] if s]), True))
    return out

def gen_fc(rng, n, tier):
    out = []
    for i in range(n):
        v = rng.choice(VAR + ['sa8_sa8_sa32', 'fx8'])
        ext = v == 'sa8_sa8_sa32' and rng.random() < .35
        c = Case(rng, 'fc_%s%s' % (v, '_ext' if ext else ''))
        shi = rshape(rng, 4, 40); ni = 1
        for s in shi: ni *= s
        co = rng.choice([1, 2, 3, 5, 8]) if rng.random() < .98 else long_dim(rng)
        if ni * co > 1500: co = 1
        a, w, b, o = mac_tensors(rng, c, v, shi, [ni, co], co, [co], ni, dense_io=True)
        relu = rng.choice([0, 0, 1, 2, 3])
        c.call('fully_connected_%s%s' % (v, '_ext_bias' if ext else ''), '%d %d %d 0 %d %d' % (a - 1, w - 1, b - 1, relu, o - 1),
               'fc', {'relu': relu, 'ext': ext, 'in': a, 'w': w, 'b': b, 'out': o})
        out.append(c)
    return out
