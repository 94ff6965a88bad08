"""pooling"""
from mliconf import *
from genlib import *
from gen_conv import dim

def big_dim(rng, k, s, d):
    n = max(1, k + rng.randint(-1, 2)); pl, ph = rng.choice([0, 0, min(1, k - 1)]), rng.choice([0, 0, min(1, k - 1)])
    return (n, pl, ph, (n + pl + ph - k) // s + 1) if n + pl + ph >= k else big_dim(rng, k, s, d)

def rest_dim(rng, k, s, d):
    n = rng.randint(k * s if rng.random() < .6 else k, k * s + k); p = lambda: rng.choice([0, k - 1, max(0, k - 2), rng.randint(0, k - 1)])
    pl, ph = p(), p()
    return n, pl, ph, (n + pl + ph - k) // s + 1

def exact_dim(rng, k, s, d): return (k, 0, 0, 1)

def pool_case(rng, kind, el, special=None, both=False, budget=400):
    full = kind == 'ave' and not special and rng.random() < .2     # every entry of the reciprocal table, with sums near the limits
    large = not special and not full and rng.random() < .15      # window areas around and above the reciprocal table
    if large: budget *= 2
    giant = kind == 'ave' and not special and not full and not large and not both and rng.random() < .02   # sums beyond 32 bits once scaled
    lng = not special and not full and not giant and not large and not both and rng.random() < .03
    if lng: budget = 2500
    rest = not special and not full and not giant and not large and not both and not lng and rng.random() < .06   # many columns beyond the border windows
    if rest: budget = 2000
    while True:
        if special: kh = kw = special
        elif rest: kh, kw = rng.choice([2, 3, 4, 5]), rng.choice([3, 4, 5, 6, 7])
        elif giant: kh, kw = rng.choice([(32, 32), (33, 32), (33, 33), (8, 255), (255, 5), (40, 40), (1, 255), (64, 40)])
        elif full: kh = rng.randint(1, 8); kw = rng.randint(1, 32 // kh + 1)
        elif large: kh, kw = rng.choice([(4, 8), (8, 4), (6, 6), (7, 5), (33, 1), (2, 17), (5, 9), (16, 2), (31, 1), (1, 32), (8, 8)])
        else: kh, kw = rng.choice([1, 2, 3, 3, 4, 5, 7]), rng.choice([1, 2, 3, 3, 4, 6])
        sh_, sw_ = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
        ax = rest_dim if rest else exact_dim if giant else big_dim if large or full else dim
        ih, pt, pb, oh = ax(rng, kh, sh_, 1); iw, pl, pr, ow = ax(rng, kw, sw_, 1)
        if lng and rng.random() < .5:
            from gen_conv import huge_dim
            while True:
                b = huge_dim(rng, False)
                if b[2] == 1 and b[0] <= 33: break
            if rng.random() < .5: kw, sw_, _, iw, pl, pr, ow = b; kh = sh_ = ih = oh = 1; pt = pb = 0
            else: kh, sh_, _, ih, pt, pb, oh = b; kw = sw_ = iw = ow = 1; pl = pr = 0
            many = False
        else: many = lng
        # every window must reach valid data, and the checks want out*stride + k - stride <= in + pads
        if (oh - 1) * sh_ - pt >= ih or (ow - 1) * sw_ - pl >= iw: continue
        ch = rng.choice([1, 2]) if rest else 1 if full or giant else long_dim(rng) if many else rng.choice([1, 2, 3, 4, 5])
        if oh * ow * ch * kh * kw <= (6000 if both or giant else budget): break
    c = Case(rng, '%spool_%s%s' % (kind, el, '_k%d' % special if special else ''))
    shi, sho = [ih, iw, ch], [oh, ow, ch]
    if el == 'sa8':
        si = rng.randint(1 << 10, 32767) if rng.random() < .8 else rng.randint(1, 32767)
        nb = si.bit_length(); fi = rng.randint(nb, nb + 6)
        ratio = 2.0 ** rng.uniform(-5, 4) if rng.random() < .6 else 2.0 ** rng.uniform(-18, 18) if rng.random() < .2 else 1.0
        import math
        m, e = math.frexp(si / 2.0 ** fi / ratio); bits = rng.choice([15, 15, 14, 8])
        so = max(1, min(32767, int(m * (1 << bits)))); fo = bits - e
        zs = lambda: rng.choice([0, -128, 127, rng.randint(-128, 127), rng.randint(-128, 127)])
        qi = c.q(el, fr=fi, zp=zs(), sc=si); qo = c.q(el, fr=fo, zp=zs(), sc=so)
        if MODE[0] == 'ties':
            so, fo = tie_scale(rng); qi = c.q(el, fr=fo, zp=rng.randint(-4, 4), sc=so); so, fo = tie_scale(rng); qo = c.q(el, fr=fo, zp=rng.randint(-4, 4), sc=so)
        if rng.random() < .25: qo = dict(qi)
    else:
        qi = c.q(el, fr=rng.randint(0, BITS[el] - 1))
        qo = c.q(el, fr=max(0, min(BITS[el] - 1, qi['fr'] + rng.choice([0, 0, 0, 1, -1, 2, -3]))))
    data = rdata(rng, el, shi, rng.choice([None, None, 5, 12]))
    if full or giant:
        M = (1 << BITS[el] - 1) - 1; s = rng.choice([1, -1]); data = [s * (M - rng.randint(0, M >> rng.choice([3, 6, 9]))) for _ in data]
    a = c.tensor(el, shi, rstrides(rng, shi), data, qi)
    o = c.tensor(el, sho, rstrides(rng, sho), None, qo)
    p = dict(kw=kw, kh=kh, sw=sw_, sh=sh_, pl=pl, pt=pt)
    fn = {'max': 'maxpool', 'ave': 'avepool'}[kind] + '_hwc_' + el
    suf = '_k%dx%d' % (special, special) if special else ''
    args = lambda out: '%d 0 %d %d %d %d %d %d %d %d %d' % (a - 1, kw, kh, sw_, sh_, pl, pr, pt, pb, out - 1)
    if both:
        o2 = c.tensor(el, sho, rstrides(rng, sho), None, dict(qo) if kind == 'ave' or el == 'sa8' else dict(qi))
        if kind == 'max': c.ts[o - 1]['q'] = dict(qi); c.ts[o2 - 1]['q'] = dict(qi)
        c.call(fn, args(o), 'any', {'out': [o], 'free': []})
        c.call(fn + suf, args(o2), 'same_as', {'ref': o, 'out': o2})
    else:
        c.call(fn + suf, args(o), 'pool', {'kind': kind, 'p': p, 'in': a, 'out': o})
    return c

def gen(kind):
    def g(rng, n, tier):
        return [pool_case(rng, kind, ['fx8', 'fx16', 'sa8'][i % 3], rng.choice([None, None, 2, 3]), budget=400 if tier == 'quick' else 1500) for i in range(n)]
    return g
