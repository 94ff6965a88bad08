from mliconf import *
from genlib import *

def other(rng, c, el, so, a, qo, p=.12):
    """output tensor: fresh, or the input buffer itself (exact in-place)"""
    if rng.random() < p:
        s = c.ts[a - 1]
        return c.tensor(el, so, s['st'], None, qo, arena=s['ar'], off=s['off'])
    return c.tensor(el, so, rstrides(rng, so), None, qo)

def whole(rng, axis):
    """any negative axis means the whole tensor"""
    return axis if axis >= 0 else rng.choice([-1, -1, -1, -2, -3, -5, -128, -2147483648])

def actq(rng, c, el, wide=False):
    if el in ('fx8', 'fx16'):
        if MODE[0] == 'ties': return c.q(el, fr=rng.randint(1, 5) + (7 if wide and el == 'fx16' else 0))
        hi = BITS[el] - 1 if not wide else rng.choice([BITS[el] - 1, BITS[el] - 1, 20, 26])
        return c.q(el, fr=rng.randint(0, hi))
    return rq(c, el)

def gen_relu(rng, n, tier):
    out = []
    for i in range(n):
        el = rng.choice(['fx8', 'fx16', 'sa8']); ty = rng.choice([0, 1, 2, 2, 3, 3])
        c = Case(rng, 'relu%d_%s' % (ty, el))
        sh = rshape(rng); q = actq(rng, c, el)
        a = c.tensor(el, sh, rstrides(rng, sh), rdata(rng, el, sh), q)
        o = other(rng, c, el, sh, a, rq(c, el))
        c.call('relu_' + el, '%d 0 %d %d' % (a - 1, ty, o - 1), 'relu', {'type': ty, 'in': a, 'out': o})
        out.append(c)
    return out

def gen_prelu(rng, n, tier):
    out = []
    for i in range(n):
        el = rng.choice(['fx8', 'fx16', 'sa8', 'sa8'])
        leaky = rng.random() < .4
        c = Case(rng, '%s_%s' % ('leaky' if leaky else 'prelu', el))
        sh = rshape(rng, maxn=32); q = actq(rng, c, el); qs = actq(rng, c, el)
        if el == 'sa8': qs['zp'] = rng.choice([0, rng.randint(-128, 127), rng.randint(-128, 127)])
        a = c.tensor(el, sh, rstrides(rng, sh), rdata(rng, el, sh), q)
        axis = -1 if leaky or rng.random() < .15 else rng.randint(0, len(sh) - 1)
        if axis < 0:
            if rng.random() < .5: s = c.tensor(el, [], imm=rval(rng, BITS[el]), q=qs)
            else: s = c.tensor(el, [1] * rng.randint(1, 2), None, rdata(rng, el, [1]), qs)
        else:
            ss = [1] * len(sh); ss[axis] = sh[axis]
            s = c.tensor(el, ss, None, rdata(rng, el, ss), qs)
        qo = dict(q) if el != 'sa8' else rq(c, el)
        o = other(rng, c, el, sh, a, qo)
        if leaky: c.call('leaky_relu_' + el, '%d %d %d' % (a - 1, s - 1, o - 1), 'prelu', {'axis': -1, 'in': a, 'slope': s, 'out': o})
        else: c.call('prelu_' + el, '%d %d 0 %d %d' % (a - 1, s - 1, whole(rng, axis), o - 1), 'prelu', {'axis': axis, 'in': a, 'slope': s, 'out': o})
        out.append(c)
    return out

def lutdata(rng, el, sh):
    return rdata(rng, el, sh, bits=rng.choice([None, None, BITS[el], 6]))

def gen_sigm(rng, n, tier):
    out = []
    for i in range(n):
        fn = rng.choice(['sigm', 'tanh']); el = rng.choice(['fx8', 'fx16', 'fx16', 'sa8'])
        c = Case(rng, '%s_%s' % (fn, el))
        sh = rshape(rng, maxn=30); q = actq(rng, c, el, True)
        a = c.tensor(el, sh, rstrides(rng, sh), lutdata(rng, el, sh), q)
        o = other(rng, c, el, sh, a, rq(c, el))
        l = c.lut(fn, {'sigm': 320, 'tanh': 344}[fn] + rng.choice([0, 0, 5]))
        c.call('%s_%s' % (fn, el), '%d %d %d' % (a - 1, l - 1, o - 1), 'sigm', {'fn': fn, 'in': a, 'lut': l, 'out': o})
        out.append(c)
    # every 8-bit input, and a sweep of 16-bit inputs
    for fn in ('sigm', 'tanh'):
        for el in ('fx8', 'sa8', 'fx16'):
            for k in range(3 if tier == 'quick' else 12):
                c = Case(rng, '%s_%s_all' % (fn, el))
                q = actq(rng, c, el, True)
                if el == 'fx16':
                    c0 = rng.choice([-32768, 32767 - 511, -256, rng.randint(-32768, 32000)]); st = rng.choice([1, 1, 3, 127])
                    data = [max(-32768, min(32767, c0 + st * j)) for j in range(512)]
                else: data = list(range(-128, 128))
                a = c.tensor(el, [len(data)], None, data, q)
                o = c.tensor(el, [len(data)], None, None, rq(c, el))
                l = c.lut(fn, {'sigm': 320, 'tanh': 344}[fn])
                c.call('%s_%s' % (fn, el), '%d %d %d' % (a - 1, l - 1, o - 1), 'sigm', {'fn': fn, 'in': a, 'lut': l, 'out': o})
                out.append(c)
    return out

def gen_softmax(rng, n, tier):
    out = []
    for i in range(n):
        el = rng.choice(['fx8', 'fx16', 'fx16', 'sa8', 'sa8'])
        c = Case(rng, 'softmax_%s' % el)
        sh = rshape(rng, maxn=40); q = actq(rng, c, el, True)
        axis = rng.choice([-1] + list(range(len(sh))))
        a = c.tensor(el, sh, rstrides(rng, sh), lutdata(rng, el, sh), q)
        o = other(rng, c, el, sh, a, rq(c, el))
        l = c.lut('softmax', 358)
        c.call('softmax_' + el, '%d %d 0 %d %d' % (a - 1, l - 1, whole(rng, axis), o - 1), 'softmax', {'axis': axis, 'in': a, 'lut': l, 'out': o})
        out.append(c)
    return out

def gen_l2(rng, n, tier):
    out = []
    for i in range(n):
        el = rng.choice(['fx16', 'sa8'])
        c = Case(rng, 'l2_%s' % el)
        sh = rshape(rng, maxn=40); q = actq(rng, c, el, True)
        axis = rng.choice([-1] + list(range(len(sh))))
        data = lutdata(rng, el, sh)
        if rng.random() < .1: data = [c.q(el)['zp'] if el != 'sa8' else q['zp']] * len(data)
        a = c.tensor(el, sh, rstrides(rng, sh), data, q)
        o = other(rng, c, el, sh, a, rq(c, el))
        e = c.tensor(el, [], imm=rng.randint(0, 9), q=q)
        l = c.lut('l2', 97)
        c.call('l2_normalize_' + el, '%d %d 0 %d %d %d' % (a - 1, e - 1, whole(rng, axis), l - 1, o - 1), 'l2', {'axis': axis, 'in': a, 'lut': l, 'out': o})
        out.append(c)
    return out
