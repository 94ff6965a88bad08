"""argmax, permute, convert, sub-tensors and queries"""
from mliconf import *
from genlib import *
from gen_act import whole
import struct, math

def gen_argmax(rng, n, tier):
    out = []
    for i in range(n):
        el = rng.choice(['fx16', 'sa8'])
        c = Case(rng, 'argmax_' + el)
        sh = rshape(rng, maxn=40)
        axis = rng.choice([-1] + list(range(len(sh))))
        tot = 1
        for s in sh: tot *= s
        sl = 1 if axis < 0 else sh[axis]
        per = tot // sl
        k = rng.choice([1, 1, per, rng.randint(1, per)])
        a = c.tensor(el, sh, rstrides(rng, sh, wide=.012), rdata(rng, el, sh, rng.choice([None, None, 3, 2])), rq(c, el))
        o = c.tensor('sa32', [sl, k], None, None, c.q('sa32', fr=rng.randint(0, 9), zp=rng.randint(-9, 9), sc=rng.randint(1, 99)))
        c.call('argmax_' + el, '%d 0 %d %d %d' % (a - 1, whole(rng, axis), k, o - 1), 'argmax', {'axis': axis, 'k': k, 'in': a, 'out': o})
        out.append(c)
    return out

def paxq(rng, c, el, n, dim, zero=False):
    """per-axis parameters"""
    zs = [0 if zero else rng.choice([0, -128, 127, rng.randint(-128, 127)]) for _ in range(n)]
    sc = [rng.randint(1 << rng.randint(0, 14), 32767) for _ in range(n)]
    fr = [rng.randint(max(0, s.bit_length() - 3), s.bit_length() + 7) for s in sc]
    if MODE[0] == 'ties': t = [tie_scale(rng) for _ in range(n)]; sc, fr = [x[0] for x in t], [x[1] for x in t]
    return c.q(el, dim=dim, zp=zs, sc=sc, fr=fr)

def gen_permute(rng, n, tier):
    out = []
    for i in range(n):
        el = rng.choice(['fx8', 'fx16', 'sa8', 'sa8'])
        sh = rshape(rng, maxn=60, maxdim=7)
        r = len(sh)
        perm = list(range(r)); rng.shuffle(perm)
        sho = [sh[p] for p in perm]
        pax = el == 'sa8' and rng.random() < .6
        c = Case(rng, 'permute_%s%s' % (el, '_axis' if pax else ''))
        if pax:
            d = rng.randrange(r); qi = paxq(rng, c, el, sh[d], d)
            m = rng.random()
            if m < .25: qo = dict(dim=rng.randrange(4), zp=[0, 0], sc=[0, 0], fr=[0, 0], n=0)
            elif m < .55: qo = dict(qi); qo = fixdim(qo, sho, sh[d], rng, perm, d)
            else:
                qo = fixdim(paxq(rng, c, el, sh[d], perm.index(d)), sho, sh[d], rng, perm, d)
        else: qi, qo = rq(c, el), rq(c, el)
        a = c.tensor(el, sh, rstrides(rng, sh, wide=.008), rdata(rng, el, sh), qi)
        o = c.tensor(el, sho, rstrides(rng, sho, wide=.008), None, qo)
        pp = perm + [rng.randint(0, 3) for _ in range(4 - r)]
        c.call('permute_' + el, '%d 0 %d %d %d %d %d' % (a - 1, *pp, o - 1), 'permute', {'perm': perm, 'in': a, 'out': o})
        out.append(c)
    return out

def fixdim(q, sho, n, rng, perm, d):
    # whatever axis the output named before, it is the one that follows the permutation afterwards
    q['dim'] = rng.choice([k for k in range(len(sho)) if sho[k] <= n]); return q

# ---------------------------------------------------------------- convert
def f2i(x): return struct.unpack('<i', struct.pack('<f', x))[0]

def gen_convert(rng, n, tier):
    out = []
    ELS = ['fx8', 'fx16', 'sa8', 'sa32', 'fp32']
    for i in range(n):
        ei = rng.choice(ELS); eo = rng.choice(ELS)
        c = Case(rng, 'convert_%s_%s' % (ei, eo))
        sh = rshape(rng, maxn=30)
        d = rng.randrange(len(sh))
        def q(el):
            if el == 'fp32': return c.q(el)
            if el in ('fx8', 'fx16'): return c.q(el, fr=rng.randint(0, BITS[el] - 1) if MODE[0] != 'ties' else rng.randint(1, 5))
            if rng.random() < .5: return paxq(rng, c, el, sh[d], d, zero=rng.random() < .3)
            return rq(c, el)
        qi, qo = q(ei), q(eo)
        # parameters at which something is left to see: out scale around in scale
        if rng.random() < .7 and MODE[0] != 'ties': match(rng, c, ei, qi, eo, qo)
        if ei == 'fp32': data = fdata(rng, c, eo, qo, sh)
        else: data = rdata(rng, ei, sh, rng.choice([None, None, 9, 20 if ei == 'sa32' else 6]))
        a = c.tensor(ei, sh, rstrides(rng, sh), data, qi)
        s = c.ts[a - 1]
        if BITS[ei] == BITS[eo] and rng.random() < .2:
            o = c.tensor(eo, sh, s['st'], None, qo, arena=s['ar'], off=s['off'])
        else: o = c.tensor(eo, sh, rstrides(rng, sh), None, qo)
        fn = 'convert_tensor' if 'fp32' in (ei, eo) or rng.random() < .7 else 'convert_tensor_safx'
        c.call(fn, '%d %d' % (a - 1, o - 1), 'convert', {'in': a, 'out': o})
        out.append(c)
    return out

def plist(c, q):
    if q['dim'] < 0: return [(q['zp'], q['sc'], q['fr'])]
    g = lambda k: c.ar[q[k][0] - 1][1][q[k][1]:q[k][1] + q['n']]
    return list(zip(g('zp'), g('sc'), g('fr')))

def match(rng, c, ei, qi, eo, qo):
    """make the output scale comparable to the input's range"""
    if 'fp32' in (ei, eo): return
    P = plist(c, qi)
    z, s, f = P[0]
    sh = rng.choice([0, 0, 2, 8 if BITS[ei] > BITS[eo] else 0, 16 if BITS[ei] == 32 else 0, 22 if BITS[ei] == 32 else 0, -2])
    if eo in ('fx8', 'fx16'):
        qo['fr'] = max(0, min(BITS[eo] - 1, int(round(-math.log2(s / 2.0 ** f))) - sh))
    elif qo['dim'] < 0: qo['sc'], qo['fr'] = max(1, min(32767, s + rng.randint(-50, 50))), max(-8, f - sh)
    else:
        Q = c.ar[qo['fr'][0] - 1][1]; S = c.ar[qo['sc'][0] - 1][1]
        for j in range(qo['n']):
            zz, ss, ff = P[j] if len(P) > 1 and j < len(P) else P[0]
            Q[qo['fr'][1] + j] = max(-8, min(22, ff - sh)); S[qo['sc'][1] + j] = max(1, min(32767, ss + rng.randint(-99, 99)))

def fdata(rng, c, eo, qo, sh):
    n = 1
    for s in sh: n *= s
    P = plist(c, qo) if eo != 'fp32' else [(0, 1, 0)]
    z, s, f = P[0]
    unit = s / 2.0 ** f
    out = []
    b = min(BITS[eo] if eo != 'fp32' else 16, 21)
    for _ in range(n):
        k = rval(rng, b) if rng.random() < .8 else rng.randint(-20, 20)
        x = rng.random()
        v = k * unit if x < .3 else (k + .5) * unit if x < .55 else (k + rng.random()) * unit
        if rng.random() < .1: v *= 1.7
        # the spec covers normal numbers whose quotient stays below 2^22
        big = max(abs(v) / (ss / 2.0 ** ff) for _, ss, ff in P)
        if big >= 2 ** 21: v = 0.0
        if v != 0 and abs(v) < 2.0 ** -100: v = 0.0
        out.append(f2i(v) if v != 0 else 0)
    return out

# ---------------------------------------------------------------- sub-tensors
def anyq(rng, c, el, sh):
    if el in ('sa8', 'sa32') and rng.random() < .6 and sh:
        d = rng.randrange(len(sh)); return paxq(rng, c, el, sh[d], d)
    return c.q(el, fr=rng.randint(0, 7)) if el in ('fx8', 'fx16', 'fp32') else rq(c, el)

def gen_sub(dbg):
    def cases(rng, n, tier):
        out = []
        for i in range(n):
            x = rng.random()
            if x < .6: out.append(sub_chain(rng, dbg))
            elif x < .75: out.append(pointto(rng, dbg))
            else: out.append(query(rng))
        return out
    return cases

def sub_chain(rng, dbg):
    """a chain of sub-tensors of sub-tensors, each then queried"""
    el = rng.choice(['fx8', 'fx16', 'sa8', 'sa32', 'sa8'])
    c = Case(rng, 'subtensor_' + el)
    sh = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
    st = rstrides(rng, sh)
    if not dbg and rng.random() < .25:      # 0: stride left to the library
        z = rng.randint(0, len(sh))
        dd = dense(sh); st = [0 if j >= z else dd[j] for j in range(len(sh))]
        cap = None
    q = anyq(rng, c, el, sh)
    n = 1
    for s in sh: n *= s
    ext = sum((s - 1) * t for s, t in zip(sh, dense(sh) if 0 in st else st)) + 1
    ar = c.arena(BITS[el], c.junk(BITS[el], ext + 4))
    a = c.tensor(el, sh, st, None, q, cap=ext * BITS[el] // 8, arena=ar, off=2)
    cur, csh, qd, qn = a, sh, q['dim'], q.get('n', 1)
    for step in range(rng.randint(1, 3)):
        off = [rng.randrange(s) for s in csh]; size = [rng.choice([1, s - o, rng.randint(1, s - o)]) for s, o in zip(csh, off)]
        ones = sum(1 for s in size if s == 1)
        r = len(csh) - rng.randint(0, min(ones, len(csh) - 1))
        if r < 1: r = 1
        keep = []; skip = len(csh) - r
        for d, s in enumerate(size):
            if skip > 0 and s == 1: skip -= 1
            else: keep.append(d)
        o = c.tensor(el, [1] * rng.randint(1, 4), None, None, c.q(el), cap=7)
        c.call('create_subtensor', '%d %s %s %d %d' % (cur - 1, ' '.join(map(str, (off + [9] * 4)[:4])), ' '.join(map(str, (size + [9] * 4)[:4])), r, o - 1),
               'subtensor', {'in': cur, 'off': off, 'size': size, 'r': r, 'out': o})
        if qd >= 0:
            if qd in keep: qn = size[qd]; qd = keep.index(qd)
            else: qd, qn = -1, 1
        nq = qn if qd >= 0 else 1
        c.call('queries', '%d %d' % (o - 1, nq), 'query', {'t': o, 'n': nq})
        cur, csh = o, [size[d] for d in keep]
    return c

def pointto(rng, dbg):
    el = rng.choice(['fx8', 'fx16', 'sa8', 'sa32', 'fp32'])
    c = Case(rng, 'pointto_' + el)
    sh = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
    k = len(sh) if dbg else rng.randint(1, len(sh))
    coord = [rng.randrange(s) for s in sh[:k]]
    first = rng.randint(1, sh[k - 1] - coord[k - 1])
    q = anyq(rng, c, el, sh)
    a = c.tensor(el, sh, None, None, q)
    r = len(sh) - k + 1
    o = c.tensor(el, [1] * r, [1] if dbg else None, None, c.q(el), cap=3)
    c.call('point_to_subtensor', '%d %d %s %d %d' % (a - 1, k, ' '.join(map(str, (coord + [0] * 3)[:3])), first, o - 1),
           'pointto', {'in': a, 'coord': coord, 'first': first, 'out': o})
    return c

def query(rng):
    el = rng.choice(['fx8', 'fx16', 'sa8', 'sa32', 'fp32'])
    c = Case(rng, 'query_' + el)
    sh = [rng.randint(1, 5) for _ in range(rng.randint(1, 4))]
    st = rstrides(rng, sh)
    q = anyq(rng, c, el, sh)
    a = c.tensor(el, sh, st, None, q)
    n = q.get('n', 1)
    c.call('queries', '%d %d' % (a - 1, n), 'query', {'t': a, 'n': n})
    c.call('set_mem_strides', '%d' % (a - 1), 'set_strides', {'t': a})
    s = c.ts[a - 1]
    el2 = el if rng.random() < .7 else rng.choice(['fx8', 'fx16', 'sa8', 'sa32', 'fp32'])
    if BITS[el2] == BITS[el] and rng.random() < .6: b = c.tensor(el2, [2], None, None, None, arena=s['ar'], off=s['off'] + rng.choice([0, 0, 1, -1]))
    else: b = c.tensor(el2, [1], None, None, None)
    c.call('ptr_cmp', '%d %d' % (a - 1, b - 1), 'ptr_cmp', {'in': a, 'out': b})
    z = c.tensor(el, [], imm=0, q=c.q(el))
    c.call('ptr_cmp', '%d %d' % (a - 1, z - 1), 'ptr_cmp', {'in': a, 'out': z})
    c.call('queries', '%d 1' % (z - 1), 'query', {'t': z, 'n': 1})
    c.call('guard_bits', '', 'const', {'v': [16, 32, 8]})
    c.call('lut_sizes', '', 'const', {'v': [640, 688, 716, 194]})
    return c
