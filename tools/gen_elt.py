from mliconf import *
from genlib import *

def gen(rng, n, tier):
    out = []
    for i in range(n):
        op = rng.choice(['add', 'sub', 'mul', 'min', 'max']); el = rng.choice(['fx8', 'fx16', 'sa8', 'sa8'])
        out.append(elt_case(rng, op, el))
    return out

def elt_case(rng, op, el, inplace=None):
    c = Case(rng, 'eltwise_%s_%s' % (op, el))
    shape = rshape(rng, 4, 24)
    mode = rng.choice(['full', 'full', 'full', 'sc1', 'sc2', 'sc0', 'both1'])
    s1 = s2 = so = shape
    one = [1] * rng.randint(1, 3)
    if mode == 'sc1': s1 = one
    if mode == 'sc2': s2 = one
    if len(shape) and all(x == 1 for x in shape) and mode in ('sc0', 'sc2'): mode = 'full'; s2 = shape
    if mode == 'both1': s1 = s2 = so = [1] * len(shape)
    q1 = rq(c, el); q2 = rq(c, el); qo = rq(c, el)
    if op in ('min', 'max'):
        q2 = dict(q1)
    if el in ('fx8', 'fx16') and op in ('min', 'max'):
        qo['fr'] = q1['fr'] - rng.randint(-4, BITS[el] - 2)
    if rng.random() < .15:               # formats so far apart that the shift limits decide
        if el == 'sa8':
            sq = lambda lo, hi: c.q(el, fr=rng.randint(lo, hi), zp=rng.randint(-128, 127), sc=rng.randint(1 << 13, (1 << 15) - 1))
            hi = rng.random() < .6
            q1 = sq(14, 28) if hi else sq(0, 6); q2 = sq(14, 28) if hi else sq(0, 6); qo = sq(0, 12) if hi else sq(12, 30)
            if op in ('min', 'max'): q2 = dict(q1)
        else:
            b = BITS[el]
            q1['fr'] = rng.randint(b - 1, b + 5); qo['fr'] = rng.randint(0, 3)
            q2['fr'] = q1['fr'] if op in ('min', 'max') else rng.randint(b - 1, b + 5)
            if op in ('add', 'sub') and rng.random() < .5: q1['fr'] += b
    a = c.tensor(el, s1, rstrides(rng, s1), rdata(rng, el, s1), q1)
    if mode == 'sc0':
        b = c.tensor(el, [], imm=rval(rng, BITS[el]), q=q2)
    else:
        b = c.tensor(el, s2, rstrides(rng, s2), rdata(rng, el, s2), q2)
    src = None
    if inplace == 1 or (inplace is None and rng.random() < .12 and mode != 'sc1'): src = c.ts[a - 1]
    elif inplace == 2 and mode in ('full',): src = c.ts[b - 1]
    if src is not None and src['sh'] == so:
        o = c.tensor(el, so, src['st'], None, qo, arena=src['ar'], off=src['off'])
    else:
        o = c.tensor(el, so, rstrides(rng, so), None, qo)
    c.call('eltwise_%s_%s' % (op, el), '%d %d %d' % (a - 1, b - 1, o - 1), 'eltwise', dict(op=op, in1=a, in2=b, out=o))
    return c
