"""data movement: transfers, configuration helpers, handle histories"""
from mliconf import *
from genlib import *
from gen_data import paxq

KEYS = ['off', 'size', 'sub', 'doff', 'dst', 'perm', 'pre', 'post']
COPY = dict(off=[0] * 4, size=[0] * 4, sub=[1] * 4, doff=[0] * 4, dst=[0] * 4, perm=[0, 1, 2, 3], pre=[0] * 4, post=[0] * 4)
def txt(cf): return ' '.join(str(v) for k in KEYS for v in cf[k])
def cdiv(a, b): return -(-a // b)

def rcfg(rng, sh, kind):
    """a legal configuration for source shape sh; returns (cf, write shape, dst shape)"""
    r = len(sh)
    cf = {k: list(v) for k, v in COPY.items()}
    junk = rng.random() < .3            # entries beyond the rank are ignored
    if junk:
        for d in range(r, 4):
            for k in KEYS: cf[k][d] = rng.randint(0, 3)
    has = lambda k: k in kind
    if has('perm'):
        p = list(range(r)); rng.shuffle(p); cf['perm'][:r] = p
    for d in range(r):
        if has('pad') and rng.random() < .6:
            cf['pre'][d] = rng.choice([0, 1, 2, 3, 5]); cf['post'][d] = rng.choice([0, 1, 2, 4])
        tot = sh[d] + cf['pre'][d] + cf['post'][d]
        if has('slice') and rng.random() < .7:
            cf['off'][d] = rng.randint(0, tot - 1)
            if rng.random() < .7: cf['size'][d] = rng.randint(1, tot - cf['off'][d])
        if has('sub') and rng.random() < .7: cf['sub'][d] = rng.choice([1, 2, 2, 3, 4, 7])
    w = []
    for e in range(r):
        d = cf['perm'][e]
        n = cf['size'][d] or sh[d] - cf['off'][d] + cf['pre'][d] + cf['post'][d]
        w.append(cdiv(n, cf['sub'][d]))
    for e in range(r):
        if has('concat') and rng.random() < .6: cf['doff'][e] = rng.choice([1, 1, 2, 3])
    return cf, w, [a + b for a, b in zip(w, cf['doff'])]

ALL = ['perm', 'pad', 'slice', 'sub', 'concat']
def case_tensors(rng, c, dbg, kinds=None, maxn=24):
    el = rng.choice(['fx8', 'fx16', 'sa8', 'sa8', 'sa32', 'fp32'])
    sh = rshape(rng, maxn=maxn, maxdim=7)
    r = len(sh)
    if kinds is None:
        kinds = rng.choice([[], ['perm'], ['pad'], ['slice'], ['sub'], ['concat'], ['slice', 'concat'], ALL, ALL, ALL,
                            [k for k in ALL if rng.random() < .5]])
    while True:
        cf, w, dsh = rcfg(rng, sh, kinds)
        n = 1
        for x in dsh: n *= x
        if n <= max(220, 3 * _n(sh)): break
    pax = el in ('sa8', 'sa32') and rng.random() < .6
    own = pax
    if pax:
        d = rng.randrange(r); e = cf['perm'].index(d)
        touched = (cf['off'][d] or cf['size'][d] not in (0, sh[d]) or cf['pre'][d] or cf['post'][d] or cf['sub'][d] != 1 or cf['doff'][e])
        qi = paxq(rng, c, el, sh[d], d)
        m = rng.random()
        if not touched and m < .25: qo = dict(qi); qo['dim'] = rng.randrange(4); own = False
        elif not touched and m < .5: qo = dict(dim=rng.randrange(4), zp=[0, 0], sc=[0, 0], fr=[0, 0], n=0); own = False
        else: qo = paxq(rng, c, el, dsh[e] + rng.choice([0, 0, 2]), e); qo['dim'] = rng.randrange(4)
    else:
        qi = rq(c, el) if el != 'fp32' else c.q(el, fr=0)
        qo = None
    wd = BITS[el]
    st = rstrides(rng, sh, .4, inner1=dbg or rng.random() < .6)
    data = [rval(rng, wd) for _ in range(_n(sh))]
    a = c.tensor(el, sh, st, data, qi)
    if not dbg and rng.random() < .3:           # strides left out: dense
        if st == dense(sh):
            for d in range(r):
                if rng.random() < .7: c.ts[a - 1]['st'][d] = 0
    # destination descriptor before the call
    del0 = el
    if not pax:
        del0 = rng.choice({8: ['fx8', 'sa8'], 16: ['fx16'], 32: ['sa32', 'fp32']}[wd])
        qo = rq(c, del0) if del0 != 'fp32' else c.q('fp32', fr=0)
    # destination strides: dense, or given by the configuration, or by the descriptor
    gap = rstrides(rng, dsh, .5, inner1=dbg or rng.random() < .5, p1=1)
    old = [0] * 4; mode = rng.choice(['none', 'cfg', 'old', 'mix'])
    if mode == 'none': stt = dense(dsh)
    else:
        stt = gap
        for e in range(r):
            if mode == 'cfg' or (mode == 'mix' and rng.random() < .6):
                cf['dst'][e] = gap[e]
                if rng.random() < .5: old[e] = rng.randint(1, 50)        # loses against the configuration
            else: old[e] = gap[e]
    if mode in ('cfg',) and rng.random() < .4:
        # leave trailing ones out where dense continues
        for e in range(r):
            dn = 1 if e == r - 1 else stt[e + 1] * dsh[e + 1]
            if stt[e] == dn and old[e] == 0: cf['dst'][e] = 0
    ext = sum((s - 1) * x for s, x in zip(dsh, stt)) + 1
    pre = rng.randint(1, 5)
    ar = c.arena(wd, c.junk(wd, pre + ext + rng.randint(2, 9)))
    orank = rng.randint(1, 4)
    if not any(old[orank:]): pass
    else: orank = 4
    c.ts.append(dict(ar=ar, off=pre, el=del0, sh=[rng.randint(1, 9) for _ in range(orank)], st=old[:orank], q=qo, imm=0,
                     cap=ext * (wd // 8)))
    o = len(c.ts)
    tag = 'mov_%s_%s%s' % (el, '+'.join(kinds) if len(kinds) < 3 else 'mix', '_axis' + ('own' if own else '') if pax else '')
    return a, o, cf, tag

def _n(sh):
    n = 1
    for s in sh: n *= s
    return n

def gen_sync(dbg):
    def g(rng, n, tier):
        out = []
        for i in range(n):
            c = Case(rng, 'mov')
            # the pool is shared by the sessions of a process
            c.call('mov_set', '0 16', 'mov_set', dict(b=0, n=16))
            a, o, cf, c.tag = case_tensors(rng, c, dbg)
            if rng.random() < .75:
                c.call('mov_sync', '%d %s %d' % (a - 1, txt(cf), o - 1), 'mov_sync', {'in': a, 'out': o, 'cf': cf})
            else:
                c.call('mov_newhandle', '1', 'mov_newhandle', dict(h=1))
                k = rng.choice([0, 1, 2])
                c.call('mov_acquire', '%d 1' % k, 'mov_acquire', dict(h=1, n=k))
                c.call('mov_prepare', '1 %d %s %d' % (a - 1, txt(cf), o - 1), 'mov_prepare', {'h': 1, 'in': a, 'out': o, 'cf': cf})
                c.call('mov_start', '1 %d %s %d' % (a - 1, txt(cf), o - 1), 'mov_start', {'h': 1})
                c.call('mov_wait', '1', 'mov_wait', dict(h=1))
                c.call('mov_release', '1', 'mov_release', dict(h=1))
            out.append(c)
        return out
    return g

def gen_cfg(rng, n, tier):
    out = []
    for i in range(n):
        c = Case(rng, 'mov_cfg')
        c.tensor('fx8', [1])
        for fn in ['copy', 'slice', 'concat', 'subsample', 'permute', 'pad_chw', 'pad_hwc', 'all']:
            r4 = lambda hi: [rng.randint(0, hi) for _ in range(4)]
            p = [0, 1, 2, 3]; rng.shuffle(p)
            a = dict(fn=fn, off=r4(70000), size=r4(70000), sub=[rng.randint(1, 300) for _ in range(4)], doff=r4(70000), dst=r4(99999),
                     perm=p, pad=[rng.randint(0, 255) for _ in range(4)])
            keys = dict(copy=[], slice=['off', 'size', 'dst'], concat=['doff', 'dst'], subsample=['sub', 'dst'], permute=['perm'],
                        pad_chw=['pad', 'dst'], pad_hwc=['pad', 'dst'], all=['off', 'size', 'sub', 'doff', 'dst', 'perm', 'pad'])[fn]
            c.call('cfg_' + fn, ' '.join(str(v) for k in keys for v in a[k]), 'mov_cfg', a)
        out.append(c)
    return out

def gen_chain(dbg):
    """slices of a tensor moved one by one and put together again elsewhere equal the tensor"""
    def g(rng, n, tier):
        out = []
        for i in range(n):
            c = Case(rng, 'mov_chain')
            c.call('mov_set', '0 16', 'mov_set', dict(b=0, n=16))
            el = rng.choice(['fx8', 'fx16', 'sa8'])
            sh = rshape(rng, maxn=40, minrank=2, maxdim=7); r = len(sh)
            d = rng.randrange(r); cut = rng.randint(1, sh[d]); parts = [cut] + ([sh[d] - cut] if cut < sh[d] else [])
            a = c.tensor(el, sh, rstrides(rng, sh), rdata(rng, el, sh), rq(c, el))
            big = rstrides(rng, sh)
            o = c.tensor(el, sh, big, None, rq(c, el))
            at = 0
            for p in parts:
                cf = {k: list(v) for k, v in COPY.items()}
                cf['off'][d] = at; cf['size'][d] = p
                psh = list(sh); psh[d] = p
                t = c.tensor(el, psh, [0] * r if False else dense(psh), None, rq(c, el))
                c.ts[t - 1]['st'] = [0] * r
                c.call('mov_sync', '%d %s %d' % (a - 1, txt(cf), t - 1), 'mov_sync', {'in': a, 'out': t, 'cf': cf})
                cf = {k: list(v) for k, v in COPY.items()}
                cf['doff'][d] = at; cf['dst'][:r] = big
                c.call('mov_sync', '%d %s %d' % (t - 1, txt(cf), o - 1), 'mov_sync', {'in': t, 'out': o, 'cf': cf})
                at += p
            out.append(c)
        return out
    return g

# ---------------------------------------------------------------- histories
def from_history(rng, hist, dbg=False):
    """a history of MC_Mov as a session on the real library (in a process of its own)"""
    c = Case(rng, 'mov_history'); c.fresh = True
    pair = {}
    for h in (1, 2, 3, 9):
        el = rng.choice(['fx8', 'fx16']); n = rng.randint(1, 4)
        a = c.tensor(el, [n], None, rdata(rng, el, [n])); o = c.tensor(el, [n + 2])
        cf = {k: list(v) for k, v in COPY.items()}; cf['doff'][0] = rng.randint(0, 2); cf['pre'][0] = 0
        pair[h] = (a, o, cf)
    def data(h): a, o, cf = pair[h]; return '%d %s %d' % (a - 1, txt(cf), o - 1)
    for k, h, n, w in hist:
        if k == 0: c.call('mov_set', '%d %d' % (h, n), 'mov_set', dict(b=h, n=n))
        elif k == 1: c.call('mov_acquire', '%d %d' % (n, h), 'mov_acquire', dict(h=h, n=n))
        elif k == 2: c.call('mov_release', str(h), 'mov_release', dict(h=h))
        elif k == 3:
            ck = h if w < 2 else w
            c.call('mov_register', '%d %d %d' % (h, w, ck), 'mov_register', dict(h=h, w=w, ck=ck))
        elif k == 4: c.call('mov_prepare', '%d %s' % (h, data(h)), 'mov_prepare', {'h': h, 'in': pair[h][0], 'out': pair[h][1], 'cf': pair[h][2]})
        elif k == 5: c.call('mov_start', '%d %s' % (h, data(h)), 'mov_start', {'h': h})
        elif k == 6: c.call('mov_isdone', str(h), 'mov_isdone', dict(h=h))
        elif k == 7: c.call('mov_wait', str(h), 'mov_wait', dict(h=h))
        elif k == 8: c.call('mov_sync', data(9), 'mov_sync', {'in': pair[9][0], 'out': pair[9][1], 'cf': pair[9][2]})
    # what every handle looks like at the end
    for h in (1, 2): c.call('mov_isdone', str(h), 'mov_isdone', dict(h=h))
    return c
