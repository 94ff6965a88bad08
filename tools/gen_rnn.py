"""recurrent layers: rnn_dense, LSTM and GRU cells"""
import math
from mliconf import *
from genlib import *
from gen_conv import VAR, TYPES, scale_of, bias_q

def wdata(rng, el, sh):
    return rdata(rng, el, sh, rng.choice([None, None, BITS[el] - 1, BITS[el] - 2, 5]))

def wq(rng, c, ew, n, dim, s_in, f_in, eb, real=None):
    """symmetric weights parameters (n scales along dim, or one) and the matching bias ones"""
    k = n if dim >= 0 else 1
    sc = []; fr = []; base = rng.randint(8, 20)
    for _ in range(k):
        s = rng.randint(1 << 13, 32767) if rng.random() < .8 else rng.randint(1, 32767)
        sc.append(s); fr.append(base + rng.choice([0, 0, 0, 1, -1]))
    if MODE[0] == 'ties': t = [tie_scale(rng) for _ in range(k)]; sc, fr = [x[0] for x in t], [x[1] for x in t]
    bq = [bias_q(s_in, f_in, s, f, rng) for s, f in zip(sc, fr)]
    if dim >= 0:
        return (c.q(ew, dim=0, zp=[0] * k, sc=sc, fr=fr), c.q(eb, dim=0, zp=[0] * k, sc=[b[0] for b in bq], fr=[b[1] for b in bq]), sc[0] / 2.0 ** fr[0])
    return c.q(ew, fr=fr[0], zp=0, sc=sc[0]), c.q(eb, fr=bq[0][1], zp=0, sc=bq[0][0]), sc[0] / 2.0 ** fr[0]

def zpt(rng):
    return rng.choice([0, -128, 127, rng.randint(-128, 127), rng.randint(-128, 127)])

def gen_dense(rng, n, tier):
    out = []
    for i in range(n):
        v = rng.choice(VAR + ['sa8_sa8_sa32']); ei, ew, eb = TYPES[v]
        c = Case(rng, 'rnn_dense_' + v); k = rng.choice([1, 2, 2, 3, 4]); co = rng.choice([1, 2, 3, 5]) if rng.random() < .98 else long_dim(rng)
        ins, ws = [], []; fmin = 99; real = 1
        for j in range(k):
            sh = rshape(rng, 3, 10); ni = 1
            if rng.random() < .015: sh = [long_dim(rng)]
            for s in sh: ni *= s
            if ei == 'sa8':
                si, fi = rng.randint(1 << 12, 32767), rng.randint(6, 18)
                qi = c.q(ei, fr=fi, zp=zpt(rng), sc=si)
                if MODE[0] == 'ties': si, fi = tie_scale(rng); qi = c.q(ei, fr=fi, zp=rng.randint(-4, 4), sc=si)
                qw, qb_, r = wq(rng, c, ew, 1, -1, si, fi, eb)
                if j == 0: qb = qb_
                real = max(real if j else 0, r * si / 2.0 ** fi)
            else:
                fi, fw = rng.randint(0, 15), rng.randint(0, BITS[ew] - 1)
                qi, qw = c.q(ei, fr=fi), c.q(ew, fr=fw); fmin = min(fmin, fi + fw)
                if j == 0: qb = c.q(eb, fr=rng.randint(max(0, fi + fw - 22), min(BITS[eb] - 1, fi + fw)) if fi + fw - 22 <= BITS[eb] - 1 else fi + fw - 22)
            ins.append(c.tensor(ei, sh, None, rdata(rng, ei, sh), qi))
            shw = [ni, co]
            ws.append(c.tensor(ew, shw, rstrides(rng, shw, .4), wdata(rng, ew, shw), qw))
        if ei == 'sa8':
            so, fo = scale_of(rng, real * 2.0 ** rng.uniform(3, 10))
            if MODE[0] == 'ties': so, fo = tie_scale(rng); fo -= rng.randint(1, 4)
            qo = c.q(ei, fr=fo, zp=zpt(rng), sc=so)
            bb = rng.choice([4, 8, 12, 14, 16, 18, 22, 26, 29, 30])
        else:
            qo = c.q(ei, fr=rng.randint(max(-3, fmin - rng.randint(4, 24)), fmin)); bb = BITS[eb]
        b = c.tensor(eb, [co], None, [rval(rng, bb) for _ in range(co)], qb)
        o = c.tensor(ei, [co], None, None, qo)
        c.call('rnn_dense_' + v, '%d %s %s %d 0 %d %d' % (k, ' '.join(str(x - 1) for x in ins), ' '.join(str(x - 1) for x in ws), b - 1, k, o - 1),
               'rnn_dense', {'in': ins, 'w': ws, 'b': b, 'out': o})
        out.append(c)
    return out

def gen_cell(cell):
    G = 4 if cell == 'lstm' else 3
    def g(rng, n, tier):
        out = []
        for i in range(n):
            v = rng.choice(VAR + ['sa8_sa8_sa32']); ei, ew, eb = TYPES[v]
            c = Case(rng, '%s_%s' % (cell, v))
            seq, N, M = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4])
            x = rng.random()
            if x < .006: seq = rng.choice([1, 2]); N = rng.choice([64, 129, 256, 300]); M = 1
            elif x < .01: seq = N = 1; M = rng.choice([17, 32, 33])
            elif x < .014: seq = rng.choice([129, 260]); N = M = 1
            p = dict(dir=rng.randint(0, 1), all=rng.randint(0, 1), act=rng.choice([0, 1, 2]) if cell == 'lstm' else 0)
            perax = rng.random() < .6
            if ei == 'sa8':
                si, fi = rng.randint(1 << 12, 32767), rng.randint(12, 20)
                sp, fp = rng.randint(1 << 12, 32767), rng.randint(14, 20)
                qi, qp = c.q(ei, fr=fi, zp=zpt(rng), sc=si), c.q(ei, fr=fp, zp=zpt(rng), sc=sp)
                def qw(s, f, div):      # weights scales so that gate sums stay mostly in range
                    if perax: k, d = G, 0
                    else: k, d = 1, -1
                    sc, fr = [], []
                    for _ in range(k):
                        a, e = scale_of(rng, rng.uniform(.2, 4) * 8 / (s / 2.0 ** f * 127 * 64 * math.sqrt(div)))
                        sc.append(max(1, a)); fr.append(e)
                    return sc, fr, d
                sw, fw, d = qw(si, fi, N)
                bq = [bias_q(si, fi, a, e, rng) for a, e in zip(sw, fw)]
                so_, fo_, _ = qw(sp, fp, M)
                mk = lambda el, sc, fr: c.q(el, dim=0, zp=[0] * G, sc=sc, fr=fr) if d >= 0 else c.q(el, fr=fr[0], zp=0, sc=sc[0])
                qwi, qwo, qb = mk(ew, sw, fw), mk(ew, so_, fo_), mk(eb, [b[0] for b in bq], [b[1] for b in bq])
                qo = c.q(ei, fr=rng.randint(13, 16), zp=zpt(rng), sc=rng.randint(64, 600)) if rng.random() < .8 else rq(c, ei)
                if rng.random() < .5: s_, f_ = scale_of(rng, rng.uniform(.3, 3) / 127); qo = c.q(ei, fr=f_, zp=zpt(rng), sc=s_)
                s_, f_ = scale_of(rng, rng.uniform(.3, 6) / 127); qc = c.q(ei, fr=f_, zp=zpt(rng), sc=s_)
                bb = rng.choice([4, 8, 12, 14, 16])
            else:
                ir = 10 if cell == 'lstm' else 11
                # at most about 5 integer bits in the sums
                while True:
                    fi, fw, fp, fwo, fo = rng.randint(8, 15), rng.randint(2, BITS[ew] - 1), rng.randint(8, 15), rng.randint(2, BITS[ew] - 1), rng.randint(8, 15)
                    irf = min(ir, fi + fw)
                    if fp + fwo >= irf and fo + fwo >= irf: break
                qi, qp, qwi, qwo, qo = c.q(ei, fr=fi), c.q(ei, fr=fp), c.q(ew, fr=fw), c.q(ew, fr=fwo), c.q(ei, fr=fo)
                qb = c.q(eb, fr=rng.randint(max(0, fi + fw - 20), min(BITS[eb] - 1, fi + fw)) if fi + fw - 20 <= BITS[eb] - 1 else fi + fw - 20)
                qc = c.q(ei, fr=rng.randint(8, 15)); bb = BITS[eb]
            shi = [seq, N]
            a = c.tensor(ei, shi, None, rdata(rng, ei, shi), qi)
            wi = c.tensor(ew, [G, N, M], rstrides(rng, [G, N, M], .3), wdata(rng, ew, [G, N, M]), qwi)
            wo = c.tensor(ew, [G, M, M], rstrides(rng, [G, M, M], .3), wdata(rng, ew, [G, M, M]), qwo)
            b = c.tensor(eb, [G, M], rstrides(rng, [G, M], .3), [rval(rng, bb) for _ in range(G * M)], qb)
            rows = seq if p['all'] else 1
            osh = rng.choice([[rows, M], [rows * M], [1]]); cap = rows * M * BITS[ei] // 8 + rng.choice([0, 0, 3])
            if rng.random() < .3 and ei != 'sa8' or rng.random() < .3:      # output over the previous output
                ar = c.arena(BITS[ei], c.junk(BITS[ei], 2 + rows * M + 3))
                pr = c.tensor(ei, [M], None, rdata(rng, ei, [M]), qp, arena=ar, off=2)
                o = c.tensor(ei, osh, None, None, qo, cap=cap, arena=ar, off=2)
            else:
                pr = c.tensor(ei, [M], None, rdata(rng, ei, [M]), qp)
                ar = c.arena(BITS[ei], c.junk(BITS[ei], 2 + rows * M + 3))
                o = c.tensor(ei, osh, None, None, qo, cap=cap, arena=ar, off=2)
            lt, ls = c.lut('tanh', 344), c.lut('sigm', 320)
            sa, so = c.raw(BITS[ei], G * M, 2, 3); eb_ = BITS[ei] // 8
            head = '%d %d %d %d %d %d %d 0 %d %d %d %d %d %d' % (a - 1, pr - 1, wi - 1, wo - 1, b - 1, lt - 1, ls - 1, p['dir'], p['all'], p['act'], G * M * eb_, sa - 1, so * eb_)
            rec = {'p': p, 'in': a, 'prev': pr, 'wi': wi, 'wo': wo, 'b': b, 'tanh': lt, 'sigm': ls, 'scr': [sa, so], 'out': o}
            if cell == 'lstm':
                ce = c.tensor(ei, [M], None, rdata(rng, ei, [M]), qc); rec['cell'] = ce
                c.call('lstm_cell_' + v, head + ' %d %d' % (ce - 1, o - 1), 'lstm', rec)
            else: c.call('gru_cell_' + v, head + ' %d' % (o - 1), 'gru', rec)
            out.append(c)
        return out
    return g
