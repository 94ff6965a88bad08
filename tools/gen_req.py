"""calls with valid and with spoilt arguments (spec/Req.tla)"""
import copy, re
from mliconf import *
from genlib import *
import gen_elt, gen_act, gen_conv, gen_pool, gen_data, gen_mov, gen_rnn

CONVP = 'NC relu sw sh pl pr pt pb dw dh'.split()
LAY = dict(
    conv=['t:a', 't:w', 't:b'] + CONVP + ['t:o'],
    pool=['t:a'] + 'NC kw kh sw sh pl pr pt pb'.split() + ['t:o'],
    fc=['t:a', 't:w', 't:b', 'NC', 'relu', 't:o'],
    elt=['t:a', 't:b', 't:o'], relu=['t:a', 'NC', 'type', 't:o'], act=['t:a', 'lut', 't:o'],
    prelu=['t:a', 't:s', 'NC', 'axis', 't:o'], leaky=['t:a', 't:s', 't:o'],
    softmax=['t:a', 'lut', 'NC', 'axis', 't:o'], l2=['t:a', 't:e', 'NC', 'axis', 'lut', 't:o'],
    argmax=['t:a', 'NC', 'axis', 'k', 't:o'], permute=['t:a', 'NC', 'p0', 'p1', 'p2', 'p3', 't:o'],
    lstm=['t:a', 't:p', 't:wi', 't:wo', 't:b', 'tl', 'sl'] + 'NC dir res act scap sar soff'.split() + ['t:ce', 't:o'],
    gru=['t:a', 't:p', 't:wi', 't:wo', 't:b', 'tl', 'sl'] + 'NC dir res act scap sar soff'.split() + ['t:o'],
    convert=['t:a', 't:o'],
    sub=['t:a'] + ['off%d' % i for i in range(4)] + ['size%d' % i for i in range(4)] + ['rank', 't:o'],
    count=['t:a', 'start'],
    point=['t:a', 'n', 'c0', 'c1', 'c2', 'size', 't:o'],
    mov=['t:a'] + [k + str(i) for k in gen_mov.KEYS for i in range(4)] + ['t:o'])
NTS = ['none', 'null', 'data', 'rank', 'shape', 'stride', 'el', 'cap', 'quant', 'cfg', 'cfg', 'fr']
# roles whose quantisation parameters are requirements
QROLES = dict(conv='a w b o', fc='a w b o', dense='*', cell='a p wi wo b ce o', pool='a o', elt='a b o', relu='a', act='a', softmax='a', l2='a',
              leaky='a s o', prelu='a s o')
OVERLAP = {'conv', 'pool', 'fc', 'permute', 'mov', 'dense'}


def base(rng, fam):
    R = lambda n: rng.choice(n)
    if fam == 'conv':
        k = R(['conv', 'depthwise', 'group', 'transpose'])
        s = R(gen_conv.SPECIAL[k]); other = s and rng.random() < (.4 if k == 'transpose' else .15)     # a specialised entry point called for something else
        c = gen_conv.conv_case(rng, k, R(gen_conv.VAR + ['sa8_sa8_sa32']), 200 if other else 80, s, False, other and k == 'transpose')
        if other and rng.random() < .6:
            n = R([z for z in gen_conv.SPECIAL[k] if z]); c.calls[0]['fn'] = re.sub(r'_k\dx\d', '_k%dx%d' % (n, n), c.calls[0]['fn'])
        c.other = other
        return c
    if fam == 'fc': return gen_conv.gen_fc(rng, 1, 'quick')[0]
    if fam == 'pool': return gen_pool.pool_case(rng, R(['max', 'ave']), R(['fx8', 'fx16', 'sa8']), R([None, 2, 3]), budget=100)
    if fam == 'elt': return gen_elt.elt_case(rng, R(['add', 'sub', 'mul', 'min', 'max']), R(['fx8', 'fx16', 'sa8']))
    if fam == 'relu': return gen_act.gen_relu(rng, 1, 'quick')[0]
    if fam in ('prelu', 'leaky'):
        while True:
            c = gen_act.gen_prelu(rng, 1, 'quick')[0]
            if c.calls[0]['fn'].startswith(fam): return c
    if fam == 'act': return gen_act.gen_sigm(rng, 1, 'quick')[0]
    if fam == 'softmax': return gen_act.gen_softmax(rng, 1, 'quick')[0]
    if fam == 'l2': return gen_act.gen_l2(rng, 1, 'quick')[0]
    if fam == 'argmax': return gen_data.gen_argmax(rng, 1, 'quick')[0]
    if fam == 'permute': return gen_data.gen_permute(rng, 1, 'quick')[0]
    if fam == 'convert': return gen_data.gen_convert(rng, 1, 'quick')[0]
    if fam == 'dense': return gen_rnn.gen_dense(rng, 1, 'quick')[0]
    if fam in ('lstm', 'gru'): return gen_rnn.gen_cell(fam)(rng, 1, 'quick')[0]
    if fam == 'count':
        c = Case(rng, 'count'); el = rng.choice(['fx8', 'fx16', 'sa8', 'sa32', 'fp32']); sh = rshape(rng, 4, 300)
        if el == 'fp32': el = 'fx8'
        a = c.tensor(el, sh, rstrides(rng, sh), None, c.q(el, fr=rng.randint(0, 15), zp=0, sc=1)) if rng.random() < .9 else c.tensor(el, [], imm=1, q=c.q(el, fr=3, zp=0, sc=1))
        r = len(sh) if c.ts[a - 1]['sh'] else 0
        c.call('count', '%d %d' % (a - 1, rng.choice([0, 1, 2, 3, 4, 5, 255, 2 ** 32 - 1, max(0, r - 1), r])), 'any', {}); return c
    if fam == 'sub': return gen_data.sub_chain(rng, True)
    if fam == 'point': return gen_data.pointto(rng, True)
    if fam == 'mov':
        while True:
            c = gen_mov.gen_sync(True)(rng, 1, 'quick')[0]
            if c.calls[1]['fn'] == 'mov_sync': return c
    raise Exception(fam)


class ReqCase:
    def __init__(self, rng, fam):
        self.r = rng; c = self.c = base(rng, fam)
        cl = c.calls[1 if fam == 'mov' else 0]; self.fn = cl['fn']; toks = [int(x) for x in cl['txt'].split()]
        self.fam = fam; self.lcap = []; self.lnull = set()
        if fam == 'dense':
            n = toks[0]
            lay = ['cnt'] + ['t:i%d' % i for i in range(n)] + ['t:w%d' % i for i in range(n)] + ['t:b', 'NC', 'n', 't:o']
        else: lay = LAY[fam]
        assert len(lay) == len(toks), (fam, lay, toks)
        self.lay = [l.split(':')[-1] for l in lay]; self.val = dict(zip(self.lay, toks))
        self.role = {l[2:]: self.val[l[2:]] for l in lay if l[:2] == 't:'}
        self.k = fam; self.v = ''; self.kh = self.kw = self.str = 0
        m = re.search(r'_k(\d)x(\d)', self.fn)
        if m: self.kh, self.kw = int(m[1]), int(m[2])
        m = re.search(r'_str(\d)$', self.fn)
        if m: self.str = int(m[1])
        if fam == 'conv': self.k = {'conv2': 'conv', 'depth': 'depthwise', 'group': 'group', 'trans': 'transpose'}[self.fn[:5]]
        if fam == 'pool': self.k = self.fn.split('_')[0]
        if fam == 'elt': self.k = self.fn.split('_')[1]
        m = re.search(r'(fx16_fx8_fx8|sa8_sa8_sa32|fx16|fx8|sa8)(_k\dx\d.*|_ext_bias)?$', self.fn)
        if m: self.v = m[1]
        if self.v in ('fx8', 'fx16') and fam in ('conv', 'fc', 'dense', 'lstm', 'gru'): self.v += 'w'
        # own descriptors, by index
        self.x = []
        for t in c.ts:
            w = BITS[t['el']] // 8; q = t['q']
            d = dict(nul=0, ar=t['ar'], o=t['off'] * w, cap=t['cap'], el=t['el'], rank=len(t['sh']), sh=(t['sh'] + [0] * 4)[:4],
                     st=(t['st'] + [0] * 4)[:4], imm=t['imm'], dat=1)
            if q['dim'] >= 0:
                n = q['n']; d['q'] = dict(dim=q['dim'], zp=list(q['zp']), sc=list(q['sc']), fr=list(q['fr']), cz=2 * n, cs=2 * n, cf=n)
            else: d['q'] = dict(dim=-1, zp=q['zp'], sc=q['sc'], fr=q['fr'], cz=0, cs=0, cf=0)
            self.x.append(d)
        self.used = sorted(set(self.role.values()))
        self.tag = 'req_%s_%s' % (fam, self.v or self.k)
        self.calls = [dict(fn='base', k='base'), dict(fn=self.fn, k='call')]

    # ------------------------------------------------------- changing things
    def fat(self):
        for d in self.x:
            if d['rank'] == 0 or not d['ar'] or sum(1 for e in self.x if e['ar'] == d['ar']) != 1: continue
            w, v = self.c.ar[d['ar'] - 1]; n = 300 if w < 32 else 200
            v += self.c.junk(w, n); d['cap'] += n * w // 8

    def vals(self, q, key):
        """the parameters as a list"""
        if q['dim'] < 0 or not isinstance(q[key], list): return [q[key] if not isinstance(q[key], list) else 0]
        a, o = q[key]
        return [0] if a == 0 else self.c.ar[a - 1][1][o:o + 320]

    def setv(self, q, key, i, v):
        if q['dim'] < 0: q[key] = v
        else: a, o = q[key]; self.c.ar[a - 1][1][o + i] = v

    def freshq(self, d, el):
        r = self.r
        if el.startswith('fx'): d['q'] = dict(dim=-1, zp=0, sc=1, fr=r.randint(0, 7), cz=0, cs=0, cf=0)
        else: d['q'] = dict(dim=-1, zp=r.randint(-9, 9), sc=r.randint(1, 32767), fr=r.randint(5, 15), cz=0, cs=0, cf=0)

    def retype(self, d, el):
        """another element type, with room for it"""
        if d['el'] == el: return
        if d['el'][:2] != el[:2]: self.freshq(d, el)
        elif el[:2] == 'sa' and d['q']['dim'] >= 0: pass
        was, now = BITS[d['el']] // 8, BITS[el] // 8
        if d['ar'] and d['rank']:
            w, v = self.c.ar[d['ar'] - 1]; d['o'] = d['o'] // was * now; d['cap'] = d['cap'] // was * now
            v += self.c.junk(w, max(0, (d['o'] + d['cap'] + 16) * 8 // w + 1 - len(v)))
        d['el'] = el

    def alltype(self):
        """a call whose tensors agree with each other, but are of the types of another function of the family"""
        r = self.r; fam = self.fam; x = self.x; R = self.role
        if fam in ('conv', 'fc', 'dense', 'lstm', 'gru'):
            tri = dict(fx8w=('fx8',) * 3, fx16w=('fx16',) * 3, fx16_fx8_fx8=('fx16', 'fx8', 'fx8'), sa8_sa8_sa32=('sa8', 'sa8', 'sa32'))
            t = tri[r.choice([v for v in tri if v != self.v])]
            for role, k in R.items(): self.retype(x[k], t[1] if role[0] == 'w' else t[2] if role == 'b' else t[0])
            if t[0] != 'sa8':       # formats that go together
                for role, k in R.items(): x[k]['q']['fr'] = 0 if role in ('b', 'o') else x[k]['q']['fr']
            else:                   # bias scale = input scale * weights scale
                for role, k in R.items():
                    q = x[k]['q']; q['dim'] = -1; q['cz'] = q['cs'] = q['cf'] = 0
                    one = role == 'b'
                    q['zp'], q['sc'], q['fr'] = 0, 16384 if not one else 16384, 14
            return
        if fam in ('sub', 'point', 'mov', 'convert', 'l2', 'count'): return
        was = x[R['a']]['el']; el = r.choice([e for e in ('fx8', 'fx16', 'sa8') if e != was])
        q = None
        for role, k in R.items():
            d = x[k]
            if fam == 'argmax' and role == 'o': continue
            self.retype(d, el)
            if el == 'sa8' or was == 'sa8':
                if q: d['q'] = dict(q)
                q = d['q']

    def axes(self):
        """parameters per tensor here and along some axis there"""
        r = self.r; x = self.x; R = self.role
        ks = [k for role, k in R.items() if role[0] == 'w' or role in ('b', 'a', 'o', 'p', 'ce')]
        for k in r.sample(ks, r.choice([1, 1, 2])):
            d = x[k]; q = d['q']
            if q['dim'] >= 0:
                a = r.choice([-1, -1, 0, d['rank'] - 1]); 
                if a < 0: d['q'] = dict(dim=-1, zp=self.vals(q, 'zp')[0], sc=self.vals(q, 'sc')[0], fr=self.vals(q, 'fr')[0], cz=0, cs=0, cf=0)
                elif d['sh'][a] <= d['sh'][q['dim']]: q['dim'] = a
            elif d['rank']:
                q['dim'] = r.randrange(d['rank']); n = max(1, d['sh'][q['dim']])
                q['zp'], q['sc'], q['fr'] = self.c.qarrays([q['zp']] * n, [q['sc']] * n, [max(-128, min(127, q['fr']))] * n)
                q['cz'] = q['cs'] = 2 * n; q['cf'] = n

    def pack(self, d): d['st'] = (dense(d['sh'][:d['rank']]) + [0] * 4)[:4]

    def follow(self):
        """the output gets the shape that the window parameters ask for"""
        V = self.val; a, o = self.x[self.role['a']], self.x[self.role['o']]
        def win(k, d): return (k - 1) * d + 1
        if self.fam == 'pool': kh, kw, dh, dw = V['kh'], V['kw'], 1, 1
        else:
            w = self.x[self.role['w']]; kh, kw, dh, dw = w['sh'][0], w['sh'][1], V['dh'], V['dw']
            if self.k in ('depthwise', 'group') and dh == 0: return
        if a['rank'] != 3 or o['rank'] != 3 or V['sh'] < 1 or V['sw'] < 1: return
        if self.k == 'transpose':
            oh = (a['sh'][0] - 1) * V['sh'] + kh - V['pt'] - V['pb']; ow = (a['sh'][1] - 1) * V['sw'] + kw - V['pl'] - V['pr']
        else:
            oh = (a['sh'][0] + V['pt'] + V['pb'] - win(kh, dh)) // V['sh'] + 1; ow = (a['sh'][1] + V['pl'] + V['pr'] - win(kw, dw)) // V['sw'] + 1
        if oh < 1 or ow < 1 or oh * ow * o['sh'][2] * (BITS[o['el']] // 8) > o['cap']: return
        if [oh, ow] != o['sh'][:2]: o['sh'][:2] = [oh, ow]; self.pack(o)

    def mutate(self):
        r = self.r; fam = self.fam; role = r.choice(list(self.role)); d = self.x[self.role[role]]
        m = r.choice(NTS)
        if getattr(self.c, 'other', 0) and r.random() < .6: self.m = 'none'; return
        if fam == 'count': m = r.choice(['none', 'none', 'rank', 'shape', 'stride', 'el', 'quant'])
        if fam == 'mov' and role == 'o' and m not in ('none', 'null', 'data', 'cap', 'stride', 'cfg'): m = 'cfg'
        if fam in ('sub', 'point') and role == 'o' and m not in ('null', 'none'): m = 'cfg'
        if fam == 'permute' and role == 'o' and m in ('rank', 'quant'): m = 'shape'
        if fam == 'l2' and role == 'e': m = 'none'
        if fam == 'prelu' and role == 's' and m == 'rank': m = 'shape'      # (documentation and check differ about it)
        scalar = d['rank'] == 0
        if scalar and m in ('data', 'rank', 'shape', 'stride', 'cap'): m = 'el' if fam != 'l2' else 'none'
        if r.random() < .8 and m != 'cap': self.fat()
        if r.random() < .08 and fam in OVERLAP and m != 'none': m = 'overlap'
        elif r.random() < .04: m = 'type'
        elif r.random() < .04 and fam in ('conv', 'fc', 'dense', 'lstm', 'gru') and d['el'][:2] == 'fx': m, role = 'fr', r.choice(['b', 'o']); d = self.x[self.role[role]]
        elif r.random() < .08 and fam in ('conv', 'fc', 'dense', 'lstm', 'gru') and self.v[:3] == 'sa8': m = 'axis'
        self.m = m
        def q_ok(): return role in QROLES.get('cell' if fam in ('lstm', 'gru') else fam, '').split() or QROLES.get(fam) == '*'
        if m == 'type': self.alltype()
        elif m == 'axis': self.axes()
        elif m == 'null': d['nul'] = 1; self.val[role] = -1
        elif m == 'data': d['dat'] = 0
        elif m == 'rank':
            k = r.choice([-1, 1, 1, 5])
            if k == 5: d['rank'] = 5
            elif k == 1 and d['rank'] < 4:
                if r.random() < .5: d['sh'] = (d['sh'][:d['rank']] + [1] + [0] * 4)[:4]; d['st'] = (d['st'][:d['rank']] + [1] + [0] * 4)[:4]
                else: d['sh'] = ([1] + d['sh'])[:4]; d['st'] = ([d['sh'][1] * d['st'][0]] + d['st'])[:4]
                d['rank'] += 1
                if d['q']['dim'] >= 0 and r.random() < .5: d['q']['dim'] = min(d['q']['dim'] + 1, 3) if d['sh'][0] == 1 else d['q']['dim']
            elif d['rank'] > 1:
                if r.random() < .5: d['rank'] -= 1
                else: d['sh'] = d['sh'][1:] + [0]; d['st'] = d['st'][1:] + [0]; d['rank'] -= 1
                # an axis of the parameters beyond the rank is only looked for where parameters are requirements
                if not q_ok(): d['q']['dim'] = min(d['q']['dim'], d['rank'] - 1)
        elif m == 'shape':
            i = r.randrange(d['rank']); was = d['sh'][i]; d['sh'][i] = r.choice([was + 1, was + 1, was - 1, 0])
            pack = r.random() < .5
            if pack: self.pack(d)
            if pack and r.random() < .5:        # others may follow, so that few requirements are spoilt
                for k in self.used:
                    e = self.x[k]
                    if e is d: continue
                    for j in range(e['rank']):
                        if e['sh'][j] == was and r.random() < .5: e['sh'][j] = d['sh'][i]; self.pack(e)
        elif m == 'stride':
            i = r.randrange(d['rank']); d['st'][i] = r.choice([0, -1, d['st'][i] - 1, d['st'][i] + 1, d['st'][i] + 1])
        elif m == 'el':
            el = r.choice([e for e in ('fx8', 'fx16', 'sa8', 'sa32') if e != d['el']])
            if el[:2] != d['el'][:2]: self.freshq(d, el)
            d['el'] = el
        elif m == 'cap': d['cap'] -= 1 if r.random() < .6 else min(d['cap'], BITS[d['el']] // 8)
        elif m == 'overlap':
            a = self.x[self.role['i0' if fam == 'dense' else 'a']]; o = self.x[self.role['o']]
            if o['ar'] != a['ar']:
                w = self.c.ar[a['ar'] - 1]
                need = a['o'] + a['cap'] + o['cap'] + 8
                w[1].extend(self.c.junk(w[0], max(0, need * 8 // w[0] + 1 - len(w[1]))))
                b = BITS[o['el']] // 8
                o['ar'] = a['ar']; o['o'] = (a['o'] // b + r.choice([0, a['cap'] // b - 1, (a['cap'] + b - 1) // b])) * b
        elif m == 'quant' and d['el'][:2] == 'sa':
            q = d['q']; ways = []
            if q_ok(): ways += ['zp', 'zpb', 'scale', 'caps', 'frac']
            if q_ok() or (fam in ('permute', 'argmax', 'pool') and role == 'a' and fam != 'permute'): ways += ['dim']
            if fam in ('permute', 'mov') and role == 'o' and q['dim'] >= 0: ways = ['caps', 'nullp']
            if q_ok() and q['dim'] >= 0: ways += ['nullp']
            w = r.choice(ways) if ways else None
            n = 1 if q['dim'] < 0 else d['sh'][q['dim']] if q['dim'] < 4 else 1
            i = r.randrange(max(1, n))
            if q['dim'] >= 0 and isinstance(q['zp'], list) and q['zp'][0] == 0: w = None
            if w == 'zp': self.setv(q, 'zp', i, r.choice([1, -1, 2]))
            if w == 'zpb': self.setv(q, 'zp', i, r.choice([128, -129, 127, -128, 16384, -16384, -16385, 16383]))
            if w == 'scale': self.setv(q, 'sc', i, r.choice([0, -1, -32768, 1]))
            if w == 'frac': self.setv(q, 'fr', i, max(-128, min(127, self.vals(q, 'fr')[i] + r.choice([1, -1]))))
            if w == 'caps':
                k = r.choice(['cz', 'cs', 'cf'])
                q[k] = q[k] + (r.choice([1, 2]) if q['dim'] < 0 else r.choice([-1, -q[k]]))
            if w == 'nullp':
                k = r.choice(['zp', 'sc', 'fr'])
                q[k] = [0, 0]
            if w == 'dim':
                if q['dim'] < 0:
                    rk = max(1, d['rank']); q['dim'] = r.randrange(rk) if d['rank'] else 0
                    n = max(1, d['sh'][q['dim']])
                    z, s, f = q['zp'], q['sc'], q['fr']
                    q['zp'], q['sc'], q['fr'] = self.c.qarrays([z] * n, [s] * n, [max(-128, min(127, f))] * n)
                    q['cz'] = q['cs'] = 2 * n; q['cf'] = n
                else: q['dim'] = r.choice([x for x in (q['dim'] + 1, q['dim'] - 1, d['rank'], 4) if x >= 0])
        elif m == 'fr' and d['el'][:2] == 'fx':
            q = d['q']; R = self.role; by = r.choice([1, -1, 2, 30])
            if role in ('b', 'o') and fam in ('conv', 'fc', 'dense', 'lstm', 'gru') and r.random() < .7:    # at the limit
                by = sum(self.x[R[n]]['q']['fr'] for n in (('i0', 'w0') if fam == 'dense' else ('a', 'wi') if fam in ('lstm', 'gru') else ('a', 'w'))) + r.choice([0, 1]) - q['fr']
            q['fr'] = max(-128, min(127, q['fr'] + by))
        else: self.cfg()

    def cfg(self):
        r = self.r; fam = self.fam; V = self.val
        ps = [l for l in self.lay if l not in self.role and l not in ('relu', 'type', 'lut', 'cnt', 'dir', 'act', 'soff', 'tl', 'sl', 'res')]
        if fam in ('lstm', 'gru'): ps += ['tl', 'sl', 'res']
        if not ps: return
        p = r.choice(ps)
        if p == 'NC': V[p] = 1; return
        if p in ('tl', 'sl'):
            if r.random() < .4: self.lnull.add(p); V[p] = -1
            else: l = self.c.luts[V[p]]; cap = r.choice([l['cap'] - 1, 0, l['cap'], l['cap'] + 2]); self.lcap.append((V[p], cap))
            return
        if p == 'sar':
            a = self.x[self.role['a']]
            if r.random() < .5: V[p] = -1
            else: V[p] = a['ar'] - 1; V['soff'] = a['o'] + r.choice([0, a['cap'] - 1]); w = self.c.ar[a['ar'] - 1]; w[1].extend(self.c.junk(w[0], 400))
            return
        if p == 'scap': V[p] = r.choice([V[p] - 1, 0, V[p] + 1]); return
        if p == 'res': V[p] ^= 1; return
        if p == 'axis' and fam == 'prelu' and self.x[self.role['s']]['rank'] != self.x[self.role['a']]['rank']: return      # as above
        if p == 'axis': V[p] = r.choice([-1, V[p] + 1, V[p] - 1, 0, 4, -2]); return
        if p[0] == 'p' and fam == 'permute': V[p] = r.choice([0, 1, 2, 3, 4, 255]); return
        if p == 'n' and fam == 'dense': V[p] = r.choice([0, V[p] - 1, 5, 6, 255]); return
        if fam in ('conv', 'pool'):
            V[p] = r.choice([0, 1, 2, V[p] + 1, V[p] + 1, max(0, V[p] - 1), 255])
            if p in ('pt', 'pb', 'pl', 'pr') and r.random() < .6:       # at the limit
                if fam == 'pool': e = V['kh' if p in ('pt', 'pb') else 'kw']
                else:
                    i = p not in ('pt', 'pb'); e = (self.x[self.role['w']]['sh'][i] - 1) * (1 if self.k == 'transpose' else V['dw' if i else 'dh']) + 1
                V[p] = min(255, e + r.choice([-1, 0, 0, 0, 1, 2]))
            if p != 'NC' and r.random() < .6: self.follow()
            return
        if fam == 'mov':
            k = p[:-1]
            if k != 'perm': V[p] = r.choice([V[p] + 1, max(0, V[p] - 1), 0])
            elif r.random() < .5: V[p] = r.choice([4, 4, self.x[self.role['a']]['rank']])
            else: o = 'perm%d' % r.randrange(self.x[self.role['a']]['rank']); V[p], V[o] = V[o], V[p]
            return
        V[p] = min(2 ** 32 - 1, max(0, r.choice([V[p] + 1, V[p] - 1, 0, V[p] + 1])))

    # ------------------------------------------------------------- rendering
    def text(self, sid):
        c = self.c; L = c.text(sid).splitlines(); out = [l for l in L if l[0] in 'SA']
        for d in self.x:
            q = d['q']
            if d['el'] in ('fx8', 'fx16', 'fp32'): qs = 'FX %d' % q['fr']
            elif q['dim'] < 0: qs = 'SA -1 %d %d %d' % (q['zp'], q['sc'], q['fr'])
            else:
                qs = 'SA %d' % q['dim']
                for key, w in (('zp', 2), ('sc', 2), ('fr', 1)):
                    qs += ' %d %d' % (q[key][0] - 1, q[key][1] * w)
                qs += ' 0'
            if d['el'][:2] == 'sa': qs += ' CAP %d %d %d' % (q['cz'], q['cs'], q['cf'])
            out.append('T %d %d %d %d %d %s %s %d %s' % (d['ar'] - 1 if d['dat'] else -1, d['o'], d['cap'], EL[d['el']], d['rank'],
                       ' '.join(map(str, d['sh'])), ' '.join(map(str, d['st'])), d['imm'], qs))
        out += [l for l in L if l[0] == 'L']
        if self.fam == 'mov': out.append('C mov_set 0 16')
        for l, cap in self.lcap: out.append('C lut_cap %d %d' % (l, cap))
        out.append('C noop'); out.append('C %s %s' % (self.fn, ' '.join(str(self.val[l]) for l in self.lay)))
        return '\n'.join(out) + '\n'

    @property
    def ar(self): return self.c.ar

    def tens(self, role):
        d = self.x[self.role[role]]; q = d['q']
        ids = lambda k: (q[k][0] * 10000 + q[k][1] if q[k][0] else -1) if isinstance(q[k], list) else -2
        nul = lambda k: int(isinstance(q[k], list) and q[k][0] == 0)
        Q = dict(dim=q['dim'], zp=self.vals(q, 'zp'), sc=self.vals(q, 'sc'), fr=self.vals(q, 'fr'), cz=q['cz'], cs=q['cs'], cf=q['cf'],
                 nz=nul('zp'), ns=nul('sc'), nf=nul('fr'), rz=ids('zp'), rs=ids('sc'), rf=ids('fr'))
        return dict(nul=d['nul'], dat=d['dat'], el=d['el'], rank=d['rank'], sh=d['sh'], st=d['st'], cap=d['cap'], ar=d['ar'], o=d['o'], q=Q)

    def record(self, o):
        V = self.val; x = dict(fam=self.fam, k=self.k, v=self.v, kh=self.kh, kw=self.kw, str=self.str, tag=self.tag)
        T = {r: self.tens(r) for r in self.role}
        P = {l: min(V[l], 2 ** 31 - 1) for l in self.lay if l not in self.role}
        if self.fam in ('lstm', 'gru'):
            x['fam'] = 'cell'; caps = dict((l, cap) for l, cap in self.lcap)
            lc = lambda p: [1, 0] if p in self.lnull else [0, caps.get(V[p], self.c.luts[V[p]]['cap'])]
            x['lut'] = lc('tl') + lc('sl')
        if self.fam == 'dense':
            x['fam'] = 'rnn_dense'; n = V['cnt']
            x['in'] = [T.pop('i%d' % i) for i in range(n)]; x['w'] = [T.pop('w%d' % i) for i in range(n)]
        if self.fam == 'permute': P['perm'] = [V['p%d' % i] for i in range(4)]
        if self.fam == 'sub': P['off'] = [V['off%d' % i] for i in range(4)]; P['size'] = [V['size%d' % i] for i in range(4)]
        if self.fam == 'point': P['c'] = [V['c%d' % i] for i in range(3)]
        if self.fam == 'mov':
            for k in gen_mov.KEYS: P[k] = [V['%s%d' % (k, i)] for i in range(4)]
        x['t'] = T; x['p'] = P
        cs = (o or {}).get('calls', []); want = 2 + len(self.lcap) + (self.fam == 'mov')
        if len(cs) < want or not cs[-1]['z']: x['o'] = dict(crash=1, guard=0, ret=-1, mem=0, desc=0)
        else:
            z, b = cs[-1], cs[-2]
            # a transfer may have filled in the destination descriptor (and its parameters) before it is refused
            dq = set()
            if self.fam == 'mov':
                q = self.x[self.role['o']]['q']; dq = {q[k][0] - 1 for k in ('zp', 'sc', 'fr') if isinstance(q[k], list)}
            x['o'] = dict(crash=0, guard=int(bool(z['guard'])), ret=z['ret'], mem=int(bool(set(z['da']) - dq)),
                          desc=int(z['ts'] != b['ts'] and self.fam != 'mov'))
        return x


FAMS = ['conv', 'conv', 'conv', 'pool', 'fc', 'elt', 'elt', 'relu', 'act', 'prelu', 'prelu', 'leaky', 'softmax', 'l2', 'argmax', 'permute',
        'lstm', 'lstm', 'gru', 'convert', 'dense', 'dense', 'sub', 'point', 'count', 'mov', 'mov']

def gen(fams=FAMS):
    def g(rng, n, tier):
        out = []
        for i in range(n):
            c = ReqCase(rng, rng.choice(fams)); c.m = 'none'
            c.mutate()
            out.append(c)
        return out
    return g
