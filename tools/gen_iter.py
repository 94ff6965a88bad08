"""sessions for tile iterators and tensor views"""
from mliconf import *
from genlib import *
from gen_k30 import prod, rtile, win_out

KINDS = ['out', 'out', 'plain', 'whole', 'in', 'in', 'noov', 'drop', 'w']

class CaseI:
    def __init__(self, rec):
        self.rec = rec; self.tag = 'iter_' + rec['kind']; self.calls = [dict(k=rec['kind'])]

    def text(self, sid):
        x = self.rec; L = ['S %s' % sid]
        vs = [[0, len(x['sh']), x.get('steps', 0), x.get('skew', 0), x.get('drop', 0), x.get('via', 0), x.get('viain', 0)], x['sh'], x['st']]
        if x['kind'] == 'view': vs += x['ops']
        elif x['kind'] == 'tr': vs += [x['tile'], x['ord'], x['perm']]
        elif x['kind'] == 'shrink': vs += [x['tile'], x['ord'], x['al'], [x['nt']]]
        else: vs += [x.get('tile', []), x.get('ord', []), x.get('ish', []), x.get('ist', []), x.get('k', []), x.get('s', []), x.get('p', [])]
        if x['kind'] == 'cfg': vs += x['ops']
        if x['kind'] == 'cyc': vs += [x['al'], [x['nt']]]
        L += ['V %d %s' % (len(v), ' '.join(map(str, v))) for v in vs]
        L.append('I ' + x['kind'])
        return '\n'.join(L) + '\n'

    @staticmethod
    def parse_out(path, cases, obs):
        done = []; cur = None
        for line in open(path):
            f = line.split()
            if not f: continue
            if f[0] == 'S':
                i = int(f[1]); cur = dict(ev=[], done=0, crash=None); obs[i] = cur; done.append(i)
            elif f[0] == 'J':
                e = {}; p = 1
                try:
                    while p < len(f):
                        n = int(f[p + 1]); e[f[p]] = [int(z) for z in f[p + 2:p + 2 + n]]; p += 2 + n
                except (ValueError, IndexError): continue
                cur['ev'].append(e)
            elif f[0] == 'Z': cur['done'] = 1
        return done

    def record(self, o):
        d = dict(self.rec); d.update(tag=self.tag, ev=o['ev'], fin=o.get('done', 0), crash=1 if o.get('crash') else 0)
        return d


def shape(r, rank, lim=400):
    if r.random() < .015:
        sh = [1] * rank; sh[r.randrange(rank)] = long_dim(r)
        if rank > 1: sh[r.randrange(rank)] = r.choice([2, 3]); sh[r.randrange(rank)] = long_dim(r)
        if prod(sh) <= 1000: return sh
    while True:
        sh = [r.choice([1, 1, 2, 3, 4, 5, 6, 7, 9]) for _ in range(rank)]
        if prod(sh) <= lim: return sh

def st_of(r, sh): return rstrides(r, sh, .4 if r.random() < .6 else 0)

def out_part(r, rank, natural=None):
    sh = shape(r, rank)
    o = list(range(rank))
    if not (natural if natural is not None else r.random() < .6): r.shuffle(o)
    t = [rtile(r, n) for n in sh]
    skew = r.randint(0, t[o[0]] - 1) if r.random() < .5 else 0
    return dict(sh=sh, st=st_of(r, sh), tile=t, ord=o, skew=skew)

def tiles(x):
    n = 1
    for i, d in enumerate(x['ord']): n *= -(-(x['sh'][d] + (x['skew'] if i == 0 else 0)) // x['tile'][d])
    return n

def axis(r, no, tile, skew):
    """an input axis for an output axis of no elements; None when the iterator does not support it"""
    for _ in range(60):
        k = r.choice([1, 1, 2, 3, 3, 4, 5]); s = r.choice([1, 1, 1, 2, 2, 3])
        if no > 60 or r.random() < .005: k = r.choice([1, 3, 64, 130, 200, 255, 256, 300])
        if r.random() < .005 and no < 5: s = r.choice([100, 128, 200, 255, 256, 300])
        p = r.randint(0, k - 1) if r.random() < .6 else 0
        f = tile - skew
        if f * s < p: continue
        need = (no - 1) * s + k - p          # input elements up to the end of the last window
        pe = r.randint(0, k - 1) if r.random() < .6 else 0
        n = need - pe + (r.randint(0, s - 1) if r.random() < .5 else 0)
        if n < 1 or n > (30 if k <= 5 and s <= 3 and no <= 60 else 900): continue
        c = -(-(no + skew) // tile)
        starts = [0] + [f * s - p + (i - 1) * tile * s for i in range(1, c)]
        if any(q >= n for q in starts): continue
        return n, k, s, p
    return None

def make(r, kind):
    while True:
        rank = 5 if kind == 'w' else r.randint(2 if kind == 'drop' else 1, 5)
        if kind == 'view':
            while True:                   # the driver writes down at most 4000 elements of a view
                x = view(r)
                if x.peak <= 3900: return x
        x = out_part(r, rank, True if kind in ('drop', 'sub', 'subin') else None)
        if kind == 'buf': x['ord'] = list(range(rank))
        if kind in ('plain', 'w', 'whole', 'buf'): x['skew'] = 0
        if tiles(x) > (310 if max(x['sh']) > 60 and r.random() < .3 else 40): continue
        if kind in ('cfg', 'cyc'): x['viain'] = r.randint(0, 1)
        if kind in ('in', 'noov', 'subin') or x.get('viain'):
            ok = True; ish = [0] * rank; k = [1] * rank; s = [1] * rank; p = [0] * rank
            for i, d in enumerate(x['ord']):
                a = axis(r, x['sh'][d], x['tile'][d], x['skew'] if i == 0 else 0)
                if a is None: ok = False; break
                ish[d], k[d], s[d], p[d] = a
            if not ok or prod(ish) > 3000: continue
            if kind == 'noov':      # the tiles of the first index must not be empty afterwards
                d = x['ord'][0]; f = x['tile'][d] - x['skew']
                if (f - 1) * s[d] + k[d] - p[d] > ish[d]: continue
                starts = [0] + [(f - 1) * s[d] + k[d] - p[d] + i * x['tile'][d] * s[d] for i in range(-(-(x['sh'][d] + x['skew']) // x['tile'][d]) - 1)]
                if any(q >= ish[d] for q in starts): continue
            x.update(ish=ish, k=k, s=s, p=p, ist=st_of(r, ish))
        if kind == 'drop':
            x['drop'] = r.randint(0, rank - 1)
            x['ish'] = x['sh'][:x['drop']] + x['sh'][x['drop'] + 1:]
            x['ist'] = st_of(r, x['ish'])
            if x['drop'] == 0: pass
        if kind == 'w':
            x['ord'] = [0, 1, 2, 3, 4]
            w = r.choice([5, 3, 1]); x['ish'] = ([r.randint(1, 3) for _ in range(w - 1)]) + [x['sh'][4]]
            x['ist'] = st_of(r, x['ish'])
        if kind == 'gran':               # tiles of whole larger elements
            new = r.choice([4, 8]); m = new // 2; first = r.random() < .4; d = 0 if first else rank - 1
            x['tile'][d] *= m; x['sh'][d] = x['sh'][d] * m - (r.randint(0, m - 1) if r.random() < .4 else 0)
            if x['ord'][0] == d: x['skew'] *= m
            if x['tile'][d] > x['sh'][d]:
                if x['ord'][0] == d and x['skew']: continue
                x['tile'][d] = x['sh'][d]
            st = [0] * rank; t = 1
            for i in (range(rank) if first else range(rank - 1, -1, -1)):
                st[i] = t; t = -(-t * x['sh'][i] // m) * m + (r.randint(0, 2) * m if r.random() < .5 else 0)
            x['st'] = st; x['k'] = [new, int(first)]
            if sum((a - 1) * b for a, b in zip(x['sh'], st)) > 15000: continue
        n = tiles(x)
        if kind == 'whole': n = 1
        if kind == 'drop':
            n = 1
            for i in range(rank):
                if i != x['drop']: n *= -(-(x['sh'][i] + (x['skew'] if i == 0 else 0)) // x['tile'][i])
        x['steps'] = min(2 * n + 2, 90); x['kind'] = kind; x['via'] = r.randint(0, 1)
        if kind == 'tr': x['perm'] = r.sample(range(rank), rank)
        if kind in ('shrink', 'cyc'): x['al'] = [r.choice([1, 1, 1, 2, 3, 4, 8]) for _ in range(rank)]; x['nt'] = r.choice([1, 1, 2, 3]); x['via'] = 0
        if kind in ('sub', 'subin', 'setcfg', 'cfg', 'cyc'): x['via'] = 0
        if kind == 'cfg': cfg_ops(r, x, rank)
        return CaseI(x)

def cfg_ops(r, x, rank):
    """operations on the configuration; a shadow of what bounds the next ones"""
    sh = x['ish'] if x['viain'] else x['sh']
    cnt = [-(-(x['sh'][d] + (x['skew'] if i == 0 else 0)) // x['tile'][d]) for i, d in enumerate(x['ord'])]
    ops = []; moved = False; skipped = False; ordered = list(x['ord'])
    for _ in range(r.randint(1, 4)):
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
        if k == 1: ops.append([1] + [r.randint(0, 3) for _ in range(rank)])
        elif k == 2: ops.append([2] + [r.choice([1, 2, 3, 4, 8]) for _ in range(rank)])
        elif k == 3:      # elements of the new size hold whole elements of the old, and increments stay exact
            if ops: continue
            d = r.randint(0, rank - 1); o, n = r.choice([(1, 2), (1, 4), (2, 4), (1, 3), (4, 2), (2, 1), (4, 1), (1, 1)])
            i = x['ord'].index(d); f = n // o if n > o else 1
            t = x['tile'][d]; s = x['s'][d] if x['viain'] else 1; p = x['p'][d] if x['viain'] else 0
            if n > o and (t * s % f or ((t - (x['skew'] if i == 0 else 0)) * s - p) % f): continue
            ops.append([3, d, o, n]); moved = True
        elif k == 4:
            v = []
            for i in range(rank):
                m = (sh[i] - 1) // (cnt[i] - 1) if cnt[i] > 1 else sh[i]
                v.append(r.randint(1, m) if m >= 1 and r.random() < .7 else -1)
            ops.append([4] + v)
        elif k == 5: ops.append([5, r.randint(0, 1)])
        elif k == 6:
            if moved or any(o[0] != 11 for o in ops) or not x['viain']: continue
            d = x['ord'][0]; f = x['tile'][d] - x['skew']
            if (f - 1) * x['s'][d] + x['k'][d] - x['p'][d] > x['ish'][d]: continue
            starts = [0] + [(f - 1) * x['s'][d] + x['k'][d] - x['p'][d] + i * x['tile'][d] * x['s'][d] for i in range(cnt[0] - 1)]
            if any(q >= x['ish'][d] for q in starts): continue
            ops.append([6])
        elif k == 7: ops.append([7] + r.sample(range(rank), rank))
        elif k == 8: cnt = [r.randint(1, 4) for _ in range(rank)]; ops.append([8] + cnt)
        elif k == 9: ops.append([9] + [r.randint(0, 1) for _ in range(rank)])
        elif k == 10: ops.append([10] + [(-1 if r.random() < .3 else d) for d in r.sample(range(rank), rank)])
        elif k == 11: ops.append([11, r.choice([0, 0, 1, 2])])
        else:
            i = r.randint(0, rank - 1); cnt = list(cnt); cnt[i] = r.randint(1, 4); ops.append([12, cnt[i], i])
    x['ops'] = ops

def view(r):
    rank = r.randint(1, 5); sh = shape(r, rank, 200); st = st_of(r, sh); es = 2; grown = r.random() < .3
    if grown:                          # made for changing the element size: rows of whole larger elements
        m = r.choice([2, 4]); first = r.random() < .4; d = 0 if first else rank - 1
        sh[d] = r.randint(1, 3) * m if r.random() < .7 else r.randint(1, 12); t = 1; st = [0] * rank; exact = r.random() < .75
        for i in (range(rank) if first else range(rank - 1, -1, -1)):
            st[i] = t; t = t * sh[i]
            if exact: t = (t + m - 1) // m * m + (r.randint(0, 2) * m if i == d or r.random() < .3 else 0)
    x = dict(kind='view', sh=sh, st=st, ops=[]); cs, ct = list(sh), list(st); off = 0; peak = prod(sh)
    size = lambda: sum((n - 1) * t for n, t in zip(cs, ct))
    for _ in range(r.randint(1, 5)):
        k = r.choice([1, 1, 2, 3, 4, 5, 6, 6, 9, 10] + [7] * 8 * grown); n = len(cs)
        if k == 1:
            p = [r.randint(0, m - 1) for m in cs]
            if grown: p = [q - q % 4 if t == 1 else q for q, t in zip(p, ct)]
            z = [r.randint(1, m - q) for m, q in zip(cs, p)]
            x['ops'].append([1] + p + z); cs = z; off += sum(a * b for a, b in zip(p, ct))
        elif k == 2:
            p = [r.randint(0, m - 1) for m in cs]
            if grown: p = [q - q % 4 if t == 1 else q for q, t in zip(p, ct)]
            z = [r.randint(1, m - q) for m, q in zip(cs, p)]
            x['ops'].append([2, sum(a * b for a, b in zip(p, ct))] + z); cs = z; off += sum(a * b for a, b in zip(p, ct))
        elif k in (3, 9):
            z = [r.randint(1, m) for m in cs]; x['ops'].append([k] + z); cs = z
        elif k == 4:
            o = list(range(n)); r.shuffle(o); x['ops'].append([4] + o); cs = [cs[i] for i in o]; ct = [ct[i] for i in o]
        elif k == 5:
            if n >= 5: continue
            a = r.randint(0, n - 1); ch = r.choice([d for d in range(1, cs[a] + 1) if cs[a] % d == 0]); left = r.randint(0, 1)
            m = cs[a] // ch; t = ct[a]; x['ops'].append([5, a, ch, left])
            cs[a:a + 1] = [ch, m] if left else [m, ch]; ct[a:a + 1] = [m * t, t] if left else [t, m * t]
        elif k == 7:
            rows = lambda s: [prod(s[i + 1:]) for i in range(len(s))]
            cols = lambda s: [prod(s[:i]) for i in range(len(s))]
            c = []
            for new in (2, 4, 8):
                if new == es: continue
                for first in (0, 1):
                    d = 0 if first else n - 1
                    if ct[d] != 1: continue
                    ok = all(t * es % new == 0 for i, t in enumerate(ct) if i != d) and off * es % new == 0
                    if ok or (off == 0 and ct == (cols(cs) if first else rows(cs))): c.append((new, first, ok))
            if not c: continue
            new, first, ok = r.choice(c); d = 0 if first else n - 1
            x['ops'].append([7, new, first]); cs[d] = -(-cs[d] * es // new)
            if ok: ct = [t if i == d else t * es // new for i, t in enumerate(ct)]; off = off * es // new
            else: ct = cols(cs) if first else rows(cs); off = 0
            es = new
        elif k == 10: x['ops'].append([10])
        else:
            c = [(a, rv) for a in range(n - 1) for rv in (0, 1)
                 if (ct[a + 1] == cs[a] * ct[a] if rv else ct[a] == cs[a + 1] * ct[a + 1])]
            if not c: continue
            a, rv = r.choice(c); x['ops'].append([6, a, rv])
            t = ct[a] if rv else ct[a + 1]; cs[a:a + 2] = [cs[a] * cs[a + 1]]; ct[a:a + 2] = [t]
        peak = max(peak, prod(cs))
    if r.random() < .15: x['ops'].append([8])
    c = CaseI(x); c.peak = peak
    return c

def gen(kinds):
    return lambda rng, n, tier: [make(rng, kinds[i % len(kinds)]) for i in range(n)]
