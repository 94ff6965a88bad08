"""two runs of one call in different surroundings (spec/Pair.tla)"""
import copy
from mliconf import *
from genlib import *
import gen_elt, gen_act, gen_conv, gen_pool, gen_data, gen_mov, gen_rnn, gen_k30

READ = ('in', 'in1', 'in2', 'w', 'b', 'slope', 'prev', 'wi', 'wo', 'cell', 'e')


def owned(c):
    """cells the last call may read: (arena, position), 0-based"""
    s = set(); a = c.calls[-1]['a']; idx = set()
    for k in READ:
        v = a.get(k)
        if isinstance(v, int): idx.add(v)
        elif isinstance(v, list): idx |= set(v)
    for j, t in enumerate(c.ts, 1):
        q = t['q']
        if q['dim'] >= 0:
            for key in ('zp', 'sc', 'fr'):
                if q[key][0]: s |= {(q[key][0] - 1, q[key][1] + i) for i in range(q['n'])}
        if j not in idx or not t['sh'] or not t['ar']: continue
        n = 1
        for x in t['sh']: n *= x
        st = list(t['st'])
        for d in range(len(st) - 1, -1, -1):
            if st[d] == 0: st[d] = 1 if d == len(st) - 1 else st[d + 1] * t['sh'][d + 1]
        for i in range(n): s.add((t['ar'] - 1, t['off'] + Case.offs(i, t['sh'], st)))
    return s


class Pair:
    def __init__(self, rng, c):
        self.a, self.r = c, rng; self.tag = c.tag; self.calls = c.calls
        b = self.b = copy.copy(c)
        own = owned(c)
        b.ar = [(w, [v if (i, p) in own else b_junk(rng, w) for p, v in enumerate(vals)]) for i, (w, vals) in enumerate(c.ar)]
        self.shift = 4 * rng.randint(0, 15)
        self.pad = [rng.randint(0, 9) for _ in range(2)] if not c.calls[-1]['k'].startswith('mov') else [0, 0]

    def text(self, sid):
        L = self.a.text('%sa' % sid).splitlines() + self.b.text('%sb' % sid).splitlines()
        out = []; run = 0
        for l in L:
            if l[0] == 'S':
                run += 1
                if run == 2: l += ' @%d' % self.shift
            if l[0] == 'T' and run == 2:
                f = l.split(); rank = int(f[5])
                if rank:
                    for d in range(rank, 4): f[6 + d] = str(self.pad[0]); f[10 + d] = str(self.pad[1])
                l = ' '.join(f)
            out.append(l)
        return '\n'.join(out) + '\n'

    @staticmethod
    def parse_out(path, cases, obs):
        # split into the two runs, parse each like a plain session
        blocks = []; done = []
        for line in open(path):
            if line.startswith('S '): blocks.append([line])
            elif blocks: blocks[-1].append(line)
        for bl in blocks:
            sid = bl[0].split()[1]; i = int(sid[:-1]); c = cases[i]
            one = [None]; tmp = path + '.blk'
            with open(tmp, 'w') as f: f.write('S 0\n'); f.writelines(bl[1:])
            parse_out(tmp, [c.a if sid[-1] == 'a' else c.b], one)
            if obs[i] is None or sid[-1] == 'a': obs[i] = dict(runs=[], crash=None)
            obs[i]['runs'].append(one[0])
            if not done or done[-1] != i: done.append(i)
        return done

    def record(self, o):
        last = self.calls[-1]
        r = dict(tag=self.tag, two=0, k=last['k'], a=last['a'], ts=[strip(t) for t in self.a.ts])
        runs = (o or {}).get('runs', [])
        for n, (name, c) in enumerate((('ra', self.a), ('rb', self.b))):
            x = runs[n] if n < len(runs) else None
            mem = [list(v) for w, v in c.ar]; pre = mem; bad = dict(pre=mem, post=mem, ret=-1, guard=[], crash=1, ts2=r['ts'])
            if x is None or len(x['calls']) < len(c.calls) or not x['calls'][-1]['z']: r[name] = bad; continue
            mem = list(mem)
            for a, v in x.get('ia', {}).items(): mem[a] = v
            cur = r['ts']
            for cl in x['calls']:
                pre = mem; mem = list(mem)
                for a, v in cl['da'].items(): mem[a] = v
                cur = [obs_tensor(c, t, cur[i]) for i, t in enumerate(cl['ts'])]
            r[name] = dict(pre=pre, post=mem, ret=cl['ret'], guard=cl['guard'], crash=0, ts2=cur)
        return r


class InPlace(Pair):
    def __init__(self, rng, c, src):
        self.a, self.r = c, rng; self.tag = 'inplace_' + c.tag; self.calls = c.calls
        b = self.b = copy.copy(c); b.ts = [dict(t) for t in c.ts]
        o = b.ts[c.calls[-1]['a']['out'] - 1]; s = b.ts[src - 1]
        o.update(ar=s['ar'], off=s['off'], st=list(s['st']), cap=s['cap'])
        self.shift = 0; self.pad = [0, 0]

    def record(self, o):
        r = Pair.record(self, o); r['two'] = 1; r['tb'] = [strip(t) for t in self.b.ts]
        return r


def inplace(g):
    def f(rng, n, tier):
        for c in g(rng, n, tier):
            a = c.calls[-1]['a']; o = c.ts[a['out'] - 1]
            if c.calls[-1]['k'] == 'eltwise' and rng.random() < .15:      # both operands in one place
                s, t = c.ts[a['in1'] - 1], c.ts[a['in2'] - 1]
                if s['sh'] == t['sh'] and s['sh']: t.update(ar=s['ar'], off=s['off'], st=list(s['st']), cap=s['cap'])
            src = [a[k] for k in ('in', 'in1', 'in2') if k in a]
            if any(c.ts[j - 1]['ar'] == o['ar'] for j in src): continue
            src = [j for j in src if c.ts[j - 1]['sh'] == o['sh'] and BITS[c.ts[j - 1]['el']] == BITS[o['el']]]
            if src: yield InPlace(rng, c, rng.choice(src))
    return f

def gen_inplace(rng, n, tier):
    gs = [(gen_elt.gen, 6), (gen_act.gen_relu, 2), (gen_act.gen_prelu, 3), (gen_act.gen_sigm, 2), (gen_act.gen_softmax, 3), (gen_act.gen_l2, 3), (gen_data.gen_convert, 6)]
    tot = sum(w for _, w in gs); out = []
    for g, w in gs: out += list(inplace(g)(rng, max(2, n * w // tot), tier))
    return out


def b_junk(rng, w):
    lo, hi = rng_range(w)
    return rng.randint(lo, hi)


def one(g):
    """all sessions of a generator whose last call is the one of interest"""
    def f(rng, n, tier):
        for c in g(rng, n, tier)[:n]:
            if all(x['k'] in ('mov_set',) for x in c.calls[:-1]) and c.calls[-1]['k'] != 'mov_prepare' and isinstance(c.calls[-1]['a'].get('out'), int): yield Pair(rng, c)
    return f

def gens(dbg):
    cv = lambda k: gen_conv.gen([k], 3000)
    return [(gen_elt.gen, 4), (gen_act.gen_relu, 2), (gen_act.gen_prelu, 3), (gen_act.gen_sigm, 2), (gen_act.gen_softmax, 2), (gen_act.gen_l2, 2),
         (cv('conv'), 3), (cv('depthwise'), 3), (cv('group'), 3), (cv('transpose'), 3), (gen_conv.gen_fc, 3), (gen_rnn.gen_dense, 3),
         (gen_rnn.gen_cell('lstm'), 2), (gen_rnn.gen_cell('gru'), 2), (gen_pool.gen('max'), 3), (gen_pool.gen('ave'), 3),
         (gen_data.gen_argmax, 2), (gen_data.gen_permute, 3), (gen_data.gen_convert, 4), (gen_mov.gen_sync(dbg), 8)]

def gen(dbg):
    def f(rng, n, tier):
        gs = gens(dbg); tot = sum(w for _, w in gs); out = []
        for g, w in gs: out += list(one(g)(rng, max(2, n * w // tot), 'quick'))
        return out
    return f


class Pair30:
    def __init__(self, rng, c):
        self.a = c; self.tag = c.tag; self.calls = c.calls
        b = self.b = copy.copy(c)
        b.fill = (c.fill + rng.randint(1, 255)) % 256
        b.mis = [rng.randint(0, 15) for _ in range(3)]; b.descmis = rng.randint(0, 7)
        b.ops = [dict(o, gap=rng.randint(0, 5), bank=rng.randint(0, 2)) for o in c.ops]
        k = rng.randint(1, 9999)
        b.junkval = lambda bits, i: Pair30.jv(bits, i, k)

    @staticmethod
    def jv(bits, i, k):
        lo, hi = rng_range(bits)
        return lo + (i * 104729 + k) % (hi - lo + 1)

    def text(self, sid): return self.a.text('%sa' % sid) + self.b.text('%sb' % sid)

    @staticmethod
    def parse_out(path, cases, obs):
        blocks = []; done = []
        for line in open(path):
            if line.startswith('S '): blocks.append([line])
            elif blocks: blocks[-1].append(line)
        for bl in blocks:
            sid = bl[0].split()[1]; i = int(sid[:-1]); one = [None]; tmp = path + '.blk'
            with open(tmp, 'w') as f: f.write('S 0\n'); f.writelines(bl[1:])
            cases[i].a.parse_out(tmp, [cases[i].a], one)
            if obs[i] is None or sid[-1] == 'a': obs[i] = dict(runs=[], crash=None)
            obs[i]['runs'].append(one[0])
            if not done or done[-1] != i: done.append(i)
        return done

    def record(self, o):
        r = dict(tag=self.tag, k='k30')
        runs = (o or {}).get('runs', [])
        for n, name in enumerate(('ra', 'rb')):
            x = runs[n] if n < len(runs) and runs[n] else None
            r[name] = dict(ev=x['ev'], notes=x['notes'], done=x['done'], crash=0) if x else dict(ev=[], notes=[], done=0, crash=1)
        return r


def gen30(kinds):
    def f(rng, n, tier): return [Pair30(rng, c) for c in gen_k30.gen(kinds)(rng, n, 'quick')]
    return f
