"""Conformance plumbing: build the library from /repo, run sessions on it,
record what happened, and let TLC validate the records against the spec."""
import json, os, re, subprocess, sys, hashlib, random, shutil, time, struct
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MLI_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

CONFIGS = {
    'up': (['-DROUND_MODE=UP', '-DFULL_ACCU=OFF'],
           dict(RoundUp='TRUE', FullAccu='FALSE', Ave16='FALSE', RetCodes='FALSE')),
    'convergent': (['-DROUND_MODE=CONVERGENT', '-DFULL_ACCU=OFF'],
                   dict(RoundUp='FALSE', FullAccu='FALSE', Ave16='FALSE', RetCodes='FALSE')),
    'up_fullaccu_dbg': (['-DROUND_MODE=UP', '-DFULL_ACCU=ON', '-DAVEPOOL_16BIT_MUL=ON', '-DMLI_DEBUG_MODE=DBG_MODE_FULL'],
                        dict(RoundUp='TRUE', FullAccu='TRUE', Ave16='TRUE', RetCodes='TRUE')),
    'up_retcodes': (['-DROUND_MODE=UP', '-DFULL_ACCU=OFF', '-DMLI_DEBUG_MODE=DBG_MODE_RET_CODES'],
                    dict(RoundUp='TRUE', FullAccu='FALSE', Ave16='FALSE', RetCodes='TRUE')),
    'conv_retcodes_full': (['-DROUND_MODE=CONVERGENT', '-DFULL_ACCU=ON', '-DMLI_DEBUG_MODE=DBG_MODE_RET_CODES'],
                    dict(RoundUp='FALSE', FullAccu='TRUE', Ave16='FALSE', RetCodes='TRUE')),
}
EL = {'fx8': 0x8, 'fx16': 0x10, 'sa8': 0x108, 'sa32': 0x120, 'fp32': 0x220}
ELR = {v: k for k, v in EL.items()}
BITS = {'fx8': 8, 'fx16': 16, 'sa8': 8, 'sa32': 32, 'fp32': 32}


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- building
def repo_hash():
    h = hashlib.sha256()
    for top in ('lib', 'include', 'cmake', 'CMakeLists.txt', 'hw'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            h.update(open(p, 'rb').read()); continue
        for d, ds, fs in sorted(os.walk(p)):
            ds.sort()
            for f in sorted(fs):
                fp = os.path.join(d, f)
                h.update(os.path.relpath(fp, REPO).encode()); h.update(open(fp, 'rb').read())
    return h.hexdigest()[:16]


def prune(keep, n=3):
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD)]
        ds = sorted((d for d in ds if d != keep and os.path.isdir(d)), key=os.path.getmtime)
        for d in ds[:-n]: shutil.rmtree(d, ignore_errors=True)
    except OSError: pass


def build_lib(cfg):
    """libmli.a for configuration cfg, from the current tree of REPO."""
    d = os.path.join(BUILD, repo_hash(), cfg)
    lib = os.path.join(d, 'bin', 'libmli.a')
    if os.path.exists(os.path.join(d, 'done')):
        return d, lib
    prune(os.path.dirname(d))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    log = open(os.path.join(d, 'log'), 'w')
    opts = CONFIGS[cfg][0]
    for cmd in (['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug',
                 '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++'] + opts,
                ['ninja', '-C', d, 'mli']):
        env = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'CXXFLAGS', 'CPPFLAGS', 'LDFLAGS')}
        if subprocess.call(cmd, stdout=log, stderr=log, env=env):
            raise CheckError('library build failed, see ' + log.name)
    open(os.path.join(d, 'done'), 'w').close()
    return d, lib


def build_driver(cfg, src='drv.cc'):
    d, lib = build_lib(cfg)
    s = os.path.join(VERIF, 'harness', src)
    h = hashlib.sha256(open(s, 'rb').read())
    for e in re.findall(r'#include "(\w+\.inc)"', open(s).read()):
        h.update(open(os.path.join(VERIF, 'harness', e), 'rb').read())
    key = h.hexdigest()[:10]
    exe = os.path.join(d, src.split('.')[0] + '_' + key)
    if not os.path.exists(exe):
        inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'include/api'),
               '-I' + os.path.join(REPO, 'lib/src/private'), '-I' + os.path.join(VERIF, 'harness')]
        if src == 'drv30.cc':
            inc += ['-I' + os.path.join(REPO, d) for d in ('include/internal', 'lib/src/kernels', 'lib/src/bricks', 'lib/src/pal')]
        m = re.search(r'^\s*DEFINES = (.*)$', open(os.path.join(d, 'build.ninja')).read(), re.M)
        r = subprocess.run(['g++', '-std=c++17', '-O0', '-w', *(m.group(1).split() if m else []), *inc, s, lib, '-o', exe + '.tmp'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('driver build failed:\n' + r.stdout[-3000:])
        os.rename(exe + '.tmp', exe)
    return exe


# ---------------------------------------------------------------- cases
def enc(width, vals):
    f = {8: 'b', 16: 'h', 32: 'i'}[width]
    return struct.pack('<%d%s' % (len(vals), f), *vals)


def dec(width, b):
    f = {8: 'b', 16: 'h', 32: 'i'}[width]
    return list(struct.unpack('<%d%s' % (len(b) // (width // 8), f), b))


def rng_range(width):
    return -(1 << (width - 1)), (1 << (width - 1)) - 1


def dense(shape):
    st = [1] * len(shape)
    for i in range(len(shape) - 2, -1, -1):
        st[i] = st[i + 1] * max(1, shape[i + 1])
    return st


class Case:
    def __init__(self, rng, tag=''):
        self.r = rng; self.tag = tag
        self.ar = []      # (width, values)
        self.ts = []      # descriptors (spec form), ar 1-based
        self.extra = []   # driver-only fields per tensor (capacity)
        self.luts = []    # dicts
        self.calls = []   # dict(fn, txt, k, a)
        self.lines = []   # L lines

    # arenas
    def arena(self, width, vals):
        self.ar.append((width, list(vals))); return len(self.ar)

    def junk(self, width, n):
        lo, hi = rng_range(width)
        return [self.r.randint(lo, hi) for _ in range(n)]

    def qarrays(self, zp, sc, fr):
        """store per-axis parameter arrays with junk around; return refs"""
        refs = []
        for w, v in ((16, zp), (16, sc), (8, fr)):
            pre = self.r.randint(0, 3)
            a = self.arena(w, self.junk(w, pre) + list(v) + self.junk(w, 3))
            refs.append([a, pre])
        return refs

    def q(self, el, fr=0, dim=-1, zp=0, sc=1):
        if el in ('fx8', 'fx16', 'fp32'):
            return dict(dim=-1, fr=fr, zp=0, sc=1)
        if dim < 0:
            return dict(dim=-1, zp=zp, sc=sc, fr=fr)
        rz, rs, rf = self.qarrays(zp, sc, fr)
        return dict(dim=dim, zp=rz, sc=rs, fr=rf, n=len(zp))

    def tensor(self, el, shape, strides=None, data=None, q=None, cap=None, arena=None, off=None, imm=0, null=False, guard=None):
        """new tensor; without arena it gets its own with junk before, after and in gaps"""
        w = BITS[el]; n = 1
        for s in shape: n *= s
        if q is None: q = self.q(el)
        if strides is None: strides = dense(shape)
        if len(shape) == 0:
            t = dict(ar=0, off=0, el=el, sh=[], st=[], q=q, imm=imm, cap=0)
        else:
            ext = sum((s - 1) * st for s, st in zip(shape, strides)) + 1 if n else 1
            if null:
                arena, off = 0, 0
            elif arena is None:
                pre = self.r.randint(1, 6) if guard is None else guard
                post = self.r.randint(2, 8) if guard is None else guard
                vals = self.junk(w, pre + ext + post)
                arena = self.arena(w, vals); off = pre
            if data is not None:
                vals = self.ar[arena - 1][1]
                for i, v in enumerate(data):
                    vals[off + self.offs(i, shape, strides)] = v
            if cap is None: cap = ext * (w // 8)
            t = dict(ar=arena, off=off, el=el, sh=list(shape), st=list(strides), q=q, imm=0, cap=cap)
        self.ts.append(t)
        return len(self.ts)

    @staticmethod
    def offs(i, shape, strides):
        o = 0
        for s, st in zip(reversed(shape), reversed(strides)):
            o += (i % s) * st; i //= s
        return o

    def raw(self, width, n, pre=2, post=2):
        a = self.arena(width, self.junk(width, pre + n + post)); return a, pre

    def lut(self, kind, nelem):
        a, off = self.raw(16, nelem, 3, 3)
        self.luts.append(dict(kind=kind, ar=a, off=off, cap=2 * nelem))
        return len(self.luts)

    def call(self, fn, txt, k, a):
        self.calls.append(dict(fn=fn, txt=txt, k=k, a=a))

    # driver text
    def text(self, sid):
        L = ['S %s%s' % (sid, ' F' if getattr(self, 'fresh', False) else '')]
        for w, v in self.ar:
            L.append('A %d %s' % (len(v) * w // 8, enc(w, v).hex()))
        for t in self.ts:
            sh = (t['sh'] + [0] * 4)[:4]; st = (t['st'] + [0] * 4)[:4]
            q = t['q']
            if t['el'] in ('fx8', 'fx16', 'fp32'): qs = 'FX %d' % q['fr']
            elif q['dim'] < 0: qs = 'SA -1 %d %d %d' % (q['zp'], q['sc'], q['fr'])
            else:
                qs = 'SA %d' % q['dim']
                for key, w in (('zp', 2), ('sc', 2), ('fr', 1)):
                    qs += ' %d %d' % (q[key][0] - 1, q[key][1] * w)
                qs += ' %d' % q['n']
            w = BITS[t['el']] // 8
            L.append('T %d %d %d %d %d %s %s %d %s' % (
                t['ar'] - 1, t['off'] * w, t['cap'], EL[t['el']], len(t['sh']),
                ' '.join(map(str, sh)), ' '.join(map(str, st)), t['imm'], qs))
        for l in self.luts:
            L.append('L %s %d %d %d' % (l['kind'], l['ar'] - 1, l['off'] * 2, l['cap']))
        for c in self.calls:
            L.append('C %s %s' % (c['fn'], c['txt']))
        return '\n'.join(L) + '\n'


# ---------------------------------------------------------------- running
def run_driver(exe, cases, workdir, name):
    """execute all cases; returns list of observation dicts (per case)"""
    obs = [None] * len(cases)
    todo = list(range(len(cases)))
    rounds = 0
    while todo:
        rounds += 1
        inp = os.path.join(workdir, '%s.%d.in' % (name, rounds))
        outp = os.path.join(workdir, '%s.%d.out' % (name, rounds))
        with open(inp, 'w') as f:
            for i in todo: f.write(cases[i].text(i))
        if os.path.exists(outp): os.remove(outp)
        try:
            p = subprocess.run([exe, inp, outp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
            rc = p.returncode; err = p.stderr.decode(errors='replace')[-400:]
        except subprocess.TimeoutExpired:
            rc = -99; err = 'timeout'
        if rc in (2, 3):
            raise CheckError('driver protocol error: ' + err)
        done = (getattr(cases[0], 'parse_out', None) or parse_out)(outp, cases, obs)
        if rc == 0:
            break
        last = done[-1] if done else todo[0]
        obs[last]['crash'] = err or ('exit %d' % rc)
        todo = [i for i in todo if i > last]
        if rounds > 40:      # hopeless: report what crashed
            for i in todo: obs[i] = dict(luts=[], calls=[], ev=[], notes=[], crash='not run: driver keeps crashing')
            break
    return obs


def parse_out(path, cases, obs):
    done = []; cur = None
    for line in open(path):
        f = line.split()
        if not f: continue
        if f[0] == 'S':
            i = int(f[1]); cur = dict(luts=[], calls=[], crash=None); obs[i] = cur; done.append(i)
            case = cases[i]; mem = [enc(w, v) for w, v in case.ar]; calls = None
            cur['init'] = None
        elif f[0] == 'L':
            cur['luts'].append([int(x) for x in f[1:]])
        elif f[0] == 'A':
            a = int(f[1]); b = bytes.fromhex(f[2])
            tgt = cur['calls'][-1]['da'] if cur['calls'] else cur.setdefault('ia', {})
            tgt[a] = dec(case.ar[a][0], b)
        elif f[0] == 'C':
            cur['calls'].append(dict(ret=None, da={}, ts=[], v=[], guard=[], z=False))
        elif f[0] == 'R':
            cur['calls'][-1]['ret'] = int(f[1])
        elif f[0] == 'V':
            cur['calls'][-1]['v'] += [int(x) for x in f[1:]]
        elif f[0] == 'G':
            cur['calls'][-1]['guard'].append(int(f[1]))
        elif f[0] == 'T':
            cur['calls'][-1]['ts'].append(f[1:])
        elif f[0] == 'Z':
            cur['calls'][-1]['z'] = True
    return done


def obs_tensor(case, f, before):
    """driver T line -> spec descriptor"""
    it = iter(f); k = int(next(it)); a = next(it)
    off = int(next(it)); ar = 0 if a == 'S' else int(a) + 1
    cap = int(next(it)); el = ELR.get(int(next(it)), 'other'); rank = int(next(it))
    sh = [int(next(it)) for _ in range(4)]; st = [int(next(it)) for _ in range(4)]
    kind = next(it)
    if kind == 'FX': q = dict(dim=-1, fr=int(next(it)), zp=0, sc=1)
    else:
        dim = int(next(it))
        if dim < 0: q = dict(dim=-1, zp=int(next(it)), sc=int(next(it)), fr=int(next(it)))
        else:
            q = dict(dim=dim)
            for key, w in (('zp', 2), ('sc', 2), ('fr', 1)):
                x = int(next(it)); o = int(next(it)); q[key] = [x + 1, o // w if o % w == 0 else -999]
    w = BITS.get(el, 8) // 8
    r = min(rank, 4)
    t = dict(ar=ar, off=(off // w if off % w == 0 else -999), el=el, sh=sh[:r], st=st[:r], q=q, imm=before['imm'], cap=cap)
    if rank > 4: t['sh'] = [-1]
    return t


def strip(t):
    t = dict(t); t['q'] = {k: v for k, v in t['q'].items() if k != 'n'}
    return t


def to_records(cases, obs, path):
    with open(path, 'w') as f:
        for i, (c, o) in enumerate(zip(cases, obs)):
            if hasattr(c, 'record'):
                f.write(json.dumps(c.record(o)) + '\n'); continue
            init = [list(v) for w, v in c.ar]
            for a, v in o.get('ia', {}).items(): init[a] = v
            luts = []
            for l, lo in zip(c.luts, o['luts'] + [[-1] * 9] * (len(c.luts) - len(o['luts']))):
                luts.append(dict(kind=l['kind'], ar=lo[7] + 1, off=(lo[8] if len(lo) > 8 else 0) // 2, ret=lo[0], ty=lo[1], len=lo[2],
                                 inf=lo[3], outf=lo[4], ino=lo[5], outo=lo[6], cap=l['cap']))
            ts = [strip(t) for t in c.ts]
            rec = dict(id=i, tag=c.tag, ar=init, ts=ts, luts=luts, calls=[])
            cur = ts
            for j, cl in enumerate(c.calls):
                if j < len(o['calls']) and o['calls'][j]['z']:
                    oc = o['calls'][j]
                    new = [obs_tensor(c, x, cur[n]) for n, x in enumerate(oc['ts'])]
                    dt = [dict(a=n + 1, t=new[n]) for n in range(len(cur)) if new[n] != cur[n]]
                    ob = dict(ret=oc['ret'], v=oc['v'], guard=oc['guard'], crash=0,
                              da=[dict(a=a + 1, v=v) for a, v in sorted(oc['da'].items())], dt=dt)
                    cur = new
                    rec['calls'].append(dict(k=cl['k'], a=cl['a'], o=ob))
                else:
                    rec['calls'].append(dict(k=cl['k'], a=cl['a'], o=dict(ret=-1, v=[], guard=[], crash=1, da=[], dt=[])))
                    break
            f.write(json.dumps(rec) + '\n')


def write_cfg(path, consts, spec='Spec', inv=('Conforms',), extra=''):
    with open(path, 'w') as f:
        f.write('SPECIFICATION %s\n' % spec)
        for i in inv: f.write('INVARIANT %s\n' % i)
        f.write('CONSTANTS\n')
        for k, v in consts.items(): f.write(' %s = %s\n' % (k, v))
        f.write('CHECK_DEADLOCK FALSE\n' + extra)


def run_tlc(module, cfg, workdir, env=None, workers=4, heap='3g', cont=True, timeout=800, extra=()):
    meta = os.path.join(workdir, 'meta_' + os.path.basename(cfg)); shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ); e.update(env or {}); e['TMPDIR'] = workdir
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + workdir, '-cp', TLA, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-config', cfg, '-noGenerateSpecTE', '-nowarning'] + (['-continue'] if cont else []) + list(extra) + [module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), -9
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    rej = sorted({(int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)})
    finished = 'Model checking completed' in out or 'Finished in' in out
    evalerr = bool(re.search(r'Error: (?!Invariant|The behavior up to|Action property|Temporal)', out))
    return dict(out=out, rc=rc, states=st[1], gen=st[0], rejects=rej, finished=finished, evalerr=evalerr,
                violated=re.findall(r'Error: Invariant (\w+) is violated', out), wall=time.time() - t)
