"""check <property> [quick|thorough]: decide one property on the current tree."""
import sys, os, json, time, random, importlib, tempfile, shutil, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mliconf import *
import props

def findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


class Ctx:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.states = self.trans = self.traces = 0
        self.samples = []; self.bad = []; self.known = []; self.notes = {}
        self.assume = []

    def scale(self, n):
        return n * (8 if self.tier == 'thorough' else 1)

    def rng(self, name):
        return random.Random('%s/%d/%s' % (name, self.seed, self.tier))

    def reject(self, what, replay, tag='', fid=None):
        """record a violation; replay: json-able"""
        self.bad.append((what, replay, tag))

    # -- suite of recorded sessions validated by TLC ------------------------
    def sessions(self, name, cases, configs, src='drv.cc', module='Conf', consts=None, keep=None):
        if not cases: return
        w = os.path.join(self.work, name); os.makedirs(w, exist_ok=True)
        with ThreadPoolExecutor(len(configs)) as ex:
            exes = dict(zip(configs, ex.map(lambda c: build_driver(c, src), configs)))
        def one(cfgname):
            cs = cases(cfgname) if callable(cases) else cases
            obs = run_driver(exes[cfgname], cs, w, cfgname)
            return cfgname, cs, obs, validate(cs, obs, cfgname, w, module, max(2, 8 // len(configs)))
        with ThreadPoolExecutor(len(configs)) as ex:
            res = list(ex.map(one, configs))
        for cfgname, cs, obs, (rej, st, gen) in res:
            self.states += st; self.trans += gen - len(cs); self.traces += len(cs) - len({c for c, _ in rej})
            for ci, step in rej:
                c = cs[ci]
                self.reject('%s %s session %d step %d' % (name, c.tag, ci, step),
                            dict(suite=name, config=cfgname, driver=src, tag=c.tag, step=step, session=c.text(0).splitlines(),
                                 observed=jsonable(obs[ci]), call=c.calls[min(step, len(c.calls)) - 1]), c.tag)
        tags = {}
        for c in res[0][1]: tags[c.tag] = tags.get(c.tag, 0) + 1
        self.notes.setdefault('sessions_by_kind', {}).update(tags)
        if len(self.samples) < 6:
            c = res[0][1][0]
            self.samples.append(dict(suite=name, tag=c.tag, configs=list(configs), session=[l[:300] for l in c.text(0).splitlines()]))

    # -- exhaustive model checking of a specification module ------------------
    def model(self, module, cfgtext, name=None, heap='6g', timeout=700, env=None):
        w = os.path.join(self.work, 'mc_' + (name or module)); os.makedirs(w, exist_ok=True)
        cfg = os.path.join(w, (name or module) + '.cfg')
        open(cfg, 'w').write(cfgtext)
        r = run_tlc(module, cfg, w, workers=8, heap=heap, cont=False, timeout=timeout, env=env)
        if r['rc'] != 0:
            raise CheckError('model %s failed on the specification itself: %s' % (module, r['out'][-1200:]))
        self.states += r['states']; self.trans += r['gen']
        self.notes.setdefault('models', {})[name or module] = dict(states=r['states'], generated=r['gen'])
        return r


    def edges(self, module, invs, consts, **kw):
        """model-check a module and return the histories it prints, one per edge of its state graph"""
        cs = dict(RoundUp='TRUE', Ave16='FALSE', FullAccu='FALSE'); cs.update(consts)
        r = self.model(module, 'SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nCONSTANTS\n' % ' '.join(invs) +
                       ''.join(' %s %s\n' % (k, v if str(v).startswith('<-') else '= %s' % v) for k, v in cs.items()), **kw)
        out = re.findall(r'"EDGE (.*)"', r['out'])
        return [json.loads(e.replace('<<', '[').replace('>>', ']')) for e in sorted(out)]


def jsonable(o):
    return json.loads(json.dumps(o, default=str))


def validate(cs, obs, cfgname, w, module, workers):
    """TLC over the recorded sessions; evaluation errors count as rejections"""
    alive = list(range(len(cs))); rejects = []; st = gen = 0
    consts = CONFIGS[cfgname][1]
    cfg = os.path.join(w, cfgname + '.cfg'); write_cfg(cfg, consts)
    for attempt in range(12):
        path = os.path.join(w, cfgname + '.ndjson')
        to_records([cs[i] for i in alive], [obs[i] for i in alive], path)
        r = run_tlc(module, cfg, w, env={'CASES': path}, workers=workers)
        if r['finished'] and not r['evalerr']:
            st, gen = r['states'], r['gen']
            if st < len(alive): raise CheckError('TLC explored fewer states than sessions:\n' + r['out'][-2000:])
            rejects += [(alive[c - 1], s) for c, s in r['rejects']]
            return rejects, st, gen
        m = re.findall(r'^/\\ c = (\d+)', r['out'], re.M)
        p = re.findall(r'^/\\ pc = (\d+)', r['out'], re.M)
        if not m or r['rc'] == -9:
            raise CheckError('TLC did not finish on %s:\n%s' % (path, r['out'][-1200:]))
        if os.environ.get('VERBOSE'): print(r['out'][-2500:])
        k = alive[int(m[-1]) - 1]
        rejects.append((k, int(p[-1]) if p else 1)); alive.remove(k)
        if attempt >= 6:      # enough evidence
            return rejects, st, gen
    return rejects, st, gen


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='mlicheck_')
    ctx = Ctx(pid, tier, seed, work)
    rc = 0
    try:
        props.PROPS[pid](ctx)
    finally:
        if not os.environ.get('KEEP'): shutil.rmtree(work, ignore_errors=True)
        else: print('work', work)
    known = [f for f in findings() if f.get('property') == pid and f.get('status') != 'fixed']
    viol = 0; seen = set()
    rdir = os.path.join(VERIF, 'replay'); 
    shown = {}
    for what, replay, tag in ctx.bad:
        k = next((f for f in known if f.get('tag') == tag), None)
        if k:
            seen.add(k['tag']); continue
        viol += 1
        shown[tag] = shown.get(tag, 0) + 1
        if shown[tag] > 2 or viol > 12: continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%s.json' % (pid, hashlib.sha256(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:12]))
        json.dump(replay, open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s   %s' % (pid, path, what)); rc = 1
    for f in known:
        if f['tag'] in seen: print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=ctx.states, transitions=ctx.trans, traces_validated_against_impl=ctx.traces,
                            samples=ctx.samples, **ctx.notes),
              wall_s=round(time.time() - t0, 2), violations=viol,
              assumptions=['the reference (x86) implementation is what the build compiles; *_dsp and *_vdsp variants are not built here'] + ctx.assume)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d traces, %d states, %d violations, %.1fs' % (pid, tier, ctx.traces, ctx.states, viol, time.time() - t0))
    return rc


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('CHECK ERROR:', e); sys.exit(2)
