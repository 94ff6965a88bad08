"""seed.py make ID PROP FILE 'old' 'new' ... : create seeded/<ID>/patch.diff from replacements
   seed.py try ID [PROP...]: validate (build, tests, demo both ways) and run the property's checks, all in a copy of /repo"""
import sys, os, subprocess, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(sid, prop, needs, breaks, edits, demo):
    """edits: [(file, old, new)...]"""
    d = os.path.join(V, 'seeded', sid); os.makedirs(d, exist_ok=True)
    w = '/tmp/seedmk_%s' % sid
    shutil.rmtree(w, ignore_errors=True)
    sh('git -C /repo worktree prune; git clone -q /repo %s' % w)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p, newline='').read()
        if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w', newline='').write(s.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'wb').write(subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE).stdout)
    shutil.rmtree(w)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.cc'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)

DEMO_SH = '''#!/bin/bash
# exit 0: behaves as promised; non-zero: property broken.  cwd = repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -w -Iinclude -Iinclude/api -Ilib/src/private "$d/demo.cc" _build/up/bin/libmli.a -o "$t/demo" || exit 9
timeout 60 "$t/demo"
'''

def tree(w):
    """a copy of /repo with its own build scripts"""
    if not os.path.exists(w):
        sh('git clone -q /repo %s' % w)
        v = w + '_vp'; os.makedirs(v, exist_ok=True)
        for f in os.listdir('/opt/vp'):
            if not os.path.isfile('/opt/vp/' + f): continue
            s = open('/opt/vp/' + f, errors='replace').read().replace('/opt/vp', v).replace('/repo', w)
            open(os.path.join(v, f), 'w').write(s)
    return w, w + '_vp'

def tests(w, v):
    r = sh('bash %s/build.sh' % v)
    if r.returncode: return 'BUILD FAILED\n' + r.stdout[-1500:]
    r = sh('bash %s/test.sh %s/t.json' % (v, v)); t = json.load(open(v + '/t.json'))
    base = json.load(open('/opt/vp/BASELINE.json')); names = base.get('stable', base.get('passed', base.get('tests')))
    miss = set(names) - set(t['passed']) if names else set(t['failed'])
    return 'tests ok' if not miss else 'TESTS FAIL: %s' % sorted(miss)[:4]

def one(sid, props, w):
    d = os.path.join(V, 'seeded', sid); meta = json.load(open(d + '/meta.json'))
    tree(w); v = w + '_vp'
    sh('git -C %s checkout -q -- . && git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD' % (w, w, w))
    res = []
    sh('bash %s/build.sh' % v); res.append('demo clean: %d' % sh('bash %s/demo.sh' % d, cwd=w).returncode)
    a = sh('git -C %s apply %s/patch.diff' % (w, d))
    if a.returncode: return sid + ' APPLY FAILED ' + a.stdout
    res.append(tests(w, v)); res.append('demo patched: %d' % sh('bash %s/demo.sh' % d, cwd=w).returncode)
    for p in props or [meta['property']]:
        r = sh('%s/bin/check %s quick' % (V, p), env=dict(os.environ, MLI_REPO=w, VERIF_SEED='1', NOEVIDENCE='1'))
        res.append('%s rc=%d %s' % (p, r.returncode, r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else ''))
    sh('git -C %s checkout -q -- .' % w)
    return sid + ': ' + ' | '.join(res)

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:]
    sel = [i for i in ids if os.path.isdir(os.path.join(V, 'seeded', i))]; props = [i for i in ids if re.fullmatch(r'C\d\d', i)]
    if not sel: sel = sorted(os.listdir(os.path.join(V, 'seeded')))
    import threading, queue
    q = queue.Queue()
    for i in range(2): q.put('/tmp/seedtree%d' % i)
    def go(s):
        w = q.get()
        try: print(one(s, props, w), flush=True)
        except Exception as e: print(s, 'EXC', repr(e), flush=True)
        finally: q.put(w)
    with ThreadPoolExecutor(2) as ex: list(ex.map(go, sel))
