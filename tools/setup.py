"""build what the checks need (they rebuild on their own when the tree changes)"""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mliconf import *
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(5) as ex:
    list(ex.map(build_driver, list(CONFIGS)))
for m in sorted(os.listdir(SPEC)):
    if not m.endswith('.tla'): continue
    r = subprocess.run(['java', '-cp', TLA, 'tla2sany.SANY', m], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or 'error' in r.stdout.lower().replace('errors: 0', ''):
        print(r.stdout); sys.exit(1)
print('setup ok')
