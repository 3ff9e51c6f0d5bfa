#!/usr/bin/env python3
"""catch.py [SEED...]: applies each planted bug to a scratch copy, runs every check on it (no evidence is written) and records in tools/catch.json which checks report it"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
ONE = '''
import sys; sys.path.insert(0, %r); sys.setrecursionlimit(20000)
import core, registry
c = core.Check(sys.argv[1], core.Prog(sys.argv[2]))
fn, floor = registry.CHECKS[sys.argv[1]]
try: fn(c)
except core.Missing: print('caught')
except core.SOFT: pass
else:
    if sum(o.status not in ('vacuous', 'missing') for o in c.obs) < floor: print('floor')
if any(o.status in ('violated', 'missing') for o in c.obs): print('caught')
''' % os.path.join(V, 'sa')


LOCK = threading.Lock()


def seed(s):
    w = tempfile.mkdtemp(prefix='catch')
    r = []
    try:
        for x in ('src', 'Cargo.toml', 'Cargo.lock'):
            (shutil.copytree if x == 'src' else shutil.copy)(os.path.join('/repo', x), os.path.join(w, x))
        subprocess.run(['git', 'init', '-q', '.'], cwd=w)
        subprocess.run(['git', 'apply', os.path.join(V, 'seeded', s, 'patch.diff')], cwd=w, check=True)
        m = os.path.join(w, 'mir.json')
        with LOCK:
            subprocess.run(['bash', os.path.join(V, 'run_extract.sh'), w, m], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for p in CHECKS:
            try:
                o = subprocess.run([sys.executable, '-c', ONE, p, m], capture_output=True, text=True, timeout=600).stdout
            except subprocess.TimeoutExpired:
                o = ''
            if o.strip():
                r.append(p)
    finally:
        shutil.rmtree(w)
    print(s, ' '.join(r), flush=True)
    return r


f = os.path.join(V, 'tools', 'catch.json')
old = json.load(open(f)) if os.path.exists(f) else {}
CHECKS = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
S = sorted(os.listdir(os.path.join(V, 'seeded')))
T = sys.argv[1:] or [s for s in S if s not in old]
with ThreadPoolExecutor(5) as ex:
    for s, r in zip(T, ex.map(seed, T)):
        old[s] = r
json.dump({s: old[s] for s in S if s in old}, open(f, 'w'), indent=0, sort_keys=True)
