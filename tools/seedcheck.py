#!/usr/bin/env python3
"""seedcheck.py [ID...]: apply each planted bug in /repo, run the quick check of its property, undo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
for i in (sys.argv[1:] or sorted(os.listdir(V + '/seeded'))):
    d = f'{V}/seeded/{i}'
    p = json.load(open(d + '/meta.json'))['property']
    if p not in M:
        print(i, p, 'not claimed'); continue
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    try:
        r = subprocess.run(M[p]['quick_cmd'], shell=True, cwd=V, capture_output=True, text=True, env={**os.environ, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i, p, 'exit', r.returncode, v[:2], 'failed:', [l for l in r.stdout.splitlines() if 'FAILED' in l][:4], f'{time.time()-t:.0f}s', flush=True)
