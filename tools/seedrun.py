#!/usr/bin/env python3
"""seedrun.py [prefix..]: apply each planted bug of /verif/seeded to /repo, run its property's check, undo it; prints what caught it"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for id in sorted(os.listdir(f'{V}/seeded')):
    if sys.argv[1:] and not any(id.startswith(a) for a in sys.argv[1:]): continue
    m = json.load(open(f'{V}/seeded/{id}/meta.json'))
    assert not sh('git -C /repo status --porcelain').stdout
    a = sh(f'git -C /repo apply {V}/seeded/{id}/patch.diff')
    t = time.time()
    try: r = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {V}/tools/check.py {m['property']}")
    finally: sh('git -C /repo checkout -- .')
    o = r.stdout
    v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
    ob = [l.split(' not discharged')[0] for l in o.splitlines() if l.startswith('obligation of')]
    n = [l[:160] for l in o.splitlines() if l.startswith('note: not proved')]
    case = bool(v) and 'no-failing-input-found' not in v[0]
    print(json.dumps({'id': id, 'rc': r.returncode, 'case': case, 'obligations': ob, 'notes': n, 's': round(time.time() - t)}), flush=True)
