#!/usr/bin/env python3
"""Try hand-written mutants: hand.py FILE.py [substr]; FILE defines M = [(prop, file, old, new)]. Uses $SEEDDIR (default /tmp/seed)."""
import runpy, subprocess, sys, os
S = os.environ.get('SEEDDIR', '/tmp/seed'); R = S + '/repo'
def run(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
I, N = map(int, os.environ.get('PART', '0/1').split('/'))
for k, m in enumerate(runpy.run_path(sys.argv[1])['M']):
    if k % N != I: continue
    if len(sys.argv) > 2 and sys.argv[2] not in str(m): continue
    p, edits = (m[0], [m[1:4]]) if len(m) == 4 else (m[0], m[1])
    run(f'git -C {R} checkout -- .')
    bad = None
    for f, a, b in edits:
        t = open(f'{R}/{f}').read()
        if t.count(a) < 1: bad = a; break
        open(f'{R}/{f}', 'w').write(t.replace(a, b, 1))
    if bad: res = 'NOTEXT ' + repr(bad)[:100]
    else:
        r = run(f'cd {S}/verif && VERIF_REPO={R} VERIF_SEED=1 VERIF_TIER=quick timeout 860 python3 check.py {p}')
        res = 'CAUGHT' if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout else 'MISSED' if r.returncode == 0 else f'OTHER {r.returncode} {r.stdout[-600:]!r}'
    with open('/tmp/hand.log', 'a') as o: o.write(f'{res} {p} #{k} {edits[0][0]} {edits[0][1].strip()[:70]!r} -> {edits[0][2].strip()[:90]!r}\n')
run(f'git -C {R} checkout -- .')
