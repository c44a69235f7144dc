#!/usr/bin/env python3
"""Write BOUNDS.md: all scenarios and their bounds, as told by the built harnesses."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build, check
V = build.VERIF
hs = build.generate()
o = ['# Scenarios and bounds', '', 'Generated by tools/bounds.py from the harnesses.', '']
by = {}
os.makedirs(build.BUILD + '/work', exist_ok=True)
for n, s in hs.items():
    cmd = [build.PY, s['file']] if s.get('python') else [build.exe(n, s['flavour'][0])]
    r = {}
    for tier in ('quick', 'thorough'):
        x = subprocess.run(cmd + ['--list'] + (['--thorough'] if tier == 'thorough' else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=check.ENV, cwd=build.BUILD + '/work', timeout=100)
        for l in x.stdout.splitlines():
            f = l.split('\t')
            if len(f) == 3:
                r.setdefault(f[0], {})[tier] = f[2]
    for scn, t in r.items():
        ps = [scn.split(':')[0]] if ':' in scn and scn.startswith('P') else s['property'] if isinstance(s['property'], list) else [s['property']]
        for p in ps:
            q, th = t.get('quick', '-'), t.get('thorough', '-')
            by.setdefault(p, []).append(f'* `{n}` ({"python" if s.get("python") else ", ".join(s["flavour"])}) `{scn}`: {q}' + (f'; **thorough:** {th}' if th != q else ''))
for p in sorted(by):
    o += [f'## {p}', ''] + by[p] + ['']
open(V + '/BOUNDS.md', 'w').write('\n'.join(o))
