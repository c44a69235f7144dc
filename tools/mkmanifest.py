#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when a harness names it."""
import json
import os
import subprocess
import sys

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
import build  # noqa: E402

NA = {
    'P29': 'Deciding this needs executing generated VHDL; no VHDL simulator is installed, so neither the code can be '
           'explored nor a model of it be bound to the code by replaying traces.',
}
TECH = {}
with open(os.path.join(V, 'tools', 'technique.json')) as f:
    TECH = json.load(f)

claimed = set()
for n, s in build.harnesses().items():
    claimed.update(s['property'])

checks = []
na = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in claimed:
        t = TECH[i]
        checks.append({
            'property': i,
            'quick_cmd': f'python3 check.py {i}',
            'thorough_cmd': f'python3 check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': t[0],
            'level': t[2] if len(t) > 2 else 'model_checking',
            'level_note': t[1],
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})

m = {'version': 1, 'setup_cmd': 'python3 build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks explore the real code of /repo exhaustively within stated bounds; see DESIGN.md. No hooks '
              'in /repo are needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
