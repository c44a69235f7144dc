#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a description, and try it: applies, builds, tests pass, demo fails.

usage: seedlib.py FILE.py [id...]   where FILE.py defines SEEDS, a list of dicts:
  id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ source), flags (extra g++ flags),
  stores={name: text} (generated with libstored's generator), py (a Python demo instead of C++),
  san=True (address sanitizer), draft=False.
"""
import json, os, subprocess, sys, runpy, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seed'
R = S + '/repo'

def prepare():
    # A scratch copy of /repo, with its own build, and of the committed /verif.
    os.makedirs(S, exist_ok=True)
    run(f'rsync -a --delete --exclude _build /repo/ {R}/ 2>/dev/null || (mkdir -p {R} && cd /repo && tar cf - --exclude=./_build . | tar xf - -C {R})')
    run(f'mkdir -p {S}/verif && cd {V} && git ls-files -z | grep -zv ^seeded/ | tar cf - --null -T - | tar xf - -C {S}/verif')
    for f in ('env.sh', 'build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read()
        t = t.replace('REPO=/repo', 'REPO=' + R)
        for g in ('env.sh', 'build.sh'):
            t = t.replace('/opt/vp/' + g, f'{S}/{g}')
        open(f'{S}/{f}', 'w').write(t)
    run(f'git -C {R} checkout -q -- .')
    r = run(f'bash {S}/build.sh')
    if r.returncode:
        print(r.stdout[-2000:]); sys.exit(1)

SH = '''#!/bin/bash
# Run in /repo, after the build.  Exit 0 when the property holds.
set -e
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
R="$PWD"
'''
GEN = '''mkdir -p "$T/gen"
for s in "$D"/*.st; do
  (cd "$T" && PYTHONPATH="$R/python" /opt/vp/venv/bin/python3 -m libstored.generator %s"$s" "$T/gen" >/dev/null)
done
'''
CXX = '''g++ -std=gnu++17 -g -w %s -DSTORED_DRAFT_API=1 -DSTORED_HAVE_HEATSHRINK=1 -I/usr/include/heatshrink \\
  -I"$D" -I"$T/gen/include" -I"$R/include" "$D/demo.cpp" %s"$R"/src/*.cpp -o "$T/demo" -lheatshrink_dynalloc -lpthread %s
cd "$T"
timeout 120 ./demo
'''

def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def clean():
    run(f'git -C {R} checkout -- .')

def main():
    prepare()
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:]
    for s in seeds:
        if ids and s['id'] not in ids:
            continue
        clean()
        d = f'{V}/seeded/{s["id"]}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, old, new in s['edits']:
            p = f'{R}/{f}'
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s['id'], 'FAIL: text occurs', n, 'times', old[:60]); break
            open(p, 'w').write(t.replace(old, new))
        else:
            n = 1
        if n != 1:
            clean(); continue
        open(f'{d}/patch.diff', 'w').write(run(f'git -C {R} diff').stdout)
        clean()
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        sh = SH
        if s.get('stores'):
            for k, v in s['stores'].items():
                open(f'{d}/{k}.st', 'w').write(v)
            sh += GEN % s.get('genflags', '')
        for k, v in s.get('files', {}).items():
            open(f'{d}/{k}', 'w').write(v)
        if 'py' in s:
            open(f'{d}/demo.py', 'w').write(s['py'])
            sh += 'cd "$T"\nPYTHONPATH="$R/python" timeout 120 /opt/vp/venv/bin/python3 "$D/demo.py" "$T"\n'
        else:
            open(f'{d}/demo.cpp', 'w').write(s['demo'])
            fl = s.get('flags', '')
            if s.get('san'):
                fl += ' -fsanitize=address -fno-sanitize-recover=all'
            cxx = CXX.replace(' -DSTORED_HAVE_HEATSHRINK=1 -I/usr/include/heatshrink', '') if s.get('nohs') else CXX
            sh += cxx % (fl, '"$T"/gen/src/*.cpp ' if s.get('stores') else '', s.get('libs', ''))
        open(f'{d}/demo.sh', 'w').write(sh)
        os.chmod(f'{d}/demo.sh', 0o755)
        r = run(f'bash {d}/demo.sh', cwd=R)
        if r.returncode:
            print(s['id'], 'FAIL: demo fails on the unchanged tree', r.stdout[-1500:]); continue
        if run(f'git -C {R} apply {d}/patch.diff').returncode:
            print(s['id'], 'FAIL: does not apply'); continue

        r = run('bash /tmp/seed/test.sh /tmp/seed/test.json', cwd=R)
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open('/tmp/seed/test.json'))
        want = set(base.get('stable') or base.get('passed') or base.get('tests'))
        failed = sorted(want - set(got['passed']))
        if failed:
            print(s['id'], 'FAIL: tests', failed[:5]); clean(); continue
        r = run(f'bash {d}/demo.sh', cwd=R)
        if r.returncode == 0:
            print(s['id'], 'FAIL: demo passes with the patch'); clean(); continue
        r = run(f'python3 {S}/verif/check.py {s["prop"]}', cwd=S + '/verif', env=dict(os.environ, VERIF_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(s['id'], 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', (v or [''])[0][:150])
        clean()
        sys.stdout.flush()

main()
