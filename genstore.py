#!/usr/bin/env python3
"""Run the store generator of the tree under test; keep unchanged outputs untouched.

genstore.py <repo> [-b] <store.st> <outdir>
"""
import filecmp
import os
import shutil
import subprocess
import sys
import tempfile

args = sys.argv[2:]
big = '-b' in args
args = [a for a in args if a != '-b']
st, out = args
name = os.path.splitext(os.path.basename(st))[0]
os.makedirs(out, exist_ok=True)
with tempfile.TemporaryDirectory(dir=os.path.dirname(out)) as d:
    cmd = ['-m', 'libstored.generator']
    if not os.path.exists(os.path.join(sys.argv[1], 'python/libstored/version.py')):
        # Made by cmake, normally. The contents do not matter for the generated code.
        cmd = ['-c', "import sys,types,runpy; v=types.ModuleType('libstored.version'); "
               "v.__version__=v.libstored_version='1.8.1'; sys.modules['libstored.version']=v; "
               "runpy.run_module('libstored.generator', run_name='__main__', alter_sys=True)"]
    cmd = [sys.executable] + cmd + (['-b'] if big else []) + [st, d]
    subprocess.run(cmd, check=True)
    for rel in (f'include/{name}.h', f'src/{name}.cpp', f'doc/{name}Meta.py', f'doc/{name}.csv'):
        src, dst = os.path.join(d, rel), os.path.join(out, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst) or not filecmp.cmp(src, dst, shallow=False):
            shutil.copyfile(src, dst)
