#!/usr/bin/env python3
"""Generates /verif/build/build.ninja, which builds the harnesses from /repo's working tree."""

import glob
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

PY = '/opt/vp/venv/bin/python3'
if not os.path.exists(PY):
    PY = sys.executable

CXX = '/usr/bin/g++'

SAN = ('-fsanitize=address,undefined -fno-sanitize=vptr,null,nonnull-attribute,'
       'returns-nonnull-attribute,alignment -fno-sanitize-recover=undefined '
       '-fno-omit-frame-pointer -DSTORED_ENABLE_ASAN=1 -DSTORED_ENABLE_UBSAN=1')

BASE = ('-std=gnu++17 -g1 -D_DEBUG=1 -DSTORED_DRAFT_API=1 -DSTORED_HAVE_HEATSHRINK=1 '
        '-DSTORED_HAVE_ZMQ=1 -w -pthread -I/usr/include/heatshrink')

# name -> flags. Assertions of libstored are enabled in all of them.
FLAVOURS = {
    'asan': f'-O1 {SAN}',
    'opt': '-O2',
    # Configuration for small targets: no dynamic memory, no unaligned access.
    'small': f'-O1 {SAN} -DVERIF_CONFIG_SMALL=1',
    # Small limits for the debugger, no compression.
    'dbg': f'-O1 {SAN} -DVERIF_CONFIG_DBG=1',
    # Defaults, without compression.
    'plain': f'-O1 {SAN} -DVERIF_CONFIG_PLAIN=1',
    # Small buffers, no dynamic memory, with compression.
    'dbgc': f'-O1 {SAN} -DVERIF_CONFIG_DBGC=1',
    # Stores in big endian (so byte-swapped on this host).
    'be': f'-O1 {SAN} -DVERIF_CONFIG_BE=1',
    # Release build (no debug assertions in libstored), as a user would ship it.
    'rel': '-O2 -DVERIF_CONFIG_RELEASE=1',
    'tsan': '-O1 -fsanitize=thread',
}

INC = f'-I{VERIF}/harness/include -I{VERIF}/harness -I{BUILD}/inc -I{REPO}/include'
LIBS = '-lheatshrink_dynalloc -lzmq -lpthread'


def header(fn):
    """Parse the '// mc: k=v k=v' lines of a harness."""
    spec = {}
    with open(fn) as f:
        for line in f:
            m = re.match(r'^(?://|#) mc: (.*)$', line)
            if m:
                for kv in m.group(1).split():
                    k, v = kv.split('=', 1)
                    spec.setdefault(k, [])
                    spec[k] += v.split(',')
    return spec


def harnesses():
    res = {}
    for fn in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.cpp'))):
        name = os.path.basename(fn)[:-4]
        spec = header(fn)
        if 'property' not in spec:
            continue
        spec['file'] = fn
        spec.setdefault('flavour', ['asan'])
        res[name] = spec
    for fn in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.py'))):
        name = os.path.basename(fn)[:-3]
        spec = header(fn)
        if 'property' not in spec:
            continue
        spec['file'] = fn
        spec['python'] = True
        spec.setdefault('flavour', [])
        res[name] = spec
    return res


def gendir(flavour):
    return 'genbe' if flavour == 'be' else 'gen'


def exe(name, flavour):
    return os.path.join(BUILD, 'bin', f'{name}.{flavour}')


def write_if_changed(fn, text):
    try:
        with open(fn) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(fn, 'w') as f:
        f.write(text)


def make_version_headers():
    """These are generated by the project's cmake run; make them ourselves when absent."""
    inc = os.path.join(BUILD, 'inc')
    os.makedirs(os.path.join(inc, 'libstored'), exist_ok=True)
    if not os.path.exists(os.path.join(REPO, 'include/libstored/version.h')):
        with open(os.path.join(REPO, 'include/libstored/version.h.in')) as f:
            t = f.read()
        for k, v in (('LIBSTORED_VERSION_MAJOR', '1'), ('LIBSTORED_VERSION_MINOR', '8'),
                     ('LIBSTORED_VERSION_PATCH', '1'), ('LIBSTORED_VERSION_SUFFIX', ''),
                     ('LIBSTORED_VERSION_HASH', '')):
            t = t.replace(f'@{k}@', v)
        write_if_changed(os.path.join(inc, 'libstored/version.h'), t)


def generate():
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    make_version_headers()
    n = []
    n.append('ninja_required_version = 1.5')
    n.append(f'builddir = {BUILD}')
    n.append('rule cxx\n  command = $cxx $flags -MMD -MF $out.d -c $in -o $out\n'
             '  depfile = $out.d\n  deps = gcc\n  description = CXX $out')
    n.append('rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out')
    n.append('rule link\n  command = $cxx $flags $in -o $out $libs\n  description = LINK $out')
    n.append(f'rule gen\n  command = PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={REPO}/python '
             f'{PY} {VERIF}/genstore.py {REPO} $flags $in $dir > $dir.log 2>&1 || (cat $dir.log; false)\n'
             '  description = GEN $out\n  restat = 1')

    gendeps = sorted(glob.glob(f'{REPO}/python/libstored/generator/**/*.py', recursive=True) +
                     glob.glob(f'{REPO}/python/libstored/generator/**/*.tx', recursive=True) +
                     glob.glob(f'{REPO}/include/libstored/*.tmpl') + glob.glob(f'{REPO}/src/*.tmpl') +
                     [f'{VERIF}/genstore.py'])
    stores = {}
    for st in sorted(glob.glob(os.path.join(VERIF, 'harness', 'stores', '*.st'))):
        name = os.path.basename(st)[:-3]
        stores[name] = st
        for g, f in (('gen', ''), ('genbe', '-b')):
            d = f'{BUILD}/{g}/{name}'
            n.append(f'build {d}/include/{name}.h {d}/src/{name}.cpp: gen {st} | {" ".join(gendeps)}\n'
                     f'  dir = {d}\n  flags = {f}')

    used = set()
    hs = harnesses()
    for name, spec in hs.items():
        for fl in spec['flavour']:
            used.add(fl)

    srcs = sorted(glob.glob(f'{REPO}/src/*.cpp'))
    for fl in sorted(used):
        flags = f'{BASE} {FLAVOURS[fl]} {INC}'
        objs = []
        for s in srcs:
            o = f'{BUILD}/{fl}/lib/{os.path.basename(s)[:-4]}.o'
            n.append(f'build {o}: cxx {s}\n  cxx = {CXX}\n  flags = {flags}')
            objs.append(o)
        n.append(f'build {BUILD}/{fl}/libstored.a: ar {" ".join(objs)}')
        for name in stores:
            d = f'{BUILD}/{gendir(fl)}/{name}'
            n.append(f'build {BUILD}/{fl}/store/{name}.o: cxx {d}/src/{name}.cpp | {d}/include/{name}.h\n'
                     f'  cxx = {CXX}\n  flags = {flags} -I{d}/include')
    for name, spec in hs.items():
        if spec.get('python'):
            continue
        for fl in spec['flavour']:
            flags = f'{BASE} {FLAVOURS[fl]} {INC}'
            extra = ' '.join(x for x in spec.get('flags', []))
            st = spec.get('stores', [])
            g = gendir(fl)
            incs = ' '.join(f'-I{BUILD}/{g}/{s}/include' for s in st)
            imp = ' '.join(f'{BUILD}/{g}/{s}/include/{s}.h' for s in st)
            o = f'{BUILD}/{fl}/h/{name}.o'
            n.append(f'build {o}: cxx {spec["file"]} | {imp}\n  cxx = {CXX}\n  flags = {flags} {incs} {extra}')
            so = ' '.join(f'{BUILD}/{fl}/store/{s}.o' for s in st)
            wrap = ' '.join(f'-Wl,--wrap={w}' for w in spec.get('wrap', []))
            n.append(f'build {exe(name, fl)}: link {o} {so} {BUILD}/{fl}/libstored.a\n'
                     f'  cxx = {CXX}\n  flags = {FLAVOURS[fl]} -pthread {wrap}\n  libs = {LIBS}')
    write_if_changed(f'{BUILD}/build.ninja', '\n'.join(n) + '\n')
    return hs


def build(targets):
    r = subprocess.run(['/usr/bin/ninja', '-f', f'{BUILD}/build.ninja', '-C', BUILD] + targets,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
    return r.returncode == 0


def targets_of(hs, names):
    t = []
    for name in names:
        spec = hs[name]
        if spec.get('python'):
            for b in spec.get('needs', []):
                bn, fl = b.split('.')
                t.append(exe(bn, fl))
        else:
            for fl in spec['flavour']:
                t.append(exe(name, fl))
    return sorted(set(t))


if __name__ == '__main__':
    hs = generate()
    t = targets_of(hs, sys.argv[1:] or list(hs))
    sys.exit(0 if not t or build(t) else 1)
