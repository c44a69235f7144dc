"""Access to the store generator of the tree under test, in this process."""

import os
import sys
import types as pytypes

from . import mc

sys.path.insert(0, mc.REPO + '/python')
if not os.path.exists(mc.REPO + '/python/libstored/version.py'):
    # Made by cmake, normally.
    _v = pytypes.ModuleType('libstored.version')
    _v.__version__ = _v.libstored_version = '1.8.1'
    sys.modules['libstored.version'] = _v

from libstored.generator.dsl import types  # noqa: E402


class _NS:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def variable(name, type='int8', init=None, size=None):
    if type in ('blob', 'string'):
        t = _NS(fixed=None, blob=_NS(type=type, size=size, len=1), init=init)
    else:
        t = _NS(fixed=_NS(type=type, len=1), blob=None, init=None if init is None else _NS(value=init))
    return types.Variable(None, t, name)


def function(name, type='int8', size=None):
    if type in ('blob', 'string'):
        t = _NS(fixed=None, blob=_NS(type=type, size=size, len=1))
    else:
        t = _NS(fixed=_NS(type=type, len=1), blob=None)
    return types.Function(None, t, name, 1)


def reset():
    """Forget about previously generated stores."""
    types.cnames.clear()
    types.vhdlnames.clear()
    # A new process starts counting again.
    if hasattr(types.Function, 'f'):
        types.Function.f = 1


TYPECODE = {
    'bool': 0x20, 'int8': 0x38, 'uint8': 0x30, 'int16': 0x39, 'uint16': 0x31, 'int32': 0x3b,
    'uint32': 0x33, 'int64': 0x3f, 'uint64': 0x37, 'float': 0x2b, 'double': 0x2f, 'ptr32': 0x23,
    'ptr64': 0x27, 'blob': 1, 'string': 2}
SIZE = {
    'bool': 1, 'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8,
    'uint64': 8, 'float': 4, 'double': 8, 'ptr32': 4, 'ptr64': 8}

# ---------------------------------------------------------------------------
# Running the whole generator.

import csv  # noqa: E402
import hashlib  # noqa: E402
import logging  # noqa: E402
import re  # noqa: E402
import shutil  # noqa: E402
import struct  # noqa: E402
import subprocess  # noqa: E402
import tempfile  # noqa: E402


class Rejected(Exception):
    pass


_g = None


def generator():
    """The generator's module, with caching of the (slow) construction of the parser."""
    global _g
    if _g:
        return _g
    import libstored.generator.__main__ as g
    logging.disable(logging.CRITICAL)
    if hasattr(g, 'metamodel_from_file'):
        orig = g.metamodel_from_file
        cache = []

        def cached(*a, **kw):
            if not cache:
                cache.append(orig(*a, **kw))
            return cache[0]
        g.metamodel_from_file = cached
    jinja2 = getattr(g, 'jinja2', None)
    if jinja2:
        origenv = jinja2.Environment
        codes = {}

        class Loader(jinja2.BytecodeCache):
            def load_bytecode(self, bucket):
                if bucket.key in codes:
                    bucket.bytecode_from_string(codes[bucket.key])

            def dump_bytecode(self, bucket):
                codes[bucket.key] = bucket.bytecode_to_string()

        class Env(origenv):
            def __init__(self, *a, **kw):
                super().__init__(*a, bytecode_cache=Loader(), **kw)
        jinja2.Environment = Env
    _g = g
    return g


def generate(text, name, out, little=True):
    """Generate a store in this process, as one run of the generator."""
    g = generator()
    reset()
    for s in ('model_names', 'model_cnames', 'models'):
        if hasattr(g, s):
            getattr(g, s).clear()
    os.makedirs(out, exist_ok=True)
    fn = os.path.join(out, name + '.st')
    with open(fn, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    try:
        g.generate_store(fn, out, little)
    except SystemExit as e:
        raise Rejected(f'exit {e.code}')
    except RecursionError:
        raise
    except Exception as e:
        # It does not get through main() either.
        raise Rejected(f'{type(e).__name__}: {e}')


def meta(out, name):
    ns = {}
    with open(os.path.join(out, 'doc', name + 'Meta.py')) as f:
        src = f.read()
    exec(compile(src, name + 'Meta.py', 'exec'), ns)
    return ns[name + 'Meta']()


class Obj:
    """An object of a store, according to its description."""

    def __init__(self, name, type, size, init=None, func=False):
        self.name, self.type, self.size, self.init, self.func = name, type, size, init, func

    def code(self):
        return TYPECODE[self.type] | (0x40 if self.func else 0)

    def room(self):
        return self.size + (1 if self.type == 'string' else 0)

    def bytes(self, little):
        """The initial contents."""
        if self.init is None:
            return bytes(self.room())
        if self.type == 'string':
            return self.init + bytes(self.room() - len(self.init))
        return enc(self.type, self.init, little)


PACK = {'bool': '?', 'int8': 'b', 'uint8': 'B', 'int16': 'h', 'uint16': 'H', 'int32': 'i', 'uint32': 'I', 'int64': 'q',
        'uint64': 'Q', 'float': 'f', 'double': 'd', 'ptr32': 'I', 'ptr64': 'Q'}


def enc(t, v, little):
    return struct.pack(('<' if little else '>') + PACK[t], v)


CTYPE = {'bool': 'bool', 'int8': 'int8_t', 'uint8': 'uint8_t', 'int16': 'int16_t', 'uint16': 'uint16_t', 'int32': 'int32_t',
         'uint32': 'uint32_t', 'int64': 'int64_t', 'uint64': 'uint64_t', 'float': 'float', 'double': 'double', 'ptr64': 'void*',
         'blob': 'void', 'string': 'char'}

DRIVER = r'''
#include <cstdio>
#include <cstring>
#include <string>
namespace {
std::string g_log;
__attribute__((no_sanitize("address"), noinline)) void peek(char* dst, char const volatile* src, size_t n)
{
	for(size_t i = 0; i < n; i++)
		((char volatile*)dst)[i] = src[i];
}
void hex(void const* p, size_t n)
{
	for(size_t i = 0; i < n; i++)
		printf("%02x", ((unsigned char const*)p)[i]);
}
template <typename S> void dump(char const* k, S& s)
{
	std::string b((size_t)S::BufferSize, 0);
	peek(&b[0], s.raw(), b.size());
	printf("%s ", k);
	hex(b.data(), b.size());
	printf("|%s\n", g_log.c_str());
	g_log.clear();
}
template <typename T> T val(char const* s, size_t n)
{
	T t = T();
	memcpy((void*)&t, s, n < sizeof(T) ? n : sizeof(T));
	return t;
}
template <typename T> std::string str(T t)
{
	char b[64];
	std::string r;
	for(size_t i = 0; i < sizeof(t); i++) {
		snprintf(b, sizeof(b), "%02x", ((unsigned char*)&t)[i]);
		r += b;
	}
	return r;
}
template <typename V> void variant(char const* k, V v)
{
	if(!v.valid())
		printf("%s invalid\n", k);
	else if(v.isFunction())
		printf("%s %d %d f\n", k, (int)v.type(), (int)v.size());
	else
		printf("%s %d %d %d\n", k, (int)v.type(), (int)v.size(), (int)v.key());
}
template <typename T, typename S> void free(S& s, char const* path, bool func)
{
	if(func) {
		auto f = S::template freeFunction<T>(path);
		auto b = f.apply(s);
		if(!f.valid() || !b.valid())
			printf("free invalid\n");
		else
			printf("free %d\n", (int)b.id());
	} else {
		auto v = S::template freeVariable<T>(path);
		auto b = v.apply(s);
		if(!v.valid() || !b.valid())
			printf("free invalid\n");
		else
			printf("free %d\n", (int)b.key());
	}
}
template <typename S, typename O> void fixed(S& s, O& o, char const* path, char const* v, size_t n)
{
	typedef decltype(o.get()) T;
	variant("acc", o.variant());
	variant("find", s.find(path));
	free<T>(s, path, o.variant().isFunction());
	T r = o.get();
	printf("get ");
	hex(&r, sizeof(r));
	printf("|%s\n", g_log.c_str());
	g_log.clear();
	o = val<T>(v, n);
	dump("set", s);
	r = o.get();
	printf("get ");
	hex(&r, sizeof(r));
	printf("|%s\n", g_log.c_str());
	g_log.clear();
}
template <typename S, typename O> void blob(S& s, O& o, char const* path, char const* v, size_t n)
{
	auto x = o.variant();
	variant("acc", x);
	variant("find", s.find(path));
	std::string b(x.size() + 1, '\x7f');
	size_t got = x.get(&b[0], x.size());
	printf("get ");
	hex(b.data(), got);
	printf("|%s\n", g_log.c_str());
	g_log.clear();
	x.set(v, n);
	dump("set", s);
	got = x.get(&b[0], x.size());
	printf("get ");
	hex(b.data(), got);
	printf("|%s\n", g_log.c_str());
	g_log.clear();
}
}
'''


def driver(stores):
    """stores: list of (name, objs: [Obj], meta, arrays: [(call, ...)])."""
    s = ['']
    s += [f'#include "{name}.h"' for name, *_ in stores]
    s.append('#include <libstored/directory.h>')
    s.append(DRIVER)
    for name, objs, m, calls, pats in stores:
        s.append(f'class X{name} : public STORE_T(X{name}, stored::{name}Base) {{\n\tSTORE_CLASS(X{name}, stored::{name}Base)\npublic:\n\tX{name}() is_default\n'
                 '\tchar const* raw() { return (char const*)buffer(); }\n'
                 '\tint typeAt(size_t k) { return (int)bufferToType(buffer() + k); }')
        cn = {o.name: o.cname for o in m}
        for i, o in enumerate(objs):
            c = cn[o.name]
            if not o.func:
                s.append(f'\tvoid __{c}__changed() {{ g_log += "c{i},"; }}')
            elif o.type in ('blob', 'string'):
                s.append(f'\tsize_t __{c}(bool set, {CTYPE[o.type]}* v, size_t n) {{ g_log += set ? "s{i}:" : "g{i}:"; '
                         'if(set) g_log += str(*(char*)v); else memset((void*)v, 0x33, n); g_log += "," + std::to_string(n) + ","; return n; }')
            else:
                t = CTYPE[o.type]
                s.append(f'\tvoid __{c}(bool set, {t}& v) {{ g_log += set ? "s{i}:" : "g{i}:"; if(set) g_log += str(v); else v = ({t})5; g_log += ","; }}')
        s.append('};')
        s.append(f'static void run_{name}()\n{{\n\tstatic X{name} s;\n\tprintf("store {name} %s %d %d %d %d %d\\n", s.hash(), (int)s.BufferSize, (int)s.ObjectCount, '
                 '(int)s.VariableCount, (int)s.FunctionCount, (int)((uintptr_t)s.raw() & 7));\n\tdump("init", s);')
        s.append('\ts.list([&](auto*, char const* name, stored::Type::type type, void* buffer, size_t len) { '
                 'printf("list "); hex(name, strlen(name)); printf(" %d %d %d\\n", (int)type, (int)len, stored::Type::isFunction(type) ? (int)(uintptr_t)buffer : (int)((char*)buffer - s.raw())); });')
        for i, o in enumerate(objs):
            k = 'blob' if o.type in ('blob', 'string') else 'fixed'
            p = ''.join(f'\\x{b:02x}""' for b in pats[i])
            path = ''.join(f'\\x{b:02x}""' for b in b'/' + o.name.encode())
            s.append(f'\tprintf("obj {i}\\n");\n\t{k}(s, s.{cn[o.name]}, "{path}", "{p}", {len(pats[i])});')
            if not o.func:
                s.append(f'\tprintf("type %d\\n", s.typeAt({[x.offset for x in m if x.name == o.name][0]}));')
        for c in calls:
            s.append(f'\tvariant("call", s.{c});')
        s.append('\tprintf("end\\n");\n}')
    s.append('int main()\n{')
    for name, *_ in stores:
        s.append(f'\trun_{name}();')
    s.append('\treturn 0;\n}')
    return '\n'.join(s) + '\n'


def compile_run(d, names, text, little):
    """Returns (ok, output)."""
    sys.path.insert(0, mc.VERIF)
    import build
    fl = 'asan' if little else 'be'
    flags = f'{build.BASE} {build.FLAVOURS[fl]} -O0 {build.INC} -I{d}/include'.split()
    with open(f'{d}/driver.cpp', 'w') as f:
        f.write(text)
    with open(f'{d}/all.cpp', 'w') as f:
        f.write(''.join(f'#include "src/{n}.cpp"\n' for n in names))
        f.write('#include "driver.cpp"\n')
    r = subprocess.run([build.CXX, *flags, '-I' + d, f'{d}/all.cpp', '-o', f'{d}/driver', f'{mc.BUILD}/{fl}/libstored.a', *build.LIBS.split()],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        e = [x for x in r.stdout.splitlines() if 'error' in x]
        return False, 'does not compile: ' + (e or [r.stdout[-500:]])[0][:300]
    r = subprocess.run([f'{d}/driver'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode:
        return False, f'driver fails with {r.returncode}: ' + r.stderr.decode(errors='replace')[:600].replace('\n', ' | ')
    return True, r.stdout.decode()


def pattern(o, i):
    """A value to be written to an object, as given to the accessor on this host, and the numerical value."""
    if o.type == 'bool':
        return b'\1'
    if o.type in ('float', 'double'):
        return enc(o.type, -(i + 1.5), True)
    if o.type == 'string':
        return bytes((0x41 + i + j) & 0x7f or 1 for j in range(o.size))
    n = o.size
    return bytes(((i + 1) * 17 + j * 3 + 1) & 0xff for j in range(n))


def scratch():
    base = os.path.join(mc.BUILD, 'tmp')
    os.makedirs(base, exist_ok=True)
    return tempfile.TemporaryDirectory(dir=base)


def run_generator(files, out, little=True, seed='0'):
    """Run the actual generator. Returns (exit code, output)."""
    code = ('import sys,types,runpy\n'
            'try:\n import libstored.version\n'
            'except ImportError:\n v=types.ModuleType("libstored.version"); v.__version__=v.libstored_version="1.8.1"; sys.modules["libstored.version"]=v\n'
            'runpy.run_module("libstored.generator", run_name="__main__", alter_sys=True)')
    env = dict(os.environ, PYTHONPATH=mc.REPO + '/python', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=seed)
    r = subprocess.run([sys.executable, '-c', code] + ([] if little else ['-b']) + files + [out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def check_stores(ex, specs, little, onerun=False, docs=False):
    """specs: list of (text, [Obj], [(call, index of object or None)])."""
    with scratch() as d:
        stores = []
        texts = []
        for k, (text, objs, calls) in enumerate(specs):
            name = f'S{k}'
            if onerun:
                if k == 0:
                    fns = []
                    for j, sp in enumerate(specs):
                        fns.append(f'{d}/S{j}.st')
                        with open(fns[-1], 'w', newline='') as f:
                            f.write(sp[0])
                    rc, out = run_generator(fns, d, little)
                    ex.check('accepted', rc == 0, lambda: f'rejected: {out}')
            else:
                try:
                    generate(text, name, d, little)
                except Rejected as e:
                    ex.fail('accepted', f'{text!r} is rejected: {e}')
            m = meta(d, name)
            ex.check('objects', sorted(o.name for o in m) == sorted(o.name for o in objs),
                     lambda: f'{text!r}: objects {[o.name for o in m]} instead of {[o.name for o in objs]}')
            stores.append((name, objs, m, [c for c, _ in calls], [pattern(o, i) for i, o in enumerate(objs)]))
            texts.append(text)
        ok, out = compile_run(d, [s[0] for s in stores], driver(stores), little)
        if not ok and len(specs) > 1 and not onerun:
            # Find the one to blame.
            for s in specs:
                check_stores(ex, [s], little, docs=docs)
            ex.fail('build', f'stores together: {out}')
        ex.check('build', ok, lambda: f'{out}: {texts[0]!r}')
        lines = iter(out.splitlines())
        for (name, objs, m, _, pats), (text, _, calls) in zip(stores, specs):
            lst = check_one(ex, lines, name, objs, pats, text, calls, little)
            if docs:
                check_docs(ex, d, name, text, m, objs, lst, little)
            ex.obs(text)


def check_one(ex, lines, name, objs, pats, text, calls, little):
    def chk(key, c, msg):
        ex.check(key, c, lambda: f'{text!r} ({"little" if little else "big"} endian): {msg}')

    nv = sum(not o.func for o in objs)
    h = hashlib.sha1(text.encode().replace(b'\r\n', b'\n')).hexdigest()
    w = next(lines).split()
    size = int(w[3])
    chk('counts', w[:3] == ['store', name, h] and list(map(int, w[4:])) == [len(objs), nv, len(objs) - nv, 0], f'got {w}, expected hash {h}')
    w = next(lines)
    assert w.startswith('init ')
    buf = bytes.fromhex(w[5:].split('|')[0])
    lst = {}
    n = 0
    l = next(lines)
    while l.startswith('list '):
        _, nm, t, ln, off = l.split()
        lst[bytes.fromhex(nm).decode()] = (int(t), int(ln), int(off))
        n += 1
        l = next(lines)
    chk('listed', n == len(objs) and sorted(lst) == sorted('/' + o.name for o in objs), f'listed {lst}')
    used = []
    ids = set()
    for o in objs:
        t, ln, off = lst['/' + o.name]
        chk('type', (t, ln) == (o.code(), o.size), f'{o.name} has type {t:#x} and size {ln}')
        if o.func:
            chk('funcid', off > 0 and off not in ids, f'function id {off} of {o.name}, others: {ids}')
            ids.add(off)
            continue
        chk('inside', 0 <= off and off + o.room() <= size, f'{o.name} at {off} in a buffer of {size}')
        if o.type not in ('blob', 'string'):
            chk('aligned', off % o.size == 0, f'{o.name} at {off}')
        used.append((off, off + max(1, o.room()), o.name))
        b = buf[off:off + o.room()]
        chk('initial', b == o.bytes(little), f'{o.name} is {b.hex()} initially instead of {o.bytes(little).hex()}')
    used.sort()
    for a, b in zip(used, used[1:]):
        chk('overlap', a[1] <= b[0], f'{a} and {b} overlap')
    cur = bytearray(buf)
    for i, o in enumerate(objs):
        chk('format', l == f'obj {i}', l)
        t, ln, off = lst['/' + o.name]
        e = f'{o.code()} {o.size} {"f" if o.func else off}'
        l = next(lines)
        chk('accessor', l == 'acc ' + e, f'accessor of {o.name}: {l} instead of {e}')
        l = next(lines)
        chk('find', l == 'find ' + e, f'find of {o.name}: {l} instead of {e}')
        if o.type not in ('blob', 'string'):
            l = next(lines)
            chk('free', l == f'free {off}', f'free variable/function of {o.name} gives {l} instead of {off}')
        # Initial value.
        l, log = next(lines)[4:].split('|')
        if not o.func:
            b = cur[off:off + o.size]
            if o.type in ('blob', 'string'):
                # get() returns the string up to the terminator only.
                chk('get', bytes.fromhex(l) == (bytes(b).split(b'\0')[0] if o.type == 'string' else b), f'{o.name} reads {l} instead of {b.hex()}')
            else:
                chk('get', bytes.fromhex(l) == (b if little else b[::-1]), f'{o.name} reads {l}, contents {b.hex()}')
            chk('calls', log == '', f'reading {o.name} calls {log}')
        elif o.type in ('blob', 'string'):
            chk('call', log == f'g{i}:,{o.size},', f'reading {o.name} calls {log}')
        else:
            five = enc(o.type, 1 if o.type == 'bool' else 5, True)
            chk('call', log == f'g{i}:,' and bytes.fromhex(l) == five, f'reading {o.name} calls {log} and returns {l}')
        # Write.
        l, log = next(lines)[4:].split('|')
        now = bytes.fromhex(l)
        if o.func:
            chk('undisturbed', now == cur, f'writing {o.name} changes the buffer')
            if o.type in ('blob', 'string'):
                chk('call', o.size == 0 or log == f's{i}:{pats[i][:1].hex()},{o.size},', f'writing {o.name} calls {log}')
            else:
                chk('call', log == f's{i}:{pats[i].hex()},', f'writing {o.name} calls {log}')
        else:
            v = pats[i] if little or o.type in ('blob', 'string') else pats[i][::-1]
            changed = cur[off:off + len(v)] != v
            cur[off:off + len(v)] = v
            if o.type == 'string':
                cur[off + len(v):off + o.room()] = bytes(o.room() - len(v))
            for j in range(size):
                if now[j] != cur[j]:
                    # Padding belongs to nobody, but there is no reason to write it.
                    chk('written' if off <= j < off + o.room() else 'undisturbed', False,
                        f'writing {pats[i].hex()} to {o.name} at {off} makes byte {j} {now[j]:02x} instead of {cur[j]:02x}')
            chk('changed', log == f'c{i},' if changed else log in ('', f'c{i},'), f'writing {o.name} calls {log}')
        l, log = next(lines)[4:].split('|')
        if not o.func:
            chk('get', bytes.fromhex(l) == pats[i], f'{o.name} reads {l} after writing {pats[i].hex()}')
            l = next(lines)
            # The type of a pointer is determined by the host.
            chk('buffertype', l == f'type {o.code()}', f'type of {o.name} by its buffer is {l}')
        l = next(lines)
    for c, j in calls:
        if j is None:
            e = 'invalid'
        else:
            t, ln, off = lst['/' + objs[j].name]
            e = f'{objs[j].code()} {objs[j].size} {"f" if objs[j].func else off}'
        chk('array', l == 'call ' + e, f'{c} gives {l} instead of {e} {objs[j].name if j is not None else ""}')
        l = next(lines)
    chk('format', l == 'end', l)
    ex.step(len(objs) * 5)
    ex.state((text, little))
    return lst


def same(a, b):
    return a == b and isinstance(a, str) == isinstance(b, str)


def check_docs(ex, d, name, text, m, objs, lst, little):
    """Compare the metadata with what has been observed in the C++ store."""
    def chk(key, c, msg):
        ex.check(key, c, lambda: f'{text!r}: {msg}')

    chk('meta-name', m.name == name, m.name)
    chk('meta-hash', m.hash == hashlib.sha1(text.encode().replace(b'\r\n', b'\n')).hexdigest(), m.hash)
    chk('meta-len', len(m) == len(objs) == len(list(m)) == len(m.objects), f'{len(m)} objects')
    chk('meta-kinds', sorted(o.name for o in m.functions) == sorted(o.name for o in objs if o.func)
        and sorted(o.name for o in m.variables) == sorted(o.name for o in objs if not o.func), 'functions and variables mixed up')
    with open(os.path.join(d, 'doc', name + '.csv'), newline='', encoding='utf-8') as f:
        rows = list(csv.reader(f))
    chk('csv-header', rows and rows[0] == ['Name', 'C', 'Type', 'Init', 'Offset / function', 'AXI', 'Size'], f'{rows[:1]}')
    rows = rows[1:]
    chk('csv-len', len(rows) == len(objs) and all(len(r) == 7 for r in rows), f'CSV has rows {rows}')
    byname = {r[0]: r for r in rows}
    axi = {}
    for o in objs:
        t, ln, off = lst['/' + o.name]
        x = m[o.name]
        chk('meta-attr', getattr(m, x.cname) == x or x.cname in ('name', 'hash', 'objects', 'functions', 'variables'), f'{x.cname}')
        chk('meta', (x.name, x.type, x.size, bool(x.isfunction)) == (o.name, o.type, o.size, o.func), f'{x} instead of {o.__dict__}')
        chk('meta-place', (x.f, x.offset) == ((off, None) if o.func else (None, off)), f'{x}, but it is at {off}')
        chk('meta-ctype', o.type == 'ptr32' or x.ctype == CTYPE[o.type], f'{x}')
        if o.func or o.init is None:
            chk('meta-init', x.init is None, f'{x}')
        elif o.type == 'string':
            chk('meta-init', x.init.encode() == o.init, f'{x} instead of {o.init}')
        else:
            chk('meta-init', enc(o.type, o.init, True) == enc(o.type, type(o.init)(x.init), True), f'{x} instead of {o.init}')
        if x.axi is not None:
            chk('axi', x.axi % 4 == 0 and x.axi not in axi and not o.func, f'{x}, others {axi}')
            axi[x.axi] = o.name
        r = byname.get(o.name)
        chk('csv-name', r is not None, f'{o.name} is not in the CSV, it has {sorted(byname)}')
        ty = o.type + (f':{o.size}' if o.type in ('blob', 'string') else '')
        if o.func:
            # There is no column Size for functions.
            chk('csv', [r[1], r[2], r[4]] == [x.cname, f'({ty})', str(off)] or [r[1], r[2], r[3]] == [x.cname, f'({ty})', str(off)], f'CSV has {r} for {x}')
        else:
            init = '0' if o.init is None else None
            if o.type == 'string' and o.init is not None:
                init = o.init.decode()
            if init is None:
                v = r[3]
                ok = (v == str(x.init)) or float(v) == float(o.init)
            else:
                ok = r[3] == init or (o.type == 'string' and o.init is None and r[3] == '')
            chk('csv', ok and [r[1], r[2], r[4], r[6]] == [x.cname, ty, str(off), str(o.size)]
                and r[5] == ('' if x.axi is None else str(x.axi)), f'CSV has {r} for {x}')


def outputs(d):
    res = {}
    for sub in ('include', 'src', 'doc', 'rtl'):
        for fn in sorted(os.listdir(os.path.join(d, sub))):
            if fn.endswith(('.spdx', '.tcl')) or 'SHA1SUM' in fn:
                continue  # Has a timestamp and paths.
            with open(os.path.join(d, sub, fn), 'rb') as f:
                res[sub + '/' + fn] = f.read()
    return res
