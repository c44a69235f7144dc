"""Enumeration of store descriptions."""

import itertools

from . import gen, mc

INF = float('inf')

# (text, type, size, initial value)
INITS = {
    'bool': [('true', True), ('false', None), ('1', True), ('0', None)],
    'int8': [('-128', -128), ('127', 127), ('0x7f', 127), ('0b101', 5), ('-1', -1), ('0', None)],
    'uint8': [('255', 255), ('0xFF', 255), ('0', None)],
    'int16': [('-32768', -32768), ('0x1234', 0x1234)],
    'uint16': [('65535', 65535), ('0xaBcD', 0xabcd)],
    'int32': [('-2147483648', -2147483648), ('0x12345678', 0x12345678), ('1e3', 1000)],
    'uint32': [('4294967295', 4294967295), ('0x89abcdef', 0x89abcdef)],
    'int64': [('-9223372036854775808', -9223372036854775808), ('9007199254740993', 9007199254740993)],
    'uint64': [('18446744073709551615', 18446744073709551615), ('0x8000000000000001', 0x8000000000000001)],
    'float': [('1.5', 1.5), ('-1e10', -1e10), ('0.1', 0.1), ('inf', INF), ('-Infinity', -INF), ('3', 3.0), ('0x10', 16.0)],
    'double': [('3.141592653589793', 3.141592653589793), ('-1e300', -1e300), ('.5', .5), ('-inf', -INF), ('-2', -2.0), ('true', 1.0)],
    'ptr64': [('0x123456789abcdef0', 0x123456789abcdef0), ('0xffffffffffffffff', 0xffffffffffffffff)],
}

STRINGS = [('"a"', b'a'), ('"abc"', b'abc'), ("'abcd'", b'abcd'), ('"a\\tb"', b'a\tb'), ('"\\x41\\""', b'A"'), ('""', None),
           ('"a,b"', b'a,b'), ('"\\\\"', b'\\'), ('"\'"', b"'"), ('"\u00e9"', '\u00e9'.encode()), ('"\u20ac"', '\u20ac'.encode()),
           ('"a\\0b"', b'a\0b'), ('"a\\nb"', b'a\nb'), ('"// c"', b'// c'), ("'\\''", b"'")]


def kinds(few=False):
    """(prefix text, function that makes the Obj)."""
    res = []

    def add(text, *a, **kw):
        res.append((text, lambda name: gen.Obj(name, *a, **kw)))
    for t, i in INITS.items():
        add(t, t, gen.SIZE[t])
        for text, v in i[:1] if few else i:
            add(f'{t}={text}', t, gen.SIZE[t], v)
    for n in (0, 1, 3, 4, 8) if few else (0, 1, 2, 3, 4, 5, 7, 8, 9, 17):
        add(f'blob:{n}', 'blob', n)
    for n in (0, 1, 3, 7, 8) if few else (0, 1, 2, 3, 4, 6, 7, 8, 9, 16):
        add(f'string:{n}', 'string', n)
    for text, b in STRINGS[:2] if few else STRINGS:
        n = len(b or b'')
        add(f'string:{n}={text}', 'string', n, b)
        if not few:
            add(f'string:{n + 5}={text}', 'string', n + 5, b)
    for t in ('bool', 'int16', 'double', 'ptr64') if few else INITS:
        add(f'({t})', t, gen.SIZE[t], func=True)
    for t, n in (('blob', 3), ('string', 2)):
        add(f'({t}:{n})', t, n, func=True)
    return res


def make(ks, names):
    return ''.join(f'{k[0]} {n}\n' for k, n in zip(ks, names)), [k[1](n) for k, n in zip(ks, names)], []


def batches(lst, n):
    return [lst[i:i + n] for i in range(0, len(lst), n)]


def singles(ex, ks, little):
    """All objects by themselves."""
    b = batches([make([k], ['a']) for k in ks], 24)
    gen.check_stores(ex, ex.pick(b), little)


PUNCT = [chr(c) for c in range(33, 127) if chr(c) != '/']

RESERVED = ['int', 'class', 'double', 'this', 'new', 'final', 'restrict', 'while', 'buffer', 'data', 'name', 'hash', 'find', 'list',
            'implementation', 'key', 'type', 'size', 'get', 'set', 'Implementation', 'Objects', 'Base', 'root', 'self', 'Data', 'Key',
            'ObjectCount', 'VariableCount', 'FunctionCount', 'BufferSize', 'm_data', 'callback', 'bufferToKey', 'bufferToType',
            'hookEntryX', 'hookExitX', 'hookEntryRO', 'hookExitRO', 'hookChanged', 'shortDirectory', 'longDirectory', 'stored', 'std',
            'main', 'Type', 'Variant', 'Variable', 'Function', 'variable', 'function', 'freeVariable', 'freeFunction',
            'len', 'f', 'set', 'value', 'T', 'F', 'offset', 'container', 'arg', 'directory', 'String', 'Config', 'impl']


def namesets():
    """Sets of names that should work in one store."""
    res = [['v ' + p for p in PUNCT], [p + 'v' for p in PUNCT], ['v' + p + 'w' for p in PUNCT], ['v' + p for p in PUNCT],
           [p + '/' + p for p in PUNCT], [p for p in PUNCT],
           ['a b', 'a  c', 'a.b', 'a/b', 'a_b', 'a-b', 'a b/c', 'a__b', 'a/b/c', 'A b', 'a / b'],
           ['x', 's/x', 's/s/x', 's/s', 's', 'x/s', 'x/x'],
           ['a', 'a_2', 'a!', 'a!!', 'a_2!', '_a', '__a', 'a__', 'a_changed', '1', '2', '11', '1a', '_', '__', '_2', 'obj', '-obj'],
           ["it's", 'quo"te', 'back\\slash', 'end\\', 'com*/ment', 'sl\\n', '{{ a }}', '{% if %}', '%s', '$x', '?\\?=', '#if', 'a,b', '<b>&amp;']]
    res += [[r] for r in RESERVED]
    return res


def clean(names):
    out = []
    for n in names:
        n = ' '.join(n.split())
        if n not in out and '//' not in n and '/ ' not in n and n[0] != '/':
            out.append(n)
    return out


# Names that start a comment, or that are not a single name in the grammar.
def names_spec(names, func):
    names = clean(names)
    if func:
        # The callback is __N(), which may be a macro in glibc.
        names = [n for n in names if n not in ('N', 'P')]
        text = ''.join(f'(int16) {n}\n' for n in names)
        return text, [gen.Obj(n, 'int16', 2, func=True) for n in names], []
    text = ''.join(f'int16 {n}\n' for n in names)
    return text, [gen.Obj(n, 'int16', 2) for n in names], []


def arrays():
    """(text, objs, calls)."""
    res = []

    def add(text, names, calls, t='int8', sz=1):
        objs = [gen.Obj(n, t, sz) for n in names]
        res.append((text, objs, [(c, None if n is None else names.index(n)) for c, n in calls]))
    for n in (2, 3, 5):
        nm = [f'a[{i}]' for i in range(n)]
        add(f'int8[{n}] a\n', nm, [(f'a_a({i})', f'a[{i}]' if 0 <= i < n else None) for i in range(-1, n + 2)])
    add('int8[1] a\n', ['a'], [])
    add('int8[0] a\n', ['a'], [])
    for n in (2, 3):
        for m in (2, 3):
            nm = [f's[{i}]/a[{j}]' for i in range(n) for j in range(m)]
            add(f'{{\n\tint8[{m}] a\n}}[{n}] s\n', nm,
                [(f's_a__a_b({i}, {j})', f's[{i}]/a[{j}]' if 0 <= i < n and 0 <= j < m else None) for i in range(-1, n + 1) for j in range(-1, m + 1)])
    nm = ['s[0]/a', 's[0]/b', 's[1]/a', 's[1]/b']
    add('{\n\tint8 a\n\tint8 b\n}[2] s\n', nm, [(f's_a__{x}({i})', f's[{i}]/{x}' if i in (0, 1) else None) for x in 'ab' for i in (-1, 0, 1, 2)])
    nm = ['a[3]']
    add('int8 a[3]\n', nm, [(f'a_a({i})', 'a[3]' if i == 3 else None) for i in range(5)])
    nm = ['a[1]', 'a[4]']
    add('int8 a[1]\nint8 a[4]\n', nm, [(f'a_a({i})', f'a[{i}]' if i in (1, 4) else None) for i in range(6)])
    nm = ['a[0]/b[0]', 'a[0]/b[1]', 'a[1]/b[5]']
    add(''.join(f'int8 {n}\n' for n in nm), nm, [(f'a_a__b_b({i}, {j})', f'a[{i}]/b[{j}]' if (i, j) in ((0, 0), (0, 1), (1, 5)) else None)
                                                 for i in range(3) for j in range(6)])
    nm = ['a[0]b', 'a[0]b[1]', 'a[1]b', 'a[1]b[1]']
    add(''.join(f'int8 {n}\n' for n in nm), nm, [])
    nm = ['a[00]', 'a[08]', 'a[1]']
    add(''.join(f'int8 {n}\n' for n in nm), nm, [('a_a(8)', 'a[08]'), ('a_a(0)', 'a[00]'), ('a_a(1)', 'a[1]'), ('a_a(2)', None)])
    nm = ['a[0]/x', 'a[1]/y', 'a[0]', 'a[2]']
    add(''.join(f'int8 {n}\n' for n in nm), nm, [])
    nm = ['a/b[0]/c/d[0]/e', 'a/b[0]/c/d[1]/e', 'a/b[1]/c/d[0]/e', 'a/b[1]/c/d[1]/e']
    add('{\n{\n{\n{\nint8 e\n}[2] d\n} c\n}[2] b\n} a\n', nm,
        [(f'a__b_a__c__d_b__e({i}, {j})', f'a/b[{i}]/c/d[{j}]/e' if i in (0, 1) and j in (0, 1) else None) for i in range(3) for j in range(3)])
    for t, sz in (('double', 8), ('string', 5), ('blob', 3)):
        tt = t if t == 'double' else f'{t}:{sz}'
        nm = [f'a[{i}]' for i in range(3)] + ['b']
        add(f'{tt}[3] a\n{tt} b\n', nm, [(f'a_a({i})', f'a[{i}]' if i < 3 else None) for i in range(4)], t, sz)
    text = '(int16)[2] a\n(string:4) b\n'
    objs = [gen.Obj('a[0]', 'int16', 2, func=True), gen.Obj('a[1]', 'int16', 2, func=True), gen.Obj('b', 'string', 4, func=True)]
    res.append((text, objs, []))
    # Initial values of arrays.
    res.append(('int16[3]=7 a\nstring:3[2]="xy" b\n', [gen.Obj(f'a[{i}]', 'int16', 2, 7) for i in range(3)] + [gen.Obj(f'b[{i}]', 'string', 3, b'xy') for i in range(2)], []))
    # Comments and white space.
    res.append(('// comment\nint8  a\n\n\t// other\n  int16=3\tb  // c\n{int8 c\n} d\n{\n// x\n int8 y // z\n}\tf\n',
                [gen.Obj('a', 'int8', 1), gen.Obj('b', 'int16', 2, 3), gen.Obj('d/c', 'int8', 1), gen.Obj('f/y', 'int8', 1)], []))
    # Sizes that need more bytes for offset and size.
    for n in (127, 128, 16383, 16384, 70000):
        res.append((f'blob:{n} a\nint8=1 b\nint16 c\n', [gen.Obj('a', 'blob', n), gen.Obj('b', 'int8', 1, 1), gen.Obj('c', 'int16', 2)], []))
    for n in (254, 255, 256, 257):
        res.append((f'(int8)[{n}] f\n', [gen.Obj(f'f[{i}]', 'int8', 1, func=True) for i in range(n)], []))
        res.append((f'int8[{n}] v\n', [gen.Obj(f'v[{i}]', 'int8', 1) for i in range(n)], []))
    res.append((f'(int8)[300] f\nint8[300] v\n', [gen.Obj(f'f[{i}]', 'int8', 1, func=True) for i in range(300)] + [gen.Obj(f'v[{i}]', 'int8', 1) for i in range(300)], []))
    return res


def setup_cpp(thorough):
    endian = ((True, 'le'), (False, 'be'))
    full, few = kinds(), kinds(True)
    for little, e in endian:
        b1 = batches([make([k], ['a']) for k in full], 24)
        mc.add(f'single-{e}', f'stores with one object: {len(full)} kinds', min(8, len(b1)),
               lambda ex, b=b1, l=little: gen.check_stores(ex, b[ex.shard_choose(len(b))], l))
        pairs = [make([a, b], ['a', 'b']) for a, b in itertools.combinations_with_replacement(few, 2)]
        b2 = batches(pairs, 64)
        mc.add(f'pairs-{e}', f'stores with all pairs of {len(few)} kinds of objects ({len(pairs)} stores)', min(8, len(b2)),
               lambda ex, b=b2, l=little: gen.check_stores(ex, b[ex.shard_choose(len(b))], l))
        b3 = batches(arrays(), 8)
        mc.add(f'arrays-{e}', 'arrays, array accessors, scopes and large stores', len(b3),
               lambda ex, b=b3, l=little: gen.check_stores(ex, b[ex.shard_choose(len(b))], l))
    fs = [(f'(int8)[{n}] f\nint8 v\n', [gen.Obj(f'f[{i}]', 'int8', 1, func=True) for i in range(n)] + [gen.Obj('v', 'int8', 1)], []) for n in (200, 2, 100, 3)]
    mc.add('onerun', 'several stores in one run of the generator', 2,
           lambda ex: gen.check_stores(ex, [fs, b4[0] + b4[1]][ex.shard_choose(2)], True, onerun=True))
    ns = [names_spec(n, f) for n in namesets() for f in (False, True)]
    b4 = batches(ns, 8)
    mc.add('names', 'names with all printable characters, reserved words and colliding C names', 8,
           lambda ex: gen.check_stores(ex, b4[ex.shard_choose(len(b4))], True))
    pf = [make([a, b], ['a', 'b']) for a in full for b in full]
    b5 = batches(pf, 96)
    mc.add('allpairs', f'stores with all ordered pairs of {len(full)} kinds of objects', 32,
           lambda ex: gen.check_stores(ex, b5[ex.shard_choose(len(b5))], True), False)
    tr = [make(t, ['a', 'b', 'c']) for t in itertools.combinations_with_replacement(few, 3)]
    b6 = batches(tr, 96)
    mc.add('triples', f'stores with all triples of {len(few)} kinds of objects', 32,
           lambda ex: gen.check_stores(ex, b6[ex.shard_choose(len(b6))], False), False)


LIMITS = {'bool': None, 'int8': (-2**7, 2**7 - 1), 'uint8': (0, 2**8 - 1), 'int16': (-2**15, 2**15 - 1), 'uint16': (0, 2**16 - 1),
          'int32': (-2**31, 2**31 - 1), 'uint32': (0, 2**32 - 1), 'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1), 'ptr64': (0, 2**64 - 1)}


def invalid():
    res = []
    for t, lim in LIMITS.items():
        if lim:
            res += [f'{t}={lim[0] - 1} a\n', f'{t}={lim[1] + 1} a\n', f'{t}=nan a\n', f'{t}=inf a\n', f'{t}=-inf a\n', f'{t}=1e30 a\n',
                    f'{t}[2]={lim[1] + 1} a\n', f'int8 b\n{t}={lim[0] - 1} a\nint8 c\n']
        res += [f'{t}="1" a\n', f'{t}= a\n', f'({t})=1 a\n', f'{t}:4 a\n', f'{t}[a] a\n', f'{t}\n', f'{t}a\n']
    res += ['float=1e39 a\n', 'float="x" a\n', 'string:2="abc" a\n', 'string:2="\u20ac" a\n', 'string="a" a\n', 'string a\n', 'blob a\n', 'blob:3="abc" a\n',
            'string:3=3 a\n', 'int7 a\n', 'long a\n', 'int8 a/\n', 'int8 /a\n', '{\nint8 a\n}\n', '{\nint8 a\n b\n', 'int8 a\n} b\n',
            '(int8 a\n', 'int8) a\n', 'int8 \u00e9\n', '{\nint8 /a\n} b\n']
    # Ambiguous names.
    same = [['int8 a'], ['int16 a'], ['(int8) a'], ['string:3 a'], ['blob:3 a']]
    for x in same:
        for y in same:
            res.append('\n'.join(x + y) + '\n')
    res += ['int8[2] a\nint8 a[0]\n', 'int8 a[1]\nint8[2] a\n', '{\nint8 b\n} a\nint8 a/b\n', 'int8 a  b\nint8 a b\n', 'int8 a\tb\nint8 a b\n',
            '{\nint8 b\n} a\n{\nint16 b\n} a\n', '{\nint8 b\n}[2] a\nint8 a[1]/b\n', '{\nint8[2] b\n} a\nint8 a/b[1]\n', 'int8 x\nint8 y\nint8 z\nint8 x\n',
            '{\n{\nint8 c\n} b\n} a\n{\nint8 b/c\n} a\n', '{\n(int8) b\n}[3] a\n(int8) a[2]/b\n', '(int8)[2] a\nint8 a[1]\n']
    return [r for r in res if '\t' not in r]


def reject_body(ex):
    lst = invalid()
    b = batches(lst, 16)
    b = b[ex.shard_choose(len(b))]
    text = ex.pick(b)
    with gen.scratch() as d:
        try:
            gen.generate(text, 'S0', d)
        except gen.Rejected as e:
            ex.trace(f'{text!r}: {e}')
            ex.obs(str(e))
        else:
            ex.fail('rejected', f'{text!r} is accepted, and gives {list(gen.meta(d, "S0"))}')


def files_body(ex):
    """The complete generator: exit codes and reproducible output."""
    k = ex.shard_choose(4)
    import os
    with gen.scratch() as d:
        def put(name, text):
            fn = f'{d}/{name}.st'
            with open(fn, 'w') as f:
                f.write(text)
            return fn
        if k == 0:
            bad = ['int8 a\nint8 a\n', 'int8=200 a\n', 'string:1="ab" a\n', 'int7 a\n']
            t = ex.pick(bad)
            rc, out = gen.run_generator([put('A', t)], d + '/out')
            ex.check('exit', rc != 0, lambda: f'{t!r} does not let the generator fail')
            if ex.choose(2):
                rc, out = gen.run_generator([put('B', 'int8 a\n'), d + '/A.st'], d + '/out2')
                ex.check('exit', rc != 0, lambda: f'{t!r} as second file does not let the generator fail')
        elif k == 1:
            # Class names should be different.
            a, b = ex.pick([('a-b', 'a_b'), ('ab', 'Ab'), ('a b', 'a-b'), ('a_b', 'AB'), ('Ab_', 'ab'), ('_ab', 'ab')])
            rc, out = gen.run_generator([put(a, 'int8 a\n'), put(b, 'int8 b\n')], d + '/out')
            ex.check('classes', rc != 0, lambda: f'{a}.st and {b}.st are accepted together')
        elif k == 2:
            # Generating it twice.
            specs = [arrays(), [names_spec(n, f) for n in namesets()[:9] for f in (False, True)]][ex.choose(2)]
            specs = ex.pick(batches([s[0] for s in specs], 6))
            little = not ex.choose(2)
            fns = [put(f'S{i}', t) for i, t in enumerate(specs)]
            rc1, o1 = gen.run_generator(fns, d + '/o1', little, '1')
            rc2, o2 = gen.run_generator(fns, d + '/o2', little, '4711')
            ex.check('accepted', rc1 == 0 and rc2 == 0, lambda: f'{specs}: {o1}')
            a, b = gen.outputs(d + '/o1'), gen.outputs(d + '/o2')
            ex.check('reproducible', a == b, lambda: f'{specs} generated twice: differs in {[f for f in a if a[f] != b.get(f)]}')
            ex.obs(sorted(a.items()))
        else:
            # In one run, or by itself.
            a, b = 'int8=1 a\n(int16) f\n', 'int8=1 b\nint16 s/b\n(int16) g\n(bool) h\n'
            order = ex.choose(2)
            fns = [put('A', a), put('B', b)]
            rc, _ = gen.run_generator(fns[::-1] if order else fns, d + '/o1')
            rc1, _ = gen.run_generator([fns[0]], d + '/o2')
            rc2, _ = gen.run_generator([fns[1]], d + '/o2')
            ex.check('accepted', rc == rc1 == rc2 == 0, 'not generated')
            a, b = gen.outputs(d + '/o1'), gen.outputs(d + '/o2')
            diff = [f for f in a if a[f] != b.get(f)]
            ex.check('independent', not diff, lambda: f'{diff} depends on the other stores in the same run')
            ex.obs(sorted(a.items()))
        ex.step()


def setup_meta(thorough):
    full, few = kinds(), kinds(True)
    one = [make([k], ['a']) for k in full]
    b1 = batches(one, 24)
    two = [make([a, b], ['a', 'x/b, "c']) for a in few for b in few]
    b2 = batches(two, 96)
    b3 = batches(arrays(), 8)
    b4 = batches([names_spec(n, f) for n in namesets() for f in (False, True)], 20)
    mc.add('singles', f'metadata of stores with one object: {len(full)} kinds', len(b1),
           lambda ex: gen.check_stores(ex, b1[ex.shard_choose(len(b1))], True, docs=True))
    mc.add('pairs', f'metadata of stores with all pairs of {len(few)} kinds of objects', 16,
           lambda ex: gen.check_stores(ex, b2[ex.shard_choose(len(b2))], bool(ex.choose(2)) if thorough else True, docs=True))
    mc.add('arrays', 'metadata of arrays, scopes, large stores', len(b3),
           lambda ex: gen.check_stores(ex, b3[ex.shard_choose(len(b3))], False, docs=True))
    mc.add('names', 'metadata of names with all printable characters, reserved words and colliding C names', len(b4),
           lambda ex: gen.check_stores(ex, b4[ex.shard_choose(len(b4))], True, docs=True))
    mc.add('reject', f'{len(invalid())} invalid descriptions', 8, reject_body)
    mc.add('files', 'complete runs of the generator', 4, files_body)
    pf = [make([a, b], ['a', 'b']) for a in full for b in full]
    b5 = batches(pf, 96)
    mc.add('allpairs', f'metadata of all ordered pairs of {len(full)} kinds of objects', 32,
           lambda ex: gen.check_stores(ex, b5[ex.shard_choose(len(b5))], True, docs=True), False)
