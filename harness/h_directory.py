# Names resolve to the right object, for all sets of names up to some size.
# mc: property=P10 needs=x_dir.asan
import itertools
import os
import struct
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import mc, gen  # noqa: E402

proc = None


def ask(dirbytes, queries, prefix=None):
    """Returns (listing, results)."""
    global proc
    if not proc:
        proc = subprocess.Popen([os.path.join(mc.BUILD, 'bin', 'x_dir.asan')], stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE)
    m = [struct.pack('<I', len(dirbytes)), bytes(dirbytes)]
    if prefix is not None:
        m += [struct.pack('<I', len(prefix) | 0x80000000), prefix]
    m.append(struct.pack('<I', len(queries)))
    for q, term in queries:
        m += [struct.pack('<IB', len(q), term), q]
    try:
        proc.stdin.write(b''.join(m))
        proc.stdin.flush()
    except OSError:
        pass
    h = proc.stdout.read(4)
    if len(h) != 4:
        rc = proc.wait()
        proc = None
        raise RuntimeError(f'lookup crashed with {rc} on {bytes(dirbytes)} with {[q for q, _ in queries]}')
    b = proc.stdout.read(struct.unpack('<I', h)[0])
    i = 0
    lst = []
    if prefix is not None:
        while b[i]:
            t, s, o, n = struct.unpack_from('<BIII', b, i + 1)
            i += 14
            lst.append((b[i:i + n], t, s, o))
            i += n
        i += 1
    res = []
    for _ in queries:
        if b[i]:
            res.append(struct.unpack_from('<BII', b, i + 1))
            i += 10
        else:
            res.append(None)
            i += 1
    assert i == len(b)
    return lst, res


ANY, NONE = 'any', 'none'


class Tree:
    """The oracle: the scopes with their names."""

    def __init__(self, names):
        self.names = {n: i for i, n in enumerate(names)}
        self.kids = {}
        self.below = {}
        for n in names:
            seg = n.split('/')
            for j in range(len(seg)):
                p = tuple(seg[:j])
                self.kids.setdefault(p, set()).add(seg[j])
                self.below[p] = self.below.get(p, 0) + 1

    def find(self, q):
        """Which object should be found for the given name, without the leading slash."""
        at = ()
        segs = q.split('/')
        for j, s in enumerate(segs):
            kids = self.kids.get(at)
            if kids is None:
                return ANY  # Something below an object; not specified.
            if s in kids:
                pass
            else:
                c = [k for k in kids if k.startswith(s)]
                if not c:
                    return ANY  # Another name, only some of its characters are looked at.
                if len(c) > 1:
                    return NONE
                s = c[0]
                if segs[j] == '':
                    return ANY
                if '/'.join(at + (s,)) in self.names and at + (s,) in self.kids:
                    return ANY  # Object or scope?
            at += (s,)
        n = '/'.join(at)
        if n in self.names:
            return self.names[n]
        return NONE if self.below[at] > 1 else ANY


def abbreviations(n, cap=60):
    segs = n.split('/')
    if all(len(s) <= 5 for s in segs):
        opts = [[s[:k] for k in range(len(s) + 1)] for s in segs]
    else:
        opts = [sorted({s[:k] for k in (0, 1, 2, len(s) // 2, len(s) - 1, len(s))}) for s in segs]
    for i, x in enumerate(itertools.product(*opts)):
        if i >= cap:
            return
        yield '/'.join(x)


WEIRD = [b'', b'/', b'//', b'a', b'ab', b'/a', b'/b', b'/ab', b'/a/', b'/a/b', b'/a//b', b'///', b'/\xff', b'/a\x80', b'/\x01',
         b'/~', b'/a~', b'/-', b'/a-', b'/zz/zz', b'/aaaaaaaaaaaaaaaaaaaa', b'\x00', b'/a\x00b', b'/ ', b'/a ', b'x/a', b'/.', b'/a.']


def check(ex, objs, weird=True):
    names = [o.name for o in objs]
    gen.reset()
    st = gen.types.Store(objs)
    st.littleEndian = True
    st.process()
    want = []
    for o in st.objects:
        f = isinstance(o, gen.types.Function)
        want.append((gen.TYPECODE[o.type] | (0x40 if f else 0), o.size, o.f if f else o.offset))
    ex.check('unique', len(set(w[2] for w in want if not w[0] & 0x40)) == sum(not w[0] & 0x40 for w in want),
             lambda: f'{names}: objects share their place: {want}')
    tree = Tree(names)
    queries, exp = [], []
    seen = set()
    for n in names:
        for q in abbreviations(n):
            if q in seen:
                continue
            seen.add(q)
            queries.append((b'/' + q.encode(), 1))
            exp.append(tree.find(q))
    # Up to a maximum length within a longer string; the buffer ends there.
    for n in names:
        queries.append((b'/' + n.encode(), 0))
        exp.append(tree.find(n))
        for k in (1, 2, 3):
            q = (b'/' + n.encode())[:-k]
            if len(q) > 1:
                queries.append((q, 0))
                exp.append(tree.find(q[1:].decode()))
    if weird:
        for w in WEIRD:
            queries.append((w, 1))
            exp.append(ANY)
            queries.append((w, 0))
            exp.append(ANY)
    _, res = ask(bytearray(st.directory.data), queries)
    ex.step(len(queries))
    for (q, term), e, r in zip(queries, exp, res):
        if e == ANY:
            ex.check('garbage', r is None or r in want, lambda: f'{names}: {q} gives {r}, which is no object at all')
        elif e == NONE:
            ex.check('ambiguous', r is None, lambda: f'{names}: ambiguous {q} finds {names[want.index(r)] if r in want else r}')
        else:
            ex.check('found', r == want[e], lambda: f'{names}: {q} ({"0-terminated" if term else "bounded"}) gives '
                     f'{names[want.index(r)] if r in want else r} instead of {names[e]}')
    # The other one has full names. Listing is done via that one.
    queries = [(b'/' + n.encode(), term) for n in names for term in (0, 1)]
    if weird:
        queries += [(w, term) for w in WEIRD for term in (0, 1)]
    for prefix in (b'', b'/Store'):
        lst, res = ask(bytearray(st.directory.longdata), queries, prefix)
        wl = sorted((prefix + b'/' + n.encode(), *w) for n, w in zip(names, want))
        ex.check('list', sorted(lst) == wl, lambda: f'{names}: listed {sorted(lst)} instead of {wl}')
    for i in range(2 * len(names)):
        ex.check('found-long', res[i] == want[i // 2],
                 lambda: f'{names}: {queries[i]} in the long directory gives {res[i]} instead of {want[i // 2]}')
    for r in res:
        ex.check('garbage-long', r is None or r in want, lambda: f'{names}: unexpected {r}')
    ex.obs(bytes(st.directory.data))
    ex.state(bytes(st.directory.data))


def valid(n):
    return n and n[0] not in '/ ' and n[-1] not in '/ ' and '//' not in n and '/ ' not in n and '  ' not in n


def universe(alphabet, length):
    return [''.join(x) for k in range(1, length + 1) for x in itertools.product(alphabet, repeat=k) if valid(''.join(x))]


def sets(alphabet, length, count):
    u = universe(alphabet, length)

    def body(ex):
        # All subsets of count names. The remaining one are chosen in increasing order.
        a = ex.shard_choose(len(u))
        ns = [u[a]]
        for k in range(1, count):
            rest = len(u) - a - 1
            if rest == 0:
                ex.prune()
            a += 1 + ex.choose(rest)
            ns.append(u[a])
        ex.trace(' '.join(ns))
        check(ex, [gen.variable(n) for n in ns], weird=count < 3)
    return len(u), body


def types_body(ex):
    # Types, sizes and offsets in the directory.
    ts = [(t, None) for t in gen.SIZE] + [('blob', s) for s in (0, 1, 127, 128, 255, 16383, 16384, 70000)] + [('string', s) for s in (0, 1, 126, 127, 128)]
    objs = []
    i = ex.shard_choose(len(ts))
    for k, n in enumerate(('ab', 'ac', 'b/c')[:3]):
        if k:
            i = ex.choose(len(ts))
        if ex.choose(2):
            objs.append(gen.function(n, ts[i][0], size=ts[i][1]))
        else:
            objs.append(gen.variable(n, ts[i][0], size=ts[i][1]))
    ex.trace(' '.join(f'{o.type}:{o.size}' for o in objs))
    check(ex, objs, weird=False)


def large_body(ex):
    # Long names, many objects: long jumps in the tree and long skips.
    kind = ex.shard_choose(6)
    n = ex.pick([1, 2, 3, 30, 31, 32, 33, 62, 63, 64, 126, 127, 128, 129, 130, 255, 256, 257, 600])
    if kind == 0:
        names = ['a' + 'x' * n + 'b', 'a' + 'x' * n + 'c', 'b']
    elif kind == 1:
        names = ['a' + 'x' * n, 'b' + 'x' * n, 'b' + 'x' * n + '/y' * min(n, 100), 'c']
    elif kind == 2:
        names = [f'a[{i}]' for i in range(n)]
    elif kind == 3:
        names = [f'{chr(33 + i % 14)}{"b" * (i // 14)}' for i in range(n)]
    elif kind == 4:
        names = [f'{i % 7}/{i}/x' for i in range(n)]
    else:
        names = ['a' + 'x' * i for i in range(min(n, 150))]
    if ex.choose(2):
        names = names[::-1]
    ex.trace(f'{kind} {n}')
    check(ex, [gen.variable(x, 'int32') if i % 3 else gen.function(x) for i, x in enumerate(names)])


def setup(thorough):
    for nm, alphabet, length, count, quick in (
            ('pairs', "ab/", 5, 2, True),
            ('pairsspecial', "a -.0~/", 4, 2, True),
            ('triples', "ab/", 4, 3, True),
            ('triplesspecial', "a-~/", 3, 3, True),
            ('quads', "ab/", 3, 4, True),
            ('triplesabc', "abc/", 4, 3, False),
            ('triples5', "ab/", 5, 3, False),
            ('quads4', "ab/", 4, 4, False),
            ('quadsspecial', "a-0/", 3, 4, False),
            ('fives', "ab/", 3, 5, False)):
        n, body = sets(alphabet, length, count)
        mc.add(nm, f'all sets of {count} of the {n} names up to {length} characters of "{alphabet}", with all abbreviations', 8 if quick else 32, body, quick)
    mc.add('types', 'three objects of all types, as variable or function', 8, types_body)
    mc.add('large', 'long names and many objects', 6, large_body)


sys.exit(mc.main(setup))
