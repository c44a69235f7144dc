# The Python client (ZmqClient and its objects, macros, traces and streams) against the real debugger.
# mc: property=P31 needs=x_target.asan,x_target.plain,x_target.dbg
import itertools
import os
import re
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import mc  # noqa: E402
from common.client import Clock, Object, Target, Timer, client, value, zmq_client  # noqa: E402

FMT = {Object.Int8: '<b', Object.Uint8: '<B', Object.Int16: '<h', Object.Uint16: '<H', Object.Int32: '<i',
       Object.Uint32: '<I', Object.Int64: '<q', Object.Uint64: '<Q', Object.Float: '<f', Object.Double: '<d',
       Object.Bool: '<?', Object.Pointer32: '<I', Object.Pointer64: '<Q'}
NAMES = ['/t (us)', '/a', '/ab', '/s', '/x', '/long name', '/u32', '/fn']


def raws(o):
    """Contents to try."""
    n = o.size
    t = o.type & ~Object.FlagFunction
    if t == Object.Bool:
        return [b'\0', b'\1']
    if t == Object.String:
        return [s + b'\0' * (n - len(s)) for s in (b'', b'a', b'ab cd', b'\x7f\x01', b'0', b'\xc3\xa9', b'/?;\n\r')]
    if t == Object.Blob:
        return [bytes(w) for w in itertools.product([0, 1, 0x7f, 0x80, 0xff], repeat=n)]
    if t == Object.Float:
        return [struct.pack('<f', x) for x in (0., -0., 1., -1.5, 1e-45, 1.1754944e-38, 3.4028235e38, float('inf'), -float('inf'), float('nan'), 0.1)]
    if t == Object.Double:
        return [struct.pack('<d', x) for x in (0., -0., 1., -1.5, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, float('inf'), -float('inf'), float('nan'), 0.1)]
    r = {0, 1, (1 << 8 * n) - 1}
    for k in range(8 * n):
        r |= {1 << k, (1 << k) - 1, (1 << 8 * n) - (1 << k)}
    r |= {0x1234567890abcdef & ((1 << 8 * n) - 1), 0xfedcba0987654321 & ((1 << 8 * n) - 1), 10, 16, 100, 0xa, 0xf0 & ((1 << 8 * n) - 1)}
    if n == 1:
        r = set(range(256))
    return [(x % (1 << 8 * n)).to_bytes(n, 'little') for x in sorted(r)]


def same(a, b):
    return a == b or (a != a and b != b)


shared = {}


def values(ex, without):
    """Every value of every type, in both directions."""
    key = without
    if key not in shared:
        t = Target('plain')
        t.cmd('n')
        shared[key] = (t, client(t, without))
        shared[key][1].list()
    t, c = shared[key]
    o = c.list()[ex.shard_choose(len(c.list()))]
    allraw = raws(o)
    raw = allraw[ex.choose(len(allraw))]
    other = ex.pick([allraw[0], allraw[-1]])
    # Make sure that the result does not depend on what happened before.
    t.set(o.name, other)
    o.read()
    before = t.dump()
    me = [x.name for x in c.list()].index(o.name)
    how = ex.choose(8)
    tt = o.type & ~Object.FlagFunction
    v = value(o, raw)
    ex.trace(f'{o.name} {o.typeName} {raw.hex()} = {v!r} way {how}')
    Clock.now += 1
    if how == 0:
        t.set(o.name, raw)
        got = o.read()
        ex.check('read', same(got, v) and same(o.value, v), lambda: f'{o.typeName} {raw.hex()} read as {got!r}, {o.value!r} instead of {v!r}')
        return
    ok = True
    if how == 1:
        ok = o.write(v)
    elif how == 2:
        o.value = v
    elif how == 3:
        o.asyncWrite(v)
    elif how == 7:
        o.set(v)
        if v == 0 and str(v) == '-0.0':
            return
        ok = o.write()
    else:
        # Through a string.
        if v == 0 and str(v) == '-0.0':
            return  # Equal to 0, so the local value may not be updated.
        if how == 4:
            if tt not in FMT or tt in (Object.Float, Object.Double, Object.Bool):
                return
            fmt = ex.pick(['hex', 'bin'])
            o.format = fmt
            o.set(v)
            s = o.valueString
            o.format = 'default'
            if tt in (Object.Pointer32, Object.Pointer64) and s == '?':
                return
        elif how == 5:
            if tt == Object.Blob:
                return
            o.set(v)
            s = o.valueString
            if tt == Object.Float:
                if v != v or abs(v) in (float('inf'), 0.1) or (v and not 1e-4 < abs(v) < 1e6):
                    return
            if tt == Object.Double:
                if v != v or abs(v) == float('inf') or (v and not 1e-4 < abs(v) < 1e15):
                    return
        else:
            o.format = 'bytes'
            o.set(v)
            s = o.valueString
            o.format = 'default'
            # As stored, most significant first.
            want = raw if tt in (Object.Blob, Object.String) else raw[::-1]
            if tt == Object.String:
                return
            ex.check('bytes', s.replace(' ', '') == want.hex(), lambda: f'{o.typeName} {raw.hex()} formatted as {s!r}')
            return
        Clock.now += 1
        o.valueString = s
    now = t.get(o.name)
    ex.check('written', ok is not False and (now == raw or tnan(o, now, raw)), lambda: f'{o.typeName} {v!r}: {ok} and the target has {now.hex()}, not {raw.hex()}')
    after = t.dump()
    ex.check('only', all(a == b for i, (a, b) in enumerate(zip(after, before)) if i != me),
             lambda: f'writing {o.name} changed {before} to {after}')
    # The hex format of a negative value is a positive one, until it is read back.
    ex.check('local', same(o.value, v) or (tt == Object.Float and struct.pack('<f', o.value) == raw) or (how == 4 and v < 0 and o.value == v + (1 << 8 * o.size)), lambda: f'{o.typeName}: {o.value!r} after writing {v!r}')
    got = o.read()
    ex.check('read-back', same(got, v), lambda: f'{o.typeName}: wrote {v!r}, read {got!r}')
    ex.state((o.name, raw))
    ex.obs((o.name, raw, how))


def tnan(o, a, b):
    return o.type & ~Object.FlagFunction in (Object.Float, Object.Double) and value(o, a) != value(o, a) and value(o, b) != value(o, b)


class World:
    """A client and a target, and what should hold."""

    def __init__(self, ex, flavour, without, loop=False, names=NAMES):
        self.ex = ex
        self.t = Target.fresh(flavour)
        self.flavour = flavour
        self.c = client(self.t, without, loop, names)
        self.n = 0
        self.count = 0
        self.decimate = 1
        self.samples = []
        self.got = []
        self.names = [o.name for o in self.c.list()]
        self.mine = {}  # permanent aliases
        for o in self.c.list():
            self.wrap(o)

    def wrap(self, o):
        org = o.decodeReadRep

        def f(rep, t=None):
            v = org(rep, t)
            if t is not None:
                self.got.append((t, o.name, v))
            return v
        o.decodeReadRep = f

    def o(self, name):
        return next(o for o in self.c.list() if o.name == name)

    def next(self, name):
        self.n += 1
        if name == '/s':
            return f'v{self.n}'
        return self.n

    def raw(self, o, v):
        t = o.type & ~Object.FlagFunction
        if t == Object.String:
            return v.encode() + b'\0' * (o.size - len(v))
        return struct.pack(FMT[t], v)

    def tick(self):
        Clock.now += 1
        t = int.from_bytes(self.t.get('/t (us)'), 'little')
        self.t.set('/t (us)', struct.pack('<I', (t + 1000000) & 0xffffffff))

    def app(self, name):
        o = self.o(name)
        self.t.set(name, self.raw(o, self.next(name)))

    def truth(self, name):
        return value(self.o(name), self.t.get(name))

    def check(self):
        """The invariants."""
        ex, c = self.ex, self.c
        for o in c.list():
            a = o.alias
            if a is not None:
                at = self.t.alias(a)
                ex.check('alias', at == o.name, lambda: f'{o.name} has alias {a}, which is {at} at the target')
        ex.check('aliases', not hasattr(c, '_temporaryAliases') or not hasattr(c, '_permanentAliases') or len(set(c._temporaryAliases) & set(c._permanentAliases)) == 0 and
                 all(a not in (getattr(c, '_availableAliases', None) or []) for a in list(c._temporaryAliases) + list(c._permanentAliases)),
                 'inconsistent administration of aliases')

    def sample(self):
        """The application takes a sample."""
        self.t.cmd('T')
        tr = self.c._tracing
        if tr is None or not tr.enabled or len(tr) == 0:
            return
        self.count += 1
        if self.count < self.decimate:
            return
        self.count = 0
        objs = [k.name for k in tr._cmds if isinstance(k, Object)]
        self.samples.append((Clock.now, [(n, self.truth(n)) for n in objs]))

    def process(self, flush):
        c, ex = self.c, self.ex
        if c._tracing is None:
            return
        if flush and self.flavour == 'asan':
            c._tracing.stream.flush()
        self.got = []
        c.traceProcess()
        # Every traced value is one of a sample, in order.
        exp = [(t, n, v) for t, s in self.samples for n, v in s]
        k = len(self.got)
        if self.flavour == 'dbg':
            # The small buffer of the target may drop samples.
            it = iter(exp)
            ex.check('trace', all(g in it for g in self.got), lambda: f'traced {self.got} out of {exp}')
            self.samples = [s for s in self.samples if not self.got or s[0] > self.got[-1][0]]
            return
        ex.check('trace', self.got == exp[:k], lambda: f'traced {self.got} instead of {exp}')
        cnt = 0
        while k:
            k -= len(self.samples.pop(0)[1])
            cnt += 1
        # The last sample is only complete when the next one starts.
        if self.flavour == 'plain' and c._tracing.enabled:
            ex.check('trace-lost', len(self.samples) <= 1, lambda: f'{self.samples} lost')

    def polled(self, fire):
        """All polls and traces."""
        c, ex = self.c, self.ex
        for tm in list(Timer.all):
            if tm.running and tm is not c._tracingTimer and any(f.__self__ is not None and not isinstance(f.__self__, zmq_client.SignalRateLimiter)
                                                              if hasattr(f, '__self__') else True for f in tm.timeout.f):
                tm.fire()


def layout(w, f):
    """Calls f, which may change the layout of the trace, in which case all samples in it are dropped."""
    tr = w.c._tracing
    n = len(w.c._mc.log)
    r = f()
    if tr and any(m.startswith(b'm' + tr.macro) for m in w.c._mc.log[n:]):
        w.samples = []
    return r


OPS = ['read-a', 'read-s', 'read-all', 'write-a', 'write-s', 'app', 'alias-a', 'alias-b-perm', 'steal-a', 'release-a',
       'poll-a', 'poll-s', 'stop-a', 'stop-s', 'trace-a', 'trace-b', 'stop-b', 'sample', 'process', 'fire', 'slow-a', 'macro', 'mem', 'own-macro']


def op(w, name):
    ex, c, t = w.ex, w.c, w.t
    a, b, s = w.o('/a'), w.o('/ab'), w.o('/s')
    w.tick()
    before = t.dump()
    changed = set()
    if name.startswith('read'):
        for o in {'read-a': [a], 'read-s': [s], 'read-all': c.list()}[name]:
            v = layout(w, o.read)
            e = w.truth(o.name)
            ex.check('read', v == e and o.value == e, lambda: f'read {o.name} as {v!r}, {o.value!r}, which is {e!r}')
    elif name.startswith('write'):
        o = a if name == 'write-a' else s
        v = w.next(o.name)
        r = o.write(v)
        changed = {o.name}
        ex.check('write', r is True and w.truth(o.name) == v and o.value == v, lambda: f'wrote {v!r} to {o.name}: {r}, {w.truth(o.name)!r}, {o.value!r}')
    elif name == 'app':
        for n in ('/a', '/ab', '/s'):
            w.app(n)
        changed = {'/a', '/ab', '/s'}
    elif name == 'alias-a':
        c.acquireAlias(a)
    elif name == 'alias-b-perm':
        c.acquireAlias(b, temporary=False, permanentRef='me')
    elif name == 'steal-a':
        # B prefers the one of A.
        if a.alias is not None:
            was = a.alias
            perm = was in c._permanentAliases
            r = c.acquireAlias(b, prefer=was)
            ex.check('steal', (r == was) != perm, lambda: f'alias {was}: {r}')
    elif name == 'release-a':
        if a.alias is not None:
            c.releaseAlias(a.alias)
    elif name == 'poll-a':
        layout(w, lambda: a.poll(0.5))
    elif name == 'poll-s':
        layout(w, lambda: s.poll(0.2))
    elif name == 'slow-a':
        layout(w, lambda: a.poll(2))
    elif name in ('stop-a', 'stop-s', 'stop-b'):
        o = {'a': a, 's': s, 'b': b}[name[-1]]
        layout(w, lambda: o.poll(None))
        ex.check('stopped', not o.polling, 'still polling')
    elif name == 'trace-a':
        layout(w, lambda: a.poll(0.01))
    elif name == 'trace-b':
        layout(w, lambda: b.poll(0.01))
    elif name == 'decimate':
        w.decimate = 2 if w.decimate == 1 else 1
        c.traceDecimate(w.decimate)
    elif name == 'sample':
        w.app('/a')
        w.app('/ab')
        changed = {'/a', '/ab'}
        w.sample()
    elif name == 'process':
        w.process(True)
    elif name == 'fire':
        # Everything that is polled, gets the proper value. Traced ones follow the trace.
        w.polled(True)
        for o in c.list():
            traced = c._tracing is not None and o in c._tracing._cmds
            if o.polling and not traced:
                e = w.truth(o.name)
                ex.check('polled', o.value == e, lambda: f'polled {o.name} as {o.value!r}, which is {e!r}')
    elif name == 'macro':
        # A macro of the application.
        m = c.acquireMacro(['r/u32', 'e;', 'r/ab'], sep='\r')
        if m is not None:
            r = c.req(m.encode())
            e = b'%x;%x' % (w.truth('/u32'), w.truth('/ab') & 0xffff)
            if w.flavour != 'dbg':
                ex.check('macro', r == e, lambda: f'macro gave {r} instead of {e}')
            c.releaseMacro(m)
    elif name == 'own-macro':
        if not hasattr(w, 'macro'):
            w.macro = zmq_client.Macro(c)
            w.seen = {}
        for n in ('/a', '/s'):
            w.macro.add('r' + n, lambda rep, t=None, n=n: w.seen.__setitem__(n, rep), n)
        w.seen = {}
        r = w.macro.run()
        for n, rep in w.seen.items():
            v = w.o(n)._decode(rep)
            ex.check('own-macro', r and (v == w.truth(n)), lambda: f'macro gave {n}: {rep}')
        if w.flavour != 'dbg':
            ex.check('own-macro', len(w.seen) == 2, lambda: f'macro gave only {w.seen}')
    elif name == 'mem':
        p = int(t.cmd('p'), 16)
        w.n += 1
        d = bytes([w.n & 0xff, 0, 0xff])
        r = c.writeMem(p + 1, d)
        m = bytes.fromhex(t.cmd('m'))
        ex.check('writeMem', r and m[1:4] == d, lambda: f'wrote {d}: {r}, {m}')
        g = c.readMem(p, 16)
        ex.check('readMem', g == m, lambda: f'read {g}, not {m}')
    after = t.dump()
    # The order of the list of the target.
    full = [l[3:] for l in t.req(b'l').decode().split('\n')] if after != before and changed is not None else []
    if full:
        diff = {n for n, x, y in zip(full, before, after) if x != y}
        ex.check('only', diff <= changed, lambda: f'{name} changed {diff}')
    w.check()


def ops(ex, flavour, without, names, depth, first=None):
    w = World(ex, flavour, without)
    hist = []
    for i in range(depth):
        n = first[i] if first and i < len(first) else names[ex.shard_choose(len(names)) if not hist or (first and i == len(first)) else ex.choose(len(names))]
        hist.append(n)
        ex.trace(n)
        op(w, n)
        ex.step()
    ex.state((tuple(getattr(w.c, '_temporaryAliases', ())), tuple(getattr(w.c, '_permanentAliases', ())), tuple(str(o.alias) + str(o.polling) + str(o.value) for o in w.c.list())))
    ex.obs(tuple(hist))
    # Everything still works.
    op(w, 'read-all')
    op(w, 'app')
    op(w, 'fire')
    w.c.close()


AOPS = ['async-a', 'async-s', 'awrite-a', 'awrite-s', 'app', 'deliver', 'read-a', 'write-a', 'poll', 'fire', 'trace', 'sample', 'process', 'untrace']


def asynchronous(ex, flavour, depth):
    """With an event loop: requests are queued, and responses arrive later."""
    w = World(ex, flavour, '', True)
    c, t = w.c, w.t
    a, s, b = w.o('/a'), w.o('/s'), w.o('/ab')
    used = set()
    changed = False
    traced = False
    for i in range(depth):
        n = AOPS[ex.shard_choose(len(AOPS)) if not i else ex.choose(len(AOPS))]
        ex.trace(n)
        w.tick()
        if n in ('async-a', 'async-s'):
            o = a if n == 'async-a' else s
            # A request that is pending already, is not repeated.
            if not o._asyncReadPending:
                used.add(o.name)
            o._asyncRead()
        elif n in ('awrite-a', 'awrite-s'):
            o = a if n == 'awrite-a' else s
            o.asyncWrite(w.next(o.name))
            used.add(o.name)
        elif n == 'app':
            for x in ('/a', '/s'):
                w.app(x)
            used = set()
        elif n == 'deliver':
            c._mc.sock.arrived = True
            c._reqAsyncCheckResponse()
        elif n == 'read-a':
            v = a.read()
            ex.check('read', v == w.truth('/a'), lambda: f'read {v}, not {w.truth("/a")}')
        elif n == 'write-a':
            v = w.next('/a')
            r = a.write(v)
            ex.check('write', r and w.truth('/a') == v, lambda: f'wrote {v}: {r}, {w.truth("/a")}')
            used.add('/a')
        elif n == 'poll':
            s.poll(0.5)
        elif n == 'fire':
            w.polled(True)
        elif n == 'trace':
            b.poll(0.01)
            traced = True
        elif n == 'untrace':
            b.poll(None)
            w.samples = []
        elif n == 'sample':
            w.app('/ab')
            if traced:
                w.t.cmd('T')
                w.samples.append(w.truth('/ab'))
        else:
            c.traceProcess()
        ex.step()
    # The rest arrives.
    for i in range(100):
        if not c._reqQueue:
            break
        c._mc.sock.arrived = True
        c._reqAsyncCheckResponse()
    ex.check('drained', not c._reqQueue and c._mc.sock.rep is None, lambda: f'left {c._reqQueue}')
    for n in used:
        e = w.truth(n)
        v = w.o(n).value
        ex.check('value', v == e, lambda: f'{n} shows {v!r} while the target has {e!r}')
    seen = [v for _, n, v in w.got if n == '/ab']
    ex.check('trace-order', all(x < y for x, y in zip(seen, seen[1:])), lambda: f'traced {seen}')
    w.check()
    ex.obs(tuple(seen) + tuple(c._mc.log[-3:]))
    c.close()


FIND = [['/a', '/ab', '/abc', '/b'], ['/zone/v', '/zorro/v', '/zo', '/z/v'], ['/a/v', '/a/vv', '/ab/v', '/ab/vv'],
        ['/a.b', '/axb', '/a(b', '/a[0]', '/a[1]', '/a[10]'], ['/x/y/z', '/x/yy/z', '/xx/y/z', '/x/y'], ['/t (s)', '/t', '/tt (s)'],
        ['/a b', '/a_b', '/a-b', '/1', '/2', '/class', '/list', '/A'], ['/é', '/e', '/ë/a', '/e/a'], ['/a\\b', '/a\\d', '/a+', '/a++', '/^a', '/$']]


class Fake:
    """A target that only has a list."""

    def __init__(self, names):
        self.names = names

    def req(self, m):
        if m == b'?':
            return b'?rwl'
        if m == b'l':
            return ''.join(f'3b4{n}\n' for n in self.names).encode()
        return b'?'


def abbreviations(names):
    r = set()
    for n in names:
        c = n.split('/')[1:]
        for ls in itertools.product(*[range(1, len(x) + 1) for x in c]):
            r.add('/' + '/'.join(x[:l] for x, l in zip(c, ls)))
    r |= {n + 'q' for n in names} | {'/q', '/', '', 'a', '/a/q', '/q/v'}
    return sorted(r)


def find(ex):
    names = FIND[ex.shard_choose(len(FIND))]
    k = ex.choose(1 << len(names))
    names = [n for i, n in enumerate(names) if k & (1 << i)]
    c = client(Fake(names))
    objs = c.list()
    ex.check('list', [o.name for o in objs] == names, lambda: f'{[o.name for o in objs]}, not {names}')
    for q in abbreviations(names):
        ex.step()
        r = c.find(q)
        rn = r.name if isinstance(r, Object) else None if r is None else sorted(o.name for o in r)
        if q in names:
            ex.check('exact', rn == q, lambda: f'{q} in {names} finds {rn}')
            ex.check('item', c[q].name == q, lambda: f'[{q}] in {names} gives {c[q].name}')
            continue
        qc = q.split('/')
        m = [n for n in names if n.count('/') == q.count('/') and all(x.startswith(y) for x, y in zip(n.split('/'), qc))]
        # Objects of a target with abbreviated names.
        l = [n for n in names if n not in m and n.count('/') == q.count('/') and all(y.startswith(x) or x.startswith(y) for x, y in zip(n.split('/'), qc))]
        if l:
            continue
        if '?' in ''.join(names):
            continue
        if not m:
            ex.check('none', rn is None, lambda: f'{q} in {names} finds {rn}')
        elif len(m) == 1:
            ex.check('abbreviated', rn == m[0], lambda: f'{q} in {names} finds {rn}, not {m[0]}')
        else:
            got = [rn] if isinstance(rn, str) else rn
            ex.check('ambiguous', got and set(got) <= set(m), lambda: f'{q} in {names} finds {rn}')
    ex.obs(tuple(names))
    c.close()


def attributes(ex):
    """Every object is available as attribute, for all clients, independently."""
    names = FIND[ex.shard_choose(len(FIND))]
    k = 1 + ex.choose((1 << len(names)) - 1)
    names = [n for i, n in enumerate(names) if k & (1 << i)]
    r = []
    cs = []
    for round in range(2):
        c = client(Fake(names))
        # What the names would be, without any earlier client.
        c.list()
        cs.append(c)
    for c in cs:
        done = set()
        for o in c.list():
            n = o.name
            # Simple names are the name itself.
            if re.fullmatch(r'/[a-z]+', n) and n != '/class' and n != '/list' and not any(x != n and re.sub(r'[^A-Za-z0-9]', '_', x).strip('_') == n[1:] for x in names):
                g = getattr(c, n[1:], None)
                ex.check('attribute', g is o, lambda: f'client.{n[1:]} is {g.name if g is not None else None}, for {names}')
                g = c[n[1:]]
                ex.check('attribute', g is o, lambda: f'client["{n[1:]}"] is {g.name if g is not None else None}, for {names}')
                done.add(n)
        ex.state(tuple(done))
        ex.step()
    ex.obs(tuple(names))
    for c in cs:
        c.close()


DATA = [b'a', b'bcdef', b'\0\xff\x80', b'x' * 40]


def stream(ex, flavour, depth):
    """A stream as the application fills it, and the client reads it."""
    t = Target.fresh(flavour)
    c = client(t, only=['/t (us)'])
    s = c.stream('x', raw=True)
    sent = b''
    got = b''
    flushed = 0
    n = 0
    comp = 'f' in c.capabilities()
    hist = []
    for i in range(depth):
        k = ex.shard_choose(7) if not i else ex.choose(7)
        hist.append(k)
        if k < 4:
            d = DATA[k]
            r = int(t.cmd('a x ' + d.hex()))
            ex.trace(f'write {d} {r}')
            sent += d[:r]
        elif k == 4:
            got += bytes(s.poll())
            ex.trace('poll')
        elif k == 5:
            s.flush()
            flushed = len(sent)
            ex.trace('flush')
            n += 1
        else:
            s.reset()
            got += bytes(s.poll())
            ex.trace('reset')
            # Everything is dropped.
            ex.check('reset', sent.startswith(got), lambda: f'{got} of {sent}')
            got = sent
        ex.check('prefix', sent.startswith(got), lambda: f'got {got} of {sent}')
        ex.step()
    s.flush()
    for i in range(4):
        got += bytes(s.poll())
        s.flush()
    ex.check('all', got == sent, lambda: f'got {got} of {sent}')
    ex.obs(tuple(hist))
    c.close()


def state(ex):
    """Polling and formats are restored."""
    t = Target.fresh('plain')
    fn = os.path.join(os.environ.get('TMPDIR', '/tmp'), f'verif_state_{os.getpid()}.conf')
    try:
        c = client(t, only=['/t (us)', '/a', '/s', '/f'])
        picks = {}
        for n in ('/a', '/s', '/f'):
            o = next(x for x in c.list() if x.name == n)
            f = ex.pick(o.formats) if n != '/a' else o.formats[ex.shard_choose(len(o.formats))]
            p = ex.pick([None, 0.01, 0.5, 2])
            o.format = f
            o.poll(p)
            picks[n] = (o.format, o.polling, o.pollInterval)
        c.saveState(fn)
        c.close()
        t.cmd('n')
        c = client(t, only=['/t (us)', '/a', '/s', '/f'])
        c.list()
        c.restoreState(fn)
        for n, e in picks.items():
            o = next(x for x in c.list() if x.name == n)
            g = (o.format, o.polling, o.pollInterval)
            ex.check('restored', repr(g) == repr(e), lambda: f'{n}: {g} instead of {e}')
        ex.obs(repr(picks))
        c.close()
    finally:
        if os.path.exists(fn):
            os.remove(fn)


def setup(thorough):
    mc.add('values', 'every object of all types x boundary contents x 8 ways to read and write', 6, lambda ex: values(ex, ''))
    mc.add('values-noalias', 'same, without aliases', 6, lambda ex: values(ex, 'a'))
    mc.add('find', 'all subsets of 9 sets of names, all abbreviations', 3, find)
    mc.add('attributes', 'all subsets of 9 sets of names, for two clients at once', 3, attributes)
    d = 4 if thorough else 3
    for fl, wo in (('plain', ''), ('dbg', ''), ('asan', ''), ('plain', 'a'), ('plain', 'm'), ('plain', 't'), ('plain', 'amstf')):
        mc.add(f'ops-{fl}{"-no-" + wo if wo else ""}', f'all sequences of {d} of {len(OPS)} operations', len(OPS) // 2,
               lambda ex, fl=fl, wo=wo: ops(ex, fl, wo, OPS, d))
    tr = ['decimate', 'trace-a', 'trace-b', 'stop-a', 'stop-b', 'sample', 'process', 'read-a']
    for fl in ('plain', 'asan', 'dbg'):
        k = 6 if thorough else 5 if fl == 'plain' else 4
        mc.add(f'trace-{fl}', f'all sequences of {k} of {len(tr)} operations after starting a trace', len(tr),
               lambda ex, fl=fl, k=k: ops(ex, fl, '', tr, k + 1, ['trace-a']))
    al = ['read-all', 'alias-a', 'alias-b-perm', 'steal-a', 'release-a', 'poll-a', 'stop-a', 'poll-s', 'stop-s', 'fire']
    k = 5 if thorough else 4
    for fl in ('plain', 'dbg'):
        mc.add(f'alias-{fl}', f'all sequences of {k} of {len(al)} operations', len(al), lambda ex, fl=fl: ops(ex, fl, '', al, k))
    for fl in ('plain', 'asan'):
        k = 5 if thorough else 4 if fl == 'plain' else 3
        mc.add(f'async-{fl}', f'with an event loop; all sequences of {k} of {len(AOPS)} operations', len(AOPS),
               lambda ex, fl=fl, k=k: asynchronous(ex, fl, k))
    k = 7 if thorough else 5
    for fl in ('plain', 'asan', 'dbg'):
        mc.add(f'stream-{fl}', f'all sequences of {k} of 7 operations', 7, lambda ex, fl=fl: stream(ex, fl, k))
    mc.add('state', 'all combinations of formats and poll intervals of three objects', 4, state)


sys.exit(mc.main(setup))
