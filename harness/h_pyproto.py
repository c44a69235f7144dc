# The Python protocol layers against the C++ ones, in both directions.
# mc: property=P26 needs=x_bridge.asan
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import mc  # noqa: E402
from common.bridge import Bridge  # noqa: E402

sys.path.insert(0, mc.REPO + '/python')
from libstored import protocol  # noqa: E402

bridge = None


def cpp():
    global bridge
    if bridge is None:
        bridge = Bridge()
    return bridge


class Bottom(protocol.ProtocolLayer):
    """The wire, with an MTU."""
    name = 'verifwire'

    def __init__(self, mtu=0):
        super().__init__()
        self._verif_mtu = int(mtu)
        self.out = []

    def encode(self, data):
        self.out.append(bytes(data))

    @property
    def mtu(self):
        return self._verif_mtu


protocol.registerLayerType(Bottom)


class Py:
    def __init__(self, desc, mtu=0):
        self.stack = protocol.buildStack(desc + f',verifwire={mtu}')
        self.got = []
        self.text = b''
        self.stack.up = lambda d: self.got.append(bytes(d))
        for layer in self.stack:
            if isinstance(layer, Bottom):
                self.wire = layer
            if isinstance(layer, protocol.TerminalLayer):
                layer.fdout = self.fdout

    def fdout(self, d):
        self.text += bytes(d)

    def sent(self):
        r = self.wire.out
        self.wire.out = []
        return r


SPECIAL = [0x1b, 0x5f, 0x5c, 0x7f, 0x0d, 0x00, 0x45, 0x43, 0x41, 0x9b, 0xff, 0x1f, 0x20, 0x40, 0x3f]


def words(n, alphabet):
    return [bytes(w) for k in range(1, n + 1) for w in itertools.product(alphabet, repeat=k)]


STACKS = ['ascii', 'segment', 'crc8', 'crc16', 'ascii,term', 'segment,ascii', 'segment,ascii,term',
          'crc8,ascii,term', 'crc16,ascii,term', 'segment,crc8', 'segment,crc16', 'segment,crc16,ascii',
          'segment,crc8,ascii,term', 'segment,crc16,ascii,term', 'crc16,segment,ascii,term', 'ascii,segment,term',
          'ascii,segment']
OVERHEAD = {'ascii': lambda m: m // 2, 'term': lambda m: m - 4, 'crc8': lambda m: m - 1, 'crc16': lambda m: m - 2,
            'segment': lambda m: m - 1}


def fits(desc, mtu):
    """True when the MTU leaves room for a byte of payload below the segmentation."""
    m = mtu
    for l in reversed(desc.split(',')):
        m = OVERHEAD[l](m)
        if m < 1:
            return False
        if l == 'segment':
            return True
    return False


def feed(ex, data, f):
    """Feeds data in pieces."""
    cut = ex.choose(3)
    if cut == 0 or len(data) < 2:
        return f(data)
    if cut == 1:
        k = 1 + ex.choose(len(data) - 1)
        return f(data[:k]) + f(data[k:])
    r = []
    for b in data:
        r += f(bytes([b]))
    return r


def interop(ex, stacks, msgs, mtus, pairs):
    desc = stacks[ex.shard_choose(len(stacks))]
    m1 = ex.pick(msgs)
    seq = [m1]
    mtu = ex.pick(mtus)
    if pairs:
        seq.append(ex.pick([b'A', b'\x1b\x5f', b'E', b'\x7f\x7fCE\r']))
    c = cpp()
    c.new(mtu, desc)
    p = Py(desc, mtu)
    ex.trace(f'{desc} mtu {mtu} messages {seq}')
    ex.state((desc, mtu))
    ex.check('mtu', c.mtu() == p.stack.mtu, lambda: f'{desc} over mtu {mtu}: C++ {c.mtu()}, Python {p.stack.mtu}')
    limit = mtu if 'segment' in desc and fits(desc, mtu) else 0
    stream = desc.endswith('term')
    direction = ex.choose(2)
    w = []
    if direction:
        # The client always starts.
        p.stack.encode(b'x')
        p.sent()
    for m in seq:
        if not direction:
            p.stack.encode(m)
            w += p.sent()
        elif len(m) > 1 and ex.choose(2):
            a = c.encode(m[:1], False)[1]
            w += a + c.encode(m[1:])[1]
        else:
            w += c.encode(m)[1]
    who = 'C++ to Python' if direction else 'Python to C++'
    if limit:
        ex.check('too-long', all(len(x) <= limit for x in w), lambda: f'{desc}: {who} sends {w} over mtu {limit}')

    def tocpp(x):
        return c.decode(x)[0]

    def topy(x):
        p.stack.decode(bytearray(x))
        r, p.got = p.got, []
        return r
    f = topy if direction else tocpp
    if stream:
        got = feed(ex, b''.join(w), f)
    else:
        got = [y for x in w for y in f(x)]
    ex.step(len(w))
    ex.check('message', got == seq, lambda: f'{who}: {desc} mtu {mtu}: sent {seq}, as {w}, got {got}')
    ex.check('text', p.text == b'', lambda: f'unexpected text {p.text}')
    ex.obs((desc, w))


def mtus(ex):
    """The MTU of every composition."""
    desc = STACKS[ex.shard_choose(len(STACKS))]
    mtu = ex.choose(1030 if ex.thorough else 530)
    arq = ex.choose(2)
    if arq:
        desc = 'arq,' + desc
    c = cpp()
    c.new(mtu, desc)
    p = Py(desc, mtu)
    ex.trace(f'{desc} {mtu}')
    ex.check('mtu', c.mtu() == p.stack.mtu, lambda: f'{desc} over mtu {mtu}: C++ {c.mtu()}, Python {p.stack.mtu}')
    ex.obs((desc, p.stack.mtu))


def text(ex, n, alphabet):
    """Text and messages in one stream."""
    # The first choice decides where the message goes; text never holds ESC _ by itself.
    t = bytes(alphabet[ex.choose(len(alphabet)) if i else ex.shard_choose(len(alphabet))] for i in range(n))
    at = ex.choose(n + 1)
    before, after = t[:at], t[at:] + b'z'
    if b'\x1b_' in before + b'\x1b' or b'\x1b_' in after or before.endswith(b'\x1b'):
        ex.prune()
    desc = ex.pick(['ascii,term', 'segment,ascii,term'])
    m = ex.pick([b'A', b'\x1b\\\x1b_', b'\r'])
    py = ex.choose(2)
    c = cpp()
    c.new(0, desc)
    p = Py(desc)
    p.stack.encode(b'x')
    p.sent()
    if py:
        p.stack.encode(m)
        w = b''.join(p.sent())
    else:
        w = b''.join(c.encode(m)[1])
    s = before + w + after
    txt = []

    def f(x):
        if py:
            u, _, t = c.decode(x)
            txt.append(t)
            return u
        p.stack.decode(bytearray(x))
        r, p.got = p.got, []
        txt.append(p.text)
        p.text = b''
        return r
    ex.trace(f'{"Python to C++" if py else "C++ to Python"} {s}')
    got = feed(ex, s, f)
    ex.check('message', got == [m], lambda: f'{s}: got {got}')
    # The C++ side hands out an ESC that ends a chunk right away; h_terminal checks that.
    ex.check('text', b''.join(txt) == before + after or (py and len(txt) > 1), lambda: f'{s}: text is {b"".join(txt)}')
    ex.obs(s)


ARQ = ['segment,arq', 'segment,arq,crc16', 'segment,arq,crc8,ascii,term', 'segment,arq,crc16,ascii,term',
       'segment,arq,ascii,term', 'arq,crc16,segment,ascii,term']


def arq(ex, losses, modes, requests, restarts):
    """A Python client and a C++ target, over a lossy link."""
    desc = ARQ[ex.shard_choose(len(ARQ))]
    mode = ex.pick(modes)
    nospace = {'segment,arq': 7, 'segment,arq,crc16': 9, 'segment,arq,crc8,ascii,term': 20,
               'segment,arq,crc16,ascii,term': 22, 'segment,arq,ascii,term': 18, 'arq,crc16,segment,ascii,term': 14}
    mtu = ex.pick([0, nospace[desc]])
    lossy = losses
    c = cpp()
    c.new(mtu, desc)
    c.mode(mode)
    p = Py(desc, mtu)
    ex.trace(f'{desc} mtu {mtu} mode {mode}')
    executed = 0
    restart = restarts
    for k in range(requests):
        if k and restart and ex.choose(2):
            restart -= 1
            p = Py(desc, mtu)
            ex.trace('new client')
        req = [b'hello', b'i', b'abcdefg\x1b\\'][ex.choose(3)] if k == 0 else [b'w\x7f', b'Q23456'][k - 1]
        expect = req if mode == 3 else b'%d' % ((k + 1) % 10) + req
        ex.trace(f'request {req}')
        p.stack.encode(req)
        timeouts = 0
        while True:
            down = []  # to the target
            down += p.sent()
            while down:
                x = down.pop(0)
                ex.step()
                if lossy and ex.choose(2):
                    lossy -= 1
                    ex.trace(f'lost {x}')
                    continue
                u, w, _ = c.decode(x)
                ex.trace(f'target got {x} decodes {u} responds {w}')
                if u and mode != 3:
                    executed += len(u)
                    ex.check('executed', u == [req] and executed == k + 1,
                             lambda: f'request {k} {req}: executed {u}, {executed} in total')
                for y in w:
                    if lossy and ex.choose(2):
                        lossy -= 1
                        ex.trace(f'lost response {y}')
                        continue
                    p.stack.decode(bytearray(y))
                    down += p.sent()
                    ex.trace(f'client got {y}, has {p.got}')
            if p.got:
                break
            timeouts += 1
            ex.check('recovers', timeouts <= losses + 3, lambda: f'no response after {timeouts} timeouts')
            ex.trace('timeout')
            p.stack.timeout()
        ex.check('response', p.got == [expect], lambda: f'request {req} got {p.got}, expected {expect}')
        p.got = []
        ex.state((desc, mtu, mode, k, lossy, timeouts))
    ex.obs((desc, mtu, mode, lossy))


def counters(ex, n):
    """Sequence numbers of all lengths, by many requests."""
    ex.shard_choose(1)
    desc = 'segment,arq'
    c = cpp()
    c.new(0, desc)
    c.mode(1)
    p = Py(desc)
    for k in range(n):
        p.stack.encode(b'%d' % k)
        down = p.sent()
        while down:
            _, w, _ = c.decode(down.pop(0))
            for y in w:
                p.stack.decode(y)
                down += p.sent()
        ex.check('response', p.got == [b'%d%d' % ((k + 1) % 10, k)], lambda: f'request {k} got {p.got}')
        p.got = []
        ex.step()
    ex.obs(n)


def setup(thorough):
    one = words(1, range(256))
    two = words(2, SPECIAL)
    mc.add('interop-short', f'{len(STACKS)} stacks, both directions, all messages of one byte and of two special bytes, '
           'any split of the stream', len(STACKS) if thorough else 8,
           lambda ex: interop(ex, STACKS, one + two, [0], False))
    mc.add('interop-mtu', 'all stacks, MTUs 0..24, pairs of messages up to 9 bytes', len(STACKS),
           lambda ex: interop(ex, STACKS, [b'A', b'EC', b'\x1b\x1b\x1b', b'ABCDEFGHI', b'\0\x7f\r\x1b\\', b'\xff' * 8],
                              list(range(25)), True))
    mc.add('interop-three', 'all stacks, both directions, all messages of three special bytes', len(STACKS),
           lambda ex: interop(ex, STACKS, words(3, SPECIAL)[len(two):], [0, 9], False), quick=False)
    mc.add('interop-long', 'all stacks, messages of 1..600 bytes', len(STACKS),
           lambda ex: interop(ex, STACKS, [bytes((i * 7 + k) & 0xff for i in range(k)) for k in
                                           ([250, 254, 255, 256, 257, 258, 300, 600])], [0, 30, 100, 256, 300], False))
    mc.add('interop-empty', 'all stacks with segmentation, empty message', 8,
           lambda ex: interop(ex, [s for s in STACKS if 'segment' in s], [b''], [0, 12, 40], True))
    mc.add('mtu', 'MTU of all stacks over all MTUs up to 530', 8, mtus)
    mc.add('text', 'streams of text (4 special bytes) with a message anywhere, all splits', 6,
           lambda ex: text(ex, 4 if not thorough else 5, [0x61, 0x1b, 0x5f, 0x5c, 0x0d, 0x0a]))
    mc.add('arq', '6 stacks, 3 response modes, 2 requests, up to 2 losses anywhere', len(ARQ),
           lambda ex: arq(ex, 2, [1, 2, 3], 2, 1))
    mc.add('arq-deep', '6 stacks, 3 response modes, 3 requests, up to 3 losses anywhere, restart of the client',
           len(ARQ), lambda ex: arq(ex, 3, [1, 2, 3], 3, 1), quick=False)
    mc.add('counters', '8500 requests in sequence', 1, lambda ex: counters(ex, 8500))
    mc.add('counters-deep', '1.1 million requests in sequence', 1, lambda ex: counters(ex, 1100000), quick=False)


sys.exit(mc.main(setup))
