# The Python decoder of compressed data against the C++ compressor.
# mc: property=P25 needs=x_bridge.asan
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import mc  # noqa: E402
from common.bridge import Bridge  # noqa: E402

sys.path.insert(0, mc.REPO + '/python')
from libstored.heatshrink import HeatshrinkDecoder  # noqa: E402

bridge = None


def one(ex, decoder, m, last, cut):
    c = bridge
    if last is None:
        w = c.encode(m)[1]
    elif last:
        w = c.encode(m[:len(m) // 2], False)[1] + c.encode(m[len(m) // 2:])[1]
    else:
        w = c.encode(m, False)[1] + c.encode(b'')[1]
    ex.check('framing', len(w) == 1, lambda: f'{m} gives {w}')
    w = w[0]
    if cut == 0:
        got = decoder.finish(w)
    elif cut == 1:
        got = b''.join(bytes(decoder.fill(w[i:i + 1])) for i in range(len(w))) + decoder.finish()
    else:
        got = bytes(decoder.fill(w[:cut])) + decoder.finish(w[cut:])
    ex.trace(f'{len(m)} bytes as {len(w)}')
    ex.check('restored', bytes(got) == m, lambda: f'{m} as {w}: got {bytes(got)}')
    ex.step()
    ex.obs(w)


def run(ex, msgs, n):
    global bridge
    if bridge is None:
        bridge = Bridge()
    d = HeatshrinkDecoder()
    bridge.new(0, 'compress')
    for k in range(n):
        m = msgs[ex.choose(len(msgs)) if k else ex.shard_choose(len(msgs))]
        one(ex, d, m, ex.pick([None, True, False]), ex.pick([0, 1, 2, 31, 32, 33]))
    ex.state(m)


def long():
    r = []
    for n in (1, 14, 15, 16, 17, 31, 33, 63, 255, 256, 257, 300, 1000):
        r.append(b'\0' * n)
        r.append(bytes((i * i * 7 + i // 3) & 0xff for i in range(n)))
        r.append((b'abc' * n)[:n])
        r.append((bytes(range(250)) * 5)[:n])
    return r


def setup(thorough):
    n = 7 if thorough else 6
    mc.add('all-short', f'all messages over 3 bytes up to length {n}, 3 ways to end, 6 chunkings', 4,
           lambda ex: run(ex, [bytes(w) for k in range(1, n + 1) for w in itertools.product([0, 0x61, 0xff], repeat=k)], 1))
    mc.add('long', 'structured messages up to 1000 bytes', 6, lambda ex: run(ex, long(), 1))
    seq = [b'a', b'ab', b'\0' * 5, b'abcabcabc' * 9, bytes(range(256)), b'\xff' * 300]
    mc.add('sequence', 'all pairs of messages through the same pair of coders', 6, lambda ex: run(ex, seq, 2))
    mc.add('sequence3', 'all triples of messages', 6, lambda ex: run(ex, seq[:4], 3), quick=False)


sys.exit(mc.main(setup))
