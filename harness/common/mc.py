"""The Python counterpart of mc.h: exhaustive exploration of all choices of a scenario."""

import json
import mmap
import os
import struct
import sys
import time
import traceback
import zlib

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))


class Violation(Exception):
    pass


class Prune(Exception):
    pass


def h64(x):
    b = repr(x).encode()
    return (zlib.crc32(b) << 32) | zlib.adler32(b)


class Explorer:
    def __init__(self):
        self.thorough = False
        self.tracing = False
        self.shard = 0
        self.shards = 1
        self.path = []  # [c, n, step]
        self.pos = 0
        self.isreplay = False
        self.failed = False
        self.fail_msg = ''
        self.known = set()
        self.known_hit = {}
        self.known_seen = False
        self.traces = []
        self.states = set()
        self.outcomes = set()
        self.steps = 0
        self.execs = 0
        self._obs = 0
        self.cur = None

    def choose(self, n, _shard=False):
        assert n > 0
        if n == 1:
            if _shard and self.shard and not self.isreplay:
                raise Prune()
            return 0
        if self.pos < len(self.path):
            p = self.path[self.pos]
            if p[1] != n:
                if self.isreplay and p[1] == -1:
                    p[1] = n
                else:
                    sys.stderr.write('mc: nondeterministic scenario\n')
                    os._exit(97)
            c = p[0]
            if c >= n:
                sys.stderr.write('mc: replay choice out of range\n')
                os._exit(97)
        else:
            c, step = 0, 1
            if _shard and self.shards > 1:
                c, step = self.shard, self.shards
                if c >= n:
                    raise Prune()
            if self.isreplay:
                step = n
            self.path.append([c, n, step])
        if self.cur and self.pos < 16384:
            struct.pack_into('<i', self.cur, 16 + 4 * self.pos, c)
            struct.pack_into('<I', self.cur, 8, self.pos + 1)
        self.pos += 1
        return c

    def shard_choose(self, n):
        return self.choose(n, True)

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def state(self, x):
        self.states.add(h64(x))

    def obs(self, x):
        self._obs = h64((self._obs, x))

    def step(self, n=1):
        self.steps += n

    def trace(self, s):
        if self.tracing:
            self.traces.append(s)
            if self.isreplay:
                sys.stderr.write('  ' + s + '\n')

    def note(self, key, msg):
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            self.known_seen = True
            return
        if not self.failed:
            self.failed = True
            self.fail_msg = f'{key}: {msg}'

    def fail(self, key, msg):
        self.note(key, msg)
        raise Violation()

    def check(self, key, cond, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def prune(self):
        raise Prune()

    def one(self, body):
        self.pos = 0
        self._obs = 1
        self.traces = []
        if self.cur:
            struct.pack_into('<I', self.cur, 8, 0)
        try:
            body(self)
            self.steps += 1
        except Violation:
            pass
        except Prune:
            self._obs = 0
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            self.note('exception', f'{type(e).__name__}: {e}: ' + traceback.format_exc(limit=-4).replace('\n', ' | ')[-800:])
        self.execs += 1
        if self.cur:
            struct.pack_into('<Q', self.cur, 0, self.execs)
        if self._obs:
            self.outcomes.add(self._obs)

    def next(self):
        while self.path:
            p = self.path[-1]
            if p[0] + p[2] < p[1]:
                p[0] += p[2]
                return True
            self.path.pop()
        return False


_scenarios = []


def add(name, bounds, shards, body, quick=True):
    _scenarios.append((name, bounds, shards, body, quick))


def main(setup):
    a = sys.argv[1:]
    ex = Explorer()
    scn = out = cur = None
    lst = False
    budget = 0.0
    while a:
        o = a.pop(0)
        if o == '--list':
            lst = True
        elif o == '--thorough':
            ex.thorough = True
        elif o == '--scenario':
            scn = a.pop(0)
        elif o == '--shard':
            ex.shard, ex.shards = map(int, a.pop(0).split('/'))
        elif o == '--out':
            out = a.pop(0)
        elif o == '--cur':
            cur = a.pop(0)
        elif o == '--budget':
            budget = float(a.pop(0))
        elif o == '--known':
            ex.known.add(a.pop(0))
        elif o == '--replay':
            ex.isreplay = True
            ex.path = [[int(x), -1, 1] for x in a.pop(0).split(',') if x != '']
        else:
            sys.stderr.write(f'unknown argument {o}\n')
            return 96
    setup(ex.thorough)
    if lst:
        for name, bounds, shards, _, quick in _scenarios:
            if quick or ex.thorough:
                print(f'{name}\t{shards}\t{bounds}')
        return 0
    body = [s[3] for s in _scenarios if s[0] == scn]
    if not body:
        sys.stderr.write(f'no scenario {scn}\n')
        return 96
    body = body[0]
    if cur:
        f = open(cur, 'w+b')
        f.truncate(16 + 4 * 16384)
        ex.cur = mmap.mmap(f.fileno(), 16 + 4 * 16384)
    if ex.isreplay:
        ex.tracing = True
        ex.one(body)
        if ex.failed:
            print('FAIL ' + ex.fail_msg)
            return 1
        print('PASS')
        return 0
    t0 = time.time()
    samples = []
    nxt = 1
    capped = False
    while True:
        ex.tracing = ex.execs + 1 == nxt
        ex.one(body)
        if ex.tracing:
            if ex.traces and len(samples) < 6:
                samples.append('; '.join(ex.traces)[:600])
            nxt = nxt * 9 + 3
        if ex.failed:
            break
        if budget and time.time() - t0 > budget:
            capped = True
            break
        if not ex.next():
            break
    if out:
        with open(out, 'w') as f:
            json.dump({
                'scenario': scn, 'shard': ex.shard, 'executions': ex.execs, 'transitions': ex.steps,
                'states': len(ex.states), 'outcomes': len(ex.outcomes), 'pruned': 0, 'capped': capped,
                'setcapped': False, 'wall_s': round(time.time() - t0, 2), 'known': ex.known_hit,
                'failed': ex.failed, 'message': ex.fail_msg,
                'path': [p[0] for p in ex.path[:ex.pos]] if ex.failed else [], 'samples': samples}, f)
        for ext, s in (('.states', ex.states), ('.outcomes', ex.outcomes)):
            with open(out + ext, 'wb') as f:
                f.write(struct.pack(f'<{len(s)}Q', *s))
    return 1 if ex.failed else 0
