"""The Python client on a stubbed socket, with the real C++ debugger (harness/x_target.cpp) at the other end."""

import errno
import logging
import os
import struct
import subprocess
import sys

from . import mc

os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
sys.path.insert(0, mc.REPO + '/python')
import zmq  # noqa: E402
from libstored import zmq_client  # noqa: E402
from libstored.zmq_client import ZmqClient, Object  # noqa: E402,F401

logging.disable(logging.CRITICAL)


class Clock:
    now = 1000.0

    def time(self):
        return Clock.now


class Timer:
    """Stands in for QTimer."""
    all = []

    class Sig:
        def __init__(self):
            self.f = []

        def connect(self, f):
            self.f.append(f)

    def __init__(self, parent=None):
        self.timeout = Timer.Sig()
        self.running = False
        self.ms = 0
        Timer.all.append(self)

    def setSingleShot(self, x):
        pass

    def setTimerType(self, x):
        pass

    def setInterval(self, ms):
        self.ms = ms

    def interval(self):
        return self.ms

    def start(self):
        self.running = True

    def stop(self):
        self.running = False

    def fire(self):
        for f in self.timeout.f:
            f()

    @staticmethod
    def singleShot(ms, f):
        pass


class Random:
    def random(self):
        return 0.5


zmq_client.time = Clock()
zmq_client.QTimer = Timer
zmq_client.random = Random()


class Target:
    """The process with the store and the debugger."""
    cache = {}

    def __init__(self, flavour):
        self.flavour = flavour
        self.p = None

    @staticmethod
    def fresh(flavour):
        if flavour not in Target.cache:
            Target.cache[flavour] = Target(flavour)
        t = Target.cache[flavour]
        t.cmd('n')
        return t

    def cmd(self, line):
        if self.p is None:
            self.p = subprocess.Popen([os.path.join(mc.BUILD, 'bin', f'x_target.{self.flavour}')],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.p.stdin.write((line + '\n').encode())
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r.endswith(b'\n'):
            self.p.wait()
            raise RuntimeError(f'the target crashed with {self.p.returncode} at {line}')
        return r.decode()[:-1]

    def req(self, m):
        n, _, d = self.cmd('q ' + bytes(m).hex()).partition(' ')
        if n != '1':
            raise RuntimeError(f'{n} responses for {m}')
        return bytes.fromhex(d)

    def get(self, name):
        return bytes.fromhex(self.cmd('g ' + name))

    def set(self, name, raw):
        if self.cmd(f's {name}={bytes(raw).hex()}') == '?':
            raise RuntimeError(f'cannot set {name}')

    def dump(self):
        return self.cmd('G').split(' ')

    def alias(self, a):
        return self.cmd('A ' + a.encode().hex())


class Socket:
    """A REQ socket. Requests are processed when sent; responses arrive when told, or waited for."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rep = None
        self.arrived = False
        self.closed = False

    def connect(self, a):
        pass

    def setsockopt(self, *a):
        pass

    def send(self, m):
        if self.closed or self.rep is not None:
            raise zmq.ZMQError(errno.ENOTSUP if self.closed else 156384763, 'Operation cannot be accomplished in current state')
        self.ctx.log.append(bytes(m))
        self.rep = self.ctx.handle(bytes(m))
        self.arrived = not self.ctx.slow

    def recv_multipart(self, flags=0):
        if self.closed or self.rep is None:
            raise zmq.ZMQError(156384763, 'Operation cannot be accomplished in current state')
        if not self.arrived:
            raise zmq.ZMQError(zmq.EAGAIN, 'Resource temporarily unavailable')
        r, self.rep = self.rep, None
        return [r]

    def poll(self, timeout=None):
        self.arrived = True
        return 1

    def close(self, *a):
        self.closed = True

    def fileno(self):
        return -1


class Context:
    def __init__(self, target, without='', only=None):
        self.target = target
        self.only = only
        self.without = without.encode()
        self.log = []
        self.slow = False
        self.sock = None

    def socket(self, *a):
        self.sock = Socket(self)
        return self.sock

    def handle(self, m):
        if m[:1] in [bytes([c]) for c in self.without]:
            return b'?'
        r = self.target.req(m)
        if m == b'?':
            r = bytes(c for c in r if c not in self.without)
        elif m == b'l' and self.only:
            r = b''.join(x + b'\n' for x in r.split(b'\n') if x[3:].decode() in self.only)
        return r


class Notifier:
    def __init__(self):
        self.enabled = False

    def setEnabled(self, x):
        self.enabled = x


def client(target, without='', loop=False, only=None, **kw):
    Clock.now = 1000.0
    Timer.all = []
    ctx = Context(target, without, only)
    c = ZmqClient(context=ctx, **kw)
    c._mc = ctx
    if loop:
        c._socketNotifier = Notifier()
        c._haveEventLoop()
        ctx.slow = True
    return c


# Decodes the raw bytes in the store.
def value(o, raw):
    f = {Object.Int8: '<b', Object.Uint8: '<B', Object.Int16: '<h', Object.Uint16: '<H', Object.Int32: '<i',
         Object.Uint32: '<I', Object.Int64: '<q', Object.Uint64: '<Q', Object.Float: '<f', Object.Double: '<d',
         Object.Bool: '<?', Object.Pointer32: '<I', Object.Pointer64: '<Q'}.get(o.type & ~Object.FlagFunction)
    if f:
        return struct.unpack(f, raw)[0]
    if o.type & ~Object.FlagFunction == Object.String:
        return raw.partition(b'\0')[0].decode()
    return bytearray(raw)
