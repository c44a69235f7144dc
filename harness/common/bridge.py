"""Talks to harness/x_bridge.cpp, the C++ protocol layers behind a pipe."""

import os
import subprocess

from . import mc


class Bridge:
    def __init__(self):
        exe = os.path.join(mc.BUILD, 'bin', 'x_bridge.asan')
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def cmd(self, line):
        self.p.stdin.write((line + '\n').encode())
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r.endswith(b'\n'):
            self.p.wait()
            raise RuntimeError(f'the C++ side crashed with {self.p.returncode} at {line}')
        return r.decode().split()

    def msgs(self, line):
        """Returns (up, wire, text)."""
        u, w, x = [], [], []
        for t in self.cmd(line):
            {'u': u, 'w': w, 'x': x}[t[0]].append(bytes.fromhex(t[1:]))
        return u, w, b''.join(x)

    def new(self, mtu, desc):
        self.cmd(f'n {mtu} {desc}')

    def encode(self, m, last=True):
        return self.msgs(('E ' if last else 'e ') + m.hex())

    def decode(self, m):
        return self.msgs('d ' + bytes(m).hex())

    def mode(self, m):
        self.cmd(f's {m}')

    def flush(self):
        return self.msgs('f')

    def mtu(self):
        return int(self.cmd('m')[0][1:])
