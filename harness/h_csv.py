# The CSV export of the Python client, with all interleavings of its writer thread.
# mc: property=P32
import csv as pycsv
import os
import queue
import shutil
import sys
import tempfile
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import mc  # noqa: E402

os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
sys.path.insert(0, mc.REPO + '/python')
from libstored import csv as libcsv  # noqa: E402


class Sched:
    """Runs the writer thread in lockstep: it is parked before it takes an item, and before it takes the lock."""

    def __init__(self):
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.thread = None
        self.done = False
        self.free = False

    def park(self):
        if threading.current_thread() is self.thread and not self.free:
            self.back.release()
            self.go.acquire()

    def step(self):
        if self.thread and not self.done:
            self.go.release()
            self.back.acquire()


S = None


class Thread:
    def __init__(self, target=None):
        def run():
            try:
                S.park()
                target()
            finally:
                S.done = True
                S.back.release()
        self.t = threading.Thread(target=run)
        self.t.daemon = True
        S.thread = self.t

    def start(self):
        self.t.start()
        S.back.acquire()

    def join(self):
        S.free = True
        S.go.release()
        self.t.join()


class Queue:
    def __init__(self):
        self.q = []

    def get(self, block=True):
        if threading.current_thread() is S.thread:
            S.park()
            while not self.q:
                if S.free:
                    raise RuntimeError('deadlock')
                S.park()
        elif not self.q:
            raise queue.Empty()
        return self.q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def put(self, x):
        self.q.append(x)

    def empty(self):
        return not self.q


class Lock:
    def __init__(self):
        self.l = threading.RLock()

    def acquire(self):
        S.park()
        return self.l.acquire()

    def release(self):
        self.l.release()

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class Threading:
    Thread = Thread
    RLock = Lock
    Lock = Lock


class Queues:
    Queue = Queue
    SimpleQueue = Queue
    Empty = queue.Empty


libcsv.threading = Threading
libcsv.queue = Queues


class Obj:
    def __init__(self, name):
        self.name = name
        self._value = 0

    @property
    def value(self):
        return self._value


OPS = ['write', 'step', 'add-a', 'add-b', 'remove-a', 'remove-b', 'restart', 'pause', 'unpause', 'other-file']


def run(ex, threaded, depth, ops):
    global S
    S = Sched()
    d = tempfile.mkdtemp(prefix='verif_csv_')
    try:
        body(ex, threaded, depth, ops, d)
    finally:
        shutil.rmtree(d)


def body(ex, threaded, depth, ops, d):
    fn = os.path.join(d, 'x.csv')
    e = libcsv.CsvExport(filename=fn, threaded=threaded, autoFlush=ex.pick([None, 0]))
    a, b = Obj('/a,"x'), Obj('/b')
    logged = {}
    cur = []
    logged[fn] = [cur]
    have = set()
    dirty = False
    paused = False
    n = 0
    for i in range(depth):
        o = ops[ex.shard_choose(len(ops)) if i == 0 else ex.choose(len(ops))]
        ex.trace(o)
        if o == 'write':
            n += 1
            a._value, b._value = n, 100 + n
            if not paused:
                if dirty:
                    dirty = False
                    cur = []
                    logged[fn].append(cur)
                cur.append([str(n + 0.5)] + [str(x._value) for x in (a, b) if x in have])
            e.write(n + 0.5)
        elif o == 'step':
            S.step()
        elif o.startswith('add') or o.startswith('remove'):
            x = a if o[-1] == 'a' else b
            if o.startswith('add'):
                e.add(x)
                dirty = dirty or x not in have
                have.add(x)
            else:
                e.remove(x)
                dirty = dirty or x in have
                have.discard(x)
        elif o == 'restart':
            if paused:
                ex.prune()
            e.restart()
            cur = []
            logged[fn].append(cur)
            dirty = False
        elif o == 'pause':
            e.pause()
            paused = True
        elif o == 'unpause':
            e.unpause()
            paused = False
        else:
            fn = os.path.join(d, f'y{i}.csv')
            e.restart(fn)
            cur = []
            logged[fn] = [cur]
            dirty = False
            paused = False
        ex.step()
    e.close()
    for f, l in logged.items():
        with open(f, newline='') as h:
            rows = list(pycsv.reader(h))
        # A restart starts the file over. What was not written by then, is dropped.
        exp = l[-1]
        ex.check('header', rows and rows[0][:1] == ['t'], lambda: f'header of {f} is {rows[:1]}')
        got = rows[1:]
        if f == fn:
            ex.check('rows', got == exp, lambda: f'{os.path.basename(f)} has {got} below {rows[0]}, expected {exp}')
        else:
            ex.check('prefix', got == exp[:len(got)], lambda: f'{os.path.basename(f)} has {got} below {rows[0]}, expected {exp}')
        ex.check('columns', all(len(r) == len(rows[0]) for r in got), lambda: f'{rows}')
        if not dirty and f == fn:
            ex.check('names', rows[0] == ['t'] + [x.name for x in (a, b) if x in have], lambda: f'header {rows[0]}')
    ex.state((len(have), paused, n))
    ex.obs(tuple(len(l[-1]) for l in logged.values()))


def names(ex):
    """Generated names of files never overwrite."""
    d = tempfile.mkdtemp(prefix='verif_csv_')
    try:
        exist = [x for i, x in enumerate(['a.csv', 'a_2.csv', 'a_3.csv', 'b.csv', 'b_2.csv']) if ex.choose(2)]
        for x in exist:
            open(os.path.join(d, x), 'w').close()
        files = [os.path.join(d, x) for x in ex.pick([['a.csv'], ['b.csv'], ['a.csv', 'b.csv'], ['a.csv', 'a.csv'], ['a.csv', 'a_2.csv'], ['a.csv', 'a.csv', 'a.csv']])]
        base = [os.path.join(d, x) for x in ex.pick([[], ['a'], ['b'], ['a', 'b']])]
        r = libcsv.generateFilename(filename=files, base=base, unique=True)
        ex.trace(f'{exist} {files} {base}')
        ex.check('count', len(r) == len(files) + len(base), lambda: f'{r}')
        ex.check('unique', len(set(r)) == len(r) and not any(os.path.lexists(x) for x in r), lambda: f'{files} {base} gives {r}, while {exist} exist')
        for x in files:
            if os.path.basename(x) not in exist:
                ex.check('kept', x in r, lambda: f'{x} is free, but not used in {r}')
        ex.obs(tuple(r))
    finally:
        shutil.rmtree(d)


def setup(thorough):
    k = 7 if thorough else 6
    core = ['write', 'step', 'add-a', 'add-b', 'remove-a', 'restart']
    mc.add('threaded', f'all sequences of {k} operations out of {len(core)}, including every step of the writer', 6, lambda ex: run(ex, True, k, core))
    mc.add('direct', f'all sequences of {k - 1} operations out of {len(OPS)}, without a thread', 9, lambda ex: run(ex, False, k - 1, [o for o in OPS if o != 'step']))
    mc.add('pause', f'all sequences of {k - 2} operations out of {len(OPS)}, with a thread', 10, lambda ex: run(ex, True, k - 2, OPS))
    mc.add('names', 'all sets of existing and requested files', 1, names)


sys.exit(mc.main(setup))
