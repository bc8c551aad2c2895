"""A process pool whose schedule is prescribed.

Takes the place of the pool underneath pathos.pools.ProcessPool (so that everything
pathos does on top - sharing pools, closed pools, restarts - is the real thing).
As in the real pool, workers are forked when the pool is created, functions and
arguments travel pickled, each worker handles its tasks in order of submission, and
results are handed back in order. Which worker handles which task is decided by
SCHEDULE: task number (since creation of the pool) -> worker.
"""
import ctypes
import os
import pickle
import signal
import struct
import sys

import dill

SCHEDULE = [lambda i: 0]
LOG = {"tasks": 0, "pools": 0}
OPEN = []


def _rd(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _recv(fd):
    return _rd(fd, struct.unpack("<Q", _rd(fd, 8))[0])


def _send(fd, b):
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class CtlPool:
    def __init__(self, processes=None, *a, **k):
        self.n = max(1, int(processes or 1))
        self._state = 0
        self.count = 0
        self.pid = os.getpid()
        LOG["pools"] += 1
        self.w = []
        for _ in range(self.n):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                    os.close(w1)
                    os.close(r2)
                    while True:
                        m = _recv(r1)
                        try:
                            f, x = dill.loads(m)
                            out = (True, f(x))
                        except Exception as e:
                            out = (False, e)
                        try:
                            b = dill.dumps(out)
                        except Exception as e:
                            b = dill.dumps((False, RuntimeError("result can not be pickled: %s" % e)))
                        _send(w2, b)
                finally:
                    os._exit(0)
            os.close(r1)
            os.close(w2)
            self.w.append((pid, w1, r2))
        OPEN.append(self)

    def _run(self, f, it):
        if self._state:
            raise ValueError("Pool not running")
        res = []
        for x in it:
            i = self.count
            self.count += 1
            LOG["tasks"] += 1
            pid, w, r = self.w[SCHEDULE[0](i) % self.n]
            _send(w, dill.dumps((f, x)))
            res.append(dill.loads(_recv(r)))
        return res

    def imap(self, f, it, chunksize=1):
        res = self._run(f, it)

        def gen():
            for good, v in res:
                if not good:
                    raise v
                yield v

        return gen()

    def imap_unordered(self, f, it, chunksize=1):
        """in order of completion: the worker that was used last is the fastest"""
        n0 = self.count
        res = self._run(f, it)
        who = [SCHEDULE[0](n0 + i) % self.n for i in range(len(res))]

        def gen():
            for i in sorted(range(len(res)), key=lambda i: (-who[i], i)):
                good, v = res[i]
                if not good:
                    raise v
                yield v

        return gen()

    def starmap(self, f, it, chunksize=None):
        return self.map(lambda a: f(*a), it)

    def starmap_async(self, f, it, *a, **k):
        return self.map_async(lambda a: f(*a), it)

    def apply_async(self, f, args=(), kwds={}, *a, **k):
        r = self.map_async(lambda _: f(*args, **kwds), [0])
        g = r.get
        r.get = lambda timeout=None: g()[0]
        return r

    def map(self, f, it, chunksize=None):
        return list(self.imap(f, it))

    def map_async(self, f, it, *a, **k):
        res = self._run(f, it)

        class R:
            def get(self, timeout=None):
                for good, v in res:
                    if not good:
                        raise v
                return [v for _, v in res]

            def ready(self):
                return True

            def wait(self, timeout=None):
                pass

        return R()

    def apply(self, f, args=(), kwds={}):
        return self.map(lambda _: f(*args, **kwds), [0])[0]

    def close(self):
        self._state = 1

    def join(self):
        if not self._state:
            raise ValueError("Pool is still running")
        self._stop()

    def terminate(self):
        self._state = 2
        self._stop()

    def _stop(self):
        if os.getpid() != self.pid:
            return
        for pid, w, r in self.w:
            for fd in (w, r):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except (OSError, ChildProcessError):
                pass
        self.w = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


def install():
    import pathos.multiprocessing as pm

    pm.Pool = CtlPool
    pm.ProcessPool.__state__.clear()


def shutdown():
    for p in OPEN:
        p._state = 2
        p._stop()
    OPEN.clear()


def assignments(n, w):
    """all assignments of n tasks to at most w workers, up to renaming of workers"""
    def rec(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for j in range(min(m + 1, w)):
            yield from rec(p + [j], max(m, j + 1))

    return list(rec([], 0))
