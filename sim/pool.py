"""Simulated multiprocessing.Pool.

Workers are forked copies of the simulated process (so they have exactly the
memory real workers have) but only one of them ever runs: the simulator hands a
chunk to a worker, waits for its answer, and picks the next worker itself from
the plan's PRNG.  Completion order, chunk assignment and starvation are thereby
simulator choices; results and exceptions keep multiprocessing's semantics.
"""
import multiprocessing
import multiprocessing.pool as _mpp
import os
import pickle
import struct
import sys
import traceback

from multiprocessing.reduction import ForkingPickler

from . import state as st
from . import fs as _fs

_live_fds = set()


def _send(fd, obj):
    data = ForkingPickler.dumps(obj)
    data = struct.pack("<Q", len(data)) + bytes(data)
    w = _fs._real.get("os.write", os.write)
    mv = memoryview(data)
    while mv:
        mv = mv[w(fd, mv):]


def _recv(fd):
    def read(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out

    n = struct.unpack("<Q", read(8))[0]
    return pickle.loads(read(n))


class RemoteFailure(Exception):
    pass


class _Worker:
    def __init__(self, pool, idx):
        self.idx = idx
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                for fd in list(_live_fds) + [w1, r2]:
                    _fs._real.get("os.close", os.close)(fd)
                _live_fds.clear()
                self._main(pool, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        _live_fds.update((w1, r2))
        self.alive = True

    def _main(self, pool, r, w):
        s = st.S
        s.in_worker = True
        s.worker_id = self.idx
        s.entropy = None
        import multiprocessing.process as mp_proc

        try:  # look like a pool worker to the code
            p = mp_proc._current_process
            p._config = dict(p._config, daemon=True)
            p._name = f"ForkPoolWorker-{self.idx + 1}"
            p._identity = (self.idx + 1,)
        except Exception:
            pass
        if pool._initializer is not None:
            pool._initializer(*pool._initargs)
        while True:
            try:
                msg = _recv(r)
            except EOFError:
                os._exit(0)
            kind, now, mono, payload = msg
            s.now, s.mono = now, mono
            if kind == "stop":
                os._exit(0)
            if kind == "signal":
                import signal

                try:
                    signal.raise_signal(payload)
                    ans = ("ok", None)
                except SystemExit as e:
                    _send(w, (s.now, s.mono, ("exit", e.code)))
                    os._exit(0)
                except BaseException as e:  # noqa
                    ans = ("exc", e)
                _send(w, (s.now, s.mono, ans))
                continue
            out = []
            try:
                func, chunk, star = pickle.loads(payload)
                for a in chunk:
                    try:
                        out.append((True, func(*a) if star else func(a)))
                    except Exception as e:
                        e.__traceback_str__ = traceback.format_exc()
                        out.append((False, e))
            except Exception as e:
                out = [(False, e)]
            try:
                _send(w, (s.now, s.mono, out))
            except Exception as e:
                _send(w, (s.now, s.mono, [(False, _mpp.MaybeEncodingError(e, "?"))]))

    def call(self, payload):
        s = st.S
        _send(self.w, ("task", s.now, s.mono, payload))
        now, mono, out = _recv(self.r)
        s.now, s.mono = max(now, s.now), max(mono, s.mono)
        return out

    def signal(self, signum):
        s = st.S
        _send(self.w, ("signal", s.now, s.mono, signum))
        now, mono, out = _recv(self.r)
        if out[0] == "exit":
            self.stop()
        return out

    def stop(self):
        if not self.alive:
            return
        self.alive = False
        try:
            _send(self.w, ("stop", 0.0, 0.0, None))
        except OSError:
            pass
        for fd in (self.w, self.r):
            _live_fds.discard(fd)
            os.close(fd)
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


class SimResult:
    def __init__(self, value=None, error=None, callback=None, error_callback=None):
        self._v, self._e = value, error
        if error is None and callback:
            callback(value)
        if error is not None and error_callback:
            error_callback(error)

    def get(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._v

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    def successful(self):
        return self._e is None


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        s = st.S
        if processes is None:
            processes = 4
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if s.in_worker:
            raise AssertionError("daemonic processes are not allowed to have children")
        self._initializer, self._initargs = initializer, tuple(initargs)
        self._processes = processes
        self._state = "RUN"
        self._workers = [_Worker(self, i) for i in range(processes)]
        self._pool = self._workers
        s.log("pool", "start", processes)
        s.probe("pools")
        s.pools = getattr(s, "pools", [])
        s.pools.append(self)

    # -- scheduling ------------------------------------------------------
    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def _chunks(self, items, chunksize, imap=False):
        n = len(items)
        if chunksize is None:
            if imap:
                chunksize = 1
            else:
                chunksize, extra = divmod(n, len(self._workers) * 4)
                if extra:
                    chunksize += 1
        chunksize = max(1, chunksize)
        return [items[i:i + chunksize] for i in range(0, n, chunksize)]

    def _run(self, func, items, chunksize, star=False, imap=False):
        """Returns (results in order, completion order of indices)."""
        s = st.S
        chunks = self._chunks(items, chunksize, imap)
        w = self._workers
        queues = [[] for _ in w]
        style = getattr(s, "pool_style", None) or "random"
        for ci in range(len(chunks)):
            if style == "one":
                wi = 0
            elif style == "rr":
                wi = ci % len(w)
            else:
                wi = s.rng.randrange(len(w))
            queues[wi].append(ci)
        res = [None] * len(chunks)
        order = []
        tasks = 0
        while any(queues):
            live = [i for i, q in enumerate(queues) if q]
            wi = live[s.rng.randrange(len(live))] if style == "random" else live[0]
            ci = queues[wi].pop(0)
            n = s.tick("task")
            cap = getattr(s, "task_cap", None)
            if cap is not None and n > cap:
                from .workloads import NoProgress

                raise NoProgress(f"more than {cap} pool tasks")
            for f in s.due("task", n):
                s.fire(f, f"task {n}")
                if f["do"] == "signal":
                    # delivered to the parent while it waits in map()
                    _fs.deliver(f.get("signum", 15))
                elif f["do"] == "signal-group":
                    for k, x in enumerate(w):
                        if x.alive:
                            look = getattr(s, "group_before", None)
                            before = look() if look else None
                            out = x.signal(f.get("signum", 15))
                            s.log("worker", k, "signal", out[0])
                            s.probe("worker-signals")
                            if look:
                                after = look()
                                s.group_report = getattr(s, "group_report", []) + [{"out": out[0], "changed": sorted(
                                    p for p in set(before) | set(after) if before.get(p) != after.get(p))}]
                    _fs.deliver(f.get("signum", 15))
                elif f["do"] == "crash":
                    _fs.crash()
            payload = bytes(ForkingPickler.dumps((func, chunks[ci], star)))
            s.log("pool", "task", ci, "->", wi)
            res[ci] = w[wi].call(payload)
            order.append(ci)
            tasks += 1
        s.probe("pool-tasks", tasks)
        flat, offs = [], []
        for ci in range(len(chunks)):
            offs.append(len(flat))
            flat.extend(res[ci])
        comp = [offs[ci] + k for ci in order for k in range(len(res[ci]))]
        return flat, comp

    @staticmethod
    def _raise_first(flat, comp):
        for k in comp:
            if not flat[k][0]:
                return flat[k][1]
        return None

    def map(self, func, iterable, chunksize=None):
        self._check()
        flat, comp = self._run(func, list(iterable), chunksize)
        e = self._raise_first(flat, comp)
        if e is not None:
            raise e
        return [v for _, v in flat]

    def starmap(self, func, iterable, chunksize=None):
        self._check()
        flat, comp = self._run(func, list(iterable), chunksize, star=True)
        e = self._raise_first(flat, comp)
        if e is not None:
            raise e
        return [v for _, v in flat]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        flat, comp = self._run(func, list(iterable), chunksize)
        e = self._raise_first(flat, comp)
        return SimResult([v for _, v in flat] if e is None else None, e, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        flat, comp = self._run(func, list(iterable), chunksize, star=True)
        e = self._raise_first(flat, comp)
        return SimResult([v for _, v in flat] if e is None else None, e, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        flat, comp = self._run(_Apply(func, kwds), [tuple(args)], 1)
        ok, v = flat[0]
        return SimResult(v if ok else None, None if ok else v, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        self._check()
        flat, comp = self._run(func, list(iterable), chunksize, imap=True)

        def gen():
            for ok, v in flat:
                if not ok:
                    raise v
                yield v

        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        flat, comp = self._run(func, list(iterable), chunksize, imap=True)

        def gen():
            for k in comp:
                ok, v = flat[k]
                if not ok:
                    raise v
                yield v

        return gen()

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
            st.S.log("pool", "close")

    def terminate(self):
        self._state = "TERMINATE"
        st.S.log("pool", "terminate")
        self._reap()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        st.S.log("pool", "join")
        self._reap()

    def _reap(self):
        for w in self._workers:
            w.stop()
        self._reaped = True

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class _Apply:
    def __init__(self, func, kwds):
        self.func, self.kwds = func, kwds

    def __call__(self, args):
        return self.func(*args, **self.kwds)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real = multiprocessing.Pool

    def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if st.S is None:
            return real(processes, initializer, initargs, maxtasksperchild)
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    multiprocessing.Pool = Pool
    multiprocessing.pool.Pool = SimPool
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.split(".")[0] == "bilby":
            for attr, val in list(vars(mod).items()):
                if getattr(val, "__func__", None) is getattr(real, "__func__", 0) and val == real:
                    setattr(mod, attr, Pool)
