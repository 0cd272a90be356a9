"""Incarnations: one simulated OS process = one fork, run to its end or crash."""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from . import state as st
from . import fs, clock, pool, interrupt, entropy

fs_time = time.monotonic
DEADLINE = None  # real monotonic time after which a run is dropped (minimiser)
_report_fd = None
_mods0 = set()


def die(code, end="crash", **kw):
    """Crash now: report the trace (the simulator's, not the process's), exit."""
    from . import pool as _pool

    s = st.S
    if s is not None and not s.in_worker and _report_fd is not None:
        _write_report(dict(kw, end=end, sim=s.report()))
    os._exit(code)


def _write_report(obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<Q", len(data)) + data
    w = fs._real.get("os.write", os.write)
    mv = memoryview(data)
    while mv:
        mv = mv[w(_report_fd, mv):]


class Outcome(dict):
    """end: 'ok' | 'exit' | 'exception' | 'crash' | 'killed' | 'cpu' | 'harness'"""

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def run(body, *, seed, root, faults=(), incarnation=0, clock0=1.7e9, mono0=0.0, journal=None,
        cpu=120, line_prefixes=None, count_lines=False, setup=None, pool_style=None):
    """Fork; in the child run `body(state)`; return an Outcome."""
    global _report_fd
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            _report_fd = w
            _child(body, w, seed, root, faults, incarnation, clock0, mono0, journal, cpu, line_prefixes,
                   count_lines, setup, pool_style)
            code = 0
        except BaseException:
            try:
                _write_report({"end": "harness", "error": traceback.format_exc()})
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    limit = fs_time() + max(300, 3 * cpu)
    if DEADLINE is not None:
        limit = min(limit, DEADLINE)
    while True:
        if not select.select([r], [], [], max(0.0, limit - fs_time()))[0]:
            # blocked in real time (not CPU): drop the run, it is nobody's verdict
            for kill in (os.killpg, os.kill):
                try:
                    kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(pid, 0)
            os.close(r)
            return Outcome(end="wall", sim={"fired": [], "digest": "", "counts": {}, "now": clock0, "mono": mono0,
                                            "probes": {}, "trace": []}, status=0)
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    out = None
    if len(data) >= 8:
        n = struct.unpack("<Q", data[:8])[0]
        if len(data) >= 8 + n:
            out = Outcome(pickle.loads(data[8:8 + n]))
    if out is None:
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig in (signal.SIGXCPU, signal.SIGVTALRM):
                out = Outcome(end="cpu")
            else:
                out = Outcome(end="killed", signum=sig)
        else:
            code = os.WEXITSTATUS(status)
            if code == st.CPU_CODE:
                out = Outcome(end="cpu")
            else:
                out = Outcome(end="exit", code=code, hard=True)
    out.setdefault("sim", {"fired": [], "digest": "", "counts": {}, "now": clock0, "mono": mono0, "probes": {},
                           "trace": []})
    out["status"] = status
    return out


_progress = None


def _cpu_out(signum, frame):
    """Out of CPU time: stuck, or (the machine is slow) still working?  Ask again a little later."""
    global _progress
    counts = st.S.counts if st.S else {}
    now = sum(counts.get(k, 0) for k in ("like", "fs", "task"))
    if _progress is None:
        _progress = now
        signal.setitimer(signal.ITIMER_VIRTUAL, 12)
        return
    tb = "".join(traceback.format_stack(frame)[-8:])
    end = "cpu" if now == _progress else "wall"
    _write_report({"end": end, "where": tb, "sim": st.S.report() if st.S else {}})
    os._exit(st.CPU_CODE)


def _child(body, w, seed, root, faults, incarnation, clock0, mono0, journal, cpu, line_prefixes, count_lines,
           setup, pool_style):
    global _mods0
    _mods0 = set(sys.modules)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    signal.signal(signal.SIGVTALRM, _cpu_out)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    fs.install()
    clock.install()
    pool.install()
    entropy.install()
    os.chdir(root)
    s = st.State(seed, root, faults, clock0=clock0, journal=journal, incarnation=incarnation)
    s.mono = mono0
    s.pool_style = pool_style
    s.next_line = float("inf")
    import random
    import numpy as np

    h = int.from_bytes(__import__("hashlib").sha256(f"rng:{seed}:{incarnation}".encode()).digest()[:4], "little")
    random.seed(h)
    np.random.seed(h)
    if setup is not None:
        setup(s)
    st.install(s)
    try:
        if line_prefixes:
            interrupt.start(s, line_prefixes, count=count_lines)
        if os.environ.get("VERIF_PROF"):
            import cProfile
            import pstats

            pr = cProfile.Profile()
            try:
                value = pr.runcall(body, s)
            finally:
                pr.create_stats()
                pstats.Stats(pr, stream=sys.stderr).sort_stats("tottime").print_stats(18)
        else:
            value = body(s)
        out = {"end": "ok", "value": value}
    except SystemExit as e:
        out = {"end": "exit", "code": e.code}
    except KeyboardInterrupt as e:
        out = {"end": "exception", "type": "KeyboardInterrupt", "msg": str(e), "tb": traceback.format_exc()}
    except Exception as e:
        out = {"end": "exception", "type": type(e).__name__, "msg": str(e)[:500],
               "mro": [c.__name__ for c in type(e).__mro__], "tb": traceback.format_exc()[-3000:]}
        # where in bilby it escaped from (innermost bilby frame)
        site = ""
        tb = e.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if "/bilby/" in fn or "/dynesty/" in fn:
                site = f"{os.path.basename(fn)}:{tb.tb_frame.f_code.co_name}"
            tb = tb.tb_next
        out["site"] = site
    finally:
        interrupt.stop()
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if os.environ.get("VERIF_IMPORTS"):
        new = sorted(set(sys.modules) - _mods0)
        os.write(2, (f"child imported {len(new)}: {new[:40]} cpu={time.process_time():.2f}\n").encode())
    out["exitinfo"] = getattr(s, "exitinfo", None)
    out["sim"] = s.report()
    st.S = None
    try:
        _write_report(out)
    except Exception:
        out.pop("value", None)
        out["end"] = "harness"
        out["error"] = "unpicklable value: " + traceback.format_exc()
        _write_report(out)
