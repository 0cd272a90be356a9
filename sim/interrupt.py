"""Line-level interrupt points: the k-th executed line of chosen files."""
import os
import signal
import sys

from . import state as st

TOOL = 4
_prefixes = ()


def _cb(code, line):
    fn = code.co_filename
    if not fn.startswith(_prefixes):
        return sys.monitoring.DISABLE
    s = st.S
    if s is None or s.in_worker or not s.enabled:
        return None
    n = s.counts.get("line", 0)
    s.counts["line"] = n + 1
    if n >= s.next_line:
        for f in s.faults:
            if f.get("point") == "line" and not f.get("done") and f["at"] == n:
                f["done"] = True
                where = f"{os.path.basename(fn)}:{code.co_name}"
                s.fire(f, where)
                _arm(s)
                if f["do"] == "signal":
                    from . import fs

                    fs.deliver(f.get("signum", signal.SIGTERM))
                elif f["do"] == "crash":
                    from . import proc

                    proc.die(st.CRASH_CODE)
                elif f["do"] == "memoryerror":
                    raise MemoryError("simulated allocation failure")
                elif f["do"] == "oserror":
                    raise OSError(5, "simulated I/O error")
        _arm(s)
    return None


def _arm(s):
    pend = [f["at"] for f in s.faults if f.get("point") == "line" and not f.get("done")]
    s.next_line = min(pend) if pend else float("inf")


def start(state, prefixes, count=False):
    """Begin counting lines in files under `prefixes` (only if needed)."""
    global _prefixes
    if not count and not any(f.get("point") == "line" for f in state.faults):
        return
    from . import boot

    _prefixes = tuple(boot.REPO.rstrip("/") + p if p.startswith("/bilby/") else p for p in prefixes)
    _arm(state)
    mon = sys.monitoring
    try:
        mon.use_tool_id(TOOL, "verif-sim")
    except ValueError:
        pass
    mon.register_callback(TOOL, mon.events.LINE, _cb)
    mon.set_events(TOOL, mon.events.LINE)


def stop():
    try:
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.free_tool_id(TOOL)
    except Exception:
        pass
