"""State of one simulated process (an *incarnation*).

A single object, `S`, lives in each forked incarnation.  Every seam (file layer,
clock, pool, interrupts) reports to it and asks it for fault decisions.  All
decisions come from the plan (a JSON dict) and from `S.rng`, a `random.Random`
seeded from the plan: one plan is one exactly repeatable execution.
"""
import hashlib
import os
import random


# debugging aid: append every event to this file
TRACE = os.environ.get("VERIF_TRACE")
_OPEN, _WRITE, _CLOSE = os.open, os.write, os.close


class SimCrash(BaseException):
    """Only used where a crash has to unwind inside one process."""


CRASH_CODE = 77
CPU_CODE = 78


class State:
    def __init__(self, seed, root, faults=(), clock0=1.7e9, journal=None, incarnation=0):
        self.seed = seed
        self.root = root
        self.rng = random.Random(f"inc:{seed}:{incarnation}")
        self.faults = [dict(f) for f in faults]
        self.fired = []
        self.trace = []
        self.hash = hashlib.sha256()
        self.counts = {}
        self.enabled = True
        self.in_worker = False
        self.journal = journal
        self.now = clock0
        self.mono = 0.0
        self.probes = {}
        self.worker_id = None

    # -- bookkeeping -----------------------------------------------------
    def log(self, *event):
        line = " ".join(str(e) for e in event)
        self.hash.update(line.encode() + b"\n")
        if TRACE:
            fd = _OPEN(TRACE, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            _WRITE(fd, line.encode() + b"\n")
            _CLOSE(fd)
        if len(self.trace) < 4000:
            self.trace.append(line)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def tick(self, kind):
        n = self.counts.get(kind, 0)
        self.counts[kind] = n + 1
        return n

    # -- fault decisions -------------------------------------------------
    def due(self, point, n, info=None):
        """Return the faults whose (point, at) match this event."""
        if not self.enabled or self.in_worker:
            return []
        out = []
        for f in self.faults:
            if f.get("point") != point or f.get("done"):
                continue
            if "match" in f and (info is None or f["match"] not in str(info)):
                continue
            if "match" in f:
                # 'at' counts matching events only
                k = f.get("_seen", 0)
                f["_seen"] = k + 1
            else:
                k = n
            if k == f.get("at", 0):
                f["done"] = True
                out.append(f)
        return out

    def fire(self, f, where):
        self.fired.append({"kind": f["do"], "where": str(where)})
        self.log("FAULT", f["do"], where)

    def report(self):
        return {
            "fired": self.fired,
            "digest": self.hash.hexdigest(),
            "counts": self.counts,
            "now": self.now,
            "mono": self.mono,
            "probes": self.probes,
            "trace": self.trace[-400:],
        }


S = None


def install(state):
    global S
    S = state
    return state


def rel(path):
    try:
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = p.decode()
        p = os.path.abspath(p)
    except TypeError:
        return str(path)
    if S is not None and p.startswith(S.root):
        return p[len(S.root):].lstrip("/")
    return p
