"""P01: replacing a checkpoint is all-or-nothing.

Real code: bilby's checkpoint writer (through the public function every sampler,
cache and pickled data product uses) with real pickle/dill.  Stub: disk, signals.
"""
import hashlib
import os
import pickle
import random
import signal

from sim import durable
from sim.runner import Violation

PID = "P01"
TIERS = {"quick": {"runs": 700, "budget": 45, "minimise": 30, "min_runs": 40},
         "thorough": {"runs": 60000, "budget": 760, "minimise": 60, "min_runs": 200}}
REAL = ["bilby.core.utils.io checkpoint writer", "Interferometer/InterferometerList pickling", "pickle", "dill",
        "shutil/os wrappers"]
STUB = ["disk (fault-injecting file layer over tmpfs, journal-based power-cut model)", "signal source"]
REQUIRED_PROBES = ["crash", "signal", "eio", "enospc", "short", "power-cut", "signal-in-dump"]
ASSUMPTIONS = ["rename within a directory is atomic; fsync makes a file's data and earlier namespace changes durable",
               "one simulated process writes a given checkpoint at a time"]


def gen(rng, tier, i):
    incs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ndump = rng.randint(1, 4)
        faults = []
        power = rng.random() < 0.3
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            kind = rng.choice(["crash", "crash", "crash", "signal", "signal", "eio", "enospc", "short"])
            if kind == "signal" and rng.random() < 0.5:
                faults.append({"point": "line", "at": rng.randint(0, 40 if rng.random() < .5 else 4000),
                               "do": "signal", "signum": rng.choice([15, 2, 14])})
                continue
            f = {"point": "fs", "at": rng.randint(0, 8 * ndump), "do": kind}
            if kind == "crash":
                if rng.random() < 0.5:
                    f["torn"] = rng.random()
                if rng.random() < 0.5:
                    f["after"] = True
            if kind == "enospc":
                f["for"] = rng.choice([1, 2, 5, 10 ** 6])
            if kind == "signal":
                f["signum"] = rng.choice([15, 2, 14])
            faults.append(f)
        incs.append({"dumps": ndump, "faults": faults, "power": power,
                     "module": rng.choice(["pickle", "dill"]),
                     "size": rng.choice([10, 3000, 9000, 30000, 70000]),
                     "grow": rng.choice([-1, 0, 1]),
                     "retry": rng.random() < 0.7})
    return {"incs": incs, "via": rng.choice(["dump", "dump", "dump", "ifo", "ifolist"]),
            "_lists": ["incs"]}


class Payload:
    """Self-describing object: any torn or mixed copy is recognisable."""

    def __init__(self, version, size):
        self.version = version
        self.parts = [hashlib.sha256(f"{version}:{k}".encode()).digest() * 8 for k in range(max(1, size // 256))]

    def ok(self):
        return self.parts == [hashlib.sha256(f"{self.version}:{k}".encode()).digest() * 8
                              for k in range(len(self.parts))]


def _make(via, version, size):
    if via == "dump":
        return Payload(version, size)
    import numpy as np
    from bilby.gw.detector import InterferometerList

    ifos = InterferometerList(["H1", "L1"])
    for ifo in ifos:
        ifo.strain_data.set_from_frequency_domain_strain(
            np.full(max(2, size // 64) * 2 + 1, version, dtype=complex),
            sampling_frequency=4.0 * max(2, size // 64), duration=1, start_time=0)
        ifo.verif_version = version
    ifos.meta_version = version
    return ifos if via == "ifolist" else ifos[0]


def _version_of(via, obj):
    import numpy as np

    if via == "dump":
        return obj.version if obj.ok() else None
    ifos = obj if via == "ifolist" else [obj]
    vs = {ifo.verif_version for ifo in ifos}
    for ifo in ifos:
        vs |= set(np.real(ifo.strain_data._frequency_domain_strain).astype(int))
    return vs.pop() if len(vs) == 1 else None


def _target(via, root):
    return os.path.join(root, {"dump": "run_resume.pickle", "ifo": "x.pkl", "ifolist": "x_H1L1.pkl"}[via])


def _dump(via, obj, root, module):
    if via == "dump":
        from bilby.core.utils.io import safe_file_dump

        safe_file_dump(obj, _target(via, root), module)
    else:
        obj.to_pickle(outdir=root, label="x")


def _load(via, path):
    import dill

    with open(path, "rb") as f:
        return dill.load(f)


def _body(plan, inc, first, ackfd):
    def body(s):
        root = s.root
        via = plan["via"]
        state = {"v": first, "depth": 0, "inside": False}

        def note(tag, v):
            from sim import fs
            fs._real["os.write"](ackfd, f"{tag} {v}\n".encode())

        def dump_next():
            v = state["v"]
            state["v"] += 1
            size = max(10, inc["size"] + inc["grow"] * 8000 * (v - first))
            obj = _make(via, v, size)
            note("try", v)
            was, state["inside"] = state["inside"], True
            try:
                _dump(via, obj, root, inc["module"])
            finally:
                state["inside"] = was
            note("ack", v)

        def handler(signum, frame):
            if state["inside"]:
                s.probe("signal-in-dump")
            s.log("handler", signum)
            dump_next()
            raise SystemExit(130)

        for sg in (signal.SIGTERM, signal.SIGINT, signal.SIGALRM):
            signal.signal(sg, handler)
        for _ in range(inc["dumps"]):
            try:
                dump_next()
            except OSError as e:
                s.log("oserror", e.errno)
                if not inc["retry"]:
                    raise
        return state["v"]

    return body


def execute(plan, ctx):
    via = plan["via"]
    path = _target(via, ctx.root)
    version = 1
    valid = {None}          # versions (None = absent) the file may hold
    rng = random.Random(f"cut:{plan['seed']}")
    for k, inc in enumerate(plan["incs"]):
        before = durable.snapshot(ctx.root)
        jpath = os.path.join(ctx.base, f"journal{k}")
        jfd = os.open(jpath, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600) if inc["power"] else None
        apath = os.path.join(ctx.base, f"acks{k}")
        afd = os.open(apath, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        import bilby
        import dill

        pre = (os.path.dirname(os.path.abspath(bilby.__file__)) + "/core/utils/io",
               os.path.dirname(dill.__file__))
        out = ctx.run(_body(plan, inc, version, afd), inc["faults"], tag=f"dump x{inc['dumps']}", journal=jfd,
                      line_prefixes=pre, cpu=60)
        os.close(afd)
        if jfd is not None:
            os.close(jfd)
        if out["end"] in ("cpu", "killed"):
            raise Violation("no-progress", f"checkpoint write ended by {out['end']}: {out.get('where', '')}")
        tried, acked, last = [], None, None
        for line in open(apath):
            tag, v = line.split()
            v = int(v)
            last = v
            if tag == "try":
                tried.append(v)
            elif tag == "ack" and (acked is None or v > acked):
                acked = v
        nf = len(out["sim"]["fired"])
        if out["end"] == "exception" and not (out["type"] == "OSError" and nf):
            raise Violation("dump-raised", f"checkpoint write raised {out['type']}: {out['msg']} ({out.get('site')})")
        if not nf and out["end"] == "ok" and acked != max(tried, default=None):
            raise Violation("dump-raised", "a fault-free checkpoint write failed")
        prev = set(valid)
        cut = None
        if inc["power"] and out["end"] in ("crash", "exit"):
            cut = durable.power_cut(ctx.root, before, durable.read_journal(jpath), rng)
            ctx.fired["power-cut"] += 1
            ctx.note(cut)
            allowed = prev | set(tried)
            if acked is not None:
                # something was acknowledged: an older complete copy may come
                # back (directory entry not yet durable) but never "no file"
                # unless there was none before
                pass
        else:
            allowed = {v for v in tried if acked is None or v >= acked}
            if acked is None:
                allowed |= prev
        got = None
        if os.path.exists(path):
            try:
                obj = _load(via, path)
            except Exception as e:
                raise Violation("corrupt", f"checkpoint unreadable after {out['end']} {out['sim']['fired']} "
                                f"cut={cut}: {type(e).__name__}: {e}")
            got = _version_of(via, obj)
            if got is None:
                raise Violation("mixed", f"checkpoint holds a mixture of versions after {out['sim']['fired']}")
        if got not in allowed:
            what = "lost" if got is None else "stale"
            raise Violation(what, f"file holds version {got}, allowed {sorted(map(str, allowed))} after {out['end']} "
                            f"{out['sim']['fired']} cut={cut}")
        ctx.note(k, got)
        valid = {got}
        version = max([version] + [t + 1 for t in tried])
