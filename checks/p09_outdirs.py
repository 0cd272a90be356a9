"""P09: samplers with external output directories never lose or mix their files.

Real code: the pymultinest, ultranest and dnest4 wrappers and the handling of
temporary output directories.  Stub: the first two libraries (they write,
append, rename and remove files and call back as the real ones do, and keep a
ledger outside the simulated disk), disk, clock, signals.
"""
import hashlib
import json
import os
import signal
import sys
import types

from sim import workloads as W
from sim.runner import Violation

PID = "P09"
TIERS = {"quick": {"runs": 1500, "budget": 34, "minimise": 40, "min_runs": 80},
         "thorough": {"runs": 100000, "budget": 760, "minimise": 60, "min_runs": 400}}
REAL = ["_TemporaryFileSamplerMixin", "bilby's Pymultinest, Ultranest and DNest4 wrappers", "dnest4 (memory backend)",
        "signal wrapper and handler", "shutil"]
STUB = ["libmultinest and ultranest (seeded writers of files with a ledger)", "disk (fault-injecting file layer over tmpfs)",
        "signal source", "clock", "likelihood"]
REQUIRED_PROBES = ["pymultinest", "ultranest", "dnest4", "crash", "eio", "enospc", "signal", "finished", "exit", "failed", "resumed",
                   "foreign", "temporary", "in-place", "time-added", "removed", "bad-time"]
ASSUMPTIONS = ["one process uses an output directory at a time",
               "a file the library was writing in place at the instant of a crash, signal or failure may be incomplete"]
TIME = "sampling_time.dat"
HARD = {"pymultinest": True, "dnest4": True, "ultranest": False}


def gen(rng, tier, i):
    name = ["pymultinest", "ultranest", "pymultinest", "ultranest", "dnest4", "pymultinest"][i % 6]
    steps = []
    for k in range(rng.choice([1, 2, 2, 3, 3])):
        faults = []
        temp = rng.random() < 0.75
        if rng.random() < (0.8 if k < 2 else 0.5):
            for _ in range(rng.choice([1, 1, 1, 2, 2])):
                do = rng.choice(["crash", "crash", "signal", "signal", "signal", "eio", "eio", "enospc", "short", "raise"])
                if do == "raise":
                    f = {"point": "like", "at": rng.randint(0, 20), "do": do}
                elif do == "signal":
                    pt = rng.choice(["like", "fs", "fs", "line", "clock"])
                    hi = {"like": 25, "fs": rng.choice([20, 90]), "line": rng.choice([60, 400]), "clock": 12}[pt]
                    f = {"point": pt, "at": rng.randint(0, hi), "do": do,
                         "signum": int(rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGALRM]))}
                else:
                    f = {"point": "fs", "at": rng.randint(0, rng.choice([15, 60, 120])), "do": do}
                    if do == "crash":
                        f["torn"], f["after"] = rng.random(), rng.random() < 0.5
                        if rng.random() < 0.2:
                            f["point"] = "like"
                            f["at"] = rng.randint(0, 25)
                    if do == "enospc":
                        f["for"] = rng.choice([1, 2, 6, 10 ** 6])
                if f["point"] == "fs" and rng.random() < 0.5:
                    f["match"] = rng.choice(["out/", "tmp/", "sampling_time", "rename", "write tmp/"])
                    f["at"] = f["at"] % 12
                faults.append(f)
        steps.append({"temp": temp, "resume": rng.random() < 0.75, "lib": rng.randrange(10 ** 6), "faults": faults,
                      "target": rng.choice([3, 5, 9]), "every": rng.choice([1, 2, 3]),
                      "lib_fail": rng.random() < 0.1, "foreign": rng.choice([None, None, "notes.txt", "sub/notes.txt"]),
                      "during": rng.random() < 0.3, "time": rng.choice([None, None, None, None, "", "12", "1.5x", "nonsense\n"])})
    return {"name": name, "steps": steps, "exit_code": rng.choice([77, 77, 0, 3]), "interval": rng.choice([1, 2, 10]),
            "basename": rng.choice([None, None, "out/own", "out/own/"]), "reactive": rng.random() < 0.5, "_lists": ["steps"]}


def preload():
    import scipy.linalg  # noqa
    try:
        import dnest4  # noqa
    except ImportError:
        pass


def sha(data):
    return hashlib.sha1(data).hexdigest()[:16]


def tree(top):
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, top)] = sha(h.read())
    return out


class Library:
    """What an external sampler does to its directory, recorded operation by operation."""

    def __init__(self, s, rec, directory, step, resume):
        import random

        self.s, self.rec, self.dir, self.step = s, rec, directory, step
        self.rng = random.Random(step["lib"])
        self.final = s.final
        seen, self.data = {}, {}
        for d, _, fs in os.walk(directory):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    raw = h.read()
                n = os.path.relpath(p, directory)
                self.data[n] = raw
                seen[n] = sha(raw)
        self.rec(op="start", seen=seen, now=s.now, resume=bool(resume))
        self.count = 0
        if resume and "resume.dat" in self.data:
            try:
                word, n = self.data["resume.dat"].decode().split()
                if word == "count":
                    self.count = int(n)
                    s.probe("resumed")
            except ValueError:
                pass

    def path(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, data, how):
        data = data.encode()
        if how == "append":
            new = self.data.get(name, b"") + data
        else:
            new = data
        self.rec(op="begin", name=name)
        p = self.path(name)
        if how == "rename":
            self.rec(op="begin", name=name + "-new")
            with open(p + "-new", "wb") as f:
                f.write(data)
            os.replace(p + "-new", p)
            self.rec(op="removed", name=name + "-new")
        else:
            with open(p, "ab" if how == "append" else "wb") as f:
                for k in range(0, len(data), max(1, len(data) // 2)):
                    f.write(data[k:k + max(1, len(data) // 2)])
                    f.flush()
        self.data[name] = new
        self.rec(op="done", name=name, sha=sha(new))

    def remove(self, name):
        self.rec(op="begin", name=name)
        os.remove(self.path(name))
        del self.data[name]
        self.rec(op="removed", name=name)
        self.s.probe("removed")

    def work(self, evaluate, callback):
        from sim import clock

        step, rng = self.step, self.rng
        self.rec(op="work", now=self.s.now)
        names = ["phys_live.points", "ev.dat", "chains/run.txt", "info/a/state.txt", "stats.dat"]
        while self.count < step["target"]:
            clock.advance(rng.choice([0.5, 3.0, 20.0]))
            for _ in range(2):
                evaluate(rng)
            for _ in range(rng.choice([1, 2, 3])):
                n = rng.choice(names)
                if n in self.data and rng.random() < 0.25:
                    self.remove(n)
                else:
                    self.write(n, f"{n} {self.count} {rng.random()}\n" * rng.choice([1, 20]),
                               rng.choice(["rewrite", "append", "rename"]))
            self.count += 1
            self.write("resume.dat", f"count {self.count}\n", rng.choice(["rewrite", "rename"]))
            if step["during"] and self.count == 2 and "by-user.txt" not in self.data:
                self.rec(op="begin", name="by-user.txt")
                os.makedirs(self.final, exist_ok=True)
                with open(os.path.join(self.final, "by-user.txt"), "w") as f:
                    f.write("written by the user while sampling")
                self.rec(op="foreign", name="by-user.txt", sha=sha(b"written by the user while sampling"))
            if self.count % step["every"] == 0:
                self.rec(op="call")
                callback()
                self.rec(op="called")
            if step["lib_fail"] and self.count == step["target"] - 1:
                self.rec(op="end", now=self.s.now)
                raise RuntimeError("simulated failure of the library")


def _pymultinest(s, rec, step):
    import numpy as np

    mod, run = types.ModuleType("pymultinest"), types.ModuleType("pymultinest.run")
    run.interrupt_handler = lambda *a: None

    def swallow(fn, *a):
        # ctypes prints and ignores exceptions of callbacks
        try:
            return fn(*a)
        except Exception as e:  # noqa
            s.probe("swallowed")
            rec(op="swallowed", msg=f"{type(e).__name__}: {e}"[:300])
            return 0.0

    def solve(LogLikelihood, Prior, n_dims, outputfiles_basename, resume, dump_callback, **kw):
        lib = Library(s, rec, outputfiles_basename, step, resume)
        prev = signal.signal(signal.SIGINT, run.interrupt_handler)

        def evaluate(rng):
            swallow(LogLikelihood, swallow(Prior, np.array([rng.random() for _ in range(n_dims)])))

        lib.work(evaluate, lambda: swallow(dump_callback, *range(9)))
        post = np.array([[lib.rng.random() for _ in range(n_dims + 1)] for _ in range(5)])
        for n, cols in (("post_equal_weights.dat", n_dims + 1), ("ev.dat", n_dims + 3), ("phys_live.points", n_dims + 2)):
            rows = post if n.startswith("post") else [[lib.rng.random() for _ in range(cols)] for _ in range(4)]
            lib.write(n, "".join(" ".join(repr(float(x)) for x in r) + "\n" for r in rows), "rewrite")
        signal.signal(signal.SIGINT, prev)
        s.samples = post[:, :-1].tolist()
        rec(op="end", now=s.now)
        return {"logZ": -1.0, "logZerr": 0.1, "samples": post[:, :-1]}

    mod.solve, mod.run = solve, run
    sys.modules["pymultinest"], sys.modules["pymultinest.run"] = mod, run


def _ultranest(s, rec, step):
    import numpy as np

    mod, integ, stepm = (types.ModuleType(n) for n in ("ultranest", "ultranest.integrator", "ultranest.stepsampler"))

    class Integrator:
        def __init__(self, names, loglike, transform=None, log_dir=None, resume="subfolder", **kw):
            self.loglike, self.transform, self.n, self.viz = loglike, transform, len(names), None
            self.lib = Library(s, rec, log_dir, step, resume is True or str(resume).startswith("resume"))

        def run(self, viz_callback=None, **kw):
            lib = self.lib

            def evaluate(rng):
                self.loglike(self.transform(np.array([rng.random() for _ in range(self.n)])))

            lib.work(evaluate, (lambda: viz_callback([], {}, None)) if viz_callback is not None else lambda: None)
            pts = np.array([[lib.rng.random() for _ in range(self.n)] for _ in range(6)])
            s.samples = pts.tolist()
            lib.write("chains/weighted_post.txt", repr(s.samples), "rewrite")
            rec(op="end", now=s.now)
            return {"weighted_samples": {"points": pts, "weights": np.ones(6) / 6, "logl": np.zeros(6)}, "logz": -1.0,
                    "logzerr": 0.1}

    integ.NestedSampler = type("NestedSampler", (Integrator,), {})
    integ.ReactiveNestedSampler = type("ReactiveNestedSampler", (Integrator,), {})
    stepm.StepSampler = type("StepSampler", (), {})
    mod.integrator, mod.stepsampler = integ, stepm
    sys.modules.update({"ultranest": mod, "ultranest.integrator": integ, "ultranest.stepsampler": stepm})


def _dnest4(s, rec, step):
    import dnest4

    class Sampler(dnest4.DNest4Sampler):
        def sample(self, *a, **kw):
            from sim import clock

            Library(s, rec, s.directory(), step, False)
            rec(op="work", now=s.now)
            for x in super().sample(*a, **kw):
                clock.advance(2.0)
                yield x
                if step["lib_fail"]:
                    raise RuntimeError("simulated failure of the library")
            rec(op="end", now=s.now)

    dnest4.DNest4Sampler = Sampler


class Config:
    def __init__(self, plan):
        self.name = plan["name"]
        self.rel = {"pymultinest": "out/pm_run", "ultranest": "out/ultra_run", "dnest4": "out/dn4_run"}[self.name]
        if plan["basename"]:
            self.rel = plan["basename"].rstrip("/")


def _body(plan, step, ledger):
    def body(s):
        import tempfile

        import bilby
        from bilby.core.sampler import base_sampler
        from sim import proc

        s.enabled = False
        W.reset_cli()
        name, cfg = plan["name"], Config(plan)
        os.makedirs("tmp", exist_ok=True)
        tempfile.tempdir = os.path.join(s.root, "tmp")
        s.final = os.path.join(s.root, cfg.rel)
        fd = os.open(ledger, os.O_CREAT | os.O_WRONLY | os.O_APPEND | os.O_TRUNC)

        def rec(**kw):
            os.write(fd, (json.dumps(kw) + "\n").encode())

        W.seed_all(s.rng.randrange(2 ** 31))
        {"pymultinest": _pymultinest, "ultranest": _ultranest, "dnest4": _dnest4}[name](s, rec, step)
        module = __import__(f"bilby.core.sampler.{name}", fromlist=["x"])
        cls = {"pymultinest": "Pymultinest", "ultranest": "Ultranest", "dnest4": "DNest4"}[name]
        kw = {"temporary_directory": step["temp"]}
        if name == "ultranest":
            kw.update(log_dir=plan["basename"], callback_interval=plan["interval"], resume=step["resume"])
            if not plan["reactive"]:
                kw["num_live_points"] = 20
        else:
            kw["outputfiles_basename"] = plan["basename"]
        if name == "pymultinest":
            kw.update(resume=step["resume"], n_live_points=20)
        if name == "dnest4":
            kw.update(num_steps=4, new_level_interval=20, max_num_levels=3, num_particles=2, seed=1, verbose=False)
        default = [signal.getsignal(n) for n in (15, 2, 14)]
        inside = [False]

        def hard(code):
            proc.die(code, end="exit", hard=code, inside=True)

        real_exit, os._exit = os._exit, hard
        real_die = proc.die

        def die(code, end="crash", **kw):
            os._exit = real_exit
            real_die(code, end, **dict({"inside": inside[0]}, **kw))

        proc.die = die
        sampler = getattr(module, cls)(W.GaussLikelihood(2), W.gauss_priors(2), outdir="out", label="run", use_ratio=False,
                                       exit_code=plan["exit_code"], **kw)
        s.directory = lambda: sampler.kwargs["outputfiles_basename"]
        sent = []
        real_fire = s.fire

        def fire(f, where):
            if f["do"] == "signal":
                ours = signal.getsignal(f["signum"]) not in default
                sent.append(bool(ours))
                rec(op="signal", ours=bool(ours), where=str(where))
            elif f["point"] == "fs":
                rec(op="fsfault", where=str(where))
            real_fire(f, where)

        s.fire = fire
        out = {}
        s.enabled = True
        inside[0] = True
        try:
            result = sampler.run_sampler()
            out.update(end="ok", samples=result.samples.tolist(), time=result.sampling_time.total_seconds(),
                       base=result.outputfiles_basename)
        except SystemExit as e:
            out.update(end="exit", code=e.code)
        except KeyboardInterrupt:
            out.update(end="keyboard")
        except Exception as e:  # noqa: judged by the oracle
            import traceback

            out.update(end="exception", type=type(e).__name__, msg=str(e)[:400], tb=traceback.format_exc()[-1500:])
        s.enabled = False
        os._exit = real_exit
        proc.die = real_die
        out["written"] = getattr(s, "samples", None)
        out["restored"] = [signal.getsignal(n) for n in (15, 2, 14)] == default
        return out

    return body


class Ledger:
    def __init__(self, path):
        self.seen, self.start, self.end = None, None, None
        self.versions, self.last, self.pending, self.gone = {}, {}, set(), set()
        self.saved, self.signals, self.foreign, self.faulty, self.swallowed = {}, [], {}, False, 0
        self.messages = []
        calls = None
        if not os.path.exists(path):
            return
        for line in open(path):
            r = json.loads(line)
            op = r["op"]
            if op == "start":
                self.seen, self.resume = r["seen"], r["resume"]
                self.last = dict(self.seen)
                self.versions = {n: [v] for n, v in self.seen.items()}
            elif op == "work":
                self.start = r["now"]
            elif op == "begin":
                self.pending.add(r["name"])
            elif op == "done":
                self.pending.discard(r["name"])
                self.last[r["name"]] = r["sha"]
                self.versions.setdefault(r["name"], []).append(r["sha"])
            elif op == "removed":
                self.pending.discard(r["name"])
                self.last.pop(r["name"], None)
                self.gone.add(r["name"])
            elif op == "call":
                calls = {n: len(v) - 1 for n, v in self.versions.items() if n in self.last}
            elif op == "called":
                if not self.faulty:
                    self.saved = calls
            elif op == "end":
                self.end = r["now"]
            elif op == "signal":
                self.signals.append(r)
            elif op == "foreign":
                self.foreign[r["name"]] = r["sha"]
                self.pending.discard(r["name"])
            elif op == "fsfault":
                self.faulty = True
            elif op == "swallowed":
                self.swallowed += 1
                self.messages.append(r["msg"])


def _time(path):
    try:
        return float(open(path).readline())
    except (OSError, ValueError):
        return None


def staging(name):
    return name.endswith(".temp")


def execute(plan, ctx):
    name, cfg = plan["name"], Config(plan)
    ctx.probes[name] += 1
    final, tmp = os.path.join(ctx.root, cfg.rel), os.path.join(ctx.root, "tmp")
    ledger = os.path.join(ctx.base, "ledger")
    for k, step in enumerate(plan["steps"]):
        if step["foreign"] and (k or plan["basename"] is None):
            p = os.path.join(final, step["foreign"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(f"kept by the user, step {k}")
            ctx.probes["foreign"] += 1
        timefile = os.path.join(final, TIME)
        if step["time"] is not None and os.path.isdir(final):
            open(timefile, "w").write(step["time"])
            ctx.probes["bad-time"] += _time(timefile) is None
        pre, pre_time = tree(final), _time(timefile)
        left = set(os.listdir(tmp)) if os.path.isdir(tmp) else set()
        t0 = ctx.now
        if os.path.exists(ledger):
            os.remove(ledger)
        lines = ("/bilby/core/sampler/base_sampler", f"/bilby/core/sampler/{name}")
        out = ctx.run(_body(plan, step, ledger), step["faults"], tag=f"run {k}", cpu=40,
                      line_prefixes=lines if any(f["point"] == "line" for f in step["faults"]) else None)
        for f in out["sim"]["fired"]:
            ctx.probes[f["kind"]] += 1
        led, post, post_time = Ledger(ledger), tree(final), _time(timefile)
        elapsed = out["sim"]["now"] - t0
        fs_faulty = led.faulty
        where = [f"{f['kind']} at {f['where']}" for f in out["sim"]["fired"]]
        tag = f"step {k} ({name}{', temporary directory' if step['temp'] else ''}; {'; '.join(where) or 'no faults'})"
        ctx.probes["temporary" if step["temp"] else "in-place"] += 1
        end = out["end"]
        val = out["value"] if end == "ok" else dict(out, code=out.get("hard", out.get("code")))
        if end == "ok":
            end = val["end"]
        if end == "cpu":
            raise Violation(f"no-progress:{name}", f"{tag}: {out.get('where', '')[-500:]}")
        if out["end"] == "exception":
            raise RuntimeError(f"harness: {out.get('type')}: {out.get('msg')}\n{out.get('tb')}")
        ctx.note(name, end, sorted(post))
        _check_end(plan, ctx, step, out, val, end, led, tag)
        _check_files(ctx, plan, step, led, pre, post, final, tmp, end, fs_faulty, tag)
        _check_time(ctx, plan, step, led, pre_time, post_time, post, elapsed, end, fs_faulty, tag, pre)
        if end in ("ok", "exit", "exception") and not fs_faulty and all(r["where"].startswith("like") for r in led.signals):
            now = {d for d in set(os.listdir(tmp)) - left if tree(os.path.join(tmp, d))}
            if now:
                raise Violation(f"left-over:{name}", f"{tag}: the run ended with {end} but left {sorted(now)} in the place for "
                                "temporary files")
        if end == "ok":
            ctx.probes["finished"] += 1
            if name != "dnest4" and sorted(map(tuple, val["samples"])) != sorted(map(tuple, val["written"])):
                raise Violation(f"mixed-samples:{name}", f"{tag}: the result holds samples the library did not write")
            if not val["restored"]:
                raise Violation(f"handlers:{name}", f"{tag}: signal handlers are not restored after the run")


def _check_end(plan, ctx, step, out, val, end, led, tag):
    name = plan["name"]
    raised = any(f["kind"] == "raise" for f in out["sim"]["fired"])
    ours = [r for r in led.signals if r["ours"]]
    if end == "exit":
        ctx.probes["exit"] += 1
        if not ours:
            raise Violation(f"exit-without-signal:{name}", f"{tag}: exited although no signal reached the sampler")
        if val["code"] != plan["exit_code"]:
            raise Violation(f"exit-code:{name}", f"{tag}: exited with {val['code']}, configured {plan['exit_code']}")
    elif end == "exception":
        ctx.probes["failed"] += 1
        expected = led.faulty or raised or (step["lib_fail"] and val["type"] == "RuntimeError" and "simulated" in val["msg"])
        if not expected:
            raise Violation(f"fails:{name}:{val['type']}", f"{tag}: {val['type']}: {val['msg']}\n{val['tb'][-900:]}")
    elif end == "ok" and ours and not led.faulty and not led.swallowed:
        raise Violation(f"signal-ignored:{name}", f"{tag}: the sampler received a signal but the run went on to its end")
    if led.swallowed and not led.faulty and not raised:
        raise Violation(f"callback-fails:{name}", f"{tag}: a callback failed: {led.messages}")


def _check_files(ctx, plan, step, led, pre, post, final, tmp, end, fs_faulty, tag):
    name = plan["name"]

    def clean(d):
        return {n: v for n, v in d.items() if n != TIME and not staging(n)}

    pre, post = clean(pre), clean(post)
    if led.seen is None:
        if post != pre:
            lost = sorted(n for n in pre if post.get(n) != pre[n])
            raise Violation(f"changed-before-start:{name}", f"{tag}: the library was not started but the output directory changed "
                            f"({lost or sorted(set(post) - set(pre))})")
        return
    if name != "dnest4" and led.resume != step["resume"]:
        raise Violation(f"not-resumed:{name}", f"{tag}: asked with resume={step['resume']} but the library was started with resume="
                        f"{led.resume}")
    seen = clean(led.seen)
    if seen != pre:
        diff = sorted(n for n in set(pre) | set(seen) if pre.get(n) != seen.get(n))
        raise Violation(f"not-available:{name}", f"{tag}: the library was started in a directory that differs from the output "
                        f"directory in {diff}")
    for n, v in post.items():
        if n in led.pending or n in led.foreign:
            continue
        if v not in led.versions.get(n, ()):
            raise Violation(f"incomplete-file:{name}", f"{tag}: {n} in the output directory is not a version of it that the library "
                            "ever completed")
    for n in pre:
        if n not in post and n not in led.gone and n not in led.pending:
            raise Violation(f"lost-file:{name}", f"{tag}: {n} was in the output directory before the run and is gone")
    for n, v in led.foreign.items():
        if post.get(n) != v:
            raise Violation(f"lost-file:{name}", f"{tag}: {n}, which the user wrote while sampling, is {'changed' if n in post else 'gone'}")
    if step["temp"] and name == "pymultinest":
        for n, idx in led.saved.items():
            if n in led.pending or n in led.gone or n == TIME or staging(n):
                continue
            if n not in post or len(led.versions[n]) - 1 - led.versions[n][::-1].index(post[n]) < idx:
                raise Violation(f"not-saved:{name}", f"{tag}: {n} was complete when the library last asked to save but its version "
                                "in the output directory is older")
    want = clean(led.last)
    if end in ("ok", "exit", "exception") and not fs_faulty:
        have = {n: v for n, v in post.items() if n not in led.foreign}
        diff = sorted(n for n in set(have) | set(want) if have.get(n) != want.get(n) and n not in led.pending)
        diff = [n for n in diff if n not in led.foreign]
        if diff:
            raise Violation(f"not-kept:{name}", f"{tag}: the run ended with {end} but {diff} in the output directory differ from what "
                            "the library wrote")
    elif end not in ("crash", "killed"):
        copies = {}
        for d in os.listdir(tmp):
            for n, v in tree(os.path.join(tmp, d)).items():
                copies.setdefault(n, set()).add(v)
        for n, v in want.items():
            if n not in led.pending and post.get(n) != v and v not in copies.get(n, ()):
                raise Violation(f"only-copy:{name}", f"{tag}: the run ended with {end}; the last version of {n} is neither in the output "
                                "directory nor in a temporary one")


def _check_time(ctx, plan, step, led, pre_time, post_time, post, elapsed, end, fs_faulty, tag, pre):
    name = plan["name"]
    if post_time is None:
        if TIME in post and post.get(TIME) != pre.get(TIME):
            raise Violation(f"time-unreadable:{name}", f"{tag}: the sampling time file is not readable")
        if TIME in pre and pre_time is not None:
            raise Violation(f"time-lost:{name}", f"{tag}: the recorded sampling time is gone")
        if led.start is not None and end in ("ok", "exit", "exception") and not fs_faulty:
            raise Violation(f"time-missing:{name}", f"{tag}: the run ended with {end} without a sampling time")
        return
    resuming = step["resume"] or name != "pymultinest"
    base = (pre_time or 0.0) if resuming else 0.0
    lo, hi = base, base + elapsed + 1e-6
    if end in ("ok", "exit") and led.end is not None and led.start is not None and not fs_faulty:
        lo = base + max(0.0, led.end - led.start) - 1e-6
        ctx.probes["time-added"] += base > 0
    if not lo - 1e-6 <= post_time <= hi and not (
            post_time == pre_time and (fs_faulty or led.start is None or end in ("crash", "killed"))):
        raise Violation(f"sampling-time:{name}", f"{tag}: sampling time is {post_time}, {pre_time} before a run that took {elapsed} "
                        f"(resume={step['resume']})")
