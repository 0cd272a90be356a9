"""P14: checkpoints keep their cadence, and times stay true, under clock jumps, stalls, downtime and crashes.

Real code: run_sampler and the checkpointing loops of dynesty, ptemcee and bilby-mcmc, the time keeping of every sampler.
Stub: the clocks (wall clock and monotonic clock), disk, crashes and signals, cost of a likelihood call (simulated time).
"""
import json
import os

from sim.runner import Skip, Violation

from . import _samplers as S

PID = "P14"
TIERS = {"quick": {"runs": 600, "budget": 42, "minimise": 50, "min_runs": 25},
         "thorough": {"runs": 60000, "budget": 780, "minimise": 60, "min_runs": 150}}
REAL = ["bilby run_sampler", "bilby's dynesty, ptemcee, bilby-mcmc (checkpoint cadence and time keeping), emcee, zeus, nestle and "
        "ultranest (time keeping) with those libraries"]
STUB = ["wall clock and monotonic clock", "disk", "crashes and signals", "cost of a likelihood call"]
REQUIRED_PROBES = ["jump", "jump-back", "stall", "crash", "signal", "resumed", "clock-set-back-while-down", "cadence-window",
                   "time-carried-over", "dynesty", "ptemcee", "bilby_mcmc", "other"]
ASSUMPTIONS = ["likelihood calls take a constant simulated time", "jumps of the wall clock do not change the monotonic clock",
               "one process: worker pools are left out here"]
BIG = 1e9

CADENCE = ("dynesty", "ptemcee", "bilby_mcmc")


def gen(rng, tier, i):
    name = rng.choice(["dynesty"] * 5 + ["ptemcee"] * 5 + ["bilby_mcmc"] * 4 + ["emcee", "zeus", "nestle", "ultranest"])
    cost = rng.choice([0.001, 0.02, 0.5])
    dt = cost * rng.choice([40, 150, 400, 1000])
    if name in S.CHECKPOINT:
        cfg = S.config(name, rng)
    elif name == "nestle":
        cfg = dict(nlive=20, method=rng.choice(["multi", "single", "classic"]), dlogz=1.0)
    else:
        cfg = dict(num_live_points=40, min_num_live_points=40, frac_remain=0.5, dlogz=2.0, stepsampler=None,
                   callback_interval=rng.choice([1, 5]))
    if name in CADENCE:
        cfg["check_point_delta_t"] = dt
    if name == "dynesty":
        cfg.update(dlogz=rng.choice([1.0, 0.2]), n_check_point=rng.choice([None, None, 20, 60]),
                   print_method=rng.choice(["interval-1e9", "interval-%g" % (cost * 100)]))
    if name == "bilby_mcmc":
        cfg.update(ntemps=rng.choice([1, 1, 2]), printdt=cost * rng.choice([50, 300]), nsamples=rng.choice([20, 60]),
                   proposal_cycle=rng.choice(["default", "defaultnoGMnoFM", "defaultnoFM"]))
    if name == "ptemcee":
        cfg.update(nsamples=rng.choice([120, 300]), verbose=rng.random() < 0.5)
    steps = []
    nstep = rng.choice([1, 1, 2, 2, 3]) if name in CADENCE + ("ultranest",) else 1
    for k in range(nstep):
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            do = rng.choice(["jump", "jump", "jump", "stall"])
            by = rng.choice([0.3 * dt, 0.9 * dt, 3 * dt, 50 * dt, 1e5, 1.5e9]) * (rng.choice([-1, -1, 1]) if do == "jump" else 1)
            if do == "stall":
                by = min(by, 1e5)
            at = rng.randint(0, rng.choice([12, 60, 400, 3000]))
            faults.append({"point": "clock", "at": at, "do": do, "by": by})
            if do == "jump" and rng.random() < 0.5:
                # a wrong time and its correction
                faults.append({"point": "clock", "at": at + rng.choice([1, 2, 5, 30, 300]), "do": "jump", "by": -by})
        if k < nstep - 1:
            if rng.random() < 0.75:
                faults.append({"point": "like", "at": rng.randint(130, rng.choice([600, 2500])), "do": rng.choice(["crash", "signal"]),
                               "signum": 15})
            else:
                faults.append({"point": "fs", "at": rng.randint(5, 60), "do": "crash", "torn": rng.random(), "after": rng.random() < 0.5})
        steps.append({"faults": faults, "down": rng.choice([1.0, 1.0, 0.5 * dt, 1e6, -2 * dt, -1e4, -1e8])})
    return {"name": name, "cfg": cfg, "cost": cost, "dt": dt, "steps": steps, "_lists": ["steps"], "resume": nstep > 1}


def preload():
    import nestle

    S.mute_tqdm()


def between(plan):
    """Likelihood calls between two looks at the clock, and before the first."""
    cfg, name = plan["cfg"], plan["name"]
    if name == "dynesty":
        n = cfg["n_check_point"] or max(int(plan["dt"] / plan["cost"] / 10), 10) + 1
        # a call of run_nested ends with the iteration in which the limit is passed
        return n + 2 * cfg["maxmcmc"], 130 + 2 * cfg["nlive"]
    if name == "ptemcee":
        n = (cfg["niterations_per_check"] + 1) * cfg["nwalkers"] * cfg["ntemps"]     # it starts each round with one more
        return n + 2, 130 + 6 * cfg["nwalkers"] * cfg["ntemps"]
    n = cfg["L1steps"] * cfg["L2steps"] * cfg["ntemps"]
    # a Fisher matrix for a proposal is a burst of calls
    return 2 * n + 4 + (0 if "noFM" in cfg["proposal_cycle"] else 80), 130 + 10 * n


def body_for(plan, logfile, cap=None, clean=False):
    def body(s):
        import bilby
        import numpy as np

        from sim import workloads as W

        name, cost, dt = plan["name"], plan["cost"], plan["dt"]
        S.fast(name)
        s.like_cost, s.like_cap = cost, cap
        W.seed_all(plan["seed"])
        W.reset_cli()
        import random as pyrandom

        pyrandom.seed(plan["seed"])
        path = S.checkpoint_file(s.root, name) if name in CADENCE else None
        log = os.open(logfile, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
        gap, first = between(plan) if name in CADENCE else (0, 0)

        def stat():
            try:
                r = os.stat(path)
            except OSError:
                return None
            return r.st_ino, r.st_mtime_ns, r.st_size

        cur = {"id": stat() if path else None, "n": 0, "mono": s.mono, "fired": 0, "before": 0, "writes": 0, "late": None,
               "early": None}
        resumed = cur["id"] is not None

        class Like(W.GaussLikelihood):
            def log_likelihood(self):
                out = super().log_likelihood()
                if path is None:
                    return out
                n = s.counts["like"]
                now = stat()
                if now != cur["id"]:
                    done = n - 1            # this call came after the write
                    quiet = len(s.fired) == cur["before"]      # since the last write but one
                    if cur["writes"] and quiet and s.mono - cur["mono"] < 0.95 * dt - 10 * cost and cur["early"] is None:
                        cur["early"] = [done, s.mono - cur["mono"]]
                    cur.update(id=now, n=done, mono=s.mono, before=cur["fired"], fired=len(s.fired), writes=cur["writes"] + 1)
                    os.write(log, (json.dumps([done, s.mono]) + "\n").encode())
                lost = n - cur["n"] - gap - (first if not cur["writes"] else 0)
                if lost * cost > dt * 1.0001 and cur["late"] is None:
                    cur["late"] = [n, cur["n"], cur["writes"]]
                    os.write(log, (json.dumps({"late": cur["late"]}) + "\n").encode())
                return out

        kw = dict(plan["cfg"])
        like = Like(2)
        old = None
        timefile = os.path.join(s.root, "out", "ultra", "sampling_time.dat")
        if name == "ultranest":
            kw["log_dir"] = os.path.join(s.root, "out", "ultra")
            kw["use_temporary_directory"] = plan["seed"] % 2 == 0
            try:
                with open(timefile) as f:
                    old = float(f.read())
            except (OSError, ValueError):
                pass
        res = bilby.run_sampler(like, W.gauss_priors(2), sampler=name, label="run", outdir=os.path.join(s.root, "out"), save=False,
                                plot=False, clean=clean, resume=plan["resume"], npool=1, use_ratio=False, **kw)
        stats = res.meta_data.get("run_statistics", {})
        return {"time": float(res.sampling_time), "stats": float(stats.get("sampling_time_s", -1.0)), "early": cur["early"],
                "late": cur["late"], "writes": cur["writes"], "resumed": resumed, "old": old, "nsamples": len(res.samples),
                "final": path is None or os.path.exists(path)}
    return body


def read_log(path):
    out = []
    try:
        with open(path) as f:
            for line in f:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass            # torn by the crash
    except OSError:
        pass
    return out


def execute(plan, ctx):
    name, cost = plan["name"], plan["cost"]
    ctx.probes[name if name in CADENCE else "other"] += 1
    # what the run takes when nothing happens
    ref = ctx.run(body_for(plan, os.path.join(ctx.base, "ref.log")), tag="reference", fresh_root=os.path.join(ctx.base, "ref"),
                  cpu=60)
    if ref["end"] != "ok":
        raise Violation("reference", f"{name} without faults ended with {ref['end']} {ref.get('type')} {ref.get('msg')} "
                        f"{ref.get('site')}")
    cap = 5 * ref["sim"]["counts"].get("like", 0) + 4000
    total, lower, recorded = 0.0, 0.0, 0
    check(plan, ctx, ref, ref["sim"]["mono"], 0.0)
    prev = None
    steps = plan["steps"] + [{"faults": [], "down": 1.0}]
    for k, step in enumerate(steps):
        clock0 = 1.7e9 + 100.0 if prev is None else max(prev + step["down"], 1e6)
        if prev is not None and step["down"] < 0:
            ctx.probes["clock-set-back-while-down"] += 1
        log = os.path.join(ctx.base, f"log{k}")
        out = ctx.run(body_for(plan, log, cap=cap), step["faults"], tag=f"step {k}", clock0=clock0, cpu=90)
        prev = out["sim"]["now"]
        for f in out["sim"]["fired"]:
            if f["kind"].endswith("jump") or f.get("do") == "jump":
                ctx.probes["jump"] += 1
        for f in step["faults"]:
            if f["do"] == "jump" and f["by"] < 0:
                ctx.probes["jump-back"] += 1
        for key in ("stall", "crash", "signal"):
            if any(key in json.dumps(f) for f in out["sim"]["fired"]):
                ctx.probes[key] += 1
        total += out["sim"]["mono"]
        entries = read_log(log)
        late = [e["late"] for e in entries if isinstance(e, dict)]
        writes = [e for e in entries if isinstance(e, list)]
        if late:
            n, last, w = late[0]
            raise Violation(f"{name}-late", f"{name} with a checkpoint interval of {plan['dt']} s: {(n - last) * cost:.3f} s of "
                            f"likelihood calls ({n - last} of {cost} s) since {'checkpoint %d' % w if w else 'the start'} and none written")
        if len(writes) > 1:
            ctx.probes["cadence-window"] += 1
        if out["end"] == "exception" and out.get("type") == "NoProgress":
            raise Violation(f"{name}-endless", f"{name} does not end: {out.get('msg')} (without clock faults "
                            f"{ref['sim']['counts'].get('like')})")
        if out["end"] == "ok":
            check(plan, ctx, out, total, lower)
            if out["value"]["resumed"]:
                ctx.probes["resumed"] += 1
                if lower > 0:
                    ctx.probes["time-carried-over"] += 1
            return
        if out["end"] not in ("crash", "exit", "killed"):
            raise Violation(f"{name}-failed", f"{name} stopped by {out.get('type')}: {out.get('msg')} at {out.get('site')} after "
                            f"{[f for f in out['sim']['fired']]}")
        allow = between(plan)[1] if name in CADENCE else 0
        if writes:
            # the time of this incarnation that the last checkpoint recorded
            lower += max(0.0, 0.95 * (writes[-1][0] - allow) * cost)


def check(plan, ctx, out, total, lower):
    name, cost = plan["name"], plan["cost"]
    v = out["value"]
    n = out["sim"]["counts"].get("like", 0)
    allow = between(plan)[1] if name in CADENCE else 150 if name != "ultranest" else 400
    low = lower + max(0.0, 0.95 * (n - allow) * cost)
    if v["old"] is not None:
        low = max(low, v["old"])
    what = f"{name}: sampling time {v['time']:.6g} s"
    if v["time"] < 0:
        raise Violation(f"{name}-negative", f"{what} is negative")
    if v["time"] < low - 1e-6:
        raise Violation(f"{name}-short", f"{what} is less than the {low:.6g} s recorded and spent on likelihood calls")
    if v["time"] > total + 1e-3:
        raise Violation(f"{name}-long", f"{what} is more than the {total:.6g} s that the process ran")
    if v["stats"] >= 0 and abs(v["stats"] - v["time"]) > 1e-6 * max(1, v["time"]):
        raise Violation(f"{name}-stats", f"{what} but its run statistics say {v['stats']:.6g} s")
    if v["early"] is not None:
        raise Violation(f"{name}-early", f"{name} wrote a checkpoint {v['early'][1]:.4g} s after the previous one, the interval is "
                        f"{plan['dt']} s")
    if name in CADENCE and not v["final"]:
        raise Violation(f"{name}-final", f"{name} left no checkpoint")
    if not v["nsamples"]:
        raise Violation(f"{name}-empty", f"{name} returned no samples")
    ctx.note(name, v["time"], n)
