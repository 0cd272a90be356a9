"""P03: unusable or unwanted saved state never stops or contaminates a run."""
import os
import pickle
import shutil

from sim import workloads as W
from sim.runner import Skip, Violation

PID = "P03"
TIERS = {"quick": {"runs": 500, "budget": 55, "minimise": 60, "min_runs": 25},
         "thorough": {"runs": 60000, "budget": 780, "minimise": 60, "min_runs": 150}}
REAL = ["start-up, resume and result code of bilby's dynesty, bilby-mcmc, ptemcee, emcee, zeus and kombine samplers",
        "those samplers", "dill"]
STUB = ["disk", "clock", "damage done to the files (by the harness)", "worker pool scheduler", "likelihood"]
REQUIRED_PROBES = ["damaged", "equal-to-fresh", "unwanted", "crash", "leftover-state"]
ASSUMPTIONS = ["damage that still loads as a state of the same sampler (a flipped digit, say) is not recognisable and not injected"]

#: pickles that fail in different ways, or load as something else
JUNK = {
    "empty": b"",
    "text": b"this is not a pickle\n",
    "zeros": b"\0" * 4096,
    "no-module": b"cno_such_module_at_all\nThing\n.",
    "no-class": b"cbilby.core.sampler.base_sampler\nNoSuchClass\n.",
    "bad-memo": b"\x80\x04h\x05.",
    "bad-utf8": b"\x80\x04X\x02\x00\x00\x00\xff\xfe.",
    "bad-call": b"cbuiltins\nint\n(S'abc'\ntR.",
    "no-stop": pickle.dumps({"a": 1})[:-1],
    "none": pickle.dumps(None),
    "dict": pickle.dumps({"sampler": 1}),
    "emptydict": pickle.dumps({}),
    "list": pickle.dumps([1, 2, 3]),
    "float": pickle.dumps(3.5),
    "str": pickle.dumps("resume"),
}


def gen(rng, tier, i):
    from checks import _samplers as SS

    name = rng.choice(["dynesty", "dynesty", "bilby_mcmc", "bilby_mcmc", "ptemcee", "ptemcee", "emcee", "zeus", "kombine"])
    mode = rng.choice(["damaged", "damaged", "unwanted"])
    damage = rng.choice(["truncate"] * 4 + ["zero-tail", "zero-tail", "random", "random", "other", "other"] + sorted(JUNK))
    cfg = SS.config(name, rng)
    if name == "bilby_mcmc":
        # it looks for convergence when it prints: at every step, so that clock reads do not move the end of the run
        cfg.update(printdt=0, check_point_delta_t=0 if cfg["ntemps"] == 1 and cfg["check_point_delta_t"] < 1 else 1e6)
    return {"name": name, "mode": mode, "damage": damage, "frac": rng.random(), "cfg": cfg,
            "npool": rng.choice([1, 1, 1, 2]), "other": rng.choice(sorted(set(SS.CHECKPOINT) - {name})),
            "finish_first": rng.random() < 0.4, "at": rng.choice([60, 200, 400]), "width": rng.choice([4.0, 5.0]),
            "down": rng.choice([1, 1e5]), "noise": rng.randrange(2 ** 31), "change": rng.random() < 0.5, "_lists": []}


def seconds(t):
    return None if t is None else float(t.total_seconds()) if hasattr(t, "total_seconds") else float(t)


def _body(plan, outdir, seed, resume=True, clean=False, width=None, kill=None, name=None, cfg=None):
    name = name or plan["name"]

    def body(s):
        import bilby
        import numpy as np
        from checks import _samplers as SS

        W.reset_cli()
        SS.mute_tqdm()
        SS.fast(name)
        s.like_cap, s.task_cap = 60000, 6000
        s.entropy_fixed = True
        W.seed_all(seed)
        kw = dict(cfg or plan["cfg"])
        try:
            r = bilby.run_sampler(
                W.GaussLikelihood(2, rho=0.3 if width is None else -0.5), W.gauss_priors(2, width or plan["width"]),
                sampler=name, label="run", outdir=outdir, save=True, plot=False, resume=resume, npool=plan["npool"],
                use_ratio=False, clean=clean, **kw)
        except W.NoProgress as e:
            return {"noprogress": str(e)}
        out = {"samples": np.asarray(SS.attr(r, "samples"), dtype=float).tolist(),
               "logl": r.posterior["log_likelihood"].tolist(), "lz": float(r.log_evidence), "time": seconds(SS.attr(r, "sampling_time")),
               "post": r.posterior[["x0", "x1"]].values.tolist(), "ncall": SS.attr(r, "num_likelihood_evaluations"),
               "walkers": np.shape(SS.attr(r, "walkers"))}
        chain = os.path.join(outdir, f"{name}_run", "chain.dat")
        if os.path.exists(chain):
            with open(chain) as f:
                out["chain"] = f.read()
        return out

    return body


def _damage(plan, path, ctx):
    import random

    rng = random.Random(plan["noise"])
    kind = plan["damage"]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = b""
    if os.path.exists(path):
        with open(path, "rb") as f:
            data = f.read()
        ctx.probes["leftover-state"] += 1
    if kind in JUNK:
        new = JUNK[kind]
    elif kind == "random":
        new = bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 300])))
        new = b"\xff" + new          # never a valid first opcode
    elif kind == "truncate":
        if len(data) < 2:
            raise Skip("no state to damage")
        new = data[:max(1, min(len(data) - 1, int(len(data) * plan["frac"])))]
    elif kind == "zero-tail":
        if len(data) < 2:
            raise Skip("no state to damage")
        k = max(1, min(len(data) - 1, int(len(data) * plan["frac"])))
        new = data[:k] + b"\0" * (len(data) - k)
    elif kind == "other":
        from checks import _samplers as SS

        rngo = random.Random(plan["noise"] + 1)
        other = plan["other"]
        ctx.run(_body(plan, "elsewhere", 5, name=other, cfg=SS.config(other, rngo)), [
            {"point": "like", "at": 200, "do": "signal", "signum": 15}], tag="other sampler", cpu=60)
        src = os.path.join(ctx.root, SS.CHECKPOINT[other].replace("out/", "elsewhere/", 1))
        if not os.path.exists(src):
            raise Skip("no state of the other sampler")
        with open(src, "rb") as f:
            new = f.read()
    with open(path, "wb") as f:
        f.write(new)
    ctx.probes["damaged"] += 1


def execute(plan, ctx):
    from checks import _samplers as SS

    name = plan["name"]
    path = SS.checkpoint_file(ctx.root, name)
    seed = plan["noise"] % 100000
    unwanted = plan["mode"] == "unwanted"
    finish = unwanted and plan["finish_first"]
    # 1. an earlier run leaves its state (a different model half of the time when its state is unwanted)
    first = _body(plan, "out", seed + 1, width=3.0 if unwanted and plan["change"] else None)
    end = [] if finish else [{"point": "like" if plan["npool"] == 1 else "task", "at": plan["at"], "do": "signal",
                              "signum": 15}] if plan["frac"] < 0.8 else [
        {"point": "like" if plan["npool"] == 1 else "task", "at": plan["at"], "do": "crash"}]
    out = ctx.run(first, end, tag="earlier run", cpu=60)
    if not finish:
        res = SS.result_files(ctx.root)
        if res:
            raise Skip("the earlier run finished")
    if out["end"] in ("exception", "cpu"):
        raise Skip(f"earlier run: {out.get('msg')}")
    ctx.now += plan["down"]
    if unwanted:
        if os.path.exists(path):
            ctx.probes["leftover-state"] += 1
        ctx.probes["unwanted"] += 1
    else:
        _damage(plan, path, ctx)
        for f in SS.result_files(ctx.root):
            os.remove(f)
    ctx.now += plan["down"]
    start = ctx.now
    for d, _, files in os.walk(ctx.root):
        # the age of a leftover file decides when the next checkpoint is due (P14), nothing more
        for f in files:
            os.utime(os.path.join(d, f), (start - 1e8, start - 1e8))
    # 2. the run under test, and the same run in an empty directory
    args = dict(resume=not unwanted, clean=finish)
    kw = dict(incarnation=50, clock0=start, cpu=60)
    got = ctx.run(_body(plan, "out", seed, **args), [], tag="run under test", **kw)
    ref = ctx.run(_body(plan, "fresh", seed, **args), [], tag="same run in an empty directory", **kw)
    if ref["end"] != "ok" or "noprogress" in ref["value"]:
        raise Skip(f"reference run: {ref.get('msg')}")
    what = f"{name}, " + (f"resume=False after a run that {'finished' if finish else 'was interrupted'}" if unwanted else
                          f"resume file {plan['damage']}")
    if got["end"] != "ok":
        raise Violation(f"failed:{name}:{plan['mode']}", f"{what}: run ended with {got['end']} {got.get('type')}: {got.get('msg')} at "
                        f"{got.get('site')}")
    a, b = got["value"], ref["value"]
    if "noprogress" in a:
        raise Violation(f"no-progress:{name}", f"{what}: {a['noprogress']}")
    for key in ("samples", "logl", "post", "lz", "ncall", "walkers", "chain"):
        if not _same(a.get(key), b.get(key)):
            raise Violation(f"contaminated:{name}:{plan['mode']}:{key}", f"{what}: {key} differs from the same run in an empty directory: "
                            f"{str(a.get(key))[:200]} vs {str(b.get(key))[:200]}")
    if a["time"] is not None and abs(a["time"] - b["time"]) > 0.05 * b["time"] + 0.5:
        raise Violation(f"contaminated:{name}:{plan['mode']}:time", f"{what}: sampling time {a['time']} s, in an empty directory {b['time']} s")
    ctx.probes["equal-to-fresh"] += 1
    ctx.nontrivial = True
    ctx.note(name, plan["mode"], plan["damage"], a["lz"], len(a["samples"]))


def _same(a, b):
    return repr(a) == repr(b)
