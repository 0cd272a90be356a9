"""P02: an interrupted nested-sampling run resumes without losing or altering points."""
import collections
import glob
import math
import os

from sim import workloads as W
from sim.runner import HarnessError, Violation

PID = "P02"
TIERS = {"quick": {"runs": 500, "budget": 50, "minimise": 60, "min_runs": 12},
         "thorough": {"runs": 20000, "budget": 780, "minimise": 60, "min_runs": 60}}
REAL = ["bilby run_sampler + dynesty wrapper + proposals", "dynesty", "dill", "bilby result saving/reading",
        "bilby priors and likelihood interface"]
STUB = ["disk (fault-injecting layer)", "clock", "signal source", "worker pool scheduler (forked lock-step workers)",
        "likelihood (pure Gaussian)"]
REQUIRED_PROBES = ["crash", "signal", "resumed", "checkpointed", "pool-tasks", "enospc"]
ASSUMPTIONS = ["interrupts are placed at likelihood calls, file operations, pool waits, clock reads and lines of "
               "bilby code; instants inside dynesty's own (third-party) bookkeeping are not sampled",
               "resume files are only altered by the run itself"]

SAMPLES = [
    dict(sample="acceptance-walk", bound="live", naccept=4),
    dict(sample="acceptance-walk", bound="live-multi", naccept=4),
    dict(sample="rwalk", bound="live", nact=2, maxmcmc=120, walks=5),
    dict(sample="rwalk", bound="live-multi", nact=1, maxmcmc=120, walks=5, proposals=["diff", "volumetric"]),
    dict(sample="act-walk", bound="live", nact=1, maxmcmc=150),
    dict(sample="rwalk", bound="multi", nact=2, maxmcmc=120, walks=5),
    dict(sample="rwalk_dynesty", bound="multi", walks=8),
    dict(sample="unif", bound="multi"),
    dict(sample="rslice", bound="multi"),
]


def gen(rng, tier, i):
    ndim = rng.choice([1, 2, 2, 3])
    npool = rng.choice([1, 1, 1, 2, 3])
    cfg = dict(rng.choice(SAMPLES))
    cfg.update(nlive=rng.choice([16, 20, 30]), dlogz=rng.choice([0.5, 1.0]),
               check_point_delta_t=rng.choice([0, 1, 5, 20, 1e6]),
               n_check_point=rng.choice([None, 20, 60, 300]))
    if rng.random() < 0.3:
        cfg["rejection_sample_posterior"] = False
    if rng.random() < 0.3:
        cfg["exit_code"] = rng.choice([0, 77, 3])
    incs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            do = rng.choice(["signal", "signal", "signal", "crash", "crash", "eio", "enospc"])
            if do in ("eio", "enospc"):
                f = {"point": "fs", "at": rng.randint(0, 25), "do": do}
                if do == "enospc":
                    f["for"] = rng.choice([1, 3, 10 ** 6])
            else:
                pt = rng.choice(["like", "like", "like", "fs", "clock", "line"] + (["task"] * 3 if npool > 1 else []))
                hi = {"like": rng.choice([200, 700, 1500]), "fs": 30, "clock": 400, "line": 20000,
                      "task": rng.choice([100, 1000])}[pt]
                f = {"point": pt, "at": rng.randint(0, hi), "do": do}
                if pt == "line" and rng.random() < 0.4:
                    f["at"] = rng.randint(0, 1500)
                if do == "signal":
                    f["signum"] = rng.choice([15, 15, 2, 14])
                elif pt == "fs":
                    f["torn"] = rng.random()
                    f["after"] = rng.random() < 0.5
            faults.append(f)
        if rng.random() < 0.15:
            faults.append({"point": "clock", "at": rng.randint(0, 300), "do": "jump", "by": rng.choice([3600, 1e6])})
        incs.append({"faults": faults, "down": rng.choice([1, 1e3, 1e6])})
    return {"incs": incs, "ndim": ndim, "npool": npool, "cfg": cfg, "width": rng.choice([3.0, 5.0]),
            "cost": rng.choice([0.001, 0.01, 0.1]), "_lists": ["incs"]}


def seconds(t):
    """A freshly computed result carries seconds, a re-read one a timedelta."""
    return float(t.total_seconds()) if hasattr(t, "total_seconds") else float(t)


def _body(plan):
    def body(s):
        import bilby

        W.reset_cli()
        s.like_cost = plan["cost"]
        s.like_cap = 150000
        W.seed_all(s.rng.randrange(2 ** 31))
        like = W.GaussLikelihood(plan["ndim"])
        try:
            r = bilby.run_sampler(
                like, W.gauss_priors(plan["ndim"], plan["width"]), label="run", outdir="out", sampler="dynesty",
                save=True, plot=False, check_point_plot=False, print_method="interval-1e9", resume=True,
                npool=plan["npool"], use_ratio=False, **plan["cfg"])
        except W.NoProgress as e:
            return {"noprogress": str(e)}
        ns = r.nested_samples
        return {"nested": ns.to_dict("list"), "lz": float(r.log_evidence), "lzerr": float(r.log_evidence_err),
                "sampling_time": seconds(r.sampling_time), "ncall": int(r.num_likelihood_evaluations),
                "post": r.posterior[[f"x{k}" for k in range(plan["ndim"])] + ["log_likelihood"]].values.tolist(),
                "stats": dict(r.meta_data.get("run_statistics", {}))}

    return body


def observe(ctx):
    """What the durable checkpoint records (None when there is none)."""
    paths = glob.glob(os.path.join(ctx.root, "out", "run_resume.pickle"))
    if not paths:
        return None

    def body(s):
        import dill
        import numpy as np

        with open(paths[0], "rb") as f:
            smp = dill.load(f)
        if getattr(smp, "added_live", False):
            smp._remove_live_points()
        run = smp.saved_run.D
        keys = {k: len(v) for k, v in run.items()}
        return {"dead": [tuple(map(float, v)) + (float(l),) for v, l in zip(run["v"], run["logl"])],
                "live": [tuple(map(float, v)) + (float(l),) for v, l in
                         zip(np.asarray(smp.live_v), np.asarray(smp.live_logl))],
                "keys_dead": [(int(a), int(b)) for a, b in zip(run["id"], run["it"])],
                "keys_live": [(k, int(b)) for k, b in enumerate(smp.live_it)],
                "ncall": int(smp.ncall), "it": int(smp.it), "keys": keys,
                "time": getattr(smp, "kwargs", {}).get("sampling_time").total_seconds()
                if "sampling_time" in getattr(smp, "kwargs", {}) else None}

    out = ctx.run(body, tag="observe", incarnation=9999, clock0=ctx.now)
    if out["end"] != "ok":
        raise Violation("checkpoint-unreadable",
                        f"the resume file on disk cannot be read back: {out.get('type')}: {out.get('msg')}")
    return out["value"]


def ref_evidence(logl, nlive, ndead):
    """Independent reference: trapezoid rule over the expected prior volumes."""
    lz, prev, lv = -math.inf, -math.inf, 0.0
    dlv = math.log((nlive + 1.0) / nlive)

    def add(a, b):
        if a == -math.inf:
            return b
        if b == -math.inf:
            return a
        m = max(a, b)
        return m + math.log(math.exp(a - m) + math.exp(b - m))

    base = -ndead * dlv
    vols = [-(k + 1) * dlv for k in range(ndead)]
    vols += [base + math.log(1.0 - (k + 1.0) / (nlive + 1.0)) for k in range(nlive)]
    last = 0.0
    for l, v in zip(logl, vols):
        dv = last + math.log(-math.expm1(v - last))
        lz = add(lz, add(l, prev) + dv + math.log(0.5))
        prev, last = l, v
    return lz


def check_signal_end(out):
    """Endings that the injected faults legitimately explain."""
    fired = [f["kind"] for f in out["sim"]["fired"]]
    if out["end"] == "crash":
        return "crash" in fired
    if out["end"] == "killed":
        return "signal" in fired
    if out["end"] == "exit":
        return "signal" in fired
    if out["end"] == "exception":
        mro = out.get("mro") or [out["type"]]
        if "OSError" in mro and ("eio" in fired or "enospc" in fired):
            return True
        if out["type"] == "KeyboardInterrupt" and "signal" in fired:
            return True
        return False
    return out["end"] == "ok"


def execute(plan, ctx):
    nlive, cfg = plan["cfg"]["nlive"], plan["cfg"]
    exit_code = cfg.get("exit_code", 130)
    import bilby

    bdir = os.path.dirname(os.path.abspath(bilby.__file__)) + os.sep
    pre = (bdir + "core/sampler", bdir + "core/utils/io")
    must = []                 # (dead, live) of every checkpoint resumed from
    incs = list(plan["incs"]) + [{"faults": [], "down": 1}]
    elapsed = 0.0
    for k, inc in enumerate(incs):
        start = observe(ctx)
        have_result = os.path.exists(os.path.join(ctx.root, "out", "run_result.json"))
        if start is not None:
            ctx.probes["resumed"] += 1
            must.append(start)
        ctx.now += inc["down"]
        jumped = sum(f["by"] for f in inc["faults"] if f["do"] in ("jump", "stall"))
        mono0 = 0.0
        out = ctx.run(_body(plan), inc["faults"], tag=f"sampling #{k}", line_prefixes=pre, cpu=150)
        elapsed += out["sim"].get("mono", 0.0)
        if out["end"] == "cpu":
            raise Violation("no-progress", f"run #{k} made no progress: {out.get('where', '')[-600:]}")
        if not check_signal_end(out):
            raise Violation(f"resume-failed:{out.get('type') or out['end']}",
                            f"run #{k} (after {[t['fired'] for t in ctx.traces[:-1]]}) ended with {out['end']} "
                            f"{out.get('type')}: {out.get('msg')} at {out.get('site')}")
        if out["end"] == "exit" and out["code"] != exit_code:
            raise Violation("exit-code", f"interrupted run exited with {out['code']}, configured {exit_code}")
        end = observe(ctx)
        if end is not None:
            ctx.probes["checkpointed"] += 1
            _check_checkpoint(end, nlive, plan)
        if start is not None and end is not None:
            n = len(start["dead"])
            if end["dead"][:n] != start["dead"]:
                raise Violation("history-altered", f"checkpoint after run #{k} does not extend the one it resumed from")
            if end["ncall"] < start["ncall"]:
                raise Violation("ncall-lost", f"likelihood count went from {start['ncall']} to {end['ncall']}")
        if start is not None and end is None:
            raise Violation("checkpoint-lost", f"run #{k} removed the checkpoint it resumed from ({out['end']})")
        if out["end"] == "ok":
            val = out["value"]
            if "noprogress" in val:
                raise Violation("no-progress", f"run #{k}: {val['noprogress']}")
            if have_result:
                ctx.probes["cached-result"] += 1
            else:
                _check_result(val, plan, must, elapsed + jumped_total(plan), end)
            ctx.note(k, val["lz"], len(val["nested"]["log_likelihood"]))
            if not have_result:
                break


def jumped_total(plan):
    return sum(f["by"] for inc in plan["incs"] for f in inc["faults"] if f["do"] == "jump")


def _check_checkpoint(c, nlive, plan):
    W_like = W.GaussLikelihood(plan["ndim"])
    lens = set(v for k, v in c["keys"].items() if k in ("id", "u", "v", "logl", "logvol", "logwt", "logz", "nc", "it"))
    if len(lens) > 1:
        raise Violation("checkpoint-torn", f"record lengths differ inside the checkpoint: {c['keys']}")
    if len(c["live"]) != nlive:
        raise Violation("live-count", f"{len(c['live'])} live points in the checkpoint, nlive={nlive}")
    # a point's identity is its live slot and birth iteration (two walks may
    # legitimately end on equal coordinates)
    pts = c["dead"] + c["live"]
    born = [tuple(k) + p for k, p in zip(c["keys_dead"] + c["keys_live"], pts)]
    if len(set(born)) != len(born):
        raise Violation("duplicate", "the same point is recorded twice in the checkpoint")
    logl = [p[-1] for p in c["dead"]]
    if any(b < a for a, b in zip(logl, logl[1:])):
        raise Violation("unsorted", "recorded log-likelihoods decrease in the checkpoint")
    for p in pts:
        _check_point(W_like, p, plan)


def _check_point(like, p, plan):
    x = {f"x{k}": p[k] for k in range(plan["ndim"])}
    if any(abs(v) > plan["width"] for v in x.values()):
        raise Violation("outside-prior", f"sample {x} outside the prior")
    if like.value(x) != p[-1]:
        raise Violation("wrong-likelihood", f"sample {x} recorded with log-likelihood {p[-1]!r}, "
                        f"its likelihood is {like.value(x)!r}")


def _check_result(val, plan, must, elapsed, end):
    ns, nd, nlive = val["nested"], plan["ndim"], plan["cfg"]["nlive"]
    pts = [tuple(ns[f"x{k}"][j] for k in range(nd)) + (ns["log_likelihood"][j],)
           for j in range(len(ns["log_likelihood"]))]
    like = W.GaussLikelihood(nd)
    for p in pts:
        _check_point(like, p, plan)
    if end is not None and sorted(pts) != sorted(end["dead"] + end["live"]):
        raise Violation("result-differs", "the nested samples of the result are not the points of the final state")
    logl = [p[-1] for p in pts]
    if any(b < a for a, b in zip(logl, logl[1:])):
        raise Violation("unsorted", "nested samples are not in likelihood order")
    final = collections.Counter(pts)
    for m in must:
        if pts[:len(m["dead"])] != m["dead"]:
            raise Violation("history-altered", "nested samples recorded in a checkpoint are not a prefix of the "
                            f"final nested samples ({len(m['dead'])} recorded)")
        lost = list((collections.Counter(m["dead"] + m["live"]) - final).elements())
        if lost:
            raise Violation("live-lost", f"{len(lost)} live points of a checkpoint never reached the result")
    if abs(sum(ns["weights"]) - 1) > 1e-6:
        raise Violation("weights", f"nested-sample weights sum to {sum(ns['weights'])}")
    ref = ref_evidence(logl, nlive, len(pts) - nlive)
    ties = len(logl) - len(set(logl))       # equal likelihoods are weighted by dynesty's plateau rule
    if abs(ref - val["lz"]) > 1e-3 + 0.05 * ties:
        raise Violation("evidence", f"log evidence {val['lz']} does not follow from the {len(pts)} recorded samples "
                        f"({ref})")
    true = -nd * math.log(2 * plan["width"])
    if abs(val["lz"] - true) > 8 * max(val["lzerr"], 0.2) + 1.0:
        raise Violation("evidence-bias", f"log evidence {val['lz']} +- {val['lzerr']}, analytic {true}")
    known = {tuple(p[:-1]): p[-1] for p in pts}
    for row in val["post"]:
        if known.get(tuple(row[:-1])) != row[-1]:
            raise Violation("posterior", f"posterior sample {row} is not one of the nested samples")
    if must and val["ncall"] < max(m["ncall"] for m in must):
        raise Violation("ncall-lost", f"final likelihood count {val['ncall']} below a checkpoint's")
    # sampling time: everything up to the last checkpoint that was resumed
    # plus this run, never the time the machine was down
    times = [m["time"] for m in must if m["time"] is not None]
    lo = times[-1] if times else 0.0
    if val["sampling_time"] < lo - 1e-3:
        raise Violation("time-lost", f"sampling time {val['sampling_time']} below the {lo} already recorded")
    if val["sampling_time"] > elapsed + 1.0:
        raise Violation("time-inflated", f"sampling time {val['sampling_time']} exceeds the {elapsed} s the sampler ran")
    st = val["stats"].get("sampling_time_s")
    if st is not None and abs(st - val["sampling_time"]) > 1.0:
        raise Violation("time-statistics", f"run statistics report {st} s, the run took {val['sampling_time']} s")
