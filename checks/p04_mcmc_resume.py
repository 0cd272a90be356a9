"""P04: an interrupted bilby-mcmc run resumes its chains without gaps or rewrites.

Real code: bilby-mcmc through run_sampler, default or user proposals, pools, real
checkpoints.  Stub: disk, clock, signals, worker scheduling, likelihood.
"""
import math
import os

from sim import workloads as W
from sim.runner import Violation

PID = "P04"
TIERS = {"quick": {"runs": 400, "budget": 60, "minimise": 60, "min_runs": 20},
         "thorough": {"runs": 40000, "budget": 780, "minimise": 60, "min_runs": 100}}
REAL = ["bilby run_sampler + bilby_mcmc sampler, chains, proposals", "dill", "bilby result saving/reading",
        "bilby priors"]
STUB = ["disk (fault-injecting layer)", "clock", "signal source", "worker pool scheduler (forked lock-step workers)",
        "likelihood", "proposals in part of the runs"]
REQUIRED_PROBES = ["crash", "signal", "resumed", "checkpointed", "pool-tasks", "enospc", "finished"]
ASSUMPTIONS = ["a signal does not fall between the two assignments of one temperature swap",
               "resume files are only altered by the run itself"]


def gen(rng, tier, i):
    npool = rng.choice([1, 1, 1, 2, 3])
    ntemps = rng.choice([1, 1, 1, 2, 3])
    L1 = rng.choice([1, 2, 5])
    kind = rng.choice(["walk", "walk", "walk", "default"])
    incs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            do = rng.choice(["signal", "signal", "signal", "crash", "crash", "crash", "eio", "enospc"])
            if do in ("eio", "enospc"):
                f = {"point": "fs", "at": rng.randint(0, 30), "do": do}
                if do == "enospc":
                    f["for"] = rng.choice([1, 3, 10 ** 6])
            else:
                pt = rng.choice(["like", "like", "like", "fs", "line"] + (["task"] * 3 if npool > 1 else []))
                hi = {"like": rng.choice([60, 300, 1000]), "fs": 40, "line": rng.choice([3000, 60000]),
                      "task": rng.choice([30, 200])}[pt]
                if pt == "line":
                    do = "crash"
                f = {"point": pt, "at": rng.randint(0, hi), "do": do}
                if do == "signal":
                    f["signum"] = rng.choice([15, 15, 2, 14])
                elif pt == "fs":
                    f["torn"] = rng.random()
                    f["after"] = rng.random() < 0.5
            faults.append(f)
        incs.append({"faults": faults, "down": rng.choice([1, 1e3, 1e6])})
    tau = rng.choice([1, 1, 2, 3] + [None] * (kind == "default"))
    # bilby-mcmc never counts more samples than steps: thin * tau must reach 1
    thin = rng.choice([1, 1, 0.5, 2]) if tau in (2, 3) else rng.choice([1, 1, 2])
    adapt, nsamples = rng.random() < 0.5, rng.choice([5, 12, 40])
    # a checkpoint at every step of a long run costs much and adds nothing
    every = [0, 0.3] if nsamples < 40 and not adapt else []
    return {"incs": incs, "npool": npool, "ntemps": ntemps, "L1": L1, "L2": rng.choice([1, 3]), "kind": kind,
            "nsamples": nsamples, "fixed_tau": tau, "thin": thin, "burn": rng.choice([0, 1, 5]), "discard": rng.choice([0, 0, 7]),
            "printdt": rng.choice([0.05 if every else 2.0, 0.3, 1.0]), "dt": rng.choice(every + [1, 3, 10, 1e6]),
            "nensemble": rng.choice([1, 1, 1, 2]), "pt_ensemble": rng.random() < 0.4, "adapt": adapt,
            "reject": ntemps > 1 and rng.random() < 0.4, "ratio": rng.random() < 0.4, "freeze": rng.random() < 0.15,
            "block": rng.choice([5, 30, 1000]), "slope": rng.choice([0.5, 1.5]), "_lists": ["incs"]}


def _body(plan):
    def body(s):
        import bilby
        from bilby.bilby_mcmc.utils import LOGLKEY, LOGPKEY  # noqa: F401
        from checks import _mcmc as M

        W.reset_cli()
        M.small_blocks(plan["block"])
        s.like_cost = 0.01
        s.like_cap = 60000
        s.task_cap = 6000
        W.seed_all(s.rng.randrange(2 ** 31))
        pri = M.priors()
        cyc = "default" if plan["kind"] == "default" else M.cycle(plan["kind"], pri)
        try:
            r = bilby.run_sampler(
                M.SlopeLikelihood(plan["slope"]), pri, sampler="bilby_mcmc", label="run", outdir="out",
                nsamples=plan["nsamples"], ntemps=plan["ntemps"], Tmax=10, L1steps=plan["L1"], L2steps=plan["L2"],
                adapt=plan["adapt"], proposal_cycle=cyc, npool=plan["npool"], printdt=plan["printdt"],
                check_point_delta_t=plan["dt"], check_point_plot=False, nensemble=plan["nensemble"],
                pt_ensemble=plan["pt_ensemble"], resume=True, use_ratio=plan["ratio"], fixed_tau=plan["fixed_tau"],
                thin_by_nact=plan["thin"], burn_in_nact=plan["burn"], fixed_discard=plan["discard"], save=True,
                pt_rejection_sample=plan["reject"], stop_after_convergence=plan["freeze"], verbose=False)
        except W.NoProgress as e:
            return {"noprogress": str(e)}
        t = r.sampling_time
        cols = list(r.posterior.columns)
        md = r.meta_data["bilby_mcmc"]
        return {"post": r.posterior[["x", "tag", "log_likelihood", "log_prior"]].values.tolist(), "cols": cols,
                "time": float(t.total_seconds()) if hasattr(t, "total_seconds") else float(t),
                "tau": float(md["tau"]), "total_steps": int(md["total_steps"]), "nsamples": float(md["nsamples"]),
                "stats": {k: v for k, v in r.meta_data["run_statistics"].items()}}

    return body


def execute(plan, ctx):
    import bilby
    from checks import _mcmc as M
    from checks.p02_nested_resume import check_signal_end

    pre = (os.path.dirname(os.path.abspath(bilby.__file__)) + os.sep + "bilby_mcmc/sampler",)
    path = os.path.join(ctx.root, "out", "run_resume.pickle")

    def observe():
        out = ctx.run(lambda s: M.read_resume(path), tag="observe", incarnation=9999)
        if out["end"] != "ok":
            raise Violation("checkpoint-unreadable", f"the resume file cannot be read: {out.get('type')}: {out.get('msg')}")
        return out["value"]

    like, pri = M.SlopeLikelihood(plan["slope"]), M.priors()
    elapsed, last = 0.0, None
    incs = list(plan["incs"]) + [{"faults": [], "down": 1}]
    for k, inc in enumerate(incs):
        ctx.now += inc["down"]
        lines = pre if any(f["point"] == "line" for f in inc["faults"]) else None
        out = ctx.run(_body(plan), inc["faults"], tag=f"sampling #{k}", line_prefixes=lines, cpu=60)
        elapsed += out["sim"].get("mono", 0.0)
        if out["end"] == "cpu":
            raise Violation("no-progress", f"run #{k} made no progress: {out.get('where', '')[-600:]}")
        if not check_signal_end(out):
            raise Violation(f"resume-failed:{out.get('type') or out['end']}",
                            f"run #{k} (after {[t['fired'] for t in ctx.traces[:-1]]}) ended with {out['end']} "
                            f"{out.get('type')}: {out.get('msg')} at {out.get('site')}")
        if out["end"] == "exit" and out["code"] != 130:
            raise Violation("exit-code", f"interrupted run exited with {out['code']}")
        now = observe()
        if last is not None and now is None:
            raise Violation("checkpoint-lost", f"run #{k} removed the checkpoint it started from")
        if now is not None:
            ctx.probes["checkpointed"] += 1
            _check_state(plan, now, like, pri)
            if last is not None:
                ctx.probes["resumed"] += 1
                _check_extends(last, now, k, plan["freeze"] and plan["ntemps"] > 1)
            _check_steps(plan, now, k + 1)
            if now["sampling_time"] > elapsed + 1.0:
                raise Violation("time-inflated", f"{now['sampling_time']} s recorded, the sampler ran {elapsed} s")
            last = now
        ctx.note(out["end"], now and now["position"])
        if out["end"] == "ok":
            if "noprogress" in out["value"]:
                raise Violation("no-progress", f"run #{k}: {out['value']['noprogress']}")
            ctx.probes["finished"] += 1
            _check_result(plan, out["value"], last, like, pri, elapsed)
            ctx.nontrivial = True
            break


def noise(plan):
    return -0.25 if plan["ratio"] else 0.0


def _check_state(plan, state, like, pri):
    from bilby.bilby_mcmc.utils import LOGLKEY, LOGPKEY
    from checks import _mcmc as M

    def fail(sig, msg):
        raise Violation(sig, msg)

    for ch in state["chains"]:
        kl, kp = ch["keys"].index(LOGLKEY), ch["keys"].index(LOGPKEY)
        if ch["position"] + 1 != len(ch["rows"]):
            fail("chain-torn", f"chain T{ch['T']}E{ch['E']} holds {len(ch['rows'])} states at position {ch['position']}")
        for j, row in enumerate(ch["rows"]):
            d = M.row_dict(ch, row)
            pt = {"x": d["x"], "tag": d["tag"]}
            lp = float(pri.ln_prob(pt))
            ll = like.value(pt) - noise(plan)
            if not math.isfinite(lp):
                fail("outside-prior", f"chain T{ch['T']}E{ch['E']} state {j} {pt} lies outside the prior")
            if abs(lp - row[kp]) > 1e-9 or abs(ll - row[kl]) > 1e-9:
                fail("wrong-value", f"chain T{ch['T']}E{ch['E']} state {j} records log likelihood, prior "
                     f"{row[kl]}, {row[kp]}; they are {ll}, {lp}")
        if not plan["freeze"] and plan["nensemble"] == 1:
            n = ch["accepted"] + ch["rejected"]
            if n < plan["L1"] * ch["position"] or n > plan["L1"] * ch["position"] * 1.0 + 1e-9:
                fail("counters", f"chain T{ch['T']}E{ch['E']}: {n} decisions counted for {ch['position']} steps of "
                     f"{plan['L1']}")


def _check_extends(old, new, k, frozen=False):
    by = {(c["T"], c["E"]): c for c in new["chains"]}
    if set(by) != {(c["T"], c["E"]) for c in old["chains"]}:
        raise Violation("chains-changed", f"run #{k} went on with other chains: {sorted(by)}")
    for c in old["chains"]:
        d = by[c["T"], c["E"]]
        if d["rows"][:len(c["rows"])] != c["rows"]:
            bad = [j for j, (a, b) in enumerate(zip(c["rows"], d["rows"])) if a != b]
            if frozen and bad == [len(c["rows"]) - 1] <= [len(d["rows"]) - 1]:
                continue       # a chain stopped at convergence still exchanges its last state with its neighbours
            raise Violation("history-altered", f"run #{k}: chain T{c['T']}E{c['E']} recorded {len(c['rows'])} states, now "
                            f"{len(d['rows'])}, differing at {bad[:5]}")
        for key in ("accepted", "rejected"):
            if d[key] < c[key]:
                raise Violation("counters", f"run #{k}: {key} fell from {c[key]} to {d[key]}")
    if new["sampling_time"] < old["sampling_time"] - 1e-6:
        raise Violation("time-lost", f"run #{k}: sampling time fell from {old['sampling_time']} to {new['sampling_time']}")


def _check_steps(plan, state, runs):
    """With bounded proposals and no swaps, consecutive states of a chain are close."""
    from checks import _mcmc as M

    if plan["kind"] != "walk" or plan["ntemps"] > 1 or plan["nensemble"] > 1:
        return
    # an interruption inside a step may leave up to one step's moves unrecorded
    big = runs * plan["L1"] * M.Walk.STEP + 1e-9
    small = plan["L1"] * M.Walk.STEP + 1e-9
    ch = state["chains"][0]
    kx, kt = ch["keys"].index("x"), ch["keys"].index("tag")
    gaps = 0
    for j in range(1, len(ch["rows"])):
        a, b = ch["rows"][j - 1], ch["rows"][j]
        if a[kt] != b[kt] or abs(a[kx] - b[kx]) > big:
            raise Violation("gap", f"states {j - 1} and {j} are not consecutive: {a} {b}")
        gaps += abs(a[kx] - b[kx]) > small
    if gaps > runs - 1:
        raise Violation("gap", f"{gaps} jumps longer than a step in {runs} runs")


def _check_result(plan, val, state, like, pri, elapsed):
    from bilby.bilby_mcmc.utils import LOGLKEY

    post = val["post"]
    if state is None:
        raise Violation("checkpoint-lost", "a finished run left no checkpoint")
    for x, tag, ll, lp in post:
        pt = {"x": x, "tag": tag}
        if abs(float(pri.ln_prob(pt)) - lp) > 1e-9:
            raise Violation("posterior-prior", f"sample {pt} reported with log prior {lp}, it is {pri.ln_prob(pt)}")
        if min(abs(like.value(pt) - noise(plan) - ll), abs(like.value(pt) - ll)) > 1e-9:
            raise Violation("posterior-likelihood", f"sample {pt} reported with log likelihood {ll}, "
                            f"it is {like.value(pt)}")
    rows = {(c["T"], c["E"]): [tuple(r[c["keys"].index(q)] for q in ("x", "tag")) for r in c["rows"]]
            for c in state["chains"]}
    everything = set(r for v in rows.values() for r in v)
    got = [tuple(p[:2]) for p in post]
    for g in got:
        if g not in everything:
            raise Violation("posterior-foreign", f"posterior sample {g} is in no chain")
    if not plan["reject"]:
        if len(post) < plan["nsamples"]:
            raise Violation("too-few", f"{len(post)} samples, {plan['nsamples']} requested")
        cold = [v for (T, E), v in sorted(rows.items()) if T == 0]
        tau = max(1, plan["fixed_tau"]) if plan["fixed_tau"] is not None else val["tau"]
        if len(cold) == 1 and val["tau"] != tau:
            raise Violation("thinning", f"tau {val['tau']} reported for fixed_tau={plan['fixed_tau']}")
        if math.isfinite(tau) and (len(cold) == 1 or plan["fixed_tau"] is not None):
            _match(plan, got, cold, max(1, int(plan["thin"] * tau)), max(plan["discard"], int(plan["burn"] * tau)))
    if val["time"] > elapsed + 1.0:
        raise Violation("time-inflated", f"sampling time {val['time']}, the sampler ran {elapsed} s")
    if abs(val["time"] - state["sampling_time"]) > 1e-3:
        raise Violation("time-differs", f"sampling time {val['time']} reported, {state['sampling_time']} accumulated")
    if abs(val["stats"]["sampling_time_s"] - val["time"]) > 1e-3:
        raise Violation("time-statistics", f"{val['stats']['sampling_time_s']} != {val['time']}")
    if val["total_steps"] != state["position"]:
        raise Violation("steps-differ", f"{val['total_steps']} steps reported, {state['position']} recorded")


def _match(plan, got, cold, stride, lo):
    """The posterior is the thinned chains after burn-in (chains of an ensemble that are not ready are left out)."""
    ends = {0}
    for chain in cold:
        new = set()
        for pos in ends:
            for start in range(lo, len(chain)):
                want = chain[start:len(chain) - 1:stride]
                if want and got[pos:pos + len(want)] == want:
                    new.add(pos + len(want))
        ends |= new
    if len(got) not in ends:
        raise Violation("posterior-thinning", f"the {len(got)} reported samples are not the chains from burn-in {lo} "
                        f"on, thinned by {stride}")
