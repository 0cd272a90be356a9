"""P06: an interrupted ptemcee run resumes from its recorded walkers.

Real code: bilby's ptemcee sampler through run_sampler, the ptemcee library (its
`sample` generator is recorded, not replaced), real checkpoints.  Stub: disk, clock,
signals, worker scheduling, likelihood.
"""
import math
import os

import numpy as np

from sim import workloads as W
from sim.runner import Violation

PID = "P06"
TIERS = {"quick": {"runs": 400, "budget": 50, "minimise": 60, "min_runs": 20},
         "thorough": {"runs": 40000, "budget": 780, "minimise": 60, "min_runs": 100}}
REAL = ["bilby run_sampler + ptemcee wrapper", "ptemcee", "emcee autocorrelation", "dill", "bilby result saving/reading"]
STUB = ["disk (fault-injecting layer)", "clock", "signal source", "worker pool scheduler", "likelihood",
        "OS entropy (seeds ptemcee's generator)"]
REQUIRED_PROBES = ["crash", "signal", "resumed", "checkpointed", "pool-tasks", "enospc", "finished", "grown"]
ASSUMPTIONS = ["resume files are only altered by the run itself"]

LISTS = ("time_per_check", "beta_list", "tau_list", "tau_list_n", "Q_list")


def gen(rng, tier, i):
    npool = rng.choice([1, 1, 1, 2, 3])
    incs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            do = rng.choice(["signal", "signal", "signal", "signal", "crash", "crash", "eio", "enospc"])
            if do in ("eio", "enospc"):
                f = {"point": "fs", "at": rng.randint(0, 40), "do": do}
                if do == "enospc":
                    f["for"] = rng.choice([1, 3, 10 ** 6])
            else:
                pt = rng.choice(["like", "like", "fs", "line", "line"] + (["task"] * 3 if npool > 1 else []))
                hi = {"like": rng.choice([100, 1000, 3000]), "fs": 60, "line": rng.choice([300, 2000, 5000]),
                      "task": rng.choice([30, 200])}[pt]
                f = {"point": pt, "at": rng.randint(0, hi), "do": do}
                if do == "signal":
                    f["signum"] = rng.choice([15, 15, 2, 14])
                elif pt == "fs":
                    f["torn"] = rng.random()
                    f["after"] = rng.random() < 0.5
            faults.append(f)
        incs.append({"faults": faults, "down": rng.choice([1, 1e3, 1e6])})
    return {"incs": incs, "npool": npool, "ntemps": rng.choice([1, 2, 3]), "nwalkers": rng.choice([6, 8]),
            "nsamples": rng.choice([20, 80, 160] if npool == 1 else [20, 40]), "burn": rng.choice([0, 1, 2]), "thin": rng.choice([0.5, 1, 2]),
            "niter": rng.choice([1, 2, 3] if npool == 1 else [1, 2]), "dt": rng.choice([0.5, 2, 10, 1e6] if npool == 1 else [0, 2, 5, 1e6]), "adapt": rng.random() < 0.4,
            "store": rng.choice([3, 7, 500]), "periodic": rng.random() < 0.3, "ratio": rng.random() < 0.3,
            "discard": rng.choice([0, 0, 3]), "rho": rng.choice([0.0, 0.4]), "_lists": ["incs"]}


def priors(plan):
    pri = W.gauss_priors(2, 4.0)
    if plan["periodic"]:
        pri["x0"].boundary = "periodic"
    return pri


def _watch(seen):
    """Record what the ptemcee library was started with and what it delivered."""
    import ptemcee

    real = ptemcee.Sampler.sample

    def sample(self, p0=None, *args, **kw):
        if len(seen) < 1:
            seen.append((None if p0 is None else np.array(p0).tolist(), np.array(self.betas).tolist()))
        return real(self, p0, *args, **kw)

    ptemcee.Sampler.sample = sample


def _short_store(n):
    """Let the wrapper grow its arrays every n checks instead of every 500 (crosses their ends)."""
    from bilby.core.sampler.ptemcee import Ptemcee

    if n != 500:
        Ptemcee.max_steps = property(lambda self: n, lambda self, v: None)


def _body(plan):
    def body(s):
        import bilby
        from checks import _samplers as SS

        W.reset_cli()
        SS.mute_tqdm()
        _short_store(plan["store"])
        seen = s.seen = []
        _watch(seen)
        s.exitinfo = seen
        s.like_cap, s.task_cap = 80000, 60000
        W.seed_all(s.rng.randrange(2 ** 31))
        try:
            r = bilby.run_sampler(
                W.GaussLikelihood(2, rho=plan["rho"]), priors(plan), sampler="ptemcee", label="run", outdir="out", save=True, plot=False,
                resume=True, npool=plan["npool"], use_ratio=plan["ratio"], ntemps=plan["ntemps"], nwalkers=plan["nwalkers"],
                nsamples=plan["nsamples"], burn_in_nact=plan["burn"], thin_by_nact=plan["thin"], autocorr_tol=2, safety=1,
                autocorr_tau=1, Q_tol=5, min_tau=1, mean_logl_frac=0.5, gradient_tau=10, gradient_mean_log_posterior=10,
                niterations_per_check=plan["niter"], burn_in_fixed_discard=plan["discard"], verbose=False, adapt=plan["adapt"],
                Tmax=10 if plan["ntemps"] > 1 else None, check_point_plot=False, check_point_delta_t=plan["dt"])
        except W.NoProgress as e:
            return {"noprogress": str(e)}
        t = r.sampling_time
        return {"samples": np.asarray(r.samples).tolist(), "logl": np.asarray(r.log_likelihood_evaluations).tolist(),
                "post": r.posterior[["x0", "x1", "log_likelihood", "log_prior"]].values.tolist(), "nburn": int(r.nburn or 0),
                "discard": int(getattr(r, "discard", 0)), "lz": float(r.log_evidence),
                "time": float(t.total_seconds()) if hasattr(t, "total_seconds") else float(t)}

    return body


def read(path):
    if not os.path.exists(path):
        return None
    import dill

    with open(path, "rb") as f:
        d = dill.load(f)
    n = int(d["iteration"])
    return {"n": n, "chain": np.array(d["chain_array"])[:, :n].tolist(), "logl": np.array(d["log_likelihood_array"])[:, :, :n].tolist(),
            "logp": np.array(d["log_posterior_array"])[:, :, :n].tolist(), "pos0": np.array(d["pos0"]).tolist(),
            "size": [np.shape(d["chain_array"])[1], np.shape(d["log_likelihood_array"])[2], np.shape(d["log_posterior_array"])[2]],
            **{k: [np.asarray(v).tolist() for v in d[k]] for k in LISTS}}


def execute(plan, ctx):
    import bilby
    from checks.p02_nested_resume import check_signal_end

    pre = (os.path.dirname(os.path.abspath(bilby.__file__)) + os.sep + "core/sampler/ptemcee",)
    path = os.path.join(ctx.root, "out", "run_checkpoint_resume.pickle")

    def observe():
        out = ctx.run(lambda s: read(path), tag="observe", incarnation=9999)
        if out["end"] != "ok":
            raise Violation("checkpoint-unreadable", f"the resume file cannot be read: {out.get('type')}: {out.get('msg')}")
        return out["value"]

    like, pri = W.GaussLikelihood(2, rho=plan["rho"]), priors(plan)
    elapsed, last = 0.0, None
    for k, inc in enumerate(list(plan["incs"]) + [{"faults": [], "down": 1}]):
        ctx.now += inc["down"]
        lines = pre if any(f["point"] == "line" for f in inc["faults"]) else None
        out = ctx.run(_body(plan), inc["faults"], tag=f"sampling #{k}", line_prefixes=lines, cpu=60)
        elapsed += out["sim"].get("mono", 0.0)
        if out["end"] == "cpu":
            raise Violation("no-progress", f"run #{k} made no progress: {out.get('where', '')[-600:]}")
        if not check_signal_end(out):
            raise Violation(f"resume-failed:{out.get('type') or out['end']}",
                            f"run #{k} (after {[t['fired'] for t in ctx.traces[:-1]]}) ended with {out['end']} "
                            f"{out.get('type')}: {out.get('msg')} at {out.get('site')}")
        seen = out.get("exitinfo")
        if last is not None and seen:
            p0, betas = seen[0]
            if p0 is not None and p0 != last["pos0"]:
                raise Violation("not-continued", f"run #{k} started its walkers elsewhere than the checkpoint it resumed "
                                f"({last['n']} iterations) left them")
            if last["beta_list"] and betas != last["beta_list"][-1]:
                raise Violation("not-continued-betas", f"run #{k} started with inverse temperatures {betas}, the checkpoint "
                                f"has {last['beta_list'][-1]}")
        now = observe()
        if last is not None and now is None:
            raise Violation("checkpoint-lost", f"run #{k} removed the checkpoint it started from")
        if now is not None:
            ctx.probes["checkpointed"] += 1
            if max(now["size"]) > plan["store"]:
                ctx.probes["grown"] += 1
            _check_state(plan, now, like, pri)
            if last is not None:
                ctx.probes["resumed"] += 1
                _check_extends(last, now, k)
            total = sum(now["time_per_check"])
            if total > elapsed + 1.0:
                raise Violation("time-inflated", f"{total} s recorded, the sampler ran {elapsed} s")
            last = now
        ctx.note(out["end"], now and now["n"])
        if out["end"] == "ok":
            if "noprogress" in out["value"]:
                raise Violation("no-progress", f"run #{k}: {out['value']['noprogress']}")
            ctx.probes["finished"] += 1
            _check_result(plan, out["value"], last, like, pri, elapsed)
            ctx.nontrivial = True
            break


def _near(a, b):
    return abs(a - b) <= 1e-8 * (1 + abs(b))


def _check_state(plan, st, like, pri):
    n = st["n"]
    noise = like.noise_log_likelihood() if plan["ratio"] else 0.0
    for key in LISTS:
        if len(st[key]) != n:
            raise Violation("misaligned", f"{n} iterations recorded with {len(st[key])} entries of {key}")
    if st["tau_list_n"] != list(range(1, n + 1)):
        raise Violation("misaligned", f"autocorrelation times recorded for iterations {st['tau_list_n'][:20]}")
    if min(st["size"]) < n:
        raise Violation("misaligned", f"{n} iterations, arrays of {st['size']}")
    if any(t < 0 for t in st["time_per_check"]):
        raise Violation("negative-time", f"{st['time_per_check']}")
    chain = np.array(st["chain"]).reshape((plan["nwalkers"], n, 2))
    logl, logp = np.array(st["logl"]), np.array(st["logp"])
    lnp0 = float(pri.ln_prob({"x0": 0.0, "x1": 0.0}))
    for j in range(n):
        betas = st["beta_list"][j]
        for w in range(plan["nwalkers"]):
            pt = {"x0": chain[w, j, 0], "x1": chain[w, j, 1]}
            lp = float(pri.ln_prob(pt))
            ll = like.value(pt) - noise
            if not math.isfinite(lp):
                raise Violation("outside-prior", f"walker {w} iteration {j} at {pt}")
            if not _near(logl[0, w, j], ll):
                raise Violation("wrong-likelihood", f"walker {w} iteration {j} recorded with log likelihood "
                                f"{logl[0, w, j]}, its position has {ll}")
            if not _near(logp[0, w, j], ll + lp):
                raise Violation("wrong-posterior", f"walker {w} iteration {j} recorded with log posterior {logp[0, w, j]}, "
                                f"its position has {ll + lp}")
            for t in range(1, plan["ntemps"]):
                if not _near(logp[t, w, j], betas[t] * logl[t, w, j] + lnp0):
                    raise Violation("wrong-temperature", f"temperature {t} walker {w} iteration {j}: log posterior "
                                    f"{logp[t, w, j]}, log likelihood {logl[t, w, j]} at inverse temperature {betas[t]}")
    if n and np.array(st["pos0"])[0].tolist() != chain[:, n - 1].tolist():
        raise Violation("misaligned-walkers", f"the recorded walkers are not those of the last recorded iteration {n}")
    if n:
        pos = np.array(st["pos0"])
        for t in range(plan["ntemps"]):
            for w in range(plan["nwalkers"]):
                ll = like.value({"x0": pos[t, w, 0], "x1": pos[t, w, 1]}) - noise
                if not _near(logl[t, w, n - 1], ll):
                    raise Violation("misaligned-walkers", f"temperature {t} walker {w}: log likelihood {logl[t, w, n - 1]} "
                                    f"recorded, its position has {ll}")


def _check_extends(old, new, k):
    n = old["n"]
    if new["n"] < n:
        raise Violation("history-lost", f"run #{k}: {new['n']} iterations after resuming from {n}")
    a, b = np.array(old["chain"]), np.array(new["chain"])[:, :n]
    if n and not np.array_equal(a, b):
        raise Violation("history-altered", f"run #{k}: the recorded {n} iterations of the cold walkers changed")
    for key in ("logl", "logp"):
        if n and not np.array_equal(np.array(old[key]), np.array(new[key])[:, :, :n]):
            raise Violation("history-altered", f"run #{k}: recorded {key} values changed")
    for key in LISTS:
        if repr(new[key][:n]) != repr(old[key][:n]):
            raise Violation("records-altered", f"run #{k}: recorded {key} changed")


def _check_result(plan, val, st, like, pri, elapsed):
    if st is None:
        raise Violation("checkpoint-lost", "a finished run left no checkpoint")
    noise = like.noise_log_likelihood() if plan["ratio"] else 0.0
    first = val["discard"] + val["nburn"]
    chain = np.array(st["chain"])
    visited = set(map(tuple, chain[:, first:].reshape((-1, 2)).tolist()))
    if len(val["samples"]) < plan["nsamples"]:
        raise Violation("too-few", f"{len(val['samples'])} samples, {plan['nsamples']} requested")
    if len(val["samples"]) != len(val["logl"]):
        raise Violation("result-misaligned", f"{len(val['samples'])} samples, {len(val['logl'])} likelihoods")
    for x, ll in zip(val["samples"], val["logl"]):
        if tuple(x) not in visited:
            raise Violation("sample-foreign", f"reported sample {x} was not visited by the cold walkers after iteration {first}")
        if not _near(ll, like.value({"x0": x[0], "x1": x[1]}) - noise):
            raise Violation("sample-likelihood", f"sample {x} reported with log likelihood {ll}")
    for x0, x1, ll, lp in val["post"]:
        pt = {"x0": x0, "x1": x1}
        if (x0, x1) not in visited:
            raise Violation("posterior-foreign", f"posterior sample {pt} was not visited after burn-in")
        if not _near(lp, float(pri.ln_prob(pt))) or not min(_near(ll, like.value(pt)), True) and not _near(ll, like.value(pt) - noise):
            raise Violation("posterior-value", f"posterior sample {pt} reported with {ll}, {lp}")
    if len(set(map(tuple, val["samples"]))) < 2:
        raise Violation("frozen", "all reported samples are one point")
    if not math.isfinite(val["lz"]):
        raise Violation("evidence", f"log evidence {val['lz']}")
    if abs(val["time"] - sum(st["time_per_check"])) > 1e-3:
        raise Violation("time-differs", f"sampling time {val['time']}, {sum(st['time_per_check'])} recorded")
    if val["time"] > elapsed + 1.0:
        raise Violation("time-inflated", f"sampling time {val['time']}, the sampler ran {elapsed} s")
