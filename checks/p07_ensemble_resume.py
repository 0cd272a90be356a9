"""P07: interrupted emcee, zeus and kombine runs keep and complete their recorded chain.

Real code: bilby's three ensemble samplers through run_sampler, the libraries, real
checkpoints and chain files.  Stub: disk, clock, signals, worker scheduling, likelihood.
"""
import math
import os

import numpy as np

from sim import workloads as W
from sim.runner import Skip, Violation

PID = "P07"
TIERS = {"quick": {"runs": 500, "budget": 50, "minimise": 60, "min_runs": 25},
         "thorough": {"runs": 60000, "budget": 780, "minimise": 60, "min_runs": 150}}
REAL = ["bilby run_sampler + emcee, zeus and kombine wrappers", "emcee", "zeus", "kombine", "dill",
        "bilby result saving/reading"]
STUB = ["disk (fault-injecting layer)", "clock", "signal source", "worker pool scheduler", "likelihood", "OS entropy"]
REQUIRED_PROBES = ["crash", "signal", "resumed", "checkpointed", "pool-tasks", "enospc", "finished", "autoburnin",
                   "chain-file"]
ASSUMPTIONS = ["resume and chain files are only altered by the run itself",
               "kombine's density estimate may fail on its own for unlucky walkers (such runs are not judged)"]


def gen(rng, tier, i):
    name = rng.choice(["emcee", "zeus", "kombine"])
    npool = rng.choice([1, 1, 1, 2])
    incs = []
    hi = {"emcee": 400, "zeus": 1500, "kombine": 900}[name]
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            do = rng.choice(["signal", "signal", "signal", "signal", "crash", "crash", "eio", "enospc"])
            if do in ("eio", "enospc"):
                f = {"point": "fs", "at": rng.randint(0, 200), "do": do}
                if do == "enospc":
                    f["for"] = rng.choice([1, 3, 10 ** 6])
            else:
                pt = rng.choice(["like", "like", "fs", "fs", "line", "line"] + (["task"] * 3 if npool > 1 else []))
                f = {"point": pt, "at": rng.randint(0, {"like": hi, "fs": 250, "line": rng.choice([400, 1500]), "task": 80}[pt]),
                     "do": do}
                if do == "signal":
                    f["signum"] = rng.choice([15, 15, 2, 14])
                elif pt == "fs":
                    f["torn"] = rng.random()
                    f["after"] = rng.random() < 0.5
            faults.append(f)
        incs.append({"faults": faults, "down": rng.choice([1, 1e3, 1e6])})
    iterations = rng.choice([20, 30])
    return {"incs": incs, "name": name, "npool": npool, "iterations": iterations, "auto": name == "kombine" and rng.random() < 0.4,
            "nburn": rng.choice([None, 0, 5]), "extend": rng.choice([0, 0, 0, 7]), "ratio": rng.random() < 0.3,
            "nwalkers": 16 if name == "kombine" else rng.choice([6, 8]), "rho": rng.choice([0.0, 0.4]),
            "ndim": rng.choice([2, 3]) if name != "kombine" else 2, "_lists": ["incs"]}


def kwargs(plan, k):
    name = plan["name"]
    kw = dict(nwalkers=plan["nwalkers"], iterations=plan["iterations"] + (plan["extend"] if k else 0), burn_in_act=1)
    if plan["nburn"] is not None and not plan["auto"]:
        kw["nburn"] = plan["nburn"]
    if name == "emcee":
        kw["verbose"] = False
    elif name == "zeus":
        kw.update(progress=False, check_walkers=False)
    else:
        kw["update_interval"] = 10 ** 9
        if plan["auto"]:
            # (kombine's own consistency test fails with the installed scipy: the step limit ends the burn-in before it)
            kw.update(autoburnin=True, max_steps=6)
    return kw


def _watch(name, seen):
    """Record where the library was started (the first call only)."""
    if name == "emcee":
        from emcee import EnsembleSampler as C

        arg = "initial_state"
    elif name == "zeus":
        from zeus import EnsembleSampler as C

        arg = "start"
    else:
        from kombine import Sampler as C

        arg = "p0"
    real = C.sample

    def sample(self, *args, **kw):
        if not seen:
            p0 = kw.get(arg, args[0] if args else None)
            p0 = getattr(p0, "coords", p0)
            seen.append(None if p0 is None else np.array(p0).tolist())
        return real(self, *args, **kw)

    C.sample = sample


def _body(plan, k):
    def body(s):
        import bilby
        from checks import _samplers as SS

        W.reset_cli()
        SS.mute_tqdm()
        seen = s.exitinfo = []
        _watch(plan["name"], seen)
        s.like_cap, s.task_cap = 60000, 9000
        W.seed_all(s.rng.randrange(2 ** 31))
        try:
            r = bilby.run_sampler(
                W.GaussLikelihood(plan["ndim"], rho=plan["rho"]), W.gauss_priors(plan["ndim"], 4.0), sampler=plan["name"], label="run",
                outdir="out", save=True, plot=False, resume=True, npool=plan["npool"], use_ratio=plan["ratio"], **kwargs(plan, k))
        except W.NoProgress as e:
            return {"noprogress": str(e)}
        cols = [f"x{j}" for j in range(plan["ndim"])]
        return {"samples": np.asarray(SS.attr(r, "samples")).tolist(), "logl": np.asarray(r.log_likelihood_evaluations).tolist(),
                "logp": np.asarray(r.log_prior_evaluations).tolist(), "nburn": int(r.nburn), "walkers": np.asarray(r.walkers).tolist(),
                "post": r.posterior[cols + ["log_likelihood", "log_prior"]].values.tolist()}

    return body


def read(path, name):
    """(steps, walkers, dim) chain and (steps, walkers, 2) values recorded by a checkpoint."""
    if not os.path.exists(path):
        return None
    import dill

    with open(path, "rb") as f:
        sampler = dill.load(f)
    if name == "kombine":
        blobs = np.array(sampler.blobs, dtype=float)
        return {"chain": np.array(sampler.chain).tolist(), "vals": blobs.tolist()}
    chain, vals = np.array(sampler.get_chain()), np.array(sampler.get_blobs())
    if name == "zeus":
        vals = vals[:len(chain)]        # zeus hands out the unfilled rows too
    return {"chain": chain.tolist(), "vals": vals.tolist()}


def read_text(path):
    """Rows of the chain file in order; a torn last line is left out."""
    if not os.path.exists(path):
        return None
    with open(path) as f:
        lines = f.read().split("\n")
    rows = []
    head = lines[0].split("\t") if lines else []
    for j, line in enumerate(lines[1:]):
        if not line.strip():
            continue
        cells = line.split("\t")
        if len(cells) != len(head) or (j == len(lines) - 2):
            rows.append(None)
            continue
        try:
            rows.append((int(cells[0]), tuple(float(c) for c in cells[1:])))
        except ValueError:
            rows.append(None)
    while rows and rows[-1] is None:
        rows.pop()
    return {"head": head, "rows": rows}


def execute(plan, ctx):
    import bilby
    from checks.p02_nested_resume import check_signal_end

    name = plan["name"]
    pre = tuple(os.path.dirname(os.path.abspath(bilby.__file__)) + os.sep + f"core/sampler/{n}" for n in ("emcee", "zeus", "kombine"))
    d = os.path.join(ctx.root, "out", f"{name}_run")
    path, text = os.path.join(d, "sampler.pickle"), os.path.join(d, "chain.dat")

    def observe():
        out = ctx.run(lambda s: read(path, name), tag="observe", incarnation=9999)
        if out["end"] != "ok":
            raise Violation("checkpoint-unreadable", f"the resume file cannot be read: {out.get('type')}: {out.get('msg')}")
        return out["value"]

    like, pri = W.GaussLikelihood(plan["ndim"], rho=plan["rho"]), W.gauss_priors(plan["ndim"], 4.0)
    last = None
    for k, inc in enumerate(list(plan["incs"]) + [{"faults": [], "down": 1}]):
        ctx.now += inc["down"]
        lines = pre if any(f["point"] == "line" for f in inc["faults"]) else None
        out = ctx.run(_body(plan, k), inc["faults"], tag=f"sampling #{k}", line_prefixes=lines, cpu=60)
        if out["end"] == "cpu":
            raise Violation(f"no-progress:{name}", f"run #{k} made no progress: {out.get('where', '')[-600:]}")
        if out["end"] == "exception" and out["type"] == "SamplerError" and "not burned in" in out["msg"]:
            raise Skip("the chain is not burned in")
        if name == "kombine" and out["end"] == "exception" and "_kernel_cov" in out["msg"]:
            raise Skip("kombine's density estimate failed")
        if not check_signal_end(out):
            raise Violation(f"resume-failed:{name}:{out.get('type') or out['end']}",
                            f"{name} run #{k} (after {[t['fired'] for t in ctx.traces[:-1]]}) ended with {out['end']} "
                            f"{out.get('type')}: {out.get('msg')} at {out.get('site')}")
        seen = out.get("exitinfo")
        if last is not None and seen and seen[0] is not None and len(last["chain"]) and seen[0] != last["chain"][-1]:
            raise Violation(f"not-continued:{name}", f"run #{k} started its walkers elsewhere than the checkpoint it resumed "
                            f"({len(last['chain'])} steps) left them")
        now = observe()
        if last is not None and now is None:
            raise Violation(f"checkpoint-lost:{name}", f"run #{k} removed the checkpoint it started from")
        if now is not None:
            ctx.probes["checkpointed"] += 1
            _check_state(plan, now, like, pri)
            if last is not None:
                ctx.probes["resumed"] += 1
                _check_extends(plan, last, now, k)
        last = now
        if out["end"] != "crash":
            _check_text(plan, read_text(text), last, out["end"], ctx)
        ctx.note(name, out["end"], last and len(last["chain"]))
        if out["end"] == "ok":
            if "noprogress" in out["value"]:
                raise Violation(f"no-progress:{name}", f"run #{k}: {out['value']['noprogress']}")
            ctx.probes["finished"] += 1
            if plan["auto"]:
                ctx.probes["autoburnin"] += 1
            _check_result(plan, out["value"], last, like, pri, k)
            ctx.nontrivial = True
            break


def _near(a, b):
    return abs(a - b) <= 1e-8 * (1 + abs(b))


def _point(x):
    return {f"x{j}": v for j, v in enumerate(x)}


def _check_state(plan, st, like, pri):
    name = plan["name"]
    noise = like.noise_log_likelihood() if plan["ratio"] else 0.0
    chain, vals = np.array(st["chain"]), np.array(st["vals"])
    if chain.shape[:2] != vals.shape[:2]:
        raise Violation(f"misaligned:{name}", f"{chain.shape[0]} steps recorded with {vals.shape[0]} steps of likelihood values")
    for j in range(chain.shape[0]):
        for w in range(chain.shape[1]):
            pt = _point(chain[j, w])
            lp = float(pri.ln_prob(pt))
            if not math.isfinite(lp) or not _near(vals[j, w, 1], lp) or not _near(vals[j, w, 0], like.value(pt) - noise):
                raise Violation(f"wrong-value:{name}", f"step {j} walker {w} at {pt} recorded with {vals[j, w].tolist()}, it has "
                                f"{like.value(pt) - noise}, {lp}")


def _check_extends(plan, old, new, k):
    n = len(old["chain"])
    if len(new["chain"]) < n:
        raise Violation(f"history-lost:{plan['name']}", f"run #{k}: {len(new['chain'])} steps after resuming from {n}")
    if new["chain"][:n] != old["chain"] or new["vals"][:n] != old["vals"]:
        bad = [j for j in range(n) if new["chain"][j] != old["chain"][j]]
        raise Violation(f"history-altered:{plan['name']}", f"run #{k}: recorded steps {bad[:5]} of {n} changed")


def _check_text(plan, text, state, end, ctx):
    """The chain file never repeats, skips or reorders steps; after a complete run it lists exactly all of them."""
    name = plan["name"]
    if state is None and text is None:
        return
    if text is None:
        raise Violation(f"chain-file-missing:{name}", "there is no chain file")
    ctx.probes["chain-file"] += 1
    want = [f"x{j}" for j in range(plan["ndim"])]
    if state is None:
        return
    rows = text["rows"]
    if text["head"] != ["walker"] + want + ["log_l", "log_p"]:
        if rows or end == "ok":
            raise Violation(f"chain-file:{name}", f"header {text['head']}")
        return
    chain, vals = state["chain"], state["vals"]
    nw, total = plan["nwalkers"], len(chain) * plan["nwalkers"]
    for r, row in enumerate(rows[:total]):
        j, w = divmod(r, nw)
        exp = list(chain[j][w]) + list(vals[j][w])
        if row is None or row[0] != w or any(abs(a - b) > 1e-8 * (1 + abs(b)) for a, b in zip(row[1], exp)):
            raise Violation(f"chain-file:{name}", f"row {r} of the chain file is {row}; step {j} of walker {w} is {exp}")
    if end == "ok" and len(rows) != total:
        raise Violation(f"chain-file:{name}", f"the chain file lists {len(rows)} rows for {len(chain)} steps of {nw} walkers")


def _check_result(plan, val, st, like, pri, k):
    name = plan["name"]
    if st is None:
        raise Violation(f"checkpoint-lost:{name}", "a finished run left no checkpoint")
    noise = like.noise_log_likelihood() if plan["ratio"] else 0.0
    chain = np.array(st["chain"])
    n = plan["iterations"]
    nburn = val["nburn"]
    if plan["auto"]:
        wanted = {n + nburn, n + nburn + plan["extend"]}
    else:
        wanted = {n, n + plan["extend"]} if plan["extend"] else {n}
    if chain.shape[0] not in wanted:
        raise Violation(f"steps:{name}", f"{chain.shape[0]} steps taken, {sorted(wanted)} requested (burn-in {nburn})")
    if not np.all(np.isfinite(chain)) or not np.any(chain[-1]):
        raise Violation(f"steps:{name}", "the end of the chain was never filled")
    samples = np.array(val["samples"])
    want = chain[nburn:]
    if len(samples) != want.shape[0] * want.shape[1]:
        raise Violation(f"samples:{name}", f"{len(samples)} samples reported from {want.shape[0]} steps of {want.shape[1]} walkers")
    if sorted(map(tuple, samples.tolist())) != sorted(map(tuple, want.reshape((-1, plan["ndim"])).tolist())):
        raise Violation(f"samples:{name}", "the reported samples are not the recorded chain after burn-in")
    if not len(samples) == len(val["logl"]) == len(val["logp"]):
        raise Violation(f"samples:{name}", f"{len(samples)} samples, {len(val['logl'])} likelihoods")
    for x, ll, lp in zip(samples, val["logl"], val["logp"]):
        pt = _point(x)
        if not _near(ll, like.value(pt) - noise) or not _near(lp, float(pri.ln_prob(pt))):
            raise Violation(f"sample-value:{name}", f"sample {pt} reported with log likelihood {ll}, log prior {lp}; they are "
                            f"{like.value(pt) - noise}, {pri.ln_prob(pt)}")
    for row in val["post"]:
        pt = _point(row[:plan["ndim"]])
        if not (_near(row[-2], like.value(pt)) or _near(row[-2], like.value(pt) - noise)) or not _near(row[-1], float(pri.ln_prob(pt))):
            raise Violation(f"posterior-value:{name}", f"posterior sample {pt} reported with {row[-2:]}")
    walkers = np.array(val["walkers"])
    if not (walkers.shape == chain.shape and np.allclose(walkers, chain)) and not (
            walkers.shape == chain.swapaxes(0, 1).shape and np.allclose(walkers, chain.swapaxes(0, 1))):
        raise Violation(f"walkers:{name}", f"the reported walkers {walkers.shape} are not the recorded chain {chain.shape}")
