"""P12: reweighting is independent of workers, completion order and interruptions.

Real code: get_weights_for_reweighting and reweight with real priors.  Stub: the
worker pool's scheduler, disk, signals, power cuts.  Oracle: a direct serial
calculation of every weight, and the uninterrupted serial run.
"""
import math
import random

from sim.runner import Skip, Violation

PID = "P12"
TIERS = {"quick": {"runs": 2500, "budget": 35, "minimise": 40, "min_runs": 40},
         "thorough": {"runs": 200000, "budget": 760, "minimise": 60, "min_runs": 400}}
REAL = ["bilby reweight, get_weights_for_reweighting, rejection_sample", "bilby priors", "pickling of likelihoods to workers"]
STUB = ["worker pool scheduling (simulated pool of forked workers)", "disk", "signal source"]
REQUIRED_PROBES = ["crash", "signal", "enospc", "eio", "resumed", "pool-tasks", "nested", "new-prior", "old-likelihood",
                   "completed"]
ASSUMPTIONS = ["an interrupted reweighting is run again with the same arguments"]


def gen(rng, tier, i):
    incs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        faults = []
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["crash", "crash", "signal", "eio", "enospc", "short", "task-crash", "task-signal",
                               "line-signal", "line-signal", "line-memoryerror"])
            if kind.startswith("line-"):
                f = {"point": "line", "at": rng.randint(0, rng.choice([100, 1500])), "do": kind[5:]}
            elif kind.startswith("task-"):
                f = {"point": "task", "at": rng.randint(0, rng.choice([2, 12])), "do": kind[5:]}
            else:
                f = {"point": "fs", "at": rng.randint(0, rng.choice([4, 20])), "do": kind}
            if kind == "crash":
                f["torn"], f["after"] = rng.random(), rng.random() < 0.5
            if kind == "enospc":
                f["for"] = rng.choice([1, 3])
            if "signal" in kind:
                f["signum"] = 2
            faults.append(f)
        incs.append({"faults": faults, "npool": rng.randint(1, 4)})
    return {"incs": incs, **rng.choice([{"n": 1, "n_checkpoint": 1}, {"n": 2, "n_checkpoint": 1}, {"n": 13, "n_checkpoint": 3},
                                     {"n": 40, "n_checkpoint": 20}, {"n": 40, "n_checkpoint": 40}, {"n": 150, "n_checkpoint": 60},
                                     {"n": 320, "n_checkpoint": 120}, {"n": 450, "n_checkpoint": 5000}]),
            "npool": rng.randint(1, 4), "resume": rng.random() < 0.8,
            "newlike": rng.random() < 0.8, "oldlike": rng.random() < 0.5, "newprior": rng.random() < 0.5,
            "oldprior": rng.random() < 0.4, "nested": rng.random() < 0.3, "reversed": rng.random() < 0.3,
            "prior": rng.choice(["uniform", "gauss", "narrow", "conditional"]),
            "conversion": rng.random() < 0.3, "pool_style": rng.choice(["random", "random", "rr", "one"]),
            "special": rng.random() < 0.4, "draw": rng.randrange(10 ** 6), "_lists": ["incs"]}


def preload():
    from . import _samplers as S

    S.mute_tqdm()


def _cond(reference_params, x0):
    return dict(minimum=-abs(x0) - 1, maximum=abs(x0) + 2)


def make_prior(kind):
    import bilby
    from bilby.core import prior as bp

    if kind == "uniform":
        return bp.PriorDict(dict(x0=bp.Uniform(-5, 5), x1=bp.Uniform(-6, 6)))
    if kind == "gauss":
        return bp.PriorDict(dict(x0=bp.Gaussian(0.1, 2.0), x1=bp.Uniform(-6, 6)))
    if kind == "narrow":
        return bp.PriorDict(dict(x0=bp.Uniform(-1, 1.5), x1=bp.Uniform(-6, 6)))
    return bp.ConditionalPriorDict(dict(x0=bp.Uniform(-5, 5), x1=bp.ConditionalUniform(
        condition_func=_cond, minimum=-6, maximum=6)))


def make(plan):
    import bilby
    import numpy as np
    import pandas as pd

    from sim import workloads as W

    npr = np.random.RandomState(plan["draw"])
    n = plan["n"]

    def table(n):
        post = pd.DataFrame({"x0": npr.uniform(-3, 3, n), "x1": npr.uniform(-3, 3, n)})
        if plan["special"] and n > 2:
            # likelihoods of zero and near zero are ordinary values
            post.loc[n // 2, "x0"] = 0.0
        post["log_likelihood"] = npr.normal(0, 1.5, n)
        if plan["special"] and n > 2:
            post.loc[n // 2, "log_likelihood"] = 0.0
            post.loc[n // 3, "log_likelihood"] = 1e-12
        post["log_prior"] = npr.normal(-3, 1, n)
        return post

    post, nested = table(n), table(n + 3)
    if not (plan["newprior"] and not plan["oldprior"]):
        del nested["log_prior"]     # samplers do not store it
    nested["weights"] = npr.uniform(0.01, 1, n + 3)
    if plan["reversed"]:
        post.index = post.index[::-1]
    pri = make_prior("uniform")
    r = bilby.core.result.Result(label="r", outdir="out", sampler="dynesty", search_parameter_keys=["x0", "x1"],
                                 fixed_parameter_keys=[], priors=pri, posterior=post, nested_samples=nested,
                                 samples=post[["x0", "x1"]].to_numpy(), log_evidence=-7.25, log_evidence_err=0.1,
                                 log_noise_evidence=-9.0, log_bayes_factor=1.75, meta_data={"a": {"b": 1}},
                                 sampler_kwargs={"nlive": 5})
    like = [W.GaussLikelihood(2, rho=0.6), W.GaussLikelihood(2, rho=-0.4)]
    return r, like


def kwargs(plan, like, npool):
    return dict(new_likelihood=like[0] if plan["newlike"] else None, old_likelihood=like[1] if plan["oldlike"] else None,
                new_prior=make_prior(plan["prior"]) if plan["newprior"] else None,
                old_prior=make_prior("uniform") if plan["oldprior"] else None, npool=npool, verbose_output=True,
                n_checkpoint=plan["n_checkpoint"], use_nested_samples=plan["nested"],
                conversion_function=conv if plan["conversion"] else None)


def conv(df, likelihood, priors, npool=1):
    df = df.copy()
    df["twice"] = 2 * df["x0"]
    return df


def finger(r):
    from .p10_result_save import fields

    return repr(sorted(fields(r).items()))


def body(plan, npool, resume):
    def run(s):
        import bilby
        from sim import workloads as W

        s.pool_style = plan["pool_style"]
        W.reset_cli()
        r, like = make(plan)
        before = finger(r)
        W.seed_all(plan["draw"])
        err, out = None, None
        try:
            out = bilby.core.result.reweight(r, resume_file="reweight.txt" if resume else None,
                                             **kwargs(plan, like, npool))
        except Exception as e:
            err = (type(e).__name__, str(e)[:300], isinstance(e, (OSError, MemoryError)))
        except KeyboardInterrupt:
            err = ("KeyboardInterrupt", "", True)
        except SystemExit:
            err = ("SystemExit", "", True)
        s.enabled = False
        from sim import interrupt

        interrupt.stop()
        val = {"unchanged": finger(r) == before, "err": err}
        if out is not None:
            new, w, nl, npr, ol, opr = out
            val.update(w=[float(x) for x in w], nl=list(map(float, nl)), np=list(map(float, npr)), ol=list(map(float, ol)),
                       op=list(map(float, opr)), lz=float(new.log_evidence), post=new.posterior.to_dict("list"),
                       label=new.label, flag=new.meta_data.get("reweighted_using_rejection_sampling"),
                       prior={k: repr(v) for k, v in new.priors.items()})
        return val

    return run


def model(plan):
    """Every weight, calculated directly."""
    import numpy as np

    r, like = make(plan)
    df = r.nested_samples if plan["nested"] else r.posterior
    old = make_prior("uniform") if plan["oldprior"] else None
    new = make_prior(plan["prior"]) if plan["newprior"] else None
    out = {k: [] for k in ("nl", "ol", "np", "op")}
    for _, row in df.iterrows():
        x = {"x0": float(row["x0"]), "x1": float(row["x1"])}
        ol = like[1].value(x) if plan["oldlike"] else float(row["log_likelihood"])
        out["ol"].append(ol)
        out["nl"].append(like[0].value(x) if plan["newlike"] else ol)
        op = float(old.ln_prob(dict(x))) if old else float(row.get("log_prior", np.nan))
        out["op"].append(op)
        out["np"].append(float(new.ln_prob(dict(x))) if new else op)
    lw = np.array(out["nl"]) - np.array(out["ol"])
    if new:
        lw = lw + np.array(out["np"]) - np.array(out["op"])
    if plan["nested"]:
        lw = lw + np.log(df["weights"].to_numpy())
        lz = r.log_evidence + np.log(np.sum(np.exp(lw)))
    else:
        lz = r.log_evidence + np.log(np.mean(np.exp(lw)))
    out["x0"], out["x1"] = df["x0"].tolist(), df["x1"].tolist()
    out["w"] = list(np.exp(lw))
    out["lz"] = float(lz)
    return out


def close(a, b):
    return a == b or (a != a and b != b) or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)


def judge(v, m, what):
    for k in ("ol", "nl", "op", "np", "w"):
        if len(v[k]) != len(m[k]):
            raise Violation(f"length:{k}", f"{what}: {len(v[k])} values for {len(m[k])} samples")
        bad = [j for j in range(len(m[k])) if not close(v[k][j], m[k][j])]
        if bad:
            raise Violation(f"wrong:{k}", f"{what}: {len(bad)} of {len(m[k])} values of {k} are wrong, first sample {bad[0]}: "
                            f"{v[k][bad[0]]} instead of {m[k][bad[0]]}")
    if not close(v["lz"], m["lz"]):
        raise Violation("wrong:evidence", f"{what}: log evidence {v['lz']}, should be {m['lz']}")


def execute(plan, ctx):
    import os

    for k in ("nested", "newprior", "oldlike"):
        if plan[k]:
            ctx.probes[{"newprior": "new-prior", "oldlike": "old-likelihood"}.get(k, k)] += 1
    m = model(plan)
    if not any(w > 0 for w in m["w"]):
        raise Skip("no sample has any weight")
    for k, inc in enumerate(plan["incs"]):
        kw = {"line_prefixes": ("/bilby/core/result.py", "/bilby/core/prior/")} if any(
            f["point"] == "line" for f in inc["faults"]) else {}
        there = os.path.exists(os.path.join(ctx.root, "reweight.txt"))
        out = ctx.run(body(plan, inc["npool"], plan["resume"]), inc["faults"], tag=f"inc{k}", cpu=60, **kw)
        if out["end"] == "ok":
            v = out["value"]
            if not v["unchanged"]:
                raise Violation("original-changed", "the original result was changed by reweighting it")
            if v["err"]:
                if not out["sim"]["fired"] or not v["err"][2]:
                    raise Violation("failed", f"incarnation {k}: {v['err']}, faults {out['sim']['fired']}")
            else:
                judge(v, m, f"incarnation {k} ({inc['npool']} workers)")
                ctx.probes["completed"] += 1
                if there:
                    ctx.probes["resumed"] += 1
        elif out["end"] not in ("crash", "exit") and not (
                out.get("type") in ("MemoryError", "KeyboardInterrupt", "OSError") and out["sim"]["fired"]):
            raise Violation("failed", f"incarnation {k}: {out['end']} {out.get('type')} {out.get('msg')}")
    there = os.path.exists(os.path.join(ctx.root, "reweight.txt"))
    out = ctx.run(body(plan, plan["npool"], plan["resume"]), [], tag="last", cpu=60)
    if out["end"] != "ok" or out["value"]["err"]:
        raise Violation("failed", f"run after interruptions: {out['end']} {out.get('value') and out['value']['err']} {out.get('msg')}")
    v = out["value"]
    if not v["unchanged"]:
        raise Violation("original-changed", "the original result was changed by reweighting it")
    judge(v, m, f"run with {plan['npool']} workers after {len(plan['incs'])} interruptions")
    ctx.probes["completed"] += 1
    if there:
        ctx.probes["resumed"] += 1
    # which samples the rejection step keeps is drawn at random; what is kept must be the right rows
    rows = {(a, b): (c, d) for a, b, c, d in zip(m["x0"], m["x1"], v["nl"], v["np"])}
    for a, b, c, d in zip(*(v["post"][k] for k in ("x0", "x1", "log_likelihood", "log_prior"))):
        if repr(rows.get((a, b))) != repr((c, d)):
            raise Violation("mixed-rows", f"kept sample {(a, b)} carries {(c, d)} instead of {rows.get((a, b))}")
    ref = ctx.run(body(plan, 1, False), [], tag="reference", incarnation=9999, fresh_root=os.path.join(ctx.base, "ref"))
    if ref["end"] != "ok" or ref["value"]["err"]:
        raise Violation("failed", f"uninterrupted serial run: {ref['end']} {ref.get('value') and ref['value']['err']}")
    for k in ("w", "nl", "np", "ol", "op", "lz", *([] if there else ["post"]), "label", "flag", "prior"):
        if repr(v[k]) != repr(ref["value"][k]):
            raise Violation(f"differs:{k}", f"{k} differs from the uninterrupted serial run: {str(v[k])[:200]} vs "
                            f"{str(ref['value'][k])[:200]}")
    ctx.nontrivial = True
    ctx.note(m["lz"], v["lz"])
