"""P18: a seeded job gives the same results whatever the environment does.

Real code: bilby's random module, priors, noise, result resampling, the samplers' set-up, bilby-mcmc.  Stub: operating-system
entropy, clock, worker scheduler, disk.  The same seeded job is executed in several simulated environments.
"""
import hashlib
import json
import os
import pickle
import random
import subprocess
import sys

from sim.runner import HarnessError, Violation

PID = "P18"
TIERS = {"quick": {"runs": 700, "budget": 55, "minimise": 60, "min_runs": 30},
         "thorough": {"runs": 60000, "budget": 780, "minimise": 60, "min_runs": 150}}
REAL = ["bilby.core.utils.random", "bilby priors, noise generation, rejection sampling and reweighting",
        "bilby's dynesty, bilby-mcmc, ptemcee, emcee, zeus, kombine, nestle and ultranest samplers with those libraries",
        "the interpreter's hash randomisation (part of the runs)"]
STUB = ["operating-system entropy", "clock", "worker pool scheduler (forked lock-step workers)", "disk", "likelihood (Gaussian)"]
REQUIRED_PROBES = ["sampler", "priors", "noise", "post", "mcmc-proposals", "hash-seed", "history", "jump", "stall", "other-seed",
                   "pool"]
ASSUMPTIONS = ["the same number of workers, the same configuration, versions and seeds",
               "samplers whose library draws from numpy's or python's global generator have that generator seeded too",
               "bilby-mcmc renews its convergence estimates when it prints or checkpoints, on a wall-clock cadence by design: the "
               "check lets it do so at every step, or never"]

OWN = ("dynesty", "bilby_mcmc", "ptemcee")     # every draw comes from bilby's generator or the sampler's seed


def gen(rng, tier, i):
    from checks import _samplers as SS

    kind = rng.choice(["sampler"] * 8 + ["proposals"] * 2 + ["priors"] * 3 + ["noise"] * 2 + ["post"] * 3)
    job = {"kind": kind, "draw": rng.randrange(1, 10 ** 6)}
    if kind == "sampler":
        name = rng.choice(["dynesty", "dynesty", "bilby_mcmc", "bilby_mcmc", "bilby_mcmc", "ptemcee", "ptemcee", "emcee", "zeus",
                           "kombine", "nestle", "ultranest"])
        if name in SS.CHECKPOINT:
            cfg = SS.config(name, rng)
            if name == "dynesty":
                cfg["rejection_sample_posterior"] = rng.random() < 0.7
        elif name == "nestle":
            cfg = dict(nlive=20, method=rng.choice(["multi", "single", "classic"]), dlogz=1.0)
        else:
            cfg = dict(num_live_points=40, min_num_live_points=40, frac_remain=0.5, dlogz=2.0, stepsampler=None)
        if name == "bilby_mcmc":
            # it looks for convergence when it prints: print at every step
            cfg.update(printdt=0, verbose=False)
            cfg["proposal_cycle"] = rng.choice(["default", "default", "defaultnoGM", "defaultnoFMnoGM"])
            if rng.random() < 0.3:
                cfg.update(nensemble=2)
        job.update(name=name, cfg=cfg, npool=rng.choice([1, 1, 2, 3]) if name not in ("nestle", "ultranest") else 1,
                   how=rng.choice(["bilby", "sampling_seed", "seed"]) if name == "dynesty" else "bilby")
    else:
        job.update(n=rng.choice([1, 3, 20]), npool=rng.choice([1, 2, 3]), which=rng.randrange(10 ** 6))
    envs = []
    for k in range(2 if kind == "sampler" else 3):
        faults = []
        for _ in range(rng.choice([0, 1, 2])):
            do = rng.choice(["jump", "stall"])
            faults.append({"point": "clock", "at": rng.randint(0, rng.choice([20, 300])), "do": do,
                           "by": rng.choice([0.3, 7.0, 3600.0, 1e5] + ([-5.0, -4000.0] if do == "jump" else []))})
        envs.append({"salt": rng.randrange(10 ** 6), "clock0": 1.7e9 + rng.choice([0, 17, -9e7, 4e8]) + rng.random(),
                     "cost": rng.choice([0.0001, 0.01, 0.3]), "style": rng.choice(["random", "random", "rr", "one"]),
                     "dt": rng.choice([0, 3, 1e6]), "history": rng.choice([None, None, "self", "draws"]), "faults": faults,
                     "hash": 0})
    if job.get("name") == "bilby_mcmc":
        # a checkpoint at each of the thousand steps of a tempered run takes minutes
        dt = rng.choice([0, 1e9, 1e9]) if job["cfg"]["ntemps"] == 1 else 1e9
        for e in envs:
            e["dt"] = dt
            e["faults"] = [f for f in e["faults"] if f["by"] > 0 or dt]
    if rng.random() < 0.07:
        envs[-1]["hash"] = rng.randrange(1, 1000)
        envs[-1]["history"] = None
    return {"job": job, "envs": envs, "_lists": ["envs"]}


def preload():
    import lal
    import lalsimulation
    import sklearn.mixture

    import bilby.gw.likelihood
    import healpy

    from . import _samplers as S

    S.mute_tqdm()


# ---------------------------------------------------------------- jobs
def _cond(reference_params, a):
    return dict(minimum=-abs(a) - 1, maximum=abs(a) + 2)


def _conv(p):
    p = dict(p)
    p["total"] = p["b"] + p["c"]
    return p


def prior_sets():
    import numpy as np
    from bilby.core import prior as bp
    from bilby.gw import prior as gp
    import bilby

    x = np.linspace(-1, 2, 30)
    mvg = bp.MultivariateGaussianDist(["g", "h"], nmodes=2, mus=[[0.1, 0.2], [1.0, -1.0]], sigmas=[[1, 2], [0.5, 0.4]],
                                      corrcoefs=[[[1, 0.3], [0.3, 1]], [[1, -0.2], [-0.2, 1]]], weights=[0.3, 0.7])
    bounded = bp.MultivariateGaussianDist(["u", "v"], mus=[[0.0, 0.5]], sigmas=[[1, 1]], corrcoefs=[[[1, 0.5], [0.5, 1]]],
                                          bounds={"u": (-1, 2), "v": (-0.5, 3)})
    plain = bp.PriorDict(dict(
        a=bp.Uniform(-1, 2), b=bp.Gaussian(0, 1), c=bp.TruncatedGaussian(0, 1, -1, 3), d=bp.PowerLaw(-1.5, 1, 4), e=bp.Sine(),
        f=bp.Cosine(), g=bp.MultivariateGaussian(mvg, "g"), h=bp.MultivariateGaussian(mvg, "h"), i=bp.Interped(x, x ** 2 + 0.1),
        j=bp.Categorical(4), k=bp.Triangular(0.3, -1, 2), m=bp.StudentT(3, 0, 1), n=bp.Beta(2, 3), o=bp.Gamma(2, 1),
        p=bp.SlabSpikePrior(slab=bp.Uniform(0, 1), spike_location=0, spike_height=0.4), q=bp.FermiDirac(2, mu=1.5, r=None)
        if False else bp.Exponential(2.0), r=bp.SymmetricLogUniform(0.1, 1), s=bp.LogNormal(0, 1), t=bp.DeltaFunction(2.0)))
    cons = bp.PriorDict(dict(a=bp.Uniform(-1, 2), b=bp.Uniform(0, 2), c=bp.Uniform(0, 1), total=bp.Constraint(0.5, 1.5)),
                        conversion_function=_conv)
    cond = bp.ConditionalPriorDict(dict(a=bp.Uniform(-1, 2), b=bp.ConditionalUniform(_cond, minimum=-9, maximum=9),
                                        u=bp.MultivariateGaussian(bounded, "u"), v=bp.MultivariateGaussian(bounded, "v")))
    diri = bp.DirichletPriorDict(n_dim=4, label="w")
    gw = bilby.gw.prior.BBHPriorDict(aligned_spin=True)
    return {"plain": plain, "cons": cons, "cond": cond, "diri": diri, "gw": gw, "bns": None}


def _flat(v):
    import numpy as np
    import pandas as pd

    if isinstance(v, dict):
        return [(k, _flat(v[k])) for k in sorted(v)]
    if isinstance(v, pd.DataFrame):
        return [(k, _flat(v[k].values)) for k in v.columns]
    if isinstance(v, (list, tuple)) and any(isinstance(x, (list, dict, tuple, np.ndarray)) for x in v):
        return [_flat(x) for x in v]
    if v is None:
        return None
    a = np.asarray(v)
    if a.dtype == object:
        return repr(v)
    return (str(a.dtype), a.shape, hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:16],
            [str(x) for x in a.ravel()[:3]])


def do_priors(job, s):
    import bilby
    import numpy as np

    sets = prior_sets()
    r = random.Random(job["which"])
    out = []
    for _ in range(4):
        name = r.choice([k for k, v in sets.items() if v is not None])
        p, how, n = sets[name], r.choice(["sample", "subset", "array", "single", "constrained"]), job["n"]
        if how == "sample":
            out.append((name, how, _flat(p.sample(r.choice([None, n, (n, 2)]) if name not in ("cons", "gw") else n))))
        elif how == "subset":
            keys = r.sample(sorted(p), min(3, len(p)))
            if name in ("cond", "diri"):
                keys = list(p)
            keys = [k for k in keys if type(p[k]).__name__ != "Constraint"]
            out.append((name, how, _flat(p.sample_subset(keys, n))))
        elif how == "array":
            keys = [k for k in p if type(p[k]).__name__ not in ("Constraint",)]
            out.append((name, how, _flat(p.sample_subset_constrained_as_array(keys, n))))
        elif how == "single":
            k = r.choice(sorted(sets["plain"]))
            if k in "gh":
                continue
            out.append((k, how, _flat(sets["plain"][k].sample(n))))
        else:
            out.append((name, how, _flat(p.sample_subset_constrained(list(p), n))))
    out.append(("seeds", _flat([x.generate_state(4) for x in bilby.core.utils.random.generate_seeds(3)])))
    out.append(("rng", _flat(bilby.core.utils.random.rng.normal(size=3))))
    return out


def do_noise(job, s):
    import bilby
    import numpy as np

    r = random.Random(job["which"])
    out = []
    names = r.sample(["H1", "L1", "V1", "K1"], r.choice([1, 2, 3]))
    ifos = bilby.gw.detector.InterferometerList(names)
    ifos.set_strain_data_from_power_spectral_densities(sampling_frequency=256, duration=2, start_time=r.choice([0, 1126259642.4]))
    out += [(i.name, _flat(i.strain_data.frequency_domain_strain)) for i in ifos]
    wn, f = bilby.core.utils.create_white_noise(128, 2)
    out.append(("white", _flat(wn)))
    psd = bilby.gw.detector.PowerSpectralDensity(frequency_array=np.arange(0, 65, 0.5), psd_array=np.full(130, 1e-44))
    out.append(("psd", _flat(psd.get_noise_realisation(128, 4)[0])))
    like = bilby.core.likelihood.GaussianLikelihood
    pri = bilby.gw.prior.BBHPriorDict(aligned_spin=True)
    pri["geocent_time"] = bilby.core.prior.Uniform(0, 1)
    out.append(("injection", _flat(bilby.gw.conversion.convert_to_lal_binary_black_hole_parameters(pri.sample())[0])))
    return out


def do_post(job, s):
    import bilby
    import numpy as np
    import pandas as pd
    from bilby.core import result as br
    from sim import workloads as W

    r = random.Random(job["which"])
    g = np.random.default_rng(job["which"])
    n = 10 * job["n"] + 5
    pri = W.gauss_priors(2)

    def res(k):
        post = pd.DataFrame(g.normal(size=(n, 2)), columns=["x0", "x1"])
        post["log_likelihood"] = W.GaussLikelihood(2).lognorm - 0.5 * (post.x0 ** 2 + post.x1 ** 2)
        post["log_prior"] = np.log(0.01)
        nested = post.copy()
        nested["weights"] = g.uniform(size=n)
        return br.Result(label=f"r{k}", outdir="out", sampler="dynesty", search_parameter_keys=["x0", "x1"], priors=W.gauss_priors(2),
                         posterior=post, nested_samples=nested, samples=post[["x0", "x1"]].values, log_evidence=-3.0 - k,
                         log_evidence_err=0.1, log_noise_evidence=-4.0, log_bayes_factor=1.0 - k, use_ratio=False,
                         sampler_kwargs=dict(nlive=20), log_likelihood_evaluations=post.log_likelihood.values)

    out = []
    os.makedirs("out", exist_ok=True)
    for _ in range(3):
        what = r.choice(["reject", "combine", "reweight", "nested", "fisher"])
        if what == "reject":
            post = res(0).posterior
            out.append((what, _flat(br.rejection_sample(post, g.uniform(size=n)))))
            out.append((what, _flat(br.rejection_sample(post.values, g.uniform(size=n)))))
        elif what == "combine":
            c = br.ResultList([res(k) for k in range(3)]).combine(shuffle=r.random() < 0.6)
            out.append((what, _flat(c.posterior), c.log_evidence))
        elif what in ("reweight", "nested"):
            new = br.reweight(res(1), label="n", new_likelihood=W.GaussLikelihood(2, rho=0.6), old_likelihood=None,
                              use_nested_samples=what == "nested", npool=job["npool"], n_checkpoint=1000, resume_file=None)
            out.append((what, _flat(new.posterior), new.log_evidence))
        else:
            m = bilby.core.fisher.FisherMatrixPosteriorEstimator(W.GaussLikelihood(2), pri)
            out.append((what, _flat(m.sample_array(dict(x0=0.1, x1=-0.2), n=job["n"]))))
    return out


def do_proposals(job, s):
    """Every bilby-mcmc proposal on a chain long enough for the learning ones to have learnt."""
    import bilby
    import numpy as np
    from bilby.bilby_mcmc import chain as ch, proposals as pr
    from checks import _samplers as SS
    from sim import workloads as W

    r = random.Random(job["which"])
    g = np.random.default_rng(job["which"])
    pri = W.gauss_priors(2)
    pri["phase"] = bilby.core.prior.Uniform(0, 2 * np.pi, boundary="periodic")
    classes = [pr.FixedGaussianProposal, pr.AdaptiveGaussianProposal, pr.DifferentialEvolutionProposal, pr.UniformProposal,
               pr.PriorProposal, pr.KDEProposal, pr.KDEProposal, pr.GMMProposal, pr.GMMProposal]
    out = []
    for _ in range(3):
        cls = r.choice(classes)
        kw = dict(first_fit=10, nsamples_for_density=60) if cls in (pr.KDEProposal, pr.GMMProposal) else {}
        p = cls(pri, **kw)
        start = ch.Sample({k: float(v) for k, v in pri.sample().items()})
        start[ch.LOGLKEY] = start[ch.LOGPKEY] = 0.0
        c = ch.Chain(start, block_length=200)
        for k in range(120):
            x = {key: float(g.uniform(-1, 1)) for key in pri}
            smp = ch.Sample(x)
            smp[ch.LOGLKEY] = smp[ch.LOGPKEY] = 0.0
            c.append(smp)
        got = []
        for _ in range(30):
            smp, f = p(c)
            got.append([float(smp[k]) for k in sorted(pri)] + [float(f)])
            smp[ch.LOGLKEY] = smp[ch.LOGPKEY] = 0.0
            c.append(smp)
        out.append((cls.__name__, _flat(got)))
    return out


def do_sampler(job, s):
    import bilby
    from checks import _samplers as SS
    from sim import workloads as W

    name = job["name"]
    SS.fast(name)
    cfg = dict(job["cfg"])
    if "check_point_delta_t" in cfg:
        cfg["check_point_delta_t"] = s.env["dt"]
    if job["how"] != "bilby":
        cfg[job["how"]] = job["draw"]
    like = W.GaussLikelihood(2)
    res = bilby.run_sampler(like, W.gauss_priors(2), sampler=name, label="run", outdir=s.outdir, save=False, plot=False, resume=False,
                            clean=True, npool=job["npool"], use_ratio=False, **cfg)
    out = [(k, _flat(getattr(res, k))) for k in ("log_evidence", "log_evidence_err", "log_bayes_factor", "posterior")]
    for k in ("samples", "nested_samples", "walkers", "log_likelihood_evaluations", "num_likelihood_evaluations"):
        out.append((k, _flat(SS.attr(res, k))))
    return out


JOBS = {"priors": do_priors, "noise": do_noise, "post": do_post, "proposals": do_proposals, "sampler": do_sampler}


def _seed(job, s, draw):
    """What the user does: seed bilby's generator, and numpy's where the sampler's library draws from it."""
    import numpy as np
    from bilby.core.utils import random as br

    if not (job["kind"] == "sampler" and job["how"] == "sampling_seed"):
        br.seed(draw)
    if job["kind"] == "sampler" and job["name"] not in OWN:
        np.random.seed(draw)
        random.seed(draw)           # zeus


def body_for(job, env, seeded=True):
    def body(s):
        import bilby
        import numpy as np
        from bilby.core.utils import random as br
        from sim import workloads as W

        W.reset_cli()
        s.env, s.outdir = env, "out"
        s.entropy_salt, s.like_cost, s.pool_style = env["salt"], env["cost"], env["style"]
        s.like_cap, s.task_cap = 60000, 6000
        br.Generator.rng = np.random.default_rng(env["salt"])       # what an unseeded process starts with
        np.random.seed(env["salt"] % 2 ** 31)
        random.seed(env["salt"])
        fn = JOBS[job["kind"]]
        if env["history"] == "self":
            s.outdir = "before"
            _seed(job, s, 77)
            fn(dict(job, draw=77), s)
            s.outdir = "out"
        elif env["history"] == "draws":
            br.rng.normal(size=100 + env["salt"] % 50)
            prior_sets()["plain"].sample(5)
        draw = job["draw"]
        _seed(job, s, draw)
        out = fn(job, s)
        s.probe("pool", bool(s.counts.get("task")))
        return out

    return body


def _start(job, env, ctx, tag, inc):
    if not env["hash"]:
        return ctx.run(body_for(job, env), env["faults"], tag=tag, incarnation=inc, clock0=env["clock0"], cpu=100,
                       fresh_root=os.path.join(ctx.base, f"n{inc}"))
    # another interpreter with another hash seed
    root = os.path.join(ctx.base, f"n{inc}")
    e = {k: v for k, v in os.environ.items() if k != "VERIF_BOOTED"}
    e.update(PYTHONHASHSEED=str(env["hash"]))
    p = subprocess.run([sys.executable, "-c", "import checks.p18_repeatable as m; m.other()"], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, input=json.dumps({"job": job, "env": env, "seed": ctx.plan["seed"], "inc": inc,
                                                                 "root": root}).encode())
    if p.returncode:
        raise HarnessError("the other interpreter failed: " + p.stderr.decode()[-1500:])
    ctx.probes["hash-seed"] += 1
    return pickle.loads(p.stdout[p.stdout.index(b"\0PICKLE\0") + 8:])


def other():
    """Run one job in this interpreter and report it on stdout."""
    from sim import boot, clock, entropy, fs, pool, proc

    d = json.load(sys.stdin)
    boot.load()
    preload()
    fs.install(), clock.install(), pool.install(), entropy.install()
    os.makedirs(d["root"])
    out = proc.run(body_for(d["job"], d["env"]), seed=d["seed"], root=d["root"], faults=d["env"]["faults"], incarnation=d["inc"],
                   clock0=d["env"]["clock0"], cpu=100)
    sys.stdout.buffer.write(b"\0PICKLE\0" + pickle.dumps(dict(out)))
    sys.stdout.flush()


def _diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f"{x!r} against {y!r}"[:700]
    return f"{len(a)} items against {len(b)}"


def _what(job):
    return job["name"] if job["kind"] == "sampler" else job["kind"]


def execute(plan, ctx):
    job, envs = plan["job"], plan["envs"]
    what = _what(job)
    ctx.probes["mcmc-proposals" if job["kind"] == "proposals" else job["kind"]] += 1
    if not envs:
        return
    first = None
    for k, env in enumerate(envs):
        out = _start(job, env, ctx, f"environment {k}", k)
        if env["history"] and not env["hash"]:
            ctx.probes["history"] += 1
        if out["end"] in ("cpu",):
            raise Violation(f"no-progress:{what}", f"environment {k} {env}: no end in sight")
        val = out["value"] if out["end"] == "ok" else (out["end"], out.get("type"), out.get("msg"))
        if out["end"] != "ok":
            ctx.probes["failed"] += 1
        ctx.note(k, val)
        if first is None:
            first = val
        elif val != first:
            a, b = (v if isinstance(v, list) else [v] for v in (first, val))
            part = next((x[0] for x, y in zip(a, b) if x != y), "length") if a and isinstance(a[0], tuple) else "end"
            raise Violation(f"not-repeatable:{what}", f"{json.dumps(job)[:500]} with seed {job['draw']}: {part}: {_diff(a, b)} in "
                            f"environment {json.dumps(env)[:300]} against {json.dumps(envs[0])[:300]}")
    ctx.nontrivial = True
    if isinstance(first, tuple):
        if first[1] not in ("SamplerError", "ValueError") and job["kind"] != "sampler":
            raise HarnessError(f"the job itself fails: {first}")
        return
    if job["kind"] in ("priors", "noise", "proposals") or (job["kind"] == "sampler" and plan["index"] % 4 == 0):
        o = _start(dict(job, draw=job["draw"] + 1), dict(envs[0], hash=0), ctx, "another seed", 50)
        if o["end"] == "ok":
            ctx.probes["other-seed"] += 1
            if o["value"] == first:
                raise Violation(f"seed-ignored:{what}", f"{json.dumps(job)[:500]}: seeds {job['draw']} and {job['draw'] + 1} give the "
                                "same draws")
