"""P11: rerunning a finished analysis returns the stored result without sampling again.

Real code: run_sampler, the samplers, result caching, saving and reading.  Stub:
disk, clock, signals, power cuts, and the damage done to the stored file.
"""
import json
import os
import random
import signal

from sim.runner import Skip, Violation

from . import _samplers as S

PID = "P11"
TIERS = {"quick": {"runs": 500, "budget": 36, "minimise": 40, "min_runs": 20},
         "thorough": {"runs": 40000, "budget": 760, "minimise": 60, "min_runs": 150}}
REAL = ["bilby run_sampler, result cache, saving and reading, samples_to_posterior", "nestle, emcee and dynesty "
        "libraries", "bilby GW likelihood and its meta data"]
STUB = ["disk (fault-injecting file layer)", "clock", "signal source", "damage to the stored file"]
REQUIRED_PROBES = ["crash", "signal", "enospc", "reran", "cached", "variant-resampled", "damaged-resampled",
                   "crashed-while-saving", "gw", "initial-save-used"]
ASSUMPTIONS = ["the result is stored in the default JSON format, the only one the cache looks at",
               "priors are compared by which parameters are sampled and fixed, as documented, not by their shapes"]

DAMAGE = ["truncate", "empty", "garbage", "list", "null", "number", "nokeys", "badprior", "bitflip", "binary", "nometa"]
VARIANTS = ["extra-parameter", "fixed-now", "fewer", "likelihood-setting", "likelihood-array", "clean"]


def _faults(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        kind = rng.choice(["crash", "crash", "crash", "signal", "enospc", "line-signal"])
        if kind == "line-signal":
            f = {"point": "line", "at": rng.randint(0, rng.choice([200, 1500])), "do": "signal"}
        else:
            f = {"point": "fs", "at": rng.randint(0, rng.choice([6, 14])), "do": kind}
        if kind == "crash":
            f["torn"], f["after"] = rng.random(), rng.random() < 0.5
        if kind == "enospc":
            f["for"] = rng.choice([1, 3, 10 ** 6])
        if "signal" in kind:
            f["signum"] = rng.choice([15, 2])
        out.append(f)
    return out


def _first_faults(rng):
    """Faults of the first run, most of them while it saves its result."""
    if rng.random() < 0.5:
        return []
    faults = [f for f in _faults(rng) if f["point"] == "fs"]
    for f in faults:
        f["match"] = "_result"
    return faults


def gen(rng, tier, i):
    steps = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        steps.append({"faults": _faults(rng) if rng.random() < 0.6 else [], "seed": rng.randrange(10 ** 6)})
    last = rng.choice(["none", "variant", "variant", "damage", "damage"])
    return {"steps": steps, "sampler": rng.choice(["nestle", "nestle", "emcee", "emcee", "dynesty"]),
            "like": rng.choice(["gauss", "gauss", "gauss", "gw"]), "last": last,
            "first_faults": _first_faults(rng),
            "conversion": rng.random() < 0.4, "injection": rng.random() < 0.4, "ratio": rng.random() < 0.3,
            "variant": rng.choice(VARIANTS), "damage": rng.choice(DAMAGE), "where": rng.random(),
            "_lists": ["steps", "first_faults"]}


def preload():
    import lal
    import lalsimulation
    import nestle

    import bilby.gw.likelihood

    S.mute_tqdm()
    bilby.gw.conversion.tqdm if hasattr(bilby.gw.conversion, "tqdm") else None


def convert(sample, likelihood=None, priors=None, npool=1):
    out = sample.copy()
    for key in list(out):
        if key in ("x0", "x1", "chirp_mass"):
            out[key + "_twice"] = 2 * out[key]
    return out


def workload(plan, variant=None):
    """(likelihood, priors, injection) - the same on every run."""
    import bilby
    import numpy as np

    from sim import workloads as W

    if plan["like"] == "gw":
        bilby.core.utils.random.seed(plan["seed"] % 1000)
        ifos = bilby.gw.detector.InterferometerList(
            ["H1"] if variant == "likelihood-array" else ["H1", "L1"])
        ifos.set_strain_data_from_power_spectral_densities(sampling_frequency=512, duration=2, start_time=-1.0)
        for ifo in ifos:
            ifo.minimum_frequency = 30
        wg = bilby.gw.WaveformGenerator(
            duration=2, sampling_frequency=512, frequency_domain_source_model=bilby.gw.source.lal_binary_black_hole,
            parameter_conversion=bilby.gw.conversion.convert_to_lal_binary_black_hole_parameters,
            waveform_arguments={"waveform_approximant": "TaylorF2", "reference_frequency": 40.0,
                                "minimum_frequency": 30.0 if variant != "likelihood-setting" else 31.0})
        fixed = dict(mass_ratio=0.9, a_1=0.0, a_2=0.0, tilt_1=0.0, tilt_2=0.0, phi_12=0.0, phi_jl=0.0,
                     luminosity_distance=400.0, theta_jn=0.3, psi=0.4, phase=0.2, ra=1.1, dec=0.2, geocent_time=0.5)
        priors = bilby.core.prior.PriorDict({k: bilby.core.prior.DeltaFunction(v, k) for k, v in fixed.items()})
        priors["chirp_mass"] = bilby.core.prior.Uniform(25, 30, "chirp_mass")
        priors["phase"] = bilby.core.prior.Uniform(0, 6, "phase", boundary="periodic")
        if variant == "extra-parameter":
            priors["psi"] = bilby.core.prior.Uniform(0, 3, "psi", boundary="periodic")
        if variant == "fixed-now" or variant == "fewer":
            priors["phase"] = bilby.core.prior.DeltaFunction(0.2, "phase")

        class Like(bilby.gw.likelihood.GravitationalWaveTransient):
            def log_likelihood_ratio(self):
                W.like_point()
                return super().log_likelihood_ratio()

        like = Like(ifos, wg, priors=priors)
    else:
        like = W.GaussLikelihood(2, rho=0.2)
        priors = W.gauss_priors(2)
        like._meta = {"data": np.linspace(0, 1, 5) + (1e-9 if variant == "likelihood-array" else 0),
                      "name": "a" if variant != "likelihood-setting" else "b", "opts": {"k": [1, 2.5, None], "t": True},
                      "z": 1 + 2j, "f": convert, "c": W.GaussLikelihood, "nan": float("nan")}
        if variant == "extra-parameter":
            like = W.GaussLikelihood(3, rho=0.2)
            like._meta = {"data": np.linspace(0, 1, 5)}
            priors = W.gauss_priors(3)
        if variant in ("fixed-now", "fewer"):
            priors["x1"] = bilby.core.prior.DeltaFunction(0.5, "x1")
        like.meta_data = dict(like._meta)
        like.__class__ = type("L", (W.GaussLikelihood,), {"meta_data": property(
            lambda self: dict(self._meta), lambda self, v: None)})
    return like, priors


def body(plan, seed, variant=None, fresh=False):
    def run(s):
        import bilby

        from sim import workloads as W

        W.reset_cli()
        s.like_cap = 200_000
        s.like_cost = 0.01
        S.mute_tqdm()
        like, priors = workload(plan, variant)
        ndim = len(priors.non_fixed_keys)
        kw = {"nestle": dict(nlive=20, dlogz=1.0, method="single"),
              "emcee": dict(nwalkers=8, iterations=12, burn_in_act=1, verbose=False, nburn=2),
              "dynesty": dict(nlive=15, dlogz=5.0, sample="rwalk", bound="live", walks=3, maxmcmc=20, nact=1,
                              check_point_plot=False, print_method="interval-1e9")}[plan["sampler"]]
        W.seed_all(seed)
        opts = {}
        if fresh and plan["sampler"] != "nestle":
            kw["resume"] = False    # the sampler's own checkpoint is another matter (P03)
        if plan["conversion"]:
            opts["conversion_function"] = convert
        if plan["injection"]:
            opts["injection_parameters"] = dict(x0=0.3, x1=0.2, chirp_mass=27.0)
        if variant == "clean":
            opts["clean"] = True
        before = s.counts.get("like", 0)
        r = bilby.run_sampler(like, priors=priors, label="run", outdir="out", sampler=plan["sampler"],
                              use_ratio=plan["ratio"], save=True, **opts, **kw)
        n = s.counts.get("like", 0) - before
        return dict(summary(r), likes=n, ndim=ndim)

    return run


def summary(r):
    from .p10_result_save import canon

    out = {}
    for f in ("log_evidence", "log_evidence_err", "log_noise_evidence", "log_bayes_factor", "sampling_time",
              "posterior", "search_parameter_keys", "fixed_parameter_keys", "num_likelihood_evaluations",
              "injection_parameters", "label", "sampler", "samples"):
        out[f] = canon(S.attr(r, f))
    if out["sampling_time"] is not None:     # stored with a limited number of digits
        out["sampling_time"] = round(float(out["sampling_time"]), 4)
    return out


def stored(plan, ctx):
    """What a reader of the file finds now (samples and posterior), or None."""
    def run(s):
        import bilby

        try:
            r = bilby.core.result.read_in_result(outdir="out", label="run")
        except Exception:
            return None
        return {"samples": summary(r)["samples"], "evidence": summary(r)["log_evidence"],
                "post": getattr(r, "_posterior", None) is not None}

    return ctx.run(run, tag="look", incarnation=9999)["value"]


def damage(plan, root):
    rng = random.Random(f"damage:{plan['seed']}")
    path = os.path.join(root, "out", "run_result.json")
    if not os.path.exists(path):
        return False
    data = open(path, "rb").read()
    d = plan["damage"]
    if d == "truncate":
        data = data[:int(plan["where"] * (len(data) - 2)) + 1]
    elif d == "empty":
        data = b""
    elif d == "garbage":
        data = bytes(rng.choices(range(32, 127), k=500))
    elif d == "binary":
        data = bytes(rng.choices(range(256), k=500))
    elif d == "list":
        data = b"[1, 2]"
    elif d == "null":
        data = b"null"
    elif d == "number":
        data = b"17"
    elif d == "nokeys":
        data = b'{"unknown": 1}'
    elif d == "nometa":
        doc = json.loads(data)
        doc["meta_data"].pop("likelihood", None)
        data = json.dumps(doc).encode()
    elif d == "badprior":
        data = data.replace(b'"__module__": "bilby.core.prior.', b'"__module__": "bilby.core.rpior.')
    elif d == "bitflip":
        # flip a structural byte so that the file is certainly unreadable
        k = data.find(b":", int(plan["where"] * len(data) * 0.9))
        data = data[:k] + b"\xff" + data[k + 1:]
    open(path, "wb").write(data)
    return True


EQUAL = ("samples", "posterior", "log_evidence", "log_evidence_err", "log_noise_evidence", "log_bayes_factor",
         "sampling_time", "search_parameter_keys", "num_likelihood_evaluations", "injection_parameters", "sampler")
FEW = 130   # constructing a sampler evaluates the likelihood about a hundred times to time it; the rest is sampling


def execute(plan, ctx):
    if plan["like"] == "gw":
        ctx.probes["gw"] += 1
    lines = ("/bilby/core/result.py", "/bilby/core/utils/io.py", "/bilby/core/sampler/")

    def go(faults, seed, tag, variant=None, fresh=False):
        kw = {"line_prefixes": lines} if any(f["point"] == "line" for f in faults) else {}
        return ctx.run(body(plan, seed, variant, fresh), faults, tag=tag, cpu=100, **kw)

    # 1. the first run: finish it, possibly crashing on the way
    first = None
    pinned = None
    for k, faults in enumerate([plan["first_faults"]] * 2 + [[]]):
        if k and not plan["first_faults"]:
            break
        faults = [] if k == 1 and pinned is not None else faults
        out = go(faults, 7 + k, "first")
        if out["end"] == "ok":
            first = out["value"]
            if pinned is not None:
                if first["likes"] > FEW:
                    raise Violation("resampled-after-initial-save", f"the result was on disk when the process died, but "
                                    f"the next run made {first['likes']} likelihood evaluations")
                if pinned["samples"] is not None and first["samples"] != pinned["samples"]:
                    raise Violation("samples-changed", "samples differ from those on disk when the process died")
                ctx.probes["initial-save-used"] += 1
            break
        if out["end"] == "exception":
            # a fault may be reported to the caller, nothing else may
            if not ctx.fired:
                raise Violation("first-run-failed", f"{out['type']}: {out['msg']} at {out['site']}")
            if out["type"] not in ("OSError", "KeyboardInterrupt", "SystemExit"):
                raise Violation("first-run-failed", f"{out['type']}: {out['msg']} at {out['site']}")
        elif out["end"] in ("cpu",):
            raise Skip("slow")
        at = stored(plan, ctx)
        if at is not None:
            pinned = at
            ctx.probes["crashed-while-saving"] += 1
    if first is None:
        raise Skip("first run never finished")
    if not os.path.exists(os.path.join(ctx.root, "out", "run_result.json")):
        if "enospc" in ctx.fired:
            raise Skip("disk full: not stored as JSON")
        raise Violation("not-stored", "the finished run left no result file")
    there = stored(plan, ctx)
    if there is None or not there["post"]:
        if "enospc" in ctx.fired:
            raise Skip("disk full: not stored as JSON")
        raise Violation("not-stored", "the finished run left no readable result file with a posterior")
    ref = first

    # 2. reruns
    for k, step in enumerate(plan["steps"]):
        out = go(step["faults"], step["seed"], f"rerun{k}")
        if out["end"] == "ok":
            ctx.probes["reran"] += 1
            v = out["value"]
            if v["likes"] > FEW:
                raise Violation("resampled", f"rerun {k} made {v['likes']} likelihood evaluations")
            for f in EQUAL:
                if v[f] != ref[f]:
                    raise Violation(f"changed:{f}", f"rerun {k}: {f} was {str(ref[f])[:150]}, is {str(v[f])[:150]}")
            ctx.probes["cached"] += 1
        elif out["end"] == "exception":
            if not out["sim"]["fired"]:
                raise Violation("rerun-failed", f"rerun {k}: {out['type']}: {out['msg']} at {out['site']}")
            if out["type"] not in ("OSError", "KeyboardInterrupt"):
                raise Violation("rerun-failed", f"rerun {k} after {out['sim']['fired']}: {out['type']}: {out['msg']}")
        elif out["end"] == "cpu":
            raise Skip("slow")

    # 3. a different analysis, or a damaged store, under the same label
    if plan["last"] == "variant":
        out = go([], 99, "variant", plan["variant"], fresh=True)
        if out["end"] != "ok":
            raise Violation("variant-failed", f"{plan['variant']}: {out['end']} {out.get('type')}: {out.get('msg')}")
        v = out["value"]
        if v["likes"] <= FEW:
            raise Violation(f"foreign-result-used:{plan['variant']}", "the stored result of a different analysis was "
                            "returned")
        want = 3 if plan["variant"] == "extra-parameter" else 1 if plan["variant"] in ("fixed-now", "fewer") else 2
        if len(v["search_parameter_keys"]) != want:
            raise Violation("wrong-parameters", f"{v['search_parameter_keys']}")
        ctx.probes["variant-resampled"] += 1
    elif plan["last"] == "damage":
        if not damage(plan, ctx.root):
            raise Skip("nothing to damage")
        out = go([], 99, "damaged", fresh=True)
        if out["end"] != "ok":
            raise Violation("damaged-result-fatal", f"{plan['damage']}: {out['end']} {out.get('type')}: {out.get('msg')} at "
                            f"{out.get('site')}")
        v = out["value"]
        if v["likes"] <= FEW and plan["damage"] not in ("badprior",):
            raise Violation("damaged-result-used", f"{plan['damage']}: the damaged file was used")
        ctx.probes["damaged-resampled"] += 1
        out = go([], 100, "after-damage")
        if out["end"] != "ok" or out["value"]["likes"] > FEW or out["value"]["samples"] != v["samples"]:
            raise Violation("not-stored-after-damage", f"{out['end']} {out.get('type')} {out.get('msg')}")
