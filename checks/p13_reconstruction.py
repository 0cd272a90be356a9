"""P13: reconstruction of a posterior is complete, in order and independent of workers and restarts.

Real code: the reconstruction, per-detector likelihood, SNR and sky-frame steps of
bilby.gw.conversion; in part of the runs with the real GW likelihood.  Stub: the
worker pool's scheduler, disk, signals, power cuts; in the other runs a small
likelihood whose reconstructed values are a function of the sample plus a seeded draw.
"""
import os
import pickle
import random

from sim.runner import Skip, Violation

PID = "P13"
TIERS = {"quick": {"runs": 3000, "budget": 38, "minimise": 40, "min_runs": 40},
         "thorough": {"runs": 200000, "budget": 760, "minimise": 60, "min_runs": 400}}
REAL = ["bilby.gw.conversion reconstruction, SNR, per-detector likelihood and sky-frame steps", "cache file handling",
        "GravitationalWaveTransient with time and phase marginalisation (part of the runs)"]
STUB = ["worker pool scheduling", "disk", "signal source", "marginalised likelihood (most runs)"]
REQUIRED_PROBES = ["crash", "signal", "enospc", "eio", "resumed", "pool-tasks", "other-block", "changed-samples", "damaged",
                   "real-gw", "completed"]
ASSUMPTIONS = ["an interrupted reconstruction is started again for the same likelihood; workers, block size and random state "
               "may differ"]
CACHE = "out/.run_generate_posterior_cache.pickle"


def gen(rng, tier, i):
    incs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        faults = []
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["crash", "crash", "signal", "eio", "enospc", "short", "task-crash", "task-signal",
                               "like-raise", "like-crash", "line-signal", "line-memoryerror"])
            if kind.startswith("line-"):
                f = {"point": "line", "at": rng.randint(0, rng.choice([100, 600])), "do": kind[5:]}
            elif kind.startswith("task-"):
                f = {"point": "task", "at": rng.randint(0, rng.choice([5, 40])), "do": kind[5:]}
            elif kind.startswith("like-"):
                f = {"point": "like", "at": rng.randint(0, 60), "do": kind[5:]}
            else:
                f = {"point": "fs", "at": rng.randint(0, rng.choice([8, 60])), "do": kind}
            if kind == "crash":
                f["torn"], f["after"] = rng.random(), rng.random() < 0.5
            if kind == "enospc":
                f["for"] = rng.choice([1, 3, 100])
            if "signal" in kind:
                f["signum"] = 2
            faults.append(f)
        incs.append({"faults": faults, "npool": rng.choice([1, 1, 2, 4]), "block": rng.choice([1, 3, 4, 7, 10, 100]),
                     "seed": rng.randrange(10 ** 6)})
    real = rng.random() < 0.08
    return {"incs": incs, "n": rng.choice([5, 9]) if real else rng.choice([1, 2, 10, 23, 40, 61]), "real": real,
            "npool": rng.choice([1, 1, 2, 3]), "block": rng.choice([1, 3, 4, 7, 10, 100]), "seed1": rng.randrange(10 ** 6),
            "labels": rng.choice(["range", "range", "reversed", "gaps", "shuffled"]), "nmarg": rng.choice([1, 2, 3]),
            "change": rng.choice(["none", "value", "row", "drop", "column", "order"]), "where": rng.random(),
            "damage": rng.choice([None, None, None, "truncate", "empty", "garbage", "list", "nokey", "none"]),
            "pool_style": rng.choice(["random", "random", "rr", "one"]), "frame": rng.random() < 0.4,
            "draw": rng.randrange(10 ** 6), "_lists": ["incs"]}


def preload():
    import lal
    import lalsimulation

    import bilby.gw.likelihood

    from . import _samplers as S

    S.mute_tqdm()


def h(*args):
    """A value in [0, 1) that depends on every bit of the arguments."""
    import hashlib
    import struct

    return int.from_bytes(hashlib.sha256(struct.pack(f"{len(args)}d", *args)).digest()[:6], "big") / 2.0 ** 48


class Ifo:
    def __init__(self, name):
        self.name = name


class Snr:
    def __init__(self, d):
        self.snrs_as_sample = d


class Wave:
    def frequency_domain_strain(self, p):
        return dict(p)


class Like:
    """Reconstructed value of parameter k = k + h(sample) + 1e-6 * draw."""

    def __init__(self, nmarg):
        self.parameters = {}
        self._marginalized_parameters = [f"m{k}" for k in range(nmarg)]
        self.interferometers = [Ifo("A1"), Ifo("B2")]
        self.waveform_generator = Wave()
        self.outdir, self.label = "out", "run"

    def generate_posterior_sample_from_marginalized_likelihood(self):
        from bilby.core.utils import random as br
        from sim import workloads as W

        W.like_point()
        p = self.parameters
        for k, key in enumerate(self._marginalized_parameters):
            p[key] = k + round(h(p["a"], p["b"]), 9) + 1e-10 * br.rng.uniform()
        return dict(p)

    def compute_per_detector_log_likelihood(self):
        p = self.parameters
        out = dict(p)
        for k, ifo in enumerate(self.interferometers):
            out[f"{ifo.name}_log_likelihood"] = h(p["a"], p["b"], k)
        return out

    def calculate_snrs(self, pol, ifo, return_array=False):
        return Snr({"optimal_snr": h(pol["a"], ord(ifo.name[0])), "matched_filter_snr": complex(pol["b"], 1.0)})

    def get_sky_frame_parameters(self, parameters=None):
        p = self.parameters
        return {"ra": h(p["a"], 77), "dec": h(p["b"], 78)}


def table(plan):
    import numpy as np
    import pandas as pd

    npr = np.random.RandomState(plan["draw"])
    n = plan["n"]
    if plan["real"]:
        df = pd.DataFrame({"chirp_mass": npr.uniform(26, 29, n), "mass_ratio": npr.uniform(0.5, 1, n),
                           "psi": npr.uniform(0, 3, n), "ra": npr.uniform(0, 6, n), "dec": npr.uniform(-1, 1, n)})
        if plan["frame"]:
            df = df.rename(columns={"ra": "azimuth", "dec": "zenith"})
            df["zenith"] += 1.5
            df["H1_time"] = npr.uniform(0.45, 0.55, n)
        df["log_likelihood"] = npr.normal(size=n)
    else:
        df = pd.DataFrame({"a": npr.normal(size=n), "b": npr.normal(size=n), "log_likelihood": npr.normal(size=n)})
    idx = {"range": None, "reversed": range(n)[::-1], "gaps": range(5, 5 + 3 * n, 3), "shuffled": npr.permutation(n)}
    if idx[plan["labels"]] is not None:
        df.index = list(idx[plan["labels"]])
    return df


def change(plan, df):
    import numpy as np

    df = df.copy()
    k = int(plan["where"] * len(df))
    c = plan["change"]
    if c == "value":
        df.iloc[k, 0] = np.nextafter(df.iloc[k, 0], np.inf)
    elif c == "row":
        df.iloc[k, 1] += 0.25
    elif c == "drop":
        df = df.drop(df.index[k])
    elif c == "column":
        df["extra"] = 1.0
    elif c == "order":
        df = df.iloc[::-1]
    return df


def real_setup(plan):
    import bilby

    from sim import workloads as W

    bilby.core.utils.random.seed(plan["draw"])
    ifos = bilby.gw.detector.InterferometerList(["H1", "L1"])
    ifos.set_strain_data_from_power_spectral_densities(sampling_frequency=512, duration=2, start_time=-1.0)
    for ifo in ifos:
        ifo.minimum_frequency = 30
    wg = bilby.gw.WaveformGenerator(
        duration=2, sampling_frequency=512, frequency_domain_source_model=bilby.gw.source.lal_binary_black_hole,
        parameter_conversion=bilby.gw.conversion.convert_to_lal_binary_black_hole_parameters,
        waveform_arguments={"waveform_approximant": "TaylorF2", "reference_frequency": 40.0, "minimum_frequency": 30.0})
    fixed = dict(a_1=0.0, a_2=0.0, tilt_1=0.0, tilt_2=0.0, phi_12=0.0, phi_jl=0.0, luminosity_distance=400.0,
                 theta_jn=0.3)
    B = bilby.core.prior
    priors = B.PriorDict({k: B.DeltaFunction(v, k) for k, v in fixed.items()})
    priors.update(chirp_mass=B.Uniform(25, 30), mass_ratio=B.Uniform(0.4, 1), psi=B.Uniform(0, 3.2),
                  phase=B.Uniform(0, 6.283185307179586))
    kw = {}
    if plan["frame"]:
        priors.update(zenith=B.Sine(), azimuth=B.Uniform(0, 6.3), H1_time=B.Uniform(0.4, 0.6))
        kw = dict(reference_frame="H1L1", time_reference="H1", time_marginalization=False)
    else:
        priors.update(ra=B.Uniform(0, 6.3), dec=B.Cosine(), geocent_time=B.Uniform(0.4, 0.6))
        kw = dict(time_marginalization=True, jitter_time=True)

    class L(bilby.gw.likelihood.GravitationalWaveTransient):
        def generate_posterior_sample_from_marginalized_likelihood(self):
            W.like_point()
            return super().generate_posterior_sample_from_marginalized_likelihood()

    globals()["L"] = L
    L.__qualname__ = "L"
    full = priors.copy()
    like = L(ifos, wg, priors=priors, phase_marginalization=True, **kw)
    like.outdir, like.label = "out", "run"
    if not plan["frame"]:
        priors["time_jitter"] = B.DeltaFunction(0.0)
    priors.fill_priors(like)
    return like, priors


def body(plan, npool, block, seed, df, full=True):
    def run(s):
        import bilby
        from bilby.gw import conversion as C
        from sim import workloads as W

        s.pool_style = plan["pool_style"]
        W.reset_cli()
        if not os.path.isdir("out"):
            s.enabled = False
            os.makedirs("out")
            s.enabled = True
        samples = df.copy()
        try:
            if plan["real"]:
                like, priors = real_setup(plan)
                W.seed_all(seed)
                samples = C.generate_all_bbh_parameters(samples, likelihood=like, priors=priors, npool=npool)
                keys = [c for c in samples.columns]
            else:
                like = Like(plan["nmarg"])
                W.seed_all(seed)
                if full:
                    C.compute_per_detector_log_likelihoods(samples, like, npool=npool, block=block)
                C.generate_posterior_samples_from_marginalized_likelihood(samples, like, npool=npool, block=block)
                if full:
                    C.generate_sky_frame_parameters(samples, like)
                    C.compute_snrs(samples, like, npool=npool)
        except Exception as e:
            return {"err": (type(e).__name__, str(e)[:300]), "expected": isinstance(e, (OSError, MemoryError))
                    or type(e).__name__ == "SimulatedFailure"}
        except KeyboardInterrupt:
            return {"err": ("KeyboardInterrupt", ""), "expected": True}
        return {"err": None, "data": {str(k): [complex(x) if isinstance(x, complex) else x for x in samples[k].tolist()]
                                      for k in samples}, "index": [int(x) for x in samples.index]}

    return run


MARG_REAL = ("phase", "geocent_time")


def judge(plan, v, df, what):
    n = len(df)
    if v["index"] != [int(x) for x in df.index]:
        raise Violation("index-changed", f"{what}: the samples' index changed")
    d = v["data"]
    for c in df.columns:
        if repr(d[c]) != repr(df[c].tolist()):
            raise Violation("sample-changed", f"{what}: column {c} of the given samples changed")
    if plan["real"]:
        lo = {"phase": (0, 6.29), "geocent_time": (0.35, 0.65)}
        for key in MARG_REAL if not plan["frame"] else ("phase",):
            x = d.get(key)
            if x is None or len(x) != n or not all(lo[key][0] <= y <= lo[key][1] for y in x):
                raise Violation("incomplete", f"{what}: {key} is {str(x)[:200]}")
        return None
    rows = list(zip(df["a"].tolist(), df["b"].tolist()))
    draws = []
    for k in range(plan["nmarg"]):
        x = d.get(f"m{k}")
        if x is None or len(x) != n:
            raise Violation("incomplete", f"{what}: m{k} has {x and len(x)} values for {n} samples")
        for j, (a, b) in enumerate(rows):
            base = k + round(h(a, b), 9)
            if not (base - 1e-11 <= x[j] <= base + 1.01e-10):
                raise Violation("wrong-sample", f"{what}: m{k} of sample {j} is {x[j]!r}, that sample's value is {base}")
            draws.append(x[j])
    if "A1_log_likelihood" in d or "A1_optimal_snr" in d:
        for j, (a, b) in enumerate(rows):
            want = {"A1_log_likelihood": h(a, b, 0), "B2_log_likelihood": h(a, b, 1), "A1_optimal_snr": h(a, ord("A")),
                    "B2_optimal_snr": h(a, ord("B")), "A1_matched_filter_snr": complex(b, 1), "ra": h(a, 77), "dec": h(b, 78)}
            for key, y in want.items():
                if key not in d or repr(complex(d[key][j])) != repr(complex(y)):
                    raise Violation(f"wrong-derived:{key}", f"{what}: {key} of sample {j} is {d.get(key, [None] * n)[j]}, should be {y}")
    return draws


def execute(plan, ctx):
    df = table(plan)
    path = os.path.join(ctx.root, CACHE)
    if plan["real"]:
        ctx.probes["real-gw"] += 1
    done = []

    def go(faults, npool, block, seed, df, tag):
        kw = {"line_prefixes": ("/bilby/gw/conversion.py",)} if any(f["point"] == "line" for f in faults) else {}
        there = os.path.exists(path)
        out = ctx.run(body(plan, npool, block, seed, df), faults, tag=tag, cpu=80, **kw)
        if out["end"] in ("crash", "exit") or (out.get("type") == "KeyboardInterrupt" and out["sim"]["fired"]):
            return None
        if out["end"] != "ok":
            raise Violation("failed", f"{tag}: {out['end']} {out.get('type')} {out.get('msg')}")
        v = out["value"]
        if v["err"]:
            if not (out["sim"]["fired"] and v["expected"]):
                raise Violation("failed", f"{tag} (workers {npool}, block {block}): {v['err']}, faults {out['sim']['fired']}")
            return None
        judge(plan, v, df, f"{tag} (workers {npool}, block {block})")
        ctx.probes["completed"] += 1
        if there:
            ctx.probes["resumed"] += 1
        return v

    blocks = set()
    for k, inc in enumerate(plan["incs"]):
        v = go(inc["faults"], inc["npool"], inc["block"], inc["seed"], df, f"inc{k}")
        blocks.add(inc["block"])
        if v is not None:
            done.append(v)
    if plan["damage"] and os.path.exists(path):
        data = open(path, "rb").read()
        rng = random.Random(plan["draw"])
        data = {"truncate": data[:int(len(data) * plan["where"])], "empty": b"",
                "garbage": bytes(rng.choices(range(256), k=300)), "list": pickle.dumps([1, 2]),
                "nokey": pickle.dumps({0: [(1.0,)]}), "none": pickle.dumps(None)}[plan["damage"]]
        open(path, "wb").write(data)
        done = []
        ctx.probes["damaged"] += 1
    if os.path.exists(path) and blocks - {plan["block"]}:
        ctx.probes["other-block"] += 1
    v = go([], plan["npool"], plan["block"], plan["seed1"], df, "last")
    for w in done:
        # a finished reconstruction is used again for the same samples
        for key in (MARG_REAL if plan["real"] else [f"m{k}" for k in range(plan["nmarg"])]):
            if key in w["data"] and repr(w["data"][key]) != repr(v["data"][key]):
                raise Violation("cache-not-used", f"{key} differs from the reconstruction finished before")
    # the same from scratch in one process
    ref = ctx.run(body(plan, 1, 10, plan["seed1"], df), [], tag="reference", incarnation=9999, cpu=80,
                  fresh_root=os.path.join(ctx.base, "ref"))
    if ref["end"] != "ok" or ref["value"]["err"]:
        raise Violation("failed", f"serial run: {ref['end']} {ref.get('value') and ref['value']['err']}")
    r = ref["value"]["data"]
    marg = set(MARG_REAL) if plan["real"] else {f"m{k}" for k in range(plan["nmarg"])}
    fresh = not plan["incs"] or plan["damage"]
    for key in r:
        if key not in v["data"]:
            raise Violation(f"missing:{key}", f"column {key} is missing with {plan['npool']} workers")
        if not fresh and (key in marg or plan["real"]):
            continue            # drawn with the random state of the incarnation that drew it
        if repr(r[key]) != repr(v["data"][key]):
            raise Violation(f"differs:{'marginalised' if key in marg else key}", f"{key} differs from the serial run: "
                            f"{str(v['data'][key])[:150]} vs {str(r[key])[:150]}")
    # other samples under the same label
    if plan["change"] != "none" and not plan["real"] and not (plan["change"] == "drop" and len(df) == 1) \
            and not (plan["change"] == "order" and len(df) == 1):
        df2 = change(plan, df)
        old = {x for k in range(plan["nmarg"]) for x in v["data"][f"m{k}"]}
        w = go([], 1, plan["block"], plan["seed1"] + 1, df2, "other samples")
        new = [x for k in range(plan["nmarg"]) for x in w["data"][f"m{k}"]]
        same = sum(x in old for x in new)
        if same:
            raise Violation("stale-cache", f"{same} of {len(new)} values come from the reconstruction of other samples "
                            f"({plan['change']})")
        ctx.probes["changed-samples"] += 1
    ctx.nontrivial = True
    ctx.note(plan["n"], sorted(r))
