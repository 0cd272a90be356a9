"""P19: other data products survive failures of saving and read back unchanged.

Real code: Grid saving and reading, prior files and prior JSON, pickles of
interferometers and networks, strain and noise-curve text files, posterior
sample files.  Stub: disk, signals, power cuts.
"""
import os
import shutil
import signal

from checks.p10_result_save import canon
from sim.runner import Violation

PID = "P19"
TIERS = {"quick": {"runs": 900, "budget": 34, "minimise": 40, "min_runs": 60},
         "thorough": {"runs": 60000, "budget": 760, "minimise": 60, "min_runs": 300}}
KINDS = ["grid", "grid-gz", "ifo", "ifos", "data", "prior-file", "prior-json", "prior-file", "prior-json", "samples"]
REAL = ["Grid", "PriorDict.to_file/from_file/to_json/from_json and the prior sets derived from it", "Interferometer(List) pickles",
        "Interferometer.save_data", "PowerSpectralDensity reading", "Result.save_posterior_samples", "JSON encoder, dill, numpy, pandas"]
STUB = ["disk (fault-injecting file layer over tmpfs)", "signal source", "likelihood of the grid"]
REQUIRED_PROBES = ["crash", "signal", "eio", "enospc", "grid", "grid-gz", "ifo", "ifos", "data", "prior-file", "prior-json", "samples",
                   "roundtrip", "reported", "overwritten", "power-cut"]
ASSUMPTIONS = ["one process saves a given file at a time", "labels of priors hold no commas, parentheses or equality signs outside $",
               "condition functions of priors are importable"]


def gen(rng, tier, i):
    kind = KINDS[i % len(KINDS)]
    steps = []
    for k in range(rng.choice([1, 2, 2, 3])):
        faults = []
        if rng.random() < (0.85 if k else 0.3):
            for _ in range(rng.choice([1, 1, 2])):
                do = rng.choice(["crash", "crash", "crash", "signal", "eio", "eio", "enospc", "enospc", "short",
                                 "line-signal", "line-oserror", "line-memoryerror"])
                if do.startswith("line-"):
                    f = {"point": "line", "at": rng.randint(0, rng.choice([20, 120])), "do": do[5:]}
                    if do == "line-signal":
                        f["signum"] = rng.choice([15, 2])
                else:
                    f = {"point": "fs", "at": rng.randint(0, rng.choice([4, 10, 30])), "do": do}
                    if do == "crash":
                        f["torn"], f["after"] = rng.random(), rng.random() < 0.5
                    if do == "enospc":
                        f["for"] = rng.choice([1, 2, 6, 10 ** 6])
                    if do == "signal":
                        f["signum"] = rng.choice([15, 2])
                faults.append(f)
        steps.append({"content": rng.randrange(10 ** 6), "overwrite": rng.random() < 0.5, "faults": faults,
                      "cut": rng.randrange(10 ** 6) if rng.random() < 0.3 else None})
    return {"kind": kind, "steps": steps, "conf": rng.randrange(10 ** 6), "_lists": ["steps"]}


def preload():
    import bilby.gw.prior  # noqa
    import bilby.gw.detector  # noqa
    import bilby.core.grid  # noqa
    import dill  # noqa
    import pandas  # noqa
    import scipy.interpolate  # noqa


def diff(a, b, path=""):
    """Differences beyond rounding (interpolated priors are normalised again when read)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return [x for k in sorted(set(a) | set(b)) for x in (
            diff(a[k], b[k], f"{path}.{k}") if k in a and k in b else [f"{path}.{k} only {'saved' if k in a else 'read'}"])]
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [x for i, (u, v) in enumerate(zip(a, b)) for x in diff(u, v, f"{path}[{i}]")]
    number = (int, float)
    if type(a) is not bool and type(b) is not bool and isinstance(a, number) and isinstance(b, number):
        return [] if a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b)) else [f"{path}: {a!r} != {b!r}"]
    return [] if a == b else [f"{path}: {str(a)[:60]} != {str(b)[:60]}"]


# -- products ---------------------------------------------------------------------
def scale(reference_params, u0):
    return dict(minimum=reference_params["minimum"], maximum=reference_params["minimum"] + 1 + abs(u0))


def some_priors(seed, conf):
    """A prior set, the class that reads it."""
    import random

    import numpy as np
    from bilby.core import prior as bp
    from bilby.gw import prior as gp

    r, c = random.Random(seed), random.Random(conf)
    flavour = c.choice(["plain", "plain", "plain", "conditional", "dirichlet", "gw", "calibration"])
    n = r.randint(1, 5)
    if flavour == "gw":
        cls = c.choice([gp.BBHPriorDict, gp.BNSPriorDict])
        p = cls()
        p["geocent_time"] = bp.Uniform(100 + r.random(), 101 + r.random(), "geocent_time")
        return p, cls
    if flavour == "calibration":
        p = gp.CalibrationPriorDict.constant_uncertainty_spline(r.uniform(0.01, 0.1), r.uniform(0.01, 0.1), 20, 1024, r.randint(2, 4), "H1")
        return p, gp.CalibrationPriorDict
    label = lambda: r.choice([None, None, "$x$", "$\\mathcal{M}$", "time shift", "$a [\\sigma]$"])      # noqa
    unit = lambda: r.choice([None, None, "Mpc", "$M_{\\odot}$"])      # noqa

    def one(k):
        a, b = sorted([r.uniform(-5, 5), r.uniform(-5, 5)])
        xx = np.sort([r.uniform(0.1, 9) for _ in range(r.choice([5, 5, 1200]))])
        x = r.choice([
            lambda: bp.Uniform(a, b, k, latex_label=label(), unit=unit(), boundary=r.choice([None, "periodic", "reflective"])),
            lambda: bp.Uniform(a, b), lambda: bp.DeltaFunction(a, k), lambda: bp.PowerLaw(a, 1, 2 + abs(b), k),
            lambda: bp.LogUniform(1e-9 * abs(b), 7, k), lambda: bp.Gaussian(a, abs(b) + 0.1, k, latex_label=label()),
            lambda: bp.TruncatedGaussian(a, 1 / 3, a - 1, a + 2, k), lambda: bp.Sine(name=k), lambda: bp.Cosine(name=k, boundary="reflective"),
            lambda: bp.Constraint(a, b, k), lambda: bp.Interped(xx, xx ** 2, name=k), lambda: bp.Interped(xx[:4], xx[:4], name=k),
            lambda: bp.StudentT(3 + abs(a), name=k), lambda: bp.Beta(1 + abs(a), 2, 0, 1 + abs(b), k), lambda: bp.Gamma(1 + abs(a), name=k),
            lambda: bp.SlabSpikePrior(bp.Uniform(a, b), spike_location=(a + b) / 2, spike_height=0.3),
            lambda: gp.UniformComovingVolume(10, 1000 + b, name="luminosity_distance"),
            lambda: gp.UniformSourceFrame(10, 1000 + a, cosmology="Planck13", name="luminosity_distance", unit="Mpc"),
            lambda: gp.AlignedSpin(bp.Uniform(0, 0.5 + r.random() / 2), bp.Uniform(-1, 1), k),
            lambda: a,
        ])
        return x()
    if flavour == "dirichlet":
        p = bp.DirichletPriorDict(n_dim=c.choice([3, 4]), label="d")
        for i in range(r.randint(0, 3)):
            p[f"u{i}"] = bp.Uniform(0, 1 + r.random(), f"u{i}")
        return p, bp.DirichletPriorDict if c.random() < 0.7 else bp.ConditionalPriorDict
    d = {f"x{i}": one(f"x{i}") for i in range(n)}
    if r.random() < 0.4:
        m = r.choice([2, 3])
        nm = r.choice([1, 2])
        rs = np.random.RandomState(r.randrange(10 ** 6))
        covs = [(lambda z: z @ z.T + np.eye(m))(rs.normal(size=(m, m))) for _ in range(nm)]
        dist = bp.MultivariateGaussianDist(
            [f"m{i}" for i in range(m)], nmodes=nm, mus=rs.normal(size=(nm, m)).tolist(), covs=covs,
            weights=r.choice([None, [0.25, 0.75][:nm]]), bounds=r.choice([None, [[-5 - i, 5.5] for i in range(m)]]))
        for i in range(m):
            d[f"m{i}"] = bp.MultivariateGaussian(dist, f"m{i}")
    if flavour == "conditional":
        d["u0"] = bp.Uniform(0, 1 + r.random(), "u0")
        d["c0"] = bp.ConditionalUniform(scale, "c0", minimum=r.random(), maximum=3)
        return bp.ConditionalPriorDict(d), bp.ConditionalPriorDict
    return bp.PriorDict(d), bp.PriorDict


def prior_fields(p):
    """What defines a prior set."""
    import numpy as np
    from bilby.core.prior import JointPrior, Prior
    from bilby.core.utils import random as brandom

    out = {"__names__": list(p.keys()), "__class__": type(p).__name__}
    dists = {}
    for k, v in p.items():
        if not isinstance(v, Prior):
            out[k] = canon(v)
            continue
        d = v.get_instantiation_dict()
        if isinstance(v, JointPrior):
            dist = d.pop("dist")
            out[f"dist of {k}"] = norm(dist.get_instantiation_dict())
            dists.setdefault(id(dist), len(dists))
            out[f"shares {k}"] = dists[id(dist)]
        out[k] = {"class": type(v).__name__, **norm(d)}
    brandom.seed(4)
    try:
        s = p.sample(3)
        out["__sample__"] = {k: np.asarray(x, dtype=float).tolist() for k, x in sorted(s.items())}
    except Exception as e:
        out["__sample__"] = type(e).__name__
    return out


def norm(x):
    from bilby.core.prior import Prior

    if isinstance(x, Prior):
        return {"class": type(x).__name__, **norm(x.get_instantiation_dict())}
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if callable(x):
        return getattr(x, "__name__", str(x))
    if isinstance(x, int) and not isinstance(x, bool):
        return float(x)
    if type(x).__module__.startswith("astropy"):
        return str(getattr(x, "name", x))
    return canon(x)


def likelihood(pars, seed):
    import bilby

    class L(bilby.Likelihood):
        def __init__(self):
            super().__init__({k: None for k in pars})

        def log_likelihood(self):
            v = sum((self.parameters[k] * (i + 1) - seed % 7 / 3) ** 2 for i, k in enumerate(pars))
            return -float("inf") if v > 40 else -v / 3

        def noise_log_likelihood(self):
            return -seed / 7

    return L()


class Product:
    def __init__(self, kind, seed, conf):
        self.kind, self.seed, self.conf = kind, seed, conf
        import random

        self.r = random.Random(seed)
        self.c = random.Random(conf)

    def files(self):
        """{path: name of the part}"""
        k = self.kind
        if k.startswith("grid"):
            return {"out/x_grid.json" + (".gz" if k == "grid-gz" else ""): "grid"}
        if k == "data":
            return {"out/H1_x_frequency_domain_data.dat": "strain", "out/H1_x_asd.dat": "asd"}
        return {{"ifo": "out/x.pkl", "ifos": "out/x_H1L1.pkl", "prior-file": "out/x.prior", "prior-json": "out/x_prior.json",
                 "samples": "out/x_posterior_samples.dat"}[k]: k}

    def build(self):
        import numpy as np
        import bilby

        r, k = self.r, self.kind
        if k.startswith("grid"):
            names = ["b", "a", "c"][:r.randint(1, 3)]
            pri = {n: bilby.core.prior.Uniform(-3, 2 + r.random(), n) for n in names}
            sizes = r.choice([5, {n: r.choice([3, 4, np.linspace(-2, 2, 6)]) for n in names}, [r.choice([2, 7]) for _ in names]])
            g = bilby.core.grid.Grid(likelihood=likelihood(names, self.seed), priors=pri, grid_size=sizes)
            g.label, g.outdir = "x", os.path.abspath("out")
            return g
        if k in ("ifo", "ifos", "data"):
            names = ["H1"] if k != "ifos" else ["H1", "L1"]
            ifos = bilby.gw.detector.InterferometerList(names)
            rs = np.random.RandomState(self.seed)
            start = 1000 + r.random()
            for ifo in ifos:
                ifo.minimum_frequency = r.choice([20, 23.5])
                f = np.arange(0, 65, 0.5)
                ifo.power_spectral_density = bilby.gw.detector.PowerSpectralDensity(
                    frequency_array=f, psd_array=1e-40 * (1 + rs.rand(len(f))))
                ifo.set_strain_data_from_frequency_domain_strain(
                    (rs.normal(size=129) + 1j * rs.normal(size=129)) * 1e-22, sampling_frequency=128, duration=2,
                    start_time=start)
                if k != "data" and r.random() < 0.5:
                    ifo.calibration_model = bilby.gw.detector.calibration.CubicSpline(
                        f"recalib_{ifo.name}_", minimum_frequency=20, maximum_frequency=60, n_points=5)
            return ifos if k == "ifos" else ifos[0]
        if k.startswith("prior"):
            return some_priors(self.seed, self.conf)[0]
        import pandas as pd

        res = bilby.core.result.Result(label="x", outdir="out", search_parameter_keys=["a"], fixed_parameter_keys=[], priors=bilby.core.prior.PriorDict(dict(a=bilby.core.prior.Uniform(0, 1))))
        n = r.randint(1, 40)
        rs = np.random.RandomState(self.seed)
        res.posterior = pd.DataFrame({"a": rs.rand(n), "b": rs.rand(n) * 10.0 ** rs.randint(-30, 30, n), "log_likelihood": -rs.rand(n)})
        return res

    def save(self, obj, overwrite):
        k = self.kind
        if k.startswith("grid"):
            if self.c.random() < 0.3:
                obj.save_to_file(filename=list(self.files())[0], overwrite=overwrite, outdir="out")
            else:
                obj.save_to_file(overwrite=overwrite, outdir="out", gzip=k == "grid-gz")
        elif k in ("ifo", "ifos"):
            obj.to_pickle(outdir="out", label="x")
        elif k == "data":
            obj.save_data("out", label="x")
        elif k == "prior-file":
            obj.to_file("out", "x")
        elif k == "prior-json":
            obj.to_json("out", "x")
        else:
            obj.save_posterior_samples(outdir="out", label="x")

    def fields(self, obj):
        """{part: what is read back}"""
        import numpy as np

        k = self.kind
        if k.startswith("grid"):
            return {"grid": {f: canon(getattr(obj, f)) for f in (
                "parameter_names", "n_dims", "sample_points", "ln_likelihood", "ln_prior", "ln_evidence", "ln_noise_evidence", "label",
                "outdir")} | {"priors": prior_fields(obj.priors)}}
        if k in ("ifo", "ifos"):
            return {k: [type(obj).__name__] + [self.ifo_fields(i) for i in ([obj] if k == "ifo" else obj)]}
        if k == "data":
            f = obj.strain_data.frequency_array
            h = obj.strain_data.frequency_domain_strain
            return {"strain": canon([f, h.real, h.imag]), "asd": canon([f, obj.amplitude_spectral_density_array])}
        if k.startswith("prior"):
            return {k: prior_fields(obj)}
        return {k: canon(obj.posterior if hasattr(obj, "posterior") else obj)}

    def ifo_fields(self, i):
        import numpy as np

        f = i.frequency_array
        pol = {"plus": 1e-21 * np.exp(1j * f), "cross": 1e-21j * np.exp(1j * f)}
        pars = dict(ra=1.0, dec=0.2, psi=0.3, geocent_time=1001.0)
        pars.update({f"recalib_{i.name}_{w}_{n}": 0.01 * n for w in ("amplitude", "phase") for n in range(5)})
        return canon([i.name, i.minimum_frequency, i.maximum_frequency, i.start_time, i.duration, i.frequency_domain_strain,
                      i.power_spectral_density_array, repr(i.calibration_model), i.geometry.vertex, i.strain_data.roll_off,
                      i.get_detector_response(pol, pars)])

    def read(self, path, part):
        import numpy as np
        import bilby

        k = self.kind
        if k.startswith("grid"):
            kw = dict(filename=path) if self.c.random() < 0.5 else dict(outdir=os.path.dirname(path), label="x", gzip=k == "grid-gz")
            return self.fields(bilby.core.grid.Grid.read(**kw))["grid"]
        if k == "ifo":
            return self.fields(bilby.gw.detector.Interferometer.from_pickle(path))[k]
        if k == "ifos":
            return self.fields(bilby.gw.detector.InterferometerList.from_pickle(path))[k]
        if part == "strain":
            return canon(np.genfromtxt(path).T)
        if part == "asd":
            psd = bilby.gw.detector.PowerSpectralDensity.from_amplitude_spectral_density_file(path)
            return canon([psd.frequency_array, psd.asd_array])
        if k.startswith("prior"):
            cls = some_priors(self.seed, self.conf)[1]
            if k == "prior-json":
                return self.fields(cls.from_json(path))[k]
            return self.fields(cls(filename=path) if cls.__name__ != "DirichletPriorDict" else self.reread(path))[k]
        import pandas as pd

        return canon(pd.read_csv(path, sep=" ", float_precision="round_trip"))

    def reread(self, path):
        import bilby

        return bilby.core.prior.ConditionalPriorDict(filename=path)


def expected(kind, seed, conf):
    p = Product(kind, seed, conf)
    out = p.fields(p.build())
    if kind == "prior-file":
        if out[kind]["__class__"] == "DirichletPriorDict":
            out[kind]["__class__"] = "ConditionalPriorDict"
    elif kind == "prior-json" and out[kind]["__class__"] == "DirichletPriorDict":
        pass
    return out


def save_body(plan, step):
    def body(s):
        def stop(signum, frame):
            raise SystemExit(130)

        import logging

        import numpy as np

        logging.getLogger("bilby").setLevel(logging.CRITICAL)
        np.seterr(all="ignore")
        signal.signal(signal.SIGTERM, stop)
        signal.signal(signal.SIGINT, stop)
        s.enabled = False
        p = Product(plan["kind"], step["content"], plan["conf"])
        if plan["kind"] in ("data", "samples"):
            os.makedirs("out", exist_ok=True)
        obj = p.build()
        before = p.fields(obj)
        s.enabled = True
        err = None
        try:
            p.save(obj, step["overwrite"])
        except (OSError, MemoryError) as e:
            err = f"{type(e).__name__}: {e}"
        s.enabled = False
        return {"before": before, "after": p.fields(obj), "err": err}

    return body


def read_body(plan, seed, names):
    def body(s):
        import logging

        import numpy as np

        logging.getLogger("bilby").setLevel(logging.CRITICAL)
        np.seterr(all="ignore")
        out = {}
        for n, part in names:
            p = Product(plan["kind"], seed, plan["conf"])
            src = n
            if n.endswith(".old"):
                src = os.path.join("readback", os.path.basename(n)[:-4])
                os.makedirs("readback", exist_ok=True)
                shutil.copy(n, src)
            try:
                out[n] = p.read(src, part)
            except Exception as e:
                out[n] = f"{type(e).__name__}: {e}"
        shutil.rmtree("readback", ignore_errors=True)
        return out

    return body


def execute(plan, ctx):
    import random

    import bilby
    from sim import durable

    bdir = os.path.dirname(os.path.abspath(bilby.__file__)) + os.sep
    pre = tuple(bdir + x for x in ("core/grid", "core/utils/io", "core/prior/dict", "gw/detector/interferometer", "gw/prior",
                                   "core/result", "gw/detector/networks"))
    kind = plan["kind"]
    ctx.probes[kind] += 1
    seeds, cur = [], {}
    parts = Product(kind, 0, plan["conf"]).files()
    want = {}
    for k, step in enumerate(plan["steps"]):
        seeds.append(step["content"])
        new = step["content"]
        odir = os.path.join(ctx.root, "out")
        present = set(os.listdir(odir)) if os.path.isdir(odir) else set()
        before = durable.snapshot(ctx.root) if step["cut"] is not None else None
        jr = os.path.join(ctx.base, f"journal{k}") if before is not None else None
        jfd = os.open(jr, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600) if jr else None
        out = ctx.run(save_body(plan, step), step["faults"], tag=f"save {k}", line_prefixes=pre, cpu=60, journal=jfd)
        if jfd is not None:
            os.close(jfd)
        fired = [f["kind"] for f in out["sim"]["fired"]]
        what = f"{kind}: after save {k} ({out['end']}, {out['sim']['fired']})"
        if out["end"] in ("cpu", "wall"):
            raise Violation("no-progress", f"{what}: saving did not finish")
        if out["end"] == "exception" and (not fired or out["type"] not in ("OSError", "MemoryError")):
            raise Violation(f"save-raised:{kind}", f"{what}: {out['type']}: {out['msg']} at {out.get('site')}")
        ok = out["end"] == "ok" and out["value"]["err"] is None
        if out["end"] == "ok":
            if not ok and not fired:
                raise Violation(f"save-raised:{kind}", f"{what}: {out['value']['err']}")
            d = diff(out["value"]["before"], out["value"]["after"])
            if d:
                raise Violation(f"side-effect:{kind}", f"{what}: saving changed the object: {d[:4]}")
        if before is not None and out["end"] in ("crash", "killed"):
            durable.power_cut(ctx.root, before, durable.read_journal(jr), random.Random(step["cut"]))
            ctx.probes["power-cut"] += 1
        names = [(n, part) for f, part in parts.items() for n in (f, f + ".old") if os.path.exists(os.path.join(ctx.root, n))]
        obs = ctx.run(read_body(plan, new, names), tag="read", incarnation=1000 + k, cpu=60)
        if obs["end"] != "ok":
            raise Violation("read-died", f"{what}: reading ended with {obs['end']}: {obs.get('type')} {obs.get('msg')}")
        if new not in want:
            exp = ctx.run(lambda s: expected(kind, new, plan["conf"]), tag="expected", incarnation=2000 + k, cpu=60)
            if exp["end"] != "ok":
                raise RuntimeError(f"expected: {exp.get('msg')}")
            want[new] = exp["value"]
        state = {}
        for n, part in names:
            got = obs["value"][n]
            if isinstance(got, str):
                if ok and not fired:
                    raise Violation(f"unreadable:{kind}", f"{what}: {n} does not read back: {got}")
                raise Violation(f"corrupt:{kind}", f"{what}: {n} does not read back: {got}")
            match = [c for c in want if not diff(want[c][part], got)]
            if not match:
                d = diff(want[new][part], got)
                raise Violation(f"{'mixed' if fired else 'roundtrip'}:{kind}", f"{what}: {n} reads back as none of the saved objects: "
                                f"{d[:4]}")
            state[n] = match[-1] if new not in match else new
        ctx.note(k, kind, sorted(state.items()))
        for f, part in parts.items():
            if ok and state.get(f) != new:
                raise Violation(f"not-saved:{kind}", f"{what}: saving returned normally but {f} holds {state.get(f)}, not {new}")
            old = cur.get(f)
            if old is not None and old not in (state.get(f), state.get(f + ".old")) and new not in (state.get(f), state.get(f + ".old")):
                raise Violation(f"destroyed:{kind}", f"{what}: neither the old nor the new {f} can be read")
            if ok and not fired and old is not None:
                ctx.probes["overwritten"] += 1
                if kind.startswith("grid") and not step["overwrite"] and state.get(f + ".old") != old:
                    raise Violation(f"no-backup:{kind}", f"{what}: the earlier file is not kept as {f}.old")
            cur[f] = state.get(f)
        if ok:
            ctx.probes["roundtrip"] += 1
        elif fired and out["end"] == "ok":
            ctx.probes["reported"] += 1
        if ok and not fired:
            allowed = {os.path.basename(f) + e for f in parts for e in ("", ".old")}
            stale = sorted(set(os.listdir(odir)) - present - allowed)
            if stale:
                raise Violation(f"leftover:{kind}", f"{what}: files left behind: {stale}")
    ctx.nontrivial = True
