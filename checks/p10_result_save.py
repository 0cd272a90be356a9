"""P10: saving a result over an existing one is all-or-nothing, lossless and free of side effects.

Real code: bilby result saving, JSON/gzip/HDF5/pickle encoding, backup handling,
reading.  Stub: disk, signals, power cuts.
"""
import glob
import os
import random
import signal

from sim.runner import Violation

PID = "P10"
TIERS = {"quick": {"runs": 900, "budget": 45, "minimise": 40, "min_runs": 40},
         "thorough": {"runs": 60000, "budget": 760, "minimise": 60, "min_runs": 200}}
REAL = ["bilby result saving and reading", "JSON/HDF5/pickle/gzip encoders", "h5py (through a file object)", "dill"]
STUB = ["disk (fault-injecting file layer over tmpfs)", "signal source"]
REQUIRED_PROBES = ["crash", "signal", "eio", "enospc", "save-json", "save-hdf5", "save-pkl", "save-json.gz",
                   "overwrite", "backup", "roundtrip"]
ASSUMPTIONS = ["one process saves a given result file at a time", "contents are limited to types the format documents "
               "as representable (HDF5 has no tuples or mixed lists)"]
FORMATS = [("json", False), ("json", True), ("hdf5", False), ("pkl", False), ("pickle", False), (True, False)]


def gen(rng, tier, i):
    fmt = rng.choice(FORMATS)
    steps = []
    for k in range(rng.choice([2, 2, 3, 4])):
        faults = []
        if k and rng.random() < 0.85:
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(["crash", "crash", "crash", "signal", "eio", "eio", "enospc", "enospc", "short",
                                   "line-signal", "line-oserror", "line-memoryerror"])
                if kind.startswith("line-"):
                    f = {"point": "line", "at": rng.randint(0, rng.choice([60, 400])), "do": kind[5:]}
                    if kind == "line-signal":
                        f["signum"] = rng.choice([15, 2])
                else:
                    f = {"point": "fs", "at": rng.randint(0, rng.choice([6, 14])), "do": kind}
                    if kind == "crash":
                        f["torn"], f["after"] = rng.random(), rng.random() < 0.5
                    if kind == "enospc":
                        f["for"] = rng.choice([1, 2, 6, 10 ** 6])
                    if kind == "signal":
                        f["signum"] = rng.choice([15, 2])
                faults.append(f)
        steps.append({"content": rng.randrange(10 ** 6), "overwrite": rng.random() < 0.5, "faults": faults,
                      "explicit": rng.random() < 0.2})
    return {"steps": steps, "ext": fmt[0], "gzip": fmt[1], "cls": rng.choice(["Result", "Result", "CBC"]),
            "_lists": ["steps"]}


def _name(plan):
    ext = {True: "json", "pickle": "pkl"}.get(plan["ext"], plan["ext"])
    return "out/x_result." + ext + (".gz" if plan["gzip"] else "")


def helper(x):
    return x


def build(plan, seed):
    """A result whose whole content is a function of `seed`."""
    import datetime

    import numpy as np
    import pandas as pd
    from bilby.core import prior as bp
    from bilby.core.result import Result
    from bilby.gw.result import CBCResult

    rng = random.Random(seed)
    npr = np.random.RandomState(seed)
    n = rng.choice([0, 1, 3, 40, 400]) if plan["ext"] not in ("hdf5",) else rng.choice([1, 3, 40, 400])
    pri = bp.PriorDict()
    makers = [lambda nm: bp.Uniform(0, rng.uniform(1, 9), name=nm, latex_label="$a_%s$" % nm, unit="kg"),
              lambda nm: bp.Sine(name=nm, boundary="reflective"),
              lambda nm: bp.PowerLaw(alpha=rng.uniform(-3, 3), minimum=0.1, maximum=rng.uniform(1, 5), name=nm),
              lambda nm: bp.Gaussian(mu=rng.gauss(0, 1), sigma=rng.uniform(0.1, 4), name=nm),
              lambda nm: bp.TruncatedGaussian(0.1, 1.3, minimum=-1, maximum=rng.uniform(1, 2), name=nm),
              lambda nm: bp.Interped(np.linspace(0, 1, 7), npr.uniform(0.1, 1, 7), name=nm),
              lambda nm: bp.LogUniform(1e-3, rng.uniform(1, 3), name=nm, boundary="periodic")]
    keys = [f"p{k}" for k in range(rng.randint(1, 4))]
    for k in keys:
        pri[k] = rng.choice(makers)(k)
    pri["fix"] = bp.DeltaFunction(rng.gauss(0, 3), name="fix")
    pri["con"] = bp.Constraint(minimum=-1, maximum=rng.uniform(1, 4), name="con")
    post = pd.DataFrame({k: npr.normal(size=n) for k in keys})
    post["log_likelihood"] = npr.normal(size=n)
    post["log_prior"] = npr.normal(size=n)
    if rng.random() < 0.3 and n:
        post["cplx"] = npr.normal(size=n) + 1j * npr.normal(size=n)
    if rng.random() < 0.3 and n:
        post["tag"] = [rng.choice(["IMRPhenomD", "TaylorF2", "x y"]) for _ in range(n)]
    if rng.random() < 0.3 and n:
        post.loc[n - 1, keys[0]] = np.nan
        post.loc[0, "log_likelihood"] = -np.inf
    if rng.random() < 0.3 and n:
        post["mode"] = npr.randint(0, 9, n)
    meta = {"version": rng.random(), "nested": {"a": rng.randrange(99), "b": "text", "none": None,
            "flag": bool(rng.random() < .5), "arr": npr.normal(size=rng.choice([1, 5])), "deep": {"z": [1.5, 2.5]}},
            "run_statistics": {"nlikelihood": rng.randrange(10 ** 6), "sampling_time_s": rng.random() * 1e6}}
    if plan["cls"] == "CBC":
        meta["likelihood"] = {"phase_marginalization": bool(rng.random() < .5), "interferometers": {},
                              "waveform_arguments": {"reference_frequency": 50.0}}
    kwargs = {"nlive": rng.randrange(2000), "sample": "rwalk", "flag": True, "none": None, "eps": rng.random(),
              "names": ["diff", "volumetric"]}
    if rng.random() < 0.5:
        kwargs["print_func"] = helper
        kwargs["other"] = len
    cls = {"Result": Result, "CBC": CBCResult}[plan["cls"]]
    nested = pd.DataFrame({k: npr.normal(size=n + 5) for k in keys})
    nested["weights"] = npr.uniform(size=n + 5)
    opt = {}
    if rng.random() < 0.7:
        opt.update(samples=npr.normal(size=(n + 1, len(keys))), log_likelihood_evaluations=npr.normal(size=n + 1),
                   nested_samples=nested, num_likelihood_evaluations=rng.randrange(10 ** 7), information_gain=rng.random())
    if rng.random() < 0.3:
        opt.update(walkers=npr.normal(size=(3, 4, len(keys))), nburn=rng.randrange(50),
                   log_prior_evaluations=npr.normal(size=n + 1))
    if rng.random() < 0.5:
        opt["injection_parameters"] = {**{k: rng.gauss(0, 1) for k in keys}, "fix": 1.25}
    return cls(label="x", outdir="out", sampler="dynesty", search_parameter_keys=list(keys), fixed_parameter_keys=["fix"],
               constraint_parameter_keys=["con"], priors=pri, sampler_kwargs=kwargs, posterior=post, meta_data=meta,
               log_evidence=rng.gauss(-20, 5), log_evidence_err=rng.random(), log_noise_evidence=rng.gauss(-20, 5),
               log_bayes_factor=rng.gauss(0, 5), sampling_time=rng.choice([rng.random() * 1e6,
               datetime.timedelta(days=rng.randrange(3), seconds=rng.randrange(10 ** 5))]), use_ratio=bool(rng.random() < .5), **opt)


FIELDS = ["label", "outdir", "sampler", "log_evidence", "log_evidence_err", "log_noise_evidence", "log_bayes_factor",
          "priors", "posterior", "injection_parameters", "meta_data", "search_parameter_keys", "fixed_parameter_keys",
          "constraint_parameter_keys", "sampling_time", "sampler_kwargs", "use_ratio", "information_gain",
          "log_likelihood_evaluations", "log_prior_evaluations", "num_likelihood_evaluations", "samples",
          "nested_samples", "walkers", "nburn", "parameter_labels", "parameter_labels_with_unit", "version"]


def canon(x):
    import datetime

    import numpy as np
    import pandas as pd
    from bilby.core.prior import Prior, PriorDict

    if isinstance(x, PriorDict):
        return {"__priors__": type(x).__name__, **{k: repr(v) if isinstance(v, Prior) else canon(v)
                                                   for k, v in sorted(x.items())}}
    if isinstance(x, pd.DataFrame):
        return {str(c): canon(x[c].tolist()) for c in sorted(x.columns)}
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, datetime.timedelta):
        return round(x.total_seconds(), 5)
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, bytes):
        return x.decode()
    if isinstance(x, float):
        return "nan" if x != x else x
    if isinstance(x, complex):
        return ["complex", canon(x.real), canon(x.imag)]
    if x is None or isinstance(x, (int, str, bool)):
        return x
    if callable(x):
        return str(x)
    return repr(x)


def fields(r):
    d = {}
    for f in FIELDS:
        try:
            v = getattr(r, f)
        except ValueError:
            v = None
        d[f] = canon(v)
    if d["sampling_time"] is not None:
        d["sampling_time"] = round(d["sampling_time"], 5)
    d["outdir"] = os.path.basename(str(d["outdir"]).rstrip("/"))
    d["__class__"] = type(r).__name__
    return d


def expected(plan, seed, pickled):
    r = build(plan, seed)
    if not pickled:
        # documented: callables in the sampler arguments are stored as strings
        r.sampler_kwargs = {k: str(v) if callable(v) else v for k, v in r.sampler_kwargs.items()}
    return fields(r)


def _norm_callables(d):
    """Callable arguments may only be named in the file, not restored."""
    kw = d.get("sampler_kwargs")
    if isinstance(kw, dict):
        for k in ("print_func", "other"):
            if k in kw:
                kw[k] = "callable"
    return d


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                out.append(f"{path}.{k} {'missing' if k not in b else 'unexpected'}")
            else:
                out += diff(a[k], b[k], f"{path}.{k}")
        return out
    return [] if a == b and type(a) in (type(b), int, float, bool) or a == b else [f"{path}: {str(a)[:60]} != {str(b)[:60]}"]


def _save_body(plan, step):
    def body(s):
        def stop(signum, frame):
            raise SystemExit(130)

        signal.signal(signal.SIGTERM, stop)
        signal.signal(signal.SIGINT, stop)
        r = build(plan, step["content"])
        before = fields(r)
        s.log("built")
        kw = dict(extension=plan["ext"], gzip=plan["gzip"], overwrite=step["overwrite"])
        if step["explicit"]:
            kw["filename"] = _name(plan)

        err = None
        try:
            r.save_to_file(**kw)
        except (OSError, MemoryError) as e:
            err = f"{type(e).__name__}: {e}"
        return {"before": before, "after": fields(r), "err": err}

    return body


def _read_body(plan, names):
    def body(s):
        from bilby.core.result import read_in_result
        from bilby.core.result import Result
        from bilby.gw.result import CBCResult

        cls = {"Result": Result, "CBC": CBCResult}[plan["cls"]]
        out = {}
        for n in names:
            src = n
            if n.endswith(".old"):
                import shutil

                src = os.path.join("readback", os.path.basename(n)[:-4])
                os.makedirs("readback", exist_ok=True)
                shutil.copy(n, src)
            try:
                r = read_in_result(src, result_class=cls)
                out[n] = fields(r)
            except Exception as e:
                out[n] = f"{type(e).__name__}: {e}"
        import shutil
        shutil.rmtree("readback", ignore_errors=True)
        return out

    return body


def execute(plan, ctx):
    import bilby

    bdir = os.path.dirname(os.path.abspath(bilby.__file__)) + os.sep
    pre = (bdir + "core/result", bdir + "core/utils/io")
    main = _name(plan)
    old = main + ".old"
    fallback = ".".join(main.split(".")[:-1]) + ".pkl"
    cur = None                    # content id at `main`
    ctx.probes["save-" + main.split("_result.")[1]] += 1
    seeds = []
    for k, step in enumerate(plan["steps"]):
        seeds.append(step["content"])
        odir = os.path.join(ctx.root, "out")
        present = set(os.listdir(odir)) if os.path.isdir(odir) else set()
        out = ctx.run(_save_body(plan, step), step["faults"], tag=f"save {k}", line_prefixes=pre, cpu=60)
        ctx.probes["overwrite" if step["overwrite"] else "backup"] += cur is not None
        fired = [f["kind"] for f in out["sim"]["fired"]]
        what = f"after save {k} ({out['end']}, {out['sim']['fired']})"
        if out["end"] == "cpu":
            raise Violation("no-progress", "saving did not finish: " + out.get("where", "")[-300:])
        if out["end"] == "exception" and not fired:
            raise Violation("save-raised", f"{what}: {out['type']}: {out['msg']}")
        if out["end"] == "exception" and out["type"] not in ("OSError", "MemoryError"):
            raise Violation("save-raised", f"{what}: {out['type']}: {out['msg']} at {out.get('site')}")
        ok = out["end"] == "ok" and out["value"]["err"] is None
        if out["end"] == "ok":
            d = diff(out["value"]["before"], out["value"]["after"])
            if d:
                raise Violation("side-effect", f"saving changed the result in memory: {d[:4]}")
        names = [os.path.relpath(p, ctx.root) for p in glob.glob(os.path.join(ctx.root, "out", "*"))]
        names = sorted(n for n in names if n in (main, old, fallback))
        obs = ctx.run(_read_body(plan, names), tag="read", incarnation=1000 + k)
        if obs["end"] != "ok":
            raise Violation("read-died", f"{what}: reading ended with {obs['end']}: {obs.get('msg')}")
        state = {}
        for n in names:
            got = obs["value"][n]
            pick = n.endswith(".pkl") or n.endswith(".pkl.old")
            if isinstance(got, str):
                if n == main:
                    raise Violation("corrupt", f"{what}: {n} does not read back: {got}")
                state[n] = None
                continue
            match = [c for c in seeds if not diff(_norm_callables(expected(plan, c, pick)), _norm_callables(dict(got)))]
            if not match:
                close = diff(_norm_callables(expected(plan, step["content"], pick)), _norm_callables(dict(got)))
                if not fired:
                    raise Violation("roundtrip", f"{what}: {n} reads back differently: {close[:5]}")
                raise Violation("mixed", f"{what}: {n} reads back as neither result: {close[:5]}")
            state[n] = match[-1]
        ctx.note(k, sorted(state.items()))
        new = step["content"]
        if ok:
            if state.get(main) == new:
                ctx.probes["roundtrip"] += 1
            elif not (fired and state.get(fallback) == new):
                raise Violation("not-saved", f"{what}: save returned normally but {main} holds {state.get(main)} "
                                f"(expected {new})")
            if state.get(main) == new and cur is not None and not fired and not step["overwrite"] \
                    and state.get(old) != cur:
                raise Violation("no-backup", f"{what}: previous result not kept as {old}")
        if cur is not None and cur not in state.values() and new not in state.values():
            raise Violation("destroyed", f"{what}: neither the old nor the new result can be read; files {names}")
        if state.get(main) is not None:
            cur = state[main]
        elif cur is not None and state.get(old) != cur and state.get(fallback) != new:
            raise Violation("destroyed", f"{what}: {main} is gone and its backup does not hold the old result")
        else:
            # the old result lives on as the backup (or the new one as the
            # fallback pickle): a later save starts without a main file
            cur = None
        if main not in names and cur is not None:
            cur = None
        stale = sorted(set(os.listdir(os.path.join(ctx.root, "out"))) - present - set(map(os.path.basename, (main, old))))
        if ok and not fired and stale:
            raise Violation("leftover", f"{what}: temporary files left behind: {stale}")
