"""P16: lookup tables and precomputed weights on disk are used only when complete and matching.

Real code: distance marginalization tables, ROQ and multiband weights,
calibration curve files of the gravitational-wave likelihoods.  A seeded
sequence of analyses with changing settings shares one directory; writes are
cut at any system call or line, fail, or are lost in a power cut, and files are
damaged in between.  Oracle: the values of the same likelihood built without
any file.
"""
import copy
import hashlib
import os
import random
import shutil
import tempfile

from sim import durable
from sim.runner import Violation
from checks import p17_caches as lk

PID = "P16"
TIERS = {"quick": {"runs": 3000, "budget": 36, "minimise": 40, "min_runs": 60},
         "thorough": {"runs": 200000, "budget": 760, "minimise": 60, "min_runs": 600}}
REAL = ["distance marginalization table (build, cache, load, test)", "ROQ save_weights/load_weights (hdf5, npz, json)",
        "multiband weights (hdf5)", "calibration curve files", "likelihood evaluation with them"]
STUB = ["source models and synthetic data", "the distance grid and table are smaller than in production",
        "disk (fault-injecting layer; PyTables and pandas write calibration files directly, faults there are at bilby's lines)"]
REQUIRED_PROBES = ["dist", "roq", "mb", "cal", "crash", "signals", "damaged", "loaded", "rebuilt", "other-settings", "rejected",
                   "power-cut"]
ASSUMPTIONS = ["ROQ, multiband and calibration files carry no record of the data and prior they were made for; the user gives the "
               "matching file", "bit errors inside hdf5 and json files cannot be recognised (no checksum)"]

MODES = ["dist", "dist", "roq", "mb", "cal"]
PREFIX = ("/bilby/gw/likelihood/", "/bilby/gw/detector/calibration.py", "/bilby/core/utils/io.py")
N_DIST = 6
CAL_N = [(4, 0), (6, 0), (3, 2), (4, 1)]


def gen(rng, tier, i):
    mode = MODES[i % len(MODES)]
    incs = []
    first = rng.randrange(6)
    for k in range(rng.randint(2, 5)):
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2])):
                if mode == "cal" or rng.random() < 0.4:
                    top = rng.choice([20, 80, 400, 2000])
                    faults.append({"point": "line", "at": rng.randint(0, top), "do": rng.choice(
                        ["crash", "crash", "memoryerror", "oserror", "signal"]), "signum": 2})
                else:
                    do = rng.choice(["crash", "crash", "crash", "eio", "enospc", "short", "signal"])
                    f = {"point": "fs", "at": rng.randint(0, rng.choice([3, 12, 40])), "do": do, "signum": 2}
                    if do == "crash":
                        f["torn"] = rng.choice([None, rng.random()])
                    faults.append(f)
        damage = None
        if k and rng.random() < 0.35:
            damage = [rng.choice(["cut", "cut", "empty", "garbage", "flip", "remove", "drop", "shape"]), rng.random()]
        conf = first if rng.random() < 0.5 else rng.randrange(6)
        incs.append({"conf": conf, "route": rng.choice(["file", "file", "default", "dict"]), "dict": rng.randrange(6),
                     "save": rng.random() < 0.6, "faults": faults, "damage": damage, "power": rng.random() < 0.3})
    return {"mode": mode, "incs": incs, "ext": rng.choice(["hdf5", "hdf5", "npz", "json"]), "conf": rng.randrange(1000),
            "_lists": ["incs", "incs.*.faults"]}


# -- likelihoods ------------------------------------------------------------
class SmallNumpy:
    """numpy with a small distance grid and table (the real ones take minutes)."""

    def __init__(self, np):
        self._np = np

    def __getattr__(self, k):
        return getattr(self._np, k)

    def linspace(self, a, b, num=50, **kw):
        return self._np.linspace(a, b, 60 if num == 10000 else num, **kw)

    def _small(self, shape):
        return (12, 24) if shape == (400, 800) else shape

    def zeros(self, shape, *a, **kw):
        return self._np.zeros(self._small(shape), *a, **kw)

    def empty(self, shape, *a, **kw):
        return self._np.empty(self._small(shape), *a, **kw)


def dist_prior(k):
    from bilby.core import prior as bp

    return [bp.Uniform(100, 1000), bp.PowerLaw(2, 100, 1000), bp.PowerLaw(2, 100, 1000), bp.Uniform(100, 1001),
            bp.Uniform(1e8, 2e9), bp.PowerLaw(0.05, 1e8, 2e9)][k]


class Maker:
    """Builds likelihoods of one configuration through the code under test."""

    def __init__(self):
        import numpy as np

        self.np = np
        self.w = lk.GWL.__new__(lk.GWL)
        self.w.np = np

    def wg(self, model, duration=4, fs=64):
        import bilby

        return bilby.gw.WaveformGenerator(
            duration=duration, sampling_frequency=fs, start_time=0, frequency_domain_source_model=model,
            parameter_conversion=lk.same_parameters, waveform_arguments={})

    def dist(self, k, table):
        from bilby.gw import likelihood as gl

        pri = lk.gw_priors()
        pri["luminosity_distance"] = dist_prior(k)
        return gl.GravitationalWaveTransient(self.w.ifos(), self.wg(lk.gw_model), priors=pri, distance_marginalization=True,
                                             phase_marginalization=k in (2, 5), distance_marginalization_lookup_table=table)

    def roq(self, k, weights=None, narrow=False):
        from bilby.gw import likelihood as gl

        np = self.np
        w = lk.ROQ.__new__(lk.ROQ)
        w.np, w.nb = np, (1, 1) if k % 2 == 0 else (2, 3)
        pri = lk.gw_priors()
        if narrow:
            pri["tilt"] = type(pri["tilt"])(1.0, 4.0)
        if weights is None:
            weights = w.weights()
            for name in ("H1_linear", "L1_linear", "H1_quadratic", "L1_quadratic"):
                weights[name] = [x * (1 + k // 2) for x in weights[name]]
        model = lk.roq_model
        gen_ = self.wg(model)
        if k % 2 == 0:
            base = w.weights()
            gen_.waveform_arguments.update({f"frequency_nodes_{b}": base[f"frequency_nodes_{b}"][0]
                                            for b in ("linear", "quadratic")})
        return gl.ROQGravitationalWaveTransient(self.w.ifos(), gen_, priors=pri, weights=weights, delta_tc=0.02)

    def long_ifos(self):
        import bilby

        np = self.np
        out = bilby.gw.detector.InterferometerList([])
        for k, name in enumerate(("H1", "L1")):
            ifo = bilby.gw.detector.get_empty_interferometer(name)
            ifo.minimum_frequency, ifo.maximum_frequency = 20, 100
            ifo.power_spectral_density = bilby.gw.detector.PowerSpectralDensity(
                frequency_array=np.linspace(0, 128, 65), psd_array=np.linspace(1, 3, 65))
            r, n = np.random.RandomState(k), 16 * 128 + 1
            ifo.set_strain_data_from_frequency_domain_strain(r.normal(size=n) + 1j * r.normal(size=n), sampling_frequency=256,
                                                             duration=16, start_time=0)
            out.append(ifo)
        return out

    def mb(self, k, weights=None):
        from bilby.core import prior as bp
        from bilby.gw import likelihood as gl

        kw = {"weights": weights} if weights is not None else {
            "reference_chirp_mass": [15.0, 20.0, 25.0][k % 3], "linear_interpolation": k < 3}
        return gl.MBGravitationalWaveTransient(self.long_ifos(), self.wg(mb_model, 16, 256),
                                               priors=bp.PriorDict({"geocent_time": bp.Uniform(14, 14.2)}), **kw)

    def cal(self, n, start, files):
        import bilby

        ifos = self.long_ifos()
        pri = bilby.core.prior.PriorDict({"geocent_time": bilby.core.prior.Uniform(14, 14.2)})
        for ifo in ifos:
            ifo.calibration_model = bilby.gw.calibration.CubicSpline(f"recalib_{ifo.name}_", 20, 100, 4)
            pri.update(bilby.gw.prior.CalibrationPriorDict.constant_uncertainty_spline(0.1, 0.1, 20, 100, 4, ifo.name))
        return bilby.gw.likelihood.GravitationalWaveTransient(
            ifos, self.wg(mb_model, 16, 256), priors=pri, calibration_marginalization=True, number_of_response_curves=n,
            starting_index=start, calibration_lookup_table=files)

    def values(self, like, mode):
        out = []
        for k in range(5):
            p = {"luminosity_distance": 400.0, "tilt": [1.5, 2.0, 3.5, 2.5, 3.0][k], "phase": 0.3 + k % 2, "psi": 0.4,
                 "geocent_time": 2.0 + 0.01 * (k % 3), "ra": 1.0 + 0.2 * k, "dec": 0.3}
            if mode in ("mb", "cal"):
                p["geocent_time"] += 12.1
            if mode == "dist":
                p["luminosity_distance"] = like._ref_dist
            like.parameters = p
            out.append(float(like.log_likelihood_ratio()))
        return out


def mb_model(frequency_array, luminosity_distance, tilt, phase, **kw):
    import numpy as np

    f = kw.get("frequencies", frequency_array)
    f = np.where(f > 0, f, 1)
    h = 3000 / luminosity_distance * f ** (-7 / 6) * np.exp(1j * (tilt * f / 9 + 2 * phase))
    return {"plus": h, "cross": 0.4j * h}


def small():
    """Shrink the distance table."""
    import numpy as np
    from bilby.gw.likelihood import base

    base.np = SmallNumpy(np)


def smaller():
    """If the code does not let its table be shrunk, build a small one in its place."""
    import numpy as np
    from bilby.gw import likelihood as gl

    def create(self):
        d = self._distance_array[:: max(1, len(self._distance_array) // 60)]
        x = np.log(self.priors["luminosity_distance"].prob(d) + 1) + np.arange(len(d)) * (2 if self.phase_marginalization else 1)
        self._dist_margd_loglikelihood_array = np.outer(np.linspace(-1, 1, 12), np.linspace(1, 2, 24)) * np.sum(x)
        self.cache_lookup_table()
    gl.GravitationalWaveTransient._create_lookup_table = create


REF = {}


def _reference(tmp):
    """Values of every configuration computed without any file, and good tables for it."""
    import logging

    import numpy as np

    logging.getLogger("bilby").setLevel(logging.CRITICAL)
    m, ref = Maker(), {}
    for k in range(N_DIST):
        fn = os.path.join(tmp, f"t{k}.npz")
        like = m.dist(k, fn)
        ref[f"dist{k}"] = m.values(like, "dist")
        ref[f"table{k}"] = {q: v for q, v in dict(np.load(fn)).items()}
    for k in range(6):
        ref[f"roq{k}"] = m.values(m.roq(k), "roq")
        ref[f"mb{k}"] = m.values(m.mb(k), "mb")
    return ref


def preload():
    import signal

    lk.preload()
    import tables  # noqa
    from bilby.gw.detector import calibration  # noqa
    import h5py  # noqa

    class Slow(BaseException):
        pass

    def slow(*a):
        raise Slow()

    small()
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix="verif-p16-")
    try:
        os.chdir(tmp)
        old = signal.signal(signal.SIGALRM, slow)
        signal.alarm(25)
        try:
            ref = _reference(tmp)
            signal.alarm(0)
        except Slow:
            smaller()
            ref = _reference(tmp)
        signal.signal(signal.SIGALRM, old)
        REF.update(ref)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


# -- one analysis -----------------------------------------------------------
def fname(plan, inc):
    mode = plan["mode"]
    if mode == "dist":
        return ".distance_marginalization_lookup.npz" if inc["route"] == "default" else "table.npz"
    if mode == "roq":
        return "w." + plan["ext"]
    return "w.hdf5"


def body(plan, inc, final=False):
    mode = plan["mode"]

    def run(s):
        import logging

        import numpy as np
        from bilby.core.utils import random as br

        logging.getLogger("bilby").setLevel(logging.CRITICAL)
        m, v = Maker(), {"err": None, "vals": None}
        k, fn = inc["conf"], fname(plan, inc)
        br.seed(plan["conf"] * 100 + inc.get("n", 0))
        there = os.path.exists(fn)
        try:
            if mode == "dist":
                k %= N_DIST
                arg = {"default": None, "file": fn, "dict": copy.deepcopy(REF[f"table{inc['dict'] % N_DIST}"])}[inc["route"]]
                before = os.stat(fn).st_ino if there else None
                like = m.dist(k, arg)
                v["loaded"] = there and os.stat(fn).st_ino == before and inc["route"] != "dict"
                v["rebuilt"] = there and not v["loaded"]
            elif mode in ("roq", "mb"):
                if plan["ext"] != "hdf5" and mode == "roq":
                    k -= k % 2
                if inc["save"]:
                    s.enabled = False
                    like = getattr(m, mode)(k)
                    s.enabled = True
                    like.save_weights(fn, **({"format": plan["ext"]} if mode == "roq" else {}))
                else:
                    v["reading"] = True
                    like = m.roq(k, fn, narrow=plan["conf"] % 2 == 1) if mode == "roq" else m.mb(k, fn)
                    v["loaded"] = True
            else:
                n, start = CAL_N[k % len(CAL_N)]
                like = m.cal(n, start, {"H1": "H1cal.h5"} if plan["conf"] % 2 else None)
                s.enabled = False
                v["curves"] = {}
                for name in ("H1", "L1"):
                    p = like.calibration_parameter_draws[name]
                    d = np.asarray(like.calibration_draws[name])
                    want = None
                    if p is not None:
                        spl = __import__("bilby").gw.calibration.CubicSpline(f"recalib_{name}_", 20, 100, 4)
                        f = like.interferometers[0].frequency_array[like.interferometers[0].frequency_mask]
                        want = [spl.get_calibration_factor(f, **p.iloc[q]) for q in range(len(p))]
                        want = bool(len(want) == len(d) and np.allclose(want, d, rtol=0, atol=1e-6))
                    v["curves"][name] = [len(d), want, [complex(x) for x in np.mean(d * np.arange(1, d.shape[1] + 1), axis=1)]]
            s.enabled = False
            v["vals"] = m.values(like, mode)
        except KeyboardInterrupt:
            v["err"] = ("KeyboardInterrupt", "", True)
        except Exception as e:
            v["err"] = (type(e).__name__, str(e)[:200], isinstance(e, (OSError, MemoryError)))
        return v

    return run


def close(a, b, tol=1e-9):
    return len(a) == len(b) and all(x == y or abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def hurt(path, how, x, mode):
    """Damage one file; -> whether the damage can be recognised by a reader."""
    import numpy as np

    data = open(path, "rb").read()
    if how == "remove":
        os.remove(path)
        return True
    if how in ("drop", "shape"):
        if mode != "dist":
            how = "cut"
        else:
            try:
                d = dict(np.load(path))
            except Exception:
                return True
            key = sorted(d)[int(x * len(d))]
            if how == "drop":
                d.pop(key)
            else:
                d[key] = np.atleast_1d(d[key])[: max(1, np.size(d[key]) // 2)]
                if key in ("reference_distance", "phase_marginalization"):
                    d[key] = np.append(d[key], d[key])
                if key == "lookup_table":
                    d[key] = d[key].ravel()
            with open(path, "wb") as f:
                np.savez(f, **d)
            return True
    if how == "flip" and not path.endswith(".npz"):
        how = "cut"
    if how == "empty":
        data = b""
    elif how == "cut":
        data = data[: int(x * max(0, len(data) - 1))]
    elif how == "garbage":
        data = hashlib.sha256(repr(x).encode()).digest() * 20
    elif data:
        # one byte of the stored arrays (zip checks those; names and dates in its headers do not matter)
        p = int(x * len(data))
        data = data[:p] + bytes([data[p] ^ 0x55]) + data[p + 1:]
    with open(path, "wb") as f:
        f.write(data)
    return True


def execute(plan, ctx):
    mode = plan["mode"]
    ctx.probes[mode] += 1
    names = {"dist": [".distance_marginalization_lookup.npz", "table.npz"], "roq": ["w." + plan["ext"]], "mb": ["w.hdf5"],
             "cal": ["H1cal.h5" if plan["conf"] % 2 else "H1_calibration_file.h5", "L1_calibration_file.h5"]}[mode]
    state = {}              # weights: what the file may hold; cal: curves of the stored file
    damaged = set()
    incs = list(plan["incs"]) + [{"conf": plan["incs"][0]["conf"] if plan["incs"] else 0, "route": "file", "dict": 0, "save": False,
                                  "faults": [], "damage": None, "power": False}]
    for k, inc in enumerate(incs):
        inc = dict(inc, n=k)
        if inc["damage"]:
            how, x = inc["damage"]
            have = [n for n in names if os.path.exists(os.path.join(ctx.root, n))]
            if have:
                n = have[int(x * 7919) % len(have)]
                hurt(os.path.join(ctx.root, n), how, x, mode)
                if how == "remove":
                    state.pop(n, None)
                    damaged.discard(n)
                else:
                    damaged.add(n)
                ctx.probes["damaged"] += 1
        fn = fname(plan, inc)
        conf = inc["conf"] % N_DIST
        if mode == "roq" and plan["ext"] != "hdf5":
            conf -= conf % 2
        held = state.get(fn, {None})
        if mode in ("roq", "mb") and not inc["save"]:
            # the user gives the file made for this configuration
            known = [c for c in held if c is not None]
            conf = known[0] if known else conf
            inc["conf"] = conf
        before = durable.snapshot(ctx.root) if inc["power"] else None
        jpath = os.path.join(ctx.base, f"journal{k}")
        jfd = os.open(jpath, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600) if before is not None and mode != "cal" else None
        kw = {"line_prefixes": PREFIX} if any(f["point"] == "line" for f in inc["faults"]) else {}
        if jfd is not None:
            kw["journal"] = jfd
        try:
            out = ctx.run(body(plan, inc), inc["faults"], tag=f"analysis {k}", cpu=60, **kw)
        finally:
            if jfd is not None:
                os.close(jfd)
        fired = bool(out["sim"]["fired"])
        died = out["end"] in ("crash", "exit") or (
            out["end"] == "exception" and fired and out["type"] in ("KeyboardInterrupt", "MemoryError", "OSError"))
        if not died and out["end"] != "ok":
            raise Violation(f"failed:{mode}", f"analysis {k}: {out['end']} {out.get('type')} {out.get('msg')} {out.get('site')}")
        v = out["value"] if not died else {"err": ("died", "", True), "vals": None}
        what = f"{mode} analysis {k} (settings {conf}, {inc['route'] if mode == 'dist' else 'save' if inc['save'] else 'load'})"
        if died:
            ctx.probes["crash"] += 1
            if jfd is not None:
                durable.power_cut(ctx.root, before, durable.read_journal(jpath), random.Random(plan["seed"] + k))
                ctx.fired["power-cut"] += 1
                ctx.probes["power-cut"] += 1
        failed = v["err"] is not None
        if mode == "dist":
            if inc["route"] == "dict" and inc["dict"] % N_DIST != conf:
                ctx.probes["other-settings"] += 1
            if failed:
                if not (fired and v["err"][2]):
                    raise Violation("failed:dist", f"{what}: {v['err']}")
            else:
                if not close(v["vals"], REF[f"dist{conf}"]):
                    raise Violation("values:dist", f"{what}: log likelihoods {v['vals']} instead of {REF[f'dist{conf}']}")
                if v["loaded"]:
                    ctx.probes["loaded"] += 1
                if v["rebuilt"]:
                    ctx.probes["rebuilt"] += 1
        elif mode in ("roq", "mb"):
            if inc["save"]:
                if failed and not (fired and v["err"][2]):
                    raise Violation(f"failed:{mode}", f"{what}: {v['err']}")
                if failed:
                    # old or new contents, unless the old file was damaged
                    state[fn] = set(held) | {conf}
                else:
                    state[fn] = {conf}
                    damaged.discard(fn)
            else:
                exists = os.path.exists(os.path.join(ctx.root, fn))
                if failed:
                    if fired and v["err"][2]:
                        pass
                    elif not exists and None in held or fn in damaged:
                        ctx.probes["rejected"] += 1
                        if exists:      # the user deletes the unusable file
                            os.remove(os.path.join(ctx.root, fn))
                        state.pop(fn, None)
                        damaged.discard(fn)
                    else:
                        raise Violation(f"failed:{mode}", f"{what}: {v['err']}; the file should hold one of {sorted(map(str, held))}")
                else:
                    ok = [c for c in held if c is not None and close(v["vals"], REF[f"{mode}{c}"])]
                    if not ok:
                        raise Violation(f"values:{mode}", f"{what}: log likelihoods {v['vals']} instead of those of "
                                        f"{[REF.get(f'{mode}{c}') for c in held]}")
                    state[fn] = {ok[0]}
                    ctx.probes["loaded"] += 1
        else:
            n, start = CAL_N[inc["conf"] % len(CAL_N)]
            if failed:
                few = any(q in state and state[q][0] < n + start for q in names)
                if fired and v["err"][2]:
                    pass
                elif damaged or few:
                    ctx.probes["rejected"] += 1
                    for q in names:     # the user deletes the unusable files
                        if os.path.exists(os.path.join(ctx.root, q)):
                            os.remove(os.path.join(ctx.root, q))
                        state.pop(q, None)
                    damaged.clear()
                else:
                    raise Violation("failed:cal", f"{what}: {v['err']}")
            else:
                for q, name in zip(names, ("H1", "L1")):
                    count, match, sums = v["curves"][name]
                    if count != n:
                        raise Violation("curves:cal", f"{what}: {name} has {count} calibration curves instead of {n}")
                    if match is not True:
                        raise Violation("curves:cal", f"{what}: the calibration parameters of {name} "
                                        f"{'are missing' if match is None else 'do not belong to its curves'}")
                    if q in state:
                        old = state[q][1]
                        for a, x in enumerate(sums):
                            if a + start in old and abs(old[a + start] - x) > 1e-5 * (1 + abs(x)):
                                raise Violation("values:cal", f"{what}: curve {a} of {name} differs from the one used before")
                        ctx.probes["loaded"] += 1
                        old.update({a + start: x for a, x in enumerate(sums)})
                    else:
                        # a new file holds exactly the curves used, numbered from zero
                        state[q] = [count, {a: x for a, x in enumerate(sums)}]
            for q in names:
                if q not in state and os.path.exists(os.path.join(ctx.root, q)):
                    state[q] = [n, {}]
        ctx.note(k, conf, None if not v["vals"] else f"{v['vals'][0]:.6g}", v["err"] and v["err"][0])
    ctx.nontrivial = True
