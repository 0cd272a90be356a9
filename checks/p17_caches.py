"""P17: in-memory caches never change what a model, noise curve, detector or likelihood returns.

Real code: waveform generators, power spectral densities, strain data,
detectors and the gravitational-wave likelihoods (standard, relative binning,
ROQ).  Stub: source models, small synthetic data.  A seeded history of calls,
changes of settings, rejected settings, edits by the caller, copies and
interruptions at arbitrary lines is applied to one long-lived object; the
oracle is a fresh object with the current settings that has no history.
"""
import copy
import math
import random

from sim.runner import Skip, Violation

PID = "P17"
TIERS = {"quick": {"runs": 4000, "budget": 36, "minimise": 40, "min_runs": 60},
         "thorough": {"runs": 400000, "budget": 760, "minimise": 60, "min_runs": 600}}
REAL = ["bilby WaveformGenerator, PowerSpectralDensity, InterferometerStrainData, InterferometerGeometry, Interferometer",
        "GravitationalWaveTransient, RelativeBinningGravitationalWaveTransient, ROQGravitationalWaveTransient"]
STUB = ["source models", "strain data and ROQ weights (synthetic)", "signal source"]
REQUIRED_PROBES = ["wg", "psd", "ifo", "gwl", "relbin", "roq", "settings", "rejected", "interrupted", "edited", "repeated",
                   "copied"]
ASSUMPTIONS = ["settings are changed through the objects' attributes and methods, not by editing arrays or lists they hold",
               "the data a likelihood was built with stay fixed while it is used",
               "time and frequency arrays handed out by an object are not edited by the caller",
               "a setting whose change was interrupted is set again"]

MODES = ["wg", "wg", "psd", "ifo", "ifo", "gwl", "gwl", "relbin", "roq"]
N_OPS = {"wg": 60, "psd": 50, "ifo": 50, "gwl": 30, "relbin": 15, "roq": 30}
PREFIX = ("/bilby/gw/waveform_generator.py", "/bilby/gw/detector/", "/bilby/gw/likelihood/", "/bilby/core/series.py")


def gen(rng, tier, i):
    mode = MODES[i % len(MODES)] if i < 3 * len(MODES) else rng.choice(MODES)
    n = rng.randint(3, N_OPS[mode])
    ops = [[rng.random(), rng.randrange(10 ** 6)] for _ in range(n)]
    faults = []
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2, 4])):
            faults.append({"point": "line", "at": rng.randint(0, rng.choice([60, 400, 2500])),
                           "do": rng.choice(["memoryerror", "memoryerror", "signal"]), "signum": 2})
    if i == 1:      # the listed finding: the returned waveform is the cache itself
        ops, faults = [[-1, 0], [0.98, 0], [-1, 0]], []
    return {"mode": mode, "ops": ops, "faults": faults, "conf": rng.randrange(10 ** 6), "_lists": ["ops", "faults"]}


def preload():
    import bilby.gw  # noqa
    from scipy.signal.windows import tukey  # noqa
    from bilby.gw.likelihood import ROQGravitationalWaveTransient  # noqa


# -- comparison -------------------------------------------------------------
def same(a, b, tol=1e-9):
    import numpy as np

    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and not np.isscalar(a):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "bi" and b.dtype.kind in "bi":
        return bool(np.array_equal(a, b))
    with np.errstate(all="ignore"):
        scale = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0))) if b.size else 0
        eq = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * max(scale, 1e-300))
    return bool(np.all(eq))


def brief(x):
    import numpy as np

    if isinstance(x, dict):
        return "{" + ", ".join(f"{k}: {brief(v)}" for k, v in list(x.items())[:3]) + "}"
    if isinstance(x, np.ndarray):
        return f"array{x.shape} sum {complex(np.nansum(np.where(np.isfinite(x), x, 0))):.6g} {x.ravel()[:4]}"
    return repr(x)[:120]


class Mismatch(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class World:
    """One object under a history of operations; subclasses give the operations."""

    def __init__(self, s, plan, root):
        self.s, self.plan, self.root = s, plan, root
        self.r = random.Random(plan["conf"])
        self.log, self.probes, self.edited, self.hit = [], {}, False, False

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    def guarded(self, f, what):
        """Run one call on the object; -> (value, interrupted)."""
        fired = len(self.s.fired)
        self.s.enabled = True
        try:
            return f(), False
        except (Exception, KeyboardInterrupt) as e:
            self.s.enabled = False
            if len(self.s.fired) == fired:
                raise
            self.probe("interrupted")
            self.log.append(f"{what} interrupted by {type(e).__name__}")
            return None, True
        finally:
            self.s.enabled = False

    def check(self, what, f, fresh):
        """A call must give what the fresh object gives, value or error."""
        ref = ref_err = got = err = None
        try:
            got, hit = self.guarded(f, what)
            self.hit = hit
            if hit:
                return
        except Exception as e:
            err = e
        try:
            ref = fresh()
        except Exception as e:
            ref_err = e
        self.log.append(what)
        if err is not None or ref_err is not None:
            if type(err) is not type(ref_err):
                raise Mismatch(f"error:{what.split('(')[0]}", f"{what}: {err!r}, a fresh object: {ref_err!r}")
            return
        if not same(got, ref):
            if self.edited and isinstance(ref, dict) and same(got["cross"], ref["cross"]) and any(
                    same(got["plus"], 3 ** k * ref["plus"]) for k in range(1, 6)):
                raise Mismatch("edited-waveform", f"{what} returned the array the caller edited instead of the waveform")
            raise Mismatch(f"value:{what.split('(')[0]}", f"{what} returned {brief(got)}, a fresh object with these settings "
                           f"returns {brief(ref)}")
        return got

    def set(self, what, f):
        """Change a setting; repeated until it is not interrupted."""
        for _ in range(6):
            _, hit = self.guarded(f, what)
            if not hit:
                break
        self.log.append(what)
        self.probe("settings")

    def rejected(self, what, f):
        """A call with unusable arguments must raise and change nothing."""
        before = copy.deepcopy(self.obj())
        try:
            _, hit = self.guarded(f, what)
        except Exception as e:
            self.log.append(f"{what} -> {type(e).__name__}")
            self.probe("rejected")
            return
        if hit:     # a change that was interrupted: not known what it left
            self.replace(before)
        else:
            raise Mismatch(f"accepted:{what.split('(')[0]}", f"{what} was accepted")

    def run(self):
        for k, (p, seed) in enumerate(self.plan["ops"]):
            self.r = random.Random(seed)
            self.step(p)


# -- waveform generator -----------------------------------------------------
def fd_model(frequency_array, a, b, **kw):
    import numpy as np

    gain, shift = kw.get("gain", 1.0), kw.get("shift", 0.0)

    if a < 0:
        raise ValueError("unphysical")
    if b > 90:
        return None
    h = gain * a * np.exp(-frequency_array / (5 + b)) * np.exp(1j * (b * frequency_array + shift))
    return {"plus": h, "cross": -0.5j * h}


def td_model(time_array, a, b, **kw):
    import numpy as np

    gain, shift = kw.get("gain", 1.0), kw.get("shift", 0.0)
    if a < 0:
        raise ValueError("unphysical")
    h = gain * a * np.sin(b * (time_array - time_array[0]) + shift) + 0.01 * time_array[0]
    return {"plus": h, "cross": 2 * h}


def td_model2(time_array, a, b, **kw):
    return td_model(time_array, a, b + 1, **kw)


def fd_model2(frequency_array, a, b, **kw):
    return fd_model(frequency_array, a, b + 1, **kw)


def conv0(parameters):
    p = parameters.copy()
    if "s" in p:
        p["a"], p["b"] = p.pop("s") / 2, p.pop("d") / 2
    return p, []


def conv1(parameters):
    p, _ = conv0(parameters)
    p["a"] = p["a"] + 1
    return p, ["a"]


class WG(World):
    def start(self):
        from bilby.gw.waveform_generator import WaveformGenerator

        r = self.r
        self.cls = WaveformGenerator
        self.cf = {"duration": r.choice([1, 2, 4]), "sampling_frequency": r.choice([16, 32]), "start_time": r.choice([0, 10, 7.5])}
        self.models = r.choice([(fd_model, None), (None, td_model), (fd_model, td_model)])
        self.wargs = r.choice([None, {"gain": 2.0}, {"gain": 0.5, "shift": 0.1}])
        self.conv = conv0
        self.psets = [{"a": 1.0, "b": 2.0}, {"a": 1.0, "b": 3.0}, {"s": 2.0, "d": 4.0}, {"a": -1.0, "b": 2.0},
                      {"a": 1.0, "b": 95.0}, {"a": 1.0, "b": 2.0, "extra": 5.0}]
        self.mine = [dict(p) for p in self.psets]
        self.wg = self.fresh()
        self.last, self.given, self.kept = None, None, []

    def fresh(self):
        return self.cls(frequency_domain_source_model=self.models[0], time_domain_source_model=self.models[1],
                        parameter_conversion=self.conv, waveform_arguments=None if self.wargs is None else dict(self.wargs),
                        **self.cf)

    def step(self, p):
        from bilby.core import utils

        r = self.r
        if p < 0.55:
            dom = r.choice(["fd", "td"])
            name = {"fd": "frequency_domain_strain", "td": "time_domain_strain"}[dom]
            if self.given is not None and r.random() < 0.25:
                k, arg, use = "None", None, dict(self.given)
            else:
                k = r.choice([0, 0, 0, 1, 1, 2, 3, 4, 5])
                if p < 0:
                    k, name = 0, "frequency_domain_strain"
                arg, use = self.mine[k], dict(self.mine[k])
                if self.last == (dom, k):
                    self.probe("repeated")
                self.last = (dom, k)
                before = dict(arg)
                self.given = dict(arg)
            got = self.check(f"{name}({use})", lambda: getattr(self.wg, name)(arg), lambda: getattr(self.fresh(), name)(use))
            if self.hit and arg is not None:
                self.given = None       # whether these parameters were taken over is not known
            if arg is not None and arg != before:
                raise Mismatch("parameters-changed", f"{name} changed the caller's parameters from {before} to {arg}")
            self.ret = got
        elif p < 0.75:
            k = r.choice(["duration", "sampling_frequency", "start_time", "frequency_array", "time_array"])
            if k in self.cf:
                v = r.choice({"duration": [1, 2, 4], "sampling_frequency": [16, 32, 64], "start_time": [0, 10, 7.5, 3]}[k])
                self.cf[k] = v
            else:
                fs, d, t = r.choice([16, 32]), r.choice([1, 2, 4]), r.choice([0, 10, 3])
                self.cf.update(sampling_frequency=fs, duration=d)
                if k == "time_array":
                    self.cf["start_time"] = t
                    v = utils.create_time_series(fs, d, t)
                else:
                    v = utils.create_frequency_series(fs, d)
            self.set(f"{k} = {v if k in ('duration', 'sampling_frequency', 'start_time') else (fs, d, t)}",
                     lambda: setattr(self.wg, k, v))
        elif p < 0.85:
            k = r.choice(["wargs", "item", "model", "conv"])
            if k == "wargs" and self.wargs is not None:
                self.wargs = {q: r.choice([0.5, 1.5, 2.0]) for q in self.wargs}
                new = dict(self.wargs)
                self.set(f"waveform_arguments = {new}", lambda: setattr(self.wg, "waveform_arguments", new))
            elif k == "item" and self.wargs is not None:
                q = r.choice(sorted(self.wargs))
                self.wargs[q] = v = r.choice([0.25, 0.75, 3.0])
                self.set(f"waveform_arguments[{q}] = {v}", lambda: self.wg.waveform_arguments.__setitem__(q, v))
            elif k == "model":
                j = r.choice([j for j in (0, 1) if self.models[j] is not None])
                m = r.choice([(fd_model, fd_model2), (td_model, td_model2)][j])
                self.models = tuple(m if q == j else self.models[q] for q in (0, 1))
                self.set(f"model {m.__name__}", lambda: setattr(
                    self.wg, ("frequency_domain_source_model", "time_domain_source_model")[j], m))
            elif k == "conv":
                self.conv = r.choice([conv0, conv1])
                self.given = None
                self.set(f"conversion {self.conv.__name__}", lambda: setattr(self.wg, "parameter_conversion", self.conv))
        elif p < 0.90:
            for k in ("frequency_array", "time_array"):
                self.check(k, lambda: getattr(self.wg, k), lambda: getattr(self.fresh(), k))
        elif p < 0.95:
            k = r.randrange(3)
            q = r.choice(sorted(self.mine[k]))
            self.mine[k][q] += 0.5      # the caller's own dictionary
            self.log.append(f"caller changes its parameters {k}: {q} = {self.mine[k][q]}")
            self.probe("edited")
        elif p < 0.97:
            self.wg = pickle_copy(self.wg)
            self.log.append("object pickled and restored")
            self.probe("copied")
        elif getattr(self, "ret", None) is not None:
            self.ret["plus"] *= 3
            self.edited = True
            self.log.append("caller edits the returned waveform")
            self.probe("edited")


def pickle_copy(x):
    import pickle

    return pickle.loads(pickle.dumps(x))


# -- power spectral density -------------------------------------------------
class PSD(World):
    def start(self):
        import os

        import numpy as np
        from bilby.gw.detector.psd import PowerSpectralDensity

        self.cls = PowerSpectralDensity
        r, npr = self.r, np.random.RandomState(self.plan["conf"] % 2 ** 31)
        self.grids = [np.linspace(0, 16, n) for n in (9, 17, 33)] + [np.linspace(2, 12, 21)]
        self.arrays = [npr.uniform(1e-46, 1e-44, len(g)) for g in self.grids]
        self.asds = [npr.uniform(1e-23, 1e-22, len(g)) for g in self.grids]
        for k in range(3):
            np.savetxt(os.path.join(self.root, f"psd{k}.txt"), np.array([self.grids[k], self.arrays[k]]).T)
            np.savetxt(os.path.join(self.root, f"asd{k}.txt"), np.array([self.grids[k], self.asds[k]]).T)
        self.want = [np.linspace(0, 16, 33), np.linspace(0, 16, 65), np.linspace(1, 9, 12), np.linspace(0, 16, 9)]
        self.src = ("psd", 0)
        self.psd = self.make()

    def make(self):
        k, j = self.src
        if k == "psd":
            return self.cls(frequency_array=self.grids[j].copy(), psd_array=self.arrays[j].copy())
        if k == "asd":
            return self.cls(frequency_array=self.grids[j].copy(), asd_array=self.asds[j].copy())
        return self.cls(**{k: f"{self.root}/{k[:3]}{j}.txt"})

    def obj(self):
        return self.psd

    def replace(self, psd):
        self.psd = psd

    def step(self, p):
        import numpy as np

        r = self.r
        if p < 0.5:
            k = r.randrange(len(self.want))
            name = r.choice(["get_power_spectral_density_array", "get_amplitude_spectral_density_array"])
            g = self.want[k]
            self.ret = self.check(f"{name}(grid {k})", lambda: getattr(self.psd, name)(g),
                                  lambda: getattr(self.make(), name)(g.copy()))
        elif p < 0.58:
            self.check("power_spectral_density_interpolated(grid)", lambda: self.psd.power_spectral_density_interpolated(
                self.want[1]), lambda: self.make().power_spectral_density_interpolated(self.want[1]))
            for a in ("psd_array", "asd_array", "frequency_array"):
                self.check(a, lambda: np.array(getattr(self.psd, a)), lambda: getattr(self.make(), a))
        elif p < 0.64:
            from bilby.core.utils import random as br

            def draw(psd, seed=r.randrange(1000)):
                br.seed(seed)
                return psd.get_noise_realisation(16, 2)[0]
            self.check("get_noise_realisation(16, 2)", lambda: draw(self.psd), lambda: draw(self.make()))
        elif p < 0.84:
            self.src = (r.choice(["psd", "asd", "psd_file", "asd_file"]), r.randrange(3))
            k, j = self.src
            if k.endswith("file"):
                self.set(f"{k} = {j}", lambda: setattr(self.psd, k, f"{self.root}/{k[:3]}{j}.txt"))
            else:
                def change():
                    self.psd.frequency_array = self.grids[j].copy()
                    setattr(self.psd, f"{k}_array", (self.arrays if k == "psd" else self.asds)[j].copy())
                self.set(f"frequency and {k} array = {j}", change)
        elif p < 0.90:
            k = r.choice(["psd_array", "asd_array", "psd_file"])
            self.rejected(f"{k} = unusable", lambda: setattr(
                self.psd, k, "nonexistent.txt" if k == "psd_file" else np.ones(5)))
        elif p < 0.95:
            k = r.randrange(len(self.want))
            self.want[k][1:-1] += 0.01
            self.log.append(f"caller changes its frequency grid {k}")
            self.probe("edited")
        elif p < 0.97:
            self.psd = pickle_copy(self.psd)
            self.log.append("object pickled and restored")
            self.probe("copied")
        elif getattr(self, "ret", None) is not None:
            self.ret *= 2
            self.log.append("caller edits the returned noise curve")
            self.probe("edited")


# -- detector with strain data ----------------------------------------------
GEO = {"latitude": [46.5, -20.0], "longitude": [-119.4, 30.0], "elevation": [142.5, 5000.0], "xarm_azimuth": [126.0, 10.0],
       "yarm_azimuth": [216.0, 100.0], "xarm_tilt": [-6e-4, 0.1], "yarm_tilt": [1e-5, 0.2]}


class IFO(World):
    def start(self):
        import numpy as np
        from bilby.gw.detector import Interferometer, PowerSpectralDensity
        from bilby.gw.detector.strain_data import InterferometerStrainData

        r = self.r
        self.np, self.cls, self.psdcls, self.sdcls = np, Interferometer, PowerSpectralDensity, InterferometerStrainData
        self.geo = {k: v[0] for k, v in GEO.items()}
        self.set_ = {"minimum_frequency": r.choice([0, 2]), "maximum_frequency": r.choice([np.inf, 6, 7.5])}
        self.roll, self.notch, self.psdk = 0.2, None, 0
        self.grid = (16, 2, 0)
        self.src, self.wf = None, 1
        self.ifo = self.build()
        self.set_source("zero", 0)

    def psd(self):
        np = self.np
        return self.psdcls(frequency_array=np.linspace(0, 64, 65), psd_array=1e-4 + np.linspace(1, 2 + self.psdk, 65) ** 2)

    def build(self):
        ifo = self.cls(name="H1", power_spectral_density=self.psd(), length=4, **self.geo, **self.set_)
        ifo.strain_data.roll_off = self.roll
        ifo.strain_data.notch_list = self.notch
        return ifo

    def data(self, k, n):
        return self.np.random.RandomState(k).normal(size=n)

    def fresh(self, src=True):
        ifo = self.build()
        fs, d, t = self.grid
        if self.src is not None and src:
            dom, arr = self.src
            if dom == "td":
                ifo.strain_data.set_from_time_domain_strain(arr.copy(), sampling_frequency=fs, duration=d, start_time=t)
                _ = ifo.frequency_domain_strain
            else:
                ifo.strain_data.set_from_frequency_domain_strain(arr.copy(), sampling_frequency=fs, duration=d, start_time=t)
                ifo.strain_data.window_factor = self.wf
        return ifo

    def set_source(self, how, seed):
        from bilby.core import utils
        from bilby.core.utils import random as br

        np, r = self.np, self.r
        fs, d, t = self.grid = (r.choice([16, 32]), r.choice([1, 2, 4]), r.choice([0, 5]))
        n = fs * d
        sd = self.ifo.strain_data
        use = r.random() < 0.5
        if how == "td":
            arr = self.data(seed, n)
            self.src, self.wf = ("td", arr), None
            if use:
                ta = utils.create_time_series(fs, d, t)
                self.set(f"set_from_time_domain_strain(time_array {self.grid})",
                         lambda: sd.set_from_time_domain_strain(arr.copy(), time_array=ta.copy()))
            else:
                self.set(f"set_from_time_domain_strain({self.grid})", lambda: sd.set_from_time_domain_strain(
                    arr.copy(), sampling_frequency=fs, duration=d, start_time=t))
        elif how == "fd":
            arr = self.data(seed, n // 2 + 1) * (1 + 0.5j)
            self.src, self.wf = ("fd", arr), 1
            if use:
                fa = utils.create_frequency_series(fs, d)
                self.set(f"set_from_frequency_domain_strain(frequency_array {self.grid})",
                         lambda: self.ifo.set_strain_data_from_frequency_domain_strain(
                             arr.copy(), frequency_array=fa.copy(), start_time=t))
            else:
                self.set(f"set_from_frequency_domain_strain({self.grid})",
                         lambda: self.ifo.set_strain_data_from_frequency_domain_strain(
                             arr.copy(), sampling_frequency=fs, duration=d, start_time=t))
        elif how == "zero":
            self.src, self.wf = ("fd", np.zeros(n // 2 + 1, dtype=complex)), 1
            self.set(f"set_strain_data_from_zero_noise({self.grid})", lambda: self.ifo.set_strain_data_from_zero_noise(
                sampling_frequency=fs, duration=d, start_time=t))
        else:
            def draw(ifo):
                br.seed(seed)
                ifo.set_strain_data_from_power_spectral_density(sampling_frequency=fs, duration=d, start_time=t)
            br.seed(seed)
            self.src, self.wf = ("fd", self.psd().get_noise_realisation(fs, d)[0]), 1
            self.set(f"set_strain_data_from_power_spectral_density({self.grid})", lambda: draw(self.ifo))

    def obj(self):
        return self.ifo

    def replace(self, ifo):
        self.ifo = ifo

    def step(self, p):
        np, r = self.np, self.r
        pars = {"ra": 1.0, "dec": -0.3, "psi": 0.7, "geocent_time": self.grid[2] + 0.4}
        if p < 0.45:
            what = r.choice(["frequency_domain_strain", "frequency_domain_strain", "time_domain_strain", "frequency_mask",
                             "window_factor", "frequency_array", "time_array", "maximum_frequency", "power_spectral_density_array",
                             "amplitude_spectral_density_array", "vertex", "detector_tensor", "x", "y", "antenna",
                             "response", "optimal_snr", "matched_filter", "delay", "whitened"])

            def read(ifo):
                n = self.grid[0] * self.grid[1] // 2 + 1
                sig = np.linspace(1, 2, n) * (1 + 1j)
                if what == "window_factor":
                    return ifo.strain_data.window_factor
                if what in ("x", "y"):
                    return getattr(ifo.geometry, what)
                if what == "antenna":
                    return [ifo.antenna_response(1.0, -0.3, 4.0, 0.7, m) for m in ("plus", "cross")]
                if what == "response":
                    return ifo.get_detector_response({"plus": sig, "cross": 2j * sig}, dict(pars))
                if what == "optimal_snr":
                    return ifo.optimal_snr_squared(sig)
                if what == "matched_filter":
                    return ifo.matched_filter_snr(sig)
                if what == "delay":
                    return ifo.time_delay_from_geocenter(1.0, -0.3, 4.0)
                if what == "whitened":
                    return ifo.whitened_frequency_domain_strain
                return getattr(ifo, what)

            fr = self.fresh()
            got = self.check(what, lambda: read(self.ifo), lambda: read(fr))
            self.ret = got if what in ("time_domain_strain", "frequency_domain_strain", "power_spectral_density_array",
                                       "amplitude_spectral_density_array") else None
            self.probe("repeated")
        elif p < 0.58:
            self.set_source(r.choice(["td", "td", "fd", "zero", "psd"]), r.randrange(100))
        elif p < 0.72:
            k = r.choice(["minimum_frequency", "maximum_frequency", "roll_off", "notch", "psd", "psd-array"])
            if k == "roll_off":
                self.roll = v = r.choice([0.1, 0.2, 0.3])
                self.set(f"roll_off = {v}", lambda: setattr(self.ifo.strain_data, "roll_off", v))
            elif k == "notch":
                self.notch = v = r.choice([None, [(3, 4.2)], [(1, 2), (5, 6)]])
                self.set(f"notch_list = {v}", lambda: setattr(self.ifo.strain_data, "notch_list", v))
            elif k == "psd":
                self.psdk = r.randrange(4)
                new = self.psd()
                self.set(f"power_spectral_density = {self.psdk}", lambda: setattr(self.ifo, "power_spectral_density", new))
            elif k == "psd-array":
                self.psdk = r.randrange(4)
                new = self.psd().psd_array
                self.set(f"psd_array = {self.psdk}", lambda: setattr(self.ifo.power_spectral_density, "psd_array", new))
            else:
                v = r.choice([0, 1, 3] if k == "minimum_frequency" else [np.inf, 5, 7, 20])
                self.set_[k] = v
                self.set(f"{k} = {v}", lambda: setattr(self.ifo, k, v))
        elif p < 0.82:
            k = r.choice(sorted(GEO))
            self.geo[k] = v = r.choice(GEO[k])
            self.set(f"{k} = {v}", lambda: setattr(self.ifo, k, v))
        elif p < 0.87:
            how, sd = r.choice(["td", "fd", "td-array", "uneven", "setter"]), self.ifo.strain_data
            self.rejected(f"strain of wrong length ({how})", {
                "td": lambda: sd.set_from_time_domain_strain(np.ones(7), sampling_frequency=8, duration=1),
                "fd": lambda: sd.set_from_frequency_domain_strain(np.ones(3), sampling_frequency=8, duration=1, start_time=9),
                "td-array": lambda: sd.set_from_time_domain_strain(np.ones(7), time_array=np.arange(8) / 8),
                "uneven": lambda: sd.set_from_time_domain_strain(np.ones(8), time_array=np.arange(8) ** 2 / 8),
                "setter": lambda: setattr(sd, "frequency_domain_strain", np.ones(3))}[how])
        elif p < 0.93:
            # writing the strain: a signal is added, or the array is replaced
            fr = self.fresh()
            wf = fr.strain_data.window_factor
            n = self.grid[0] * self.grid[1] // 2 + 1
            if r.random() < 0.5:
                pols = {"plus": np.linspace(0, 1, n) * 1j, "cross": np.linspace(1, 3, n) + 0j}
                new = fr.frequency_domain_strain + fr.get_detector_response(pols, dict(pars))
                before = dict(pars)
                old = copy.deepcopy(self.ifo)
                _, hit = self.guarded(lambda: self.ifo.inject_signal_from_waveform_polarizations(pars, pols), "inject_signal")
                if hit:     # whether it was added is not known: go back
                    self.ifo = old
                    return
                if pars != before:
                    raise Mismatch("parameters-changed", f"inject_signal changed the caller's parameters to {pars}")
                self.src, self.wf = ("fd", new), wf
                self.log.append("inject_signal")
            else:
                new = self.data(r.randrange(50), n) * 1j
                self.src, self.wf = ("fd", new), wf
                # the factor of windowed data stays in force when the strain is written
                self.set("frequency_domain_strain = ...", lambda: setattr(
                    self.ifo.strain_data, "frequency_domain_strain", new.copy()))
        elif p < 0.96:
            self.ifo = pickle_copy(self.ifo) if r.random() < 0.5 else copy.deepcopy(self.ifo)
            self.log.append("object copied")
            self.probe("copied")
        elif getattr(self, "ret", None) is not None:
            self.ret *= 3
            self.ret = None
            self.log.append("caller edits the returned array")
            self.probe("edited")


# -- likelihoods ------------------------------------------------------------
def gw_model(frequency_array, luminosity_distance, tilt, phase, **kw):
    import numpy as np

    if tilt > 8:
        return None
    if tilt < -8:
        raise RuntimeError("model failed")
    f = np.where(frequency_array > 0, frequency_array, 1)
    h = 3000 / luminosity_distance * f ** (-7 / 6) * np.exp(1j * (tilt * f / 9 + 2 * phase)) * (frequency_array > 0)
    return {"plus": h, "cross": 0.4j * h}


def rb_model(frequency_array, luminosity_distance, tilt, phase, fiducial, **kw):
    f = frequency_array if fiducial == 1 else kw["frequency_bin_edges"]
    h = gw_model(f, luminosity_distance, tilt, phase)
    return None if h is None else {k: v * (f < 26) for k, v in h.items()}


def roq_model(frequency_array, luminosity_distance, tilt, phase, **kw):
    h = gw_model(kw["frequency_nodes"], luminosity_distance, tilt, phase)
    if h is None:
        return None
    return {n: {k: v[kw[n + "_indices"]] for k, v in h.items()} for n in ("linear", "quadratic")}


def same_parameters(parameters):
    return parameters, []


def gw_priors():
    import numpy as np
    from bilby.core import prior as bp

    return bp.PriorDict({"luminosity_distance": bp.PowerLaw(2, 100, 1000), "tilt": bp.Uniform(-10, 10),
                         "phase": bp.Uniform(0, 2 * np.pi, boundary="periodic"), "geocent_time": bp.Uniform(1.6, 2.4),
                         "psi": bp.Uniform(0, np.pi), "ra": bp.Uniform(0, 6), "dec": bp.Cosine()})


class GWL(World):
    kind = "gwl"

    def start(self):
        import numpy as np

        self.np = np
        r = self.r
        self.opts = {"time_marginalization": r.random() < 0.5, "phase_marginalization": r.random() < 0.4,
                     "jitter_time": r.random() < 0.8}
        if self.kind == "roq":
            self.opts["time_marginalization"] = r.random() < 0.3
        if r.random() < 0.4 and not self.kind == "relbin":
            self.opts["reference_frame"] = "H1L1"
            self.opts["time_reference"] = r.choice(["geocenter", "H1"]) if not self.opts["time_marginalization"] else "geocenter"
        self.nb = r.choice([(1, 1), (2, 1), (2, 3), (1, 2)])
        self.pristine = self.build()
        self.like = copy.deepcopy(self.pristine)
        self.other = None
        self.psets = []
        for k in range(6):
            p = {"luminosity_distance": 200.0 + 100 * (k % 3), "tilt": [1.0, 2.0, 4.0, -5.0, 7.0, 5.5][k], "phase": 0.3 + k % 2,
                 "psi": 0.4, "geocent_time": 2.0 + 0.01 * (k % 3)}
            if self.opts.get("time_reference") == "H1":
                p["H1_time"] = p.pop("geocent_time")
            if "reference_frame" in self.opts:
                p["zenith"], p["azimuth"] = 0.5 + 0.1 * k, 1.0
            else:
                p["ra"], p["dec"] = 1.0 + 0.2 * k, 0.3
            if self.opts["time_marginalization"] and self.opts["jitter_time"]:
                p["time_jitter"] = [0.0, 0.003, -0.0071, 0.0013, 0.003, -0.001][k]
            if self.kind == "relbin":
                p["fiducial"] = 0
            self.psets.append(p)
        self.psets += [dict(self.psets[0], tilt=9.0), dict(self.psets[1], tilt=-9.0), dict(self.psets[1], tilt=6.5)]
        self.mine = None

    def ifos(self):
        import bilby

        np = self.np
        out = bilby.gw.detector.InterferometerList([])
        for name, seed in (("H1", 1), ("L1", 2)):
            ifo = bilby.gw.detector.get_empty_interferometer(name)
            ifo.minimum_frequency, ifo.maximum_frequency = 4, 28
            ifo.power_spectral_density = bilby.gw.detector.PowerSpectralDensity(
                frequency_array=np.linspace(0, 32, 65), psd_array=np.linspace(1, 3, 65))
            d = np.random.RandomState(seed).normal(size=129) + 1j * np.random.RandomState(seed + 9).normal(size=129)
            ifo.set_strain_data_from_frequency_domain_strain(d, sampling_frequency=64, duration=4, start_time=0)
            out.append(ifo)

        class Calibration(bilby.gw.calibration.Recalibrate):
            def get_calibration_factor(self, frequency_array, **params):
                if params.get("tilt") == 6.5:
                    raise RuntimeError("calibration failed")
                return super().get_calibration_factor(frequency_array, **params)
        Calibration.__qualname__, Calibration.__module__ = "Calibration", __name__
        globals()["Calibration"] = Calibration
        out[1].calibration_model = Calibration("recalib_L1_")
        return out

    def build(self):
        import bilby
        from bilby.gw import likelihood as gl

        WG_ = bilby.gw.waveform_generator.WaveformGenerator
        kw = dict(duration=4, sampling_frequency=64, start_time=0, parameter_conversion=same_parameters)
        if self.kind == "gwl":
            return gl.GravitationalWaveTransient(self.ifos(), WG_(frequency_domain_source_model=gw_model, **kw),
                                                 priors=gw_priors(), **self.opts)
        if self.kind == "relbin":
            return gl.RelativeBinningGravitationalWaveTransient(
                self.ifos(), WG_(frequency_domain_source_model=rb_model, **kw), priors=gw_priors(), chi=4, epsilon=0.2,
                fiducial_parameters={"luminosity_distance": 300.0, "tilt": 2.0, "phase": 0.4, "psi": 0.4, "geocent_time": 2.0,
                                     "ra": 1.0, "dec": 0.3, "time_jitter": 0.0}, **self.opts)
        return gl.ROQGravitationalWaveTransient(
            self.ifos(), WG_(frequency_domain_source_model=roq_model, waveform_arguments={}, **kw), priors=gw_priors(),
            weights=self.weights(), delta_tc=0.02, **self.opts)

    def weights(self):
        np = self.np
        npr = np.random.RandomState(5)
        nl, nq = self.nb
        w = {"time_samples": np.arange(1.4, 2.6, 0.01)}
        nt = len(w["time_samples"])

        def ranges(n, lo=-10.0, hi=10.0):
            e = np.linspace(lo, hi, n + 1)
            return np.array([[e[k], e[k + 1]] for k in range(n)])
        for kind, n in (("linear", nl), ("quadratic", nq)):
            nodes = [np.sort(npr.choice(np.arange(16, 112) / 4, size=6 + k + (kind == "linear"), replace=False)) for k in range(n)]
            w[f"frequency_nodes_{kind}"] = nodes
            if n > 1:
                w[f"prior_range_{kind}"] = {"tilt": ranges(n)}
            for name in ("H1", "L1"):
                w[f"{name}_{kind}"] = [(npr.normal(size=(nt, len(f))) + 1j * npr.normal(size=(nt, len(f)))) if kind == "linear"
                                       else npr.uniform(0, 1, size=len(f)) for f in nodes]
        return w

    def step(self, p):
        from bilby.core.utils import random as br

        r = self.r
        if p < 0.80:
            what = r.choice(["log_likelihood_ratio"] * 5 + ["log_likelihood", "noise_log_likelihood", "per_detector", "sample",
                                                            "time_sample"])
            if what == "time_sample" and not self.opts["time_marginalization"]:
                what = "log_likelihood"
            k = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8])
            seed = r.randrange(1000)
            style = r.choice(["replace", "update", "keep"])
            pars = dict(self.psets[k])
            like = self.like
            if style == "keep" and self.mine is not None and self.mine[0] == what:
                pars, k = dict(self.mine[1]), "kept"
            elif style == "update" and isinstance(like.parameters, dict):
                like.parameters.update(pars)
                if what == "sample" or what == "time_sample":
                    like.parameters = dict(pars)
            else:
                like.parameters = dict(pars)
            self.mine = (what, dict(pars)) if what not in ("sample", "time_sample") else None

            def read(like):
                if what == "per_detector":
                    return {q: v for q, v in like.compute_per_detector_log_likelihood().items() if q.endswith("log_likelihood")}
                if what == "sample":
                    br.seed(seed)
                    return dict(like.generate_posterior_sample_from_marginalized_likelihood())
                if what == "time_sample":
                    br.seed(seed)
                    return like.generate_time_sample_from_marginalized_likelihood()
                return getattr(like, what)()

            def fresh():
                f = copy.deepcopy(self.pristine)
                f.parameters = dict(pars)
                return read(f)

            self.check(f"{what}({k})", lambda: read(like), fresh)
            self.probe("repeated")
            if self.hit:
                like.parameters = dict(pars)
            elif what != "sample":
                bad = {q: (v, like.parameters.get(q)) for q, v in pars.items() if like.parameters.get(q) != v}
                if bad:
                    raise Mismatch("parameters-changed", f"{what} left the parameters changed: {bad}")
            if what in ("sample", "time_sample"):
                like.parameters = dict(pars)
        elif p < 0.88:
            # another likelihood that shares waveform generator and data
            if self.kind == "gwl":
                import bilby

                if self.other is None:
                    self.other = bilby.gw.likelihood.GravitationalWaveTransient(
                        self.like.interferometers, self.like.waveform_generator, priors=gw_priors())
                pars = dict(self.psets[r.randrange(6)])
                pars.update(ra=1.1, dec=0.2, geocent_time=2.0)
                self.other.parameters = pars
                self.guarded(self.other.log_likelihood_ratio, "shared use")
                self.log.append("another likelihood sharing the generator evaluated")
        elif p < 0.94:
            # the generator used directly in between
            k = r.randrange(6)
            pars = {q: self.psets[k][q] for q in ("luminosity_distance", "tilt", "phase")}
            if self.kind == "relbin":
                pars["fiducial"] = r.choice([0, 1])
            if self.kind != "roq":
                self.guarded(lambda: self.like.waveform_generator.frequency_domain_strain(pars), "generator")
                self.log.append(f"waveform generator called directly ({k})")
        else:
            self.like = pickle_copy(self.like) if r.random() < 0.5 else copy.deepcopy(self.like)
            self.other = None
            self.log.append("likelihood copied")
            self.probe("copied")


class RelBin(GWL):
    kind = "relbin"


class ROQ(GWL):
    kind = "roq"


WORLDS = {"wg": WG, "psd": PSD, "ifo": IFO, "gwl": GWL, "relbin": RelBin, "roq": ROQ}


def body(plan, root):
    def run(s):
        import logging

        logging.getLogger("bilby").setLevel(logging.CRITICAL)
        s.enabled = False
        w = WORLDS[plan["mode"]](s, plan, root)
        bad = None
        try:
            w.start()
            w.run()
        except Mismatch as e:
            bad = [e.sig, e.msg]
        s.enabled = False
        from sim import interrupt

        interrupt.stop()
        return {"bad": bad, "log": w.log, "probes": w.probes, "edited": w.edited}

    return run


def execute(plan, ctx):
    mode = plan["mode"]
    kw = {"line_prefixes": PREFIX} if plan["faults"] else {}
    out = ctx.run(body(plan, ctx.root), plan["faults"], tag="history", cpu=60, **kw)
    if out["end"] != "ok":
        raise Violation(f"failed:{mode}", f"{mode}: {out['end']} {out.get('type')} {out.get('msg')} {out.get('site')}")
    v = out["value"]
    ctx.probes[mode] += 1
    for k, n in v["probes"].items():
        ctx.probes[k] += n
    if v["bad"]:
        sig, msg = v["bad"]
        raise Violation(f"{sig}:{mode}" if sig != "edited-waveform" else sig,
                        f"{mode}: {msg}; history: {' | '.join(v['log'][-14:])}")
    ctx.note(mode, len(v["log"]), v["log"][-1] if v["log"] else "")
    ctx.nontrivial = len(v["log"]) > 1
