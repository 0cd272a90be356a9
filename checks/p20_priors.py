"""P20: priors with shared state give every caller consistent joint values.

Real code: PriorDict, ConditionalPriorDict, DirichletPriorDict, joint priors
(multivariate Gaussian, HEALPix) and conditional priors.  A seeded history of
complete, partial, failing and interrupted requests, changes of entries, copies,
pickles and requests in worker processes is applied to one prior set; the
oracles are a fresh set with the current entries and closed forms.
"""
import copy
import math
import pickle

from checks.p17_caches import Mismatch, World, brief, same
from sim.runner import Violation

PID = "P20"
TIERS = {"quick": {"runs": 4000, "budget": 34, "minimise": 40, "min_runs": 60},
         "thorough": {"runs": 400000, "budget": 760, "minimise": 60, "min_runs": 600}}
REAL = ["PriorDict, ConditionalPriorDict, DirichletPriorDict, JointPrior, MultivariateGaussianDist, HealPixMapPriorDist",
        "conditional priors of bilby.core.prior and bilby.gw.prior"]
STUB = ["sky map file", "number of draws of a constraint normalisation (fewer)", "condition functions", "signal source",
        "worker scheduling"]
REQUIRED_PROBES = ["plain", "conditional", "dirichlet", "joint", "healpix", "partial", "failed", "interrupted", "copied", "changed",
                   "worker", "batch", "permuted", "constrained"]
ASSUMPTIONS = ["entries are changed through the prior set, not by editing attributes of a prior",
               "a sample that is evaluated holds every non-fixed parameter that its parameters depend on",
               "condition functions return the same keys for every value",
               "a change that was interrupted is made again"]
PREFIX = ("/bilby/core/prior/", "/bilby/gw/prior.py")
MODES = ["conditional", "plain", "conditional", "dirichlet"]


def gen(rng, tier, i):
    mode = MODES[i % 4] if i < 16 else rng.choice(MODES)
    ops = [[rng.random(), rng.randrange(10 ** 6)] for _ in range(rng.randint(3, 40))]
    faults = []
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2, 4])):
            faults.append({"point": "line", "at": rng.randint(0, rng.choice([60, 400, 2500])),
                           "do": rng.choice(["memoryerror", "memoryerror", "signal"]), "signum": 2})
    return {"mode": mode, "ops": ops, "faults": faults, "conf": rng.randrange(10 ** 6), "sched": rng.randrange(10 ** 6),
            "_lists": ["ops", "faults"]}


def preload():
    import healpy  # noqa
    import dill  # noqa
    import bilby.gw.prior  # noqa
    import pandas  # noqa
    import matplotlib.cbook  # noqa
    import scipy.integrate  # noqa


# -- condition functions (module level, so that pickle finds them) ---------------
def bad(t):
    import numpy as np

    return bool(np.any(np.asarray(t) > 1e5))


def make_cond(kind, deps):
    """A condition function with the given argument names."""
    name = f"cf_{kind}_{'_'.join(deps)}"
    if name not in globals():
        args = ", ".join(deps)
        total = " + ".join(f"abs({d})" for d in deps)
        body = {"u": "dict(minimum=reference_params['minimum'], maximum=reference_params['minimum'] + 1 + t)",
                "p": "dict(alpha=1 + t)", "d": "dict(peak=2 * t)"}[kind]
        code = (f"def {name}(reference_params, {args}):\n    t = {total}\n    if bad(t):\n"
                f"        raise RuntimeError('condition failed')\n    return {body}\n")
        exec(code, globals())
    return globals()[name]


def to_k(sample):
    out = dict(sample)
    if "u0" in out:
        out["k"] = out["u0"]
    return out


def dep_total(e, sample):
    import numpy as np

    return sum(np.abs(np.asarray(sample[d], dtype=float)) for d in e["deps"])


class Priors(World):
    def start(self):
        import numpy as np
        import bilby
        from bilby.core import prior as bp
        from bilby.gw import prior as gp

        self.np, self.bilby, self.bp, self.gp = np, bilby, bp, gp
        if hasattr(bp.PriorDict, "_estimate_normalization") and not hasattr(bp.PriorDict, "_vf_full"):
            full = bp.PriorDict._vf_full = bp.PriorDict._estimate_normalization
            bp.PriorDict._estimate_normalization = lambda self, keys, *a: full(self, keys, 80, 400)
        import healpy

        npix = 48
        rs = np.random.RandomState(3)
        maps = [rs.rand(npix), rs.uniform(8, 12, npix), rs.uniform(1, 2, npix), np.ones(npix) * 1e-2]
        healpy.read_map = lambda f, field=0, **kw: [m.copy() for m in maps] if np.ndim(field) else maps[0].copy()
        self.mode = self.plan["mode"]
        r = self.r
        self.entries = []           # list of [key, spec], in dictionary order
        self.groups = {}
        self.n = 0
        if self.mode == "dirichlet":
            self.ndim = r.choice([3, 4])
        else:
            self.setup()
        self.p = self.build()
        self.old = None

    # -- specification ---------------------------------------------------------
    def new_key(self, stem):
        self.n += 1
        return f"{stem}{self.n}"

    def setup(self):
        r = self.r
        e = [["u0", {"kind": "uni", "lo": 0.0, "hi": 1.0}]]
        for _ in range(r.randint(0, 2)):
            e.append([self.new_key("g"), {"kind": "gauss", "mu": r.uniform(-2, 2), "sigma": r.uniform(0.5, 2)}])
        for _ in range(r.randint(0, 2)):
            e.append([self.new_key("f"), {"kind": "delta", "value": round(r.uniform(-3, 3), 2)}])
        for _ in range(r.choice([0, 1, 1, 2])):
            e += self.new_group()
        if self.mode == "conditional":
            free = [k for k, s in e]
            for _ in range(r.choice([0, 1, 2, 3, 4])):
                kind = r.choice(["cuni", "cuni", "cuni", "cpow", "cdelta"])
                k = self.new_key("c")
                e.append([k, {"kind": kind, "deps": sorted(r.sample(free, min(len(free), r.choice([1, 1, 2])))), "lo": 0.5}])
                free.append(k)
            if r.random() < 0.2:
                e.append(["chi_1", {"kind": "uni", "lo": -0.9, "hi": 0.9}])
                e.append(["chi_1_in_plane", {"kind": "chi", "deps": ["chi_1"]}])
        self.conv = r.random() < 0.5
        if self.conv:
            e.append(["k", {"kind": "constraint", "hi": r.choice([0.9, 0.5, 0.2])}])
        r.shuffle(e)
        self.entries = e

    def new_group(self):
        r = self.r
        g = self.new_key("G")
        if r.random() < 0.2:
            names = [self.new_key("ra"), self.new_key("dec")] + ([self.new_key("dist")] if r.random() < 0.5 else [])
            self.groups[g] = {"kind": "hp", "names": names}
        else:
            m = r.choice([2, 2, 3])
            names = [self.new_key("m") for _ in range(m)]
            nm = r.choice([1, 1, 2])
            a = self.np.random.RandomState(r.randrange(10 ** 6)).normal(size=(nm, m, m))
            self.groups[g] = {"kind": "mvg", "names": names, "mus": [[10.0 * i + q for i in range(m)] for q in range(nm)],
                              "covs": [(x @ x.T + self.np.eye(m)).tolist() for x in a],
                              "bounds": [[10.0 * i - 4, 10.0 * i + 5] for i in range(m)] if r.random() < 0.5 else None}
        self.probe("healpix" if self.groups[g]["kind"] == "hp" else "joint")
        return [[n, {"kind": "joint", "group": g}] for n in names]

    def make_dist(self, g):
        d = self.groups[g]
        if d["kind"] == "hp":
            names = list(d["names"])
            if len(names) == 3:
                return self.gp.HealPixMapPriorDist("map.fits", names=names, distance=True, bounds=[
                    [0, 2 * math.pi], [-math.pi / 2, math.pi / 2], [1, 20]])
            return self.gp.HealPixMapPriorDist("map.fits", names=names)
        return self.bp.MultivariateGaussianDist(
            list(d["names"]), nmodes=len(d["mus"]), mus=[list(m) for m in d["mus"]],
            covs=[self.np.array(c) for c in d["covs"]], bounds=d["bounds"])

    def make(self, key, e, dists):
        bp = self.bp
        k = e["kind"]
        if k == "uni":
            return bp.Uniform(e["lo"], e["hi"], key)
        if k == "gauss":
            return bp.Gaussian(e["mu"], e["sigma"], key)
        if k == "delta":
            return bp.DeltaFunction(e["value"], key)
        if k == "constraint":
            return bp.Constraint(0, e["hi"], key)
        if k == "joint":
            if e["group"] not in dists:
                dists[e["group"]] = self.make_dist(e["group"])
            cls = self.gp.HealPixPrior if self.groups[e["group"]]["kind"] == "hp" else bp.MultivariateGaussian
            return cls(dists[e["group"]], key)
        if k == "cuni":
            return bp.ConditionalUniform(make_cond("u", e["deps"]), key, minimum=e["lo"], maximum=2)
        if k == "cpow":
            return bp.ConditionalPowerLaw(make_cond("p", e["deps"]), key, minimum=1, maximum=2, alpha=1)
        if k == "cdelta":
            return bp.ConditionalDeltaFunction(make_cond("d", e["deps"]), key, peak=1)
        if k == "chi":
            return self.gp.ConditionalChiInPlane(0, 0.95, key)
        raise KeyError(k)

    def build(self):
        if self.mode == "dirichlet":
            p = self.bp.DirichletPriorDict(n_dim=self.ndim, label="d")
            for k, e in self.entries:
                p[k] = self.make(k, e, {})
            return p
        dists = {}
        cls = self.bp.ConditionalPriorDict if self.mode == "conditional" else self.bp.PriorDict
        return cls({k: self.make(k, e, dists) for k, e in self.entries},
                   **({"conversion_function": to_k} if self.conv else {}))

    def obj(self):
        return self.p

    # -- closed forms -----------------------------------------------------------
    def spec(self, key):
        return dict(self.entries).get(key, {"kind": "dirichlet"})

    def order(self, keys):
        """Keys sorted so that what they depend on comes first."""
        done, left = [], list(keys)
        while left:
            for k in left:
                if all(d in done or d not in left for d in self.spec(k).get("deps", [])):
                    done.append(k)
                    left.remove(k)
                    break
        return done

    def fixed_values(self, sample):
        """The sample with the values of the fixed parameters that are not in it."""
        out = dict(sample)
        for k in self.order([k for k, e in self.entries]):
            e = self.spec(k)
            if k in out:
                continue
            if e["kind"] == "delta":
                out[k] = e["value"]
            elif e["kind"] == "cdelta" and all(d in out for d in e["deps"]):
                out[k] = 2 * dep_total(e, out)
        return out

    def true_ln_prob(self, sample):
        """Log density of a complete sample, or None where there is no closed form here."""
        np = self.np
        from scipy.stats import multivariate_normal

        full, total = self.fixed_values(sample), 0.0
        with np.errstate(all="ignore"):
            for k, v in sample.items():
                e, v = self.spec(k), np.asarray(v, dtype=float)
                kind = e["kind"]
                if kind == "uni":
                    total = total + np.where((v >= e["lo"]) & (v <= e["hi"]), -math.log(e["hi"] - e["lo"]), -np.inf)
                elif kind == "gauss":
                    total = total - 0.5 * ((v - e["mu"]) / e["sigma"]) ** 2 - math.log(e["sigma"] * math.sqrt(2 * math.pi))
                elif kind == "cuni":
                    t = dep_total(e, full)
                    total = total + np.where((v >= e["lo"]) & (v <= e["lo"] + 1 + t), -np.log(1 + t), -np.inf)
                elif kind == "cpow":
                    a = 1 + dep_total(e, full)
                    total = total + np.where((v >= 1) & (v <= 2), a * np.log(v) + np.log((a + 1) / (2 ** (a + 1) - 1)), -np.inf)
                elif kind == "joint":
                    g = self.groups[e["group"]]
                    if any(n not in sample for n in g["names"]):
                        return None
                    if k != g["names"][0]:
                        continue
                    if g["kind"] == "hp":
                        return None
                    x = np.stack([np.asarray(sample[n], dtype=float) for n in g["names"]], axis=-1)
                    lp = np.logaddexp.reduce([multivariate_normal(m, c).logpdf(x) for m, c in zip(g["mus"], g["covs"])], axis=0)
                    if g["bounds"]:
                        b = np.array(g["bounds"])
                        lp = np.where(np.all((x >= b[:, 0]) & (x <= b[:, 1]), axis=-1), lp, -np.inf)
                    total = total + lp
                else:
                    return None
            if self.conv and "u0" in sample:
                hi = self.spec("k").get("hi")
                if hi is not None:
                    total = np.where((np.asarray(sample["u0"]) > 0) & (np.asarray(sample["u0"]) < hi), total, -np.inf)
        return total

    def true_rescale(self, units):
        """Values of a complete request of unit-cube points, None where they need random numbers."""
        np = self.np
        from scipy.stats import norm

        out = {}
        for k in self.order([k for k, e in self.entries]):
            e = self.spec(k)
            u = units.get(k)
            kind = e["kind"]
            if kind == "delta":
                out[k] = e["value"]
            elif kind == "cdelta":
                out[k] = 2 * dep_total(e, out)
            elif u is None:
                continue
            elif kind == "uni":
                out[k] = e["lo"] + u * (e["hi"] - e["lo"])
            elif kind == "gauss":
                out[k] = norm(e["mu"], e["sigma"]).ppf(u)
            elif kind == "cuni":
                out[k] = e["lo"] + u * (1 + dep_total(e, out))
            elif kind == "cpow":
                a = 2 + dep_total(e, out)
                out[k] = (1 + u * (2 ** a - 1)) ** (1 / a)
            elif kind == "joint":
                g = self.groups[e["group"]]
                if g["kind"] == "hp" or len(g["mus"]) > 1 or any(n not in units for n in g["names"]):
                    return None
                if k not in out:
                    x = np.atleast_1d(self.make_dist(e["group"]).rescale([units[n] for n in g["names"]]))
                    for n, v in zip(g["names"], x):
                        out[n] = v
            else:
                return None
        return {k: out[k] for k in units}

    # -- requests ----------------------------------------------------------------
    def free_keys(self, fixed=False):
        if self.mode == "dirichlet":
            return list(self.p.keys())
        return [k for k, e in self.entries if e["kind"] != "constraint" and (fixed or "delta" not in e["kind"])]

    def shuffled(self, keys):
        keys = list(keys)
        if self.r.random() < 0.6:
            self.r.shuffle(keys)
            self.probe("permuted")
        return keys

    def a_sample(self, n=None):
        """A complete sample, drawn from a fresh set, some of it moved out of the support."""
        r, np = self.r, self.np
        self.bilby.core.utils.random.seed(r.randrange(10 ** 6))
        p = self.build()
        out = p.sample(size=n)
        keys = self.free_keys(fixed=r.random() < 0.2)
        out = {k: out[k] for k in keys}
        for k in keys:
            if r.random() < 0.12:
                shift = r.choice([-30.0, 5.0, 0.4])
                if n is None:
                    out[k] = float(out[k]) + shift
                else:
                    out[k] = np.array(out[k])
                    out[k][r.randrange(n)] += shift
        return out

    def as_dict(self, keys, values):
        return dict(zip(keys, values)) if len(values) == len(keys) else list(values)

    def request(self, p, fresh, what, args):
        """-> functions making the same request of both sets."""
        if what == "sample":
            size = args
            return (lambda: p().sample(size=size)), (lambda: fresh().sample(size=size))
        if what == "subset":
            keys, size = args
            return (lambda: p().sample_subset(list(keys), size=size)), (lambda: fresh().sample_subset(list(keys), size=size))
        if what == "constrained":
            keys, size = args
            return (lambda: p().sample_subset_constrained(list(keys), size=size)), \
                (lambda: fresh().sample_subset_constrained(list(keys), size=size))
        if what == "rescale":
            keys, theta = args
            return (lambda: self.as_dict(keys, p().rescale(list(keys), list(theta)))), \
                (lambda: self.as_dict(keys, fresh().rescale(list(keys), list(theta))))
        if what == "ln_prob":
            sample, axis = args
            return (lambda: p().ln_prob(dict(sample), axis=axis, normalized=False)), \
                (lambda: fresh().ln_prob(dict(sample), axis=axis, normalized=False))
        if what == "cdf":
            return (lambda: p().cdf(dict(args))), (lambda: fresh().cdf(dict(args)))
        raise KeyError(what)

    def step(self, x):
        r = self.r
        if x < 0.62:
            self.a_request(r.random())
        elif x < 0.72:
            self.leftover()
        elif x < 0.84:
            self.copies()
        elif x < 0.95:
            self.change()
        else:
            self.worker()

    def closed(self, keys):
        """The keys with all non-fixed parameters they depend on."""
        out = list(keys)
        for k in out:
            for d in self.spec(k).get("deps", []):
                if d not in out:
                    out.append(d)
            if self.mode == "dirichlet" and k.startswith("d"):
                out += [f"d{i}" for i in range(int(k[1:])) if f"d{i}" not in out]
        return out

    def a_request(self, x):
        r, np = self.r, self.np
        full = True
        what = r.choice(["sample", "subset", "constrained", "rescale", "rescale", "ln_prob", "ln_prob", "ln_prob", "cdf"])
        if what == "sample":
            args = r.choice([None, None, 1, 3, 7])
        elif what in ("subset", "constrained"):
            keys = self.free_keys(fixed=r.random() < 0.3)
            if r.random() < 0.6:
                keys = [k for k in keys if r.random() < 0.6] or keys[:1]
                if r.random() < 0.8:
                    keys = self.closed(keys)
                full = False
                self.probe("partial")
            if what == "constrained" and not keys:
                return
            args = (self.shuffled(keys), r.choice([None, None, 1, 4]))
        elif what == "rescale":
            keys = self.shuffled(self.free_keys())
            if r.random() < 0.25 and len(keys) > 1:
                keys = keys[:r.randrange(1, len(keys))]
                full = False
                self.probe("partial")
            args = (keys, [r.uniform(0.01, 0.99) for _ in keys])
            if self.mode == "conditional" and r.random() < 0.1 and any(e["kind"] == "cuni" for _, e in self.entries):
                args = (args[0], [1e6] * len(keys))     # a condition that fails half-way
                self.probe("failed")
        else:
            n = r.choice([None, None, None, 3])
            sample = self.a_sample(n)
            keys = self.shuffled(sample)
            if what == "cdf":
                keys = [k for k in keys if self.spec(k)["kind"] not in ("joint", "dirichlet")]
                keys = self.closed(keys)
                if not keys or not all(k in sample for k in keys):
                    return
                if any(self.spec(k)["kind"] == "joint" for k in keys):
                    return
            elif r.random() < 0.25:
                keys = self.closed([k for k in keys if r.random() < 0.6])
                keys = [k for k in keys if k in sample]
                full = False
                self.probe("partial")
            if not keys:
                return
            sample = {k: sample[k] for k in keys}
            if r.random() < 0.08:
                sample[r.choice(keys)] = r.choice(["text", 1e6])
                full = False
                self.probe("failed")
            if n is not None:
                self.probe("batch")
            args = sample if what == "cdf" else (sample, None if n is None else 0)
        self.compare(lambda: self.p, what, args, full)

    def compare(self, p, what, args, full):
        np = self.np
        f, g = self.request(p, self.build, what, args)
        seed = self.r.randrange(10 ** 6)

        def seeded(h):
            def call():
                self.bilby.core.utils.random.seed(seed)
                return h()
            return call
        label = f"{what}({brief(args)})"
        with np.errstate(all="ignore"):
            got = self.check(label, seeded(f), seeded(g))
        if got is None or self.hit or not full or self.mode == "dirichlet":
            return
        if what == "rescale":
            ref = self.true_rescale(dict(zip(*args)))
            if ref is not None and isinstance(got, dict) and max(args[1]) < 1 and not same(got, ref, 1e-7):
                raise Mismatch("value:rescale-form", f"{label} gave {brief(got)}, expected {brief(ref)}")
            if not isinstance(got, dict):
                raise Mismatch("value:rescale-number", f"{label} gave {len(got)} values")
        elif what == "ln_prob":
            ref = self.true_ln_prob(args[0])
            if ref is not None and not same(got, ref, 1e-7):
                raise Mismatch("value:ln_prob-form", f"{label} gave {brief(got)}, expected {brief(ref)}")
        elif what == "sample":
            ref = self.true_ln_prob({k: got[k] for k in self.free_keys()})
            if ref is not None and not np.all(np.isfinite(ref)):
                raise Mismatch("value:sample-support", f"{label} gave a sample outside the support: {brief(got)}")

    def leftover(self):
        """An incomplete or direct request of a single prior; only what comes later is compared."""
        r = self.r
        keys = [k for k, e in self.entries if e["kind"] == "joint"] or self.free_keys()
        k = r.choice(keys)
        p = self.old if self.old is not None and k in self.old and r.random() < 0.4 else self.p
        v = r.uniform(0.1, 0.9)
        f = r.choice([lambda: p[k].sample(size=r.choice([1, 5])), lambda: p[k].rescale(v), lambda: p[k].ln_prob(v),
                      lambda: p[k].prob(v), lambda: p.sample_subset([k], size=3)])
        try:
            self.guarded(f, f"direct request of {k}")
            self.log.append(f"direct request of {k}")
        except Exception as e:
            self.log.append(f"direct request of {k} -> {type(e).__name__}")
        self.probe("partial")

    def copies(self):
        r = self.r
        import dill

        how = r.choice(["copy", "deepcopy", "pickle", "dill"])
        f = {"copy": lambda: self.p.copy(), "deepcopy": lambda: copy.deepcopy(self.p),
             "pickle": lambda: pickle.loads(pickle.dumps(self.p)), "dill": lambda: dill.loads(dill.dumps(self.p))}[how]
        try:
            # constructing a prior is not interrupted here
            new, hit = (f(), False) if how == "copy" else self.guarded(f, how)
        except Exception as e:
            raise Mismatch(f"error:{how}", f"{how} failed: {e!r}")
        self.log.append(how)
        if not hit:
            self.old, self.p = self.p, new
            self.probe("copied")

    def change(self):
        r = self.r
        if self.mode == "dirichlet":
            k = self.new_key("x")
            e = {"kind": "uni", "lo": 0.0, "hi": r.uniform(1, 3)}
            self.entries.append([k, e])
            new = self.make(k, e, {})
            self.set(f"add {k}", lambda: self.p.__setitem__(k, new))
            self.probe("changed")
            return
        what = r.choice(["replace", "replace", "add", "remove", "kind", "group", "constraint"])
        used = {d for _, e in self.entries for d in e.get("deps", [])}
        plain = [i for i, (k, e) in enumerate(self.entries) if e["kind"] in ("uni", "gauss", "delta") and k not in ("u0", "chi_1")]
        how = r.choice(["item", "update"])

        def put(items):
            if how == "item":
                for kk, v in items.items():
                    self.p[kk] = v
            else:
                self.p.update(items)
        if what == "replace" and plain:
            i = r.choice(plain)
            k = self.entries[i][0]
            e = r.choice([{"kind": "uni", "lo": -1.0, "hi": r.uniform(1, 3)}, {"kind": "delta", "value": r.choice([-1.5, 2.5])}])
            self.entries[i][1] = e
            new = self.make(k, e, {})
            self.set(f"{how} {k}", lambda: put({k: new}))
        elif what == "add":
            k = self.new_key("a")
            if self.mode == "conditional" and r.random() < 0.7:
                e = {"kind": "cuni", "deps": ["u0"], "lo": 0.5}
            else:
                e = {"kind": "uni", "lo": 0.0, "hi": 2.0}
            self.entries.append([k, e])
            new = self.make(k, e, {})
            self.set(f"{how} {k}", lambda: put({k: new}))
        elif what == "remove":
            cand = [k for k, e in self.entries if k not in used and e["kind"] not in ("joint", "constraint") and k not in (
                "u0", "chi_1")]
            if not cand:
                return
            k = r.choice(cand)
            self.entries = [x for x in self.entries if x[0] != k]
            self.set(f"pop {k}", lambda: self.p.pop(k, None))
        elif what == "kind" and self.mode == "conditional":
            # a plain parameter becomes conditional or the other way round, the keys stay
            cand = [i for i, (k, e) in enumerate(self.entries) if k not in used and e["kind"] in ("uni", "cuni") and k != "u0"]
            if not cand:
                return
            i = r.choice(cand)
            k, e = self.entries[i]
            e = {"kind": "cuni", "deps": ["u0"], "lo": 0.5} if e["kind"] == "uni" else {"kind": "uni", "lo": 0.5, "hi": 2.5}
            self.entries[i][1] = e
            new = self.make(k, e, {})
            self.set(f"{how} {k}", lambda: put({k: new}))
        elif what == "group":
            gs = [g for g in {e["group"] for _, e in self.entries if e["kind"] == "joint"} if self.groups[g]["kind"] == "mvg"]
            if not gs:
                return
            g = r.choice(sorted(gs))
            d = self.groups[g]
            d["mus"] = [[v + 0.5 for v in m] for m in d["mus"]]
            dists = {}
            items = {k: self.make(k, e, dists) for k, e in self.entries if e.get("group") == g}
            self.set(f"{how} group {g}", lambda: put(items))
        elif what == "constraint" and self.conv:
            self.p_norm()
            i = [k for k, _ in self.entries].index("k")
            self.entries[i][1] = {"kind": "constraint", "hi": r.choice([0.9, 0.5, 0.2])}
            new = self.make("k", self.entries[i][1], {})
            self.set(f"{how} constraint {self.entries[i][1]['hi']}", lambda: put({"k": new}))
            self.p_norm()
        else:
            return
        self.probe("changed")

    def p_norm(self):
        """The normalised density follows the constraint that is in force."""
        if not hasattr(self.bp.PriorDict, "_vf_full") or any(e["kind"] == "cdelta" for _, e in self.entries):
            return      # a conditional delta function can only be used with what it depends on
        hi = self.spec("k")["hi"]
        try:
            got, hit = self.guarded(lambda: self.p.prob({"u0": 0.1}), "prob(u0)")
        except Exception as e:
            raise Mismatch("error:prob", f"prob of a constrained parameter failed: {e!r}")
        self.log.append(f"prob(u0) with u0 < {hi}")
        self.probe("constrained")
        if not hit and not 0.6 / hi < got < 1.6 / hi:
            raise Mismatch("value:normalisation", f"prob of u0 limited to {hi} is {got}")

    def worker(self):
        """The same request, made in workers that got the prior set by pickling."""
        r = self.r
        import multiprocessing

        keys = self.shuffled(self.free_keys())
        points = [[r.uniform(0.01, 0.99) for _ in keys] for _ in range(r.choice([1, 3, 6]))]
        seed = r.randrange(10 ** 6)
        jobs = [(self.p, keys, u, seed) for u in points]
        fresh = self.build()
        try:
            ref = [rescale_job((fresh, keys, u, seed)) for u in points]
        except RuntimeError:
            return      # a condition refuses one of the points
        try:
            with multiprocessing.Pool(r.choice([1, 2, 3])) as pool:
                got = pool.map(rescale_job, jobs, chunksize=r.choice([1, 2]))
        except Exception as e:
            raise Mismatch("error:worker", f"rescaling in a worker failed: {e!r}")
        self.log.append("worker")
        self.probe("worker")
        if not same(got, ref):
            raise Mismatch("value:worker", f"rescale({keys}) in a worker gave {brief(got)}, here a fresh set gives {brief(ref)}")


def rescale_job(job):
    import bilby

    p, keys, u, seed = job
    bilby.core.utils.random.seed(seed)
    return [float(v) for v in p.rescale(list(keys), list(u))]


def body(plan, root):
    def run(s):
        import logging

        logging.getLogger("bilby").setLevel(logging.CRITICAL)
        s.enabled = False
        w = Priors(s, plan, root)
        bad = None
        try:
            w.start()
            w.run()
        except Mismatch as e:
            bad = [e.sig, e.msg]
        s.enabled = False
        from sim import interrupt

        interrupt.stop()
        return {"bad": bad, "log": w.log, "probes": w.probes}

    return run


def execute(plan, ctx):
    mode = plan["mode"]
    kw = {"line_prefixes": PREFIX} if plan["faults"] else {}
    out = ctx.run(body(plan, ctx.root), plan["faults"], tag="history", cpu=60, **kw)
    if out["end"] != "ok":
        raise Violation(f"failed:{mode}", f"{mode}: {out['end']} {out.get('type')} {out.get('msg')} {out.get('site')}")
    v = out["value"]
    ctx.probes[mode] += 1
    for k, n in v["probes"].items():
        ctx.probes[k] += n
    if v["bad"]:
        sig, msg = v["bad"]
        raise Violation(f"{sig}:{mode}", f"{mode}: {msg}; history: {' | '.join(v['log'][-10:])}")
    ctx.note(mode, len(v["log"]), v["log"][-1] if v["log"] else "")
    ctx.nontrivial = len(v["log"]) > 1
