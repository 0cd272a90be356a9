"""Shared pieces of the bilby-mcmc checks: lineage-tagged workload, checkpoint reader."""
import glob
import math
import os

import numpy as np

import bilby
from bilby.core.likelihood import Likelihood
from bilby.bilby_mcmc import proposals as bprop

from sim import workloads as W


class SlopeLikelihood(Likelihood):
    """logL = slope*x - 0.1*x^2; `tag` takes no part: it names the lineage of a state."""

    def __init__(self, slope=1.0):
        self.slope = slope
        super().__init__(parameters=dict(x=None, tag=None))

    def value(self, p):
        x = float(p["x"])
        return self.slope * x - 0.1 * x * x

    def log_likelihood(self):
        W.like_point()
        return self.value(self.parameters)

    def noise_log_likelihood(self):
        return -0.25


def priors(width=2.0):
    pri = bilby.core.prior.PriorDict()
    pri["x"] = bilby.core.prior.TruncatedGaussian(mu=0.4, sigma=1.5, minimum=-width, maximum=width, name="x")
    pri["tag"] = bilby.core.prior.Uniform(0, 1, "tag")
    return pri


class Flip(bprop.BaseProposal):
    """x -> -x (an involution): the chain's own history shows what was proposed."""

    def propose(self, chain):
        s = chain.current_sample
        s["x"] = -s["x"]
        return s, 0


class Walk(bprop.BaseProposal):
    """x -> x + d, |d| < STEP: consecutive states of a lineage are always close."""

    STEP = 0.2

    def propose(self, chain):
        from bilby.core.utils import random

        s = chain.current_sample
        s["x"] = s["x"] + random.rng.uniform(-self.STEP, self.STEP)
        return s, 0


def cycle(kind, pri):
    return bprop.ProposalCycle([{"flip": Flip, "walk": Walk}[kind](pri)])


def small_blocks(n):
    """Let chains grow their storage in blocks of n states instead of 100000 (cheaper, and crosses block ends)."""
    import inspect

    from bilby.bilby_mcmc import chain

    real = chain.Chain.__init__
    if "block_length" not in inspect.signature(real).parameters:
        return

    def init(self, *args, **kw):
        if len(args) < 9:
            kw.setdefault("block_length", n)
        real(self, *args, **kw)

    chain.Chain.__init__ = init


def read_resume(path):
    """Everything a bilby-mcmc checkpoint records, as plain data (None if there is none)."""
    if not os.path.exists(path):
        return None
    import dill

    with open(path, "rb") as f:
        pt = dill.load(f)
    return plain(pt)


def plain(pt):
    chains = []
    for smp in pt.sampler_list:
        c = smp.chain
        chains.append({"T": int(smp.Tindex), "E": int(smp.Eindex), "beta": float(smp.beta),
                       "keys": list(c.keys), "position": int(c.position),
                       "rows": np.array(c._chain_array[:c.position + 1]).tolist(),
                       "current": [float(v) for v in c.current_sample.list],
                       "accepted": int(smp.accepted), "rejected": int(smp.rejected),
                       "pt": (int(smp.pt_accepted), int(smp.pt_rejected))})
    return {"chains": chains, "sampling_time": float(pt.sampling_time),
            "position": int(pt.position)}


def row_dict(ch, row):
    return dict(zip(ch["keys"], row))


def check_rows(chains, like, pri, fail, first=0):
    """Every stored state carries its own likelihood and prior and lies inside the prior."""
    from bilby.bilby_mcmc.utils import LOGLKEY, LOGPKEY

    for ch in chains:
        for j, row in enumerate(ch["rows"][first:]):
            d = row_dict(ch, row)
            pt = {k: v for k, v in d.items() if k in pri}
            lp = float(pri.ln_prob(pt))
            if not math.isfinite(lp):
                fail("outside-prior", f"chain T{ch['T']}E{ch['E']} state {j + first} {pt} lies outside the prior")
            if abs(lp - d[LOGPKEY]) > 1e-9:
                fail("wrong-prior", f"chain T{ch['T']}E{ch['E']} state {j + first} records log prior {d[LOGPKEY]}, its "
                     f"log prior is {lp}")
            if abs(like.value(pt) - d[LOGLKEY]) > 1e-9:
                fail("wrong-likelihood", f"chain T{ch['T']}E{ch['E']} state {j + first} records log likelihood "
                     f"{d[LOGLKEY]}, its log likelihood is {like.value(pt)}")
