"""Workloads driven through bilby's public API."""
import signal

import numpy as np

import bilby
from bilby.core.likelihood import Likelihood

from . import clock, fs, state as st


def like_point():
    """One likelihood evaluation = one scheduling/fault point of the simulation."""
    s = st.S
    if s is None:
        return
    n = s.tick("like")
    clock.advance(getattr(s, "like_cost", 0.01))
    cap = getattr(s, "like_cap", None)
    if cap is not None and n > cap and not s.in_worker:
        raise NoProgress(f"more than {cap} likelihood evaluations")
    for f in s.due("like", n):
        s.fire(f, f"like {n}")
        do = f["do"]
        if do == "signal":
            fs.deliver(f.get("signum", signal.SIGTERM))
        elif do == "crash":
            fs.crash()
        elif do == "raise":
            raise SimulatedFailure("simulated likelihood failure")
        elif do == "oserror":
            raise OSError(5, "simulated")


class SimulatedFailure(Exception):
    pass


class NoProgress(BaseException):
    pass


class GaussLikelihood(Likelihood):
    """Correlated Gaussian in n dimensions; pure function of its parameters."""

    def __init__(self, ndim, rho=0.3, noise=-1.5):
        self.ndim, self.rho, self.noise = ndim, rho, noise
        super().__init__(parameters={f"x{k}": None for k in range(ndim)})
        cov = np.full((ndim, ndim), rho) + (1 - rho) * np.eye(ndim)
        self.icov = np.linalg.inv(cov)
        self.lognorm = -0.5 * (np.linalg.slogdet(cov)[1] + ndim * np.log(2 * np.pi))

    def value(self, point):
        x = np.array([point[f"x{k}"] for k in range(self.ndim)], dtype=float)
        return float(self.lognorm - 0.5 * x @ self.icov @ x)

    def log_likelihood(self):
        like_point()
        return self.value(self.parameters)

    def noise_log_likelihood(self):
        return self.noise


def gauss_priors(ndim, width=5.0, offset=0.0):
    pri = bilby.core.prior.PriorDict()
    for k in range(ndim):
        pri[f"x{k}"] = bilby.core.prior.Uniform(-width, width + offset, f"x{k}")
    return pri


def seed_all(n):
    bilby.core.utils.random.seed(int(n) % (2 ** 31))
    np.random.seed(int(n) % (2 ** 31))


def reset_cli():
    from bilby.core.utils import command_line_args

    command_line_args.clean = False
    command_line_args.bilby_test_mode = False
