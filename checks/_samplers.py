"""Small configurations of every installed sampler, shared by several checks."""
import glob
import os

from sim import workloads as W

#: sampler -> (kwargs drawn from a PRNG, exit code by default, checkpoint path pattern)
CHECKPOINT = {"dynesty": "out/run_resume.pickle", "bilby_mcmc": "out/run_resume.pickle",
              "ptemcee": "out/run_checkpoint_resume.pickle", "emcee": "out/emcee_run/sampler.pickle",
              "zeus": "out/zeus_run/sampler.pickle", "kombine": "out/kombine_run/sampler.pickle"}
EXIT = {"dynesty": 130, "bilby_mcmc": 130, "ptemcee": 77, "emcee": 130, "zeus": 130, "kombine": 130}


def config(name, rng):
    if name == "dynesty":
        return dict(sample=rng.choice(["acceptance-walk", "rwalk"]), bound="live", naccept=4, nact=1, maxmcmc=100,
                    walks=5, nlive=20, dlogz=1.0, check_point_plot=False, print_method="interval-1e9",
                    check_point_delta_t=rng.choice([0, 5, 1e6]), n_check_point=rng.choice([20, 60]))
    if name == "bilby_mcmc":
        # tempered runs go on for the thousand steps the temperatures adapt in: a checkpoint at each costs minutes
        nt = rng.choice([1, 2])
        return dict(nsamples=rng.choice([8, 20]), ntemps=nt, L1steps=rng.choice([2, 5]), L2steps=1,
                    printdt=rng.choice([0.05, 0.5] if nt == 1 else [2, 10]),
                    check_point_delta_t=rng.choice([0, 1, 1e6] if nt == 1 else [3, 20, 1e6]), burn_in_nact=1,
                    fixed_discard=0, thin_by_nact=1, fixed_tau=1, check_point_plot=False, verbose=False)
    if name == "ptemcee":
        return dict(ntemps=2, nwalkers=8, nsamples=rng.choice([40, 120]), burn_in_nact=2, thin_by_nact=1,
                    autocorr_tol=2, safety=1, autocorr_tau=1, Q_tol=5, min_tau=1, mean_logl_frac=0.5, gradient_tau=10,
                    gradient_mean_log_posterior=10, niterations_per_check=rng.choice([2, 5]), verbose=False,
                    check_point_plot=False, check_point_delta_t=rng.choice([0, 2, 1e6]))
    if name in ("emcee", "zeus"):
        return dict(nwalkers=8, iterations=rng.choice([20, 40]), burn_in_act=1, **(
            {"verbose": False} if name == "emcee" else {"progress": False, "check_walkers": False}))
    if name == "kombine":
        return dict(nwalkers=16, iterations=rng.choice([20, 40]), burn_in_act=1, update_interval=10 ** 9)
    raise KeyError(name)


def fast(name):
    """Cheaper storage for samplers that send their whole chain to the workers."""
    if name == "bilby_mcmc":
        from . import _mcmc

        _mcmc.small_blocks(50)


def mute_tqdm():
    """Progress bars print on every step; they take no part in anything checked."""
    import tqdm
    import tqdm.auto

    class Bar:
        def __init__(self, it=None, *a, **k):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def close(self):
            pass

        def update(self, n=1):
            pass

    tqdm.tqdm = tqdm.auto.tqdm = Bar


def checkpoint_file(root, name):
    return os.path.join(root, CHECKPOINT[name])


def result_files(root):
    return glob.glob(os.path.join(root, "out", "*_result.*"))


def attr(result, name):
    """A result attribute, None where the result says it does not have it."""
    try:
        return getattr(result, name)
    except ValueError:
        return None
