"""Process bootstrap: fixed environment, fixed interpreter, bilby from /repo."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_ENV = {
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "TQDM_DISABLE": "1",
}


def scratch_base():
    for cand in ("/dev/shm", "/tmp"):
        if os.path.isdir(cand) and os.access(cand, os.W_OK):
            return cand
    return "/tmp"


def ensure(argv_file):
    """Re-exec under the pinned interpreter and environment if needed."""
    want = dict(_ENV)
    want["PYTHONHASHSEED"] = os.environ.get("VERIF_HASHSEED", "0")
    cache = "/opt/bilby-cache/mpl"
    if "MPLCONFIGDIR" not in os.environ:
        if not (os.path.isdir(cache) and os.access(cache, os.W_OK)):
            cache = os.path.join(scratch_base(), f"verif-mpl-{os.getuid()}")
            os.makedirs(cache, exist_ok=True)
        want["MPLCONFIGDIR"] = cache
    pyt = "/opt/bilby-cache/pytensor"
    if os.path.isdir(pyt):
        want["PYTENSOR_FLAGS"] = f"base_compiledir={pyt}"
    need = os.environ.get("VERIF_BOOTED") != "1" or any(
        os.environ.get(k) != v for k, v in want.items()
    )
    if need:
        env = dict(os.environ)
        env.update(want)
        env["VERIF_BOOTED"] = "1"
        env["PYTHONPATH"] = REPO + os.pathsep + VERIF
        sys.stdout.flush()
        os.execve(PY, [PY, "-u", os.path.abspath(argv_file)] + sys.argv[1:], env)


def _memoise_subprocess():
    """The environment's package list does not change during a check: ask for it once."""
    import subprocess

    real, seen = subprocess.check_output, {}

    def check_output(*args, **kw):
        key = repr((args, sorted(kw.items(), key=lambda t: t[0])))
        if key not in seen:
            try:
                seen[key] = (True, real(*args, **kw))
            except Exception as e:
                seen[key] = (False, e)
        ok, value = seen[key]
        if not ok:
            raise value
        return value

    subprocess.check_output = check_output


_done = False


def load():
    """Import bilby (and the samplers used) once, before any fork."""
    global _done
    if _done:
        return
    import warnings

    warnings.simplefilter("ignore")
    import bilby  # noqa
    import logging

    import importlib

    # everything a simulated process would import lazily is imported once here
    for name in ("dill", "_pyio", "h5py", "gzip", "tqdm.auto", "PIL.Image", "matplotlib.pyplot", "astropy.cosmology",
                 "bilby.gw", "bilby.bilby_mcmc.sampler", "bilby.core.sampler.dynesty", "bilby.core.sampler.emcee",
                 "bilby.core.sampler.ptemcee", "bilby.core.sampler.zeus", "bilby.core.sampler.kombine",
                 "bilby.core.sampler.ultranest", "bilby.core.sampler.dnest4", "bilby.core.sampler.pymultinest",
                 "bilby.core.sampler.dynesty_utils", "dynesty", "emcee", "ptemcee", "lal", "lalsimulation"):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    _memoise_subprocess()
    try:
        bilby.core.utils.log.env_package_list()
        bilby.core.utils.log.env_package_list(as_dataframe=True)
    except Exception:
        pass
    assert os.path.abspath(bilby.__file__).startswith(os.path.abspath(REPO) + os.sep), bilby.__file__
    logging.getLogger("bilby").setLevel(logging.CRITICAL)
    _done = True
