"""Simulated clock: every wall/monotonic read and sleep goes to state.S."""
import datetime as _dt
import sys
import time as _time

from . import state as st

TICK = 1e-4
_real = {k: getattr(_time, k) for k in ("time", "time_ns", "perf_counter", "monotonic", "process_time",
                                        "perf_counter_ns", "monotonic_ns", "sleep", "localtime", "gmtime")}
_real_dt = _dt.datetime


def advance(dt):
    s = st.S
    s.now += dt
    s.mono += dt


def _read():
    s = st.S
    n = s.tick("clock")
    for f in s.due("clock", n):
        if f["do"] == "jump":
            s.fire(f, f"clock {n}")
            s.now += f["by"]
        elif f["do"] == "stall":
            s.fire(f, f"clock {n}")
            advance(f["by"])
    advance(TICK)
    return s


def _time_time():
    return _real["time"]() if st.S is None else _read().now


def _time_ns():
    return _real["time_ns"]() if st.S is None else int(_read().now * 1e9)


def _perf():
    return _real["perf_counter"]() if st.S is None else _read().mono


def _perf_ns():
    return _real["perf_counter_ns"]() if st.S is None else int(_read().mono * 1e9)


def _sleep(dt):
    if st.S is None:
        return _real["sleep"](dt)
    st.S.tick("sleep")
    advance(max(0.0, dt))


def _localtime(secs=None):
    if secs is None and st.S is not None:
        secs = _read().now
    return _real["localtime"](secs)


def _gmtime(secs=None):
    if secs is None and st.S is not None:
        secs = _read().now
    return _real["gmtime"](secs)


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_dt)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_dt)


class SimDatetime(_real_dt, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if st.S is None:
            return super().now(tz)
        return cls.fromtimestamp(_read().now, tz)

    @classmethod
    def utcnow(cls):
        if st.S is None:
            return super().utcnow()
        return cls.fromtimestamp(_read().now, _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


_repl = {}
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    new = dict(time=_time_time, time_ns=_time_ns, perf_counter=_perf, monotonic=_perf,
               process_time=_perf, perf_counter_ns=_perf_ns, monotonic_ns=_perf_ns,
               sleep=_sleep, localtime=_localtime, gmtime=_gmtime)
    for k, v in new.items():
        _repl[id(_real[k])] = v
        setattr(_time, k, v)
    # datetime.datetime, as attribute of the datetime module and wherever it
    # was imported by name (pickling by reference stays possible: same name).
    SimDatetime.__name__ = "datetime"
    SimDatetime.__qualname__ = "datetime"
    SimDatetime.__module__ = "datetime"
    _dt.datetime = SimDatetime
    import copyreg

    copyreg.pickle(_real_dt, lambda d: (SimDatetime, _real_dt.__reduce_ex__(d, 2)[1]))
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.split(".")[0] in (
            "bilby", "dynesty", "emcee", "ptemcee", "zeus", "kombine", "nestle", "dill", "ultranest", "cli_bilby"
        ):
            continue
        for attr, val in list(vars(mod).items()):
            if val is _real_dt:
                setattr(mod, attr, SimDatetime)
            elif callable(val) and id(val) in _repl:
                setattr(mod, attr, _repl[id(val)])
