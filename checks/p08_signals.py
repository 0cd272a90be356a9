"""P08: a termination signal always checkpoints, cleans up and exits as configured."""
import hashlib
import os
import signal

from sim import workloads as W
from sim.runner import Skip, Violation

PID = "P08"
TIERS = {"quick": {"runs": 600, "budget": 55, "minimise": 60, "min_runs": 30},
         "thorough": {"runs": 60000, "budget": 780, "minimise": 60, "min_runs": 150}}
REAL = ["signal handling, checkpointing and pool handling of bilby's dynesty, bilby-mcmc, ptemcee, emcee, zeus and "
        "kombine samplers", "those samplers", "python's signal machinery"]
STUB = ["signal source (raised at a seeded instant)", "worker pool scheduler (forked lock-step workers)", "disk", "clock",
        "likelihood (pure Gaussian)"]
REQUIRED_PROBES = ["signals", "exit", "worker-signals", "handlers-restored", "failed", "finished", "fresh-checkpoint"]
ASSUMPTIONS = ["signals fall at likelihood calls, file operations, pool tasks, clock reads and lines of bilby's sampler code"]
SIGS = (signal.SIGTERM, signal.SIGINT, signal.SIGALRM)


def gen(rng, tier, i):
    from checks import _samplers as SS

    name = rng.choice(["dynesty", "dynesty", "bilby_mcmc", "bilby_mcmc", "ptemcee", "emcee", "zeus", "kombine"])
    npool = rng.choice([1, 1, 2, 3])
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        do = rng.choice(["signal", "signal", "signal", "signal", "signal-group" if npool > 1 else "signal", "raise"])
        if do == "raise":
            pt = "like"
        elif do == "signal-group":
            pt = "task"
        else:
            pt = rng.choice(["like", "line", "fs", "clock", "line"] + (["task"] * 3 if npool > 1 else []))
        hi = {"like": rng.choice([30, 200, 900]), "fs": 30, "clock": 200, "line": rng.choice([120, 1000, 30000]),
              "task": rng.choice([20, 300])}[pt]
        f = {"point": pt, "at": rng.randint(0, hi), "do": do}
        if do != "raise":
            f["signum"] = int(rng.choice(SIGS))
        faults.append(f)
    return {"name": name, "npool": npool, "faults": faults, "cfg": SS.config(name, rng), "catch": rng.random() < 0.6,
            "exit_code": rng.choice([None, None, 0, 3, 99]), "first": rng.random() < 0.3,
            "app": [rng.choice(["default", "ignore", "func"]) for _ in SIGS], "_lists": ["faults"]}


def _tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = hashlib.sha1(h.read()).hexdigest()
    return out


def _body(plan, faulty):
    def body(s):
        import bilby
        from checks import _samplers as SS

        W.reset_cli()
        SS.mute_tqdm()
        SS.fast(plan["name"])
        s.like_cap, s.task_cap = 60000, 6000
        W.seed_all(s.rng.randrange(2 ** 31))
        hits = []

        def app(signum, frame):
            hits.append(int(signum))

        mine = {"default": {signal.SIGINT: signal.default_int_handler}, "ignore": {}, "func": {}}
        mine = [{"default": mine["default"].get(n, signal.SIG_DFL), "ignore": signal.SIG_IGN, "func": app}[a]
                for n, a in zip(SIGS, plan["app"])]
        for n, h in zip(SIGS, mine):
            signal.signal(n, h)
        info = {"at": [], "first_inside": None, "outside_after": 0, "worker": [], "written": []}
        ckpt = SS.checkpoint_file(s.root, plan["name"])
        app_of = dict(zip(SIGS, mine))

        # which handler is in force at every likelihood call of the main process
        real_tick = s.tick

        def tick(kind):
            n = real_tick(kind)
            if kind == "like" and not s.in_worker:
                inside = all(signal.getsignal(k) is not app_of[k] for k in SIGS)
                if inside and info["first_inside"] is None:
                    info["first_inside"] = n
                elif not inside and info["first_inside"] is not None:
                    info["outside_after"] += 1
            return n

        s.tick = tick
        real_fire = s.fire

        def fire(f, where):
            if f["do"].startswith("signal"):
                n = f.get("signum", 15)
                info["at"].append({"signum": n, "ours": signal.getsignal(n) is app_of[n], "where": str(where),
                                   "now": s.now, "sampling": info["first_inside"] is not None,
                                   "likes": s.counts.get("like", 0), "tasks": s.counts.get("task", 0),
                                   "had": _stamp(ckpt)})
            real_fire(f, where)

        s.fire = fire
        s.group_before = lambda: _tree(s.root)
        out = {"end": "ok"}
        extra = {} if plan["exit_code"] is None else {"exit_code": plan["exit_code"]}
        kw = dict(plan["cfg"], **extra)
        try:
            bilby.run_sampler(W.GaussLikelihood(2), W.gauss_priors(2), sampler=plan["name"], label="run", outdir="out",
                              save=True, plot=False, resume=True, npool=plan["npool"], use_ratio=False, **kw)
        except SystemExit as e:
            if not plan["catch"] and faulty:
                s.exitinfo = _final(s, info, mine, hits, plan, {"end": "exit", "code": e.code})
                raise
            out = {"end": "exit", "code": e.code}
        except W.NoProgress as e:
            out = {"end": "noprogress", "msg": str(e)}
        except W.SimulatedFailure:
            out = {"end": "failed"}
        except KeyboardInterrupt:
            out = {"end": "keyboard"}
        except Exception as e:  # noqa: the oracle decides
            import traceback

            out = {"end": "exception", "type": type(e).__name__, "msg": str(e)[:300],
                   "tb": traceback.format_exc()[-1500:]}
        return _final(s, info, mine, hits, plan, out)

    return body


def _stamp(path):
    try:
        st = os.stat(path)
        return (st.st_ino, st.st_size, st.st_mtime_ns)
    except OSError:
        return None


def _final(s, info, mine, hits, plan, out):
    from checks import _samplers as SS

    now = [signal.getsignal(n) for n in SIGS]
    return dict(out, info=info, hits=hits, restored=[a is b for a, b in zip(now, mine)],
                workers=[sum(w.alive for w in p._workers) for p in getattr(s, "pools", [])],
                group=getattr(s, "group_report", []),
                stamp=_stamp(SS.checkpoint_file(s.root, plan["name"])))


def _load(plan, ctx):
    """Whether the checkpoint on disk loads; returns the number of steps it records (None: no file)."""
    from checks import _samplers as SS

    path = SS.checkpoint_file(ctx.root, plan["name"])

    def body(s):
        if not os.path.exists(path):
            return None
        import dill

        with open(path, "rb") as f:
            obj = dill.load(f)
        return type(obj).__name__

    out = ctx.run(body, tag="observe", incarnation=9999)
    if out["end"] != "ok":
        raise Violation(f"checkpoint-unreadable:{plan['name']}", f"checkpoint left by the interrupted run cannot be loaded: "
                        f"{out.get('type')}: {out.get('msg')}")
    return out["value"]


def execute(plan, ctx):
    import bilby
    from checks import _samplers as SS

    pre = tuple(os.path.dirname(os.path.abspath(bilby.__file__)) + os.sep + p
                for p in ("core/sampler/base_sampler", "core/sampler/" + plan["name"], "bilby_mcmc/sampler"))
    name = plan["name"]
    code = SS.EXIT[name] if plan["exit_code"] is None else plan["exit_code"]
    lines = pre if any(f["point"] == "line" for f in plan["faults"]) else None
    if plan["first"]:      # an earlier, interrupted run left a checkpoint
        ctx.run(_body(dict(plan, catch=True), True), [{"point": "like", "at": 150, "do": "crash"}], tag="earlier run",
                cpu=60)
        ctx.now += 100
    had = _load(plan, ctx) is not None
    out = ctx.run(_body(plan, True), plan["faults"], tag="signalled run", line_prefixes=lines, cpu=60)
    if out["end"] == "cpu":
        raise Violation(f"no-progress:{name}", f"{out.get('where', '')[-600:]}")
    val = out.get("value") or out.get("exitinfo")
    if out["end"] == "killed":
        # the application's own (default) disposition was in force: only legitimate outside the sampler
        ctx.probes["killed-outside"] += 1
        where = out["sim"]["fired"][-1]["where"]
        if where.startswith("task"):
            raise Violation(f"not-handled:{name}", f"a signal while workers evaluate points killed the run ({where})")
        return
    if val is None:
        raise Violation(f"ending:{name}", f"run ended with {out['end']} {out.get('type')}: {out.get('msg')}")
    info, end = val["info"], val["end"]
    ctx.note(name, end, len(info["at"]))
    ours = [a for a in info["at"] if not a["ours"]]
    raised = any(f["kind"] == "raise" for f in out["sim"]["fired"])
    if info["outside_after"] and not ours and not raised:
        raise Violation(f"unprotected:{name}", f"{info['outside_after']} likelihood calls in the middle of the run without the "
                        "sampler's signal handlers in force")
    if end == "noprogress":
        raise Violation(f"no-progress:{name}", val["msg"])
    if end == "exception" and name == "kombine" and "_kernel_cov" in val["msg"]:
        raise Skip("kombine's own density estimate failed")
    if end == "exception":
        raise Violation(f"handler-failed:{name}:{val['type']}", f"signals at {[a['where'] for a in info['at']]}: {val['type']}: "
                        f"{val['msg']}\n{val['tb'][-900:]}")
    if end == "exit":
        ctx.probes["exit"] += 1
        if not ours:
            raise Violation(f"exit-without-signal:{name}", f"exited with {val['code']} although no signal reached the sampler")
        if val["code"] != code:
            raise Violation(f"exit-code:{name}", f"exited with {val['code']}, configured {code}")
        if any(val["workers"]):
            raise Violation(f"workers-left:{name}", f"worker processes left running after the exit: {val['workers']}")
        kind = _load(plan, ctx)
        if had and kind is None:
            raise Violation(f"checkpoint-lost:{name}", "the checkpoint of the earlier run is gone")
        if kind is not None:
            ctx.probes["loadable"] += 1
        steps = ours[0]
        if _has_progress(plan, steps):
            if kind is None:
                raise Violation(f"no-checkpoint:{name}", f"signal at {steps['where']} after {steps['likes']} likelihood calls: "
                                "no checkpoint was written")
            if val["stamp"] == steps["had"] or os.stat(SS.checkpoint_file(ctx.root, name)).st_size == 0:
                raise Violation(f"stale-checkpoint:{name}", f"signal at {steps['where']} after {steps['likes']} likelihood calls: "
                                "the checkpoint was not rewritten")
            ctx.probes["fresh-checkpoint"] += 1
        ctx.nontrivial = True
    elif ours and end in ("ok", "failed") and not (end == "failed" and len(ours) < 1):
        raise Violation(f"signal-swallowed:{name}", f"signal {ours[0]['signum']} at {ours[0]['where']} reached the sampler, which went on "
                        f"({end})")
    if end == "ok":
        ctx.probes["finished"] += 1
        if any(val["workers"]):
            raise Violation(f"workers-left:{name}", f"worker processes left running after the run: {val['workers']}")
    if end == "failed":
        ctx.probes["failed"] += 1
    # a signal that falls between the two instants at which handlers are swapped may leave them half way
    if not any("wrapped" in a["where"] or "signal_wrapper" in a["where"] for a in info["at"]):
        if not all(val["restored"]):
            raise Violation(f"handlers-not-restored:{name}", f"after the sampler ended ({end}) the application's handlers for "
                            f"{[int(n) for n, r in zip(SIGS, val['restored']) if not r]} are not in force")
        ctx.probes["handlers-restored"] += 1
    for g in val["group"]:
        if g["changed"]:
            raise Violation(f"worker-wrote:{name}", f"a signalled worker process wrote {g['changed']}")
        if g["out"] != "ok":
            raise Violation(f"worker-died:{name}", f"a signalled worker process ended ({g['out']}): its points are lost")


def _has_progress(plan, a):
    """Sampling had certainly begun: more evaluations than any set-up phase makes."""
    if plan["npool"] == 1:
        return a["likes"] > 250
    return a["tasks"] > {"dynesty": 60, "bilby_mcmc": 20, "ptemcee": 300}.get(plan["name"], 60) and "task" in a["where"]
