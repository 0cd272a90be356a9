"""Batch runner: seeded plans -> simulated runs -> violations, replay files, evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

from . import boot, proc

REAL_TIME = time.time
REAL_SLEEP = time.sleep
GRACE = 75


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg = sig, msg


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The plan turned out not to apply (counted, never a verdict)."""


class Ctx:
    """What `execute(plan, ctx)` uses: scratch root, incarnations, statistics."""

    def __init__(self, plan):
        self.plan = plan
        self.base = tempfile.mkdtemp(prefix="verif-run-", dir=boot.scratch_base())
        self.root = os.path.join(self.base, "node")
        os.mkdir(self.root)
        self.inc = 0
        self.now = 1.7e9
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.h = hashlib.sha256()
        self.traces = []
        self.simtime = 0.0
        self.nontrivial = False

    def run(self, body, faults=(), *, tag="", fresh_root=None, expect=None, **kw):
        """One incarnation of the simulated process; durable state is self.root."""
        root = fresh_root or self.root
        os.makedirs(root, exist_ok=True)
        kw.setdefault("seed", self.plan["seed"])
        out = proc.run(body, root=root, faults=faults, incarnation=kw.pop("incarnation", self.inc),
                       clock0=kw.pop("clock0", self.now), **kw)
        self.inc += 1
        if out["end"] == "harness":
            raise HarnessError(out.get("error"))
        if out["end"] == "wall":
            self.probes["wall-limit"] += 1
            raise Skip("real time limit")
        sim = out["sim"]
        for f in sim["fired"]:
            self.fired[f["kind"]] += 1
        for k, v in sim.get("probes", {}).items():
            self.probes[k] += v
        self.h.update((sim["digest"] + out["end"] + str(out.get("code"))).encode())
        self.simtime += max(0.0, sim["mono"] - kw.get("mono0", 0.0))
        self.now = sim["now"] + 1.0
        self.traces.append({"incarnation": self.inc - 1, "tag": tag, "end": out["end"],
                            "code": out.get("code"), "exception": out.get("type"), "msg": out.get("msg"),
                            "fired": sim["fired"], "tail": sim["trace"][-60:]})
        if sim["fired"]:
            self.nontrivial = True
        return out

    def note(self, *args):
        self.h.update(repr(args).encode())

    def cleanup(self):
        shutil.rmtree(self.base, ignore_errors=True)


def run_plan(mod, plan):
    ctx = Ctx(plan)
    t0 = REAL_TIME()
    res = {"violation": None, "skip": None, "error": None}
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        res["violation"] = {"sig": v.sig, "msg": v.msg}
    except Skip as e:
        res["skip"] = str(e)
    except Exception:
        res["error"] = traceback.format_exc()
    finally:
        ctx.cleanup()
    res.update(fired=dict(ctx.fired), probes=dict(ctx.probes), digest=ctx.h.hexdigest(), simtime=ctx.simtime,
               incarnations=ctx.inc, nontrivial=ctx.nontrivial, wall=REAL_TIME() - t0,
               traces=ctx.traces if (res["violation"] or res["error"]) else [])
    return res


def make_plan(mod, seed, i, tier):
    rng = random.Random(f"{mod.PID}:{seed}:{i}")
    plan = mod.gen(rng, tier, i)
    plan.setdefault("seed", rng.randrange(2 ** 31))
    plan["property"] = mod.PID
    plan["index"] = i
    plan["batch_seed"] = seed
    return json.loads(json.dumps(plan))


def _worker(mod, seed, tier, idxs, path, deadline):
    with open(path, "w") as f:
        for i in idxs:
            if REAL_TIME() > deadline:
                break
            plan = make_plan(mod, seed, i, tier)
            res = run_plan(mod, plan)
            res["i"] = i
            if os.environ.get("VERIF_SLOW") and res["wall"] > float(os.environ["VERIF_SLOW"]):
                os.write(2, f"slow run {i}: {res['wall']:.1f} s {res['skip']}\n".encode())
            f.write(json.dumps(res) + "\n")
            f.flush()


def batch(mod, seed, tier, n, jobs, budget, tmp, stop_early=True):
    deadline = REAL_TIME() + budget
    pids = []
    for w in range(jobs):
        path = os.path.join(tmp, f"w{w}.jsonl")
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                _worker(mod, seed, tier, range(w, n, jobs), path, deadline)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
    bad = 0
    left = set(pids)
    # a run may outlast the budget a little; what is still unfinished after that is
    # dropped (not judged), so that a slow machine never turns into a verdict
    while left:
        late = REAL_TIME() > deadline + GRACE
        for pid in list(left):
            if late:
                for kill in (os.killpg, os.kill):
                    try:
                        kill(pid, 9)
                    except OSError:
                        pass
            done, status = os.waitpid(pid, 0 if late else os.WNOHANG)
            if done:
                left.discard(pid)
                if status != 0 and not late:
                    bad += 1
        if left:
            REAL_SLEEP(0.02)
    results = []
    for w in range(jobs):
        path = os.path.join(tmp, f"w{w}.jsonl")
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    try:
                        results.append(json.loads(line))
                    except ValueError:
                        pass
    results.sort(key=lambda r: r["i"])
    return results, bad


# -- minimisation ---------------------------------------------------------
def _default_shrinks(plan):
    """Generic candidates: drop faults / steps / incarnations, lower numbers."""
    for key in getattr_list(plan, "_lists", ("steps", "faults", "incs", "ops")):
        seq = plan.get(key)
        if isinstance(seq, list) and len(seq) > 0:
            for k in range(len(seq)):
                p = json.loads(json.dumps(plan))
                del p[key][k]
                yield p
            for k, item in enumerate(seq):
                if isinstance(item, dict) and isinstance(item.get("faults"), list) and len(item["faults"]) > 0:
                    for j in range(len(item["faults"])):
                        p = json.loads(json.dumps(plan))
                        del p[key][k]["faults"][j]
                        yield p


def getattr_list(plan, k, default):
    return plan.get(k, default)


def minimise(mod, plan, sig, budget):
    deadline = REAL_TIME() + budget
    shrinks = getattr(mod, "shrink", _default_shrinks)
    steps = 0
    improved = True
    while improved and REAL_TIME() < deadline:
        improved = False
        for cand in shrinks(plan):
            if REAL_TIME() > deadline:
                break
            steps += 1
            proc.DEADLINE = time.monotonic() + max(1.0, deadline - REAL_TIME())
            try:
                res = run_plan(mod, cand)
            finally:
                proc.DEADLINE = None
            if res["violation"] and res["violation"]["sig"] == sig:
                plan, improved = cand, True
                break
    return plan, steps


# -- known findings -------------------------------------------------------
def known_findings(pid):
    path = os.path.join(boot.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status", "open") == "open":
                    out.append(d)
    return out


def match_known(kf, violation):
    for d in kf:
        if d["sig"] == violation["sig"] and d.get("contains", "") in violation["msg"]:
            return d
    return None


# -- main -----------------------------------------------------------------
def main(pid, modname, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--one", type=int, default=None, help="run a single plan index, verbosely")
    ap.add_argument("--dump", default=None, help="write every run's digest here (determinism test)")
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args(argv)
    t0 = REAL_TIME()
    try:
        boot.load()
        mod = importlib.import_module(modname)
        if hasattr(mod, "preload"):
            mod.preload()
        from . import fs, clock, pool, entropy

        fs.install(), clock.install(), pool.install(), entropy.install()
    except Exception:
        # the code under test does not even import: not a verdict
        traceback.print_exc()
        print(f"ERROR property={pid} harness could not load")
        return 2
    print(f"property={pid} tier={a.tier} VERIF_SEED={a.seed} repo={boot.REPO}")

    if a.replay:
        doc = json.load(open(a.replay))
        res = run_plan(mod, doc["plan"])
        return _show_replay(pid, a.replay, doc, res)
    if a.one is not None:
        plan = make_plan(mod, a.seed, a.one, a.tier)
        res = run_plan(mod, plan)
        print(json.dumps(plan, indent=1))
        print(json.dumps(res, indent=1, default=str)[:20000])
        return 1 if res["violation"] else (2 if res["error"] else 0)

    cfg = mod.TIERS[a.tier]
    n = a.runs or cfg["runs"]
    budget = a.budget or cfg["budget"]
    tmp = tempfile.mkdtemp(prefix="verif-batch-", dir=boot.scratch_base())
    try:
        results, bad = batch(mod, a.seed, a.tier, n, a.jobs, budget, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall_batch = REAL_TIME() - t0
    if a.dump:
        with open(a.dump, "w") as f:
            for r in results:
                f.write(f"{r['i']} {r['digest']} {r['violation'] and r['violation']['sig']} {bool(r['error'])}\n")

    errors = [r for r in results if r["error"]]
    viols = [r for r in results if r["violation"]]
    kf = known_findings(pid)
    seen_known = {}
    new = {}
    for r in viols:
        d = match_known(kf, r["violation"])
        if d is not None:
            seen_known.setdefault(d["id"], (d, r))
        else:
            new.setdefault(r["violation"]["sig"], r)
    for d, r in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {d['what']} (seed index {r['i']})")

    rc = 0
    vio_out = []
    if new:
        os.makedirs(os.path.join(boot.VERIF, "replays"), exist_ok=True)
        min_budget = cfg.get("minimise", 60) / min(len(new), 5)
        for k, (sig, r) in enumerate(sorted(new.items(), key=lambda kv: kv[1]["i"])):
            if k >= 5:
                break
            plan = make_plan(mod, a.seed, r["i"], a.tier)
            small, steps = minimise(mod, plan, sig, min_budget)
            final = run_plan(mod, small)
            if not (final["violation"] and final["violation"]["sig"] == sig):
                small, final = plan, r
            name = hashlib.sha256((pid + sig).encode()).hexdigest()[:10]
            path = os.path.join(boot.VERIF, "replays", f"{pid}-{name}.json")
            doc = {"property": pid, "sig": sig, "msg": final["violation"]["msg"], "digest": final["digest"],
                   "plan": small, "original_plan_index": r["i"], "batch_seed": a.seed, "shrink_steps": steps,
                   "traces": final["traces"],
                   "replay_cmd": f"python3 check.py {pid} --replay {path}"}
            with open(path, "w") as f:
                json.dump(doc, f, indent=1, default=str)
            print(f"  {sig}: {final['violation']['msg'][:600]}")
            print(f"VIOLATION property={pid} replay={path}")
            vio_out.append({"sig": sig, "msg": final["violation"]["msg"][:500], "replay": path,
                            "count": sum(1 for q in viols if q["violation"]["sig"] == sig)})
        rc = 1
    done = len(results)
    valid = [r for r in results if not r["error"] and not r["skip"]]
    min_ok = cfg.get("min_runs", max(1, min(n, 4)))
    if rc == 0 and (errors or bad):
        for r in errors[:3]:
            print(f"harness error in run {r['i']}:\n{r['error']}")
        print(f"ERROR property={pid}: {len(errors)} harness errors, {bad} dead workers")
        rc = 2
    if rc == 0 and len(valid) < min_ok:
        print(f"ERROR property={pid}: only {len(valid)} valid runs within {budget}s (need {min_ok})")
        rc = 2

    fired = collections.Counter()
    probes = collections.Counter()
    for r in results:
        fired.update(r["fired"])
        probes.update(r["probes"])
    wall = REAL_TIME() - t0
    digests = {r["digest"] for r in valid if r["nontrivial"]}
    missing = [p for p in getattr(mod, "REQUIRED_PROBES", []) if not probes.get(p) and not fired.get(p)]
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": len(valid),
            "distinct_nontrivial": len(digests),
            "rule": getattr(mod, "RULE", "a run in which at least one injected fault or scheduling choice took "
                            "effect; distinct by digest of the simulator's event log (file operations, pool "
                            "assignments, faults, outcomes)"),
            "samples": [{"index": r["i"], "fired": r["fired"], "digest": r["digest"][:16],
                         "incarnations": r["incarnations"]} for r in valid[:5]],
            "planned_runs": n, "completed_runs": done, "skipped_runs": sum(1 for r in results if r["skip"]),
            "incarnations": sum(r["incarnations"] for r in results),
            "runs_per_hour": round(3600.0 * done / max(wall_batch, 1e-9), 1),
            "simulated_seconds": round(sum(r["simtime"] for r in results), 3),
            "faults_injected": dict(fired), "probes": dict(probes), "probes_never_hit": missing,
            "components_real": getattr(mod, "REAL", []), "components_stub": getattr(mod, "STUB", []),
            "known_findings_seen": [d["id"] for d, _ in seen_known.values()],
        },
        "wall_s": round(wall, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": vio_out,
    }
    evdir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(boot.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {done}/{n} runs, {len(digests)} distinct non-trivial, faults {dict(fired)}, "
          f"probes {dict(probes)}, {wall:.1f}s -> exit {rc}")
    return rc


def _show_replay(pid, path, doc, res):
    if res["error"]:
        print(res["error"])
        return 2
    if res["violation"]:
        same = res["digest"] == doc.get("digest")
        print(f"  {res['violation']['sig']}: {res['violation']['msg']}")
        print(f"  reproduced={'exactly' if same else 'same violation class, different trace'}")
        for t in res["traces"]:
            print(f"  incarnation {t['incarnation']} {t['tag']}: end={t['end']} {t['code'] or ''} "
                  f"{t['exception'] or ''} fired={t['fired']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay did not violate the property")
    return 0
