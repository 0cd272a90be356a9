"""P05: temperature swaps exchange whole states and the chains go on from them.

Real code: bilby-mcmc through run_sampler with a user proposal cycle.  Every state
carries a lineage tag no proposal touches, so the recorded chains show who swapped
with whom; the flip proposal makes every acceptance decision visible.
"""
import math
import os

from sim import workloads as W
from sim.runner import Violation

PID = "P05"
TIERS = {"quick": {"runs": 500, "budget": 45, "minimise": 40, "min_runs": 20},
         "thorough": {"runs": 40000, "budget": 760, "minimise": 60, "min_runs": 100}}
REAL = ["bilby_mcmc sampler, chains, swaps, temperature adaptation", "bilby priors", "dill"]
STUB = ["disk", "clock", "signal source", "worker pool scheduler (forked lock-step workers)", "likelihood", "proposals"]
REQUIRED_PROBES = ["swaps", "steps", "pool-tasks", "resumed"]
RULE = "a run with tempering swaps or pool scheduling; distinct by digest of the event log and final lineages"
ASSUMPTIONS = ["chains frozen after convergence (an option) are outside this property",
               "signals hit at likelihood calls, not between the two assignments of one swap"]


def gen(rng, tier, i):
    npool = rng.choice([1, 1, 2, 3])
    ntemps = rng.choice([2, 3, 4, 5])
    incs = []
    for _ in range(rng.choice([1, 1, 2])):
        incs.append({"faults": [{"point": "task" if npool > 1 else "like",
                                 "at": rng.randint(40, 200) if npool > 1 else rng.randint(100, 900), "do": "signal",
                                 "signum": 15}]})
    often = rng.random() < 0.3
    return {"incs": incs, "nsamples": rng.choice([5, 20, 60]) if often else 10 ** 6, "dt": 0.5 if often else 1e9, "npool": npool, "ntemps": ntemps, "kind": rng.choice(["flip", "flip", "walk"]),
            "L1": rng.choice([1, 1, 1, 3]), "L2": rng.choice([1, 2, 3, 5]), "adapt": rng.random() < (0.6 if often else 0.3),
            "Tmax": rng.choice([3, 10, 100]), "slope": rng.choice([0.5, 1.5, 4.0]),
            "nensemble": rng.choice([1, 1, 1, 1, 2]), "pt_ensemble": rng.random() < 0.5,
            "block": rng.choice([7, 40, 200, 1000]), "_lists": ["incs"]}


def _body(plan):
    def body(s):
        import bilby
        from checks import _mcmc as M

        W.reset_cli()
        M.small_blocks(plan["block"])
        s.like_cost = 0.01
        s.like_cap = 30000
        W.seed_all(s.rng.randrange(2 ** 31))
        pri = M.priors()
        bilby.run_sampler(
            M.SlopeLikelihood(plan["slope"]), pri, sampler="bilby_mcmc", label="run", outdir="out", nsamples=plan["nsamples"],
            ntemps=plan["ntemps"], Tmax=plan["Tmax"], L1steps=plan["L1"], L2steps=plan["L2"], adapt=plan["adapt"],
            proposal_cycle=M.cycle(plan["kind"], pri), npool=plan["npool"], printdt=plan["dt"], check_point_delta_t=plan["dt"],
            check_point_plot=False, nensemble=plan["nensemble"], pt_ensemble=plan["pt_ensemble"], resume=True,
            use_ratio=False, fixed_tau=1, save=False, verbose=False)
        return None

    return body


def execute(plan, ctx):
    from checks import _mcmc as M

    path = os.path.join(ctx.root, "out", "run_resume.pickle")
    state = None
    for k, inc in enumerate(plan["incs"]):
        if state is not None:
            ctx.probes["resumed"] += 1
        out = ctx.run(_body(plan), inc["faults"], tag=f"sampling #{k}", cpu=100)
        if out["end"] == "cpu":
            raise Violation("no-progress", out.get("where", "")[-500:])
        if out["end"] == "ok" and plan["nsamples"] < 10 ** 6:
            ctx.probes["finished"] += 1
        elif out["end"] != "exit" or out["code"] != 130:
            if out["end"] == "exception" and out["type"] == "KeyboardInterrupt":
                continue
            raise Violation("run-failed", f"run #{k} ended with {out['end']} {out.get('code')} {out.get('type')}: "
                            f"{out.get('msg')} at {out.get('site')} after {out['sim']['fired']}")
        obs = ctx.run(lambda s: M.read_resume(path), tag="observe", incarnation=900 + k)
        if obs["end"] != "ok":
            raise Violation("checkpoint-unreadable", f"{obs.get('type')}: {obs.get('msg')}")
        if obs["value"] is None:
            if state is not None:
                raise Violation("checkpoint-lost", "the checkpoint disappeared")
            continue
        before, state = state, obs["value"]
        analyse(plan, before, state, ctx)


def analyse(plan, before, state, ctx):
    from bilby.bilby_mcmc.utils import LOGLKEY, LOGPKEY
    from checks import _mcmc as M

    def fail(sig, msg):
        raise Violation(sig, msg)

    like, pri = M.SlopeLikelihood(plan["slope"]), M.priors()
    chains = state["chains"]
    M.check_rows(chains, like, pri, fail)
    if plan["nensemble"] > 1:
        ensembles(chains, fail)
        ctx.note(state["position"])
        return
    chains = sorted(chains, key=lambda c: c["T"])
    nt = len(chains)
    if nt != plan["ntemps"]:
        fail("temperature-lost", f"{nt} chains for {plan['ntemps']} temperatures")
    betas = [c["beta"] for c in chains]
    if (any(b >= a for a, b in zip(betas, betas[1:])) and not plan["adapt"]) or betas[0] != 1:
        fail("ladder", f"temperature ladder out of order: {betas}")
    # this incarnation's part of each chain, starting from the state it was left with
    if before is None:
        parts = [c["rows"] for c in chains]
    else:
        old = sorted(before["chains"], key=lambda c: c["T"])
        parts = [[o["current"]] + c["rows"][len(o["rows"]):] for o, c in zip(old, chains)]
    n = min(len(c) for c in parts)
    if max(len(c) for c in parts) > n + 1:
        fail("unequal", f"chains advanced by {[len(c) for c in parts]} steps")
    kt = chains[0]["keys"].index("tag")
    kx = chains[0]["keys"].index("x")
    kl = chains[0]["keys"].index(LOGLKEY)
    kp = chains[0]["keys"].index(LOGPKEY)
    cols = [[c[p] for c in parts] for p in range(n)]
    tags0 = [r[kt] for r in cols[0]]
    if len(set(tags0)) != nt:
        return
    swap_pos = []
    expect = [0.0] * plan["L2"]  # swaps of the first pair to expect, for each phase of the swap cadence
    S = V = 0.0
    SS = SV = 0.0
    for p in range(1, n):
        prev, cur = [r[kt] for r in cols[p - 1]], [r[kt] for r in cols[p]]
        if sorted(cur) != sorted(tags0):
            fail("not-conserved", f"states held across temperatures changed at step {p}: lineages {prev} -> {cur}")
        # -- each lineage's own step, at the temperature it was at -----------
        now = {r[kt]: r for r in cols[p]}
        for T, r in enumerate(cols[p - 1]):
            q = now[r[kt]]
            if plan["kind"] == "walk":
                if abs(q[kx] - r[kx]) > plan["L1"] * M.Walk.STEP + 1e-9:
                    fail("jump", f"lineage {r[kt]} jumped from {r[kx]} to {q[kx]} at step {p}")
                continue
            if abs(abs(q[kx]) - abs(r[kx])) > 1e-12:
                fail("jump", f"lineage {r[kt]} jumped from {r[kx]} to {q[kx]} at step {p}")
            if plan["L1"] == 1 and not plan["adapt"] and r[kx] != 0:
                pt = {"x": -r[kx], "tag": r[kt]}
                la = betas[T] * (like.value(pt) - r[kl]) + float(pri.ln_prob(pt)) - r[kp]
                took = q[kx] != r[kx]
                if la > 1e-9 and not took:
                    fail("acceptance", f"chain {T} (beta={betas[T]}) refused a move with log acceptance {la} at step {p}")
                if la < -40 and took:
                    fail("acceptance", f"chain {T} (beta={betas[T]}) took a move with log acceptance {la} at step {p}")
                if la < 0:
                    a = math.exp(la)
                    S, V = S + took - a, V + a * (1 - a)
            ctx.probes["steps"] += 1
        la = (betas[1] - betas[0]) * (now[prev[0]][kl] - now[prev[1]][kl])
        expect[p % plan["L2"]] += math.exp(min(0.0, la))
        # -- the swap --------------------------------------------------------
        if prev != cur:
            swap_pos.append(p)
            ctx.probes["swaps"] += 1
        dec = _decode(prev, cur)
        if dec is None:
            fail("not-neighbours", f"step {p}: lineages {prev} -> {cur} is no sequence of neighbour swaps")
        if plan["L2"] and swap_pos and (p - swap_pos[0]) % plan["L2"] == 0 and not plan["adapt"]:
            arr = list(prev)
            for T, did in enumerate(dec):
                la = (betas[T + 1] - betas[T]) * (now[arr[T]][kl] - now[arr[T + 1]][kl])
                if la > 1e-9 and not did:
                    fail("swap-acceptance", f"step {p}: swap {T}<->{T + 1} with log acceptance {la} was refused")
                if la < -40 and did:
                    fail("swap-acceptance", f"step {p}: swap {T}<->{T + 1} with log acceptance {la} was done")
                if la < 0:
                    a = math.exp(la)
                    SS, SV = SS + did - a, SV + a * (1 - a)
                if did:
                    arr[T], arr[T + 1] = arr[T + 1], arr[T]
    if any((p - swap_pos[0]) % plan["L2"] for p in swap_pos):
        fail("swap-cadence", f"swaps at steps {swap_pos[:20]} with {plan['L2']} steps between swaps configured")
    if not swap_pos and not plan["adapt"] and min(expect) > 40:
        fail("no-swaps", f"no swap in {n} steps, at least {min(expect):.0f} were to be expected")
    # 8 standard deviations plus a margin for the skew of rare events
    if abs(S) > 8 * math.sqrt(V) + 12:
        fail("acceptance-rate", f"accepted {S:+.1f} moves more than its temperatures explain (sd {math.sqrt(V):.1f})")
    if abs(SS) > 8 * math.sqrt(SV) + 12:
        fail("swap-rate", f"{SS:+.1f} swaps more than the temperatures explain (sd {math.sqrt(SV):.1f})")
    ctx.note(n, cols[-1])
    ctx.nontrivial = True


def ensembles(chains, fail):
    """Swaps stay within one ensemble member, and no lineage is ever in two places."""
    kt = chains[0]["keys"].index("tag")
    seen = {}
    for c in chains:
        for row in c["rows"]:
            e = seen.setdefault(row[kt], c["E"])
            if e != c["E"]:
                fail("ensemble-mixed", f"lineage {row[kt]} appears in ensemble members {e} and {c['E']}")
    if len({len(c["rows"]) for c in chains}) == 1:
        for p in range(len(chains[0]["rows"])):
            tags = [c["rows"][p][kt] for c in chains]
            if len(set(tags)) != len(tags):
                fail("not-conserved", f"step {p}: one lineage held by two chains: {tags}")


def _decode(prev, cur):
    """Decisions of one ascending sweep of neighbour swaps turning prev into cur."""
    arr, dec = list(prev), []
    for T in range(len(arr) - 1):
        if cur[T] == arr[T]:
            dec.append(False)
        elif cur[T] == arr[T + 1]:
            arr[T], arr[T + 1] = arr[T + 1], arr[T]
            dec.append(True)
        else:
            return None
    return dec if arr == cur else None
