"""Determinism self-test: same plans, different job counts, same digests."""
import os
import subprocess
import sys
import tempfile

from . import boot


def main(pids, runs=24, tier="quick"):
    rc = 0
    with tempfile.TemporaryDirectory(prefix="verif-self-", dir=boot.scratch_base()) as tmp:
        for pid in pids:
            outs = []
            for k, (hs, jobs) in enumerate([("0", "8"), ("0", "3")]):
                dump = os.path.join(tmp, f"{pid}.{k}")
                env = {k: v for k, v in os.environ.items() if k != "VERIF_BOOTED"}
                env.update(VERIF_HASHSEED=hs, VERIF_EVIDENCE_DIR=tmp)
                p = subprocess.run([boot.PY, os.path.join(boot.VERIF, "check.py"), pid, "--tier", tier, "--runs",
                                    str(runs), "--jobs", jobs, "--budget", "600", "--dump", dump], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if not os.path.exists(dump):
                    print(p.stdout)
                    return 2
                outs.append(open(dump).read())
            same = outs[0] == outs[1]
            diff = [a for a, b in zip(outs[0].splitlines(), outs[1].splitlines()) if a != b]
            print(f"selftest {pid}: {len(outs[0].splitlines())} runs, "
                  f"{'identical digests' if same else 'DIFFERENT: ' + str(diff[:5])}")
            rc |= 0 if same else 1
    return rc
