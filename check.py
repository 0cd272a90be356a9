#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [...]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa: E402

MODULES = {}
for _f in sorted(os.listdir(os.path.join(boot.VERIF, "checks"))):
    if _f.startswith("p") and _f.endswith(".py") and _f[1:3].isdigit():
        MODULES[_f[:3].upper()] = "checks." + _f[:-3]

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--selftest":
        from sim import selftest

        pids = sys.argv[2:] or ["P01"]
        sys.exit(selftest.main(sorted(MODULES) if pids == ["all"] else pids))
    if len(sys.argv) < 2 or sys.argv[1] not in MODULES:
        print("usage: check.py PROPERTY [...]; properties:", " ".join(MODULES))
        sys.exit(2)
    boot.ensure(__file__)
    from sim import runner

    sys.exit(runner.main(sys.argv[1], MODULES[sys.argv[1]], sys.argv[2:]))
