"""Writes MANIFEST.json from the checks present in checks/."""
import ast, glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "P31": "pure functions of their arguments: no concurrency, clock, I/O or fault to simulate; deciding it is numerical "
           "testing or proof, not simulation",
    "P32": "pure functions of their arguments: no schedule, time, I/O or fault takes part",
    "P33": "a numerical identity of a pure function; no schedule, time, I/O or fault takes part (the parts that do "
           "depend on state, disk or history are P13, P16 and P17)",
    "P34": "an approximation error of a pure function; no schedule, time, I/O or fault takes part (stored weights are P16)",
    "P35": "pure formulae; no schedule, time, I/O or fault takes part",
}
checks, have = [], set()
for path in sorted(glob.glob(os.path.join(V, "checks", "p[0-9]*.py"))):
    pid = "P" + re.match(r"p(\d+)_", os.path.basename(path)).group(1)
    have.add(pid)
    note = (ast.get_docstring(ast.parse(open(path).read())) or "").split("\n\n")[0].replace("\n", " ")
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python check.py {pid} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {pid} --tier thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, crash points and "
                     "fault sequences of the real code run under a simulated disk, clock, signal source, worker "
                     "scheduler and entropy source",
        "level": "exploration",
        "level_note": f"{note} Sampled, not exhaustive; a violation is reported with its seed and a minimised plan that "
                      "replays exactly.",
        "evidence_file": f"evidence/{pid}.json",
    })
doc = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python check.py --selftest",
    "hooks": {"guard": "VERIF_SIM", "enable": "no hooks were needed: every seam is replaced from outside the code "
              "(patched open/os/time/multiprocessing and sys.monitoring); the guard is unused", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check has been built yet")}
                       for p in props if p["id"] not in have],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
try:
    import jsonschema
    jsonschema.validate(doc, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks), "checks")
except ImportError:
    print("written", len(checks))
