"""Fills DESIGN.md's sections from design/*.md and the registries (seeded/*/meta.json, known_findings.jsonl)."""
import glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda n: open(os.path.join(V, "design", n)).read().strip() if os.path.exists(os.path.join(V, "design", n)) else ""
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
parts = []
for p in props:
    t = R(p["id"] + ".md")
    parts.append(f"### {p['id']} {p['title']}\n\n{t or 'No check yet.'}")
defects = "\n".join("* " + l.strip() for l in open(os.path.join(V, "known_findings.jsonl")) if l.startswith("fixed:"))
for l in open(os.path.join(V, "known_findings.jsonl")):
    if l.startswith("{"):
        d = json.loads(l)
        defects += f"\n* open: property={d['property']} {d['what']} (recorded, not repaired: {d.get('why', '')})"
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d.get('caught_by', '?')} |")
doc = R("template.md")
for k, v in (("PROPS", "\n\n".join(parts)), ("DEFECTS", defects + "\n\n" + R("defects.md")), ("ALARMS", R("alarms.md")),
             ("SEEDS", "\n".join(seeds) + "\n\n" + R("seeds.md"))):
    doc = doc.replace(f"@@{k}@@", v)
open(os.path.join(V, "DESIGN.md"), "w").write(doc + "\n")
