"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os, sys

P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state, observe_at, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": mechanism, "state": state,
                          "observe_at": observe_at, "hook_needed": hook}})


exec(open(os.path.join(os.path.dirname(__file__), "props_text.py")).read())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d in P:
        jsonschema.validate(d, sch)
except ImportError:
    pass
print(len(P), "properties")
