"""Writes /verif/MANIFEST.json from the property modules that exist (mc/props/Pxx.py)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.environ.get("NORFAIR_REPO", "/repo"))
import mc.sched  # noqa: must precede norfair

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(V, "mc/props/%s.py" % pid)):
        missing.append(dict(property=pid, reason="check not built yet"))
        continue
    m = importlib.import_module("mc.props." + pid)
    note = "Exhaustive within the stated bounds. quick: %s. thorough: %s. Assumes/trusts: %s." % (
        m.BOUNDS["quick"], m.BOUNDS["thorough"],
        "; ".join(list(m.ASSUMPTIONS) + ["the reference model in mc/props/%s.py and CPython/numpy" % pid]))
    checks.append(dict(
        property=pid, quick_cmd="./check %s --tier quick" % pid, thorough_cmd="./check %s --tier thorough" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique=getattr(m, "TECH", "bounded exhaustive exploration of the real code against a reference model"),
        level=m.LEVEL, level_note=note))
out = dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=missing,
           notes="No hooks in /repo are needed: every check drives the public API of the working tree.")
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(missing), "missing:", [x["property"] for x in missing])
try:
    import jsonschema
    jsonschema.validate(out, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
