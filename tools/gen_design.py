"""Writes /verif/DESIGN.md from design/*, properties.jsonl, the modules' bounds, seeded/*/meta.json and design/seeds.json."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.environ.get("NORFAIR_REPO", "/repo"))
import mc.sched  # noqa: must precede norfair

read = lambda n: open(os.path.join(V, "design", n)).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
how = json.loads(read("props.json"))
costs = json.loads(read("costs.json")) if os.path.exists(os.path.join(V, "design", "costs.json")) else {}
out = [read("head.md"), "## Properties\n"]
for p in props:
    m = importlib.import_module("mc.props." + p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*How:* %s\n" % how[p["id"]])
    out.append("*Bounds, quick:* %s.\n\n*Bounds, thorough:* %s.\n" % (m.BOUNDS["quick"], m.BOUNDS["thorough"]))
    out.append("*Assumes:* %s.\n" % "; ".join(m.ASSUMPTIONS))
    if p["id"] in costs:
        out.append("*Cost:* quick %s.\n" % costs[p["id"]])
    out.append("*Why not tests:* %s\n" % p["why_tests_cant"])
out.append(read("tail.md"))
res = json.loads(read("seeds.json")) if os.path.exists(os.path.join(V, "design", "seeds.json")) else {}
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    meta = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, meta["property"], meta["needs"].replace("|", "/"), res.get(s, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
