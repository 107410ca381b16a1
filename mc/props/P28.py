"""P28: missing optional dependencies only disable what needs them."""
import itertools
import json
import os
import shutil
import subprocess
import sys

import cv2
import numpy as np

from ..common import *
from .P19 import scratch

LEVEL = "exploration"
TECH = "exhaustive enumeration of all subsets of missing dependencies x features x orders of use, each in a process of its own"
RULE = "one execution = one process in which a subset of the dependencies cannot be imported, running every feature; distinct_nontrivial = distinct (subset, feature, result)"
BOUNDS = {
    "quick": "all 8 subsets of {OpenCV, motmetrics, pandas} x 2 ways of failing to import x 2 orders of 33 features",
    "thorough": "additionally each feature used before and after all others",
}
ASSUMPTIONS = ["a missing dependency is simulated by an import hook that raises ModuleNotFoundError or ImportError"]
CASE_TIMEOUT = 300.0
MODS = ("cv2", "motmetrics", "pandas")
CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "p28_child.py")
NAMES = {"cv2": ("opencv", "video"), "motmetrics": ("metrics",), "pandas": ("metrics",)}


def prepare():
    d = scratch()
    seq = os.path.join(d, "seq")
    for s in ("img1", "det", "gt"):
        os.makedirs(os.path.join(seq, s))
    L = 4
    for k in range(1, L + 1):
        cv2.imwrite(os.path.join(seq, "img1", "%06d.png" % k), np.full((20, 30, 3), 40 * k, "uint8"))
    with open(os.path.join(seq, "seqinfo.ini"), "w") as f:
        f.write("[Sequence]\nname=seq\nimDir=img1\nframeRate=10\nseqLength=%d\nimWidth=30\nimHeight=20\nimExt=.png\n" % L)
    with open(os.path.join(seq, "det", "det.txt"), "w") as f, open(os.path.join(seq, "gt", "gt.txt"), "w") as g:
        for k in range(1, L + 1):
            for i, x in ((1, 10.0), (2, 200.0)):
                f.write("%d,-1,%s,20,30,40,0.9,-1,-1,-1\n" % (k, x + k))
                g.write("%d,%d,%s,20,30,40,1,1,1\n" % (k, i, x + k))
    w = cv2.VideoWriter(os.path.join(d, "v.avi"), cv2.VideoWriter_fourcc(*"MJPG"), 10, (32, 24))
    for k in range(3):
        w.write(np.full((24, 32, 3), 60 * k, "uint8"))
    w.release()
    return d


def run_child(d, blocked, mode, order):
    env = dict(os.environ, PYTHONPATH=os.environ.get("NORFAIR_REPO", "/repo"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.run([sys.executable, CHILD, d, ",".join(blocked), mode, order], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=d, timeout=250)
    require(p.returncode == 0 and p.stdout, lambda: "the process died (status %s) with %s missing" % (p.returncode, blocked))
    return json.loads(p.stdout)


def run_case(case, rec):
    blocked, mode, order = case
    d = prepare()
    try:
        base = run_child(d, (), "missing", "forward")
        got = base if not blocked and order == "forward" else run_child(d, blocked, mode, order)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for b in (base, got):
        require("import" not in b, lambda: "norfair cannot be imported without %s: %s" % (blocked, b["import"]))
    require(set(got) == set(base), "features ran differently")
    for n, runs in got.items():
        (_, want), = base[n]
        require(want[0] == "ok", lambda: "%s fails with everything installed: %s" % (n, want))
        for needs, res in runs:
            missing = [m for m in needs if m in blocked]
            rec.step()
            rec.outcome((blocked, n, str(res)))
            if not missing:
                require(res == want, lambda: "%s, which needs %s, gives %s instead of %s without %s" % (n, needs or "nothing", str(res)[:200], str(want)[:100], blocked))
            else:
                require(res[0] != "ok", lambda: "%s did something without %s" % (n, missing))
                require(res[2], lambda: "%s without %s raises %s: %s" % (n, missing, res[0], res[1]))
                require(any(w in res[1].lower() for m in missing for w in NAMES[m]), lambda: "%s without %s: the message does not name what is missing: %s" % (n, missing, res[1]))


FEATURE_NAMES = None


def shards(tier):
    subsets = [s for k in range(4) for s in itertools.combinations(MODS, k)]
    out = [("one", s, m, o) for s in subsets for m in ("missing", "broken") for o in ("forward", "reversed") if s or m == "missing"]
    if tier == "thorough":
        import re

        names = re.findall(r"@feature\([^)]*\)\ndef (\w+)", open(CHILD).read())
        out += [("one", s, "missing", n) for s in subsets if s for n in names]
    return out


def run_shard(shard, rec):
    rec.case(shard[1:])
