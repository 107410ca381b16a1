"""P08: live_points = points with a positive recent-detection counter."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
RULE = "distinct_nontrivial = distinct sequences of live masks produced by the real tracker"
BOUNDS = {
    "quick": "closure over all counter vectors of 2 points (3 points for two configurations), alphabet: every detected subset,"
    " no scores, miss, periods 1-3; pointwise_hit_counter_max 1..5; thresholds with scores on the threshold; gaps of up to 25"
    " misses followed by every pair of hits; two objects at once; all words of 3 updates over misses and detections with and without scores at periods"
    " 1, 2, 5 followed by 16 misses; inertia limits from 100 to 1000 reached and left again at periods 1 to 140; 45 sizes from 5 to 301 points x 6 subsets of them x all words of 1 or 2 updates",
    "thorough": "3 points everywhere, pointwise_hit_counter_max up to 8, 4 points for one configuration",
}
ASSUMPTIONS = ["one object alone is always matched by the detection given (threshold far above any distance)"]

# threshold: (value, score of a detected point, score of an ignored point)
TH = {"d": (0, 0.5, 0.0), "h": (0.5, 0.51, 0.5), "n": (-1.0, 0.0, -1.0), "z": (0, 1e-9, -3.0)}


def shards(tier):
    th = tier == "thorough"
    out = []
    for pmax in range(1, 9 if th else 6):
        for p0 in (1, 2, 3):
            for tname in TH if pmax in (2, 4) else ("h",):
                for fl in ("opt", "no", "fpy") if (tname == "h" and pmax == 2) else ("opt",):
                    for first in range(4):
                        out.append(("bfs", 2, pmax, p0, tname, fl, first, (1, 2, 3)))
                    if th:
                        for first in range(8):
                            out.append(("bfs", 3, pmax, p0, tname, fl, first, (1, 2, 3)))
        out.append(("gap", pmax))
    if th:
        for first in range(16):
            out.append(("bfs", 4, 2, 1, "h", "opt", first, (1, 2)))
    for pmax, first in ((2, 0), (2, 5), (3, 2)):
        out.append(("bfs", 3, pmax, 1, "h", "opt", first, (1, 2)))
    out.append(("scal", 1))
    for pmax in (1, 3, 7, 20):
        for p0 in (1, 5):
            out.append(("nosc", pmax, p0, 4 if th else 3))
    for n in SIZES:
        out.append(("many", n))
    for pmax in (100, 127, 128, 129, 200, 255, 256, 300, 1000):
        out.append(("big", pmax))
    return out


def succ(state, a, pm):
    p, mask = a
    out = []
    for i, c in enumerate(state):
        c = max(c - 1, -1)
        if mask is not None and mask >> i & 1:
            c = min(c + 2 * p, pm)
        elif mask is not None and c < 0:
            c = -1
        out.append(c)
    return tuple(out)


def run_shard(shard, rec):
    if shard[0] == "bfs":
        _, n, pmax, p0, tname, fl, first, periods = shard
        full = (1 << n) - 1
        pm = max(pmax, p0)
        acts = [(1, None)] + [(p, m) for p in periods for m in range(1 << n)]
        # the histories start with one match that detects no point but makes the object long lived
        init = tuple((first >> i & 1) - 1 for i in range(n))
        for m in range(1 << n):
            for p in (1, 2, 3):
                for m2 in range(1 << n):
                    rec.case((n, 2, pmax, p0, tname, fl, first, 0, ((p, m), (1, m2))))
        bfs(rec, init, acts, lambda s, a: succ(s, a, pm), lambda h: rec.case((n, 2, pmax, p0, tname, fl, first, 1, h)))
        # no scores at all (-1 stands for a detection without scores)
        for h in itertools.product((None, -1, full, 0), repeat=4 if first == 0 else 0):
            rec.case((n, 3, pmax, p0, tname, fl, -1, 1, tuple((1, m) for m in h)))
    elif shard[0] == "gap":
        _, pmax = shard
        for gap in range(0, 26):
            for first in range(4):
                for p in (1, 2):
                    for a in range(4):
                        for b in (None, 1, 2):
                            rec.case((2, 2, pmax, 1, "h", "opt", first, 1, ((1, None),) * gap + ((p, a), (1, b))))
                # undetected while the object is matched
                rec.case((2, 2, pmax, 1, "h", "opt", first, 1, ((1, 3),) * 3 + ((1, 1),) * gap + ((1, 2), (1, None), (1, 3))))
    elif shard[0] == "nosc":
        # detections with and without scores at several periods, then misses until no point is live
        _, pmax, p0, k = shard
        for w in itertools.product([(1, None)] + [(p, m) for p in (1, 2, 5) for m in (-1, 0, 1)], repeat=k):
            for first in (-1, 1):
                rec.case((2, 2, pmax, p0, "h", "opt", first, 1, w + ((1, None),) * 16 + ((5, -1), (1, None))))
    elif shard[0] == "many":
        # detections of many points
        n = shard[1]
        letters = [(1, None), (1, -1)] + [(p, m) for p in (1, 2) for m in patterns(n)]
        for first in patterns(n) + (-1,):
            for w in itertools.product(letters, repeat=2 if n < 150 else 1):
                rec.case((n, 2, 3, 1, "h", "opt" if n % 2 else "no", first, 1, w + ((1, None),)))
    elif shard[0] == "big":
        # long inertia: the counters reach every limit
        pmax = shard[1]
        for n, mask in itertools.product((1, 2, 61, 130, 160, 310), (-1, 1, 3)):
            for p in (1, 2, 64, 70, 140):
                if n * p <= 700:
                    rec.case((2, 2, pmax, 1, "d", "opt", -1, 1, ((p, mask),) * n + ((1, None),) * min(2 * n * p + 2, pmax + 2, 400) + ((1, 2), (1, None))))
    else:
        for h in itertools.product((None, 0, 1, -1), repeat=5):
            rec.case((1, 2, 3, 1, "d", "opt", 1, 1, tuple((1, m) for m in h)))


def mk(n, dim, tname, mask, t, base):
    pts = base + np.arange(n * dim, dtype=float).reshape(n, dim) + 0.1 * t
    if mask == -1:
        return Detection(pts)
    _, hi, lo = TH[tname]
    return Detection(pts, scores=np.array([hi if mask >> i & 1 else lo for i in range(n)]))


def run_case(case, rec):
    n, dim, pmax, p0, tname, fl, first, lead, hist = case
    if lead:
        hist = ((10000, 0),) + hist
    tr = Tracker("mean_manhattan", 300, hit_counter_max=1000000, initialization_delay=0, pointwise_hit_counter_max=pmax,
                 detection_threshold=TH[tname][0], filter_factory=FILTERS[fl]())
    full = (1 << n) - 1
    # two objects: the second sees the complementary masks, so that shared state would show
    two = n == 2 and len(hist) <= 5 - (first == -1)
    bases = (0.0, 5000.0) if two else (0.0,)
    inv = lambda m: m if m is None or m == -1 else m ^ full
    seq = [[(p0, first)] + list(hist), [(p0, inv(first))] + [(p, 0 if p == 10000 else inv(m)) for p, m in hist]]
    refs = [None] * len(bases)
    objs = {}
    log = []
    pm = max(pmax, p0)
    for t in range(len(hist) + 1):
        dets = [mk(n, dim, tname, seq[k][t][1], t, b) for k, b in enumerate(bases) if seq[k][t][1] is not None]
        tr.update(dets, period=seq[0][t][0])
        if t == 0:
            for k in range(len(bases)):
                m = seq[k][0][1]
                refs[k] = tuple((1 if m == -1 or m >> i & 1 else 0) for i in range(n))
            for o in tr.tracked_objects:
                objs[0 if o.estimate[0][0] < 2500 else 1] = o
        else:
            for k in range(len(bases)):
                p, m = seq[k][t]
                refs[k] = succ(refs[k], (p, full if m == -1 else m), pm)
        require(len(tr.tracked_objects) == len(bases), "frame %d: object count" % t)
        for k, o in objs.items():
            lp = [bool(x) for x in o.live_points]
            require(lp == [c > 0 for c in refs[k]], lambda: "update %d object %d: live points %s, counters %s" % (t, k, lp, refs[k]))
            log.append(tuple(lp))
    rec.outcome(tuple(log))
