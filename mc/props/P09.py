"""P09: undetected points never influence estimates; points evolve independently."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
RULE = "distinct_nontrivial = distinct final (estimate, velocity) vectors; every case runs the history with two kinds of garbage and point by point"
BOUNDS = {
    "quick": "all histories of 3 (4 from two initial masks) further frames over (every detected subset, no scores, miss) for 2 points, of 3 frames for 3"
    " points, 1..3 coordinates where accepted, three filters, moving camera included; words of up to 2 letters repeated to 24 frames; histories of 3 frames with 4 patterns of periods; 2 garbage tracks; per-point decomposition",
    "thorough": "5 frames for 2 points, 4 frames for 3 points, 3 frames for 4 points, words of 3 letters repeated",
}
ASSUMPTIONS = ["garbage coordinates are finite; the distance function used does not look at coordinates (it always matches)"]

GARBAGE = [("zero", 0.0, 0.0), ("far", 5000.0, -331.0)]


PERIODS = [(2,), (5,), (9, 1, 3), (1, 2, 4)]


def always(det, obj):
    return 0.25


def shards(tier):
    th = tier == "thorough"
    out = []
    for fl in FILTERS:
        for dim in (2, 3):
            for cam in (0, 1):
                if cam and dim == 3:
                    continue
                for first in (-1, 0, 1, 2, 3):
                    out.append((fl, 2, dim, cam, first, 5 if th else 4 if dim == 2 and not cam and first in (0, 1) else 3))
        for first in range(8):
            if th or fl != "no" or first in (1, 2, 5):
                out.append((fl, 3, 2, 0, first, 4 if th else 3))
        if th:
            for first in range(16):
                out.append((fl, 4, 2, 0, first, 3))
        for first in (-1, 0, 1):
            out.append((fl, 1, 2, 0, first, 5))
        for n, dim, cam in ((2, 2, 0), (2, 2, 1), (3, 3, 0)):
            for first in (0, 1, 2):
                out.append((fl, n, dim, cam, first, -(3 if th else 2)))
    for fl in FILTERS:
        for life in (1, 2, 3):
            for n, k in ((1, 7), (2, 5 if th else 4)):
                out += [("brief", fl, n, cam, life, first, k) for cam in (0, 1) for first in range(1 << n)]
    for fl in FILTERS:
        for n, k in ((1, 4), (2, 4 if th else 3)):
            out += [("periods", fl, n, cam, first, k) for cam in (0, 1) for first in [-1] + list(range(1 << n))]
    for n in SIZES:
        for fl in FILTERS:
            if n <= (17 if fl == "fpy" else 70):
                for cam in (0, 1) if n < 35 else (0,):
                    out.append(("many", fl, n, cam))
    return out


def run_shard(shard, rec):
    if shard[0] == "many":
        # detections of many points
        _, fl, n, cam = shard
        some = (0, 2, 3, 4, 5)
        for a in some:
            for b in some:
                for c in (None, 0, 3):
                    if n < 35 or (a + b) % 2:
                        p = patterns(n)
                        rec.case((fl, n, 2, cam, (p[a], p[b]) + (() if c is None else (None,)) + (p[c or 0],)))
        return
    if shard[0] == "periods":
        # frames are skipped, more of them now and then
        _, fl, n, cam, first, k = shard
        for w in itertools.product([None] + list(range(-1, 1 << n)), repeat=k):
            for pi in range(len(PERIODS)):
                rec.case((fl, n, 2, cam, (first,) + w, 9, pi))
        return
    if shard[0] == "brief":
        # points do not stay live for long
        _, fl, n, cam, life, first, k = shard
        for w in itertools.product(range(1 << n), repeat=k):
            rec.case((fl, n, 2, cam, (first,) + w, life))
        return
    fl, n, dim, cam, first, k = shard
    alpha = [None] + list(range(1 << n)) + ([-1] if n < 3 else [])
    if k < 0:
        # long histories: words repeated
        for h in lassos(alpha, -k, 24, ((first,),)):
            rec.case((fl, n, dim, cam, h))
        return
    for w in itertools.product(alpha, repeat=k):
        # the mirror image of a history of misses only is not interesting twice
        rec.case((fl, n, dim, cam, (first,) + w))


def true_points(n, dim, t):
    base = np.arange(n * dim, dtype=float).reshape(n, dim)
    return 20.0 * base + (base + 1.0) * t + ((base * 7 + t * t) % 5)


def run(fl, n, dim, cam, hist, garbage, only=None, life=None, periods=None):
    """list of (estimate, velocity, live) per frame; `only` keeps a single point"""
    tr = Tracker(always, 1.0, hit_counter_max=60, initialization_delay=0, detection_threshold=0.5, pointwise_hit_counter_max=life or 4, filter_factory=FILTERS[fl]())
    _, g0, g1 = garbage
    out = []
    # a first match with a large period keeps the object alive through any number of misses
    for t, m in enumerate(hist):
        kw = {}
        if cam:
            kw["coord_transformations"] = TranslationTransformation(np.array([3.0 * t, -8.0 * t]))
        dets = []
        if m is not None:
            pts = true_points(n, dim, t)
            scores = None
            if m != -1:
                det = np.array([bool(m >> i & 1) for i in range(n)])
                low = (t + np.arange(n) + (hist[-1] or 0)) % 2  # scores equal to the threshold, and lower ones
                scores = np.where(det, 0.8, 0.5 * low)
                pts[~det] = g0 + g1 * t
            if only is not None:
                pts = pts[only:only + 1]
                scores = None if scores is None else scores[only:only + 1]
            dets.append(Detection(pts, scores=scores))
        tr.update(dets, period=periods[t % len(periods)] if periods else 40 if t == 0 and life is None else 1, **kw)
        if periods and (not tr.tracked_objects or tr.tracked_objects[0].age != t):
            return out  # lost, or another one by now
        require(len(tr.tracked_objects) == 1, "frame %d: %d objects" % (t, len(tr.tracked_objects)))
        (o,) = tr.tracked_objects
        out.append((np.array(o.get_estimate(absolute=True) if cam else o.estimate, dtype=float), np.array(o.estimate_velocity, dtype=float), [bool(b) for b in o.live_points]))
    return out


def run_case(case, rec):
    fl, n, dim, cam, hist = case[:5]
    life = case[5] if len(case) > 5 else None
    periods = PERIODS[case[6]] if len(case) > 6 else None
    runs = [run(fl, n, dim, cam, hist, g, life=life, periods=periods) for g in GARBAGE]
    require(all(len(r) == len(runs[0]) for r in runs), "how long the object lives depends on ignored coordinates")
    hist = hist[: len(runs[0])]  # it may have been lost
    seen = np.zeros(n, dtype=bool)
    for t, m in enumerate(hist):
        now = np.zeros(n, dtype=bool) if m is None else np.ones(n, dtype=bool) if m == -1 else np.array([bool(m >> i & 1) for i in range(n)])
        fresh = now & ~seen
        seen |= now
        ref = runs[0][t]
        for g, r in zip(GARBAGE[1:], runs[1:]):
            require(close(r[t][0][seen], ref[0][seen]), lambda: "frame %d: estimates of detected points depend on ignored coordinates (%s): %s / %s" % (t, g[0], r[t][0].tolist(), ref[0].tolist()))
            require(close(r[t][1][seen], ref[1][seen]), lambda: "frame %d: velocities of detected points depend on ignored coordinates (%s): %s / %s" % (t, g[0], r[t][1].tolist(), ref[1].tolist()))
            require(r[t][2] == ref[2], "frame %d: live points depend on ignored coordinates" % t)
        if fresh.any():
            tp = true_points(n, dim, t)
            if cam:
                tp = tp - np.array([3.0 * t, -8.0 * t])
            for r in runs:
                require(close(r[t][0][fresh], tp[fresh]), lambda: "frame %d: first detection of points %s at %s gives estimate %s" % (t, np.flatnonzero(fresh), tp[fresh].tolist(), r[t][0][fresh].tolist()))
                require(close(r[t][1][fresh], 0 * tp[fresh]), lambda: "frame %d: first detection of points %s has velocity %s" % (t, np.flatnonzero(fresh), r[t][1][fresh].tolist()))
    if n > 1:
        for i in range(n):
            hi = tuple(m if m is None or m == -1 else m >> i & 1 for m in hist)
            alone = run_alone(fl, n, dim, cam, hi, i, hist, life, periods)
            seen_i = False
            for t, m in enumerate(hi):
                seen_i = seen_i or m in (-1, 1)
                if seen_i:
                    a, b = alone[t], runs[1][t]
                    require(close(a[0][0], b[0][i]) and close(a[1][0], b[1][i]), lambda: "frame %d: point %d together %s %s, alone %s %s" % (t, i, b[0][i], b[1][i], a[0][0], a[1][0]))
                require(alone[t][2][0] == runs[1][t][2][i], "frame %d: live point %d together / alone" % (t, i))
    rec.step(len(hist) * (2 + n))
    rec.outcome(tuple(np.round(np.concatenate([runs[0][-1][0][seen].ravel(), runs[0][-1][1][seen].ravel()]), 6)) + (fl, n, dim))
    rec.state((fl, n, dim, cam, tuple(seen), tuple(runs[0][-1][2]), tuple(np.round(runs[0][-1][1].ravel(), 6))))


def run_alone(fl, n, dim, cam, hi, i, hist, life, periods):
    return run(fl, n, dim, cam, hist, GARBAGE[1], only=i, life=life, periods=periods)
