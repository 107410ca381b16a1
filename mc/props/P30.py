"""P30: tracking commutes with moving, mirroring, scaling and relabelling axes, points and detections."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
TECH = "exhaustive exploration of detection histories on the real tracker, each compared with its images under a group of symmetries (metamorphic oracle)"
RULE = "one execution = one history run untransformed and under every symmetry of the configuration, compared after every update; states = distinct (configuration, tracker state) reached; distinct outcomes = distinct final states"
BOUNDS = {
    "quick": "all histories of 4 frames (3 for some distances and filters) over 7 frames (0-3 detections, moving, crossing, partially scored) x 5 shapes (1-3 points, 2-3 dimensions) x 4-7 distances x 3 filters x 10-15 symmetries, the shifts that put a detected point of the last two frames at the origin or on an axis and all orders of the detections; crowds of 5 to 129 detections (40 sizes) over 5 frames in 4 orders",
    "thorough": "histories of 5 frames",
}
ASSUMPTIONS = ["histories in which two candidate distances, or a distance and the threshold, are closer than 1e-6 are not compared (counted as ties)", "floating point tolerance 1e-6"]

# where objects are in the frames; no two distances are equal
A0, A1, B0, B1, C0 = (3.1, 7.3, 1.7), (6.4, 9.6, 2.9), (41.7, 12.9, 5.3), (37.2, 15.1, 4.1), (21.9, 33.7, 11.3)
FRAMES = {"-": [], "a": [A0], "m": [A1], "ab": [A0, B0], "ba": [B1, A1], "abc": [A1, B1, C0], "x": [(22.3, 11.2, 3.6)]}
OFFSETS = {1: [(0, 0, 0)], 2: [(-1.3, -2.1, 0.7), (2.2, 3.4, -1.9)], 3: [(-1.3, -2.1, 0.7), (2.2, 3.4, -1.9), (0.6, -2.7, 3.3)]}
FAR = np.array([420000.0, 6100000.0, -35000.0])  # metres of a map projection
SHAPES = [(1, 2), (2, 2), (3, 2), (1, 3), (2, 3)]


def bases(f):
    """where the objects of a frame are; a number stands for that many"""
    if isinstance(f, int):
        k = np.arange(f)
        return [tuple(b) for b in np.stack([45.0 * (k % 12) + 7 * np.abs(np.sin(k * 12.9898)), 55.0 * (k // 12) + 9 * np.abs(np.sin(k * 78.233)), 20 * np.abs(np.sin(k * 4.1414))], axis=1)]
    return FRAMES[f]


def size(f):
    return f if isinstance(f, int) else len(f)


def scalar(name):
    def f(det, obj):
        d = det.points - obj.estimate
        return float({"mean": np.sqrt((d ** 2).sum(axis=1)).mean(), "max": np.sqrt((d ** 2).sum(axis=1)).max()}[name])

    return f


# name -> (distance, threshold for the untransformed history, threshold scales)
DIST = {
    "mean_euclidean": ("mean_euclidean", 13.0, True),
    "frobenius": ("frobenius", 19.0, True),
    "mean_manhattan": ("mean_manhattan", 17.0, True),
    "euclidean": ("euclidean", 19.0, True),
    "cityblock": ("cityblock", 33.0, True),
    "callable": (scalar("max"), 14.0, True),
    "iou": ("iou", 0.97, False),
}


def symmetries(points, dims, dist):
    """(name, matrix, shift, permutation of points, scale of distances)"""
    I = np.eye(dims)
    out = []
    sh = np.array([1000.5, -77.25, 31.0][:dims])
    rev = tuple(range(points))[::-1]
    ident = tuple(range(points))
    swap = I[[1, 0] + list(range(2, dims))]
    iou = dist == "iou"
    out.append(("shift", I, sh, ident, 1.0))
    out.append(("shift-small", I, -sh / 97, ident, 1.0))
    out.append(("shift-far", I, FAR[:dims], ident, 1.0))
    out.append(("axes exchanged", swap, 0 * sh, ident, 1.0))
    if dims == 3:
        out.append(("axes rotated", I[[1, 2, 0]], sh / 7, ident, 1.0))
    for s in (4.0, 0.125, 3.0, 1e-5, 3e4):
        out.append(("scale %s" % s, I * s, 0 * sh, ident, s))
    out.append(("turned", -I, sh, rev if iou else ident, 1.0))
    if not iou:
        m = I.copy()
        m[0, 0] = -1
        out.append(("mirror", m, 0 * sh, ident, 1.0))
        out.append(("mirror and exchange", m @ swap, sh, rev, 1.0))
        if points > 1:
            out.append(("points reversed", I, 0 * sh, rev, 1.0))
            out.append(("points rotated", I, 0 * sh, ident[1:] + ident[:1], 1.0))
    return out


def place(k, j, base, points, dims, crowd=False):
    """points of detection j of frame k; the jitter avoids equal distances"""
    jit = abs(np.sin((k + 1) * 1.7 + (j + 1) * np.array([2.3, 3.1, 0.9]))) if crowd else np.array([(k * 0.377 + j * 0.211) % 0.5, (k * 0.193 + j * 0.467) % 0.6, (k * 0.271 + j * 0.119) % 0.4])
    return (np.array(base)[None, :] + np.array(OFFSETS[points]) + jit).astype(float)[:, :dims]


def run(conf, frames, A=None, b=None, perm=None, s=1.0, orders=None):
    points, dims, dist, filt, thr, scored = conf
    fn, t, scales = DIST[dist]
    A = np.eye(dims) if A is None else A
    b = np.zeros(dims) if b is None else b
    perm = tuple(range(points)) if perm is None else perm
    tr = Tracker(fn, t * (s if scales else 1.0), hit_counter_max=4, initialization_delay=1, pointwise_hit_counter_max=2, detection_threshold=0.5 if scored else 0,
                 filter_factory=FILTERS[filt](), past_detections_length=2)
    out = []
    for k, f in enumerate(frames):
        dets = []
        for j, base in enumerate(bases(f)):
            p = (place(k, j, base, points, dims, isinstance(f, int)) @ A.T + b)[list(perm)]
            sc = None
            if scored:
                sc = np.array([0.9 if (i + j + size(f)) % 2 or points == 1 else 0.2 for i in range(points)])[list(perm)]
            dets.append(Detection(p, scores=sc))
        if orders is not None:
            dets = [dets[i] for i in orders[k]]
        act = tr.update(dets)
        rows = []
        for o in tr.tracked_objects:
            rows.append(dict(o=o.initializing_id, id=o.id, age=o.age, hc=o.hit_counter, live=np.array(o.live_points, dtype=bool), est=o.estimate.copy(), vel=o.estimate_velocity.copy(),
                             ld=o.last_distance, last=np.array(o.last_detection.points), past=len(o.past_detections), init=bool(o.is_initializing)))
        out.append((rows, [o.id for o in act]))
    return out


def ties(conf, frames):
    """smallest relative gap of the distances compared in the untransformed run, from the public objects"""
    points, dims, dist, filt, thr, scored = conf
    fn, t, _ = DIST[dist]
    gap = [np.inf]
    got = []

    def spy(det, obj):
        d = float(np.abs(base(det, obj)))
        got.append(d)
        return d

    base = spy_base(dist)
    tr = Tracker(spy, t, hit_counter_max=4, initialization_delay=1, pointwise_hit_counter_max=2, detection_threshold=0.5 if scored else 0, filter_factory=FILTERS[filt](), past_detections_length=2)
    for k, f in enumerate(frames):
        got.clear()
        dets = []
        for j, bp in enumerate(bases(f)):
            p = place(k, j, bp, points, dims, isinstance(f, int))
            sc = np.array([0.9 if (i + j + size(f)) % 2 or points == 1 else 0.2 for i in range(points)]) if scored else None
            dets.append(Detection(p, scores=sc))
        tr.update(dets)
        vals = sorted([g for g in got if g <= t + 1e-3] + [t])  # what is beyond the threshold does not matter
        for x, y in zip(vals, vals[1:]):
            gap[0] = min(gap[0], y - x)
    return gap[0]


def spy_base(dist):
    from norfair import distances as D

    if dist == "callable":
        return DIST[dist][0]
    if dist == "iou":
        return lambda d, o: float(D.iou(d.points.reshape(1, -1), o.estimate.reshape(1, -1))[0, 0])
    if dist in ("euclidean", "cityblock"):
        return lambda d, o: float(np.sqrt(((d.points - o.estimate) ** 2).sum()) if dist == "euclidean" else np.abs(d.points - o.estimate).sum())
    return getattr(D, dist)


def near(a, b, scale):
    return a.shape == b.shape and bool((np.abs(a - b) <= 1e-6 * scale).all())


def compare(base, img, sym, what):
    name, A, b, perm, s = sym
    perm = list(perm)
    for k, ((rows, act), (rows2, act2)) in enumerate(zip(base, img)):
        at = lambda: "%s, frame %d" % (what, k)
        require(len(rows) == len(rows2), lambda: "%s: %d objects instead of %d" % (at(), len(rows2), len(rows)))
        require(act == act2, lambda: "%s: other ids are returned: %s instead of %s" % (at(), act2, act))
        for r, q in zip(rows, rows2):
            for key in ("o", "id", "age", "hc", "init", "past"):
                require(r[key] == q[key], lambda: "%s: %s is %s instead of %s" % (at(), key, q[key], r[key]))
            require((r["live"][perm] == q["live"]).all(), lambda: "%s: other points are live" % at())
            scale = min(s, 1) + max(np.abs(q["est"]).max(), np.abs(b).max())
            require(near((r["est"] @ A.T + b)[perm], q["est"], scale), lambda: "%s: estimate %s, expected %s" % (at(), q["est"].tolist(), (r["est"] @ A.T + b)[perm].tolist()))
            require(near((r["vel"] @ A.T)[perm], q["vel"], scale), lambda: "%s: velocity %s, expected %s" % (at(), q["vel"].tolist(), (r["vel"] @ A.T)[perm].tolist()))
            require(near((r["last"] @ A.T + b)[perm], q["last"], scale), lambda: "%s: another detection is the last one" % at())
            require((r["ld"] is None) == (q["ld"] is None) and (r["ld"] is None or abs(r["ld"] * s - q["ld"]) <= 1e-6 * scale), lambda: "%s: last distance %s, expected %s" % (at(), q["ld"], r["ld"]))


def key(r):
    return (r["age"], r["hc"], r["init"], r["past"], tuple(r["live"].tolist()), tuple(np.round(r["est"], 6).ravel().tolist()), tuple(np.round(r["vel"], 6).ravel().tolist()),
            tuple(np.round(r["last"], 6).ravel().tolist()), None if r["ld"] is None else round(float(r["ld"]), 5))


def compare_order(base, img, what):
    ids, oids = {}, {}
    for k, ((rows, act), (rows2, act2)) in enumerate(zip(base, img)):
        r1, r2 = sorted(rows, key=key), sorted(rows2, key=key)
        require(len(r1) == len(r2) and all(close_rows(a, b) for a, b in zip(r1, r2)), lambda: "%s: frame %d gives other objects" % (what, k))
        require(len(act) == len(act2), lambda: "%s: frame %d returns other objects" % (what, k))
        for a, b in zip(r1, r2):
            require(ids.setdefault(a["o"], b["o"]) == b["o"], lambda: "%s: frame %d exchanges objects" % (what, k))
            if a["id"] is not None:
                require(oids.setdefault(a["id"], b["id"]) == b["id"], lambda: "%s: frame %d changes ids" % (what, k))
            require((a["id"] in act) == (b["id"] in act2), lambda: "%s: frame %d returns other objects" % (what, k))
    require(len(set(ids.values())) == len(ids) and sorted(oids) == sorted(oids.values()), lambda: "%s: other ids are given out" % what)


def close_rows(a, b):
    return all(a[k] == b[k] for k in ("age", "hc", "init", "past")) and (a["live"] == b["live"]).all() and all(near(a[k], b[k], 1000) for k in ("est", "vel", "last")) and (
        (a["ld"] is None) == (b["ld"] is None) and (a["ld"] is None or abs(a["ld"] - b["ld"]) < 1e-5))


def run_case(case, rec):
    conf, frames = case
    points, dims, dist, filt, thr, scored = conf
    if ties(conf, frames) < 1e-6:
        rec.count("ties")
        return
    base = run(conf, frames)
    for rows, act in base:
        rec.state((conf, tuple(key(r) + (r["id"],) for r in rows)))
    rec.outcome((conf, tuple(key(r) + (r["id"],) for r in base[-1][0])))
    # shifts that put a point of some detection exactly at the origin, or on an axis
    origins = []
    crowd = isinstance(frames[0], int)
    for k, f in enumerate(() if crowd else frames):
        if FRAMES[f] and k >= len(frames) - (2 if scored else 1):
            p = place(k, 0, FRAMES[f][0], points, dims)
            for i in range(points if scored else 1):
                origins.append(("point %d of frame %d at the origin" % (i, k), np.eye(dims), -p[i], tuple(range(points)), 1.0))
            if k == len(frames) - 1 and scored:
                for ax in range(dims):
                    origins.append(("point 0 of frame %d on axis %d" % (k, ax), np.eye(dims), -p[0] * (np.arange(dims) == ax), tuple(range(points)), 1.0))
    for sym in symmetries(points, dims, dist) + origins:
        if crowd and sym[0].startswith(("scale 0", "scale 4", "scale 3", "mirror", "shift-small")) and size(frames[0]) > 20:
            continue
        img = run(conf, frames, sym[1], sym[2], sym[3], sym[4])
        compare(base, img, sym[:4] + (sym[4] if DIST[dist][2] else 1.0,), sym[0])
        rec.step(len(frames))
    if crowd:
        for name, order in (("reversed", lambda n, k: range(n)[::-1]), ("rotated", lambda n, k: [(i + n // 2) % n for i in range(n)]), ("shuffled", lambda n, k: sorted(range(n), key=lambda i: np.sin(i * 12.9 + k)))):
            compare_order(base, run(conf, frames, orders=[list(order(size(f), k)) for k, f in enumerate(frames)]), "detections " + name)
            rec.step(len(frames))
        return
    perms = [list(itertools.permutations(range(len(FRAMES[f])))) for f in frames]
    for n, orders in enumerate(itertools.product(*perms)):
        if n == 0:
            continue
        if n > 5 and orders != tuple(p[-1] for p in perms):
            continue
        img = run(conf, frames, orders=orders)
        compare_order(base, img, "detections in order %s" % (orders,))
        rec.step(len(frames))


def configurations():
    out = []
    for (points, dims) in SHAPES:
        for dist in DIST:
            if dist == "iou" and (points, dims) != (2, 2):
                continue
            for filt in FILTERS:
                if filt == "fpy" and dist not in ("mean_euclidean", "callable"):
                    continue
                if filt == "no" and dist in ("frobenius", "cityblock"):
                    continue
                for scored in (0, 1):
                    if scored and (dist not in ("mean_euclidean", "iou", "euclidean") or points == 1 and dist != "euclidean"):
                        continue
                    out.append((points, dims, dist, filt, 0, scored))
    return out


def shards(tier):
    def length(c):
        if tier == "thorough":
            return 5
        return 4 if c[2] in ("mean_euclidean", "iou") and c[3] == "opt" and ((c[0], c[1]) in ((1, 2), (2, 2)) or (c[0], c[1]) == (2, 3) and c[3] == "opt" and not c[5]) else 3

    out = [(c, f, length(c)) for c in configurations() for f in FRAMES if f != "-"]
    for n in SIZES:
        for c in configurations():
            big = c[2] in ("euclidean", "cityblock", "iou") and c[3] == "opt"
            if n <= (150 if tier == "thorough" else 129 if c[0] == 2 else 65) and big and (c[0], c[1]) in ((1, 2), (2, 2), (2, 3)) or n <= 10 and c[0] == 2:
                out.append((c, n, 0))
    return out


def run_shard(shard, rec):
    c, f, n = shard
    if not n:
        rec.case((c, (f, f, f // 2, f - 1, f)))
        return
    for rest in itertools.product(FRAMES, repeat=n - 1):
        rec.case((c, (f,) + rest))
