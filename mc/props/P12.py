"""P12: tracking is invariant to camera motion when transformations are given."""
import itertools

import numpy as np

from ..common import *
from norfair.camera_motion import HomographyTransformation

LEVEL = "model_checking"
RULE = "every history is run with a moving and with a static camera; distinct_nontrivial = distinct (camera path, resulting tracks)"
BOUNDS = {
    "quick": "all histories of 3 frames (4 for two configurations) over 4 presence subsets of two moving objects x 3 camera poses,"
    " words of up to 2 of these repeated to 14 frames, translations and homographies (near and 100000 pixels away), three filters, 1-3 points, ReID; 5 to 301 objects, or points of an object (45 sizes), on 3 camera paths; shared/reused detections: all pairs of transformations, all orders",
    "thorough": "5 frames for every configuration",
}
ASSUMPTIONS = ["the transformations given are the true ones (their estimation is P17/P18); every frame has a transformation"]

MOVES = [(0.0, 0.0), (40.0, -25.0), (-300.0, 7.5)]
HOMS = [
    ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)),
    ((0.9, -0.3, 25.0), (0.3, 0.9, -10.0), (0.0, 0.0, 1.0)),
    ((1.2, 0.1, -40.0), (0.0, 0.8, 12.0), (0.0004, -0.0002, 1.0)),
]
FAR = np.array([1e5, 3e4])  # the camera has travelled far from where it started
FARS = [
    ((1.0, 0.0, -1e5), (0.0, 1.0, -3e4), (0.0, 0.0, 1.0)),
    ((1.0, 0.0, -1e5 + 40.0), (0.0, 1.0, -3e4 - 25.0), (0.0, 0.0, 1.0)),
    ((0.9, -0.3, -0.9 * 1e5 + 0.3 * 3e4 + 25.0), (0.3, 0.9, -0.3 * 1e5 - 0.9 * 3e4 - 10.0), (0.0, 0.0, 1.0)),
]
CONFS = {
    "f-abs": ("f", "opt", "abs"), "f-fpy": ("f", "fpy", "abs"), "f-no": ("f", "no", "abs"),
    "t-euc": ("t", "opt", "euclidean"), "t-iou": ("t", "fpy", "iou"), "t-mm": ("t", "no", "mean_manhattan"), "t-abs": ("t", "opt", "abs"),
    "h-abs": ("h", "opt", "abs"), "h-fpy": ("h", "fpy", "abs"), "h-no": ("h", "no", "abs"), "t-reid": ("t", "opt", "euclidean"),
    "h-kp": ("h", "opt", "abs"), "t-vel": ("t", "fpy", "abs"),
    "h-3pt": ("h", "opt", "abs"), "t-1pt": ("t", "fpy", "frobenius"), "h-noid": ("h", "fpy", "abs"),
}


def to_rel(kind, i, pts):
    if kind == "t":
        return pts + np.array(MOVES[i])
    h = np.hstack([pts, np.ones((len(pts), 1))]) @ np.array((FARS if kind == "f" else HOMS)[i]).T
    return h[:, :2] / h[:, 2:]


def transform(kind, i):
    return TranslationTransformation(np.array(MOVES[i])) if kind == "t" else HomographyTransformation(np.array((FARS if kind == "f" else HOMS)[i]))


def shards(tier):
    th = tier == "thorough"
    out = []
    for c in CONFS:
        for m in range(4):
            for i in range(3):
                out.append(("hist", c, (m, i), 5 if th else 4 if c in ("t-euc", "h-abs") and i == 1 and m in (1, 3) else 3))
    out += [("crowd", k) for k in range(12)]
    out.append(("shared",))
    out.append(("refuse",))
    return out


def run_shard(shard, rec):
    if shard[0] == "hist":
        _, c, first, n = shard
        for w in itertools.product(itertools.product(range(4), range(3)), repeat=n - 1):
            rec.case(("hist", c, (first,) + w))
        if first == (3, 1):
            for h in lassos(itertools.product(range(4), range(3)), 3 if n == 5 else 2, 14, ((), (first,))):
                rec.case(("hist", c, h))
        if first[0] == 3:
            # long histories: gaps and returns while the camera jumps
            for gap in range(1, 6):
                for i in range(3):
                    for j in range(3):
                        rec.case(("hist", c, (first, (3, i)) + ((0, j), (0, i), (0, (i + j) % 3), (0, j), (0, i))[:gap] + ((3, j), (1, i), (3, 2))))
    elif shard[0] == "crowd":
        for n in SIZES[shard[1]::12]:
            for kind in "thf":
                for what in ("objects", "points"):
                    rec.case(("crowd", kind, what, n))
    elif shard[0] == "shared":
        for kind in "th":
            for seq in itertools.product(range(3), repeat=4):
                for trs in itertools.product((0, 1), repeat=4):
                    rec.case(("shared", kind, seq, trs))
    else:
        for fl in FILTERS:
            for hist in itertools.product((0, 1), repeat=3):
                rec.case(("refuse", fl, hist))


def absdist(det, obj):
    e = obj.get_estimate(absolute=obj.abs_to_rel is not None)
    return float(np.abs(det.absolute_points - e).max())


def abspoints(conf, k, t):
    v = (9.0 if conf == "t-vel" else 2.0) * (1 if k == 0 else -1)
    x = np.array([50.0 + 120.0 * k + v * t + 0.3 * t * t, 60.0 + 40 * k - t])
    if conf == "t-1pt":
        return np.array([x])
    if conf in ("h-3pt", "h-noid"):
        return np.array([x, x + [20.0, 31.0], x + [-5.0, 0.5 * t]])
    return np.array([x, x + [20.0, 31.0]])


def build(conf):
    kind, fl, dist = CONFS[conf]
    kw = {}
    if conf == "t-reid":
        kw = dict(reid_distance_function=lambda n, o: float(np.abs(n.estimate - o.estimate).max()), reid_distance_threshold=200.0, reid_hit_counter_max=3)
    thr = 0.95 if dist == "iou" else 30.0
    return Tracker(absdist if dist == "abs" else dist, thr, hit_counter_max=3, initialization_delay=1, detection_threshold=0.5,
                   filter_factory=FILTERS[fl](), **kw)


def table(tr, absolute):
    rows = {}
    for o in tr.tracked_objects:
        rows[o.initializing_id] = (o.id, o.age, o.hit_counter, o.reid_hit_counter, bool(o.is_initializing), o.last_detection.data,
                                   tuple(bool(b) for b in o.live_points)), np.array(o.get_estimate(absolute=True) if absolute else o.estimate), np.array(o.estimate_velocity), o
    return rows


def run_case(case, rec):
    if case[0] == "shared":
        return run_shared(case, rec)
    if case[0] == "crowd":
        return run_crowd(case, rec)
    if case[0] == "refuse":
        return run_refuse(case, rec)
    _, conf, hist = case
    kind = CONFS[conf][0]
    static, moving = build(conf), build(conf)
    for t, (mask, i) in enumerate(hist):
        T = transform(kind, i)
        a, b = [], []
        for k in range(2):
            if mask >> k & 1:
                p = abspoints(conf, k, t)
                if kind == "f":
                    p = p + FAR
                s = np.array([0.9, 0.9 if (t + k) % 3 else 0.2]) if conf == "h-kp" else None
                if conf == "h-3pt":  # the third point is first seen in frame 2
                    s = np.array([0.9, 0.9 if (t + k) % 3 else 0.2, 0.9 if t > 1 else 0.1])
                a.append(Detection(p.copy(), scores=s, data=(k, t)))
                b.append(Detection(to_rel(kind, i, p), scores=None if s is None else s.copy(), data=(k, t)))
        saved = [d.points.copy() for d in b]
        r1 = static.update(a)
        r2 = moving.update(b if b or t % 2 else None, coord_transformations=T)
        for d, s in zip(b, saved):
            require(np.array_equal(d.points, s), "frame %d: camera coordinates of a detection changed" % t)
        for d, e in zip(b, a):
            require(close(d.absolute_points, e.points), lambda: "frame %d: absolute points %s, expected %s" % (t, d.absolute_points.tolist(), e.points.tolist()))
        s, m = table(static, False), table(moving, True)
        require(sorted(map(repr, (x[0] for x in s.values()))) == sorted(map(repr, (x[0] for x in m.values()))),
                lambda: "frame %d: objects with static camera %s, with moving camera %s" % (t, sorted(x[0] for x in s.values()), sorted(x[0] for x in m.values())))
        by = {x[0][5]: x for x in m.values()}
        for x in s.values():
            y = by[x[0][5]]
            require(close(x[1], y[1], 1e-5), lambda: "frame %d: absolute estimate %s, static camera %s" % (t, y[1].tolist(), x[1].tolist()))
            require(close(x[2], y[2], 1e-5), lambda: "frame %d: velocity %s, static camera %s" % (t, y[2].tolist(), x[2].tolist()))
            rel = to_rel(kind, i, x[1])
            tol = 1e-8 if kind == "f" else 1e-5
            require(close(y[3].estimate, rel, tol) and close(y[3].get_estimate(), rel, tol), lambda: "frame %d: estimate %s, absolute estimate seen by the camera %s" % (t, y[3].estimate.tolist(), rel.tolist()))
        require(sorted(o.id for o in r1) == sorted(o.id for o in r2), "frame %d: returned ids" % t)
        rec.state((conf, i, tuple(sorted(repr(x[0]) for x in s.values()))))
    rec.outcome((conf, tuple(i for _, i in hist), tuple(sorted(repr(x[0]) for x in s.values()))))
    rec.step(2 * len(hist))


def run_crowd(case, rec):
    """many objects, or objects of many points"""
    _, kind, what, n = case
    nobj, npts = (n, 2) if what == "objects" else (2, n)
    pose = (1, 2, 0, 2, 1) if n % 2 else (2, 0, 1, 1, 2)

    def scene(t):
        k, j = np.arange(nobj)[:, None], np.arange(npts)[None, :]
        v = 0.8 * np.cos(k + 0.0)
        x = 60.0 * (k % 20) + v * t + 9.0 * np.sin(j * 1.7)
        y = 60.0 * (k // 20) + 0.7 * v * t + 9.0 * np.cos(j * 2.3)
        return np.stack([x + 0 * y, y], axis=2) + (FAR if kind == "f" else 0.0)

    mk = lambda: Tracker(absdist, 30.0, hit_counter_max=3, initialization_delay=1)
    if what == "objects":
        mk = lambda: Tracker("euclidean", 30.0 if kind == "t" else 20.0, hit_counter_max=3, initialization_delay=1)
    static, moving = mk(), mk()
    for t, i in enumerate(pose):
        pts = scene(t)
        shown = [k for k in range(nobj) if t != 2 or k % 3 == 0]
        a = [Detection(pts[k].copy(), data=(k, t)) for k in shown]
        b = [Detection(to_rel(kind, i, pts[k]), data=(k, t)) for k in shown]
        T = transform(kind, i)
        r1 = static.update(a)
        r2 = moving.update(b, coord_transformations=T)
        s = {x[0][5]: x for x in table(static, False).values()}
        m = {x[0][5]: x for x in table(moving, True).values()}
        require(len(s) == nobj == len(m), lambda: "frame %d: %d and %d objects" % (t, len(s), len(m)))
        for key, x in s.items():
            require(key in m, lambda: "frame %d: object last seen as %s is missing with a moving camera" % (t, key))
            y = m[key]
            require(x[0][1:] == y[0][1:] and (x[0][0] is None) == (y[0][0] is None), lambda: "frame %d: with static camera %s, with moving camera %s" % (t, x[0], y[0]))
            require(close(x[1], y[1], 1e-5), lambda: "frame %d: absolute estimate %s, static camera %s" % (t, y[1].tolist(), x[1].tolist()))
            require(close(x[2], y[2], 1e-5), lambda: "frame %d: velocity %s, static camera %s" % (t, y[2].tolist(), x[2].tolist()))
            require(close(y[3].estimate, to_rel(kind, i, x[1]), 1e-5), lambda: "frame %d: estimate" % t)
        for d, k in zip(b, shown):
            require(close(d.absolute_points, pts[k], 1e-6) and close(d.points, to_rel(kind, i, pts[k])), lambda: "frame %d: points of a detection" % t)
        require(sorted(o.last_detection.data for o in r1) == sorted(o.last_detection.data for o in r2), "frame %d: returned objects" % t)
        rec.step(2)
    rec.outcome(case)


def run_shared(case, rec):
    """the same detection objects are given to two trackers / again in later frames, with different camera poses"""
    _, kind, seq, trs = case
    trackers = [Tracker(absdist, 1e9, hit_counter_max=20, initialization_delay=0, filter_factory=NoFilterFactory()) for _ in range(2)]
    pts = np.array([[30.0, 40.0], [70.0, 85.0]])
    det = Detection(pts.copy())
    for i, k in zip(seq, trs):
        tr = trackers[k]
        tr.update([det], coord_transformations=transform(kind, i))
        inv = np.array(pts)
        if kind == "t":
            expected = inv - np.array(MOVES[i])
        else:
            h = np.hstack([inv, np.ones((2, 1))]) @ np.linalg.inv(np.array(HOMS[i])).T
            expected = h[:, :2] / h[:, 2:]
        require(np.array_equal(det.points, pts), "camera coordinates changed")
        require(close(det.absolute_points, expected), lambda: "absolute points %s, the transformation given maps the detection to %s" % (det.absolute_points.tolist(), expected.tolist()))
        require(len(tr.tracked_objects) == 1, "object count")
        (o,) = tr.tracked_objects
        require(close(o.get_estimate(absolute=True), expected), lambda: "absolute estimate %s, expected %s" % (o.get_estimate(absolute=True).tolist(), expected.tolist()))
        require(close(o.estimate, pts), lambda: "estimate %s, expected %s" % (o.estimate.tolist(), pts.tolist()))
        rec.step()
    rec.outcome((kind, seq, trs))


def run_refuse(case, rec):
    _, fl, hist = case
    tr = Tracker("euclidean", 30, hit_counter_max=9, initialization_delay=0, filter_factory=FILTERS[fl]())
    for t, h in enumerate((1,) + hist):
        tr.update([Detection(np.array([[1.0 * t, 2.0]]))] if h else None)
        for o in tr.tracked_objects:
            try:
                o.get_estimate(absolute=True)
            except ValueError:
                rec.step()
            else:
                raise Violation("absolute estimate returned though no transformation was ever given")
            require(close(o.get_estimate(absolute=False), o.estimate) and close(o.get_estimate(), o.estimate), "relative estimate")
    rec.outcome(case)
