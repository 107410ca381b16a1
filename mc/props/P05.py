"""P05: every detection is used exactly once; empty frames are equivalent; inputs are left alone."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
RULE = "distinct_nontrivial = distinct histories of (matched, created, kept) sets observed on the real tracker"
BOUNDS = {
    "quick": "all histories of 3 frames over 12 multisets of detections at two locations and a contended middle one, for 11"
    " configurations (negative scores and a subclass of Detection among them; 4 frames for 2 of them), words of up to 2 frames repeated to 24; all histories of 3 frames over 9 frames with several equal detections, at the origin among other places, for 7 configurations; all histories of 3 frames over 7 ways of repeating one instance within a list, for 5 configurations; 45 sizes from 5 to 301 objects for 11 configurations; all histories of 5 frames over 4 frames contents for the empty-frame and"
    " aliasing variants (5 variants each); 9 kinds of arrays (a single vector, read-only, views, other orders and types) x 5 configurations x all histories of 4 frames",
    "thorough": "4 frames (5 for two configurations), variants over 7 frames, kinds of arrays over 5",
}
ASSUMPTIONS = ["an instance given k times in a frame must become the last detection of k objects; instances are not reused in later frames"]

FRAMES = [(a, b, m) for a in (0, 1, 2) for b in (0, 1) for m in (0, 1)]
CONFS = ["euc", "iou", "scal", "init0", "reid", "reidw", "cam", "score", "wide", "neg", "sub"]


class Labelled(Detection):
    """a user's own detection class"""

    def __init__(self, points, extra, **kw):
        super().__init__(points, **kw)
        self.extra = extra


def make(conf):
    if conf == "iou":
        return Tracker("iou", 0.9, hit_counter_max=3, initialization_delay=1, filter_factory=FilterPyKalmanFilterFactory())
    if conf == "scal":
        return Tracker(center_distance, 30, hit_counter_max=2, initialization_delay=1, past_detections_length=0)
    if conf == "init0":
        return Tracker("euclidean", 30, hit_counter_max=1, initialization_delay=0, filter_factory=NoFilterFactory())
    if conf in ("reid", "reidw"):
        w = conf == "reidw"
        return Tracker("euclidean", 14, hit_counter_max=3 if w else 2, initialization_delay=1 if w else 0,
                       reid_distance_function=lambda new, old: float(np.abs(new.estimate - old.estimate).max()),
                       reid_distance_threshold=200.0 if w else 45.0, reid_hit_counter_max=2 if w else 1)
    if conf == "score":
        return Tracker("mean_euclidean", 30, hit_counter_max=3, initialization_delay=1, detection_threshold=0.5)
    if conf == "neg":
        return Tracker("mean_euclidean", 30, hit_counter_max=3, initialization_delay=1, detection_threshold=-0.5)
    if conf == "sub":
        return Tracker("euclidean", 14, hit_counter_max=2, initialization_delay=0, reid_distance_function=lambda new, old: float(np.abs(new.estimate - old.estimate).max()),
                       reid_distance_threshold=45.0, reid_hit_counter_max=1)
    if conf == "wide":
        return Tracker("frobenius", 1e6, hit_counter_max=3, initialization_delay=2)
    return Tracker("euclidean", 30, hit_counter_max=3, initialization_delay=1)


def det(conf, x, t, k):
    scores = None
    y = 2.0 * k
    if conf == "cam":
        x, y = x + 5 * t, y - 2 * t
    pts = np.array([[x, y], [x + 40.0, y + 30.0]])
    if conf == "score":
        scores = np.array([0.9, 0.1]) if k else np.array([0.2, 0.3])
    if conf == "neg":
        scores = np.array([-0.9, 0.3]) if k else np.array([3.0, -0.2])
    if conf == "sub":
        return Labelled(pts, k, scores=scores, data=(t, k, x))
    return Detection(pts, scores=scores, data=(t, k, x), label="z" if conf == "wide" else None)


def frame_dets(conf, f, t):
    a, b, m = f
    out = [det(conf, 0.0, t, i) for i in range(a)] + [det(conf, 40.0, t, 5 + i) for i in range(b)]
    out += [det(conf, 20.0, t, 9 + i) for i in range(m)]
    if t % 2:
        out.reverse()
    return out


def shards(tier):
    th = tier == "thorough"
    out = []
    for conf in CONFS:
        n = 4 if th else 3
        if conf in ("euc", "reidw"):
            n += 1
        for f in range(len(FRAMES)):
            out.append(("plain", conf, n, (f,)))
        for f in range(len(FRAMES)):
            out.append(("lasso", conf, 3 if th else 2, (f,)))
    for n in SIZES:
        out.append(("crowd", n, 0, ()))
    for conf in ("euc", "scal", "init0", "iou", "reid", "wide", "score"):
        for f in range(len(TWINS)):
            out.append(("twins", conf, 4 if th else 3, (f,)))
    for conf in ("euc", "scal", "init0", "cam", "iou"):
        for f in range(len(REPEATS)):
            out.append(("repeat", conf, 4 if th else 3, (f,)))
    for conf in ("euc", "reidw", "cam", "score", "init0", "neg", "sub"):
        for f in range(4):
            out.append(("variants", conf, 7 if th else 5, (f,)))
    for conf in FORMCONFS:
        for form in FORMS:
            out.append(("form", conf, 5 if th else 4, form))
    return out


def run_shard(shard, rec):
    kind, conf, n, pre = shard
    if kind == "crowd":
        for c in CONFS:
            if conf <= (70 if c in ("scal", "score", "neg", "wide", "iou") else 301):
                for hist in ((0, 0, 1, 0), (1, 0, 3), (2, 3, 0)) if c in ("reid", "reidw", "sub") else ((0, 1), (2, 0)):
                    rec.case(("crowd", c, conf, hist))
        return
    if kind == "form":
        for w in itertools.product(range(len(FORMFRAMES)), repeat=n):
            if any(w):
                rec.case(("form", conf, pre, w))
        return
    if kind == "lasso":
        for h in lassos(range(len(FRAMES)), n, 24):
            if h[0] == pre[0]:
                rec.case(("plain", conf, h))
        return
    alpha = range(len(FRAMES)) if kind == "plain" else range(len(REPEATS)) if kind == "repeat" else range(len(TWINS)) if kind == "twins" else range(4)
    for w in itertools.product(alpha, repeat=n - len(pre)):
        rec.case((kind, conf, pre + w))


def kwargs(conf, t):
    return dict(coord_transformations=TranslationTransformation(np.array([5.0 * t, -2.0 * t]))) if conf == "cam" else {}


def crowd(conf, n, kind, t):
    """many things at once: all, all but every third with newcomers, half of them twice, none"""
    def one(i, k=0):
        x, y = 60.0 * (i % 17) + t, 50.0 * (i // 17) + 2.0 * k
        if conf == "cam":
            x, y = x + 5 * t, y - 2 * t
        pts = np.array([[x, y], [x + 40.0, y + 30.0]])
        scores = None
        if conf in ("score", "neg"):
            scores = np.array([0.9, 0.1]) if i % 2 else np.array([-0.6, 0.3])
        if conf == "sub":
            return Labelled(pts, k, scores=scores, data=(t, k, i))
        return Detection(pts, scores=scores, data=(t, k, i), label="z" if conf == "wide" else None)

    if kind == 0:
        return [one(i) for i in range(n)]
    if kind == 1:
        return [one(i) for i in range(n + n // 3 + 1) if i % 3]
    if kind == 2:
        return [one(i, k) for k in (0, 1) for i in range(n - n // 2)]
    return []


def run_case(case, rec):
    if case[0] == "crowd":
        return run_plain(case[1], [crowd(case[1], case[2], k, t) for t, k in enumerate(case[3])], rec, 0)
    if case[0] == "variants":
        return run_variants(case, rec)
    if case[0] == "form":
        return run_form(case, rec)
    if case[0] == "repeat":
        return run_repeat(case, rec)
    _, conf, hist = case
    if case[0] == "twins":
        return run_plain(conf, [twins(conf, TWINS[k], t) for t, k in enumerate(hist)], rec, 1)
    run_plain(conf, [frame_dets(conf, FRAMES[fi], t) for t, fi in enumerate(hist)], rec, 1)


def run_plain(conf, frames, rec, state):
    tr = make(conf)
    trail = []
    for t, dets in enumerate(frames):
        before = list(tr.tracked_objects)
        last = [o.last_detection for o in before]
        saved = [(d, d.points.copy(), None if d.scores is None else d.scores.copy(), d.points, d.scores, d.data, d.label) for d in dets]
        lst = list(dets)
        tr.update(lst, **kwargs(conf, t))
        require(len(lst) == len(dets) and all(a is b for a, b in zip(lst, dets)), "frame %d: the caller's list was modified" % t)
        for d, p, s, pp, ss, data, lab in saved:
            require(d.points is pp and np.array_equal(d.points, p), "frame %d: points of a detection were modified" % t)
            require(d.scores is ss and (s is None or np.array_equal(d.scores, s)), "frame %d: scores of a detection were modified" % t)
            require(d.data == data and d.label == lab, "frame %d: data or label of a detection changed" % t)
        now = list(tr.tracked_objects)
        require(len(set(map(id, now))) == len(now), "frame %d: an object is listed twice" % t)
        matched, created = [], []
        known, mine = set(map(id, before)), {}
        for o in now:
            mine.setdefault(id(o.last_detection), []).append(o)
        for i, d in enumerate(dets):
            own = mine.get(id(d), [])
            require(len(own) == 1, lambda: "frame %d: detection %d is the last detection of %d objects" % (t, i, len(own)))
            (matched if id(own[0]) in known else created).append(i)
        new = [o for o in now if id(o) not in known]
        given = set(map(id, dets))
        require(len(new) == len(created), lambda: "frame %d: %d objects created for %d unmatched detections" % (t, len(new), len(created)))
        for b, l in zip(before, last):
            require(b.last_detection is l or id(b.last_detection) in given, lambda: "frame %d: last detection of an unmatched object changed" % t)
        trail.append((len(matched), len(created), len(now)))
    rec.outcome((conf, tuple(trail)))
    if state:
        rec.state(snapshot(tr))
    rec.step(len(frames))


# how many detections with the very same contents: at the origin (all coordinates zero where a distance allows), at (40, 0), at (7, -3)
TWINS = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 1), (2, 2, 0), (0, 2, 0), (0, 0, 2), (0, 1, 3), (2, 1, 2)]


def twins(conf, counts, t):
    out = []
    for (x, y), n in zip(((0.0, 0.0), (40.0, 0.0), (7.0, -3.0)), counts):
        for k in range(n):
            pts = np.array([[x, y], [x + 40.0, y + 30.0]] if conf == "iou" else [[x, y], [x, y]])
            out.append(Detection(pts, scores=np.array([0.9, 0.0]) if conf == "score" else None, label="z" if conf == "wide" else None))
    return out[::-1] if t % 2 else out


# how often the instance at the left and the one at the right location are given
REPEATS = [(0, 0), (1, 0), (2, 0), (1, 1), (2, 1), (3, 1), (2, 2)]


def run_repeat(case, rec):
    """the same instance several times in one list is as many detections"""
    _, conf, hist = case
    tr = make(conf)
    trail = []
    for t, f in enumerate(hist):
        a, b = det(conf, 0.0, t, 0), det(conf, 40.0, t, 5)
        na, nb = REPEATS[f]
        dets = [x for pair in itertools.zip_longest([a] * na, [b] * nb) for x in pair if x is not None]
        before = list(tr.tracked_objects)
        tr.update(list(dets), **kwargs(conf, t))
        now = list(tr.tracked_objects)
        for d, n in ((a, na), (b, nb)):
            own = [o for o in now if o.last_detection is d]
            require(len(own) == n, lambda: "frame %d: an instance given %d times is the last detection of %d objects" % (t, n, len(own)))
        new = [o for o in now if not any(o is x for x in before)]
        require(all(any(o.last_detection is d for d in dets) for o in new), "frame %d: object created without a detection" % t)
        trail.append((len(new), len(now)))
    rec.outcome((conf, "repeat", tuple(trail)))
    rec.step(len(hist))


VFRAMES = [(0, 0, 0), (1, 0, 0), (0, 0, 1), (1, 1, 0)]


def run_variants(case, rec):
    _, conf, hist = case
    results = {}
    for variant in ("list", "none", "omit", "mutate", "tuple"):
        tr = make(conf)
        snaps = []
        for t, f in enumerate(hist):
            dets = frame_dets(conf, VFRAMES[f], t)
            kw = kwargs(conf, t)
            if not dets and variant == "none":
                ret = tr.update(None, **kw)
            elif not dets and variant == "omit":
                ret = tr.update(**kw)
            elif not dets and variant == "tuple":
                ret = tr.update(detections=[], period=1, **kw)
            else:
                ret = tr.update(dets, **kw)
            snaps.append((snapshot(tr), tuple(sorted(o.id for o in ret))))
            if variant == "mutate":
                for d in dets:
                    d.points += 1000.0
                dets.clear()
                for o in ret:
                    o.estimate[:] = -7.0
                    o.estimate_velocity[:] = 5.0
                    if conf == "cam":
                        o.get_estimate(absolute=True)[:] = 3.0
                    o.live_points[:] = False
                ret.clear()
        results[variant] = snaps
    for v in ("none", "omit", "tuple"):
        require(results[v] == results["list"], lambda: "empty frames given as %s instead of [] change the outcome: %s" % (v, diff(results[v], results["list"])))
    require(results["mutate"] == results["list"], lambda: "writes by the caller after update change the tracker: %s" % diff(results["mutate"], results["list"]))
    rec.outcome((conf, tuple(map(repr, results["list"]))))
    rec.state((conf, tuple(map(repr, results["list"]))))
    rec.step(5 * len(hist))


FORMS = ("vector", "readonly", "fortran", "view", "backwards", "broadcast", "int64", "int32", "float32")
FORMCONFS = {
    "opt": lambda: Tracker("euclidean", 30, hit_counter_max=3, initialization_delay=1, detection_threshold=0.5),
    "fpy": lambda: Tracker("mean_euclidean", 30, hit_counter_max=3, initialization_delay=0, filter_factory=FilterPyKalmanFilterFactory(), detection_threshold=0.5),
    "no": lambda: Tracker("frobenius", 50, hit_counter_max=2, initialization_delay=0, filter_factory=NoFilterFactory(), detection_threshold=0.5),
    "cam": lambda: Tracker("cityblock", 50, hit_counter_max=3, initialization_delay=0, detection_threshold=0.5),
    "iou": lambda: Tracker("iou", 0.9, hit_counter_max=3, initialization_delay=0),
}
# (where, which points are detected)
FORMFRAMES = [(), ((0, (1, 1)),), ((0, (1, 0)),), ((0, (0, 1)), (300, (1, 1)))]


def formed(form, pts):
    """the same numbers in another kind of array, and the array that belongs to the caller"""
    base = np.array(pts)
    if form == "readonly":
        base.flags.writeable = False
    elif form == "fortran":
        base = np.asfortranarray(base)
    elif form in ("int64", "int32", "float32"):
        base = base.astype(form)
    elif form == "view":
        big = np.full((2 * len(pts) + 1,) + ((7,) if base.ndim > 1 else ()), -999.0)
        v = big[1::2, 2:6:2] if base.ndim > 1 else big[1::2]
        v[...] = base
        return v, big
    elif form == "backwards":
        big = base[::-1].copy()
        return big[::-1], big
    elif form == "broadcast" and base.ndim > 1 and len(base) == 2 and (base[0] == base[1]).all():
        return np.broadcast_to(base[0], base.shape), base
    return base, base


def run_form(case, rec):
    _, conf, form, hist = case
    results = []
    for f in ("plain", form):
        tr = FORMCONFS[conf]()
        snaps, kept = [], []
        for t, k in enumerate(hist):
            dets = []
            for i, (x, live) in enumerate(FORMFRAMES[k]):
                one = form == "vector"
                p = [x + 5.0 * t, 7.0 + 3 * t] if one else [[x + 5.0 * t, 7.0 + 3 * t]] * 2 if form == "broadcast" and conf != "iou" else [[x + 5.0 * t, 7.0 + 3 * t], [x + 40.0, 90.0]]
                if one and conf == "iou":
                    p = [x + 5.0 * t, 7.0, 300.0 + t, 90.0]
                pts, owned = formed(f, [p] if one and f == "plain" else p)
                s = None
                if conf != "iou":
                    s = [float(v) for v in (live[:1] if one else live)]
                    s = np.array(s)
                    if f == "readonly":
                        s.flags.writeable = False
                    if f in ("int64", "int32", "float32"):
                        s = s.astype(f)
                    if f == "view":
                        s = np.repeat(s, 3)[::3]
                    if f == "backwards":
                        s = s[::-1].copy()[::-1]
                kept.append((pts, pts.shape, pts.strides, owned, owned.copy(), s, None if s is None else s.copy()))
                dets.append(Detection(pts, scores=s))
            kw = kwargs(conf, t)
            ret = tr.update(dets, **kw)
            snaps.append(([o.id for o in ret], [(o.id, o.age, o.hit_counter, o.estimate.tolist(), o.estimate_velocity.tolist(), o.live_points.tolist(), o.last_distance) for o in tr.tracked_objects]))
            for pts, shape, strides, owned, was, s, swas in kept:
                require(pts.shape == shape and pts.strides == strides, lambda: "frame %d: the caller's array became one of shape %s" % (t, pts.shape))
                require(np.array_equal(owned, was), "frame %d: the caller's array was modified" % t)
                require(s is None or np.array_equal(s, swas), "frame %d: the caller's scores were modified" % t)
        results.append(snaps)
    for t, (a, b) in enumerate(zip(*results)):
        require(alike(a, b), lambda: "frame %d: points given as %s: %s instead of %s" % (t, form, b, a))
    rec.outcome((conf, form, repr(results[1])))
    rec.step(2 * len(hist))


def alike(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a is not None and b is not None and abs(a - b) <= 1e-5 * max(1, abs(a))
    return a == b


def diff(a, b):
    for t, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "frame %d: %s / %s" % (t, x, y)
