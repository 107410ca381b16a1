"""P01: object lifecycle = documented hit counter, against a reference counter machine."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
RULE = (
    "every history is one complete run of the real Tracker compared after every update with the reference counter "
    "machine; distinct_nontrivial = distinct sequences of observable lifecycles"
)
BOUNDS = {
    "quick": "closure of two locations x periods 1-3 for hit_counter_max 1..4 with every delay (9 detection/distance/filter"
    " flavours on a subset); all 2^9 hit/miss strings for one location; run-length histories with the default 15;"
    " words of up to 3 letters (miss, hit of period 1, 2, 5, 20) repeated to 70 frames, counters up to 40",
    "thorough": "as quick with hit_counter_max 1..6, every flavour on every configuration, 2^12 strings, periods 1-4, words of 4 letters repeated to 120 frames",
}
ASSUMPTIONS = [
    "locations are far apart and objects do not move, so matching is unambiguous (ambiguous matching is P04)",
]

FLAVOURS = ["pt", "box", "p3", "kp", "lbl", "cam", "past0", "scal", "one"]


def make(flavour, H, delay):
    kw = dict(hit_counter_max=H, initialization_delay=delay)
    if flavour in ("pt", "lbl", "one"):
        return Tracker("euclidean", 50, **kw)
    if flavour == "cam":
        return Tracker("euclidean", 50, filter_factory=FilterPyKalmanFilterFactory(), **kw)
    if flavour == "box":
        return Tracker("iou", 0.9, filter_factory=FilterPyKalmanFilterFactory(), **kw)
    if flavour == "p3":
        return Tracker(static_distance, 50, filter_factory=NoFilterFactory(), **kw)
    if flavour == "kp":
        return Tracker("mean_euclidean", 50, detection_threshold=0.5, pointwise_hit_counter_max=2, **kw)
    if flavour == "past0":
        return Tracker("frobenius", 50, past_detections_length=0, pointwise_hit_counter_max=1, **kw)
    if flavour == "scal":
        return Tracker(static_distance, 50, past_detections_length=1, **kw)
    raise KeyError(flavour)


def detection(flavour, loc, t):
    x = 0.0 if flavour == "lbl" else FAR * loc
    if flavour == "box":
        return Detection(np.array([[x, x], [x + 10, x + 20]]))
    if flavour == "p3":
        return Detection(np.array([[x, 1.0, 2.0], [x, 3.0, -x]]))
    if flavour == "kp":
        s = [np.array([1.0, 0.2, 0.7]), np.array([0.1, 0.2, 0.3]), np.array([0.5, 0.9, 0.0])][(t + loc) % 3]
        return Detection(np.array([[x, 1.0], [x + 5, 2.0], [x + 9, 9.0]]), scores=s)
    if flavour == "lbl":
        return Detection(np.array([[x, 1.0]]), label=["a", None][loc])
    if flavour == "cam":
        return Detection(np.array([[x + 7 * t, 1.0 - 3 * t]]))
    if flavour == "one":
        return Detection(np.array([x, 5.0]))
    return Detection(np.array([[x, 1.0]]))


def shards(tier):
    out = []
    th = tier == "thorough"
    Hs = range(1, 7) if th else range(1, 5)
    periods = (1, 2, 3, 4) if th else (1, 2, 3)
    for H in Hs:
        for delay in [None] + list(range(H)):
            for fl in FLAVOURS:
                if th or fl in ("pt",) or (H, delay) in ((2, 0), (3, None), (4, 2)):
                    out.append(("bfs", fl, H, delay, periods))
    n = 12 if th else 9
    for fl in FLAVOURS:
        for pre in itertools.product((0, 1), repeat=2):
            for H, delay in ((3, 1), (15, None)) + (((4, 0), (5, 4)) if th else ()):
                if th or fl in ("pt", "box", "kp", "scal"):
                    out.append(("strings", fl, H, delay, n, pre))
    for fl in ("pt", "box", "p3", "cam"):
        out.append(("runs", fl, 15, None, 20 if th else 17))
        out.append(("runs", fl, 7, 6, 12))
    for H, delay in ((15, None), (40, 3), (15, 14), (3, 1)):
        for fl in ("pt", "kp", "past0", "scal") + (("box", "p3", "lbl", "cam") if th else ()):
            if th or fl == "pt" or H == 15:
                out.append(("lasso", fl, H, delay, 4 if th else 3, 120 if th else 70))
    for fl in ("pt", "kp", "scal", "p3"):
        out.append(("many", fl, 6 if th else 5))
    return out


def ref_step(state, action, H, d):
    """state: per location None or (c, init)"""
    p, mask = action
    out = []
    for i, s in enumerate(state):
        if s is not None and s[0] < 0:
            s = None
        if s is None:
            out.append((p, p > d) if mask >> i & 1 else None)
        else:
            c = s[0] - 1
            init = s[1]
            if mask >> i & 1:
                c = min(c + 2 * p, H)
                init = init or c > d
            out.append((c, init))
    return tuple(out)


def run_shard(shard, rec):
    kind = shard[0]
    if kind == "bfs":
        _, fl, H, delay, periods = shard
        d = effective_delay(H, delay)
        nloc = 1 if fl == "one" else 2
        acts = [(p, m) for p in periods for m in range(1 << nloc)]
        bfs(rec, ((None,) * nloc), acts, lambda s, a: ref_step(s, a, H, d),
            lambda h: rec.case((fl, H, delay, nloc, h)))
    elif kind == "strings":
        _, fl, H, delay, n, pre = shard
        for w in itertools.product((0, 1), repeat=n - len(pre)):
            rec.case((fl, H, delay, 1, tuple((1, b) for b in pre + w)))
    elif kind == "runs":
        _, fl, H, delay, n = shard
        for a in range(1, n):
            for b in range(1, n):
                w = (1,) * a + (0,) * b + (1,) * 3 + (0,) * (H + 2)
                rec.case((fl, H, delay, 1, tuple((1, x) for x in w)))
                if b % 4 == 1:
                    w = (1,) * a + (0,) * b + (1,) * 2
                    rec.case((fl, H, delay, 1, tuple((2, x) for x in w)))
    elif kind == "lasso":
        # long regular lives: words of misses and hits of several periods, repeated
        _, fl, H, delay, k, n = shard
        for h in lassos(((1, 0), (1, 1), (2, 1), (5, 1), (20, 1)), k, n, ((), ((20, 1), (1, 1)))):
            rec.case((fl, H, delay, 1, h))
    elif kind == "many":
        _, fl, n = shard
        # all 2^n hit strings at once: location i follows the bits of i
        for H, delay in ((2, 0), (3, None), (15, None)):
            for rot in range(n):
                hist = []
                for t in range(n + 1):
                    m = 0
                    for i in range(1 << n):
                        if t < n and i >> ((t + rot) % n) & 1:
                            m |= 1 << i
                    hist.append((1 + (t == rot), m))
                rec.case((fl, H, delay, 1 << n, tuple(hist)))


def run_case(case, rec):
    fl, H, delay, nloc, hist = case
    d = effective_delay(H, delay)
    tr = make(fl, H, delay)
    ref = [None] * nloc
    trail = []
    for t, (p, mask) in enumerate(hist):
        dets = {i: detection(fl, i, t) for i in range(nloc) if mask >> i & 1}
        lst = list(dets.values())
        kw = {}
        if fl == "cam":
            kw["coord_transformations"] = TranslationTransformation(np.array([7.0 * t, -3.0 * t]))
        if not lst and "coord_transformations" not in kw and t % 3 == 0:
            ret = tr.update(period=p)
        elif not lst and t % 3 == 1:
            ret = tr.update(None, period=p, **kw)
        else:
            ret = tr.update(lst, period=p, **kw)
        # reference
        for i in range(nloc):
            o = ref[i]
            if o is not None and o[0].c < 0:
                o = ref[i] = None
            if o is None:
                if i in dets:
                    ref[i] = [Life(p, d), None]
                    ref[i][1] = dets[i]
            else:
                o[0].step()
                if i in dets:
                    o[0].hit(p, H, d)
                    o[1] = dets[i]
        # the object at a location is the one whose last detection is the last detection fed there
        by_det = {}
        for o in tr.tracked_objects:
            k = id(o.last_detection)
            require(k not in by_det, "frame %d: two objects hold the same last detection" % t)
            by_det[k] = o
        expected_ret = set()
        known = set()
        for i, r in enumerate(ref):
            if r is None:
                continue
            life, det = r
            o = by_det.get(id(det))
            if o is None:
                require(life.c < 0, lambda: "frame %d location %d: object with hit counter %d does not exist" % (t, i, life.c))
                continue
            known.add(id(o))
            require(o.hit_counter == life.c, lambda: "frame %d location %d: hit_counter %s, expected %s" % (t, i, o.hit_counter, life.c))
            require(o.age == life.age, lambda: "frame %d location %d: age %s, expected %s" % (t, i, o.age, life.age))
            require(bool(o.is_initializing) == (not life.init), lambda: "frame %d location %d: is_initializing %s with counter %s" % (t, i, o.is_initializing, life.c))
            require((o.id is None) == (not life.init), lambda: "frame %d location %d: id %s while initialized=%s" % (t, i, o.id, life.init))
            if life.init and life.c >= 0:
                expected_ret.add(id(o))
        for o in tr.tracked_objects:
            require(id(o) in known, lambda: "frame %d: unexpected object %r with hit counter %s" % (t, o.id, o.hit_counter))
        require(len(ret) == len(set(map(id, ret))), "frame %d: an object is returned twice" % t)
        require(set(map(id, ret)) == expected_ret, lambda: "frame %d: update returned %d objects, expected %d" % (t, len(ret), len(expected_ret)))
        require(set(map(id, tr.get_active_objects())) == expected_ret, "frame %d: get_active_objects differs from update" % t)
        require(tr.current_object_count == len(expected_ret), "frame %d: current_object_count" % t)
        trail.append(tuple((r[0].c, r[0].init) if r else None for r in ref))
    rec.outcome((H, d, tuple(trail)))
