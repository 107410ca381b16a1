"""P14: built-in distances equal their documented formulas (exhaustive over small coordinate grids)."""
import itertools
import logging
import warnings
import math
from fractions import Fraction

import numpy as np

from ..common import *
from norfair import distances as D

LEVEL = "exploration"
RULE = "one execution = all scalar distances of one (detection, object) pair, or one iou call; distinct_nontrivial = distinct results"
BOUNDS = {
    "quick": "all pairs of 1-point 2D sets over 5x5, 2-point 2D sets over 3x3 (6561 pairs), 1-point 3D over 3^3, 3-point 2D and 2-point 3D over {0,2},"
    " 4-point sets over one axis; all votes over 3 score levels and 4 distances; all malformed boxes of a grid; all pairs of 100 boxes of a grid, all lists of 1..3 x 1..2 boxes over 6 boxes, 7 dtypes;"
    " sets of 5 to 301 points and lists of 5 to 301 boxes (45 sizes)",
    "thorough": "2-point 2D sets over 4x4 against 3x3 sets, 3-point 2D over 2x3 values; 225 boxes; all lists of 1..3 x 1..3 boxes over 7 boxes",
}
ASSUMPTIONS = ["objects use NoFilter, so their estimate is the last detected position", "boxes with positive width and height"]

OBJ = {}
DTYPES = ("int64", "float64", "float32", "int32", "int16", "uint8", "uint16")
SCALE = [(1.0, 0.0), (0.25, -1.5), (1000.0, 0.5)]


def obj_of(pts, scores=None):
    key = (pts, scores)
    if key not in OBJ:
        tr = Tracker(static_distance, 1.0, hit_counter_max=2, initialization_delay=0, filter_factory=NoFilterFactory())
        tr.update([Detection(np.array(pts, dtype=float), scores=None if scores is None else np.array(scores))])
        OBJ[key] = (tr, tr.tracked_objects[0])
    return OBJ[key][1]


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + abs(b))


def check_scalar(case, rec):
    _, dp, op, sc, dt = case
    k, off = SCALE[sc]
    op = tuple(tuple(v * k + off for v in p) for p in op)
    if dt.startswith("float"):
        dp = tuple(tuple(v * k + off for v in p) for p in dp)
    o = obj_of(op)
    arr = np.array(dp, dtype=dt)
    det = Detection(arr.copy())
    est = np.array(o.estimate, dtype=float).copy()
    diffs = [[float(a) - float(b) for a, b in zip(p, q)] for p, q in zip(dp, op)]
    n = len(dp)
    want = dict(
        frobenius=math.sqrt(math.fsum(x * x for r in diffs for x in r)),
        mean_euclidean=math.fsum(math.sqrt(math.fsum(x * x for x in r)) for r in diffs) / n,
        mean_manhattan=math.fsum(abs(x) for r in diffs for x in r) / n,
    )
    fns = {k_: getattr(D, k_) for k_ in want}
    if len(dp[0]) == 2:
        for w, h in ((640, 480), (3, 50), (100, 100)):
            want["norm", w, h] = math.fsum(math.hypot(r[0] / w, r[1] / h) for r in diffs) / n
            fns["norm", w, h] = D.create_normalized_mean_euclidean_distance(h, w)
    for name, fn in fns.items():
        got = fn(det, o)
        require(np.ndim(got) == 0 and near(float(got), want[name]), lambda: "%s = %s, formula gives %s" % (name, got, want[name]))
        rec.outcome((str(name), round(want[name], 9)))
        rec.step()
    require(det.points.dtype == arr.dtype and np.array_equal(det.points, arr) and np.array_equal(det.absolute_points, arr), "detection modified by a distance")
    require(np.array_equal(np.asarray(o.estimate), est), "object modified by a distance")


def check_many(case, rec):
    """many points, many boxes"""
    _, n, dim, seed = case
    k = np.arange(n * dim, dtype=float).reshape(n, dim)
    p, q = 50.0 * np.sin(k * 12.9898 + seed), 50.0 * np.sin(k * 4.1414 + 2.0 * seed)
    if seed % 2:
        q = p + 0.5 * np.sin(k * 3.3)
    if seed == 3:  # one point far off
        q[-1] += 1e4
    tr = Tracker(static_distance, 1.0, hit_counter_max=2, initialization_delay=0, filter_factory=NoFilterFactory())
    so = 0.5 + 0.5 * np.cos(k[:, 0] * 0.7)
    sd = 0.5 + 0.5 * np.cos(k[:, 0] * 0.3 + seed)
    tr.update([Detection(q.copy(), scores=so.copy())])
    (o,) = tr.tracked_objects
    det = Detection(p.copy(), scores=sd.copy())
    d = p - q
    l2 = np.sqrt((d ** 2).sum(axis=1))
    want = {"frobenius": math.sqrt((d ** 2).sum()), "mean_euclidean": l2.mean(), "mean_manhattan": np.abs(d).sum(axis=1).mean()}
    for name, w in want.items():
        got = getattr(D, name)(det, o)
        require(near(float(got), w), lambda: "%s of %d points = %s, formula gives %s" % (name, n, got, w))
    if dim == 2:
        for w, h in ((640, 480), (3, 50)):
            f = np.hypot(d[:, 0] / w, d[:, 1] / h).mean()
            got = D.create_normalized_mean_euclidean_distance(h, w)(det, o)
            require(near(float(got), f), lambda: "normalized distance of %d points = %s, formula gives %s" % (n, got, f))
        for kt, dt in ((40.0, 0.4), (0.6, 0.2), (1e9, 0.0)):
            votes = int(((l2 < kt) & (sd > dt) & (so > dt)).sum())
            got = D.create_keypoints_voting_distance(kt, dt)(det, o)
            require(near(float(got), 1 / (1 + votes)), lambda: "voting distance of %d points %s, %d votes" % (n, got, votes))
        A, B = (np.concatenate([x, x + 1.0 + np.abs(x[:, ::-1])], axis=1) for x in (p, q))
        for a, b in ((A, B), (A, B[:3]), (A[:2], B), (A, A)):
            lo, hi = np.maximum(a[:, None, :2], b[None, :, :2]), np.minimum(a[:, None, 2:], b[None, :, 2:])
            inter = np.prod(np.maximum(hi - lo, 0), axis=2)
            area = lambda x: np.prod(x[:, 2:] - x[:, :2], axis=1)
            f = 1 - inter / (area(a)[:, None] + area(b)[None] - inter)
            got = np.asarray(D.iou(a.copy(), b.copy()))
            require(got.shape == f.shape and np.abs(got - f).max() < 1e-9, lambda: "iou of %d and %d boxes" % (len(a), len(b)))
            got = np.asarray(D.iou_opt(a.copy(), b.copy()))
            require(got.shape == f.shape and np.abs(got - f).max() < 1e-9, lambda: "iou_opt of %d and %d boxes" % (len(a), len(b)))
    rec.outcome(case)
    rec.step()


def check_vote(case, rec):
    _, offs, ds, os_, kthr, dthr = case
    op = tuple((10.0 * i, 0.0) for i in range(len(offs)))
    dp = tuple((p[0] + d[0], p[1] + d[1]) for p, d in zip(op, offs))
    o = obj_of(op, os_)
    det = Detection(np.array(dp), scores=np.array(ds))
    fn = D.create_keypoints_voting_distance(kthr, dthr)
    votes = sum(1 for d, a, b in zip(offs, ds, os_) if d[0] ** 2 + d[1] ** 2 < kthr**2 and a > dthr and b > dthr)
    got = fn(det, o)
    require(near(float(got), 1 / (1 + votes)), lambda: "voting distance %s, %d votes" % (got, votes))
    require(np.array_equal(det.points, np.array(dp)) and tuple(det.scores) == tuple(ds) and tuple(o.last_detection.scores) == tuple(os_)
            and np.array_equal(np.asarray(o.estimate), np.array(op)), "argument modified by the voting distance")
    rec.outcome(("vote", len(offs), votes))


def iou_exact(a, b):
    a, b = [Fraction(v) for v in a], [Fraction(v) for v in b]
    w = min(a[2], b[2]) - max(a[0], b[0])
    h = min(a[3], b[3]) - max(a[1], b[1])
    inter = w * h if w > 0 and h > 0 else Fraction(0)
    union = (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - inter
    return 1 - inter / union


def check_iou(case, rec):
    _, cs, os_, dtc, dto, k, off = case
    conv = lambda bs: [[v * k + off for v in b] for b in bs]
    cs, os_ = conv(cs), conv(os_)
    A, B = np.array(cs, dtype=dtc), np.array(os_, dtype=dto)
    A0, B0 = A.copy(), B.copy()
    m = np.asarray(D.iou(A, B))
    require(m.shape == (len(cs), len(os_)), lambda: "iou of %d and %d boxes has shape %s" % (len(cs), len(os_), m.shape))
    tol = 1e-9 if "float32" not in (dtc, dto) else 1e-5
    for i, a in enumerate(cs):
        for j, b in enumerate(os_):
            want = float(iou_exact(a, b))
            v = float(m[i, j])
            require(abs(v - want) <= tol, lambda: "iou distance of %s and %s is %s, exact value %s" % (a, b, v, want))
            require(-tol <= v <= 1 + tol, lambda: "iou distance %s outside [0, 1]" % v)
            if tol < 1e-8:
                require((v <= tol) == (a == b) and (v >= 1 - tol) == (want == 1), lambda: "iou distance %s of %s and %s" % (v, a, b))
            rec.step()
            rec.outcome(("iou", round(want, 9)))
    require(np.array_equal(A, A0) and np.array_equal(B, B0), "iou modified its argument")
    require(close(np.asarray(D.iou_opt(A, B)), m, 1e-12), "iou_opt differs from iou")
    if dtc == dto:
        require(close(np.asarray(D.iou(B, A)).T, m, 1e-6 if tol > 1e-8 else 1e-9), "iou is not symmetric")


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        self.n += 1


def check_warn(case, rec):
    """boxes that are not boxes are reported, others are not"""
    _, cs, os_ = case
    root, h = logging.getLogger(), Records()
    old = logging.root.manager.disable
    A, B = np.array(cs, dtype=float), np.array(os_, dtype=float)
    logging.disable(logging.NOTSET)
    root.addHandler(h)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            m = np.asarray(D.iou(A, B))
    finally:
        root.removeHandler(h)
        logging.disable(old)
    bad = [b for b in cs + os_ if not (b[0] < b[2] and b[1] < b[3])]
    told = h.n + sum(1 for x in w if issubclass(x.category, UserWarning))
    require((told > 0) == any(b in bad for b in cs) or told and bad, lambda: "iou of %s and %s gives %d warnings" % (cs, os_, told))
    require(m.shape == (len(cs), len(os_)), "shape of the distances")
    for i, a in enumerate(cs):
        for j, b in enumerate(os_):
            if a not in bad and b not in bad:
                require(abs(m[i, j] - float(iou_exact(a, b))) <= 1e-9, lambda: "iou distance of %s and %s is %s" % (a, b, m[i, j]))
    rec.outcome(("warn", len(bad), told > 0, repr(np.round(m, 6).tolist())))


def run_case(case, rec):
    return {"scalar": check_scalar, "vote": check_vote, "iou": check_iou, "many": check_many, "warn": check_warn}[case[0]](case, rec)


def sets(n, d, vals):
    return list(itertools.product(itertools.product(vals, repeat=d), repeat=n))


FAMILIES = {
    "1x2": lambda: (sets(1, 2, range(-2, 3)),) * 2,
    "2x2": lambda: (sets(2, 2, (0, 1, 3)),) * 2,
    "1x3": lambda: (sets(1, 3, (0, 1, 3)),) * 2,
    "3x2": lambda: (sets(3, 2, (0, 2)),) * 2,
    "2x3": lambda: (sets(2, 3, (0, 2)),) * 2,
    "4x2": lambda: ([tuple((x, 1) for x in w) for w in itertools.product((0, 2), repeat=4)], [tuple((1, x) for x in w) for w in itertools.product((0, 3), repeat=4)]),
    "T2x2": lambda: (sets(2, 2, (0, 1, 3, 7)), sets(2, 2, (0, 2, 5))),
    "T3x2": lambda: (sets(3, 2, (0, 1, 4))[::3], sets(3, 2, (0, 3))),
}


def boxes(n):
    iv = [(a, b) for a in range(n) for b in range(a + 1, n)]
    return [(x1, y1, x2, y2) for x1, x2 in iv for y1, y2 in iv]


LISTBOX = [(0, 0, 2, 2), (1, 0, 3, 2), (0, 1, 4, 2), (2, 2, 4, 4), (0, 0, 1, 1), (1, 1, 2, 4), (0, 0, 4, 4)]


def shards(tier):
    th = tier == "thorough"
    out = []
    for f in FAMILIES:
        if th or not f.startswith("T"):
            m = 8 if f in ("2x2", "T2x2", "T3x2") else 2
            out += [("scalar", f, c, m) for c in range(m)]
    out += [("many", k) for k in range(4)]
    out += [("vote", n, c) for n in (1, 2, 3) for c in range(4 if n == 3 else 1)]
    out += [("grid", 6 if th else 5, c) for c in range(4)]
    out += [("warn", c) for c in range(3)]
    out += [("lists", 7 if th else 6, a) for a in (1, 2, 3)]
    return out


def run_shard(shard, rec):
    if shard[0] == "many":
        for n in SIZES[shard[1]::4]:
            for dim in (2, 3):
                for seed in range(4):
                    rec.case(("many", n, dim, seed))
        return
    if shard[0] == "scalar":
        _, f, c, m = shard
        ds, os_ = FAMILIES[f]()
        for i, dp in enumerate(ds):
            if i % m != c:
                continue
            for op in os_:
                rec.case(("scalar", dp, op, 0, "float64"))
            for op in os_[:: max(1, len(os_) // 9)]:
                for dt in ("int64", "float32", "uint8"):
                    if dt != "uint8" or min(min(p) for p in dp) >= 0:
                        rec.case(("scalar", dp, op, 0, dt))
                for sc in (1, 2):
                    rec.case(("scalar", dp, op, sc, "float64"))
    elif shard[0] == "vote":
        _, n, c = shard
        offs = [(0.0, 0.0), (3.0, 4.0), (-3.0, -3.9), (6.0, 0.0)]
        scs = (0.2, 0.5, 0.8)
        if n < 3:
            for of in itertools.product(offs, repeat=n):
                for ds in itertools.product(scs, repeat=n):
                    for os_ in itertools.product(scs, repeat=n):
                        for kt in (5.0, 5.5):
                            rec.case(("vote", of, ds, os_, kt, 0.5))
        else:
            for of in itertools.product(offs[:2], repeat=n):
                if offs.index(of[0]) * 2 + offs.index(of[1]) != c:
                    continue
                for ds in itertools.product(scs[1:], repeat=n):
                    for os_ in itertools.product(scs[1:], repeat=n):
                        rec.case(("vote", of, ds, os_, 5.0, 0.5))
    elif shard[0] == "grid":
        bs = boxes(shard[1])
        mine = bs[shard[2] :: 4]
        for b in mine:
            rec.case(("iou", (b,), tuple(bs), "float64", "float64", 1, 0))
            rec.case(("iou", (b,), tuple(bs), "int64", "float64", 1, 0))
        for k, off in ((0.5, -3.0), (1000, 7), (60, 1)):
            rec.case(("iou", tuple(mine), tuple(bs), "float64", "float64", k, off))
        for dt in DTYPES:
            k = 50 if dt == "uint8" else 5000 if dt in ("int16", "uint16") else 50
            rec.case(("iou", tuple(mine), tuple(bs), dt, "float64", k, 0))
            rec.case(("iou", tuple(mine), tuple(bs), dt, dt, k, 0))
    elif shard[0] == "warn":
        flat = [b for b in itertools.product(range(3), repeat=4)]
        for i, b in enumerate(flat):
            if i % 3 == shard[1]:
                rec.case(("warn", (b,), ((0, 0, 2, 1),)))
                rec.case(("warn", ((0, 0, 2, 1),), (b,)))
                rec.case(("warn", ((0, 0, 2, 1), b), ((1, 0, 2, 2), (0, 1, 1, 2))))
                rec.case(("warn", ((1, 0, 2, 2), (0, 1, 1, 2)), ((0, 0, 2, 1), b, (0, 0, 1, 1))))
    else:
        _, n, a = shard
        for cs in itertools.product(LISTBOX[:n], repeat=a):
            for b in (1, 2, 3) if n > 6 else (1, 2):
                for os_ in itertools.product(LISTBOX[:n], repeat=b):
                    rec.case(("iou", cs, os_, "float64" if (a + b) % 2 else "int64", "float64", 1, 0))
