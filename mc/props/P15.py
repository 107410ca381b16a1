"""P15: distance matrices pair the right candidate with the right object."""
import itertools
import math

import numpy as np
from scipy.spatial import distance as S

from ..common import *
from norfair.distances import ScalarDistance, ScipyDistance, VectorizedDistance, get_distance_by_name

LEVEL = "exploration"
RULE = "one execution = one get_distances call (or one tracker update) compared entry by entry; distinct_nontrivial = distinct (distance, shape, pattern of finite entries)"
BOUNDS = {
    "quick": "23 distance names and 5 custom distance objects; all label arrangements over 3 labels for 3x3 matrices, over 4 labels up to 2x2, all sizes 0..3 x 0..3,"
    " all orders of 3 of 4 positions, candidates detections, subclasses and tracked objects; point shapes 1x2, 2x2, 2x3;"
    " crowds of 5 to 301 candidates and objects (45 sizes, 5 shapes, 4 label arrangements) and 5 to 301 points per object for 11 distances",
    "thorough": "all label arrangements over 4 labels up to 3x3 for every distance",
}
ASSUMPTIONS = [
    "pairwise reference values come from scipy's functions for two vectors and from formulas written out in the check",
    "metrics the installed scipy does not know (kulczynski1, sokalmichener) are left out",
]


class Box(Detection):
    """a user's own kind of detection, its name does not tell what it is"""


# three positions per shape, generic enough that all pairwise distances differ
POS = {
    "1x2": [((1.0, 2.0),), ((4.0, 3.0),), ((9.0, 5.0),), ((2.5, 7.0),), ((6.0, 0.5),), ((3.0, 11.0),)],
    "2x2": [((0.0, 0.0), (4.0, 5.0)), ((1.0, 2.0), (6.0, 8.0)), ((2.0, 0.5), (9.0, 3.0)), ((0.5, 1.0), (3.0, 9.0)), ((3.0, 3.0), (5.0, 7.0)), ((1.5, 0.0), (8.0, 4.0))],
    "2x3": [((0.0, 0.0, 1.0), (4.0, 5.0, 0.0)), ((1.0, 2.0, 0.0), (6.0, 8.0, 3.0)), ((2.0, 0.5, 4.0), (9.0, 3.0, 0.0)), ((0.5, 1.0, 0.0), (3.0, 9.0, 1.0)), ((3.0, 3.0, 3.0), (5.0, 7.0, 0.5)),
            ((1.5, 0.0, 2.0), (8.0, 4.0, 6.0))],
}
LABELS = (None, "a", 1, "1")


def flat(p):
    return [x for q in p for x in q]


def boolean(fn):
    def f(u, v):
        ntt = nff = ntf = nft = 0
        for a, b in zip(u, v):
            a, b = a != 0, b != 0
            ntt += a and b
            nff += not a and not b
            ntf += a and not b
            nft += b and not a
        return float(fn(ntt, nff, ntf, nft))

    return f


def group_var(XA, XB):
    rows = np.array(XA + XB, dtype=float)
    return rows.var(axis=0, ddof=1)


def seuclid(u, v, XA, XB):
    V = group_var(XA, XB)
    return math.sqrt(sum((a - b) ** 2 / w for a, b, w in zip(u, v, V)))


def maha(u, v, XA, XB):
    rows = np.array(XA + XB, dtype=float)
    VI = np.linalg.inv(np.cov(rows.T))
    d = np.array(u) - np.array(v)
    return math.sqrt(d @ VI @ d)


def iou_ref(u, v):
    w, h = min(u[2], v[2]) - max(u[0], v[0]), min(u[3], v[3]) - max(u[1], v[1])
    inter = max(w, 0) * max(h, 0)
    area = lambda b: (b[2] - b[0]) * (b[3] - b[1])
    return 1 - inter / (area(u) + area(v) - inter)


def pointwise(norm):
    def f(p, q):
        return sum(norm([a - b for a, b in zip(x, y)]) for x, y in zip(p, q)) / len(p)

    return f


l2 = lambda d: math.sqrt(sum(x * x for x in d))
l1 = lambda d: sum(abs(x) for x in d)

PAIR = {  # on flattened vectors
    "braycurtis": lambda u, v: sum(abs(a - b) for a, b in zip(u, v)) / sum(abs(a + b) for a, b in zip(u, v)),
    "canberra": lambda u, v: sum(abs(a - b) / (abs(a) + abs(b)) for a, b in zip(u, v) if a or b),
    "chebyshev": lambda u, v: max(abs(a - b) for a, b in zip(u, v)),
    "cityblock": lambda u, v: l1([a - b for a, b in zip(u, v)]),
    "correlation": S.correlation,
    "cosine": S.cosine,
    "dice": lambda u, v: S.cdist([u], [v], "dice")[0, 0],  # weighted counts of raw values: no independent definition on non-boolean data
    "euclidean": lambda u, v: l2([a - b for a, b in zip(u, v)]),
    "hamming": lambda u, v: sum(a != b for a, b in zip(u, v)) / len(u),
    "matching": lambda u, v: sum(a != b for a, b in zip(u, v)) / len(u),
    "jaccard": lambda u, v: S.cdist([u], [v], "jaccard")[0, 0],
    "jensenshannon": S.jensenshannon,
    "minkowski": lambda u, v: l2([a - b for a, b in zip(u, v)]),
    "rogerstanimoto": boolean(lambda tt, ff, tf, ft: 2 * (tf + ft) / (tt + ff + 2 * (tf + ft))),
    "russellrao": boolean(lambda tt, ff, tf, ft: (ff + tf + ft) / (tt + ff + tf + ft)),
    "sokalsneath": boolean(lambda tt, ff, tf, ft: 2 * (tf + ft) / (tt + 2 * (tf + ft))),
    "sqeuclidean": lambda u, v: sum((a - b) ** 2 for a, b in zip(u, v)),
    "yule": boolean(lambda tt, ff, tf, ft: 0 if tf * ft == 0 else 2 * tf * ft / (tt * ff + tf * ft)),
    "iou": iou_ref,
    "iou_opt": iou_ref,
}
GROUP = {"seuclidean": seuclid, "mahalanobis": maha}
SCALAR = {"frobenius": lambda p, q: l2([a - b for a, b in zip(flat(p), flat(q))]), "mean_euclidean": pointwise(l2), "mean_manhattan": pointwise(l1)}
CUSTOM = ("scalar-asym", "vector-asym", "scipy-p3", "scipy-w", "scipy-default")
NAMES = list(PAIR) + list(GROUP) + list(SCALAR) + list(CUSTOM)


def asym(p, q):
    return 3.0 * flat(p)[0] - flat(q)[-1] + 100.0


def points_of(x):
    return x.points if isinstance(x, Detection) else x.estimate


def make(name):
    if name == "scalar-asym":
        return ScalarDistance(lambda c, o: asym(points_of(c).tolist(), o.estimate.tolist()))
    if name == "vector-asym":
        return VectorizedDistance(lambda C, O: 3.0 * C[:, 0][:, None] - O[:, -1][None, :] + 100.0)
    if name == "scipy-p3":
        return ScipyDistance("minkowski", p=3)
    if name == "scipy-w":
        return ScipyDistance(metric="cityblock", w=[2.0, 0.5])
    if name == "scipy-default":
        return ScipyDistance()
    return get_distance_by_name(name)


def expected(name, p, q, group):
    if name.endswith("asym"):
        return asym(p, q)
    u, v = flat(p), flat(q)
    if name == "scipy-p3":
        return sum(abs(a - b) ** 3 for a, b in zip(u, v)) ** (1 / 3)
    if name == "scipy-w":
        return 2 * abs(u[0] - v[0]) + 0.5 * abs(u[1] - v[1])
    if name == "scipy-default":
        return PAIR["euclidean"](u, v)
    if name in GROUP:
        return GROUP[name](u, v, *group)
    if name in SCALAR:
        return SCALAR[name](p, q)
    return PAIR[name](u, v)


OBJ = {}
OFFSET = 16.0


class Elsewhere(NoFilterFactory):
    def create_filter(self, initial_detection):
        return super().create_filter(initial_detection - OFFSET)


def obj_of(shape, i, label):
    key = (shape, i, str(type(label)), label)
    if key not in OBJ:
        # estimates differ from the last detection, so that one cannot pass for the other
        tr = Tracker(static_distance, 1.0, hit_counter_max=2, initialization_delay=0, filter_factory=Elsewhere())
        tr.update([Detection(np.array(POS[shape][i]) + OFFSET, label=label)])
        OBJ[key] = (tr, tr.tracked_objects[0])
    return OBJ[key][1]


DIST = {}


# whole matrices on stacks of flattened points (C, n) and (O, n), point dimension 2
def np_iou(C, O):
    lo, hi = np.maximum(C[:, None, :2], O[None, :, :2]), np.minimum(C[:, None, 2:], O[None, :, 2:])
    inter = np.prod(np.maximum(hi - lo, 0), axis=2)
    area = lambda B: np.prod(B[:, 2:] - B[:, :2], axis=1)
    return 1 - inter / (area(C)[:, None] + area(O)[None, :] - inter)


def np_points(norm):
    return lambda C, O: norm((C[:, None] - O[None]).reshape(len(C), len(O), -1, 2)).mean(axis=2)


BULK = {
    "euclidean": lambda C, O: np.sqrt(((C[:, None] - O[None]) ** 2).sum(axis=2)),
    "sqeuclidean": lambda C, O: ((C[:, None] - O[None]) ** 2).sum(axis=2),
    "cityblock": lambda C, O: np.abs(C[:, None] - O[None]).sum(axis=2),
    "chebyshev": lambda C, O: np.abs(C[:, None] - O[None]).max(axis=2),
    "cosine": lambda C, O: 1 - (C @ O.T) / np.sqrt((C ** 2).sum(axis=1)[:, None] * (O ** 2).sum(axis=1)[None]),
    "frobenius": lambda C, O: np.sqrt(((C[:, None] - O[None]) ** 2).sum(axis=2)),
    "mean_euclidean": np_points(lambda d: np.sqrt((d ** 2).sum(axis=3))),
    "mean_manhattan": np_points(lambda d: np.abs(d).sum(axis=3)),
    "scalar-asym": lambda C, O: 3.0 * C[:, :1] - O[None, :, -1] + 100.0,
    "vector-asym": lambda C, O: 3.0 * C[:, :1] - O[None, :, -1] + 100.0,
    "iou": np_iou,
}
CROWDLABELS = {
    "none": lambda k: None,
    "same": lambda k: "a",
    "three": lambda k: ("a", None, 1)[k % 3],
    "own": lambda k: "label %d" % k,
}


def crowd_points(n, npts, seed):
    """n sets of points, all different; boxes if there are two points"""
    k = np.arange(n * npts * 2, dtype=float).reshape(n, npts, 2)
    pts = 60.0 * np.abs(np.sin(k * 12.9898 + seed * 78.233)) + 1.0
    if npts == 2:
        pts[:, 1] = pts[:, 0] + 20.0 + pts[:, 1]
    return pts


def run_crowd(case, rec):
    _, name, nc, no, npts, lab, kind = case
    if name not in DIST:
        DIST[name] = make(name)
    label = CROWDLABELS[lab]

    def objects(pts):
        tr = Tracker(static_distance, 1.0, hit_counter_max=2, initialization_delay=0, filter_factory=Elsewhere())
        dets = [Detection(p + OFFSET, label=label(k), data=k) for k, p in enumerate(pts)]
        tr.update(dets)
        return tr, sorted(tr.tracked_objects, key=lambda o: o.last_detection.data)

    C, O = crowd_points(nc, npts, 1), crowd_points(no, npts, 2)
    keep, objs = objects(O)
    if kind == "obj":
        keep2, cands = objects(C)
    else:
        cands = [Detection(p.copy("CF"[k % 2]), label=label(k)) for k, p in enumerate(C)]
    require(len(objs) == no and len(cands) == nc, "set-up")
    m = np.asarray(DIST[name].get_distances(objs, cands), dtype=float)
    require(m.shape == (nc, no), lambda: "%s: matrix of %d candidates and %d objects has shape %s" % (name, nc, no, m.shape))
    want = BULK[name](C.reshape(nc, -1), O.reshape(no, -1))
    lc, lo = [label(k) for k in range(nc)], [label(k) for k in range(no)]
    values = {v: k for k, v in enumerate(dict.fromkeys(lc + lo))}
    same = np.array([values[v] for v in lc])[:, None] == np.array([values[v] for v in lo])[None]
    want = np.where(same, want, np.inf)
    with np.errstate(invalid="ignore"):
        bad = ~((m == want) | (np.abs(m - want) <= 1e-5 * (1 + np.abs(want))))
    if bad.any():
        a, b = np.argwhere(bad)[0]
        raise Violation("%s: entry (%d, %d) of %d candidates and %d objects is %s, distance of that pair %s" % (name, a, b, nc, no, m[a, b], want[a, b]))
    rec.outcome(("crowd", name, nc, no, npts, lab, kind))
    rec.step(nc * no)


def run_case(case, rec):
    if case[0] == "crowd":
        return run_crowd(case, rec)
    if case[0] == "update":
        return run_update(case, rec)
    _, name, shape, kind, cands, objs = case  # each: ((position, label index), ...)
    if name not in DIST:
        DIST[name] = make(name)
    dist = DIST[name]
    cs = []
    for i, l in cands:
        if kind == "obj":
            cs.append(obj_of(shape, i, LABELS[l]))
        else:
            # stored row by row or column by column
            cs.append((Box if kind == "sub" else Detection)(np.array(POS[shape][i], order="CF"[i % 2]), label=LABELS[l]))
    os_ = [obj_of(shape, i, LABELS[l]) for i, l in objs]
    m = np.asarray(dist.get_distances(os_, cs))
    require(m.shape == (len(cs), len(os_)), lambda: "%s: matrix of %d candidates and %d objects has shape %s" % (name, len(cs), len(os_), m.shape))
    pattern = []
    for a, (i, l) in enumerate(cands):
        group = None
        for b, (j, k) in enumerate(objs):
            v = float(m[a, b])
            same = l == k
            if not same:
                require(v == np.inf, lambda: "%s: labels %r and %r differ but the entry is %s" % (name, LABELS[l], LABELS[k], v))
            else:
                if name in GROUP:
                    group = ([flat(POS[shape][x]) for x, y in cands if y == l], [flat(POS[shape][x]) for x, y in objs if y == l])
                want = expected(name, POS[shape][i], POS[shape][j], group)
                ok = (math.isnan(want) and math.isnan(v)) or abs(v - want) <= 1e-5 * (1 + abs(want))
                require(ok, lambda: "%s: entry (%d, %d) is %s, distance of that pair %s" % (name, a, b, v, want))
            pattern.append(same)
            rec.step()
    rec.outcome((name, shape, kind, m.shape, tuple(pattern)))


def run_update(case, rec):
    """a distance given by name decides what a tracker matches and is reported as last_distance"""
    _, name, shape, i, j = case
    d0, d1 = POS[shape][i], POS[shape][j]
    want = expected(name, d1, d0, ([flat(d1)], [flat(d0)]))
    for k, thr in enumerate((want + 0.1, want - 0.1)):
        tr = Tracker(name, thr, hit_counter_max=3, initialization_delay=0, filter_factory=NoFilterFactory())
        tr.update([Detection(np.array(d0))])
        tr.update([Detection(np.array(d1))])
        n = len(tr.tracked_objects)
        require(n == 1 + k, lambda: "Tracker(%r, %s): %d objects for two detections at distance %s" % (name, thr, n, want))
        if k == 0:
            ld = float(tr.tracked_objects[0].last_distance)
            require(abs(ld - want) <= 1e-5 * (1 + abs(want)), lambda: "%s: last_distance %s, distance %s" % (name, ld, want))
    rec.outcome((name, shape, i, j))


def shapes_of(name):
    if name.startswith("iou"):
        return ("2x2",)
    if name in ("mahalanobis", "scipy-w"):
        return ("1x2",)
    if name == "seuclidean":
        return ("1x2", "2x2")
    return ("1x2", "2x2", "2x3")


def shards(tier):
    out = [(n, c, tier) for n in NAMES for c in range(4 if tier == "thorough" else 1)]
    for name in BULK:
        for c in range(4):
            out.append((name, c, "crowd"))
    return out


def run_shard(shard, rec):
    name, c, tier = shard
    if tier == "crowd":
        slow = name in SCALAR or name == "scalar-asym"
        for n in SIZES[c::4]:
            sizes = ((n, n), (n, 1), (1, n), (n, 4)) if slow else ((n, n), (n, 3), (3, n), (n, n + 1), (n, 130))
            for k, (a, b) in enumerate(sizes):
                for i, lab in enumerate(CROWDLABELS):
                    if not (slow and lab != "three" and n > 130):
                        rec.case(("crowd", name, a, b, 2, lab, "det" if (i + k) % 2 or name in SCALAR else "obj"))
            if name != "iou":
                for a, b in ((1, 1), (2, 3)):
                    rec.case(("crowd", name, a, b, n, "none", "det"))
                    if name not in SCALAR:
                        rec.case(("crowd", name, a, b, n, "same", "obj"))
        return
    th = tier == "thorough"
    shape0 = shapes_of(name)[0 if name in ("mahalanobis", "scipy-w") else -1]
    # the scalar distances are documented for detections only
    kinds = ("det", "sub", "det") if name in SCALAR else ("det", "obj", "sub")
    if name == "mahalanobis":
        # needs more observations than dimensions within a label
        for labels in itertools.product((0, 1), repeat=2):
            lab = (labels[0],) * 3 if labels[0] == labels[1] else (0, 0, 1)
            for perm in itertools.permutations(range(3)):
                for perm2 in itertools.permutations((3, 4, 5)):
                    for kind in kinds:
                        cl = tuple((p, 0) for p in perm)
                        rec.case(("mat", name, shape0, kind, cl, tuple((p, 0) for p in perm2)))
                        rec.case(("mat", name, shape0, kind, cl + ((3, 1),), tuple((p, 0) for p in perm2) + ((1, 2),)))
        return
    if name in GROUP:
        pats = [(x, y) for x in itertools.product((0, 1), repeat=3) for y in itertools.product((0, 1), repeat=3)]
    elif th:
        pats = [(x, y) for x in itertools.product(range(4), repeat=3) for y in itertools.product(range(4), repeat=3)][c::4]
    else:
        pats = [(x, y) for x in itertools.product(range(3), repeat=3) for y in itertools.product(range(3), repeat=3)]
    for n, (x, y) in enumerate(pats):
        kind = kinds[n % 3] if not th else None
        for kd in kinds if th else (kind,):
            rec.case(("mat", name, shape0, kd, tuple(zip((0, 1, 2), x)), tuple(zip((3, 4, 5), y))))
    if c:
        return
    # all sizes and label arrangements of small matrices
    for shape in shapes_of(name):
        for a, b in itertools.product(range(4), repeat=2):
            labs = range(4) if a <= 2 and b <= 2 else (1,)
            for x in itertools.product(labs, repeat=a):
                for y in itertools.product(labs, repeat=b):
                    for kind in kinds[: 2 if a == b == 2 else 3]:
                        rec.case(("mat", name, shape, kind, tuple(zip((2, 0, 1), x)), tuple(zip((3, 5, 4), y))))
        # all orders of candidates and objects, shared positions
        for p in itertools.permutations(range(4), 3):
            for q in itertools.permutations(range(4), 3):
                rec.case(("mat", name, shape, "det", tuple((i, 1) for i in p), tuple((i, 1) for i in q)))
    if name not in CUSTOM and name not in GROUP:
        for shape in shapes_of(name):
            for i, j in itertools.permutations(range(6), 2):
                w = expected(name, POS[shape][j], POS[shape][i], None)
                if not math.isnan(w):
                    rec.case(("update", name, shape, i, j))
