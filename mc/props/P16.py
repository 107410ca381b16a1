"""P16: invalid configurations are rejected, valid ones are accepted and obeyed."""
import functools
import itertools
import math

import numpy as np

from ..common import *

LEVEL = "exploration"
RULE = "one execution = one constructor call (and, if accepted, the frames up to the first return of an object), or one update with a wrong detection; distinct_nontrivial = distinct (parameters, verdict, first frame)"
BOUNDS = {
    "quick": "hit_counter_max 0..6 x delay None,-2..8 x past_detections_length -2..3 x 4 distances; all 28 distance names, 12 wrong names, 9 wrong types, 6 kinds of callables;"
    " all point shapes up to rank 4 with sides 1..3; wrong items of 8 types at every position of lists up to 3, with and without objects and camera transformation, and at the ends and in the middle of lists of 5 to 301 (45 sizes); instances of subclasses of Detection at every position; every parameter left out",
    "thorough": "hit_counter_max up to 12, delays to 14, past_detections_length to 5, point sides to 4, lists up to 4",
}
ASSUMPTIONS = ["initialization_delay is None or an int and hit_counter_max an int, as documented"]

NAMES = ("frobenius mean_euclidean mean_manhattan iou iou_opt braycurtis canberra chebyshev cityblock correlation cosine dice euclidean hamming jaccard"
         " jensenshannon kulczynski1 mahalanobis matching minkowski rogerstanimoto russellrao seuclidean sokalmichener sokalsneath sqeuclidean yule").split()
WRONG = ["", "Euclidean", "IOU", " iou", "iou ", "l2", "manhattan", "mean-euclidean", "frobenius_norm", "euclidean\n", "keypoints_voting", "None"]


class CallMe:
    def __call__(self, d, o):
        return static_distance(d, o)


CALLABLES = {
    "function": static_distance,
    "lambda": lambda d, o: float(np.abs(d.points - o.estimate).max()),
    "partial": functools.partial(lambda k, d, o: k * static_distance(d, o), 1.0),
    "object": CallMe(),
    "method": CallMe().__call__,
    "builtin": max,
}
BADTYPES = {"None": None, "int": 3, "float": 1.5, "list": ["iou"], "tuple": ("iou",), "bytes": b"iou", "array": np.eye(2), "dict": {"iou": 1}, "bool": True}


class Duck:
    def __init__(self):
        self.points = np.array([[1.0, 1.0]])
        self.absolute_points = self.points
        self.label = None
        self.scores = None

    def update_coordinate_transformation(self, t):
        pass


BADDETS = {"None": lambda: None, "str": lambda: "x", "int": lambda: 3, "array": lambda: np.array([[1.0, 1.0]]), "list": lambda: [[1.0, 1.0]], "dict": lambda: {"points": np.array([[1.0, 1.0]])},
           "duck": Duck, "class": lambda: Detection}


class Own(Detection):
    """subclasses of Detection are detections"""

    def __init__(self, points, camera, **kw):
        super().__init__(points, **kw)
        self.camera = camera


class Deep(Own):
    __slots__ = ()


GOODDETS = {"subclass": lambda p: Own(p, 3), "subsubclass": lambda p: Deep(p, camera=None, data=1), "copy": lambda p: __import__("copy").deepcopy(Detection(p))}


def check_good(case, rec):
    """lists holding instances of subclasses work like lists of plain detections"""
    _, kind, n, pos, frames, cam, dist = case
    out = []
    for good in (False, True):
        tr = Tracker(dist if dist != "call" else static_distance, 10.0, hit_counter_max=3, initialization_delay=1)
        res = []
        for t in range(frames):
            pts = [np.array([[0.5 * t + 100 * i, 0.0], [0.5 * t + 100 * i + 5.0, 5.0]]) for i in range(n)]
            dets = [GOODDETS[kind](p) if good and (i == pos or t == pos) else Detection(p) for i, p in enumerate(pts)]
            kw = dict(coord_transformations=TranslationTransformation(np.array([1.0 * t, 2.0]))) if cam else {}
            ret = tr.update(dets, **kw)
            require(sum(any(o.last_detection is d for d in dets) for o in tr.tracked_objects) == n, lambda: "frame %d: not every detection is the last one of an object" % t)
            res.append((snapshot(tr), [o.id for o in ret]))
        out.append(res)
    require(out[0] == out[1], lambda: "a list holding a %s of Detection is tracked differently" % kind)
    rec.step(frames)
    rec.outcome(case)


def distance_of(kind, key):
    return {"name": lambda: key, "call": lambda: CALLABLES[key], "bad": lambda: BADTYPES[key]}[kind]()


def check_grid(case, rec):
    _, kind, key, H, delay, past = case
    known = kind == "call" or (kind == "name" and key in NAMES)
    valid = known and not (delay is not None and (delay < 0 or delay >= H)) and past >= 0
    kw = {} if delay is None else dict(initialization_delay=delay)
    try:
        tr = Tracker(distance_of(kind, key), 10.0, hit_counter_max=H, past_detections_length=past, **kw)
    except ValueError as e:
        require(not valid, lambda: "valid configuration rejected: %s" % e)
        rec.outcome((kind, key, "rejected", H, delay, past))
        return
    require(valid, "invalid configuration accepted")
    d = H // 2 if delay is None else delay
    first = None
    if key in ("euclidean", "function", "iou", "frobenius", "lambda", "partial", "object", "method"):
        pts = np.array([[0.0, 0.0], [10.0, 10.0]])
        for t in range(1, math.floor(d) + 3):
            ret = tr.update([Detection(pts)])
            want = t > d
            require((len(ret) == 1) == want, lambda: "H=%s delay=%s: object %sreturned in frame %d" % (H, delay, "" if ret else "not ", t))
            if first is None and ret:
                first = t
            got = len(tr.tracked_objects[0].past_detections)
            require(got <= past and (past == 0 or got >= 1), lambda: "past_detections_length=%s but %d are kept" % (past, got))
        # lives exactly min(counter, H) + 1 frames without detections
        c = min(math.floor(d) + 2, H) if H > 0 else 0
        for t in range(c):
            require(len(tr.update([])) == 1, lambda: "H=%s: object gone after %d missed frames, counter was %d" % (H, t + 1, c))
        require(len(tr.update([])) == 0, lambda: "H=%s: object alive after %d missed frames" % (H, c + 1))
    rec.step()
    rec.outcome((kind, key, first, H, delay, past))


def check_points(case, rec):
    _, shape, dt = case
    arr = np.arange(int(np.prod(shape)), dtype=dt).reshape(shape) + 1
    try:
        det = Detection(arr.copy())
    except ValueError:
        require(len(shape) > 2, lambda: "points of shape %s rejected" % (shape,))
        rec.outcome(("points", shape, dt, "rejected"))
        return
    require(len(shape) <= 2, lambda: "points of shape %s accepted" % (shape,))
    want = arr.reshape(1, -1) if len(shape) == 1 else arr
    for name in ("points", "absolute_points"):
        got = getattr(det, name)
        require(got.shape == want.shape and np.array_equal(got, want), lambda: "%s of shape %s became %s" % (name, shape, got))
    tr = Tracker("euclidean", 10.0, hit_counter_max=3, initialization_delay=0)
    ret = tr.update([det])
    require(len(ret) == 1 and close(ret[0].estimate, want) and ret[0].live_points.shape == (want.shape[0],), "tracking these points gives another object")
    rec.outcome(("points", shape, dt))


def check_wrong(case, rec):
    _, kind, n, pos, objs, cam, dist = case
    tr = Tracker(dist if dist != "call" else static_distance, 10.0, hit_counter_max=3, initialization_delay=0)
    box = lambda x: Detection(np.array([[x, 0.0], [x + 5.0, 5.0]]))
    for _ in range(objs):
        tr.update([box(0.0), box(100.0)])
    dets = [box(0.5 + 100 * i) for i in range(n)]
    dets[pos] = BADDETS[kind]()
    kw = dict(coord_transformations=TranslationTransformation(np.array([0.0, 0.0]))) if cam else {}
    try:
        tr.update(dets, **kw)
    except ValueError:
        rec.outcome(("wrong", kind, n, pos, objs, cam, dist))
        return
    raise Violation("a detection list holding %s is accepted" % kind)


def check_defaults(case, rec):
    """no optional argument given"""
    tr = Tracker("euclidean", 10.0)
    n = 0
    for t in range(1, 10):
        n = len(tr.update([Detection(np.array([[1.0, 1.0]]))]))
        require((n == 1) == (t > 7), lambda: "default delay: %d objects in frame %d" % (n, t))
    for t in range(30):
        tr.update([Detection(np.array([[1.0, 1.0]]))])
    for t in range(15):
        require(len(tr.update()) == 1, lambda: "default hit_counter_max: gone after %d frames" % (t + 1))
    require(len(tr.update()) == 0, "default hit_counter_max is not 15")
    # pointwise_hit_counter_max 4
    tr = Tracker("euclidean", 10.0)
    for t in range(20):
        tr.update([Detection(np.array([[1.0, 1.0]]))])
    live = [bool(tr.update()[0].live_points[0]) for _ in range(6)]
    require(live == [True] * 3 + [False] * 3, lambda: "default pointwise_hit_counter_max: live in frames without detection %s" % live)
    # detection_threshold 0
    tr = Tracker("euclidean", 10.0)
    sc = np.array([-0.5, 0.0, 1e-9, 0.5, 1.0])
    for t in range(9):
        tr.update([Detection(np.arange(10.0).reshape(5, 2), scores=sc)])
    got = tr.get_active_objects()[0].live_points.tolist()
    require(got == [False, False, True, True, True], lambda: "default detection_threshold: scores %s give live points %s" % (sc, got))
    # past_detections_length 4
    tr = Tracker("euclidean", 10.0)
    lens = []
    for t in range(12):
        tr.update([Detection(np.array([[1.0, 1.0]]))])
        lens.append(len(tr.tracked_objects[0].past_detections))
    require(lens == [1, 2, 3] + [4] * 9, lambda: "default past_detections_length: %s kept" % lens)
    # the default filter is the optimized Kalman filter, the default period 1, and nothing is re-identified
    a, b = Tracker("euclidean", 10.0), Tracker("euclidean", 10.0, filter_factory=FILTERS["opt"](), reid_distance_function=lambda n, o: 0.0)
    for t in range(30):
        dets = lambda: [Detection(np.array([[0.3 * t * t / 10 + k, 2.0 * t]])) for k in (0.0, 500.0)] if t % 5 else []
        a.update(dets())
        b.update(dets(), period=1)
        require(snapshot(a) == snapshot(b), lambda: "frame %d: %s with defaults, %s with the default values given" % (t, snapshot(a), snapshot(b)))
    rec.outcome("defaults")


def run_case(case, rec):
    return {"grid": check_grid, "points": check_points, "wrong": check_wrong, "good": check_good, "defaults": check_defaults}[case[0]](case, rec)


def shards(tier):
    th = tier == "thorough"
    return [("grid", H, th) for H in range(13 if th else 7)] + [("names", th)] + [("points", th), ("wrong", th)]


def run_shard(shard, rec):
    th = shard[-1]
    if shard[0] == "grid":
        for kind, key in (("name", "euclidean"), ("call", "function"), ("name", "iou"), ("name", "nothing")):
            # not only integers
            for delay in (-0.5, -1e-9, 0.0, 0.5, 1.5, shard[1] - 1.0, shard[1] - 0.5, shard[1] - 1e-9, float(shard[1]), shard[1] + 0.5):
                for past in (-1, 0, 2):
                    rec.case(("grid", kind, key, shard[1], delay, past))
        for kind, key in (("name", "euclidean"), ("call", "function"), ("name", "iou"), ("name", "nothing"), ("bad", "None")):
            for delay in (None,) + tuple(range(-2, 15 if th else 9)):
                for past in range(-2, 6 if th else 4):
                    rec.case(("grid", kind, key, shard[1], delay, past))
    elif shard[0] == "names":
        rec.case(("defaults",))
        keys = [("name", k) for k in NAMES + WRONG] + [("call", k) for k in CALLABLES] + [("bad", k) for k in BADTYPES]
        for kind, key in keys:
            for H, delay in ((3, None), (3, 2), (3, 3), (1, 0), (2, -1)):
                for past in (0, 1, -1):
                    rec.case(("grid", kind, key, H, delay, past))
    elif shard[0] == "points":
        sides = range(1, 5 if th else 4)
        for rank in range(1, 5):
            for shape in itertools.product(sides, repeat=rank):
                for dt in ("float64", "int64", "float32"):
                    rec.case(("points", shape, dt))
    else:
        for kind in GOODDETS:
            for n in range(1, 4):
                for pos in range(n):
                    for cam in (False, True):
                        for dist in ("euclidean", "call", "iou"):
                            rec.case(("good", kind, n, pos, 6, cam, dist))
        for n in SIZES:
            for kind in BADDETS:
                for pos in (0, n // 2, n - 1):
                    rec.case(("wrong", kind, n, pos, 2, n % 2, "euclidean"))
            for i, kind in enumerate(GOODDETS):
                rec.case(("good", kind, n, (0, n // 2, n - 1)[i % 3], 3, False, "euclidean"))
        for kind in BADDETS:
            for n in range(1, 5 if th else 4):
                for pos in range(n):
                    for objs in (0, 1, 2):
                        for cam in (0, 1):
                            for dist in ("call", "euclidean", "iou", "frobenius"):
                                rec.case(("wrong", kind, n, pos, objs, cam, dist))
