"""P36: the options of the tracker combine: every update equals the documented algorithm with all of its parts."""
import itertools
import math

import numpy as np

from ..common import *
from norfair.camera_motion import HomographyTransformation

LEVEL = "model_checking"
TECH = (
    "exhaustive exploration of all short histories of the real tracker for a covering array of configurations (every"
    " combination of the values of any three options occurs), each update compared with a complete reference tracker"
)
RULE = (
    "after every update all objects, in every observable, are compared with an independent reference implementation of the whole update"
    " (matching rounds, labels, ReID, counters, points, past detections, camera), whose distances are computed by own formulas and whose"
    " filters are own instances of the configured filter; distinct_nontrivial = distinct (configuration, reference run)"
)
BOUNDS = {
    "quick": "covering array of strength 2 x all histories of 4 frames over 7 letters, covering array of strength 3 x 4 stems x all histories"
    " of 2 frames (all combinations of values of any 2 / 3 of 11 options)",
    "thorough": "strength 2 x 5 frames, strength 3 x 4 stems x 3 frames, strength 4 x 3 stems x 2 frames",
}
ASSUMPTIONS = [
    "histories with two competing pairs at (almost) equal distance, or a distance (almost) at the threshold, are cut there and counted",
    "the filters themselves are P10's; here the reference drives its own instances",
    "the order in which objects created by one update get their ids is not observed",
]

OPTIONS = {
    "dist": ["mean", "vec", "iou", "own", "scipy"],
    "filter": ["opt", "fpy", "no"],
    "label": ["none", "two", "mixed"],
    "scores": ["none", "half", "low", "some"],
    "cam": ["none", "shift", "homography"],
    "reid": ["off", "both2", "both0", "function", "counter"],
    "past": [0, 1, 3],
    "life": [(2, 0), (2, 1), (3, 1), (4, None), (3, 0)],
    "points": [1, 2, 4],
    "period": ["1", "2", "mixed"],
    "threshold": ["wide", "narrow"],
}
NAMES = sorted(OPTIONS, key=lambda n: -len(OPTIONS[n]))
LETTERS = ["", "A", "B", "AB", "CA", "J", "BJ"]
STEMS = [("AB", "AB"), ("AB", "AB", "", "B"), ("A", "A", "CA", "A", "", ""), ("AB", "AB", "J")]
EMB = {"A": 0.0, "B": 5.0, "C": 1.0, "J": 0.25}
EPS = 1e-7


def covering(strength):
    """rows (tuples of indices, in the order of NAMES) such that all combinations of `strength` options occur; greedy, deterministic"""
    sizes = [len(OPTIONS[n]) for n in NAMES]
    todo = {}
    for cols in itertools.combinations(range(len(sizes)), strength):
        todo[cols] = set(itertools.product(*(range(sizes[c]) for c in cols)))
    rows = []
    while any(todo.values()):
        cols = next(c for c, s in todo.items() if s)
        row = dict(zip(cols, min(todo[cols])))
        for c in range(len(sizes)):
            if c in row:
                continue
            best = None
            for v in range(sizes[c]):
                v = (v + len(rows)) % sizes[c]
                gain = 0
                for others in itertools.combinations(sorted(row), strength - 1):
                    key = tuple(sorted(others + (c,)))
                    if tuple(v if k == c else row[k] for k in key) in todo[key]:
                        gain += 1
                if best is None or gain > best[0]:
                    best = (gain, v)
            row[c] = best[1]
        row = tuple(row[c] for c in range(len(sizes)))
        for cols, s in todo.items():
            s.discard(tuple(row[c] for c in cols))
        rows.append(row)
    return rows


ROWS = {}


def rows(strength):
    if strength not in ROWS:
        ROWS[strength] = covering(strength)
    return ROWS[strength]


def shards(tier):
    out = []
    if tier == "thorough":
        plan = [(2, None, 5), (3, 0, 3), (3, 1, 3), (3, 2, 3), (3, 3, 3), (4, 0, 2), (4, 1, 2), (4, 3, 2)]
    else:
        plan = [(2, None, 4), (3, 0, 2), (3, 1, 2), (3, 2, 2), (3, 3, 2)]
    for strength, stem, n in plan:
        rs = rows(strength)
        step = 1 if stem is None else 8
        for i in range(0, len(rs), step):
            out.append((tuple(rs[i:i + step]), stem, n))
    return out


def run_shard(shard, rec):
    rs, stem, n = shard
    for row in rs:
        rec.state(row)
        for w in itertools.product(range(len(LETTERS)), repeat=n):
            rec.case((row, stem, w))


def conf_of(row):
    return {n: OPTIONS[n][i] for n, i in zip(NAMES, row)}


def period_of(conf, t):
    return {"1": 1, "2": 2, "mixed": (1, 2, 1, 3)[t % 4]}[conf["period"]]


def box(letter, t):
    """true box in absolute coordinates"""
    if letter == "A":
        x, y = 20.0 + 4 * t + 0.3 * t * t, 20.0 + t
    elif letter == "B":
        x, y = 58.0 - 5 * t, 27.0 + 2 * t
    elif letter == "C":
        x, y = 37.0 + 1.5 * t, 23.0 + 0.5 * t
    else:
        x, y = 420.0 + 7 * t, 300.0 - t
    return np.array([[x, y], [x + 22.0 + 0.5 * t, y + 31.0]])


def label(conf, letter):
    if conf["label"] == "none":
        return None
    if conf["label"] == "two":
        return "y" if letter == "B" else "x"
    return "y" if letter == "B" else None


def mask(conf, letter, t):
    k = "ABCJ".index(letter)
    if conf["scores"] == "none":
        return None
    if conf["scores"] == "half":
        return [True, (t + k) % 2 == 0]
    if conf["scores"] == "low":
        return [(t + k) % 3 > 0, (t + k) % 3 > 1]
    return None if (t + k) % 2 else [t % 3 == 0, True]


class Cam:
    """own camera model: relative = matrix applied to absolute"""

    def __init__(self, kind, t):
        if kind == "shift":
            self.m = np.array([[1.0, 0, 9.0 * t], [0, 1.0, -6.0 * t], [0, 0, 1.0]])
            self.given = TranslationTransformation(np.array([9.0 * t, -6.0 * t]))
        else:
            self.m = np.array([[1.0 + 0.01 * t, 0.004 * t, 5.0 * t], [-0.003 * t, 1.0 + 0.008 * t, 3.0 * t], [1e-5 * t, 2e-5 * t, 1.0]])
            self.given = HomographyTransformation(self.m.copy())

    def relative(self, pts):
        p = np.hstack([pts, np.ones((len(pts), 1))]) @ self.m.T
        return p[:, :2] / p[:, 2:]


CAMS = {}


def cam_of(conf, t):
    if conf["cam"] == "none":
        return None
    key = (conf["cam"], t)
    if key not in CAMS:
        CAMS[key] = Cam(*key)
    return CAMS[key]


def own_mean(a, b):
    return sum(math.hypot(x[0] - y[0], x[1] - y[1]) for x, y in zip(a, b)) / len(a)


def own_euclid(a, b):
    return math.sqrt(sum((x - y) ** 2 for p, q in zip(a, b) for x, y in zip(p, q)))


def own_iou(a, b):
    w = min(a[1][0], b[1][0]) - max(a[0][0], b[0][0])
    h = min(a[1][1], b[1][1]) - max(a[0][1], b[0][1])
    i = max(w, 0.0) * max(h, 0.0)
    s = lambda r: (r[1][0] - r[0][0]) * (r[1][1] - r[0][1])
    return 1 - i / (s(a) + s(b) - i)


def own_first(a, b):
    """only the first point, and heights"""
    return math.hypot(a[0][0] - b[0][0], a[0][1] - b[0][1]) + abs((a[1][1] - a[0][1]) - (b[1][1] - b[0][1]))


# name: (own formula, what the tracker is given, wide threshold, narrow threshold)
def user_scalar(det, obj):
    return own_first(det.points, obj.estimate)


def own_chebyshev(a, b):
    return max(abs(x - y) for p, q in zip(a, b) for x, y in zip(p, q))


DIST = {
    "mean": (own_mean, lambda: "mean_euclidean", 40.0, 9.0),
    "vec": (own_euclid, lambda: "euclidean", 60.0, 12.0),
    "iou": (own_iou, lambda: "iou", 0.95, 0.55),
    "own": (own_first, lambda: user_scalar, 45.0, 9.5),
    "scipy": (own_chebyshev, lambda: "chebyshev", 42.0, 8.0),
}
REID = {"off": (False, None), "both2": (True, 2), "both0": (True, 0), "function": (True, None), "counter": (False, 1)}
REID_THR = 2.0


class Tie(Exception):
    pass


def greedy(cands, objs, dist, thr):
    """pairs (candidate index, object index, distance) of the closest-first assignment"""
    pairs = []
    for i, c in enumerate(cands):
        for j, o in enumerate(objs):
            if c.label == o.label:
                d = dist(c, o)
                if abs(d - thr) < EPS:
                    raise Tie()
                if d < thr:
                    pairs.append((d, i, j))
    pairs.sort()
    out, ui, uj = [], set(), set()
    for k, (d, i, j) in enumerate(pairs):
        if i in ui or j in uj:
            continue
        for e, x, y in pairs[k + 1:]:
            if e - d >= EPS:
                break
            if x not in ui and y not in uj and (x == i or y == j):
                raise Tie()
        ui.add(i)
        uj.add(j)
        out.append((i, j, d))
    return out


class Det:
    __slots__ = ("real", "points", "absolute", "mask", "label", "emb")


class Obj:
    __slots__ = ("c", "r", "init", "p0", "age", "pts", "once", "f", "last", "dist", "past", "label", "n")

    def position(self):
        return np.array(self.f.x, dtype=float).ravel()[:4].reshape(2, 2)


class Ref:
    def __init__(self, conf):
        self.conf = conf
        self.H, self.delay = conf["life"][0], effective_delay(*conf["life"])
        self.fn, self.rmax = REID[conf["reid"]]
        self.dist, _, wide, narrow = DIST[conf["dist"]]
        self.thr = wide if conf["threshold"] == "wide" else narrow
        self.factory = FILTERS[conf["filter"]]()
        self.objs = []
        self.ids = 0
        self.cam = None

    def estimate(self, o):
        return o.position() if self.cam is None else self.cam.relative(o.position())

    def remember(self, o, det):
        n = self.conf["past"]
        if not n:
            return
        if len(o.past) < n:
            o.past.append((det, o.age))
        elif o.age >= o.past[0][1] * n:
            o.past = o.past[1:] + [(det, o.age)]

    def frame(self, period, dets, cam):
        if cam is not None:
            self.cam = cam
        alive, dead, keep = [], [], []
        for o in self.objs:
            if self.rmax is None:
                stays = o.c >= 0
            else:
                stays = o.r is None or o.r >= 0
            if not stays:
                continue
            keep.append(o)
            if o.c >= 0:
                alive.append(o)
            elif o.init:
                dead.append(o)
        self.objs = keep
        for o in keep:
            if o.r is not None:
                o.r -= 1
            elif o.c <= 0:
                o.r = self.rmax
            o.c -= 1
            o.pts = [max(k - 1, -1) for k in o.pts]
            o.age += 1
            o.f.predict()
        left = list(dets)
        fresh, lost = [], []
        first = [o for o in alive if o.init]
        second = [o for o in alive if not o.init]
        for group in (first, second):
            matches = greedy(left, group, lambda d, o: self.dist(d.points, self.estimate(o)), self.thr)
            for i, j, d in matches:
                self.hit(group[j], left[i], period, d)
                if group is second:
                    fresh.append(group[j])
            if group is first:
                lost = [o for j, o in enumerate(group) if j not in {m[1] for m in matches}]
            left = [d for i, d in enumerate(left) if i not in {m[0] for m in matches}]
        if self.fn:
            old = lost + dead
            # the distances of the user are about the last detections
            for i, j, _ in greedy(fresh, old, lambda a, b: reid_value(a.last.emb, b.last.emb, self.estimate(a), self.estimate(b)), REID_THR):
                n, o = fresh[i], old[j]
                o.r, o.c = None, 2 * o.p0
                o.pts, o.once, o.last, o.dist, o.f = n.pts, n.once, n.last, n.dist, n.f
                for det, _age in n.past:
                    self.remember(o, det)
                self.objs.remove(n)
        for d in left:
            o = Obj()
            o.c = o.p0 = period
            o.r, o.age, o.label, o.last, o.dist = None, 0, d.label, d, None
            o.once = [True, True] if d.mask is None else list(d.mask)
            o.pts = [int(b) for b in o.once]
            o.past = [(d, 0)] if self.conf["past"] else []
            o.f = self.factory.create_filter(d.absolute.copy())
            o.init = False
            o.n = None
            self.initialize(o)
            self.objs.append(o)

    def initialize(self, o):
        if not o.init and o.c > self.delay:
            o.init = True
            self.ids += 1

    def hit(self, o, d, period, dist):
        self.remember(o, d)
        o.last, o.dist = d, dist
        o.c = min(o.c + 2 * period, self.H)
        o.r = None
        self.initialize(o)
        now = [True, True] if d.mask is None else d.mask
        cap = max(self.conf["points"], o.p0)
        o.pts = [max(min(k + 2 * period, cap) if b else min(k, cap), 0) for k, b in zip(o.pts, now)]
        h = np.zeros((4, 8))
        for k in range(4):
            h[k, k] = float(now[k // 2])
        z = d.absolute.reshape(4, 1)
        o.f.update(z.copy(), None, h)
        for k in range(4):
            if not o.once[k // 2]:
                o.f.x[4 + k] = 0.0
                if now[k // 2]:
                    o.f.x[k] = z[k]
        o.once = [a or b for a, b in zip(o.once, now)]


def reid_value(ea, eb, a, b):
    return abs(ea - eb) + 1e-4 * own_mean(a, b)


def reid_user(new, old):
    return reid_value(new.last_detection.embedding, old.last_detection.embedding, new.estimate, old.estimate)


def detection(conf, letter, t, cam):
    d = Det()
    d.absolute = box(letter, t)
    d.mask = mask(conf, letter, t)
    if d.mask is not None:
        d.absolute = d.absolute + np.array([[0.0 if d.mask[0] else -3.0, 0.0], [0.0, 0.0 if d.mask[1] else 4.0]])
    d.points = d.absolute if cam is None else cam.relative(d.absolute)
    d.label, d.emb = label(conf, letter), EMB[letter]
    # with "low" whole detections have no score at all
    none = 0.0 if conf["scores"] == "low" else 0.2
    scores = None if d.mask is None else np.array([0.9 if b else none for b in d.mask])
    d.real = Detection(d.points.copy(), scores=scores, label=d.label, embedding=d.emb, data=(letter, t))
    return d


def run_case(case, rec):
    row, stem, w = case
    conf = conf_of(row)
    hist = (STEMS[stem] if stem is not None else ()) + tuple(LETTERS[k] for k in w)
    ref = Ref(conf)
    kw = {}
    if ref.fn:
        kw.update(reid_distance_function=reid_user, reid_distance_threshold=REID_THR)
    if ref.rmax is not None:
        kw.update(reid_hit_counter_max=ref.rmax)
    tr = Tracker(DIST[conf["dist"]][1](), ref.thr, hit_counter_max=conf["life"][0], initialization_delay=conf["life"][1],
                 pointwise_hit_counter_max=conf["points"], detection_threshold=0.5, filter_factory=FILTERS[conf["filter"]](),
                 past_detections_length=conf["past"], **kw)
    real_of = {}  # id(reference object) -> (reference object, real object)
    idof = {}
    trail = []
    for t, word in enumerate(hist):
        cam = cam_of(conf, t)
        period = period_of(conf, t)
        dets = [detection(conf, letter, t, cam) for letter in word]
        try:
            ref.frame(period, dets, cam)
        except Tie:
            rec.count("histories cut at a tie")
            break
        call = dict(period=period)
        if cam is not None:
            call["coord_transformations"] = cam.given
        if dets or t % 2:
            call["detections"] = [d.real for d in dets]
        ret = tr.update(**call)
        rec.step()
        check(t, word, conf, ref, tr, ret, real_of, idof)
        trail.append(tuple((o.c, o.r, o.init, tuple(o.pts), o.last.real.data) for o in ref.objs))
    rec.outcome((row, tuple(trail)))


def check(t, word, conf, ref, tr, ret, real_of, idof):
    expected = []
    everyone = list(tr.tracked_objects)
    for o in ref.objs:
        if id(o) not in real_of:
            new = [x for x in everyone if x.last_detection is o.last.real and not any(x is y for _, y in real_of.values())]
            require(len(new) == 1, lambda: "frame %d (%s): %d objects created from detection %s" % (t, word, len(new), o.last.real.data))
            real_of[id(o)] = (o, new[0])
        x = real_of[id(o)][1]
        where = lambda: "frame %d (%s), object seen last at %s, id %s" % (t, word, o.last.real.data, x.id)
        if not any(x is y for y in everyone):
            over = (o.r is not None and o.r < 0) or (o.c < 0 and (ref.rmax is None or not o.init))
            require(over, lambda: "%s is gone with hit counter %s, ReID counter %s" % (where(), o.c, o.r))
            continue
        if not o.init and o.c < 0:
            continue

        def same(name, got, want):
            require(got == want, lambda: "%s: %s is %s, expected %s" % (where(), name, got, want))

        same("is_initializing", bool(x.is_initializing), not o.init)
        same("hit_counter", x.hit_counter, o.c)
        if o.init:
            same("reid_hit_counter", x.reid_hit_counter, o.r)
        same("age", x.age, o.age)
        same("label", x.label, o.label)
        same("live_points", [bool(b) for b in x.live_points], [k > 0 for k in o.pts])
        require(x.last_detection is o.last.real, lambda: "%s: last_detection is %s" % (where(), x.last_detection.data))
        same("past_detections", [d.data for d in x.past_detections], [d.real.data for d, _ in o.past])
        require(all(a is d.real for a, (d, _) in zip(x.past_detections, o.past)), lambda: "%s: past_detections are copies" % where())
        same("ages of past_detections", [d.age for d in x.past_detections], [a for _, a in o.past])
        for d in [o.last] + [p for p, _ in o.past]:
            require(close(d.real.points, d.points) and close(d.real.absolute_points, d.absolute),
                    lambda: "%s: detection %s has points %s, absolute %s, given %s, %s" % (where(), d.real.data, d.real.points.tolist(), d.real.absolute_points.tolist(), d.points.tolist(), d.absolute.tolist()))
        require((x.last_distance is None) == (o.dist is None) and (o.dist is None or abs(x.last_distance - o.dist) < 1e-6),
                lambda: "%s: last_distance is %s, expected %s" % (where(), x.last_distance, o.dist))
        require(close(x.estimate, ref.estimate(o)), lambda: "%s: estimate %s, expected %s" % (where(), x.estimate.tolist(), ref.estimate(o).tolist()))
        if conf["cam"] != "none":
            require(close(x.get_estimate(absolute=True), o.position()), lambda: "%s: absolute estimate %s, expected %s" % (where(), x.get_estimate(absolute=True).tolist(), o.position().tolist()))
        v = np.array(o.f.x, dtype=float).ravel()[4:].reshape(2, 2)
        require(close(x.estimate_velocity, v), lambda: "%s: velocity %s, expected %s" % (where(), x.estimate_velocity.tolist(), v.tolist()))
        if o.init:
            require(x.id is not None and x.global_id is not None and idof.setdefault(id(o), (x.id, x.global_id)) == (x.id, x.global_id),
                    lambda: "%s: ids %s, were %s" % (where(), (x.id, x.global_id), idof.get(id(o))))
            if o.c >= 0:
                expected.append(x)
        else:
            same("id", x.id, None)
    mine = [real_of[id(o)][1] for o in ref.objs]
    for x in everyone:
        if not any(x is y for y in mine):
            require(x.is_initializing and x.hit_counter < 0, lambda: "frame %d (%s): object id %s with hit counter %s should not exist" % (t, word, x.id, x.hit_counter))
    require(len({id(x) for x in expected} ^ {id(x) for x in ret}) == 0 and len(ret) == len(expected),
            lambda: "frame %d (%s): returned %s, expected %s" % (t, word, [o.id for o in ret], [o.id for o in expected]))
    require(len({x.id for x in ret}) == len(ret), lambda: "frame %d: ids %s" % (t, [x.id for x in ret]))
    require(tr.total_object_count == ref.ids and tr.current_object_count == len(expected),
            lambda: "frame %d (%s): counts %s, %s, expected %s, %s" % (t, word, tr.total_object_count, tr.current_object_count, ref.ids, len(expected)))
