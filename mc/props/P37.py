"""P37: a tracker behaves on the thousandth frame of an endless stream as on the first ones."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
TECH = "execution of the real tracker on every periodic stream of a bounded period until its observable state repeats (lasso detection), and on to the bound, where every cycle must equal the one before"
RULE = (
    "one execution = one configuration on one periodic stream; from the frame on where the observable state has become periodic, every later frame must show"
    " the same; distinct_nontrivial = distinct (configuration, cycle) pairs"
)
BOUNDS = {
    "quick": "11 configurations x all primitive words of up to 3 frames over 5 letters (what two moving and one appearing target show) and 2 frames with something new every time, 800 frames each; 8 words for 20000 frames",
    "thorough": "all words of up to 4 frames, 4000 frames each; 20 words for 200000 frames",
}
ASSUMPTIONS = ["targets move with constant velocity, so that filters converge (1e-5); transients of up to 600 frames are not judged here"]
CASE_TIMEOUT = 200.0
TRANSIENT = 500


def reid(new, old):
    return abs(new.last_detection.embedding - old.last_detection.embedding)


def first_point(det, obj):
    """the second point is not always detected"""
    return float(np.abs(det.points[0] - obj.estimate[0]).sum())


CONFS = {
    "opt": lambda: Tracker("euclidean", 60, hit_counter_max=4, initialization_delay=2),
    "default": lambda: Tracker("mean_euclidean", 40),
    "fpy": lambda: Tracker("euclidean", 60, hit_counter_max=5, initialization_delay=1, filter_factory=FILTERS["fpy"]()),
    "no": lambda: Tracker("euclidean", 60, hit_counter_max=3, initialization_delay=0, filter_factory=FILTERS["no"]()),
    "iou": lambda: Tracker("iou", 0.9, hit_counter_max=3, initialization_delay=1, pointwise_hit_counter_max=2),
    "points": lambda: Tracker(first_point, 60, hit_counter_max=4, initialization_delay=1, detection_threshold=0.5, pointwise_hit_counter_max=3),
    "points140": lambda: Tracker(first_point, 60, hit_counter_max=140, initialization_delay=1, detection_threshold=0.5, pointwise_hit_counter_max=140),
    "past": lambda: Tracker("euclidean", 60, hit_counter_max=4, initialization_delay=0, past_detections_length=3),
    "reid": lambda: Tracker("euclidean", 60, hit_counter_max=2, initialization_delay=1, reid_distance_function=reid, reid_distance_threshold=0.5, reid_hit_counter_max=3),
    "reidforever": lambda: Tracker("euclidean", 60, hit_counter_max=2, initialization_delay=1, reid_distance_function=reid, reid_distance_threshold=0.5, reid_hit_counter_max=10**6),
    "camera": lambda: Tracker("euclidean", 60, hit_counter_max=4, initialization_delay=1),
}
# N is something new in every frame
LETTERS = ["", "A", "AB", "B", "AC", "N", "AN"]
PERIOD = {"points": 2}


def primitive(w):
    return not any(len(w) % d == 0 and w == w[:d] * (len(w) // d) for d in range(1, len(w)))


def words(n):
    for k in range(1, n + 1):
        for w in itertools.product(range(len(LETTERS)), repeat=k):
            if len(w) > 2 and max(w) > 4:
                continue
            if primitive(w) and any(w):
                yield w


def shards(tier):
    th = tier == "thorough"
    out = []
    for conf in CONFS:
        ws = list(words(4 if th else 3))
        for i in range(0, len(ws), 20):
            out.append((conf, tuple(ws[i : i + 20]), 4000 if th else 800))
    for conf, w in (("opt", (2, 1)), ("points", (2, 1)), ("reid", (2, 2, 3, 0)), ("past", (1, 4)), ("camera", (2, 1)), ("past", (5,)), ("reid", (5, 2, 2)), ("opt", (6, 2))):
        out.append((conf, (w,), 200000 if th else 20000))
        if th:
            for v in ((1,), (2, 2, 0), (4, 2)):
                out.append((conf, (v,), 200000))
    return out


def run_shard(shard, rec):
    conf, ws, n = shard
    for w in ws:
        rec.case((conf, w, n))


VEL = {"A": (0.8, 0.1), "B": (-0.6, 0.3), "C": (0.0, 0.0)}
# in the first frame of every word what is detected is displaced, so that filters never come to rest
JITTER = {"A": (2.0, -1.0), "B": (-1.5, 2.5), "C": (0.0, 1.0), "N": (0.0, 0.0)}
START = {"A": (0.0, 0.0), "B": (-3000.0, 5000.0), "C": (90000.0, 90000.0)}


def truth(letter, t):
    if letter == "N":
        return -700.0 * t - 1e5, 1e5
    x, y = START[letter]
    return x + VEL[letter][0] * t, y + VEL[letter][1] * t


def shown(letter, t, rel, jitter):
    x, y = truth(letter, t)
    if jitter:
        x, y = x + JITTER[letter][0], y + JITTER[letter][1]
    if rel is not None:
        x, y = x + rel[0], y + rel[1]
    return np.array([[x, y], [x + 24.0, y + 40.0]])


def observe(o, t, rel):
    """all that should repeat"""
    letter = o.label
    x, y = truth(letter, o.last_detection.data if letter == "N" else t)
    if rel is not None:
        x, y = x + rel[0], y + rel[1]
    e = np.asarray(o.estimate, dtype=float) - [[x, y], [x + 24.0, y + 40.0]]
    v = np.array(o.estimate_velocity, dtype=float)
    if not o.live_points.all():  # where a point is that has not been seen lately is its own affair
        e[~o.live_points], v[~o.live_points] = 0.0, 0.0
    return (letter, bool(o.is_initializing), o.hit_counter, o.reid_hit_counter, tuple(bool(b) for b in o.live_points), len(o.past_detections), t - o.last_detection.data), \
        np.concatenate([e.ravel(), v.ravel(), [0.0 if o.last_distance is None else o.last_distance]])


def run_case(case, rec):
    conf, w, n = case
    tr = CONFS[conf]()
    p = PERIOD.get(conf, 1)
    L = len(w)
    ids, ages, born = {}, {}, {}
    cycle = None  # observations of the last cycle, once periodic
    trace = []
    k = None
    for t in range(n):
        rel = (37.5 * (t % 9), -3.0 * (t % 4)) if conf == "camera" else None
        dets = []
        for letter in LETTERS[w[t % L]]:
            scores = np.array([0.9, 0.9 if (t % L + (letter == "B")) % 2 else 0.1]) if conf.startswith("points") else None
            dets.append(Detection(shown(letter, t, rel, L > 1 and t % L == 0), scores=scores, label=letter, embedding=float("ABCN".index(letter)), data=t))
        ret = tr.update(dets, period=p, **({} if rel is None else {"coord_transformations": TranslationTransformation(np.array(rel))}))
        for o in tr.tracked_objects:
            i = id(o)
            # instances are kept alive here, so that their ids are theirs
            if i not in ages:
                ages[i], born[i] = (t, o), t
                require(o.age == 0, lambda: "frame %d: new object of age %s" % (t, o.age))
            require(o.age == t - born[i], lambda: "frame %d: object created in frame %d has age %s" % (t, born[i], o.age))
        alive = {id(o) for o in tr.tracked_objects}
        for i in [i for i in ages if i not in alive]:
            del ages[i], born[i]
        seen = [o.id for o in ret]
        require(len(set(seen)) == len(seen) and all(type(i) is int and 1 <= i <= tr.total_object_count for i in seen), lambda: "frame %d: ids %s of %d" % (t, seen, tr.total_object_count))
        for o in ret:
            require(ids.setdefault(o.id, o) is o, lambda: "frame %d: id %s was another object's" % (t, o.id))
        for i in [i for i in ids if i not in seen and i < tr.total_object_count - 50]:
            del ids[i]
        obs = sorted((observe(o, t, rel) for o in tr.tracked_objects if o.hit_counter >= 0 or not o.is_initializing), key=lambda x: repr(x[0]))
        entry = (tuple(x[0] for x in obs), np.array([x[1] for x in obs]), len(ret))
        if k is None:
            trace.append(entry)
            if t == min(TRANSIENT, n - 3 * L) + 12 * L:
                k = next((j for j in range(1, 7) if all(same(trace[-1 - i], trace[-1 - i - j * L]) for i in range(j * L))), None)
                require(k is not None, lambda: "after %d frames of the stream %s the tracks do not repeat: %s, one round before %s" % (t, [LETTERS[x] for x in w], brief(trace[-1]), brief(trace[-1 - L])))
                cycle = trace[-k * L :]
                first = t - k * L + 1
                trace = []
        else:
            was = cycle[(t - first) % (k * L)]
            require(same(entry, was), lambda: "frame %d of the stream %s: %s, in every round before %s" % (t, [LETTERS[x] for x in w], brief(entry), brief(was)))
        rec.step()
    rec.state((conf, w, k))
    rec.outcome((conf, tuple(c[0] for c in cycle)))


def brief(e):
    return (e[0], np.round(e[1], 4).tolist(), e[2])


def same(a, b):
    return a[0] == b[0] and a[2] == b[2] and a[1].shape == b[1].shape and (a[1].size == 0 or float(np.abs(a[1] - b[1]).max()) < 1e-5)
