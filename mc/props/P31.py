"""P31: an update that fails counts as one whose unprocessed detections were not given."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
TECH = "exhaustive fault injection: every call of the user's functions in every history is made to fail, on the real tracker, compared with a run of the real tracker without the failure"
RULE = "one execution = one history with one failure (call x kind), compared with the history in which the failing frame is replaced, after the failure and after every later frame; distinct outcomes = distinct (configuration, failed round, state after the failure, final state)"
BOUNDS = {
    "quick": "8 configurations; all histories of 3 frames over 6 frames, then every failing frame, every call of a distance or ReID distance function in it failing (NaN, exception) or every position of the list holding"
    " a wrong item, then 5 continuations of 3 frames; frames of 5 to 129 detections (12 sizes): first, middle and last calls of every round, first, middle and last positions",
    "thorough": "all histories of 4 frames, 9 continuations",
}
ASSUMPTIONS = ["the user's functions fail by raising or by returning NaN; they do not change the tracker"]

# detections (location, label) of a frame; places are far apart unless equal or next to each other
FRAMES = {"": (), "a": (0,), "b": (100,), "ab": (0, 100), "c": (0, 4, 100), "n": (50,)}
NEXT = [("ab", "a", ""), ("", "ab", "ab"), ("c", "n", "c"), ("a", "a", "b"), ("", "", "n"), ("n", "n", "n"), ("b", "ab", "c"), ("ab", "ab", "ab"), ("c", "", "a")]


def places(f):
    """a frame by name, or as many things as the number says (only every third one if it is negative)"""
    if f.lstrip("-").isdigit():
        return range(0, 40 * abs(int(f)), 40)[:: 3 if f.startswith("-") else 1]
    return FRAMES[f]


# what the user's functions raise: errors of every kind, that no one else must take for his own
BOOMS = [type("Boom", (b,), {}) for b in (Exception, ValueError, ZeroDivisionError, KeyError, IndexError, TypeError, AttributeError, AssertionError, RuntimeError, FloatingPointError, np.linalg.LinAlgError,
         NotImplementedError, MemoryError, OSError, UnicodeError, KeyboardInterrupt, StopIteration)]


class Wire:
    """the user's functions; call number `at` of the current frame fails in the given way"""

    def __init__(self):
        self.arm(None, None)
        self.noreid = False

    def arm(self, at, how):
        self.at, self.how, self.n, self.rounds = at, how, 0, []
        self.boom = None

    def call(self, kind, value):
        self.rounds.append(kind)
        self.n += 1
        if self.at is not None and self.n == self.at:
            if self.how == "raise":
                self.boom = BOOMS[self.kind % len(BOOMS)]("call %d" % self.n)
                raise self.boom
            return float("nan")
        return value

    def distance(self, det, obj):
        return self.call(2 if obj.is_initializing else 1, center_distance(det, obj))

    def reid(self, new, old):
        return self.call(3, 1e9 if self.noreid else float(np.abs(new.estimate - old.estimate).max()))


CONFS = {
    "scal": lambda w: Tracker(w.distance, 10, hit_counter_max=3, initialization_delay=1),
    "init0": lambda w: Tracker(w.distance, 10, hit_counter_max=2, initialization_delay=0, filter_factory=NoFilterFactory(), past_detections_length=2),
    "slow": lambda w: Tracker(w.distance, 10, hit_counter_max=5, initialization_delay=3),
    "fpy": lambda w: Tracker(w.distance, 10, hit_counter_max=3, initialization_delay=1, filter_factory=FilterPyKalmanFilterFactory()),
    "score": lambda w: Tracker(w.distance, 10, hit_counter_max=3, initialization_delay=1, detection_threshold=0.5, pointwise_hit_counter_max=2),
    "cam": lambda w: Tracker(w.distance, 10, hit_counter_max=3, initialization_delay=1),
    "reid": lambda w: Tracker(w.distance, 10, hit_counter_max=2, initialization_delay=1, reid_distance_function=w.reid, reid_distance_threshold=80, reid_hit_counter_max=4),
    "reidc": lambda w: Tracker(w.distance, 10, hit_counter_max=3, initialization_delay=1, reid_distance_function=w.reid, reid_distance_threshold=80, reid_hit_counter_max=4, filter_factory=NoFilterFactory()),
}


def detections(conf, f, t):
    out = []
    for i, x in enumerate(places(f)):
        x = float(x)
        scores = None
        if conf == "score":
            scores = np.array([0.9, 0.9 if (t + i) % 2 else 0.2])
        shift = 7.0 * t if conf == "cam" else 0.0
        out.append(Detection(np.array([[x + shift + 0.3 * t, 1.0], [x + shift + 9, 12.0 + 0.2 * t]]), scores=scores, data=(t, x)))
    return out


def update(tr, conf, dets, t):
    kw = dict(coord_transformations=TranslationTransformation(np.array([7.0 * t, 0.0]))) if conf == "cam" else {}
    return tr.update(dets, **kw)


def observe(tr, ret):
    return (snapshot(tr, det_key=lambda d: repr((d.data, np.round(d.absolute_points, 6).tolist()))), None if ret is None else tuple(o.id for o in ret), tr.total_object_count,
            tr.current_object_count, tuple(sorted((o.initializing_id, o.id is None or o.global_id is not None) for o in tr.tracked_objects)))


def start(conf, prefix):
    w = Wire()
    tr = CONFS[conf](w)
    for t, f in enumerate(prefix):
        update(tr, conf, detections(conf, f, t), t)
    w.arm(None, None)
    return w, tr


def go_on(conf, tr, w, cont, t0):
    w.arm(None, None)
    w.noreid = False
    out = []
    for i, f in enumerate(cont):
        out.append(observe(tr, update(tr, conf, detections(conf, f, t0 + i), t0 + i)))
    return out


def rounds_of(conf, prefix, f):
    """how many calls the frame makes, of which rounds, and which detections rounds 1 and 2 match"""
    w, tr = start(conf, prefix)
    t = len(prefix)
    initializing = {id(o): o.is_initializing for o in tr.tracked_objects}
    dets = detections(conf, f, t)
    index = {id(d): i for i, d in enumerate(dets)}
    before = list(tr.tracked_objects)
    w.noreid = True
    update(tr, conf, dets, t)
    one = [index[id(o.last_detection)] for o in before if id(o.last_detection) in index and not initializing[id(o)]]
    two = [index[id(o.last_detection)] for o in before if id(o.last_detection) in index and initializing[id(o)]]
    return list(w.rounds), sorted(one), sorted(one + two)


def reference(conf, prefix, f, kind, cont, d1, d2):
    """the state after the frame without its unprocessed detections (or without the frame), and what follows"""
    w, tr = start(conf, prefix)
    t = len(prefix)
    if kind != 0:
        keep = {1: [], 2: d1, 3: d2}[kind]
        dets = detections(conf, f, t)
        w.noreid = True
        update(tr, conf, [dets[i] for i in keep], t)
    s = observe(tr, None)
    return s, go_on(conf, tr, w, cont, t + 1)


MEMO = {}


def memo(fn, *args):
    key = (fn.__name__,) + args
    if key not in MEMO:
        if len(MEMO) > 3000:
            MEMO.clear()
        MEMO[key] = fn(*args)
    return MEMO[key]


def run_case(case, rec):
    """how: nan/raise at a call, or the name of a wrong item at a position of the list"""
    conf, prefix, f, how, at, cont = case
    t = len(prefix)
    rounds, d1, d2 = memo(rounds_of, conf, prefix, f)
    w, tr = start(conf, prefix)
    dets = detections(conf, f, t)
    if how in ("nan", "raise"):
        w.arm(at, how)
        w.kind = 7 * at + sum(map(len, prefix)) + 3 * len(f) + sum(map(len, cont))
        kind = rounds[at - 1]
    else:
        kind = 0
        wrong = {"None": None, "array": np.zeros((1, 2)), "class": Detection, "obj": tr.tracked_objects[0] if tr.tracked_objects else 7}[how]
        dets.insert(at, wrong)
        good = [d for d in dets if isinstance(d, Detection)]
        keep = [(d.points.copy(), d.absolute_points.copy(), d.age) for d in good]
    given = list(dets)
    try:
        update(tr, conf, dets, t)
    except BaseException as e:
        if how == "raise":
            require(e is w.boom, lambda: "the user's function raised %r, the caller is given %r" % (w.boom, e))
        else:
            require(isinstance(e, ValueError), lambda: "%s at %d: %r" % (how, at, e))
    else:
        require(False, lambda: "%s at %d: no failure%s" % (how, at, "" if w.boom is None else " although the user's function raised a %s" % type(w.boom).__mro__[1].__name__))
    require(len(dets) == len(given) and all(a is b for a, b in zip(dets, given)), "the list was modified")
    if kind == 0:
        for d, (p, a, age) in zip(good, keep):
            require(np.array_equal(d.points, p) and np.array_equal(d.absolute_points, a) and d.age == age, "a detection of the rejected list was modified")
    s, after = memo(reference, conf, prefix, f, kind, cont, tuple(d1), tuple(d2))
    what = {0: "the update had not been called", 1: "no detections had been given", 2: "only the detections %s had been given" % (d1,), 3: "only the detections %s had been given and nothing re-identified" % (d2,)}[kind]
    got = observe(tr, None)
    require(got == s, lambda: "after the failure the tracker is %s, but as if %s it is %s" % (got, what, s))
    rest = go_on(conf, tr, w, cont, t + 1)
    for i, (a, b) in enumerate(zip(rest, after)):
        require(a == b, lambda: "frame %d after the failure gives %s, as if %s gives %s" % (i + 1, a, what, b))
    rec.step(len(prefix) + 1 + len(cont))
    rec.state((conf, kind, repr(got)))
    rec.outcome((conf, kind, repr(got), repr(rest[-1])))


def shards(tier):
    n = 4 if tier == "thorough" else 3
    return [(c, f, n, 9 if tier == "thorough" else 5) for c in CONFS for f in FRAMES if f] + [(c, str(k), 0, 0) for c in CONFS for k in (5, 8, 10, 16, 17, 32, 33, 50, 64, 65, 100, 129)]


def run_shard(shard, rec):
    conf, first, n, m = shard
    if not n:
        k = int(first)
        for prefix, f in (((first, "-" + first, first), "-" + first), (("-" + first, first, "-" + first, "-" + first), first)):
            rounds, d1, d2 = memo(rounds_of, conf, prefix, f)
            ends = {i for i in range(len(rounds)) if i in (0, len(rounds) - 1) or rounds[i] != rounds[i - 1] or rounds[i] != rounds[i + 1]}
            for at in sorted(ends | {len(rounds) // 2, len(rounds) // 3}):
                for how in ("nan", "raise"):
                    rec.case((conf, prefix, f, how, at + 1, (first, "-" + first)))
            size = len(places(f))
            for at in sorted({0, size // 2, size - 1, size}):
                rec.case((conf, prefix, f, ("None", "array", "class", "obj")[(at + k) % 4], at, (first, "-" + first)))
        return
    for rest in itertools.product(FRAMES, repeat=n - 1):
        prefix = (first,) + rest
        for f in FRAMES:
            if not f:
                continue
            rounds, d1, d2 = memo(rounds_of, conf, prefix, f)
            for at in range(1, len(rounds) + 1):
                if at > 1 and at < len(rounds) and rounds[at] == rounds[at - 1] == rounds[at - 2]:
                    continue  # first and last call of every round (the middle ones are no different) and those next to them
                for how in ("nan", "raise"):
                    for cont in NEXT[:m] if how == "raise" else NEXT[:2]:
                        rec.case((conf, prefix, f, how, at, cont))
            if sum(map(len, prefix)) % 2 == 0:
                for at in range(len(FRAMES[f]) + 1):
                    for how in ("None", "array", "class", "obj"):
                        rec.case((conf, prefix, f, how, at, NEXT[(at + len(f)) % m]))
