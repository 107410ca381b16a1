"""P32: a tracker keeps exactly the objects and detections it still needs."""
import collections
import gc
import itertools
import types
import weakref

import numpy as np

from ..common import *

LEVEL = "model_checking"
TECH = "exhaustive exploration of detection histories on the real tracker; after every update the instances that are still alive in memory are compared with those reachable through the documented attributes of the objects still tracked"
RULE = "one execution = one history, checked after every update; states = distinct (configuration, number of objects, of detections, tracker state); distinct outcomes = distinct final states"
BOUNDS = {
    "quick": "10 configurations (filters, distances, ReID, camera, lengths of past detections); all histories of 5 frames over 6 frames; words of up to 3 frames repeated to 60 frames, when what is kept must not grow",
    "thorough": "histories of 6 frames; words of 4 frames repeated to 300 frames",
}
ASSUMPTIONS = ["the user keeps no references; CPython frees what is not referenced (after gc.collect())"]

FRAMES = {"": (), "a": (0,), "b": (100,), "ab": (0, 100), "c": (0, 4, 100), "n": (50,)}


def reid(new, old):
    return float(np.abs(new.estimate - old.estimate).max())


CONFS = {
    "euc": lambda: Tracker("euclidean", 14, hit_counter_max=3, initialization_delay=1),
    "init0": lambda: Tracker("mean_euclidean", 10, hit_counter_max=2, initialization_delay=0, past_detections_length=2),
    "iou": lambda: Tracker("iou", 0.9, hit_counter_max=3, initialization_delay=1, past_detections_length=1),
    "scal": lambda: Tracker(center_distance, 10, hit_counter_max=4, initialization_delay=2, past_detections_length=0),
    "fpy": lambda: Tracker("frobenius", 14, hit_counter_max=3, initialization_delay=1, filter_factory=FilterPyKalmanFilterFactory()),
    "no": lambda: Tracker("cityblock", 30, hit_counter_max=3, initialization_delay=1, filter_factory=NoFilterFactory(), past_detections_length=3),
    "cam": lambda: Tracker("euclidean", 14, hit_counter_max=3, initialization_delay=1),
    "label": lambda: Tracker("euclidean", 14, hit_counter_max=3, initialization_delay=1),
    "fresh": lambda: Tracker("euclidean", 14, hit_counter_max=3, initialization_delay=1),
    "reid": lambda: Tracker("euclidean", 14, hit_counter_max=2, initialization_delay=1, reid_distance_function=reid, reid_distance_threshold=80, reid_hit_counter_max=3),
    "reid2": lambda: Tracker(center_distance, 10, hit_counter_max=3, initialization_delay=1, reid_distance_function=reid, reid_distance_threshold=200, reid_hit_counter_max=2, past_detections_length=2),
}
SLOW = {"fpy", "scal", "reid2", "init0"}


class Embedding:
    """what users attach to detections (an image cut-out, for instance)"""


class Label:
    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Label) and other.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name


def detections(conf, f, t, born, labels):
    out = []
    for x in FRAMES[f]:
        shift = 7.0 * t if conf == "cam" else 0.0
        e = Embedding()
        # labels: the same few for ever, or in "fresh" one for the detections of a place in two frames
        label = None
        if conf == "label":
            label = Label("L%d" % (x > 60))
        elif conf == "fresh":
            key = "L%d" % (x > 60)
            label = labels["now"].get(key)
            if label is None:
                label = labels["now"][key] = Label("%s of frame %d" % (key, t))
                labels["refs"].append(weakref.ref(label))
        d = Detection(np.array([[x + shift + 0.3 * t % 3, 1.0], [x + shift + 9, 12.0]]), data=e, embedding=e, label=label)
        born.append((weakref.ref(d), weakref.ref(e)))
        out.append(d)
    return out


def excess(tr, dets, objs):
    """(what is kept without need or None, objects alive, detections needed)"""
    seen = {id(o) for o in tr.tracked_objects}
    needed = set()
    for o in tr.tracked_objects:
        needed.add(id(o.last_detection))
        needed.update(id(d) for d in o.past_detections)
    n = sum(1 for r in objs if r() is not None and id(r()) not in seen)
    if n:
        return "%d destroyed or merged objects" % n, 0, 0
    n = sum(1 for d, e in dets if d() is not None and id(d()) not in needed)
    if n:
        return "%d detections that are neither last nor past detection of a tracked object" % n, 0, 0
    n = sum(1 for d, e in dets if d() is None and e() is not None)
    if n:
        return "the data of %d forgotten detections" % n, 0, 0
    return None, len(seen), len(needed)


def reachable(tr):
    """number of instances and of items of containers the tracker holds (classes, what is global for functions, and scalars excepted)"""
    todo, seen, n = [tr], {id(tr): tr}, 0
    while todo:
        x = todo.pop()
        n += 1 + (len(x) if isinstance(x, (list, tuple, dict, set, frozenset, collections.deque)) else x.size // 8 if isinstance(x, np.ndarray) else 0)
        parts = (x.__closure__, x.__defaults__, x.__kwdefaults__, x.__dict__) if isinstance(x, types.FunctionType) else gc.get_referents(x)
        for y in parts:
            if id(y) not in seen and not isinstance(y, (type, types.ModuleType, types.BuiltinFunctionType, int, float, str, type(None), np.generic)):
                seen[id(y)] = y
                todo.append(y)
    return n


def run_case(case, rec):
    conf, hist = case
    long = len(hist) > 10
    tr = CONFS[conf]()
    dets, objs, known, sizes = [], [], set(), []
    labels = {"now": {}, "refs": []}
    for t, f in enumerate(hist):
        kw = dict(coord_transformations=TranslationTransformation(np.array([7.0 * t, 0.0]))) if conf == "cam" else {}
        tr.update(detections(conf, f, t, dets, labels), **kw)
        if conf == "fresh":
            if t % 2:
                labels["now"].clear()
            d = None
            used = {id(o.label) for o in tr.tracked_objects} | {id(d.label) for o in tr.tracked_objects for d in [o.last_detection] + o.past_detections} | set(map(id, labels["now"].values()))
            d = o = None
            labels["refs"] = [r for r in labels["refs"] if r() is not None]
            if any(id(r()) not in used for r in labels["refs"]):
                gc.collect()
            require(all(r() is None or id(r()) in used for r in labels["refs"]), lambda: "frame %d of %s: the label of an object that is gone is kept" % (t, hist))
        for o in tr.tracked_objects:
            if o.initializing_id not in known:
                known.add(o.initializing_id)
                objs.append(weakref.ref(o))
        o = None
        if long:
            sizes.append(reachable(tr))
        if long and t % 20 != 19:
            continue
        n = excess(tr, dets, objs)
        if n[0]:
            gc.collect()  # reference cycles are collected later
            n = excess(tr, dets, objs)
        require(n[0] is None, lambda: "frame %d of %s: %s are kept" % (t, hist, n[0]))
        n = n[1:]
        require(n[0] <= 30 and n[1] <= n[0] * 5, lambda: "frame %d: %d objects and %d detections are kept" % (t, n[0], n[1]))
        dets = [x for x in dets if x[0]() is not None or x[1]() is not None]
        objs = [r for r in objs if r() is not None]
        rec.state((conf, n, repr(snapshot(tr, ids=False))))
    rec.step(len(hist))
    rec.outcome((conf, repr(snapshot(tr))))
    if long:
        # what is held does not grow: the last third of the history does not hold more than the second one
        k = len(hist) // 3
        require(max(sizes[2 * k:]) <= max(sizes[k:2 * k]) + k // 3, lambda: "the tracker holds more and more: %s" % sizes)
    # when the tracker goes, everything goes
    tr = None
    if any(r() is not None for r in objs) or any(r() is not None or e() is not None for r, e in dets):
        gc.collect()
    require(not any(r() is not None for r in objs) and not any(r() is not None or e() is not None for r, e in dets), lambda: "after %s objects or detections outlive their tracker" % (hist,))


def shards(tier):
    th = tier == "thorough"
    out = [("all", c, f, 6 if th else 4 if c in SLOW else 5) for c in CONFS for f in FRAMES]
    return out + [("lasso", c, 4 if th else 2 if c in SLOW else 3, 300 if th else 60) for c in CONFS]


def run_shard(shard, rec):
    if shard[0] == "all":
        _, conf, first, n = shard
        for rest in itertools.product(FRAMES, repeat=n - 1):
            rec.case((conf, (first,) + rest))
    else:
        _, conf, k, n = shard
        for h in lassos(tuple(FRAMES), k, n, ((), ("ab",))):
            rec.case((conf, h))
