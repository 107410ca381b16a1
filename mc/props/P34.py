"""P34: copies and pickles of trackers, detections, transformations, estimators and drawers are equivalent and independent."""
import copy
import itertools
import pickle

import numpy as np

from ..common import *
from norfair import AbsolutePaths, FixedCamera, Paths
from norfair.camera_motion import HomographyTransformation, HomographyTransformationGetter, MotionEstimator, TranslationTransformationGetter
from .P18 import POS, view

LEVEL = "model_checking"
TECH = "exhaustive exploration of (history, point of copying, continuations) on the real code, differential against the run without a copy"
RULE = "one execution = one history copied (or saved and restored) after every frame, original and copies continued; states = snapshots at which a copy was taken; distinct outcomes = distinct (configuration, history) results"
BOUNDS = {
    "quick": "trackers: all histories of 4 frames over 5 contents x 11 configurations (filters, kinds of distances, ReID, camera motion, scores), copied and pickled after every frame, the copy continued with the same and with 3 other"
    " continuations of up to 3 frames; saved objects compared after the tracker went on; detections and transformations pickled on the way, histories of 4 frames; motion estimators and drawers copied at every frame of all paths of 4 frames over 3 positions; trackers of 5 to 129 objects (12 sizes, 4 configurations)",
    "thorough": "histories of 5 frames",
}
ASSUMPTIONS = ["functions given to a pickled tracker can be pickled themselves"]


def far_apart(new, old):
    """ReID distance, at module level so that it can be pickled"""
    return float(np.abs(new.estimate - old.estimate).max())


CONFS = {
    "def": lambda: Tracker("euclidean", 30, hit_counter_max=3, initialization_delay=1),
    "fpy": lambda: Tracker("mean_euclidean", 30, hit_counter_max=3, initialization_delay=1, filter_factory=FilterPyKalmanFilterFactory()),
    "iou": lambda: Tracker("iou", 0.95, hit_counter_max=3, initialization_delay=0),
    "no": lambda: Tracker(static_distance, 30, hit_counter_max=3, initialization_delay=1, filter_factory=NoFilterFactory()),
    "scipy": lambda: Tracker("cityblock", 60, hit_counter_max=3, initialization_delay=1, past_detections_length=1),
    "reid": lambda: Tracker("euclidean", 30, hit_counter_max=2, initialization_delay=1, reid_distance_function=far_apart, reid_distance_threshold=150.0, reid_hit_counter_max=2),
    "reid0": lambda: Tracker("euclidean", 30, hit_counter_max=1, initialization_delay=0, reid_distance_function=far_apart, reid_distance_threshold=150.0, reid_hit_counter_max=3),
    "past": lambda: Tracker("euclidean", 30, hit_counter_max=5, initialization_delay=0, past_detections_length=2),
    "score": lambda: Tracker("mean_euclidean", 60, hit_counter_max=3, initialization_delay=1, detection_threshold=0.5, pointwise_hit_counter_max=2),
    "cam": lambda: Tracker("euclidean", 30, hit_counter_max=3, initialization_delay=1),
    "hcam": lambda: Tracker("euclidean", 30, hit_counter_max=3, initialization_delay=1, filter_factory=FilterPyKalmanFilterFactory()),
}
FRAMES = [(), (0,), (0, 1), (1,), (1, 1)]
HOM = [np.array([[1.0, 0.02, 3.0], [-0.01, 1.02, 1.0], [1e-5, 0.0, 1.0]]), np.array([[0.98, 0.0, -2.0], [0.01, 1.0, 4.0], [0.0, -1e-5, 1.0]])]
COPIES = {"deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)), "pickle2": lambda x: pickle.loads(pickle.dumps(x, protocol=2))}


def dets(conf, frame, t):
    out = []
    for n, k in enumerate(FRAMES[frame] if frame < 100 else [k for k in range(frame // 100) if frame % 2 or k % 3]):
        x = 90.0 * k + 3.0 * t + t * t + 14.0 * n
        s = np.array([0.9, 0.9 if (t + k) % 2 else 0.3]) if conf in ("score", "reid") else None
        out.append(Detection(np.array([[x, 5.0], [x + 20.0, 30.0 + t]]), scores=s, data={"at": (k, t)}, label="b" if k and conf == "past" else None, embedding=np.array([k, t])))
    return out


def kwargs(conf, t):
    if conf == "cam":
        return dict(coord_transformations=TranslationTransformation(np.array([2.0 * t, -t])))
    if conf == "hcam":
        return dict(coord_transformations=HomographyTransformation(HOM[t % 2]))
    return {} if t % 3 else dict(period=2)


def key(d):
    return (repr(d.data), d.age, tuple(np.asarray(d.points).ravel().tolist()), tuple(np.asarray(d.absolute_points).ravel().tolist()))


def look(tr):
    extra = tuple(sorted((o.initializing_id, repr(o.reid_hit_counter), np.round(np.asarray(o.estimate_velocity), 9).tolist()) for o in tr.tracked_objects))
    return snapshot(tr, det_key=key), extra, tuple(sorted(o.id for o in tr.get_active_objects())), tr.total_object_count, tr.current_object_count


def run(tr, conf, hist, t0):
    out = []
    for i, f in enumerate(hist):
        ret = tr.update(dets(conf, f, t0 + i), **kwargs(conf, t0 + i))
        out.append((look(tr), tuple(sorted(o.id for o in ret))))
    return out


def globals_of(tr):
    return {o.global_id for o in tr.tracked_objects if o.global_id is not None}


def run_tracker(case, rec):
    _, conf, hist = case
    whole = run(CONFS[conf](), conf, hist, 0)
    n = len(hist)
    for name, dup in COPIES.items():
        tr = CONFS[conf]()
        kept = []
        for t in range(n):
            # copy before every frame
            before = look(tr)
            c = dup(tr)
            require(look(c) == before, lambda: "%s before frame %d differs from the original: %s / %s" % (name, t, look(c), before))
            saved = [dup(o) for o in tr.tracked_objects]
            kept.append((t, saved, [object_key(o) for o in saved]))
            require([object_key(o) for o in saved] == [object_key(o) for o in tr.tracked_objects], lambda: "%s of the objects before frame %d differ" % (name, t))
            # another continuation of a copy does not change the original
            old = globals_of(tr)
            other = dup(tr)
            for alt in ((2, 2, 2), (0, 0, 0), tuple(reversed(hist))):
                run(other, conf, alt[: n - t], t)
                require(look(tr) == before, lambda: "continuing a %s taken before frame %d changed the original" % (name, t))
            mine = globals_of(other) - old
            # the copy continues like the original would have
            got = run(c, conf, hist[t:], t)
            require(got == whole[t:], lambda: "%s taken before frame %d continues differently: %s" % (name, t, diff(got, whole[t:])))
            require(look(tr) == before, lambda: "continuing a %s taken before frame %d changed the original" % (name, t))
            theirs = globals_of(c) - old
            tr.update(dets(conf, hist[t], t), **kwargs(conf, t))
            require(look(tr) == whole[t][0], lambda: "the original is changed by a %s being taken and used before frame %d" % (name, t))
            require(not mine & theirs and not (globals_of(tr) - old) & (mine | theirs), lambda: "the same global id is given in a %s and elsewhere (frame %d)" % (name, t))
            rec.state((conf, repr(before)))
            rec.step()
        for t, saved, keys in kept:
            require([object_key(o) for o in saved] == keys, lambda: "%s of objects made before frame %d changed as the tracker went on" % (name, t))
    rec.outcome((conf, repr(whole)))


def object_key(o):
    return (o.id, o.global_id, o.initializing_id, o.age, o.hit_counter, o.reid_hit_counter, o.is_initializing, np.asarray(o.estimate).tolist(), np.asarray(o.estimate_velocity).tolist(),
            np.asarray(o.live_points).tolist(), o.label, repr(o.last_distance), key(o.last_detection), tuple(key(d) for d in o.past_detections), str(o))


def diff(a, b):
    for t, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "step %d: %s / %s" % (t, x, y)


def run_sent(case, rec):
    """detections and transformations arrive from another process"""
    _, conf, hist, name = case
    dup = COPIES[name]
    a, b = CONFS[conf](), CONFS[conf]()
    for t, f in enumerate(hist):
        ds = dets(conf, f, t)
        sent = dup(ds)
        require([key(d) + (repr(d.scores), d.label, repr(d.embedding)) for d in sent] == [key(d) + (repr(d.scores), d.label, repr(d.embedding)) for d in ds], "a copied detection differs")
        kw = kwargs(conf, t)
        kw2 = {k: dup(v) for k, v in kw.items()}
        a.update(ds, **kw)
        b.update(sent, **kw2)
        require(look(a) == look(b), lambda: "frame %d: copied detections are tracked differently: %s" % (t, diff(look(a), look(b))))
        if "coord_transformations" in kw:
            p = np.array([[1.0, 2.0], [300.0, 50.0]])
            for m in ("abs_to_rel", "rel_to_abs"):
                require(np.array_equal(getattr(kw["coord_transformations"], m)(p), getattr(kw2["coord_transformations"], m)(p)), "a copied transformation maps points differently")
        rec.step()
    rec.outcome((conf, "sent", repr(look(a))))


GETTERS = {"t": TranslationTransformationGetter, "h": HomographyTransformationGetter}
PROBE = np.array([[10.0, 20.0], [150.0, 100.0], [60.0, 130.0]])


def run_estimator(case, rec):
    _, g, thr, path, name = case
    dup = COPIES[name]

    def est():
        return MotionEstimator(max_points=40, min_distance=10, transformations_getter=GETTERS[g](proportion_points_used_threshold=thr))

    def maps(me, ps):
        return [me.update(view(POS[p])).abs_to_rel(PROBE) for p in ps]

    whole = maps(est(), path)
    me = est()
    kept = []
    for t in range(len(path)):
        c, other = dup(me), dup(me)
        maps(other, tuple(reversed(path))[: len(path) - t])
        got = maps(c, path[t:])
        require(all(np.abs(x - y).max() < 1e-6 for x, y in zip(got, whole[t:])), lambda: "%s of the estimator before frame %d continues differently" % (name, t))
        T = me.update(view(POS[path[t]]))
        require(np.abs(T.abs_to_rel(PROBE) - whole[t]).max() < 1e-6, lambda: "the estimator is changed by a %s being used before frame %d" % (name, t))
        kept.append((dup(T), whole[t]))
        rec.step()
    for T, w in kept:
        require(np.abs(T.abs_to_rel(PROBE) - w).max() < 1e-6, "a copied transformation changed")
    rec.state((g, thr, path))
    rec.outcome((g, thr, path))


DRAWERS = {
    "paths": lambda: Paths(attenuation=0.2),
    "abs": lambda: AbsolutePaths(max_history=3),
    "fixed": lambda: FixedCamera(scale=2, attenuation=0.2),
}


def run_drawer(case, rec):
    _, kind, path = case

    def frames(drawer, tr, ps, t0):
        out = []
        for i, p in enumerate(ps):
            t = t0 + i
            T = TranslationTransformation(np.array(POS[p], dtype=float))
            objs = tr.update([Detection(np.array([[40.0 + 9 * p, 30.0 + 7 * t], [60.0 + 9 * p, 60.0 + 7 * t]]))], coord_transformations=T)
            img = np.full((100, 120, 3), 60 + 30 * p, "uint8")
            if kind == "fixed":
                out.append(np.array(drawer.adjust_frame(img, T)))
            elif kind == "abs":
                out.append(np.array(drawer.draw(img, objs, coord_transform=T)))
            else:
                out.append(np.array(drawer.draw(img, objs)))
        return out

    def fresh():
        return DRAWERS[kind](), Tracker("euclidean", 200, hit_counter_max=5, initialization_delay=0)

    d, tr = fresh()
    whole = frames(d, tr, path, 0)
    d, tr = fresh()
    for t in range(len(path)):
        # drawer and tracker are copied together, the objects drawn are those of the copy
        c, ctr = copy.deepcopy((d, tr))
        o, otr = copy.deepcopy((d, tr))
        frames(o, otr, tuple(reversed(path))[: len(path) - t], t)
        got = frames(c, ctr, path[t:], t)
        require(all(np.array_equal(x, y) for x, y in zip(got, whole[t:])), lambda: "a copy of the drawer made before frame %d draws differently" % t)
        (img,) = frames(d, tr, path[t : t + 1], t)
        require(np.array_equal(img, whole[t]), lambda: "the drawer is changed by a copy being used before frame %d" % t)
        rec.step()
    rec.outcome((kind, path))


def run_case(case, rec):
    return {"tracker": run_tracker, "sent": run_sent, "estimator": run_estimator, "drawer": run_drawer}[case[0]](case, rec)


def shards(tier):
    n = 5 if tier == "thorough" else 4
    out = [("tracker", c, f, n) for c in CONFS for f in range(len(FRAMES))]
    out += [("crowd", k) for k in (5, 8, 10, 16, 17, 32, 33, 50, 64, 65, 100, 129)]
    out += [("sent", c, n) for c in CONFS]
    out += [("estimator", g, p, n) for g in GETTERS for p in range(3)]
    out += [("drawer", k, n + 1) for k in DRAWERS]
    return out


def run_shard(shard, rec):
    kind = shard[0]
    if kind == "crowd":
        # 100 times the number of things, plus one if all of them are seen
        f = 100 * shard[1]
        for conf in ("def", "reid", "past", "hcam"):
            rec.case(("tracker", conf, (f + 1, f, f + 1)))
    elif kind == "tracker":
        for rest in itertools.product(range(len(FRAMES)), repeat=shard[3] - 1):
            rec.case((kind, shard[1], (shard[2],) + rest))
    elif kind == "sent":
        for h in itertools.product(range(len(FRAMES)), repeat=shard[2]):
            rec.case((kind, shard[1], h, ("deepcopy", "pickle", "pickle2")[sum(h) % 3]))
    elif kind == "estimator":
        for rest in itertools.product(range(3), repeat=shard[3] - 1):
            for thr in (0.9, 1.5):
                rec.case((kind, shard[1], thr, (shard[2],) + rest, "deepcopy" if sum(rest) % 2 else "pickle"))
    else:
        for path in itertools.product(range(3), repeat=shard[2]):
            rec.case((kind, shard[1], path))
