"""P33: distances, filters and transformations supplied by the user are called as documented."""
import itertools

import numpy as np

from ..common import *
from norfair.camera_motion import CoordinatesTransformation
from norfair.filter import FilterFactory

LEVEL = "model_checking"
TECH = "exhaustive exploration of detection histories on the real tracker with instrumented user-supplied functions; every call is judged by a protocol monitor"
RULE = "one execution = one history; every call made to the user's functions is checked when it is made, the calls made to every filter after every update; states = distinct (configuration, tracker state, calls of the frame); distinct outcomes = distinct (configuration, calls of the history)"
BOUNDS = {
    "quick": "10 configurations (1-3 points, scores, labels, ReID, custom non-linear transformations, changing periods, initialization delays) x all histories of 5 frames (4 with ReID and labels: 5) over 6 frames, words of up to 2 frames repeated to 30; 4 histories with 5 to 41 things in a frame (27 sizes)",
    "thorough": "histories of 6 frames; words of 3 frames repeated",
}
ASSUMPTIONS = ["detections of a history have distinct points, so that a correction tells which detection it is made with"]

FRAMES = {"": (), "a": (0,), "b": (200,), "ab": (0, 200), "c": (0, 6, 200), "n": (100,)}


def places(f):
    """a frame by name, or as many places as the number says (shifted if negative)"""
    if isinstance(f, int):
        return [70.0 * k + (31 if f < 0 else 0) for k in range(abs(f))]
    return FRAMES[f]


class Monitor:
    def __init__(self, conf):
        self.conf = conf
        self.frame = -1
        self.filters = []  # Own instances, in order of creation
        self.dets = []
        self.before = {}
        self.calls = []
        self.tracker = None
        self.transform = None

    def owner_filter(self, o):
        """the filter created or last corrected with the last detection of an object"""
        key = o.last_detection.data
        fs = [f for f in self.filters if f.source == key]
        require(len(fs) == 1, lambda: "frame %d: %d filters were created or last corrected with the last detection of object %s" % (self.frame, len(fs), o.initializing_id))
        return fs[0]

    def data_of(self, absolute):
        """which detection of the frame has these absolute points"""
        for d in self.dets:
            if d.absolute_points.shape == absolute.shape and np.array_equal(d.absolute_points, absolute):
                return d
        require(False, lambda: "frame %d: %s are not the absolute points of a detection of the frame" % (self.frame, absolute.tolist()))

    # -- the user's functions
    def distance(self, det, obj):
        t = self.frame
        require(any(det is d for d in self.dets), lambda: "frame %d: the distance function is given %r, not a detection of the frame" % (t, det))
        require(any(obj is o for o in self.tracker.tracked_objects), lambda: "frame %d: the distance function is given %r, not a tracked object" % (t, obj))
        require(det.label == obj.label, lambda: "frame %d: the distance of label %r and %r is asked for" % (t, det.label, obj.label))
        b = self.before.get(id(obj))
        require(b is not None, lambda: "frame %d: the distance to an object created in this frame is asked for" % t)
        require(obj.last_detection is b["last"] and list(map(id, obj.past_detections)) == b["past"], lambda: "frame %d: object %s was matched before the distance to it is asked for" % (t, obj.initializing_id))
        require(obj.age == b["age"] + 1, lambda: "frame %d: age %d of object %s when distances are asked for, was %d" % (t, obj.age, obj.initializing_id, b["age"]))
        f = b["filter"]
        require(f.log == ["predict"], lambda: "frame %d: the filter of object %s got %s before distances are asked for" % (t, obj.initializing_id, f.log))
        want = f.x[: f.dim_z].reshape(f.shape)
        if self.transform is not None:
            want = self.transform.abs_to_rel(want.copy())
            require(np.array_equal(det.absolute_points, self.transform.rel_to_abs(det.points.copy())), lambda: "frame %d: absolute points of a detection when distances are asked for" % t)
        require(close(obj.estimate, want), lambda: "frame %d: estimate %s when distances are asked for, predicted %s" % (t, obj.estimate.tolist(), want.tolist()))
        self.calls.append((1 if obj.id is not None else 2, det.data, obj.initializing_id))
        return float(np.abs(det.points - obj.estimate).max())

    def reid(self, new, old):
        t = self.frame
        for o in (new, old):
            require(any(o is x for x in self.tracker.tracked_objects), lambda: "frame %d: the ReID function is given %r, not a tracked object" % (t, o))
        b, c = self.before.get(id(new)), self.before.get(id(old))
        require(b is not None and c is not None, lambda: "frame %d: the ReID function is given an object created in this frame" % t)
        require(b["init"] and any(new.last_detection is d for d in self.dets), lambda: "frame %d: the first object of the ReID function was not initializing or not matched" % t)
        require(not c["init"] and old.last_detection is c["last"] and old.id is not None, lambda: "frame %d: the second object of the ReID function was initializing, or is matched" % t)
        require(new.label == old.label, lambda: "frame %d: the ReID distance of labels %r and %r is asked for" % (t, new.label, old.label))
        f = b["filter"]
        require(f.log == ["predict", "update"], lambda: "frame %d: the new object's filter got %s before ReID" % (t, f.log))
        require(c["filter"].log == ["predict"], lambda: "frame %d: the lost object's filter got %s before ReID" % (t, c["filter"].log))
        self.calls.append((3, new.initializing_id, old.initializing_id))
        return float(np.abs(new.estimate - old.estimate).max())


class Own:
    """a filter of the user's: neither Kalman nor constant"""

    def __init__(self, mon, points):
        self.mon, self.shape = mon, points.shape
        self.dim_z = points.size
        self.x = np.zeros((2 * self.dim_z, 1))
        self.x[: self.dim_z, 0] = points.flatten()
        self.log = ["create"]
        self.source = mon.data_of(points).data

    def predict(self):
        self.log.append("predict")
        self.x[: self.dim_z] += self.x[self.dim_z:]
        self.x[self.dim_z:] *= 0.5

    def update(self, detection_points_flatten, R=None, H=None):
        self.log.append("update")
        z = detection_points_flatten
        t = self.mon.frame
        require(isinstance(z, np.ndarray) and z.shape == (self.dim_z, 1), lambda: "frame %d: the filter is corrected with an array of shape %s" % (t, np.shape(z)))
        require(R is None, "a measurement noise is given")
        det = self.mon.data_of(z.reshape(self.shape))
        mask = np.ones(self.shape[0], dtype=bool) if det.scores is None else det.scores > 0.5
        want = np.hstack([np.diag(np.repeat(mask, self.shape[1]).astype(float)), np.zeros((self.dim_z, self.dim_z))])
        require(np.array_equal(H, want), lambda: "frame %d: observation matrix %s, expected %s" % (t, np.asarray(H).tolist(), want.tolist()))
        self.source = det.data
        e = np.diagonal(H).reshape(-1, 1) * (z - self.x[: self.dim_z])
        self.x[: self.dim_z] += 0.75 * e
        self.x[self.dim_z:] += 0.25 * e


class OwnFactory(FilterFactory):
    def __init__(self, mon):
        self.mon = mon

    def create_filter(self, initial_detection):
        require(isinstance(initial_detection, np.ndarray) and initial_detection.ndim == 2, "a filter is created for %r" % (initial_detection,))
        f = Own(self.mon, initial_detection)
        self.mon.filters.append(f)
        return f


class Cubic(CoordinatesTransformation):
    """a transformation of the user's: not linear"""

    def __init__(self, shift, mon):
        self.shift, self.mon = shift, mon

    def rel_to_abs(self, points):
        require(isinstance(points, np.ndarray) and points.ndim == 2 and points.shape[1] == 2, "points of shape %s are transformed" % (np.shape(points),))
        return ((points + self.shift) / 100.0) ** 3

    def abs_to_rel(self, points):
        require(isinstance(points, np.ndarray) and points.ndim == 2 and points.shape[1] == 2, "points of shape %s are transformed" % (np.shape(points),))
        return np.cbrt(points) * 100.0 - self.shift


# points, dims, scored, labels, camera, reid, periods, (H, delay, past)
CONFS = {
    "plain": (2, 2, 0, 0, 0, 0, 0, (3, 1, 4)),
    "one": (1, 2, 0, 0, 0, 0, 0, (2, 0, 1)),
    "scored": (3, 2, 1, 0, 0, 0, 0, (3, 1, 2)),
    "blind": (2, 2, 2, 0, 0, 0, 0, (3, 1, 2)),
    "3d": (2, 3, 1, 0, 0, 0, 0, (4, 2, 0)),
    "labels": (2, 2, 0, 1, 0, 0, 0, (3, 1, 4)),
    "camera": (2, 2, 0, 0, 1, 0, 0, (3, 1, 4)),
    "periods": (2, 2, 1, 0, 0, 0, 1, (5, 2, 2)),
    "reid": (2, 2, 0, 0, 0, 1, 0, (2, 1, 2)),
    "reidall": (2, 2, 1, 1, 1, 1, 0, (3, 1, 2)),
}


def detections(conf, f, t):
    n, dims, scored, labels = CONFS[conf][:4]
    out = []
    for i, x in enumerate(places(f)):
        pts = np.array([[x + 1.7 * (t % 4) + 9.0 * k + 0.01 * t, 5.0 + 3 * k - 0.5 * (t % 3), 2.0 * k + t % 2][:dims] for k in range(n)])
        if (t + i) % 2:
            pts = np.asfortranarray(pts)
        if scored == 2:  # frames in which no point, or no thing, is detected
            scores = np.array([0.9 if (t + 2 * i + k) % 4 == 1 else 0.5 for k in range(n)])
        else:
            scores = np.array([0.9 if (t + i + k) % 3 or k == 0 and i else 0.5 for k in range(n)]) if scored and (t + i) % 4 != 3 else None
        out.append(Detection(pts, scores=scores, data=(t, i), label=("x" if (x + t) % 5 else "y") if labels else None))
    return out


def run_case(case, rec):
    conf, hist = case
    n, dims, scored, labels, cam, reid, periods, (H, delay, past) = CONFS[conf]
    mon = Monitor(conf)
    kw = dict(reid_distance_function=mon.reid, reid_distance_threshold=160, reid_hit_counter_max=3) if reid else {}
    tr = Tracker(mon.distance, 30, hit_counter_max=H, initialization_delay=delay, detection_threshold=0.5, past_detections_length=past, filter_factory=OwnFactory(mon), **kw)
    mon.tracker = tr
    trail = []
    for t, f in enumerate(hist):
        mon.frame = t
        mon.before = {id(o): dict(last=o.last_detection, past=list(map(id, o.past_detections)), age=o.age, init=bool(o.is_initializing), alive=o.hit_counter >= 0, lost=reid and (o.reid_hit_counter is None or o.reid_hit_counter >= 0), filter=mon.owner_filter(o), obj=o) for o in tr.tracked_objects}
        for fl in mon.filters:
            fl.log = []
        created = len(mon.filters)
        mon.dets = detections(conf, f, t)
        mon.calls = []
        mon.transform = Cubic(np.array([150.0 + 11.0 * t, 90.0]), mon) if cam else None
        kwu = dict(coord_transformations=mon.transform) if cam else {}
        if periods:
            kwu["period"] = 1 + t % 3
        tr.update(mon.dets, **kwu)
        # every pair that could match was considered
        def pairs(kind, news, olds):
            return {(kind, a, o.initializing_id) for a, label in news for o in olds if label == o.label}

        B = list(mon.before.values())
        hit = {b["filter"].source for b in B if "update" in b["filter"].log and not b["init"]}
        want = pairs(1, [(d.data, d.label) for d in mon.dets], [b["obj"] for b in B if b["alive"] and not b["init"]])
        want |= pairs(2, [(d.data, d.label) for d in mon.dets if d.data not in hit], [b["obj"] for b in B if b["alive"] and b["init"]])
        if reid:
            news = [(b["obj"].initializing_id, b["obj"].label) for b in B if b["init"] and "update" in b["filter"].log]
            want |= pairs(3, news, [b["obj"] for b in B if not b["init"] and b["lost"] and "update" not in b["filter"].log])
        require(set(mon.calls) >= want, lambda: "frame %d: never asked for the distances (round, new, object) %s" % (t, sorted(want - set(mon.calls))[:9]))
        # what every filter went through in this frame
        known = {id(b["obj"]) for b in mon.before.values()}
        new = [o for o in tr.tracked_objects if id(o) not in known]
        require(len(mon.filters) - created == len(new), lambda: "frame %d: %d filters created for %d new objects" % (t, len(mon.filters) - created, len(new)))
        owners = {}
        for o in tr.tracked_objects:
            fl = mon.owner_filter(o)
            require(id(fl) not in owners, lambda: "frame %d: two objects share a filter" % t)
            owners[id(fl)] = o
            fresh = any(o.last_detection is d for d in mon.dets)
            want = ["create"] if id(o) not in known else ["predict", "update"] if fresh else ["predict"]
            require(fl.log == want, lambda: "frame %d: the filter of object %s got %s, expected %s" % (t, o.initializing_id, fl.log, want))
            est = fl.x[: fl.dim_z].reshape(fl.shape)
            require(close(o.estimate_velocity, fl.x[fl.dim_z:].reshape(fl.shape)), lambda: "frame %d: velocity %s is not that of the filter" % (t, o.estimate_velocity.tolist()))
            if cam:
                require(close(o.get_estimate(absolute=True), est), lambda: "frame %d: absolute estimate is not that of the filter" % t)
                est = mon.transform.abs_to_rel(est.copy())
            require(close(o.estimate, est), lambda: "frame %d: estimate %s, the filter has %s" % (t, o.estimate.tolist(), est.tolist()))
        for fl in mon.filters:
            if id(fl) not in owners:
                # its object was destroyed earlier, in this update, or lost its filter by a merge in it
                merged = any(b["filter"] is fl and any(b["obj"] is o for o in tr.tracked_objects) for b in mon.before.values())
                require(fl.log == ["predict"] or not merged and fl.log == [], lambda: "frame %d: the filter of a destroyed object got %s" % (t, fl.log))
        trail.append(tuple(mon.calls))
        rec.state((conf, repr(snapshot(tr)), tuple(mon.calls)))
    rec.step(len(hist))
    rec.outcome((conf, tuple(trail)))


def shards(tier):
    th = tier == "thorough"
    return [("all", c, f, 6 if th else 5) for c in CONFS for f in FRAMES] + [("lasso", c, 3 if th else 2, 30) for c in CONFS] + [("crowd", n) for n in SIZES if n <= (101 if th else 41)]


def run_shard(shard, rec):
    if shard[0] == "all":
        _, conf, first, n = shard
        for rest in itertools.product(FRAMES, repeat=n - 1):
            rec.case((conf, (first,) + rest))
    elif shard[0] == "crowd":
        n = shard[1]
        for conf in CONFS:
            for h in ((n, n, n, -n), (n, 3, n, n // 2, n), (n, n, n, n, "", "", "", "", "", -3, -3, -3, -3), (n, n, n, "", "", "", "", n // 2, n // 2, -n, -n)):
                rec.case((conf, h))
    else:
        _, conf, k, n = shard
        for h in lassos(tuple(FRAMES), k, n, ((), ("ab",), ("a", ""))):
            rec.case((conf, h))
