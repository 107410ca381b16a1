"""P13: a tracker's output is a function of its own history only (all interleavings of the updates of two trackers)."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
TECH = "exhaustive interleaving exploration at update granularity (all merges of two histories) of the real code, differential against the isolated runs"
RULE = "every interleaving is compared with the isolated runs of both trackers; distinct_nontrivial = distinct (pair, interleaving) results"
BOUNDS = {
    "quick": "16 pairs of tracker configurations x 64 histories x 6 histories of 3 updates x all 20 merges, shared factory, shared"
    " detection objects, shared transformation; 4+4 updates (70 merges) for selected histories; 7+4 updates (330 merges) of objects of different ages; three trackers (90 merges of 2+2+2); all orders of 2-4 detections in memory and of the hashes of 2-4 labels;"
    " 5 to 301 objects (45 sizes) in 4 pairs and 4 merges; for every configuration 27 histories x 3 periods in a fresh process, again after 1 update with 600 objects, 2500 updates, 400 other trackers and 1500 objects of ReID trackers",
    "thorough": "all 64x64 pairs of histories; all 70 merges of 4+4 for 64x8",
}
ASSUMPTIONS = ["updates are atomic here; preemption inside updates is P03"]

SHARED_FACTORY = {}


def factory(kind):
    if kind not in SHARED_FACTORY:
        SHARED_FACTORY[kind] = FILTERS[kind]()
    return SHARED_FACTORY[kind]


def reidfn(n, o):
    return float(np.abs(n.estimate - o.estimate).max())


CONFS = {
    "def": lambda: Tracker("euclidean", 30, hit_counter_max=3, initialization_delay=1),
    "def2": lambda: Tracker("euclidean", 30, hit_counter_max=2, initialization_delay=0, pointwise_hit_counter_max=2, past_detections_length=1),
    "fpy": lambda: Tracker("mean_euclidean", 30, hit_counter_max=3, initialization_delay=1, filter_factory=factory("fpy")),
    "fpy2": lambda: Tracker("frobenius", 60, hit_counter_max=2, initialization_delay=1, detection_threshold=0.5, filter_factory=factory("fpy")),
    "opt": lambda: Tracker("iou", 0.95, hit_counter_max=3, initialization_delay=0, filter_factory=factory("opt")),
    "opt2": lambda: Tracker("iou", 0.95, hit_counter_max=2, initialization_delay=1, filter_factory=factory("opt")),
    "no": lambda: Tracker(static_distance, 30, hit_counter_max=3, initialization_delay=1, filter_factory=factory("no")),
    "reid": lambda: Tracker("euclidean", 30, hit_counter_max=2, initialization_delay=1, filter_factory=factory("no"), reid_distance_function=reidfn,
                            reid_distance_threshold=150.0, reid_hit_counter_max=2),
    "past": lambda: Tracker("euclidean", 30, hit_counter_max=5, initialization_delay=0, past_detections_length=2),
    # as another one but for one parameter
    "near": lambda: Tracker("euclidean", 5, hit_counter_max=3, initialization_delay=1),
    "optn": lambda: Tracker("iou", 0.2, hit_counter_max=3, initialization_delay=0, filter_factory=factory("opt")),
    "optr": lambda: Tracker("euclidean", 30, hit_counter_max=3, initialization_delay=1, filter_factory=OptimizedKalmanFilterFactory(R=40.0, Q=3.0, pos_variance=1, vel_variance=9)),
    "fpyr": lambda: Tracker("mean_euclidean", 30, hit_counter_max=3, initialization_delay=1, filter_factory=FilterPyKalmanFilterFactory(R=40.0, Q=3.0, P=1.0)),
    "frob": lambda: Tracker("frobenius", 9, hit_counter_max=3, initialization_delay=1),
    "scored": lambda: Tracker("euclidean", 30, hit_counter_max=3, initialization_delay=1, detection_threshold=0.5),
    "reidn": lambda: Tracker("euclidean", 30, hit_counter_max=2, initialization_delay=1, filter_factory=factory("no"), reid_distance_function=reidfn,
                             reid_distance_threshold=2.0, reid_hit_counter_max=5),
    "cam": lambda: Tracker("euclidean", 30, hit_counter_max=3, initialization_delay=1, filter_factory=factory("opt")),
}
PAIRS = [("def", "def"), ("def", "def2"), ("fpy", "fpy"), ("fpy", "fpy2"), ("opt", "opt2"), ("reid", "reid"), ("reid", "no"), ("cam", "def"), ("cam", "cam"),
         ("def", "near"), ("opt", "optn"), ("def", "optr"), ("fpy", "fpyr"), ("fpy2", "frob"), ("def", "scored"), ("reid", "reidn")]
# frames: what the two locations hold
FRAMES = [(), (0,), (0, 1), (1,)]


def places(frame):
    """a number, or how many things are there and which of them are seen"""
    if isinstance(frame, int):
        return FRAMES[frame]
    n, which = frame
    m = patterns(n)[which]
    return [k for k in range(n) if m >> k & 1]


BSEL = [(2, 2, 0), (1, 3, 1), (1, 1, 1), (2, 0, 2), (3, 0, 1), (0, 2, 2)]


def merges(n):
    """all interleavings of the sequences with lengths n (tuple)"""
    if not any(n):
        yield ()
        return
    for k in range(len(n)):
        if n[k]:
            m = list(n)
            m[k] -= 1
            for w in merges(tuple(m)):
                yield (k,) + w


def shards(tier):
    th = tier == "thorough"
    out = []
    for a, b in PAIRS:
        for h in itertools.product(range(4), repeat=3):
            if th or a in ("def", "reid", "cam") and b in ("def", "reid", "cam") or sum(h) % (9 if (a, b) in PAIRS[9:] else 3) == 0:
                out.append(("two", (a, b), h, th))
        out.append(("four", (a, b), th))
    out.append(("late", "past", "past"))
    out.append(("late", "past", "def2"))
    # the place of detections in memory and the hashes of labels are not part of the history
    for conf in ("def", "no", "reid", "past"):
        out += [("memory", conf), ("hash", conf)]
    out += [("crowd", k) for k in range(12)]
    out += [("process", conf) for conf in CONFS]
    for trio in (("def", "def2", "def"), ("fpy", "fpy2", "def"), ("reid", "cam", "opt")):
        out.append(("three", trio))
    return out


def run_shard(shard, rec):
    if shard[0] == "two":
        _, pair, h, th = shard
        for g in itertools.product(range(4), repeat=3) if th else BSEL:
            for w in merges((3, 3)):
                rec.case((pair, (h, g), w, (sum(h) + sum(w[:3])) % 2))
    elif shard[0] == "four":
        _, pair, th = shard
        for h, g in (((2, 2, 0, 2), (1, 1, 1, 0)), ((1, 3, 0, 1), (2, 0, 0, 2))):
            for w in merges((4, 4)):
                for shared in (0, 1):
                    rec.case((pair, (h, g), w, shared))
    elif shard[0] == "late":
        # the objects of one tracker are younger than those of the other one, which sees the same detections
        for h in ((0, 0, 2, 2, 2, 2, 2), (2, 1, 1, 2, 0, 2, 2)):
            for g in ((2, 2, 2, 2), (0, 2, 2, 2), (2, 0, 2, 0)):
                for w in merges((7, 4)):
                    rec.case((shard[1:], (h, g), w, 1))
                    rec.case((shard[2:0:-1], (g, h), tuple(1 - k for k in w), 1))
    elif shard[0] == "crowd":
        for n in SIZES[shard[1]::12]:
            for i, pair in enumerate((("def", "def"), ("fpy", "fpy2"), ("reid", "no"), ("cam", "cam"))):
                w = ((0, 1, 0, 1, 0, 1), (0, 0, 1, 1, 0, 1), (1, 0, 0, 0, 1, 1), (0, 1, 1, 0, 1, 0))[(n + i) % 4]
                rec.case((pair, (((n, 0), (n, 2), (n, 0)), ((n, 5), (n, 0), (n, 0))), w, (n + i) % 2))
    elif shard[0] == "process":
        rec.case(("process", shard[1]))
    elif shard[0] in ("memory", "hash"):
        for n in (2, 3, 4):
            for matched in range(n):
                for keep in (0, 1):
                    rec.case((shard[0], shard[1], n, matched, keep))
    else:
        for h in ((2, 2), (1, 1), (2, 0)):
            for w in merges((2, 2, 2)):
                for shared in (0, 1):
                    rec.case((shard[1], (h, (2, 2), (1, 2)), w, shared))


def detections(conf, frame, t, shared):
    out = []
    for k in places(frame):
        key = (k, t)
        if shared is not None and key in shared:
            out.append(shared[key])
            continue
        x = 100.0 * k + 3.0 * t + t * t
        s = np.array([0.9, 0.9 if (t + k) % 2 else 0.3])
        d = Detection(np.array([[x, 5.0], [x + 20.0, 30.0]]), scores=s, data=key, embedding=k)
        if shared is not None:
            shared[key] = d
        out.append(d)
    return out


ISO = {}


def transform_args(conf, t, shared):
    if conf != "cam":
        return {}
    if shared is not None:
        key = ("T", t)
        if key not in shared:
            shared[key] = TranslationTransformation(np.array([6.0 * t, -t]))
        return dict(coord_transformations=shared[key])
    return dict(coord_transformations=TranslationTransformation(np.array([6.0 * t, -t])))


def one(tr, conf, frame, t, shared):
    ret = tr.update(detections(conf, frame, t, shared), **transform_args(conf, t, shared))
    s = snapshot(tr, det_key=lambda d: repr(d.data))
    return s, tuple(o.id for o in sorted(ret, key=lambda o: o.id)), tr.total_object_count, tuple(sorted(repr(o.last_detection.data) for o in ret))


def isolated(conf, hist):
    tr = CONFS[conf]()
    return [one(tr, conf, f, t, None) for t, f in enumerate(hist)]


class Label:
    """equal labels have equal hashes, but which ones is up to the case"""

    def __init__(self, name, h):
        self.name, self.h = name, h

    def __eq__(self, other):
        return isinstance(other, Label) and self.name == other.name

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "L%s" % self.name


def permuted(conf, n, matched, keep, perm, hashes):
    """a history whose detections of the second frame are, in order, the instances perm of a pool"""
    tr = CONFS[conf]()
    out = []
    pool = [Detection(np.zeros((1, 2))) for _ in range(n)]
    far = lambda k: np.array([[1000.0 * k, 7.0], [1000.0 * k + 20, 30.0]])
    label = lambda k: None if hashes is None else Label(k, hashes[k])
    frames = [list(range(matched)), list(range(n)), list(range(n)) if keep else [], list(range(n))[::-1], [k for k in range(n) if k % 2]]
    for t, f in enumerate(frames):
        dets = []
        for i, k in enumerate(f):
            d = Detection(far(k), label=label(k), data=(t, k), embedding=0)
            if t == 1:
                p = pool[perm[i]]
                p.__init__(far(k), label=label(k), data=(t, k), embedding=0)
                d = p
            dets.append(d)
        ret = tr.update(dets)
        s = snapshot(tr, det_key=lambda d: repr(d.data))
        out.append((s, tuple(o.id for o in ret), tuple(o.initializing_id for o in tr.tracked_objects), tuple(repr(o.last_detection.data) for o in tr.tracked_objects)))
    return out


def run_same(case, rec):
    what, conf, n, matched, keep = case
    ref = None
    for perm in itertools.permutations(range(n)):
        if what == "memory":
            got = permuted(conf, n, matched, keep, perm, None)
        else:
            got = permuted(conf, n, matched, keep, tuple(range(n)), perm)
        if ref is None:
            ref = got
        require(got == ref, lambda: "the same history gives %s, then (%s %s) %s" % (ref, what, perm, got))
        rec.step(len(got))
        rec.outcome((case, perm))


def busy(what):
    """other trackers at work"""
    if what == "objects":
        u = Tracker("euclidean", 5, hit_counter_max=3, initialization_delay=0, filter_factory=factory("no"))
        for _ in range(2):
            u.update([Detection(np.array([[50.0 * k, 0.0]])) for k in range(600)])
    elif what == "objects in turn":
        u = Tracker("euclidean", 5, hit_counter_max=1, initialization_delay=0, reid_distance_function=reidfn, reid_distance_threshold=0.0, reid_hit_counter_max=1)
        for t in range(500):
            u.update([Detection(np.array([[50.0 * k, 90.0 * t]]), label=t % 3, scores=np.array([0.5])) for k in range(3)])
    elif what == "trackers":
        for k in range(400):
            u = Tracker(("euclidean", "iou", "frobenius", "mean_manhattan")[k % 4] if k % 8 != 7 else static_distance, 5 + k, hit_counter_max=1 + k % 9, pointwise_hit_counter_max=1 + k % 5, detection_threshold=k / 400, past_detections_length=k % 4)
            for _ in range(2):
                u.update([Detection(np.array([[0.0, 0.0], [9.0, 9.0]]), scores=np.array([0.3, 0.9]))], period=1 + k % 20, **(dict(coord_transformations=TranslationTransformation(np.ones(2))) if k % 3 else {}))
    else:
        u = Tracker("euclidean", 5, hit_counter_max=3, initialization_delay=0)
        for t in range(2500):
            u.update([Detection(np.array([[0.5 * t, 0.0]]))])


BUSY = ("objects", "updates", "trackers", "objects in turn")


def process_runs(conf):
    out = []
    for p in (1, 3, 6):
        for h in itertools.product(range(3), repeat=3):
            tr = CONFS[conf]()
            for t, f in enumerate(h + (2, 0, 2)):
                ret = tr.update(detections(conf, f, t, None), period=p if t % 2 == 0 else 1, **transform_args(conf, t, None))
                out.append(((p, h, t), repr((snapshot(tr, det_key=lambda d: repr(d.data)), [o.id for o in ret]))))
    return out


def fresh_process(conf):
    """in a process of its own: the first trackers of the process, and the same again after others have been at work"""
    first = process_runs(conf)
    for what in BUSY:
        busy(what)
        for (key, a), (_, b) in zip(first, process_runs(conf)):
            if a != b:
                print("DIFFERENT " + "after %s, history %s gives %s, in a fresh process %s" % (what, key, b, a))
                return
    print("SAME %d" % len(first))


def run_process(case, rec):
    import subprocess
    import sys

    r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", "import mc.props.P13 as m; m.fresh_process(%r)" % case[1]], capture_output=True, text=True, timeout=500)
    last = (r.stdout.strip().splitlines() or [""])[-1]
    require(r.returncode == 0 and last.startswith(("SAME", "DIFFERENT")), lambda: "a run in a fresh process fails: %s" % r.stderr[-600:])
    require(last.startswith("SAME"), lambda: last)
    rec.step(int(last.split()[1]) * (1 + len(BUSY)))
    rec.outcome(case)


def run_case(case, rec):
    if case[0] == "process":
        return run_process(case, rec)
    if case[0] in ("memory", "hash"):
        return run_same(case, rec)
    confs, hists, order, shared = case
    if len({c == "cam" for c in confs}) > 1:
        shared = 0  # transformed detections are for trackers that are given transformations
    base = [isolated(c, h) for c, h in zip(confs, hists)]
    pool = {} if shared else None
    # all trackers are created first, or each one when it is needed
    trs = [CONFS[c]() if sum(order[1::2]) % 2 else None for c in confs]
    pos = [0] * len(trs)
    for k in order:
        t = pos[k]
        if trs[k] is None:
            trs[k] = CONFS[confs[k]]()
        got = one(trs[k], confs[k], hists[k][t], t, pool)
        require(got == base[k][t], lambda: "tracker %d (%s) update %d in interleaving %s: %s, alone: %s" % (k, confs[k], t, order, got, base[k][t]))
        pos[k] += 1
    # the same history always gives the same output, also after everything else that happened in the process
    key = (confs[0], hists[0])
    if key in ISO:
        require(ISO[key] == base[0], lambda: "the same history gave another output later: %s / %s" % (base[0], ISO[key]))
    else:
        ISO[key] = base[0]
    rec.step(len(order) + sum(map(len, hists)))
    rec.outcome((confs, hists, order))
    rec.state((confs, tuple(repr(b[-1]) for b in base)))
