"""P06: objects and detections of different labels never interact."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
RULE = "distinct_nontrivial = distinct match relations / distinct per-label track histories"
BOUNDS = {
    "quick": "all ordered pairs (and all 2x2 arrangements of 5) of 15 labels for 5 kinds of distance and for ReID; all histories"
    " of 3 frames over 16 label/place subsets (4 frames over 8 subsets for ReID) and words of up to 2 subsets repeated to 24 frames, mixed tracker against one tracker per label, 6 configurations;"
    " labels that are not even equal to themselves (NaN, one or many) for 5 kinds of distance and ReID;"
    " 5 to 301 different labels at one place (45 sizes, 4 kinds of labels, 4 distances)",
    "thorough": "5 frames for every configuration, 3x2 arrangements",
}
ASSUMPTIONS = ["labels are hashable"]

# JSON-able descriptions of labels -> label
LABELS = {
    "none": None, "sNone": "None", "i1": 1, "s1": "1", "f1": 1.0, "true": True, "i0": 0, "false": False, "empty": "",
    "t12": (1, 2), "tab": ("a", "b"), "a": "a", "A": "A", "aa": "a ", "f15": 1.5, "fs": frozenset([1]), "big": 2**70,
}
NAMES = list(LABELS)
KINDS = ["euclidean", "iou", "frobenius", "mean_manhattan", "custom"]
CONFS = ["euclidean", "iou", "frobenius", "custom", "reid", "reidc"]


def distance(kind):
    return static_distance if kind == "custom" else kind


def shards(tier):
    th = tier == "thorough"
    out = []
    for k in KINDS:
        for n in NAMES:
            out.append(("pair", k, n))
    for n in NAMES:
        out.append(("reidpair", n))
    for k in range(8):
        out.append(("crowd", k))
    out += [("nan", k) for k in KINDS]
    out += [("arrange", k, th) for k in KINDS]
    out += [("relabel", k) for k in KINDS]
    for c in CONFS:
        for f in range(16):
            out.append(("mix", c, 5 if th else (4 if c == "reid" else 3), f))
        out.append(("lasso", c, 3 if th else 2, 0))
    return out


def run_shard(shard, rec):
    kind = shard[0]
    if kind == "pair":
        for n in NAMES:
            for init in (0, 1):
                for n2 in ("none", "s1", "i1", "tab"):
                    rec.case(("pair", shard[1], shard[2], n, init, n2))
    elif kind == "reidpair":
        for n in NAMES:
            for alive in (0, 1):
                rec.case(("reidpair", shard[1], n, alive))
    elif kind == "relabel":
        for a in NAMES:
            for b in ("none", "s1", "i1", "tab", "a", "empty"):
                for init in (0, 1):
                    rec.case(("relabel", shard[1], a, b, init))
    elif kind == "crowd":
        for n in SIZES[shard[1]::8]:
            for lab in MANY:
                for dist in ("euclidean", "iou", "custom") if n <= 65 else ("euclidean",):
                    for order in ("same", "reversed", "some", "pairs"):
                        rec.case(("crowd", n, lab, dist, order))
    elif kind == "nan":
        for hist in itertools.product(("", "n", "o", "no", "on", "nn", "non"), repeat=4):
            for one in (0, 1):
                for reid in (0, 1):
                    for other in ("none", "f1", "a"):
                        if reid == 0 or other == "a":
                            rec.case(("nan", shard[1], hist, one, reid, other))
    elif kind == "arrange":
        five = ("none", "sNone", "i1", "s1", "tab")
        for o in itertools.product(five, repeat=2):
            for d in itertools.product(five, repeat=3 if shard[2] else 2):
                rec.case(("arrange", shard[1], o, d))
    elif kind == "lasso":
        _, c, k, _ = shard
        for h in lassos(range(16), k, 24):
            if c != "reid" or set(h) <= set(REIDSEL):
                rec.case(("mix", c, h))
    else:
        _, c, n, first = shard
        sel = range(16) if c != "reid" or first in REIDSEL else ()
        if n == 4 and c == "reid":
            sel = [m for m in sel if m in REIDSEL]
        for w in itertools.product(sel, repeat=n - 1):
            rec.case(("mix", c, (first,) + w))


def eq(a, b):
    return bool(a == b)


def box(x, y=0.0):
    return np.array([[x, y], [x + 10.0, y + 10.0]])


MANY = {
    "numbers": lambda i: i,
    "texts": lambda i: "class %d" % i,
    "alike": lambda i: "x" * (i + 1),
    "mixed": lambda i: (i, str(i), (i,), None if i == 3 else i + 0.5)[i % 4],
}


def run_crowd(case, rec):
    """so many labels at one and the same place"""
    _, n, lab, dist, order = case
    lab = MANY[lab]
    tr = Tracker(distance(dist), 0.9 if dist == "iou" else 20, hit_counter_max=2, initialization_delay=1, filter_factory=NoFilterFactory(),
                 reid_distance_function=lambda a, b: 0.1, reid_distance_threshold=1.0, reid_hit_counter_max=9)
    tracks = {}
    seen = {}

    def frame(ids, dx):
        dets = [Detection(box(0.01 * dx), label=lab(i), data=(i, dx)) for i in ids]
        ret = tr.update(dets)
        for i, d in zip(ids, dets):
            seen[i] = d
        for o in tr.tracked_objects:
            i = o.last_detection.data[0]
            require(eq(o.label, lab(i)) and (o.last_detection is seen[i] or not any(o is x for x in ret)), lambda: "object of label %r holds a detection of label %r" % (o.label, lab(i)))
            if o.id is not None:
                require(tracks.setdefault(i, o.id) == o.id, lambda: "label %r: id %s became %s" % (lab(i), tracks[i], o.id))
        return {o.last_detection.data[0] for o in ret}

    everyone = list(range(n))
    again = {"same": everyone, "reversed": everyone[::-1], "some": everyone[n // 3 :: 2], "pairs": [i ^ 1 for i in everyone if i ^ 1 < n]}[order]
    frame(everyone, 0)
    got = frame(again, 1)
    require(got == set(again) and sorted(tracks) == sorted(again), lambda: "%d labels: returned %d objects, initialized %d, expected %d" % (n, len(got), len(tracks), len(again)))
    for k in range(4):
        frame([], 2)
    # everybody is lost by now and returns elsewhere, in another order: ReID by label
    back = again[::-1] if order != "reversed" else again[1:] + again[:1]
    frame(back, 100000)
    got = frame(back, 100001)
    alive = [o for o in tr.tracked_objects if o.hit_counter >= 0]  # others never counted
    require(got == set(back) and len(alive) == len(back), lambda: "%d of %d returned after ReID, %d objects" % (len(got), len(back), len(alive)))
    rec.outcome(case)
    rec.state(case)


def run_case(case, rec):
    rec.step()
    if case[0] == "crowd":
        return run_crowd(case, rec)
    if case[0] == "pair":
        _, kind, n1, n2, init, n3 = case
        la, lb, lc = LABELS[n1], LABELS[n2], LABELS[n3]
        tr = Tracker(distance(kind), 0.9 if kind == "iou" else 20, hit_counter_max=4, initialization_delay=0 if init else 2)
        first = Detection(box(0.0), label=la)
        far = Detection(box(5000.0), label=lc)
        tr.update([first, far])
        second = Detection(box(1.0), label=lb)
        far2 = Detection(box(5001.0), label=lc)
        tr.update([far2, second])
        got = [o for o in tr.tracked_objects if o.last_detection is second]
        require(len(got) == 1, "detection lost")
        matched = got[0].age == 1
        require(matched == eq(la, lb), lambda: "label %r and %r: matched=%s (%s distance)" % (la, lb, matched, kind))
        require(eq(got[0].label, la if matched else lb), "label of the object")
        other = [o for o in tr.tracked_objects if o.last_detection is far2]
        require(len(other) == 1 and other[0].age == 1, lambda: "object of label %r lost its detection next to labels %r, %r" % (lc, la, lb))
        rec.outcome((n1, n2, matched))
        rec.state((kind, n1, n2, init))
    elif case[0] == "reidpair":
        _, n1, n2, alive = case
        la, lb = LABELS[n1], LABELS[n2]
        tr = Tracker("euclidean", 20, hit_counter_max=3, initialization_delay=1, reid_distance_function=lambda a, b: 0.5,
                     reid_distance_threshold=1, reid_hit_counter_max=5)
        D = lambda x, l: [Detection(np.array([[x, 0.0]]), label=l)]
        tr.update(D(0, la))
        tr.update(D(0, la))
        (o,) = tr.update(D(0, la))
        if not alive:
            for _ in range(5):
                tr.update()
            require(tr.get_active_objects() == [] and any(x is o for x in tr.tracked_objects), "object should be dead but remembered")
        tr.update(D(500.0, lb))
        r = tr.update(D(500.0, lb))
        merged = any(x is o for x in r) and np.abs(o.estimate - [[500.0, 0]]).max() < 5
        require(merged == eq(la, lb), lambda: "ReID of label %r as %r: %s" % (la, lb, merged))
        rec.outcome((n1, n2, merged))
        rec.state((n1, n2, alive))
    elif case[0] == "arrange":
        _, kind, on, dn = case
        lo, ld = [LABELS[x] for x in on], [LABELS[x] for x in dn]
        tr = Tracker(distance(kind), 0.9 if kind == "iou" else 20, hit_counter_max=4, initialization_delay=0)
        olds = [Detection(box(3.0 * i), label=l) for i, l in enumerate(lo)]
        tr.update(olds)
        dets = [Detection(box(1.0 + 3.1 * i), label=l) for i, l in enumerate(ld)]
        tr.update(dets)
        n_match = 0
        for o in tr.tracked_objects:
            hist = list(o.past_detections)
            require(all(eq(h.label, o.label) for h in hist) and eq(o.last_detection.label, o.label), lambda: "object of label %r matched a detection of label %r" % (o.label, o.last_detection.label))
            n_match += any(o.last_detection is d for d in dets) and o.age == 1
        expected = sum(min(sum(eq(x, l) for x in lo), sum(eq(x, l) for x in ld)) for l in unique(lo))
        require(n_match == expected, lambda: "%d matches among labels %r / %r, expected %d" % (n_match, lo, ld, expected))
        require(len(tr.tracked_objects) == len(lo) + len(ld) - expected, "number of objects")
        rec.outcome((on, dn, n_match))
        rec.state((kind, on, dn))
    elif case[0] == "relabel":
        run_relabel(case, rec)
    elif case[0] == "nan":
        run_nan(case, rec)
    else:
        run_mix(case, rec)


def run_relabel(case, rec):
    """the user goes on using detections that were given: the label of an object stays what it was"""
    _, kind, a, b, init = case
    a, b = LABELS[a], LABELS[b]
    tr = Tracker(distance(kind), 0.5 if kind == "iou" else 9, hit_counter_max=3, initialization_delay=init)
    given = []
    for t in range(1 + init):
        given.append(Detection(box(0.2 * t), label=a))
        tr.update(given[-1:])
    for d in given:
        d.label = b
    d = Detection(box(0.4), label=a)
    tr.update([d])
    (o,) = tr.tracked_objects
    require(eq(o.label, a) and o.last_detection is d, lambda: "an object of label %r is of label %r since the user gave its detection another one" % (a, o.label))
    given.append(d)
    for x in given:
        x.label = b
    d = Detection(box(0.6), label=b)
    tr.update([d])
    got = [(o.label, o.last_detection is d) for o in tr.tracked_objects]
    if eq(a, b):
        require(len(got) == 1 and got[0][1], lambda: "objects %s" % (got,))
    else:
        require(len(got) == 2 and eq(got[0][0], a) and got[1][1] and not got[0][1], lambda: "label %r, then %r: objects %s" % (a, b, got))
    rec.step(3)
    rec.outcome(case)


class NaN(float):
    """not a number, as hashable as numbers are (all of them alike)"""

    __hash__ = lambda self: 7


def run_nan(case, rec):
    """a label that equals none, not even itself: nothing is ever matched under it, others are tracked as usual"""
    _, kind, hist, one, reid, other = case
    kw = dict(reid_distance_function=lambda a, b: 0.5, reid_distance_threshold=1, reid_hit_counter_max=2) if reid else {}
    a, b = (Tracker(distance(kind), 0.9 if kind == "iou" else 20, hit_counter_max=2, initialization_delay=reid, **kw) for _ in range(2))
    same = float("nan")
    born = []
    for t, f in enumerate(hist):
        dets, plain = [], []
        for k, c in enumerate(f):
            p = box(0.1 * t + 0.05 * k)
            dets.append(Detection(p, label=(same if one else NaN("nan")) if c == "n" else LABELS[other], data=(t, k)))
            if c == "n":
                born.append(dets[-1])
            else:
                plain.append(Detection(p, label=LABELS[other], data=(t, k)))
        a.update(dets)
        b.update(plain)
        rest = [o for o in a.tracked_objects if o.label == o.label]
        require([(o.age, o.hit_counter, o.last_detection.data, o.estimate.tolist()) for o in rest] == [(o.age, o.hit_counter, o.last_detection.data, o.estimate.tolist()) for o in b.tracked_objects],
                lambda: "frame %d: labels that equal nothing change the objects of label %r" % (t, other))
        for o in a.tracked_objects:
            if o.label != o.label:
                require(any(o.last_detection is d for d in born) and o.last_detection.data[0] == t - o.age and o.last_distance is None, lambda: "frame %d: an object was matched although its label equals none" % t)
        require(sum(o.label != o.label and o.age == 0 for o in a.tracked_objects) == f.count("n"), lambda: "frame %d: %d detections did not all create an object" % (t, f.count("n")))
    rec.step(len(hist))
    rec.outcome((kind, hist, one, reid, other))


def unique(ls):
    out = []
    for l in ls:
        if not any(eq(l, x) for x in out):
            out.append(l)
    return out


REIDSEL = (0, 1, 2, 4, 5, 6, 9, 12)
PLACES = [(0, "a"), (6, "a"), (0, 1), (6, "1")]


def mkmix(conf):
    if conf == "reid" or conf == "reidc":
        return Tracker("euclidean" if conf == "reid" else static_distance, 9, hit_counter_max=2, initialization_delay=0 if conf == "reid" else 1,
                       reid_distance_function=lambda n, o: float(np.abs(n.last_detection.points - o.last_detection.points).max()),
                       reid_distance_threshold=60.0, reid_hit_counter_max=1, filter_factory=NoFilterFactory())
    return Tracker(distance(conf), 0.95 if conf == "iou" else 9, hit_counter_max=3, initialization_delay=1)


def frame(mask, t):
    out = []
    for i, (x, l) in enumerate(PLACES):
        if mask >> i & 1:
            # small distinct offsets: no ties between candidate pairs
            out.append(((t, i), x + 0.37 * t + 0.11 * i * (t + 1), l))
    return out


def tracks(tr):
    out = []
    for o in tr.tracked_objects:
        out.append((o.age, o.hit_counter, o.reid_hit_counter, bool(o.is_initializing), repr(o.label), o.last_detection.data,
                    tuple(d.data for d in o.past_detections), tuple(np.round(o.estimate.ravel(), 9)),
                    None if o.last_distance is None else round(float(o.last_distance), 5)))
    return sorted(out, key=repr)


def run_mix(case, rec):
    _, conf, hist = case
    mixed = mkmix(conf)
    single = {l: mkmix(conf) for l in ("a", 1, "1")}
    for t, mask in enumerate(hist):
        fr = frame(mask, t)
        mk = lambda e: Detection(box(e[1]), data=e[0], label=e[2])
        ret = mixed.update([mk(e) for e in fr])
        got, exp = tracks(mixed), []
        rs = []
        for l, tr in single.items():
            rs += tr.update([mk(e) for e in fr if e[2] == l and type(e[2]) is type(l)])
            exp += tracks(tr)
        exp.sort(key=repr)
        require(got == exp, lambda: "frame %d: mixed labels %s / separately %s" % (t, got, exp))
        require(sorted(o.last_detection.data for o in ret) == sorted(o.last_detection.data for o in rs), "frame %d: returned objects differ" % t)
    rec.outcome((conf, tuple(map(repr, got))))
    rec.state((conf, tuple(map(repr, got))))
    rec.step(len(hist))
