"""P11: past_detections is a bounded, ordered, documented sample of the matches."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
RULE = "distinct_nontrivial = distinct (length limit, ages kept after every update) histories"
BOUNDS = {
    "quick": "all hit/miss strings of length 10 for past_detections_length 0..5, two objects at once (complementary strings),"
    " short-lived and long-lived objects, period changes; strings of up to 40 updates with one or two gaps; all words of 6 updates over misses and detections without,"
    " with some and with only ignored points; reused and shared detections (all words of 7 updates); ReID merges (all words of 7 updates over none and two places);"
    " past_detections_length 5 to 301 (45 sizes) for 5 patterns of hits long enough to replace kept ones",
    "thorough": "all strings of length 13, past_detections_length 0..7",
}
ASSUMPTIONS = ["stamped ages are only compared for detections not given to another tracker"]


def shards(tier):
    th = tier == "thorough"
    n = 13 if th else 10
    out = []
    for L in range(0, 8 if th else 6):
        for H in (100, 2):
            for pre in itertools.product((0, 1), repeat=2):
                out.append(("strings", L, H, n, pre))
        out.append(("long", L))
        out.append(("reid", L))
        out.append(("reuse", L, 9 if th else 7))
        out.append(("scores", L, 7 if th else 6))
    for k in range(8):
        out.append(("length", k))
    return out


def run_shard(shard, rec):
    if shard[0] == "length":
        for L in SIZES[shard[1]::8]:
            n = 2 * L + 40 if L > 40 else L * L + 4 * L + 40
            for w in ((1,) * n, (1, 0) * (n // 2), (1,) * (L - 1) + (0,) * 7 + (1,) * 60, (1, 1, 0) * (n // 3), (0, 0) + (1,) + (0,) * 5 + (1,) * n):
                rec.case(("plain", L, 100, w))
        return
    if shard[0] == "strings":
        _, L, H, n, pre = shard
        for w in itertools.product((0, 1), repeat=n - len(pre)):
            rec.case(("plain", L, H, pre + w))
    elif shard[0] == "long":
        L = shard[1]
        for a in range(1, 12):
            for b in range(0, 16, 1):
                rec.case(("plain", L, 100, (1,) * a + (0,) * b + (1,) * (40 - a - b)))
                rec.case(("plain", L, 100, (1,) + (0,) * b + ((1,) + (0,) * (a - 1)) * (30 // a)))
    elif shard[0] == "reuse":
        # 0: miss, 1: a new detection, 2: the detection of the update before, 3: the very first one; another tracker may use them too
        for other in (0, 1, 3):
            for w in itertools.product(range(4), repeat=shard[2] - 1):
                if other == 0 or w[:3] == (1, 1, 1) or sum(w) % 7 == other:
                    rec.case(("reuse", shard[1], other, (1,) + w))
    elif shard[0] == "scores":
        # 2: a detection all of whose points are ignored, 3: one point of two is ignored
        for w in itertools.product(range(4), repeat=shard[2]):
            rec.case(("plain", shard[1], 100, w))
    else:
        for w in itertools.product((0, 1, 2), repeat=7):
            rec.case(("reid", shard[1], w))


def run_case(case, rec):
    if case[0] == "reid":
        return run_reid(case, rec)
    if case[0] == "reuse":
        return run_reuse(case, rec)
    _, L, H, hist = case
    tr = Tracker("euclidean", 100, hit_counter_max=H, initialization_delay=0, past_detections_length=L)
    refs = [None, None]
    trail = []
    for t, h in enumerate(hist):
        dets = {}
        hits = (h, (1, 0, 3, 2)[h])
        for k in range(2):
            if hits[k]:
                pts = np.array([[5000.0 * k, 0.5 * t], [5000.0 * k + 9, 0.5 * t]])
                sc = None if hits[k] == 1 else np.array([0.0, 0.0] if hits[k] == 2 else [0.0, 1.0])
                dets[k] = Detection(pts, data=(k, t), scores=sc)
        p = 30 if H == 100 else 1 + (t % 5 == 4)
        tr.update(list(dets.values()), period=p)
        for k in range(2):
            # reference: [counter, age, kept, last]
            r = refs[k]
            if r is not None and r[0] < 0:
                r = refs[k] = None
            if r is None:
                if k in dets:
                    refs[k] = [p, 0, [(dets[k], 0)] if L else [], dets[k]]
                continue
            r[0] -= 1
            r[1] += 1
            if k in dets:
                r[0] = min(r[0] + 2 * p, H)
                r[3] = dets[k]
                kept = r[2]
                if L:
                    if len(kept) < L:
                        kept.append((dets[k], r[1]))
                    elif r[1] >= kept[0][1] * L:
                        kept.pop(0)
                        kept.append((dets[k], r[1]))
        for k in range(2):
            r = refs[k]
            if r is None:
                continue
            o = [x for x in tr.tracked_objects if x.last_detection is r[3]]
            if not o and r[0] < 0:
                continue
            require(len(o) == 1, "update %d: object %d: last_detection is not the latest match" % (t, k))
            got = list(o[0].past_detections)
            require(len(got) <= L, lambda: "update %d: %d past detections, limit %d" % (t, len(got), L))
            require(len(got) == len(r[2]) and all(a is b[0] for a, b in zip(got, r[2])), lambda: "update %d object %d (age %d): past detections of updates %s, expected %s" % (t, k, r[1], [d.data[1] for d in got], [d.data[1] for d, _ in r[2]]))
            require([d.age for d in got] == [a for _, a in r[2]], lambda: "update %d: stamped ages %s, expected %s" % (t, [d.age for d in got], [a for _, a in r[2]]))
            trail.append(tuple(a for _, a in r[2]))
    rec.outcome((L, H, tuple(trail)))
    for x in trail:
        rec.state((L, H, x))
    rec.step(len(hist))


def run_reuse(case, rec):
    """the kept sample does not depend on what else the detections are used for"""
    _, L, start, hist = case
    mk = lambda: Tracker("euclidean", 100, hit_counter_max=100, initialization_delay=0, past_detections_length=L)
    tr, other = mk(), mk()
    dets, kept, last = [], [], None
    for t, h in enumerate(hist):
        d = None if h == 0 else Detection(np.array([[1.0, 2.0]]), data=t) if h == 1 else dets[-1] if h == 2 else dets[0]
        if d is not None:
            dets.append(d)
            last = d
            if L and len(kept) < L:
                kept.append((d, t))
            elif L and t >= kept[0][1] * L:
                kept.pop(0)
                kept.append((d, t))
        tr.update([] if d is None else [d], period=30)
        if start and t >= start:  # an object of another age
            other.update([dets[0], dets[-1]] if t % 2 else [dets[-1]], period=30)
        (o,) = tr.tracked_objects
        got = list(o.past_detections)
        require(o.last_detection is last, "update %d: last_detection is not the latest match" % t)
        require(len(got) == len(kept) and all(a is b for a, (b, _) in zip(got, kept)), lambda: "update %d: past detections of updates %s, expected %s" % (t, [d.data for d in got], [d.data for d, _ in kept]))
        if d is not None and not start and any(x is d and a == t for x, a in kept):
            require(d.age == t, lambda: "update %d: stamped age %s" % (t, d.age))
    rec.outcome((L, hist, tuple(a for _, a in kept)))
    rec.step(len(hist))


def run_reid(case, rec):
    _, L, hist = case
    tr = Tracker("euclidean", 100, hit_counter_max=3, initialization_delay=1, past_detections_length=L, reid_distance_function=lambda n, o: 0.5,
                 reid_distance_threshold=1.0, reid_hit_counter_max=3)
    given = []
    kept = {}  # id(object) -> (object, [(detection, age), ...])

    def add(lst, age, d):
        if L and len(lst) < L:
            lst.append((d, age))
        elif L and age >= lst[0][1] * L:
            lst.pop(0)
            lst.append((d, age))

    for t, h in enumerate((1, 1) + hist):
        dets = [Detection(np.array([[5000.0 * (h - 1), 0.0]]), data=t)] if h else []
        given += dets
        before = list(tr.tracked_objects)
        tr.update(dets)
        now = list(tr.tracked_objects)
        if dets:
            own = [o for o in now if o.last_detection is dets[0]]
            require(len(own) == 1, "update %d: the detection is the last detection of %d objects" % (t, len(own)))
            o = own[0]
            if id(o) not in kept:
                kept[id(o)] = (o, [(dets[0], 0)] if L else [])
            else:
                # an initializing object that was matched and merged into this one is gone, but still holds the detection
                merged = [x for x in before if not any(x is y for y in now) and x.last_detection is dets[0]]
                require(len(merged) <= 1, "update %d: several objects matched the detection" % t)
                if merged:
                    clist = kept[id(merged[0])][1]
                    add(clist, merged[0].age, dets[0])
                for d in [d for d, _ in clist] if merged else [dets[0]]:
                    add(kept[id(o)][1], o.age, d)
        for o in now:
            got, want = list(o.past_detections), kept[id(o)][1]
            require([d.data for d in got] == [d.data for d, _ in want], lambda: "update %d: past detections of updates %s, expected %s" % (t, [d.data for d in got], [d.data for d, _ in want]))
            require([d.age for d in got] == [a for _, a in want], lambda: "update %d: stamped ages %s, expected %s" % (t, [d.age for d in got], [a for _, a in want]))
        for o in tr.tracked_objects:
            pd = list(o.past_detections)
            require(len(pd) <= L, lambda: "update %d: %d past detections, limit %d" % (t, len(pd), L))
            require(len(set(map(id, pd))) == len(pd), "update %d: a detection is kept twice" % t)
            require(all(any(d is g for g in given) for d in pd), "foreign detection")
            ages = [d.age for d in pd]
            require(ages == sorted(ages) and all(a <= o.age for a in ages), lambda: "update %d: ages %s of an object of age %d" % (t, ages, o.age))
    rec.outcome((L, tuple(tuple(d.data for d in o.past_detections) for o in tr.tracked_objects)))
    rec.step(len(hist))
