"""P02: identities are unique, permanent and never reused."""
import itertools

import numpy as np

from ..common import *
from . import P01

LEVEL = "model_checking"
RULE = (
    "each history drives two interleaved trackers of the real code; distinct_nontrivial = distinct id assignment "
    "histories observed"
)
BOUNDS = {
    "quick": "all sequences of 4 subsets of 3 locations and of 6 (with ReID 5) subsets of 2 locations for 5 lifecycles with and without"
    " ReID, plus closure of the lifecycle states of 3 locations with periods 1,2, and words of up to 3 subsets repeated to 50 frames; crowds of 5 to 301 things (45 sizes) appearing and vanishing in 4 patterns; streams of 70000 objects; two trackers in every history",
    "thorough": "sequences of 5 subsets of 3 locations and 8 subsets of 2 locations, words of 4 repeated to 100 frames, streams of 300000 objects",
}
ASSUMPTIONS = ["order of ids among objects initialized in the same update is not constrained"]

CONF = [(1, 0), (2, 1), (2, 0), (3, 1), (4, 2)]
SEEN_GLOBAL = set()


def shards(tier):
    th = tier == "thorough"
    out = []
    for H, d in CONF:
        for reid in (0, 1, 2):
            if th or reid == 0 or (H, d) in ((2, 1), (4, 2)):
                for first in range(8):
                    out.append(("seq", H, d, reid, 3, (first,), 5 if th else 4))
            for first in range(4):
                out.append(("seq", H, d, reid, 2, (first,), 8 if th else (5 if reid else 6)))
        for reid in (0, 1, 2):
            out.append(("lasso", H, d, reid, 4 if th else 3, 100 if th else 50))
    for k in range(8):
        out.append(("crowd", k, 8))
    for H, d in [(1, 0), (2, 1), (3, 1), (4, None)] + ([(5, 2), (6, None)] if th else []):
        out.append(("bfs", H, d))
    for H, d, blink in ((1, 0, 1), (2, 1, 2), (2, 1, 1)):
        out.append(("stream", H, d, blink, 300 if th else 70))
    return out


def run_shard(shard, rec):
    if shard[0] == "seq":
        _, H, d, reid, nloc, pre, n = shard
        for w in itertools.product(range(1 << nloc), repeat=n - len(pre)):
            rec.case((H, d, reid, nloc, tuple((1, m) for m in pre + w)))
    elif shard[0] == "crowd":
        for n in SIZES[shard[1]::shard[2]]:
            full, none, even, last, butlast, half = patterns(n)
            for H, d, reid in ((1, 0, 0), (2, 1, 0), (2, 1, 2)):
                for w in ((full, full, even, full ^ even, none, none, full, full), (even, full, half, full, full), (last, butlast, full, none, none, none, none, none, full, full), (full, half, half, full ^ half, full ^ half, full)):
                    rec.case((H, d, reid, n, tuple((1, m) for m in w)))
    elif shard[0] == "stream":
        rec.case(shard)
    elif shard[0] == "lasso":
        _, H, d, reid, k, n = shard
        for h in lassos([(1, m) for m in range(4)] + ([(2, 3)] if k > 3 else []), k, n):
            rec.case((H, d, reid, 2, h))
    else:
        _, H, d = shard
        dd = effective_delay(H, d)
        acts = [(p, m) for p in (1, 2) for m in range(4)]
        bfs(rec, (None, None), acts, lambda s, a: P01.ref_step(s, a, H, dd), lambda h: rec.case((H, d, 0, 2, h)))


def reid_distance(new, old):
    return float(np.abs(new.last_detection.embedding - old.last_detection.embedding))


class Watch:
    """invariants on the identities of one tracker"""

    def __init__(self, reid):
        self.reid = reid
        self.objs = {}  # id(obj) -> [obj, id, gid, initializing_id]
        self.owner = {}  # id -> obj
        self.prev_total = 0
        self.log = []

    def look(self, t, tr, ret, gids):
        fresh = []
        for o in list(tr.tracked_objects) + list(ret):
            e = self.objs.get(id(o))
            if e is None:
                for x in self.objs.values():
                    require(x[3] != o.initializing_id, lambda: "frame %d: initializing id %s used twice" % (t, o.initializing_id))
                require(o.initializing_id is not None, "frame %d: no initializing id" % t)
                e = self.objs[id(o)] = [o, None, None, o.initializing_id]
            require(o.initializing_id == e[3], "frame %d: initializing id changed" % t)
            if o.is_initializing:
                require(o.id is None and o.global_id is None, lambda: "frame %d: initializing object has id %s/%s" % (t, o.id, o.global_id))
                require(e[1] is None, "frame %d: object lost its initialization" % t)
            else:
                require(o.id is not None and o.global_id is not None, "frame %d: initialized object without id" % t)
                if e[1] is None:
                    e[1], e[2] = o.id, o.global_id
                    require(o.id not in self.owner, lambda: "frame %d: id %s handed out twice in one tracker" % (t, o.id))
                    self.owner[o.id] = o
                    require(o.global_id not in gids, lambda: "frame %d: global id %s handed out twice" % (t, o.global_id))
                    gids.add(o.global_id)
                    fresh.append(o.id)
                require((o.id, o.global_id) == (e[1], e[2]), lambda: "frame %d: id changed %s -> %s" % (t, (e[1], e[2]), (o.id, o.global_id)))
        ids = [o.id for o in ret]
        require(len(set(ids)) == len(ids), lambda: "frame %d: ids returned twice: %s" % (t, ids))
        for o in ret:
            require(self.owner[o.id] is o, lambda: "frame %d: id %s now belongs to another instance" % (t, o.id))
        total = tr.total_object_count
        require(tr.current_object_count == len(ret), "frame %d: current_object_count" % t)
        if not self.reid:
            n = self.prev_total
            require(sorted(fresh) == list(range(n + 1, n + 1 + len(fresh))), lambda: "frame %d: new ids %s after %d ids" % (t, sorted(fresh), n))
            require(total == n + len(fresh), lambda: "frame %d: total_object_count %s, ids handed out %d" % (t, total, n + len(fresh)))
        else:
            require(all(i > self.prev_total for i in fresh), "frame %d: id not above the earlier count" % t)
            require(total >= self.prev_total + len(fresh) and all(i <= total for i in fresh), lambda: "frame %d: total_object_count %s with new ids %s" % (t, total, fresh))
        self.prev_total = total
        self.log.append((tuple(sorted(ids)), total))


def run_stream(case, rec):
    """many new objects in every frame, seen in `blink` frames each"""
    _, H, d, blink, n = case
    per = 1000 if blink == 1 else 60
    trs = [Tracker("euclidean", 0.5, hit_counter_max=H, initialization_delay=d, filter_factory=FILTERS["no"]()) for _ in range(2)]
    counts, inits, gids = [0, 0], [set(), set()], set()
    for t in range(n):
        for k, tr in enumerate(trs):
            dets = [Detection(np.array([[2.0 * i, 5.0 * f + k]])) for f in range(max(0, t - blink + 1), t + 1) for i in range(per)]
            ret = tr.update(dets)
            new = sorted((o.id, o.global_id) for o in ret if o.id > counts[k])
            require([i for i, _ in new] == list(range(counts[k] + 1, counts[k] + 1 + len(new))), lambda: "frame %d: the new ids are %s..., after %d ids" % (t, new[:3], counts[k]))
            require(len(new) == (per if d < 1 or (blink > 1 and t) else 0), lambda: "frame %d: %d new ids" % (t, len(new)))
            counts[k] += len(new)
            require(tr.total_object_count == counts[k] and tr.current_object_count == len(ret), "frame %d: object counts" % t)
            g = {i for _, i in new}
            require(len(g) == len(new) and not g & gids, "frame %d: a global id was handed out twice" % t)
            gids |= g
            born = [o.initializing_id for o in tr.tracked_objects if o.age == 0]
            require(len(set(born)) == len(born) == per and not inits[k] & set(born), lambda: "frame %d: initializing ids %s... were given before" % (t, sorted(born)[:3]))
            inits[k] |= set(born)
    rec.outcome((case, tuple(counts)))
    rec.state((case, tuple(counts)))
    rec.step(2 * n)


def run_case(case, rec):
    if case[0] == "stream":
        return run_stream(case, rec)
    H, d, reid, nloc, hist = case
    kw = {}
    if reid:
        kw = dict(reid_distance_function=reid_distance, reid_distance_threshold=0.5 if reid == 1 else 1.5, reid_hit_counter_max=1 + reid)
    trs = [Tracker("euclidean", 50, hit_counter_max=H, initialization_delay=d, **kw) for _ in range(2)]
    watches = [Watch(reid), Watch(reid)]
    gids = set()
    n = len(hist)
    for t in range(n):
        for k, tr in enumerate(trs):
            p, m = hist[t] if k == 0 else hist[n - 1 - t]
            if k == 1:
                m ^= 1
            dets = [Detection(np.array([[FAR * i, 1.0]]), embedding=i) for i in range(nloc) if m >> i & 1]
            if t % 2:
                dets.reverse()
            ret = tr.update(dets, period=p)
            watches[k].look(t, tr, ret, gids)
    for g in gids:
        require(g not in SEEN_GLOBAL, lambda: "global id %s was handed out to an object of an earlier tracker" % g)
    SEEN_GLOBAL.update(gids)
    rec.outcome(tuple(map(str, (watches[0].log, watches[1].log))))
    rec.state(tuple(watches[0].log))
    rec.step(2 * n)
