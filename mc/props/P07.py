"""P07: ReID keeps identities; dead objects live as documented. Full reference simulation of tracker + ReID."""
import itertools

import numpy as np

from ..common import *
from norfair.filter import FilterFactory

LEVEL = "model_checking"
RULE = (
    "each history is executed on the real tracker and on the reference simulation (lifecycle, ReID counters, greedy "
    "ReID merge, alpha-beta filter, point counters), compared after every update; distinct_nontrivial = distinct reference runs"
)
BOUNDS = {
    "quick": "all histories of 5 frames over 2 slots (7 for one configuration) and of 4 frames over 3 slots for 11"
    " configurations, plus breadth first search over reference states (2 slots, periods 1,2, depth 5) and prefixes with long"
    " gaps followed by all 3-frame suffixes (also with one object lost and another still detected, over 3 slots), and words of up to 3 subsets (after 3 stems) repeated to 28 frames; crowds of 5 to 301 lost objects and newcomers (45 sizes, equal and 2:1), 3 arrangements of"
    " distinct ReID distances, lost objects dead or alive",
    "thorough": "9 frames over 2 slots, 6 frames over 3 slots, depth 11 (at most 20000 histories per level, truncations are counted in the evidence)",
}
ASSUMPTIONS = [
    "slots are far apart; ReID distances are scripted and tie free; the filter is a documented custom FilterFactory",
    "objects that were never initialized and have a negative hit counter are not observed until they disappear",
]


class AB:
    def __init__(self, z):
        self.n = z.size
        self.x = np.zeros((2 * self.n, 1))
        self.x[: self.n, 0] = z.ravel()

    def predict(self):
        self.x[: self.n] += self.x[self.n:]

    def update(self, z, R=None, H=None):
        m = np.diagonal(H[:, : self.n]).reshape(-1, 1) if H is not None else 1.0
        e = (z - self.x[: self.n]) * m
        self.x[: self.n] += 0.5 * e
        self.x[self.n:] += 0.25 * e


class ABFactory(FilterFactory):
    def create_filter(self, initial_detection):
        return AB(np.array(initial_detection, dtype=float))


# (new slot, old slot) -> ReID distance, before a term that grows with the age of the old sighting
D1 = {(1, 0): 1.0, (0, 1): 1.003, (0, 0): 0.502, (1, 1): 0.601, (2, 0): 0.807, (2, 1): 0.409, (0, 2): 9.0, (1, 2): 1.105, (2, 2): 9.1}
D2 = {(1, 0): 1.0, (0, 1): 9.003, (0, 0): 9.502, (1, 1): 9.601, (2, 0): 0.807, (2, 1): 1.109, (0, 2): 1.304, (1, 2): 9.105, (2, 2): 1.107}
TABLES = {"D1": D1, "D2": D2}
THR = 1.32


def script(table, ns, os_, gap):
    return table[(ns, os_)] + 0.01 * min(gap, 9)


# name: (H, delay, reid max, reid function?, table, pointwise max)
CONFS = {
    "a0": (2, 1, 0, True, "D1", 4), "a1": (2, 1, 1, True, "D1", 2), "a2": (3, 1, 2, True, "D2", 4), "b1": (3, 2, 1, True, "D2", 1),
    "nofn": (2, 1, 1, False, "D1", 4), "nocnt": (2, 1, None, True, "D1", 4), "nocnt2": (3, 1, None, True, "D2", 3),
    "zero": (2, 0, 1, True, "D1", 4), "long": (4, 1, 4, True, "D1", 4), "mask0": (2, 1, 1, True, "D1", 4), "mask1": (3, 1, 2, True, "D2", 6),
}


class R:
    __slots__ = ("slot", "last", "c", "r", "init", "p0", "age", "x", "v", "pts", "once", "inst", "det")

    def key(self, t):
        return (self.slot, self.c, self.r, self.init, self.p0, min(t - self.last, 9))


def position(slot, t):
    b = 1000.0 * slot + 1.5 * t
    return [b, b + 3.0, 0.25 * t * t, 7.0]  # two points of two coordinates


def detected(conf, slot, t):
    if conf.startswith("mask"):  # one slot always sees both points, one only the first, one alternates slowly
        return [True, True] if slot == 0 else [True, False] if slot == 1 else [t % 4 < 2, t % 4 > 1]
    return [True, (slot + t) % 2 == 0]


class Ref:
    """reference tracker; frame() advances it by one update"""

    def __init__(self, conf):
        self.conf = conf
        self.H, self.d, self.rmax, self.fn, tab, self.pmax = CONFS[conf]
        self.table = TABLES[tab]
        self.objs = []
        self.t = -1

    def frame(self, p, slots):
        self.t += 1
        t = self.t
        live, dead = [], []
        keep = []
        for o in self.objs:
            if self.rmax is None or not o.init:
                gone = o.c < 0
            else:
                gone = o.r is not None and o.r < 0
            if not gone:
                keep.append(o)
                (live if o.c >= 0 else dead).append(o)
        self.objs = keep
        for o in keep:
            if o.r is not None:
                o.r -= 1
            elif o.c <= 0:
                o.r = self.rmax
            o.c -= 1
            o.age += 1
            o.pts = [max(k - 1, -1) for k in o.pts]
            o.x = [a + b for a, b in zip(o.x, o.v)]
        left = list(slots)
        unmatched_init = []
        fresh = []
        was_init = {id(o): o.init for o in live}
        for phase in (True, False):
            for o in [o for o in live if was_init[id(o)] == phase]:
                if o.slot in left:
                    left.remove(o.slot)
                    self.hit(o, p, t)
                    if not phase:
                        fresh.append(o)
                elif phase:
                    unmatched_init.append(o)
        if self.fn and fresh:
            old = unmatched_init + dead
            pairs = sorted((script(self.table, n.slot, o.slot, t - o.last), i, j) for i, n in enumerate(fresh) for j, o in enumerate(old))
            un, uo = set(), set()
            for dist, i, j in pairs:
                if dist < THR and i not in un and j not in uo:
                    un.add(i)
                    uo.add(j)
                    n, o = fresh[i], old[j]
                    o.r, o.c = None, 2 * o.p0
                    o.slot, o.last, o.x, o.v, o.pts, o.once, o.det = n.slot, n.last, n.x, n.v, n.pts, n.once, None
                    self.objs.remove(n)
        for s in left:
            o = R()
            o.slot, o.last, o.c, o.r, o.p0, o.age = s, t, p, None, p, 0
            o.init = o.c > self.d
            o.once = detected(self.conf, s, t)
            o.pts = [int(b) for b in o.once]
            o.x, o.v = position(s, t), [0.0] * 4
            o.inst = o.det = None
            self.objs.append(o)

    def hit(self, o, p, t):
        o.c = min(o.c + 2 * p, self.H)
        o.r = None
        o.init = o.init or o.c > self.d
        o.last = t
        z = position(o.slot, t)
        now = detected(self.conf, o.slot, t)
        pm = max(self.pmax, o.p0)
        for k in range(2):
            if now[k]:
                o.pts[k] = min(o.pts[k] + 2 * p, pm)
            for c in (2 * k, 2 * k + 1):
                if now[k]:
                    e = z[c] - o.x[c]
                    if o.once[k]:
                        o.x[c] += 0.5 * e
                        o.v[c] += 0.25 * e
                    else:
                        o.x[c], o.v[c] = z[c], 0.0
        o.once = [a or b for a, b in zip(o.once, now)]

    def key(self):
        return (self.t % (4 if self.conf.startswith("mask") else 2), tuple(sorted((o.key(self.t) for o in self.objs), key=repr)))


def shards(tier):
    th = tier == "thorough"
    out = [("crowd", k) for k in range(12)] + [("twice", 0)]
    for conf in CONFS:
        n2, n3 = (9, 6) if th else (7, 4) if conf == "a0" else (5, 4)
        for pre in itertools.product(range(4), repeat=2):
            if pre[0] or conf == "a0":
                out.append(("seq", conf, 2, n2, pre))
        for pre in itertools.product(range(8), repeat=1):
            if pre[0]:
                out.append(("seq", conf, 3, n3, pre))
        out.append(("bfs", conf, 11 if th else 5))
        out.append(("prefix", conf, 5 if th else 3))
        out += [("stages", conf, 4 if th else 3, k) for k in ((1, 2, 3, 4, 5, 6, 8) if th else (1, 2, 3, 5))]
        for i in range(4):
            out.append(("lasso", conf, 4 if th else 3, i))
    return out


# ReID distance of newcomer i and lost object j (u between 0 and 1, all different); 1 is the threshold
CROWD = {
    "hash": lambda i, j, u, r, c: 2 * u,
    "popular": lambda i, j, u, r, c: 1.2 * j / c + u / 100,
    "chain": lambda i, j, u, r, c: np.abs(j - i - 0.6) * (1 + i / (r * 1000.0)) / 4 + u / 1e5,
}


def run_crowd(case, rec):
    """everybody returns at once"""
    _, r, c, arr, dead = case
    i, j = np.arange(r)[:, None], np.arange(c)[None, :]
    D = CROWD[arr](i, j, (((i * 301 + j + 1) * 611953) % 1000003) / 1000003.0, r, c)
    rows = D.tolist()
    tr = Tracker("euclidean", 20, hit_counter_max=3, initialization_delay=1, filter_factory=NoFilterFactory(), reid_distance_threshold=1.0, reid_hit_counter_max=9,
                 reid_distance_function=lambda new, old: rows[new.last_detection.data][old.last_detection.data])
    put = lambda n, y: [Detection(np.array([[100.0 * k, y]]), data=k) for k in range(n)]
    tr.update(put(c, 0.0))
    lost = {o.last_detection.data: o for o in tr.update(put(c, 0.0))}
    require(len(lost) == c and len(tr.tracked_objects) == c, "set-up: %d objects" % len(lost))
    ids = {k: o.id for k, o in lost.items()}
    for _ in range(4 if dead else 0):
        tr.update()
    tr.update(put(r, 50000.0))
    dets = put(r, 50000.0)
    ret = tr.update(dets)
    want, free = {}, set(range(r))
    for v, a, b in sorted((rows[a][b], a, b) for a in range(r) for b in range(c) if rows[a][b] < 1.0):
        if a in free and b not in want:
            want[b] = a
            free.discard(a)
    for k, o in lost.items():
        require(o.id == ids[k] and any(o is x for x in tr.tracked_objects), lambda: "lost object %d: id %s became %s" % (k, ids[k], o.id))
        if k in want:
            require(o.last_detection is dets[want[k]], lambda: "lost object %d of %d is %s, the closest free newcomer of %d is %d" % (k, c, o.last_detection.points.tolist(), r, want[k]))
            require(any(o is x for x in ret) and o.hit_counter == 2 and o.reid_hit_counter is None, lambda: "merged object %d: hit counter %s, ReID counter %s" % (k, o.hit_counter, o.reid_hit_counter))
        else:
            require(not any(o.last_detection is d for d in dets), lambda: "lost object %d has taken over a newcomer" % k)
    others = [o for o in tr.tracked_objects if not any(o is x for x in lost.values())]
    require(sorted(o.last_detection.data for o in others) == sorted(free) and all(o.last_detection is dets[o.last_detection.data] for o in others), lambda: "%d new objects, expected %d" % (len(others), len(free)))
    require(len({o.id for o in others} | set(ids.values())) == len(others) + c, "ids are not unique")
    rec.outcome(case + (len(want),))
    rec.step(6)


def run_twice(case, rec):
    """the same detection given several times in a frame, or equal ones"""
    _, lost, k, same, dead, delay = case
    tr = Tracker("euclidean", 20, hit_counter_max=4, initialization_delay=delay, reid_distance_threshold=1.0, reid_hit_counter_max=9,
                 reid_distance_function=lambda new, old: 0.5 + 0.01 * old.id + 0.001 * new.initializing_id)
    at = lambda x: Detection(np.array([[x, 0.0]]))
    for _ in range(delay + 1):
        old = tr.update([at(100.0 * i) for i in range(lost)])
    require(len(old) == lost, "set-up: %d objects" % len(old))
    ids = [o.id for o in old]
    for _ in range(6 if dead else 0):
        tr.update()
    for t in range(3):
        d = at(5000.0)
        tr.update([d if same else at(5000.0) for _ in range(k)])
        # the first match makes newcomers known: they are merged, one with every lost object
        new = k if t == 0 else max(k - lost, 0)
        objs = tr.tracked_objects
        require(all(any(o is x for x in objs) for o in old) and [o.id for o in old] == ids, lambda: "frame %d: a lost object disappeared or has another id" % t)
        others = [o for o in objs if not any(o is x for x in old)]
        require(len(others) == new, lambda: "frame %d: %d detections at one place, %d lost objects: %d others" % (t, k, lost, len(others)))
        if t:
            there = [o for o in objs if o.estimate[0, 0] == 5000.0]
            require(len(there) == k, lambda: "frame %d: %d of %d objects are at the detections" % (t, len(there), k))
    rec.outcome(case)
    rec.step(delay + 4)


def run_shard(shard, rec):
    kind, conf = shard[:2]
    if kind == "twice":
        for case in itertools.product(("twice",), (1, 2, 3), (1, 2, 3, 4), (0, 1), (0, 1), (1, 2)):
            rec.case(case)
        return
    if kind == "crowd":
        for n in SIZES[conf::12]:
            for r, c in ((n, n), (n, n // 2 + 1), (n // 2 + 1, n)):
                for arr in CROWD:
                    if r == c or arr == "hash" or n < 100:
                        rec.case(("crowd", r, c, arr, (r + c) % 2 if arr == "hash" else int(arr == "chain")))
        return
    if kind == "seq":
        _, _, nslot, n, pre = shard
        for w in itertools.product(range(1 << nslot), repeat=n - len(pre)):
            rec.case((conf, tuple((1, m) for m in pre + w)))
    elif kind == "lasso":
        for h in lassos(range(4), shard[2], 28, ((), (2,), (2, 2, 2))):
            if h[-1] == shard[3]:
                rec.case((conf, tuple((1 + (t % 5 == 4 and shard[2] > 3), m) for t, m in enumerate(h))))
        if conf in ("a0", "long", "mask0"):
            for h in lassos(range(8), 2, 20):
                if h[-1] % 4 == shard[3]:
                    rec.case((conf, tuple((1, m) for m in h)))
    elif kind == "stages":
        # one object is lost for k frames while another one is still detected, then all suffixes that begin with a newcomer
        for stay in (1, 2):
            for w in itertools.product(range(8), repeat=shard[2]):
                if w[0] & 4:
                    rec.case((conf, ((1, 3),) * 2 + ((1, stay),) * shard[3] + tuple((1, m) for m in w)))
    elif kind == "prefix":
        # long lived / long dead objects in front of every short suffix
        for k in (2, 3, 5):
            for gap in (1, 2, 3, 4, 5) + ((6, 7, 8, 9, 10, 11, 12) if k == 3 and conf in ("long", "a2", "nocnt2") else ()):
                for p in (1, 2) if k == 2 else (1,):
                    for w in itertools.product(range(4), repeat=shard[2]):
                        rec.case((conf, ((p, 1),) + ((1, 1),) * (k - 1) + ((1, 0),) * gap + tuple((1, m) for m in w)))
    else:
        acts = [(p, m) for p in (1, 2) for m in range(4)]

        def replay(h):
            r = Ref(conf)
            for p, m in h:
                r.frame(p, [s for s in range(3) if m >> s & 1])
            return r.key()

        frontier, seen = [()], {replay(())}
        for depth in range(shard[2]):
            nxt = []
            for h in frontier:
                for a in acts:
                    g = h + (a,)
                    k = replay(g)
                    if k in seen:
                        # still executed: every transition out of every state
                        if depth < 5:
                            rec.case((conf, g))
                        continue
                    rec.case((conf, g))
                    seen.add(k)
                    nxt.append(g)
            frontier = nxt if len(nxt) <= 20000 else nxt[:20000]
            if len(nxt) > 20000:
                rec.count("bfs_levels_truncated")
        for k in seen:
            rec.state((conf, k))


def run_case(case, rec):
    if case[0] == "crowd":
        return run_crowd(case, rec)
    if case[0] == "twice":
        return run_twice(case, rec)
    conf, hist = case
    H, d, rmax, fn, tab, pmax = CONFS[conf]
    table = TABLES[tab]
    now = [0]

    def reid(new, old):
        (ns, nt), (os_, ot) = new.last_detection.data, old.last_detection.data
        return script(table, ns, os_, now[0] - ot)

    tr = Tracker("euclidean", 450, hit_counter_max=H, initialization_delay=d, pointwise_hit_counter_max=pmax, detection_threshold=0.5,
                 filter_factory=ABFactory(), reid_distance_function=reid if fn else None, reid_distance_threshold=THR,
                 reid_hit_counter_max=rmax)
    ref = Ref(conf)
    inst = {}  # id(ref object) -> (ref object, real object)
    idof = {}
    for t, (p, m) in enumerate(hist):
        now[0] = t
        slots = [s for s in range(3) if m >> s & 1]
        dets = [Detection(np.array(position(s, t)).reshape(2, 2), scores=np.array([0.9 if b else 0.1 for b in detected(conf, s, t)]), data=(s, t)) for s in slots]
        if t % 2:
            dets.reverse()
        ret = tr.update(dets, period=p)
        ref.frame(p, slots)
        expected = set()
        for o in ref.objs:
            if id(o) not in inst:  # created in this frame
                real = [x for x in tr.tracked_objects if x.last_detection.data == (o.slot, t)]
                require(len(real) == 1 and not any(real[0] is y for _, y in inst.values()), lambda: "frame %d slot %d: %d new objects" % (t, o.slot, len(real)))
                inst[id(o)] = (o, real[0])
            x = inst[id(o)][1]
            here = any(x is y for y in tr.tracked_objects)
            if not here:
                over = (o.r is not None and o.r < 0) or (o.c < 0 and (rmax is None or not o.init))
                require(over, lambda: "frame %d slot %d: object with hit counter %d and ReID counter %s is gone" % (t, o.slot, o.c, o.r))
                continue
            if not o.init and o.c < 0:
                continue
            w = "frame %d slot %d" % (t, o.slot)
            require(x.hit_counter == o.c, lambda: "%s: hit_counter %s, expected %s" % (w, x.hit_counter, o.c))
            require(x.age == o.age, lambda: "%s: age %s, expected %s" % (w, x.age, o.age))
            require(x.is_initializing == (not o.init), lambda: "%s: is_initializing %s" % (w, x.is_initializing))
            if o.init:
                require(x.reid_hit_counter == o.r, lambda: "%s: reid_hit_counter %s, expected %s" % (w, x.reid_hit_counter, o.r))
                require(idof.setdefault(id(o), x.id) == x.id, lambda: "%s: id changed" % w)
                if o.c >= 0:
                    expected.add(id(x))
            require(x.last_detection.data == (o.slot, o.last), lambda: "%s: last detection %s, expected %s" % (w, x.last_detection.data, (o.slot, o.last)))
            require(close(x.estimate.ravel(), o.x), lambda: "%s: estimate %s, expected %s" % (w, x.estimate.ravel(), o.x))
            require(close(x.estimate_velocity.ravel(), o.v), lambda: "%s: velocity %s, expected %s" % (w, x.estimate_velocity.ravel(), o.v))
            require([bool(b) for b in x.live_points] == [k > 0 for k in o.pts], lambda: "%s: live points %s, counters %s" % (w, x.live_points, o.pts))
        mine = [y for r, y in (inst[id(o)] for o in ref.objs)]
        for x in tr.tracked_objects:
            if any(x is y for y in mine):
                continue
            require(x.is_initializing and x.hit_counter < 0, lambda: "frame %d: object id %s, hit counter %s, ReID counter %s should not exist" % (t, x.id, x.hit_counter, x.reid_hit_counter))
        require(set(map(id, ret)) == expected and len(ret) == len(expected), lambda: "frame %d: returned ids %s, expected %d objects" % (t, [o.id for o in ret], len(expected)))
    rec.outcome((conf, tuple(sorted((o.key(ref.t) for o in ref.objs), key=repr))))
    rec.state((conf, ref.key()))
    rec.step(len(hist))
