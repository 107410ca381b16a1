"""P04: greedy nearest-first, one-to-one matching strictly below the threshold."""
import itertools
import math

import numpy as np

from ..common import *

LEVEL = "model_checking"
RULE = (
    "a case is a complete matrix of distances between the detections and the objects of one update of the real "
    "tracker; the set of matches must be a greedy matching (ties may be broken either way); distinct_nontrivial = "
    "distinct (split, match set) outcomes"
)
BOUNDS = {
    "quick": "all 1x1..3x3 matrices over small alphabets with ties, zero, threshold, infinity, negative and NaN entries, all"
    " orders of 6 entries of 2x3/3x2, every split initialized/initializing, 12 thresholds, distances around 7 thresholds at double precision, and all positions on a line for a"
    " vectorized distance; 5 decisive frames after all histories of 5 frames of two objects and after short words repeated for 10 to"
    " 21 frames, for 3 configurations; 100 to 300 objects and detections at once in 6 orders;"
    " complete matrices of distinct distances with 5 to 301 objects and detections (45 sizes, equal and 2:1), 5 arrangements of who competes"
    " for whom, 3 splits",
    "thorough": "3x3 over 4 values, all 9! orders of 3x3, 2x4/4x2 matrices",
}
ASSUMPTIONS = ["distances are numbers of double precision"]
CASE_TIMEOUT = 10.0
INF = math.inf
NAN = "nan"
OLD, NEW = "old", "new"


def shards(tier):
    th = tier == "thorough"
    out = []
    # (rows, cols, n_init, threshold, alphabet, first entries)
    def add(r, c, thr, alpha, split_first=True):
        for ninit in range(c + 1):
            if split_first and r * c >= 4:
                for a in alpha:
                    out.append(("mat", r, c, ninit, thr, alpha, (a,)))
            else:
                out.append(("mat", r, c, ninit, thr, alpha, ()))

    full = (0.0, 1.0, 2.0, 3.0, INF)
    for r, c in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)):
        add(r, c, 3.0, full + (-1.0, 4.0), r * c >= 4)
    for r, c in ((2, 3), (3, 2)):
        add(r, c, 3.0, (0.0, 1.0, 2.0, 3.0) if not th else full)
    add(3, 3, 2.5, (1.0, 2.0, 3.0))
    for thr in (0.0, -1.0, INF, 1e17, 100000001.0, 16777216.0, 1e-30, 3e38, 1e39, 1.5, 0.5, 1e300):
        lo = thr * 0.5 if 0 < thr < INF else (0.0 if thr > 0 else thr - 1)
        add(2, 2, thr, (lo, lo / 2 if lo > 0 else lo - 1, 0.0, INF) if thr != INF else (0.0, 7.0, 1e30, INF), False)
        add(3, 2, thr, (lo, INF), False)
    # distances that differ by little from the threshold or from each other
    for thr in (0.7, 0.1, 1.0 / 3.0, 1.0 + 1e-9, 16777217.0, 1e-46, 1e39):
        up, down = math.nextafter(thr, INF), math.nextafter(thr, 0.0)
        add(2, 2, thr, (thr, down, down * (1 - 1e-10), 0.5 * thr, up), False)
        add(1, 3, thr, (thr, down, down * (1 - 1e-10), 0.5 * thr, up), False)
    for r, c in ((1, 1), (1, 2), (2, 1), (2, 2)):
        add(r, c, 3.0, (1.0, 2.0, INF, NAN), False)
    for r, c in ((2, 3), (3, 2), (1, 6), (6, 1)):
        for ninit in range(c + 1):
            for first in range(6) if r * c == 6 and r in (2, 3) else [None]:
                out.append(("perm", r, c, ninit, first))
    out.append(("labels",))
    for cfg in HCONF:
        for first in range(1, 4):
            out.append(("hist", cfg, 6 if th else 5, first))
        out.append(("lasso", cfg, 40 if th else 21))
    for nd in (1, 2, 3):
        out.append(("line", 2, nd))
    for n in (100, 127, 128, 129, 255, 256, 257, 300) + ((600, 1100) if th else ()):
        out.append(("crowd", n))
    for k in range(24):
        out.append(("dense", k))
    if th:
        add(2, 4, 2.5, (1.0, 2.0, 3.0))
        add(4, 2, 2.5, (1.0, 2.0, 3.0))
        add(3, 3, 3.5, (1.0, 2.0, 3.0, 4.0))
        for ninit in (0, 2, 3):
            for a in range(9):
                for b in range(9):
                    if a != b:
                        out.append(("perm9", ninit, a, b))
        for nd in (1, 2, 3):
            out.append(("line", 3, nd))
    return out


def run_shard(shard, rec):
    kind = shard[0]
    if kind == "mat":
        _, r, c, ninit, thr, alpha, pre = shard
        for w in itertools.product(alpha, repeat=r * c - len(pre)):
            rec.case((r, c, ninit, thr, pre + w, None, None))
    elif kind == "perm":
        _, r, c, ninit, first = shard
        for w in itertools.permutations((1.0, 2.0, 3.0, 4.0, 5.0, 6.0)):
            if first is None or w[0] == first + 1:
                rec.case((r, c, ninit, 7.0, w, None, None))
                if w[0] == 1.0:
                    rec.case((r, c, ninit, 4.0, w, None, None))
    elif kind == "perm9":
        _, ninit, a, b = shard
        rest = [float(x) for x in range(9) if x not in (a, b)]
        for w in itertools.permutations(rest):
            rec.case((3, 3, ninit, 6.5, (float(a), float(b)) + w, None, None))
    elif kind == "labels":
        for dl in itertools.product("xy", repeat=2):
            for ol in itertools.product("xy", repeat=2):
                for ninit in range(3):
                    for w in itertools.product((1.0, 2.0, 3.0), repeat=4):
                        rec.case((2, 2, ninit, 2.5, w, dl, ol))
    elif kind == "hist":
        _, cfg, n, first = shard
        for w in itertools.product(range(4), repeat=n - 1):
            for m in FINAL:
                rec.case(("hist", cfg, (first,) + w, m))
    elif kind == "lasso":
        # objects of any age: short words repeated over and over
        _, cfg, n = shard
        for k in (1, 2, 3):
            for w in itertools.product(range(4), repeat=k):
                for m in FINAL:
                    for len_ in (n, n - 1, n // 2):
                        rec.case(("hist", cfg, (3,) + (w * n)[:len_], m))
    elif kind == "crowd":
        n = shard[1]
        for name in ("euclidean", "mean_manhattan", "iou"):
            if name == "mean_manhattan" and n > 300:
                continue
            for delay in (0, 1):
                for order in ("same", "reversed", "rotated", "last only", "first only", "shifted"):
                    if name == "euclidean" or order in ("rotated", "shifted"):
                        rec.case(("crowd", name, n, delay, order))
    elif kind == "dense":
        for n in SIZES[shard[1]::24]:
            for r, c in ((n, n), (n, n // 2 + 1), (n // 2 + 1, n)):
                for arr in DENSE:
                    for ninit in (c, c // 2, 0) if arr == "hash" else (c,):
                        rec.case(("dense", r, c, arr, ninit))
    elif kind == "line":
        _, nobj, ndet = shard
        grid = range(5)
        for po in itertools.product(grid, repeat=nobj):
            for pd in itertools.product(grid, repeat=ndet):
                for name in ("euclidean", "frobenius"):
                    for unit in (1.0, 0.1) if nobj == 2 else (1.0,):
                        rec.case(("line", name, po, pd, unit))


def check_round(rows, cols, d, thr, matches, what):
    """matches: dict row -> col restricted to this round's rows and cols"""
    used = {}
    for i, j in matches.items():
        require(d(i, j) < thr, lambda: "%s: pair (%s,%s) matched at distance %s, threshold %s" % (what, i, j, d(i, j), thr))
        require(j not in used, lambda: "%s: object %s matched twice" % (what, j))
        used[j] = i
    for i in rows:
        for j in cols:
            v = d(i, j)
            if v < thr and matches.get(i) != j:
                ok = (i in matches and d(i, matches[i]) <= v) or (j in used and d(used[j], j) <= v)
                require(ok, lambda: "%s: detection %s and object %s at distance %s (threshold %s) unmatched though neither has a closer match: %s"
                        % (what, i, j, v, thr, matches))


def observe(tr, dets, objs):
    """matches det index -> object index, from last_detection"""
    matches = {}
    for j, o in enumerate(objs):
        for i, x in enumerate(dets):
            if o.last_detection is x:
                require(i not in matches, lambda: "detection %d matched by two objects" % i)
                matches[i] = j
    return matches


def run_case(case, rec):
    if case[0] == "line":
        return run_line(case, rec)
    if case[0] == "hist":
        return run_hist(case, rec)
    if case[0] == "crowd":
        return run_crowd(case, rec)
    if case[0] == "dense":
        return run_dense(case, rec)
    r, c, ninit, thr, flat, dl, ol = case
    D = [[math.nan if v == NAN else v for v in flat[i * c:(i + 1) * c]] for i in range(r)]
    phase = [0]
    nan_seen = [False]
    hidx = {}

    def dist(det, obj):
        if phase[0] == 0:
            return -INF if det.data == obj.last_detection.data else INF
        v = D[det.data][obj.last_detection.data[1]]
        if v != v:
            nan_seen[0] = True
        return v

    tr = Tracker(dist, thr, hit_counter_max=5, initialization_delay=1, filter_factory=NoFilterFactory())
    lab = lambda j: ol[j] if ol else None
    mk = lambda j: Detection(np.array([[float(j), 0.0]]), data=(OLD, j), label=lab(j))
    # -inf is below every threshold but -inf itself, so the set-up matches are certain
    if ninit:
        tr.update([mk(j) for j in range(ninit)])
    olds = [mk(j) for j in range(c)]
    tr.update(olds)
    objs = [None] * c
    for o in tr.tracked_objects:
        j = o.last_detection.data[1]
        require(objs[j] is None, "set-up: duplicate object")
        objs[j] = o
        require(o.is_initializing == (j >= ninit), "set-up: wrong initialization")
    phase[0] = 1
    dets = [Detection(np.array([[float(i), 1.0]]), data=i, label=dl[i] if dl else None) for i in range(r)]
    before = [o.hit_counter for o in objs]
    try:
        tr.update(list(dets))
        raised = False
    except ValueError:
        raised = True
    same = lambda i, j: not dl or dl[i] == ol[j]
    nan1 = any(D[i][j] != D[i][j] and same(i, j) for i in range(r) for j in range(ninit))
    if raised or nan_seen[0] or nan1:
        require(raised, "NaN distance accepted")
        require(nan_seen[0], "update raised ValueError without a NaN distance")
        rec.outcome(("nan",))
        rec.step()
        return
    d = lambda i, j: D[i][j] if same(i, j) else INF
    matches = observe(tr, dets, objs)
    m1 = {i: j for i, j in matches.items() if j < ninit}
    m2 = {i: j for i, j in matches.items() if j >= ninit}
    check_round(range(r), range(ninit), d, thr, m1, "initialized objects")
    check_round([i for i in range(r) if i not in m1], range(ninit, c), d, thr, m2, "initializing objects")
    inv = {j: i for i, j in matches.items()}
    for j, o in enumerate(objs):
        if j in inv:
            require(o.last_distance == D[inv[j]][j], lambda: "last_distance %s, distance %s" % (o.last_distance, D[inv[j]][j]))
            require(o.hit_counter == min(before[j] + 1, 5), lambda: "hit counter of matched object %s" % o.hit_counter)
        else:
            require(o.last_detection is olds[j], "unmatched object changed its last detection")
            require(o.hit_counter == before[j] - 1, lambda: "hit counter of unmatched object %s" % o.hit_counter)
    new = [o for o in tr.tracked_objects if not any(o is x for x in objs)]
    got = sorted(i for i, x in enumerate(dets) for o in new if o.last_detection is x)
    require(got == [i for i in range(r) if i not in matches] and len(new) == len(got), lambda: "new objects for detections %s, unmatched were %s" % (got, [i for i in range(r) if i not in matches]))
    rec.outcome((r, c, ninit, tuple(sorted(matches.items()))))
    rec.state((r, c, ninit, tuple(tuple(str(d(i, j) < thr) for j in range(c)) for i in range(r)), tuple(sorted(matches.items()))))
    rec.step()


# (hit_counter_max, initialization_delay): with the first two an object seen every other frame initializes for ever
HCONF = [(2, 1), (4, 3), (3, 0)]
# distances of one or two detections to the objects A and B
FINAL = [((1.0, 2.0),), ((2.0, 1.0),), ((2.0, 3.0), (1.0, 2.0)), ((1.0, 2.0), (2.0, 1.0)), ((5.0, 2.0), (1.0, 3.0))]


def run_hist(case, rec):
    """the rules hold whatever happened to the objects before"""
    _, (H, delay), word, final = case
    thr = 4.0
    phase = [0]

    def dist(det, obj):
        if phase[0] == 0:
            return 0.0 if det.data == obj.last_detection.data else INF
        return final[det.data]["AB".index(obj.last_detection.data)]

    tr = Tracker(dist, thr, hit_counter_max=H, initialization_delay=delay, filter_factory=NoFilterFactory())
    for m in word:
        tr.update([Detection(np.array([[float(k), 0.0]]), data="AB"[k]) for k in range(2) if m >> k & 1])
    objs = {}
    for o in tr.tracked_objects:
        if o.hit_counter >= 0:
            k = "AB".index(o.last_detection.data)
            require(k not in objs, "set-up: two objects for one thing")
            objs[k] = (o, o.is_initializing, o.last_detection)
    phase[0] = 1
    dets = [Detection(np.array([[float(i), 1.0]]), data=i) for i in range(len(final))]
    tr.update(list(dets))
    matches = {}
    for j, (o, _, last) in objs.items():
        for i, x in enumerate(dets):
            if o.last_detection is x:
                require(i not in matches, "detection %d matched by two objects" % i)
                matches[i] = j
    d = lambda i, j: final[i][j]
    ini = [j for j in objs if not objs[j][1]]
    m1 = {i: j for i, j in matches.items() if j in ini}
    check_round(range(len(dets)), ini, d, thr, m1, "initialized objects")
    check_round([i for i in range(len(dets)) if i not in m1], [j for j in objs if j not in ini], d, thr, {i: j for i, j in matches.items() if j not in ini}, "initializing objects")
    for i, j in matches.items():
        require(objs[j][0].last_distance == final[i][j], "last_distance %s, distance %s" % (objs[j][0].last_distance, final[i][j]))
    rec.outcome((H, delay, tuple(sorted(objs)), tuple(ini), final, tuple(sorted(matches.items()))))
    rec.step(len(word) + 1)


def run_crowd(case, rec):
    """many detections and objects at once"""
    _, name, n, delay, order = case
    tr = Tracker(name, 0.7 if name == "iou" else 4.0, hit_counter_max=5, initialization_delay=delay, filter_factory=NoFilterFactory())

    def mk(x, i):
        pts = [[x, 1.0], [x + 9.0, 11.0]] if name == "iou" else [[x, 1.0]]
        return Detection(np.array(pts), data=i)

    tr.update([mk(20.0 * k, k) for k in range(n)])
    objs = {o.last_detection.data: o for o in tr.tracked_objects}
    require(len(objs) == n and len(tr.tracked_objects) == n, "set-up: %d objects for %d detections" % (len(objs), n))
    ks = {"same": range(n), "reversed": range(n)[::-1], "rotated": [(k + n // 3) % n for k in range(n)], "last only": [n - 1], "first only": [0],
          "shifted": range(1, n - 1)}[order]
    # "shifted": everything moves by 3 and the first and last thing have no counterpart
    dx = 3.0 if order == "shifted" else 0.5
    given = [mk(-500.0, n)] + [mk(20.0 * k + dx, k) for k in ks] + [mk(20.0 * n + 500.0, n + 1)]
    tr.update(list(given))
    seen = set(ks)
    for k, o in objs.items():
        require(o.last_detection.data == k, lambda: "object %d matched the detection of %s" % (k, o.last_detection.data))
        require(any(o.last_detection is d for d in given) == (k in seen), lambda: "object %d: %s" % (k, "not matched" if k in seen else "keeps another detection"))
        if k in seen and name != "iou":
            require(close(o.last_distance, dx, 1e-4), lambda: "last_distance %s, distance %s" % (o.last_distance, dx))
    new = [o for o in tr.tracked_objects if not any(o is x for x in objs.values())]
    require(sorted(o.last_detection.data for o in new) == [n, n + 1], "new objects for the wrong detections")
    rec.outcome(("crowd", name, n, delay, order))
    rec.step(2)


# distances of detection i and object j, all different (u is between 0 and 1); 5 is the threshold
DENSE = {
    "hash": lambda i, j, u, r, c: 10 * u,
    "few detections are everybody's nearest": lambda i, j, u, r, c: 6.0 * i / r + u / 100,
    "few objects are everybody's nearest": lambda i, j, u, r, c: 6.0 * j / c + u / 100,
    "chain": lambda i, j, u, r, c: np.abs(j - i - 0.6) * (1 + i / (r * 1000.0)) + u / 1e5,
    "band": lambda i, j, u, r, c: np.where((i * 3 + j) % 7 < 2, 4 * u, 5 + u),
}


def run_dense(case, rec):
    """everybody competes with everybody"""
    _, r, c, arr, ninit = case
    i, j = np.arange(r)[:, None], np.arange(c)[None, :]
    u = (((i * 301 + j + 1) * 611953) % 1000003) / 1000003.0
    D = DENSE[arr](i, j, u, r, c)
    phase = [0]

    rows = D.tolist()

    def dist(det, obj):
        if phase[0] == 0:
            return -INF if det.data == obj.last_detection.data else INF
        return rows[det.data][obj.last_detection.data]

    tr = Tracker(dist, 5.0, hit_counter_max=5, initialization_delay=1, filter_factory=NoFilterFactory())
    if ninit:
        tr.update([Detection(np.array([[float(k), 0.0]]), data=k) for k in range(ninit)])
    tr.update([Detection(np.array([[float(k), 0.0]]), data=k) for k in range(c)])
    objs = {o.last_detection.data: o for o in tr.tracked_objects}
    require(len(objs) == c and len(tr.tracked_objects) == c, "set-up: %d objects for %d detections" % (len(tr.tracked_objects), c))
    for k, o in objs.items():
        require(o.is_initializing == (k >= ninit), "set-up: wrong initialization")
    before = {k: o.last_detection for k, o in objs.items()}
    phase[0] = 1
    dets = [Detection(np.array([[float(k), 1.0]]), data=k) for k in range(r)]
    tr.update(list(dets))
    want, free = {}, set(range(r))
    for cols in (range(ninit), range(ninit, c)):
        pairs = sorted((D[a, b], a, b) for a in free for b in cols if D[a, b] < 5.0)
        for v, a, b in pairs:
            if a in free and b not in want:
                want[b] = a
                free.discard(a)
    for k, o in objs.items():
        if k in want:
            require(o.last_detection is dets[want[k]], lambda: "object %d: matched %s, expected detection %d" % (k, o.last_detection.data, want[k]))
            require(o.last_distance == D[want[k], k], "last_distance")
        else:
            require(o.last_detection is before[k], lambda: "object %d matched though every detection near it has a closer object" % k)
    new = [o.last_detection.data for o in tr.tracked_objects if o is not objs.get(o.last_detection.data) and not any(o is x for x in objs.values())]
    require(sorted(new) == sorted(free), lambda: "new objects for detections %s, unmatched were %s" % (sorted(new), sorted(free)))
    rec.outcome(("dense", r, c, arr, ninit, len(want)))
    rec.step()


def run_line(case, rec):
    _, name, po, pd, unit = case
    thr = 2.0 * unit
    po, pd = [unit * x for x in po], [unit * x for x in pd]
    tr = Tracker(name, thr, hit_counter_max=5, initialization_delay=0, filter_factory=NoFilterFactory())
    olds = [Detection(np.array([[float(x), 1.0]])) for x in po]
    tr.update(olds)
    objs = [None] * len(po)
    for o in tr.tracked_objects:
        objs[[o.last_detection is x for x in olds].index(True)] = o
    dets = [Detection(np.array([[float(x), 1.0]])) for x in pd]
    tr.update(dets)
    matches = observe(tr, dets, objs)
    d = lambda i, j: float(abs(po[j] - pd[i]))
    check_round(range(len(pd)), range(len(po)), d, thr, matches, name)
    for i, j in matches.items():
        require(close(objs[j].last_distance, d(i, j)), "last_distance")
    require(len(tr.tracked_objects) == len(po) + len(pd) - len(matches), "number of objects")
    rec.outcome((name, tuple(sorted(matches.items()))))
    rec.state((tuple(po), tuple(pd), tuple(sorted(matches.items()))))
    rec.step()
