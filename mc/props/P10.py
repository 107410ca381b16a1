"""P10: filters = textbook constant-velocity model."""
import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
RULE = "distinct_nontrivial = distinct sequences of estimates of the real tracker; each is compared coordinate by coordinate with a scalar textbook filter"
BOUNDS = {
    "quick": "21 parameterisations of three filters; all sequences of 6 measurements over 3 values (packed 12-18 coordinates per"
    " object); all sequences of 5 over {full, without scores, each partial mask, nothing detected, miss} for 2 points; 2 and 3 coordinates; words of up to 2 masks and of 3 measurements repeated to 40 frames; all sequences of 4 number types of the coordinates with gaps; objects of 5 to 201 points x 3 initial subsets x all words of 2 or 3 over 3 subsets of the points and misses; filters used directly: all sequences of 5 updates with and without R and H, the last one also with R = 0 for all or some sensors",
    "thorough": "8 measurements, 7 masks, words of 3 masks repeated to 80 frames",
}
ASSUMPTIONS = [
    "R > 0, except in the last correction of a filter used directly (R = 0 makes the textbook innovation covariance singular for undetected points)",
    "for the optimized filter the textbook covariance is only required while a detection is matched in every frame, as documented in DESIGN.md",
]

OPT = [dict(), dict(R=0.1), dict(R=100.0), dict(Q=0.0), dict(Q=1.0), dict(pos_variance=1.0), dict(pos_variance=100.0, vel_variance=3.0),
       dict(pos_vel_covariance=0.5), dict(pos_vel_covariance=2.0, R=1.5, Q=0.3), dict(vel_variance=0.0)]
FPY = [dict(), dict(R=0.1), dict(R=100.0), dict(Q=0.0), dict(Q=2.0), dict(P=1.0), dict(P=0.0), dict(P=50.0, R=1.0), dict(R=0.01)]
CONFS = [("opt", i) for i in range(len(OPT))] + [("fpy", i) for i in range(len(FPY))] + [("no", 0), ("default", 0)]


def factory(conf):
    kind, i = conf
    if kind == "opt":
        return OptimizedKalmanFilterFactory(**OPT[i])
    if kind == "fpy":
        return FilterPyKalmanFilterFactory(**FPY[i])
    return NoFilterFactory()


class KF:
    """scalar textbook filter: state (x, v), covariance (p, c, w)"""

    def __init__(self, conf, z):
        kind, i = conf
        self.kind = kind
        if kind in ("opt", "default"):
            k = OPT[i] if kind == "opt" else {}
            self.r, q = k.get("R", 4.0), k.get("Q", 0.1)
            self.qp = self.qv = q
            self.p, self.c, self.w = k.get("pos_variance", 10.0), k.get("pos_vel_covariance", 0.0), k.get("vel_variance", 1.0)
        elif kind == "fpy":
            k = FPY[i]
            self.r, self.qp, self.qv = k.get("R", 4.0), 1.0, k.get("Q", 0.1)
            self.p, self.c, self.w = 1.0, 0.0, k.get("P", 10.0)
        self.x, self.v = float(z), 0.0
        self.exact = True

    def predict(self):
        if self.kind == "no":
            return
        self.x += self.v
        self.p, self.c, self.w = self.p + 2 * self.c + self.w + self.qp, self.c + self.w, self.w + self.qv

    def update(self, z, first=False):
        if self.kind == "no":
            self.x = z
            return
        s = self.p + self.r
        k, g = self.p / s, self.c / s
        e = z - self.x
        self.x += k * e
        self.v += g * e
        self.p, self.c, self.w = (1 - k) * self.p, (1 - k) * self.c, self.w - g * self.c
        if first:
            self.x, self.v = z, 0.0


def shards(tier):
    th = tier == "thorough"
    out = []
    for conf in CONFS:
        for dim in (2, 3):
            out.append(("values", conf, dim, 8 if th else 6))
        for first in (None, 0, 1, 2, 3):
            out.append(("masks", conf, 7 if th else 5, first))
        out.append(("far", conf))
        if conf[1] in (0, 8):
            for n in SIZES:
                if n <= (33 if conf[0] == "fpy" else 201):
                    out.append(("many", conf, n))
        out.append(("types", conf, 5 if th else 4))
        out.append(("lasso", conf, 3 if th else 2, 80 if th else 40))
        if conf[0] != "default":
            out.append(("direct", conf, 6 if th else 5))
    return out


def run_shard(shard, rec):
    if shard[0] == "values":
        _, conf, dim, n = shard
        seqs = list(itertools.product((0.0, 1.0, -4.0), repeat=n - 1))
        per = 6 * dim
        for i in range(0, len(seqs), per):
            chunk = seqs[i:i + per]
            while len(chunk) < per:
                chunk.append(chunk[-1])
            for mode in (0, 1):
                rec.case(("values", conf, dim, tuple(chunk), mode))
    elif shard[0] == "masks":
        _, conf, n, first = shard
        for w in itertools.product((None, 0, 1, 2, 3), repeat=n - 1):
            rec.case(("masks", conf, (first,) + w))
        # -1: a detection without scores
        for w in itertools.product((None, 0, 1, 2, 3, -1), repeat=n - (2 if conf[1] else 1)):
            if -1 in w:
                rec.case(("masks", conf, (first,) + w))
    elif shard[0] == "lasso":
        # convergence: words over {each mask, nothing, miss} repeated, after a first frame
        _, conf, k, n = shard
        for h in lassos((None, 0, 1, 2, 3, -1), k, n, ((3,), (1, 3, 3), (1, -1))):
            rec.case(("masks", conf, h))
        for w in itertools.product((0.0, 1.0, -4.0), repeat=3):
            rec.case(("values", conf, 2, ((w * n)[:n],) * 12, 0))
    elif shard[0] == "many":
        # objects of many points
        _, conf, n = shard
        for a in (0, 2, 3):
            for w in itertools.product((None, 0, 2, 4), repeat=3 if n < 20 else 2):
                for dim in (2, 3):
                    if n < 35 or dim == 2:
                        rec.case(("many", conf, n, dim, (a,) + w))
    elif shard[0] == "types":
        # the number type of the coordinates may differ from frame to frame
        _, conf, n = shard
        for first in TYPES:
            for w in itertools.product(TYPES + (None,), repeat=n - 1):
                rec.case(("types", conf, (first,) + w))
    elif shard[0] == "direct":
        for w in itertools.product(DIRECT, repeat=shard[2]):
            rec.case(("direct", shard[1], w))
            if w[-1] == "":
                # exact measurements (of all, or some sensors) come last: what follows them is singular without noise
                rec.case(("direct", shard[1], w[:-1] + ("R0",)))
                rec.case(("direct", shard[1], w[:-1] + ("R1",)))
    else:
        for scale in (1e-3, 1e4):
            for w in itertools.product((0, 1, 2), repeat=5):
                rec.case(("far", shard[1], scale, w))


TYPES = ("float64", "int64", "float32", "uint8")


# a filter used without a tracker: what is passed to update besides the measurement
DIRECT = ("", "R", "H", "RH")


def direct(conf, hist, rec):
    pts = np.array([[0.0, 10.0], [3.0, -5.0]])
    keep = pts.copy()
    f = factory(conf).create_filter(pts)
    require(f.x.shape == (8, 1) and close(f.x[:4, 0], pts.ravel()) and close(f.x[4:], 0 * f.x[4:]), "initial state of a filter")
    ref = [KF(conf, z) for z in pts.ravel()]
    for t, how in enumerate(hist):
        f.predict()
        for k in ref:
            k.predict()
        z = pts.ravel() + np.array([2.0 * t, (t % 3) - 1.0, -t * t, 0.5 * t])
        kw, on = {}, np.ones(4)
        r = np.array([0.5 + i + t for i in range(4)])
        if "0" in how:
            r = 0 * r
        elif "1" in how:
            r[1:3] = 0
        if "R" in how:
            kw["R"] = np.diag(r)
        if "H" in how:
            # a sensor misses in the last update only: the covariance of the optimized filter is documented while measured
            on = np.array([1.0, 1.0, 0.0, 1.0]) if t == len(hist) - 1 else on
            kw["H"] = np.hstack([np.diag(on), np.zeros((4, 4))])
        arr = z.reshape(4, 1)
        zk, kk = arr.copy(), {n: a.copy() for n, a in kw.items()}
        f.update(arr, **kw)
        require(np.array_equal(arr, zk) and all(np.array_equal(kw[n], kk[n]) for n in kw), "a filter modified its arguments")
        for i, k in enumerate(ref):
            if on[i]:
                r0, k.r = getattr(k, "r", None), r[i] if "R" in how else getattr(k, "r", None)
                k.update(z[i])
                k.r = r0
        want = [k.x for k in ref] + [k.v for k in ref]
        require(close(f.x[:, 0], np.array(want)), lambda: "update %d (%s): state %s, textbook %s" % (t, how or "measurement only", f.x[:, 0].tolist(), want))
        rec.state((conf, t, tuple(np.round(f.x[:, 0], 5))))
    require(np.array_equal(pts, keep), "a filter modified the detection it was created from")
    rec.step(len(hist))
    rec.outcome((conf, hist, tuple(np.round(f.x[:, 0], 5))))


def always(det, obj):
    # two objects in one run: kept apart by label
    return 0.5


def simulate(conf, frames, rec, extra_label=None):
    """frames: list of None or (points array, mask array or None). Compares at every frame."""
    kw = {} if conf[0] == "default" else dict(filter_factory=factory(conf))
    tr = Tracker(always, 1.0, hit_counter_max=100, initialization_delay=0, detection_threshold=0.5, **kw)
    ref = None
    gap = False
    prev = None
    trail = []
    for t, fr in enumerate(frames):
        dets = []
        if fr is not None:
            pts, mask = fr
            dets.append(Detection(pts.copy(), scores=None if mask is None else np.where(mask, 0.9, 0.1), label="a"))
            if t % 2 == 0:
                dets.append(Detection((1000 - 3.0 * pts).astype(pts.dtype if pts.dtype.kind != 'u' else float), scores=None if mask is None else np.where(mask, 0.1, 0.9), label="b"))
        tr.update(dets, period=50 if t == 0 else 1)
        objs = [o for o in tr.tracked_objects if o.label == "a"]
        require(len(objs) == 1, "frame %d: %d objects" % (t, len(objs)))
        o = objs[0]
        x, v = np.array(o.estimate, dtype=float), np.array(o.estimate_velocity, dtype=float)
        if ref is None:
            pts, mask = fr
            ref = [[KF(conf, z) for z in row] for row in pts]
            once = np.ones(len(pts), dtype=bool) if mask is None else mask.copy()
            require(close(x, pts) and close(v, 0 * pts), "initial estimate")
        else:
            if fr is None:
                gap = True
            now = np.zeros(len(once), dtype=bool) if fr is None else np.ones(len(once), dtype=bool) if fr[1] is None else fr[1]
            px, pv = prev
            pred = px if conf[0] == "no" else px + pv
            for i, row in enumerate(ref):
                for j, k in enumerate(row):
                    k.predict()
                    if now[i]:
                        k.update(fr[0][i, j], first=not once[i])
            if fr is None:
                require(close(x, pred) and close(v, pv), lambda: "frame %d: without detection estimate %s, expected %s; velocity %s, before %s" % (t, x.tolist(), pred.tolist(), v.tolist(), pv.tolist()))
            else:
                for i in range(len(once)):
                    if not now[i]:
                        if once[i]:
                            require(close(x[i], pred[i]) and close(v[i], pv[i]), lambda: "frame %d point %d not detected: estimate %s, expected %s" % (t, i, x[i], pred[i]))
                        continue
                    z = fr[0][i]
                    if once[i]:
                        lo, hi = np.minimum(pred[i], z), np.maximum(pred[i], z)
                        tol = 1e-6 * (1 + np.abs(z).max() + np.abs(pred[i]).max())
                        require(bool(np.all(x[i] >= lo - tol) and np.all(x[i] <= hi + tol)), lambda: "frame %d point %d: estimate %s outside [prediction %s, measurement %s]" % (t, i, x[i], pred[i], z))
            if conf[0] in ("opt", "default") and gap:
                # gain after a gap is not fixed, but it is one gain for all coordinates of a point
                for i in range(len(once)):
                    if now[i] and once[i]:
                        e = fr[0][i] - pred[i]
                        big = np.abs(e) > 1e-3
                        if big.sum() > 1:
                            k = (x[i] - pred[i])[big] / e[big]
                            g = (v[i] - pv[i])[big] / e[big]
                            require(np.ptp(k) < 1e-4 and np.ptp(g) < 1e-4 and g.min() > -1e-6, lambda: "frame %d point %d: gains %s %s" % (t, i, k, g))
                    elif now[i]:
                        require(close(x[i], fr[0][i]) and close(v[i], 0 * v[i]), "frame %d: first detection of point %d" % (t, i))
            else:
                once2 = once | now
                ex = np.array([[k.x for k in row] for row in ref])[once2]
                ev = np.array([[k.v for k in row] for row in ref])[once2]
                require(close(x[once2], ex), lambda: "frame %d: estimate %s, textbook %s" % (t, x[once2].tolist(), ex.tolist()))
                require(close(v[once2], ev), lambda: "frame %d: velocity %s, textbook %s" % (t, v[once2].tolist(), ev.tolist()))
            once |= now
        prev = (x, v)
        trail.append(tuple(np.round(x.ravel(), 6)))
        rec.state((conf, len(trail), gap, tuple(np.round(v.ravel(), 5))[:4]))
    rec.step(len(frames))
    rec.outcome((conf, tuple(trail[-3:])))


def run_case(case, rec):
    if case[0] == "values":
        _, conf, dim, seqs, mode = case
        n = len(seqs[0]) + 1
        npts = len(seqs) // dim
        frames = []
        for t in range(n):
            z = np.zeros(npts * dim) if t == 0 else np.array([s[t - 1] for s in seqs])
            if mode == 0:
                z = z + 0.5 * t
            pts = z.reshape(npts, dim) + np.arange(npts)[:, None] * 10
            # mode 1: odd points are not detected in frame 2, which still is a measurement frame
            mask = None
            if mode == 1:
                mask = np.ones(npts, dtype=bool)
                if t in (2, 3):
                    mask[1::2] = False
            frames.append((pts, mask))
        simulate(conf, frames, rec)
    elif case[0] == "masks":
        _, conf, hist = case
        frames = [(np.array([[0.0, 10.0], [3.0, -5.0]]), np.array([True, hist[0] is None]))]
        for t, m in enumerate(hist):
            pts = np.array([[2.0 * t + (t % 3), 10.0 - t * t], [3.0 + 5 * (t % 2), -5.0 - t]])
            frames.append(None if m is None else (pts, None if m == -1 else np.array([bool(m & 1), bool(m & 2)])))
        simulate(conf, frames, rec)
    elif case[0] == "many":
        _, conf, n, dim, hist = case
        frames = []
        base = np.arange(n * dim, dtype=float).reshape(n, dim)
        for t, m in enumerate(hist):
            pts = 7.0 * base + (base % 5 - 2.0) * t + (base * 3 + t * t) % 4
            mask = None if m is None or m == 0 and t % 2 else np.array([bool(patterns(n)[m] >> i & 1) for i in range(n)])
            frames.append(None if m is None else (pts, mask))
        simulate(conf, frames, rec)
    elif case[0] == "types":
        _, conf, hist = case
        frames = []
        for t, ty in enumerate(hist):
            z = np.array([[4.0 + 3 * t, 200.0 - t * t], [30.0 - 7 * t, 50.0 + t]])
            if ty is not None:
                z = (z + (0.25 if "f" in ty else 0)).astype(ty)
            frames.append(None if ty is None else (z, None))
        simulate(conf, frames, rec)
    elif case[0] == "direct":
        direct(case[1], case[2], rec)
    else:
        _, conf, scale, hist = case
        frames = [(np.array([[0.0, 1.0]]), None)]
        for t, m in enumerate(hist):
            frames.append(None if m == 2 else (np.array([[scale * (t + 1) * (1 if m else -1), 1.0 + scale * m]]), None))
        simulate(conf, frames, rec)
