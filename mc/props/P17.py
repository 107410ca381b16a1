"""P17: coordinate transformations invert each other; transformation getters accumulate motion over reference changes."""
import itertools
import math

import cv2
import numpy as np

from ..common import *
from norfair.camera_motion import HomographyTransformation, HomographyTransformationGetter, TranslationTransformationGetter

LEVEL = "model_checking"
TECH = "exhaustive exploration of motion/outlier sequences on the real getters against a reference model of (reference frame, pose)"
RULE = "one execution = one transformation applied to one point set in all four orders, or one getter history; states = (configuration, reference pose, pose) of the model; distinct outcomes = distinct sequences of reference changes and results"
BOUNDS = {
    "quick": "449 homographies and 35 translations x all lists of 0..3 of 5 points (float, int); translation getter: all histories of 4 calls over 4 camera motions x 4 outlier"
    " proportions, 4 configurations, all partitions of 1 to 6 points in up to 4 groups of different motion; homography getter: all histories of 3 calls over 4 poses x 3 outlier proportions (and lists too short or of 4 to 6 points), 2 configurations;"
    " 5 to 301 points (45 sizes) for 6 transformations and for histories of 3 calls of the getters, with camera motions up to 5000 pixels",
    "thorough": "histories of 5 (translation) and 4 (homography) calls",
}
ASSUMPTIONS = ["flows fed to the getters are exact except for the stated outliers; outliers agree with nothing", "points are not mapped to infinity"]

PTS = [(0.0, 0.0), (10.0, -3.0), (300.0, 200.0), (0.5, 1.25), (-40.0, 7.0)]
MOVES = list(itertools.product((-250.0, -0.4, 0.0, 3.0, 1e5), (-7.5, -1.0, 0.0, 2.0, 0.25, 1e-3, 640.0)))


def homographies():
    out = []
    for a, d in itertools.product((1.0, -0.5, 2.0), repeat=2):
        for b, c in itertools.product((0.0, 0.3), repeat=2):
            for tx, ty in ((0.0, 0.0), (-7.0, 120.0), (35.5, -2.0)):
                for p, q in ((0.0, 0.0), (0.001, -0.0005)):
                    for s in (1.0, 2.0):
                        if abs(a * d - b * c) > 0.05:
                            out.append(((a, b, tx), (c, d, ty), (p, q, s)))
    # unusual but invertible: last entry zero or negative, mirrored, axes exchanged
    out += [
        ((1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.0, 1.0, 0.0)),
        ((0.0, 0.0, 5.0), (0.0, 1.0, 0.0), (1.0, 0.0, 0.0)),
        ((0.0, 1.0, 3.0), (1.0, 0.0, -2.0), (0.0, 0.0, 1.0)),
        ((1.0, 0.0, 4.0), (0.0, 1.0, 2.0), (0.0, 0.0, -1.0)),
        ((-1.0, 0.0, 4.0), (0.0, -1.0, 2.0), (0.0, 0.0, -2.0)),
        ((1e-3, 0.0, 4.0), (0.0, 1e-3, 2.0), (1e-5, 0.0, 1e-3)),
        ((500.0, 0.0, 4.0), (0.0, 700.0, 2.0), (0.0, 0.5, 100.0)),
        ((2.0, 1.0, 0.0), (1.0, 0.0, 1.0), (0.5, 0.75, 0.0)),
    ]
    return out


# far away from the origin: what is rounded must not reach the pixels
FAR = [((a, b, tx), (-b, a, ty), (0.0, 0.0, 1.0)) for a, b in ((1.0, 0.0), (0.75, 0.5), (0.0, 2.0)) for tx, ty in ((1e5, 3e4), (-3e6, 12.5), (1e-7, -4e5))]


def hom(H, p):
    x, y = p
    r = [row[0] * x + row[1] * y + row[2] for row in H]
    return (r[0] / r[2], r[1] / r[2])


def check_transform(case, rec):
    _, kind, par, pts, dt = case
    arr = np.array(pts, dtype=dt).reshape(len(pts), 2)
    keep = arr.copy()
    if kind == "t":
        param = np.array(par)
        T = TranslationTransformation(param)
        want = [(x + par[0], y + par[1]) for x, y in arr.tolist()]
        back = [(x - par[0], y - par[1]) for x, y in arr.tolist()]
    else:
        param = np.array(par)
        T = HomographyTransformation(param)
        want = [hom(par, p) for p in arr.tolist()]
        inv = np.linalg.inv(np.array(par)).tolist()
        back = [hom(inv, p) for p in arr.tolist()]
    pkeep = param.copy()
    far = kind == "h" and par in FAR
    for fn, gn, w, name in ((T.abs_to_rel, T.rel_to_abs, want, "abs_to_rel"), (T.rel_to_abs, T.abs_to_rel, back, "rel_to_abs")):
        got = np.asarray(fn(arr))
        require(got.shape == (len(pts), 2), lambda: "%s of %d points has shape %s" % (name, len(pts), got.shape))
        require(np.array_equal(arr, keep) and np.array_equal(param, pkeep), "%s modified its argument" % name)
        if len(pts):
            require(close(got, np.array(w), 1e-7), lambda: "%s of %s is %s, not %s" % (name, keep.tolist(), got.tolist(), w))
        k2 = got.copy()
        rt = np.asarray(gn(got))
        require(close(rt, keep, 1e-6), lambda: "there and back (%s first): %s became %s" % (name, keep.tolist(), rt.tolist()))
        require(np.array_equal(got, k2), "transformation modified its argument")
        if far and len(pts):
            require(np.abs(rt - keep).max() < 1e-7, lambda: "there and back (%s first): %s became %s" % (name, keep.tolist(), rt.tolist()))
    # the same array again, with other contents
    buf = arr.astype(float)
    for fn, gn in ((T.abs_to_rel, T.rel_to_abs), (T.rel_to_abs, T.abs_to_rel)):
        there = []
        for shift in (0.0, 3.25):
            buf[:] = keep + shift
            there.append(np.array(fn(buf)))
        for shift, g in zip((0.0, 3.25), there):
            rt = np.asarray(gn(g))
            require(close(rt, keep + shift, 1e-6), lambda: "an array given again with other contents: %s came back as %s" % ((keep + shift).tolist(), rt.tolist()))
    rec.outcome((kind, par, len(pts)))


def check_points(case, rec):
    """many points at once"""
    _, kind, par, n = case
    k = np.arange(n)
    pts = np.stack([300.0 * np.abs(np.sin(k * 12.9898)), 200.0 * np.abs(np.cos(k * 4.1414))], axis=1)
    T = TranslationTransformation(np.array(par)) if kind == "t" else HomographyTransformation(np.array(par))
    inv = None if kind == "t" else np.linalg.inv(np.array(par))
    ahead = pts + np.array(par) if kind == "t" else warp(np.array(par), pts)
    behind = pts - np.array(par) if kind == "t" else warp(inv, pts)
    keep = pts.copy()
    a, b = np.asarray(T.abs_to_rel(pts)), np.asarray(T.rel_to_abs(pts))
    require(np.array_equal(pts, keep), "a transformation modified its argument")
    require(close(a, ahead, 1e-7), lambda: "abs_to_rel of %d points" % n)
    require(close(b, behind, 1e-7), lambda: "rel_to_abs of %d points" % n)
    require(close(T.rel_to_abs(a), pts, 1e-7) and close(T.abs_to_rel(b), pts, 1e-7), lambda: "there and back with %d points" % n)
    rec.outcome(case)


BIGMOVES = [(0.0, 0.0), (517.4, -2048.6), (-3.2, 4999.8), (120.2, 777.6), (-2751.0, 33.4)]


def check_many(case, rec):
    """getters fed with many points, and with large motions"""
    _, kind, n, conf, seq = case
    k = np.arange(n)
    base = np.stack([61.0 * (k % 17) + 7 * ((k * k) % 5), 53.0 * (k // 17) + 11 * (k % 3)], axis=1).astype(float)
    thr = (TCONF if kind == "t" else HCONF)[conf][-2 if kind == "t" else 1]
    g = TranslationTransformationGetter(**TCONF[conf][0]) if kind == "t" else HomographyTransformationGetter(**HCONF[conf][0])
    limit = int(n * (1 - thr) + 1e-9)
    pose, ref = np.eye(3), np.eye(3)
    changes = []
    for m, o in seq:
        if kind == "t":
            pose = pose.copy()
            pose[:2, 2] += BIGMOVES[m]
        else:
            pose = POSES[m]
        bad = (0, limit, limit + 1, n // 4, n - max(2, n // 8))[o]
        prev, curr = warp(ref, base), warp(pose, base)
        step = next(s for s in (7, 11, 13, 17) if n % s)
        for i in range(bad):
            # outliers agree with nobody
            curr[(step * i + m) % n] += (31.0 + 7 * i) * np.array([math.cos(2.4 * i), math.sin(2.4 * i)])
        if kind == "h":
            prev, curr = prev.astype("float32"), curr.astype("float32")
        upd, T = g(curr, prev)
        want = (n - bad) / n < thr
        require(bool(upd) == want, lambda: "%d of %d points agree (threshold %s): reference %sreplaced" % (n - bad, n, thr, "" if upd else "not "))
        err = np.abs(np.asarray(T.abs_to_rel(base)) - warp(pose, base)).max()
        require(err < (2e-3 if kind == "t" else 0.3), lambda: "%d points: points of the first frame are mapped %s px off" % (n, err))
        if want:
            ref = pose
        changes.append(want)
        rec.step()
    rec.outcome((kind, n, conf, tuple(changes)))


# --- translation getter
TMOVES = [(0.0, 0.0), (3.0, -2.0), (-0.4, 7.6), (120.0, 5.0)]
TCONF = {  # arguments, effective (bin, threshold), numbers of outliers among 10 points
    "default": (dict(), 0.2, 0.9, (0, 1, 2, 6)),
    "half": (dict(proportion_points_used_threshold=0.5), 0.2, 0.5, (0, 4, 5, 6)),
    "bin": (dict(bin_size=0.1, proportion_points_used_threshold=0.8), 0.1, 0.8, (0, 2, 3, 5)),
    "all": (dict(bin_size=0.05, proportion_points_used_threshold=1.0), 0.05, 1.0, (0, 1, 2, 3)),
}
BASE = np.array([[17.0 * (i % 4), 23.0 * (i // 4) + i] for i in range(10)])


def check_translation(case, rec):
    _, conf, dt, seq = case
    kw, bin_, thr, outs = TCONF[conf]
    g = TranslationTransformationGetter(**kw)
    pose, ref = np.zeros(2), np.zeros(2)
    got, changes = [], []
    slack = 0.0
    for m, k in seq:
        pose = pose + np.array(TMOVES[m])
        # the frame shows the scene displaced by pose; flow is measured against the reference frame
        prev = (BASE + ref).astype(dt)
        curr = BASE + pose
        for i in range(outs[k]):
            curr[(3 * i + m) % 10] += np.array([31.0 + 7 * i, -19.0 - 5 * i])
        curr = curr.astype(dt)
        c0, p0 = curr.copy(), prev.copy()
        upd, T = g(curr, prev)
        require(np.array_equal(c0, curr) and np.array_equal(p0, prev), "the getter modified the points")
        want = (10 - outs[k]) / 10 < thr
        require(bool(upd) == want, lambda: "%d of 10 points agree (threshold %s): reference %sreplaced" % (10 - outs[k], thr, "" if upd else "not "))
        # one rounding to the bin per reference change (motions here are multiples of the bin up to float error)
        res = np.asarray(T.abs_to_rel(BASE)) - BASE
        require(np.abs(res - pose).max() < 2e-3, lambda: "transformation moves by %s, the camera moved by %s" % (res[0].tolist(), pose.tolist()))
        got.append((T, pose))
        if want:
            ref = pose
        changes.append(want)
        rec.step()
        rec.state((conf, tuple(np.round(ref, 3)), tuple(np.round(pose, 3))))
    for T, p in got:
        require(np.abs(np.asarray(T.rel_to_abs(BASE)) - BASE + p).max() < 2e-3, "a transformation returned earlier changed")
    rec.outcome((conf, tuple(changes), tuple(np.round(pose, 2))))


def check_modes(case, rec):
    """groups of points with different motions: the largest one (or one of the largest ones) is followed"""
    _, conf, dt, groups = case
    kw, bin_, thr, _ = TCONF[conf]
    g = TranslationTransformationGetter(**kw)
    ref = np.zeros(2)
    n = sum(map(len, groups[0]))
    base = np.array([[17.0 * (i % 4), 23.0 * (i // 4) + i] for i in range(n)])
    for frame in groups:
        flow = np.zeros((n, 2))
        for i, members in enumerate(frame):
            flow[list(members)] = FLOWS[i]
        upd, T = g((base + flow).astype(dt), base.astype(dt))
        most = max(map(len, frame))
        got = np.asarray(T.abs_to_rel(base)) - base
        ok = [ref + FLOWS[i] for i, members in enumerate(frame) if len(members) == most]
        require(any(np.abs(got - f).max() < 2e-3 for f in ok), lambda: "motions %s of %s points: the camera is said to move by %s" % ([list(FLOWS[i]) for i in range(len(frame))], list(map(len, frame)), (got[0] - ref).tolist()))
        require(bool(upd) == (most / n < thr), lambda: "%d of %d points agree (threshold %s): reference %sreplaced" % (most, n, thr, "" if upd else "not "))
        if upd:
            ref = got[0]
        rec.step()
        rec.state((conf, tuple(np.round(ref, 3))))
    rec.outcome((conf, tuple(tuple(map(len, f)) for f in groups)))


FLOWS = np.array([(10.0, 0.0), (0.0, 30.0), (-4.0, -4.0), (9.6, 0.4)])


def partitions(n, k):
    """all ways to put points 0..n-1 into at most k groups"""
    for w in itertools.product(range(k), repeat=n):
        if all(w[i] <= max(w[:i], default=-1) + 1 for i in range(n)):
            yield tuple(tuple(i for i in range(n) if w[i] == j) for j in range(max(w) + 1))


# --- homography getter
POSES = [
    np.eye(3),
    np.array([[1.0, 0.0, 12.0], [0.0, 1.0, -8.0], [0.0, 0.0, 1.0]]),
    np.array([[0.95, -0.1, 30.0], [0.08, 1.05, -4.0], [0.0, 0.0, 1.0]]),
    np.array([[1.1, 0.05, -20.0], [-0.02, 0.9, 16.0], [0.0003, -0.0002, 1.0]]),
]
HGRID = np.array([[60.0 * (i % 8) + 7 * ((i * i) % 5), 70.0 * (i // 8) + 11 * (i % 3)] for i in range(40)])
FEW = np.array([[20.0, 30.0], [400.0, 50.0], [380.0, 310.0], [35.0, 290.0], [210.0, 120.0], [150.0, 260.0]])
HCONF = {"default": (dict(), 0.9, (0, 4, 5)), "half": (dict(proportion_points_used_threshold=0.7, ransac_reproj_threshold=4, max_iters=3000, confidence=0.999), 0.7, (0, 12, 13))}


def warp(H, pts):
    h = np.hstack([pts, np.ones((len(pts), 1))]) @ H.T
    return h[:, :2] / h[:, 2:]


def check_homography(case, rec):
    _, conf, seq = case
    kw, thr, outs = HCONF[conf]
    g = HomographyTransformationGetter(**kw)
    ref = np.eye(3)
    changes, got = [], []
    replaced = False
    for step in seq:
        if step[0] == "few":
            n = step[1]
            args = (None, None) if n is None else ((HGRID[:n] + 3.0).astype("float32"), HGRID[:n].astype("float32"))
            upd, T = g(*args)
            require(bool(upd), "too few points and the reference is kept")
            if replaced:
                require(T is not None and close(np.asarray(T.abs_to_rel(HGRID)), warp(ref, HGRID), 1e-3), "too few points: not the transformation of the reference")
            else:
                require(T is None or close(np.asarray(T.abs_to_rel(HGRID)), HGRID, 1e-6), "too few points: not the transformation of the reference")
            changes.append("few")
            continue
        if step[0] == "exact":
            # as few points as determine a homography, without outliers
            pose = POSES[step[2]]
            sel = FEW[: step[1]]
            upd, T = g(warp(pose, sel).astype("float32"), warp(ref, sel).astype("float32"))
            require(not upd, lambda: "%d points that agree: reference replaced" % len(sel))
            require(T is not None, lambda: "no transformation of %d points" % len(sel))
            err = np.abs(np.asarray(T.abs_to_rel(FEW)) - warp(pose, FEW)).max()
            require(err < 0.2, lambda: "%d points: points of the first frame are mapped %.2f px off" % (len(sel), err))
            changes.append("exact")
            rec.step()
            continue
        i, k = step
        pose = POSES[i]
        prev = warp(ref, HGRID)
        curr = warp(pose, HGRID)
        bad = outs[k]
        for j in range(bad):
            ang = 2.4 * j
            curr[(7 * j + i) % 40] += (60.0 + 9 * j) * np.array([math.cos(ang), math.sin(ang)])
        upd, T = g(curr.astype("float32"), prev.astype("float32"))
        want = (40 - bad) / 40 < thr
        require(bool(upd) == want, lambda: "%d of 40 points agree (threshold %s): reference %sreplaced" % (40 - bad, thr, "" if upd else "not "))
        err = np.abs(np.asarray(T.abs_to_rel(HGRID)) - warp(pose, HGRID)).max()
        require(err < 0.2, lambda: "points of the first frame are mapped %.2f px off" % err)
        inv = np.abs(np.asarray(T.rel_to_abs(warp(pose, HGRID))) - HGRID).max()
        require(inv < 0.3, lambda: "points of the current frame are mapped back %.2f px off" % inv)
        got.append((T, pose))
        changes.append(want)
        if want:
            ref, replaced = pose, True
        rec.step()
        rec.state((conf, i, want))
    for T, p in got:
        require(np.abs(np.asarray(T.abs_to_rel(HGRID)) - warp(p, HGRID)).max() < 0.2, "a transformation returned earlier changed")
    rec.outcome((conf, tuple(changes), seq))


def check_reproj(case, rec):
    """how far off a point may be and still agree is what the getter was told"""
    _, r, i, k, factors = case
    g = HomographyTransformationGetter(ransac_reproj_threshold=r)
    ref = np.eye(3)
    for f in factors:
        pose = POSES[(i + k) % 4]
        prev, curr = warp(ref, HGRID), warp(pose, HGRID)
        for j in range(0, 40, 3):
            ang = 2.4 * j + k
            curr[j] += f * r * np.array([math.cos(ang), math.sin(ang)])
        upd, T = g(curr.astype("float32"), prev.astype("float32"))
        require(bool(upd) == (f > 1), lambda: "a third of the points is off by %s times what is tolerated (%s px): reference %sreplaced" % (f, r, "" if upd else "not "))
        if upd:
            ref = np.array(T.homography_matrix) if hasattr(T, "homography_matrix") else pose
        i += 1
        rec.step()
    rec.outcome(case)


def run_case(case, rec):
    return {"tr": check_transform, "tget": check_translation, "hget": check_homography, "pts": check_points, "many": check_many, "modes": check_modes, "reproj": check_reproj}[case[0]](case, rec)


def shards(tier):
    th = tier == "thorough"
    out = [("tr", c) for c in range(4)]
    for conf in TCONF:
        for m in range(4):
            out.append(("tget", conf, m, 5 if th else 4))
    for conf in HCONF:
        for i in range(4):
            for k in range(3):
                out.append(("hget", conf, i, k, 4 if th else 3))
    out.append(("few",))
    out += [("reproj", r) for r in (1, 2, 3, 4.5, 8, 15)]
    out += [("modes", conf) for conf in TCONF]
    out += [("many", k) for k in range(8)]
    return out


def run_shard(shard, rec):
    if shard[0] == "reproj":
        for i in range(4):
            for k in range(4):
                for w in itertools.product((0.2, 0.5, 5.0), repeat=2):
                    rec.case(("reproj", shard[1], i, k, w))
        return
    if shard[0] == "modes":
        for n in range(1, 7):
            for p in partitions(n, 4):
                for dt in ("float64", "float32"):
                    rec.case(("modes", shard[1], dt, (p, p[::-1], p)))
        return
    if shard[0] == "many":
        for n in SIZES[shard[1]::8]:
            for par in ((3.0, -7.5), (1e5, 640.0)):
                rec.case(("pts", "t", par, n))
            for par in (POSES[2], POSES[3], np.array([[2.0, 1.0, 0.0], [1.0, 0.0, 1.0], [0.001, 0.002, 1.0]]), np.array([[0.0, 1.0, 3.0], [1.0, 0.0, -2.0], [0.0, 0.0, -1.0]])):
                rec.case(("pts", "h", tuple(map(tuple, par.tolist())), n))
            for conf in TCONF:
                for w in itertools.product(range(5), range(5)):
                    for x in ((1, 0), (4, 2), (2, 3)):
                        rec.case(("many", "t", n, conf, (w, x, (3, 1), (2, 2), (0, 0))))
            if n >= 20:
                for conf in HCONF:
                    for w in itertools.product(range(4), (0, 1)):
                        rec.case(("many", "h", n, conf, (w, (3, 0), (1, 1))))
                        if n >= 40:
                            rec.case(("many", "h", n, conf, (w, (2, 2), (3, 1))))
        return
    if shard[0] == "tr":
        c = shard[1]
        for n in range(4):
            for pts in itertools.product(PTS, repeat=n) if n < 3 else itertools.permutations(PTS, 3):
                if n == 3 and PTS.index(pts[0]) % 2:
                    continue
                for i, m in enumerate(MOVES):
                    if i % 4 == c:
                        rec.case(("tr", "t", m, pts, "float64"))
                        rec.case(("tr", "t", m, pts, "int64"))
        for i, H in enumerate(homographies() + FAR):
            if i % 4 != c:
                continue
            for n in range(3):
                for pts in itertools.product(PTS, repeat=n):
                    inv = np.linalg.inv(np.array(H)).tolist()
                    for dt in ("float64", "int64") if n < 2 else ("float64",):
                        arr = np.array(pts, dtype=dt).reshape(n, 2).tolist()
                        norm = [max(abs(v) for v in M[2]) for M in (H, inv)]
                        den = [(M[2][0] * x + M[2][1] * y + M[2][2]) / s for x, y in arr for M, s in zip((H, inv), norm)]
                        if all(abs(v) > 0.02 for v in den):
                            rec.case(("tr", "h", H, pts, dt))
    elif shard[0] == "tget":
        _, conf, m, n = shard
        for k in range(4):
            for w in itertools.product(itertools.product(range(4), range(4)), repeat=n - 1):
                rec.case(("tget", conf, "float64", ((m, k),) + w))
        for k in range(4):
            for w in itertools.product(itertools.product(range(4), range(4)), repeat=1):
                rec.case(("tget", conf, "float32", ((m, k),) + w))
    elif shard[0] == "hget":
        _, conf, i, k, n = shard
        for w in itertools.product(itertools.product(range(4), range(3)), repeat=n - 1):
            rec.case(("hget", conf, ((i, k),) + w))
    else:
        for conf in HCONF:
            for n in (4, 5, 6):
                for i in range(4):
                    rec.case(("hget", conf, (("exact", n, i),)))
                    for a in itertools.product(range(4), range(3)):
                        rec.case(("hget", conf, (a, ("exact", n, i))))
                        rec.case(("hget", conf, (("exact", n, i), a, ("exact", 4, 3 - i))))
        for n in (None, 0, 1, 2, 3):
            for conf in HCONF:
                for a in itertools.product(range(4), range(3)):
                    rec.case(("hget", conf, (("few", n), a)))
                    for b in ((0, 0), (1, 2), (3, 0)):
                        rec.case(("hget", conf, (a, ("few", n), b)))
                        rec.case(("hget", conf, (a, b, ("few", n), ("few", n))))
