"""P18: MotionEstimator follows a moving camera over any path of frames; frames it cannot use never stop it."""
import itertools

import cv2
import numpy as np

from ..common import *
from norfair.camera_motion import (HomographyTransformationGetter, MotionEstimator, TransformationGetter, TranslationTransformationGetter)

LEVEL = "model_checking"
TECH = "exhaustive exploration of camera paths, reference decisions and faults on the real estimator with rendered frames"
RULE = (
    "one execution = one path of frames rendered from a textured plane and fed to a MotionEstimator; states = (reference position, position, resumed) of the model;"
    " distinct outcomes = distinct (path, answers)"
)
BOUNDS = {
    "quick": "all paths of 4 frames over 5 camera positions, 2 getters x default/always/never replaced reference; all paths of 3 frames most of which a static overlay hides, masked out;"
    " 3 kinds of unusable frames at every position of all paths of 5 frames over 3 positions; all decisions (keep, replace, raise) of a scripted getter over all paths of 4 frames, with and without masks, also with one array reused for all frames and one for all masks; draw_flow on/off; 5 quality levels x paths of 3 frames on a scene of which a part has little contrast",
    "thorough": "paths of 5 frames, scripted getter over 5 frames, unusable frames on paths of 6 frames",
}
ASSUMPTIONS = ["OpenCV's corner detection and optical flow are trusted; scenes are textured planes and displacements stay below 20 pixels",
               "accuracy is required within 0.3 px (translation) and 2 px (homography)"]

W, H = 200, 150
POS = [(0, 0), (4, -3), (-6, 5), (8, 3), (-3, -7)]
_r = np.random.RandomState(3)
WORLD = cv2.GaussianBlur(cv2.resize(_r.randint(0, 256, (70, 80)).astype("uint8"), (640, 560), interpolation=cv2.INTER_CUBIC), (0, 0), 1.0)
WORLD = cv2.merge([WORLD, WORLD // 2 + 40, 255 - WORLD])
PATCH = cv2.GaussianBlur(cv2.resize(_r.randint(0, 256, (40, 40)).astype("uint8"), (280, 280), interpolation=cv2.INTER_CUBIC), (0, 0), 1.0)
PATCH = cv2.merge([PATCH, PATCH, PATCH])
GRID = np.array([[x, y] for x in (25.0, 100.0, 175.0) for y in (25.0, 75.0, 125.0)])
TOL = {"t": 0.3, "h": 2.0}


def view(p):
    return WORLD[150 + p[1] : 150 + p[1] + H, 200 + p[0] : 200 + p[0] + W].copy()


def patched(p, t):
    """a scene of which a static overlay hides the larger part; returns the frame and the mask without the overlay"""
    f = view(p)
    m = np.zeros((H, W), "uint8")
    if t % 2:
        f[:, 105:] = PATCH[40 : 40 + H, 40 : 40 + W - 105]
        m[:, :80] = 1
    else:
        f[:, :95] = PATCH[40 : 40 + H, 40 : 135]
        m[:, 120:] = 1
    return f, m


BLANKS = {"gray": lambda: np.full((H, W, 3), 127, "uint8"), "black": lambda: np.zeros((H, W, 3), "uint8"),
          "ramp": lambda: np.repeat(np.linspace(0, 255, W).astype("uint8")[None, :], H, axis=0)[..., None].repeat(3, axis=2)}

GETTERS = {
    "t": lambda **k: TranslationTransformationGetter(**k),
    "h": lambda **k: HomographyTransformationGetter(**k),
}
REFMODE = {"default": {}, "always": dict(proportion_points_used_threshold=1.5), "never": dict(proportion_points_used_threshold=0.0)}


def estimator(getter, mode="default", **kw):
    kw.setdefault("max_points", 60)
    kw.setdefault("min_distance", 8)
    return MotionEstimator(transformations_getter=GETTERS[getter](**REFMODE[mode]), **kw)


def feed(me, frame, mask=None):
    keep = frame.copy()
    km = None if mask is None else mask.copy()
    T = me.update(frame) if mask is None else me.update(frame, mask)
    require(np.array_equal(frame, keep), "the frame was drawn on although draw_flow is off")
    require(mask is None or np.array_equal(mask, km), "the mask was modified")
    return T


def check_T(T, origin, pos, tol, what, GRID=GRID):
    """T maps points of the frame taken at origin to the frame taken at pos"""
    require(T is not None, lambda: "%s: no transformation" % what)
    d = np.array(origin) - np.array(pos)
    e1 = np.abs(np.asarray(T.abs_to_rel(GRID)) - (GRID + d)).max()
    e2 = np.abs(np.asarray(T.rel_to_abs(GRID)) - (GRID - d)).max()
    require(e1 <= tol and e2 <= tol, lambda: "%s: scene points mapped %.2f / %.2f px off" % (what, e1, e2))


def run_path(case, rec):
    _, g, mode, path = case
    me = estimator(g, mode)
    Ts = []
    for n, i in enumerate(path):
        T = feed(me, view(POS[i]))
        check_T(T, POS[path[0]], POS[i], TOL[g] * (1 if mode != "always" else 1.5), "frame %d" % n)
        Ts.append((T, i))
        rec.step()
        rec.state((g, mode, path[0], path[n - 1] if n else None, i))
    for T, i in Ts:
        check_T(T, POS[path[0]], POS[i], TOL[g] * (1 if mode != "always" else 1.5), "earlier transformation looked at later")
    rec.outcome((g, mode, path))


def run_mask(case, rec):
    _, g, mode, path, t0 = case
    me = estimator(g, mode)
    for n, i in enumerate(path):
        f, m = patched(POS[i], t0)
        T = feed(me, f, m)
        x0 = 15.0 if t0 % 2 else 135.0
        inside = np.array([[x, y] for x in (x0, x0 + 25, x0 + 50) for y in (25.0, 75.0, 125.0)])
        check_T(T, POS[path[0]], POS[i], TOL[g] * 1.5, "masked frame %d" % n, inside)
        rec.step()
    rec.outcome((g, mode, path, t0))


def run_blank(case, rec):
    """unusable frames ("kind") anywhere in the path"""
    _, g, mode, path = case
    me = estimator(g, mode)
    origin = None  # position of the reference known to be fresh; None: nothing is known
    known = True
    first = True
    resumed = 0
    for n, i in enumerate(path):
        usable = not isinstance(i, str)
        T = feed(me, view(POS[i]) if usable else BLANKS[i]())
        rec.step()
        if T is None:
            require(not (first and usable), "no transformation for a usable first frame")
            # a fresh start: this frame is the new reference
            known, origin = usable, POS[i] if usable else None
            rec.count("fresh_starts")
        elif first:
            known, origin = usable, POS[i] if usable else None
        elif not usable:
            known = False
        require(T is None or (np.asarray(T.abs_to_rel(GRID)).shape == GRID.shape and np.asarray(T.rel_to_abs(GRID)).shape == GRID.shape), "not a transformation")
        if usable and known and T is not None:
            check_T(T, origin, POS[i], TOL[g], "frame %d" % n)
            resumed += n > 0 and any(isinstance(x, str) for x in path[:n])
        first = False
        rec.state((g, mode, origin, i, known))
    # with the camera at rest for two more frames of one place and then two of another, motion is estimated again
    if known and origin is not None:
        for i in (1, 1, 0):
            T = feed(me, view(POS[i]))
            check_T(T, origin, POS[i], TOL[g], "after the unusable frames")
            resumed += 1
    if resumed:
        rec.count("estimates_checked_after_unusable_frames", resumed)
    rec.outcome((g, mode, path, known))


class Scripted(TransformationGetter):
    """takes the decisions of a script; instances tell how often they were called"""

    script = ()
    log = []

    def __init__(self):
        self.calls = 0

    def __call__(self, curr, prev):
        k = len(Scripted.log)
        c = None if curr is None else np.array(curr, dtype=float)
        p = None if prev is None else np.array(prev, dtype=float)
        Scripted.log.append((self.calls, c, p))
        self.calls += 1
        d = Scripted.script[k]
        if d == 2:
            raise RuntimeError("scripted failure")
        return d == 1, TranslationTransformation(np.array([float(k), 0.5]))


def run_script(case, rec):
    _, path, script, maskt = case
    Scripted.script, Scripted.log = script, []
    me = MotionEstimator(max_points=25, min_distance=12, transformations_getter=Scripted())
    ref, calls, last = None, 0, None
    buf, mbuf = np.zeros((H, W, 3), "uint8"), np.zeros((H, W), "uint8")
    ref_mask = None
    for n, (i, d) in enumerate(zip(path, script)):
        if maskt in (1, 3) or (maskt == 2 and n % 2 == 0):  # with masks for all or for every other frame
            m = np.ones((H, W), "uint8")
            m[:, : W // 2] = (i + n) % 2
            m[:, W // 2 :] = 1 - (i + n) % 2
        else:
            m = None
        if maskt == 3:  # the caller has one array for the frames and one for the masks
            buf[:], mbuf[:] = view(POS[i]), m
            T = feed(me, buf, mbuf)
        else:
            T = feed(me, view(POS[i]), m)
        if ref is None:
            ref, ref_mask = POS[i], m
        require(len(Scripted.log) == n + 1, lambda: "the getter was called %d times for %d frames" % (len(Scripted.log), n + 1))
        cnt, curr, prev = Scripted.log[-1]
        require(cnt == calls, lambda: "frame %d: the getter was called %d times before, expected %d (fresh after a failure only)" % (n, cnt, calls))
        require(prev is not None and prev.shape == curr.shape and prev.ndim == 2 and prev.shape[1] == 2, "no point pairs")
        require(4 <= len(prev) <= 25, lambda: "%d points sampled, max_points is 25" % len(prev))
        flow = np.median(curr - prev, axis=0)
        want = np.array(ref) - np.array(POS[i])
        require(np.abs(flow - want).max() < 0.5, lambda: "frame %d: flow %s, relative to the reference frame it is %s" % (n, flow, want))
        if last is None:
            dist = np.sqrt(((prev[:, None] - prev[None]) ** 2).sum(-1)) + 1e9 * np.eye(len(prev))
            require(dist.min() >= 11.9, lambda: "sampled points %.1f px apart, min_distance is 12" % dist.min())
        else:
            require({tuple(x) for x in prev} <= last, "new points although the reference was kept")
        if ref_mask is None:
            for half in (prev[:, 0] < W // 2, prev[:, 0] >= W // 2):
                require(half.any(), "without a mask half of the reference frame was not sampled")
        else:
            px = np.round(prev).astype(int)
            require(all(ref_mask[y, x] for x, y in px), "a masked point of the reference frame was sampled")
        if d == 2:
            require(T is None, "a transformation although the getter failed")
            calls = 0
        else:
            require(T is not None and tuple(T.movement_vector) == (float(n), 0.5), "not the transformation of the getter")
            calls += 1
        if d:
            ref, last, ref_mask = POS[i], None, m
        else:
            last = {tuple(x) for x in prev}
        rec.step()
        rec.state(("script", ref, i, d, calls))
    rec.outcome(("script", path, script, maskt))


def run_draw(case, rec):
    _, g, color, path = case
    a = estimator(g)
    b = estimator(g, draw_flow=True, **({} if color is None else dict(flow_color=color)))
    want = np.array([0, 0, 100] if color is None else color)
    for n, i in enumerate(path):
        f, clean = view(POS[i]), view(POS[i])
        T0, T1 = feed(a, clean), b.update(f)
        require(close(T0.abs_to_rel(GRID), T1.abs_to_rel(GRID), 1e-9), "drawing the flow changes the estimate")
        ch = (f != clean).any(axis=2)
        require(ch.any(), "draw_flow drew nothing")
        require((f[ch] == want).all(), lambda: "flow drawn in another color than %s" % want)
        rec.step()
    rec.outcome((g, color, path))


def dim(p):
    """a scene whose right third has little contrast (corners there have 1/10 of the strength of those on the left)"""
    k = np.clip((140.0 - np.arange(W)) / 80.0, 0.3, 1.0)[None, :, None]
    return (view(p) * k + 110.0 * (1 - k)).round().astype("uint8")


def run_quality(case, rec):
    _, quality, path, script = case
    Scripted.script, Scripted.log = script, []
    me = MotionEstimator(max_points=400, min_distance=8, transformations_getter=Scripted(), **({} if quality is None else dict(quality_level=quality)))
    fresh = True
    for n, (i, d) in enumerate(zip(path, script)):
        feed(me, dim(POS[i]))
        _, curr, prev = Scripted.log[-1]
        if fresh:
            weak = int((prev[:, 0] > 140).sum())
            strong = int((prev[:, 0] < 80).sum())
            require(strong >= 3, lambda: "frame %d, quality level %s: %d strong corners sampled" % (n, quality, strong))
            if quality is not None and quality >= 0.3:
                require(weak == 0, lambda: "frame %d, quality level %s: %d corners of 1/10 of the quality of the best sampled" % (n, quality, weak))
            else:  # 0.01 is the documented default
                require(weak >= 10, lambda: "frame %d, quality level %s: %d corners with little contrast sampled" % (n, quality, weak))
        fresh = bool(d)
        rec.step()
        rec.state(("quality", quality, i, d, len(prev)))
    rec.outcome((quality, path, script))


def run_defaults(case, rec):
    """all defaults: homography, 200 points"""
    me = MotionEstimator()
    for i in case[1]:
        check_T(feed(me, view(POS[i])), POS[case[1][0]], POS[i], TOL["h"], "default estimator")
    rec.outcome(case)


def run_case(case, rec):
    return {"path": run_path, "mask": run_mask, "blank": run_blank, "script": run_script, "draw": run_draw, "quality": run_quality, "defaults": run_defaults}[case[0]](case, rec)


def shards(tier):
    th = tier == "thorough"
    out = []
    for g in GETTERS:
        for mode in REFMODE:
            for i in range(5):
                out.append(("path", g, mode, i, 5 if th else 4))
            for t in range(2):
                out.append(("mask", g, mode, t, 4 if th else 3))
        for k in BLANKS:
            for first in range(4):
                out.append(("blank", g, k, first, 6 if th else 5))
        out.append(("draw", g))
    out.append(("quality",))
    for i in range(4):
        for d in range(3):
            out.append(("script", i, d, 5 if th else 4))
    return out


def run_shard(shard, rec):
    if shard[0] == "path":
        _, g, mode, i, n = shard
        for w in itertools.product(range(5), repeat=n - 1):
            rec.case(("path", g, mode, (i,) + w))
        if g == "h" and mode == "default":
            for w in itertools.product(range(5), repeat=1):
                rec.case(("defaults", (i,) + w))
    elif shard[0] == "mask":
        _, g, mode, t, n = shard
        for w in itertools.product(range(4), repeat=n):
            rec.case(("mask", g, mode, w, t))
    elif shard[0] == "blank":
        _, g, k, first, n = shard
        al = (0, 1, 2, k)
        for w in itertools.product(al, repeat=n - 1):
            p = (al[first],) + w
            if 1 <= p.count(k) <= (3 if n < 6 else 2):
                rec.case(("blank", g, "default", p))
    elif shard[0] == "script":
        _, i, d, n = shard
        for path in itertools.product(range(4), repeat=n - 1):
            for sc in itertools.product(range(3), repeat=n - 1):
                if n > 4 and (sum(path) + sum(sc)) % 3:
                    continue
                rec.case(("script", (i,) + path, (d,) + sc, (sum(path) + sum(sc)) % 3))
                if n < 5 or not sum(path) % 3:
                    rec.case(("script", (i,) + path, (d,) + sc, 3))
    elif shard[0] == "quality":
        for quality in (None, 0.5, 0.3, 0.01, 0.001):
            for path in itertools.product(range(4), repeat=3):
                for sc in itertools.product(range(2), repeat=2):
                    rec.case(("quality", quality, path, sc + (0,)))
    else:
        for color in (None, (1, 2, 3), (200, 100, 50)):
            for w in itertools.product(range(5), repeat=2):
                rec.case(("draw", shard[1], color, (0,) + w))
