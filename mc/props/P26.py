"""P26: path drawers draw exactly the history of the tracked points."""
import itertools
import math

import cv2
import numpy as np

from ..common import *
from norfair import Palette
from norfair.camera_motion import HomographyTransformation
from norfair.drawing import AbsolutePaths, Paths

LEVEL = "model_checking"
TECH = "exhaustive exploration of object histories and camera movements on the real drawers against a pixel-level reference model"
RULE = "one execution = one history of tracker updates drawn by one drawer, every returned image compared with the model; states = (configuration, object positions, image) reached; distinct outcomes = distinct final images"
BOUNDS = {
    "quick": "Paths: all histories of 4 frames of two objects over 3+3 positions or absence x 6 configurations; AbsolutePaths: all histories of 4 frames over 4 situations of two objects x 3 camera positions"
    " x 6 configurations (history lengths 0..20), translations, homographies and no camera, also with palettes that change from frame to frame;"
    " every ordered pair of the 12 drawers drawing in turn over all histories of 3 frames, the second made at once or later;"
    " both drawers with 5 to 257 objects (11 sizes) and AbsolutePaths with 12 history lengths up to 101 over all of them and beyond",
    "thorough": "histories of 5 frames",
}
ASSUMPTIONS = ["OpenCV's circle, line and blending", "drawing order of the objects is the order given"]

H, W = 44, 60
POS = [(12.6, 10.2), (45.9, 14.0), (30.0, 33.7)]
OFF = [(4.0, 22.0), (50.0, 38.0), (20.0, 5.0)]


def background(k):
    y, x = np.mgrid[0:H, 0:W]
    g = ((x * 3 + y * 5 + 29 * k) % 64 + 60).astype("uint8")
    return np.stack([g, g + 20, g // 2], axis=2)


def boxpts(p):
    return np.array([[p[0] - 3, p[1] - 2], [p[0] + 5, p[1] + 4]])


def corners(points):
    return points


def single(points):
    return np.array([points[0]])


GETTERS = {"mean": None, "all": corners, "first": single}


def interest(kind, pts):
    pts = np.asarray(pts, dtype=float)
    return [pts.mean(axis=0)] if kind == "mean" else list(pts) if kind == "all" else [pts[0]]


def ip(p):
    return int(p[0]), int(p[1])


def trackers_of_two(live=False):
    """one tracker for each object; the ids of the second start at 2"""
    out = []
    for k in range(2):
        tr = Tracker(center_distance, 1000, initialization_delay=0, hit_counter_max=3, pointwise_hit_counter_max=1 if live else 4, filter_factory=NoFilterFactory())
        if k:
            tr.update([Detection(boxpts(POS[0]))])
            while tr.tracked_objects:
                tr.update()
        out.append(tr)
    return out


def situations():
    return [(a, b) for a in (0, 1, 2, None) for b in (0, 1, None)]


def run_paths(case, rec):
    _, getter, radius, thickness, color, att, hist = case[:7]
    palettes = case[7:] == ("palettes",)
    kw = {k: v for k, v in dict(radius=radius, thickness=thickness, color=color).items() if v is not None}
    if GETTERS[getter]:
        kw["get_points_to_draw"] = GETTERS[getter]
    if att != 0.01:
        kw["attenuation"] = att
    drawer = Paths(**kw)
    r = radius if radius is not None else int(max(H / 100 * 0.7, 1))
    t = thickness if thickness is not None else int(max(H / 100 / 7, 1))
    mask = np.zeros((H, W, 3), "uint8")
    trackers = trackers_of_two()
    for k, (a, b) in enumerate(hist):
        if palettes:
            Palette.set(PALETTES[k % len(PALETTES)])
        objs = []
        for tr, where, base in zip(trackers, (a, b), (POS, OFF)):
            objs += tr.update([Detection(boxpts(base[where]))] if where is not None else [])
        frame = background(k)
        est = [o.estimate.copy() for o in objs]
        got = drawer.draw(frame, objs)
        require(np.array_equal(frame, background(k)), "the given frame was modified")
        require(got is not None and not np.shares_memory(got, frame), "the given frame is returned")
        require(all(np.array_equal(o.estimate, e) for o, e in zip(objs, est)), "an object was modified")
        mask = (mask * (1 - att)).astype("uint8")
        for o, e in zip(objs, est):
            c = color if color is not None else Palette.choose_color(o.id)
            for p in interest(getter, e):
                cv2.circle(mask, ip(p), r, c, t)
        want = np.minimum(mask.astype(int) + background(k), 255)
        diff = np.abs(want - got.astype(int))
        require(diff.max() <= (0 if att in (0, 1) else k), lambda: "frame %d: %d pixels differ from the expected paths" % (k, int((diff.max(axis=2) > 0).sum())))
        rec.step()
        rec.state((case[1:6], hist[k], got.tobytes()))
    rec.outcome((case[1:6], got.tobytes()))


CAMS = {
    "none": [None],
    "t": [(0.0, 0.0), (-9.0, 4.0), (6.5, -7.25)],
    "h": [((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)), ((1.1, 0.05, -5.0), (-0.04, 0.95, 4.0), (0.0005, -0.0003, 1.0)), ((0.9, 0.0, 8.0), (0.1, 1.0, -6.0), (0.0, 0.001, 1.1))],
}


def camera(kind, par):
    if kind == "none":
        return None, lambda p: (float(p[0]), float(p[1]))
    if kind == "t":
        return TranslationTransformation(np.array(par)), lambda p: (p[0] + par[0], p[1] + par[1])

    def to_rel(p):
        x, y, z = [row[0] * p[0] + row[1] * p[1] + row[2] for row in par]
        return (x / z, y / z)

    return HomographyTransformation(np.array(par)), to_rel


def run_abs(case, rec):
    """objects stand at absolute positions; the detections are where the current camera sees them"""
    _, getter, radius, thickness, color, maxh, cam, hist = case[:8]
    palettes = case[8:] == ("palettes",)
    kw = {k: v for k, v in dict(radius=radius, thickness=thickness, color=color).items() if v is not None}
    if GETTERS[getter]:
        kw["get_points_to_draw"] = GETTERS[getter]
    if maxh != 20:
        kw["max_history"] = maxh
    drawer = AbsolutePaths(**kw)
    r = radius if radius is not None else int(max(H / 100 * 0.7, 1))
    t = thickness if thickness is not None else int(max(H / 100 / 7, 1))
    alphas = [0.99 if maxh == 1 else 0.99 + (0.01 - 0.99) * i / (maxh - 1) for i in range(maxh)]
    trackers = trackers_of_two(True)
    past = {}
    for k, (a, b, c) in enumerate(hist):
        if palettes:
            Palette.set(PALETTES[k % len(PALETTES)])
        T, to_rel = camera(cam, CAMS[cam][c])
        objs = []
        for tr, where, base in zip(trackers, (a, b), (POS, OFF)):
            dets = [Detection(np.array([to_rel(p) for p in boxpts(base[where])]))] if where is not None else []
            objs += tr.update(dets) if T is None else tr.update(dets, coord_transformations=T)
        frame = background(k)
        want = background(k)
        est = [o.get_estimate(absolute=T is not None).copy() for o in objs]
        if T is None:
            got = drawer.draw(frame, objs)
        else:
            got = drawer.draw(frame, objs, T) if k % 2 else drawer.draw(frame, objs, coord_transform=T)
        tol = 0
        for o, e in zip(objs, est):
            require(np.array_equal(o.get_estimate(absolute=T is not None), e), "an object was modified")
            if not any(o.live_points):
                continue
            col = color if color is not None else Palette.choose_color(o.id)
            now = interest(getter, e)
            for p in now:
                cv2.circle(want, ip(to_rel(p)), r, col, t)
            last = now
            for i, old in enumerate(past.get(o.id, [])):
                overlay = want.copy()
                for p, q in zip(last, old):
                    cv2.line(overlay, ip(to_rel(p)), ip(to_rel(q)), col, t)
                want = cv2.addWeighted(overlay, alphas[i], want, 1 - alphas[i], 0)
                last = old
                tol += 1
            past[o.id] = ([now] + past.get(o.id, []))[:maxh]
        require(got is not None and got.shape == want.shape and got.dtype == want.dtype, "no image is returned")
        diff = np.abs(want.astype(int) - got.astype(int))
        require(diff.max() <= tol, lambda: "frame %d: %d pixels differ from the expected paths" % (k, int((diff.max(axis=2) > tol).sum())))
        rec.step()
        rec.state((case[1:7], hist[k], got.tobytes()))
    rec.outcome((case[1:7], got.tobytes()))


def run_crowd(case, rec):
    """many objects, each in a place of its own, and long histories"""
    _, drawer, n, maxh, frames = case[:5]
    default = case[5:] == ("default",)
    side = int(math.ceil(math.sqrt(n)))
    cell = 30 if n > 1 else 260
    size = (side * cell + 7, side * cell + 11)
    tr = Tracker(static_distance, cell / 3.0, initialization_delay=0, hit_counter_max=3, filter_factory=NoFilterFactory())
    given = {} if default else dict(radius=2, thickness=1)
    rad_, thick = (int(max(size[0] / 100 * 0.7, 1)), int(max(size[0] / 100 / 7, 1))) if default else (2, 1)
    d = Paths(color=(0, 40, 250), **given) if drawer == "paths" else AbsolutePaths(color=(0, 40, 250), **given, **({} if maxh is None else dict(max_history=maxh)))
    h = 20 if maxh is None else maxh
    alphas = [0.99 if h == 1 else 0.99 + (0.01 - 0.99) * i / (h - 1) for i in range(h)]
    mask = np.zeros(size + (3,), "uint8")
    past = {}
    for t in range(frames):
        dets = []
        for k in range(n):
            if n > 1 and t == 2 and k % 4 == 1:
                continue
            cx, cy = cell * (k % side) + cell / 2, cell * (k // side) + cell / 2
            # one object: a spiral whose parts lie apart; many: a small triangle
            rad, ang = (3 + 110.0 * t / frames, 0.6 * t) if n == 1 else (5.0, 2.1 * t + k)
            p = np.array([cx + rad * math.cos(ang), cy + rad * math.sin(ang)])
            dets.append(Detection(np.array([p - 2, p + 2]), data=k))
        objs = list(tr.update(dets))
        require(len(objs) == n, "set-up: %d objects" % len(objs))
        frame = np.full(size + (3,), 30, "uint8")
        want = frame.copy()
        got = d.draw(frame, objs)
        if drawer == "paths":
            mask = (mask * 0.99).astype("uint8")
            for o in objs:
                cv2.circle(mask, ip(o.estimate.mean(axis=0)), rad_, (0, 40, 250), thick)
            want = np.minimum(mask.astype(int) + frame, 255)
            tol = t
        else:
            for o in objs:
                if not any(o.live_points):
                    continue
                now = o.estimate.mean(axis=0)
                cv2.circle(want, ip(now), rad_, (0, 40, 250), thick)
                last = now
                x0, y0 = (int(v // cell) * cell for v in now)
                view = want[y0 : y0 + cell, x0 : x0 + cell]  # all this object ever touches
                for i, old in enumerate(past.get(o.id, [])):
                    overlay = view.copy()
                    cv2.line(overlay, (int(last[0]) - x0, int(last[1]) - y0), (int(old[0]) - x0, int(old[1]) - y0), (0, 40, 250), 1)
                    view[:] = cv2.addWeighted(overlay, alphas[i], view, 1 - alphas[i], 0)
                    last = old
                past[o.id] = ([now] + past.get(o.id, []))[:h]
            tol = 2
        diff = np.abs(np.asarray(want, dtype=int) - got.astype(int))
        require(diff.max() <= tol, lambda: "frame %d, %d objects, history %s: %d pixels differ from the expected paths" % (t, n, maxh, int((diff.max(axis=2) > tol).sum())))
        rec.step()
    rec.outcome(case)


def pairconf(kind, c):
    getter, radius, thickness, color, last = (PCONF if kind == "paths" else ACONF)[c]
    kw = {k: v for k, v in dict(radius=radius, thickness=thickness, color=color).items() if v is not None}
    if GETTERS[getter]:
        kw["get_points_to_draw"] = GETTERS[getter]
    return Paths(attenuation=last, **kw) if kind == "paths" else AbsolutePaths(max_history=last, **kw)


def run_pair(case, rec):
    """drawers of one program do not touch each other: interleaved they draw what each draws alone"""
    _, first, second, hist, late = case
    alone = []
    for which in (0, 1, None):
        trackers = trackers_of_two()
        drawers = [None, None]
        got = []
        for k, (a, b) in enumerate(hist):
            objs = []
            for tr, where, base in zip(trackers, (a, b), (POS, OFF)):
                objs += tr.update([Detection(boxpts(base[where]))] if where is not None else [])
            for j in (0, 1) if k % 2 else (1, 0):
                if (which is None or which == j) and k >= late * j:
                    if drawers[j] is None:
                        drawers[j] = pairconf(*(first, second)[j])
                    img = drawers[j].draw(background(k + 3 * j), objs if j == 0 else objs[::-1])
                    got.append((k, j, img.tobytes()))
                    rec.step()
        alone.append(got)
    for k, j, img in alone[2]:
        require((k, j, img) in alone[j], lambda: "frame %d: drawer %s draws something else because of the other one (%s)" % (k, (first, second)[j], (second, first)[j]))
    rec.outcome((case[1:3], alone[2][-1][2]))


def run_case(case, rec):
    if case[0] == "pair":
        Palette.set("tab10")
        return run_pair(case, rec)
    if case[0] == "crowd":
        return run_crowd(case, rec)
    Palette.set("tab10")
    return run_paths(case, rec) if case[0] == "paths" else run_abs(case, rec)


PCONF = [("mean", None, None, None, 0.01), ("all", 2, 1, None, 0.5), ("first", 3, -1, (10, 100, 200), 0), ("mean", 2, 2, None, 1), ("all", None, None, (0, 0, 255), 0.3), ("first", 4, 1, None, 0.05)]
ACONF = [("mean", None, None, None, 20), ("all", 2, 1, None, 2), ("first", 3, 1, (10, 100, 200), 1), ("mean", 2, 2, None, 0), ("all", None, None, (0, 0, 255), 3), ("first", 2, 1, None, 4)]
PALETTES = ["tab20", ["#102030", "red", (9, 200, 90)], "colorblind", ["#ffee01"]]
ASIT = [(0, 0), (1, None), (2, 1), (None, None), (0, 1)]


def shards(tier):
    n = 5 if tier == "thorough" else 4
    out = [("paths", c, s, n) for c in range(len(PCONF)) for s in situations()]
    out += [("crowd", n) for n in (5, 9, 17, 32, 33, 64, 65, 66, 101, 129, 257)] + [("long", h) for h in (None, 2, 5, 7, 10, 16, 20, 21, 33, 50, 64, 101)]
    out += [("pair", k, c) for k in ("paths", "abs") for c in range(6)]
    return out + [("abs", c, s, cam, k, n) for c in range(len(ACONF)) for s in ASIT[:3] for cam in CAMS for k in range(len(CAMS[cam]))]


def run_shard(shard, rec):
    if shard[0] == "pair":
        for k in ("paths", "abs"):
            for c in range(6):
                for hist in itertools.product([(0, 0), (1, None), (2, 1)], repeat=3):
                    for late in (0, 1):
                        rec.case(("pair", shard[1:], (k, c), hist, late))
        return
    if shard[0] == "crowd":
        for drawer in ("paths", "abs"):
            for maxh in (1, 3) if drawer == "abs" else (0,):
                rec.case(("crowd", drawer, shard[1], maxh, 5))
            rec.case(("crowd", drawer, shard[1], 0, 3, "default"))
        return
    if shard[0] == "long":
        h = 20 if shard[1] is None else shard[1]
        for extra in (0, 1, 2, 5):
            rec.case(("crowd", "abs", 1, shard[1], h + extra))
        return
    if shard[0] == "paths":
        _, c, s, n = shard
        sits = [(0, 0), (1, None), (2, 1), (None, 0), (None, None), (1, 1), (0, None)]
        for rest in itertools.product(sits, repeat=n - 1):
            rec.case(("paths",) + PCONF[c] + ((s,) + rest,))
        if PCONF[c][3] is None:
            for rest in itertools.product(sits[:4], repeat=n - 1):
                rec.case(("paths",) + PCONF[c] + ((s,) + rest, "palettes"))
    else:
        _, c, s, cam, k, n = shard
        cams = range(len(CAMS[cam]))
        steps = [x + (j,) for x in ASIT[:4] for j in cams]
        if cam == "none":
            n += 1
        elif cam == "h" and n == 4:
            steps = [x + (j,) for x in ASIT[1:4] for j in cams]
        for rest in itertools.product(steps, repeat=n - 1):
            rec.case(("abs",) + ACONF[c] + (cam, (s + (k,),) + rest))
        if ACONF[c][3] is None:
            for rest in itertools.product(steps[:3], repeat=3):
                rec.case(("abs",) + ACONF[c] + (cam, (s + (k,),) + rest, "palettes"))
