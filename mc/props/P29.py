"""P29: the absolute grid stays fixed in the world as the camera moves."""
import itertools
import math

import cv2
import numpy as np

from ..common import *
from norfair import Color
from norfair.camera_motion import HomographyTransformation
from norfair.drawing import draw_absolute_grid

LEVEL = "model_checking"
TECH = "exhaustive enumeration of camera transformations and of all short orders of calls on the real code against an independent projection of the grid"
RULE = "one execution = one sequence of calls, every frame compared with the crosses the reference projects; states = distinct (frame size, grid, camera, image) drawn; distinct outcomes = distinct images"
BOUNDS = {
    "quick": "8 frame sizes x 9 grid sizes x 2 projections x (no camera, 169 translations, 24 homographies); all ordered sequences of 3 of 12 calls (different sizes, projections, cameras)",
    "thorough": "all 41^2 translations, sequences of 4 calls",
}
ASSUMPTIONS = ["OpenCV's line drawing", "points within 1e-6 of a pixel or frame border may be drawn on either side"]


def grid(size, w, h, polar):
    step = math.pi / size
    angles = [-math.pi / 2 + step / 2 + k * step for k in range(size)]
    out = []
    for theta in angles:
        for phi in angles:
            if polar:
                x, y = math.tan(theta) * math.cos(phi), math.tan(theta) * math.sin(phi)
            else:
                x, y = math.tan(phi), math.tan(theta) / math.cos(phi)
            out.append((x * max(h, w) + w // 2, y * max(h, w) + h // 2))
    return out


def mapper(cam):
    if cam is None:
        return None, lambda p: p
    if cam[0] == "t":
        return TranslationTransformation(np.array(cam[1:])), lambda p: (p[0] + cam[1], p[1] + cam[2])
    m = cam[1]

    def f(p):
        x, y, z = [r[0] * p[0] + r[1] * p[1] + r[2] for r in m]
        return (x / z, y / z) if z else (math.inf, math.inf)

    return HomographyTransformation(np.array(m)), f


EPS = 1e-6


def pixels(v):
    lo, hi = int(math.floor(v - EPS)), int(math.floor(v + EPS))
    return sorted({max(lo, 0), max(hi, 0)})


def cross(img, x, y, r, t):
    cv2.line(img, (x, y - r), (x, y + r), 255, t)
    cv2.line(img, (x - r, y), (x + r, y), 255, t)


def run_call(call, rec):
    (h, w), size, polar, radius, thickness, color, cam = call
    T, f = mapper(cam)
    must, may = np.zeros((h, w), "uint8"), np.zeros((h, w), "uint8")
    n = 0
    for p in grid(size, w, h, polar):
        x, y = f(p)
        if not (-EPS <= x <= w + EPS and -EPS <= y <= h + EPS):
            continue
        sure = EPS <= x <= w - EPS and EPS <= y <= h - EPS
        cand = []
        for px, py in itertools.product(pixels(x), pixels(y)):
            c = np.zeros((h, w), "uint8")
            cross(c, px, py, radius, thickness)
            cand.append(c)
            may |= c
        if sure:
            n += 1
            all_ = cand[0].copy()
            for c in cand[1:]:
                all_ &= c
            must |= all_
    y, x = np.mgrid[0:h, 0:w]
    frame = np.stack([(x * 3 + y) % 50 + 60, (x + y * 7) % 90 + 100, (x ^ y) % 64 + 33], axis=2).astype("uint8")
    keep = frame.copy()
    kw = dict(grid_size=size, radius=radius, thickness=thickness, color=color, polar=polar)
    defaults = dict(grid_size=20, radius=2, thickness=1, color=(0, 0, 0), polar=False)
    draw_absolute_grid(frame, T, **{k: v for k, v in kw.items() if v != defaults[k]})
    drawn = (frame != keep).any(axis=2)
    require((frame[drawn] == np.array(color)).all(), "pixels of another color are drawn")
    missing, extra = (must > 0) & ~drawn, drawn & (may == 0)
    require(not missing.any(), lambda: "%d pixels of the grid are missing, call %s" % (missing.sum(), call))
    require(not extra.any(), lambda: "%d pixels outside of the grid are drawn, call %s" % (extra.sum(), call))
    rec.step()
    rec.count("crosses", n)
    img = (call[:2], frame.tobytes())
    rec.state((call, img))
    rec.outcome(img)


def run_case(case, rec):
    for call in case:
        run_call(call, rec)


SIZES = [(40, 60), (61, 37), (30, 30), (101, 200), (7, 90), (1, 1), (150, 23), (300, 290)]
HOM = [((a, b, tx), (-b, a, ty), (p, q, 1.0)) for a in (1.0, 0.8, 1.3) for b in (0.0, 0.2) for tx, ty in ((0.0, 0.0), (11.0, -6.5)) for p, q in ((0.0, 0.0), (0.004, -0.002))]


def translations(tier):
    if tier == "thorough":
        return [("t", a * 4.5, b * 3.25) for a in range(-20, 21) for b in range(-20, 21)]
    return [("t", a, b) for a in (-300.0, -61.0, -30.0, -12.5, -3.0, -0.3, 0.0, 0.7, 4.0, 13.0, 28.0, 60.0, 201.0) for b in (-202.0, -40.0, -20.0, -7.25, -1.0, 0.0, 0.4, 3.0, 10.0, 20.0, 39.0, 41.0, 150.0)]


SEQ = [
    ((40, 60), 20, False, 2, 1, (0, 0, 0), None),
    ((40, 60), 20, True, 2, 1, (0, 0, 0), None),
    ((60, 40), 20, False, 2, 1, (0, 0, 0), ("t", 5.0, -3.0)),
    ((40, 60), 20, False, 3, 1, (1, 2, 250), ("t", -17.0, 9.0)),
    ((40, 60), 5, False, 2, 2, (255, 0, 0), ("t", 0.0, 0.0)),
    ((60, 40), 20, True, 1, 1, (0, 0, 0), ("h", HOM[5])),
    ((40, 60), 20, False, 2, 1, (0, 255, 0), ("h", HOM[6])),
    ((41, 60), 20, False, 2, 1, (0, 0, 0), None),
    ((40, 61), 20, False, 2, 1, (0, 0, 0), ("t", 3.0, 4.0)),
    ((40, 60), 6, True, 2, 1, (9, 9, 9), ("t", -100.0, 0.0)),
    ((40, 60), 1, False, 4, 3, (9, 9, 9), ("t", 1.0, 1.0)),
    ((40, 60), 2, True, 4, 1, (0, 0, 0), None),
]


def shards(tier):
    out = [("one", s, g, polar, tier) for s in SIZES for g in (1, 2, 3, 5, 8, 13, 20, 21, 40) for polar in (False, True)]
    return out + [("seq", i, 4 if tier == "thorough" else 3) for i in range(len(SEQ))]


def run_shard(shard, rec):
    if shard[0] == "seq":
        for rest in itertools.product(SEQ, repeat=shard[2] - 1):
            rec.case((SEQ[shard[1]],) + rest)
        return
    _, s, g, polar, tier = shard
    for cam in [None] + translations(tier) + [("h", m) for m in HOM]:
        rec.case(((s, g, polar, 2, 1, (0, 0, 0), cam),))
    for r, t in ((0, 1), (1, 2), (5, 1)):
        for cam in (None, ("t", 8.5, -3.5)):
            rec.case(((s, g, polar, r, t, (20, 30, 255), cam),))
