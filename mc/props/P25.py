"""P25: FixedCamera places every frame where the camera motion puts it."""
import itertools

import numpy as np

from ..common import *
from norfair.drawing import FixedCamera

LEVEL = "model_checking"
TECH = "exhaustive exploration of camera movement sequences on the real FixedCamera against a pixel-exact reference model"
RULE = "one execution = one sequence of camera movements, every stabilized image compared pixel by pixel; states = (configuration, movement, stabilized image) reached; distinct outcomes = distinct final images"
BOUNDS = {
    "quick": "9 frame sizes x 6 scales x every whole-pixel translation up to 2 frame sizes beyond every border (single frames), fractional ones;"
    " all sequences of 3 of 13 movements x 3 frame sizes x 4 scales x 4 attenuations x 3 pixel types",
    "thorough": "sequences of 4 movements",
}
ASSUMPTIONS = ["movements are at least 0.1 away from the middle between two pixels"]

SIZES = [(4, 6), (5, 8), (7, 4), (1, 1), (1, 9), (8, 1), (6, 6), (3, 3), (9, 5)]


def content(k, h, w, c, dt):
    y, x, z = np.mgrid[0:h, 0:w, 0:c]
    a = (x * 7 + y * 31 + z * 61 + k * 17) % 200 + 40
    return (a / 255.0).astype(dt) if np.dtype(dt).kind == "f" else a.astype(dt)


def run_case(case, rec):
    (h, w), scale, att, dt, ch, moves = case
    kw = {}
    if scale != 2:
        kw["scale"] = scale
    if att != 0.05:
        kw["attenuation"] = att
    cam = FixedCamera(**kw)
    prev = None
    kept = []
    for k, mv in enumerate(moves):
        frame = content(k, h, w, ch, dt)
        orig = frame.copy()
        out = cam.adjust_frame(frame, TranslationTransformation(np.array(mv)))
        require(np.array_equal(frame, orig), "the frame was modified")
        H, W = out.shape[:2]
        require(abs(H - h * scale) <= 0.5 and abs(W - w * scale) <= 0.5 and out.shape[2] == ch, lambda: "stabilized image has size %s" % (out.shape,))
        require(out.dtype == np.dtype(dt), lambda: "stabilized image has type %s" % out.dtype)
        require(prev is None or out.shape == prev.shape, "the size of the stabilized image changes")
        y0 = round(H // 2 - h // 2 - mv[1])
        x0 = round(W // 2 - w // 2 - mv[0])
        shown = np.zeros((H, W), dtype=bool)
        back = np.zeros(out.shape) if prev is None else prev * (1.0 - att)
        ya, yb, xa, xb = max(y0, 0), min(y0 + h, H), max(x0, 0), min(x0 + w, W)
        if ya < yb and xa < xb:
            shown[ya:yb, xa:xb] = True
            require(np.array_equal(out[ya:yb, xa:xb], orig[ya - y0:yb - y0, xa - x0:xb - x0]), lambda: "frame %d is not shown at x %d, y %d" % (k, x0, y0))
        rest = out[~shown].astype(float)
        tol = 1e-6 if np.dtype(dt).kind == "f" else 1.0
        d = back[~shown] - rest
        require((np.abs(d) <= tol).all() and (prev is not None or (rest == 0).all()), lambda: "around frame %d: not the faded previous image" % k)
        frame[...] = 0  # the image does not hang on the caller's frame
        for a, b in kept:
            require(np.array_equal(a, b), "an image returned earlier changed")
        kept.append((out, out.copy()))
        prev = out.astype(float)
        rec.step()
        rec.state((case[:5], mv, out.tobytes()))
        if k:
            require(out is not kept[-2][0], "an image returned earlier is reused")
    for a, b in kept:
        require(np.array_equal(a, b), "a returned image changed")
    rec.outcome((case[:5], out.tobytes()))


def moveset(h, w):
    return [(0, 0), (1, 0), (0, -1), (-2, 3), (2.3, -1.7), (w, 0), (-w, h), (0, 2 * h), (3 * w + 1, 1), (-3 * w - 1, -h // 2), (1, -4 * h - 7), (0.2, 0.4), (1000.0, -1000.0)]


def shards(tier):
    out = [("single", s, sc) for s in SIZES for sc in (2, 1, 3, 1.5, 0.5, 0.8)]
    n = 4 if tier == "thorough" else 3
    out += [("seq", s, sc, i, n) for s in ((4, 6), (5, 3), (7, 8)) for sc in (2, 1, 0.5, 1.3) for i in range(13)]
    return out


def run_shard(shard, rec):
    if shard[0] == "single":
        _, (h, w), sc = shard
        if round(h * sc) < 1 or round(w * sc) < 1:
            return
        ry, rx = int(h * (2 + sc)) + 2, int(w * (2 + sc)) + 2
        for dy in range(-ry, ry + 1):
            for dx in range(-rx, rx + 1):
                rec.case(((h, w), sc, 0.05, "uint8", 3, ((dx, dy),)))
        for f in (0.1, 0.3, 0.7, 0.9):
            for g in (-0.6, 0.2, 3.9):
                rec.case(((h, w), sc, 0.05, "uint8", 3, ((f, g), (-g, f), (g - 7, f + h))))
    else:
        _, s, sc, i, n = shard
        mv = moveset(*s)
        for rest in itertools.product(mv, repeat=n - 1):
            seq = (mv[i],) + rest
            for att, dt, ch in ((0.05, "uint8", 3), (0, "uint8", 3), (0.5, "uint8", 1), (1, "uint8", 4), (0.25, "float64", 3)) if n == 3 else ((0.05, "uint8", 3), (0.3, "float32", 1)):
                rec.case((s, sc, att, dt, ch, seq))
