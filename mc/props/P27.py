"""P27: object tables and cut-outs work for every object and every box."""
import contextlib
import io
import itertools
import os

import numpy as np

from ..common import *
from norfair import get_cutout, print_objects_as_table

LEVEL = "model_checking"
TECH = "exhaustive exploration of tracker histories, printing the table after the last update of every history of the real tracker, and exhaustive enumeration of boxes around small images"
RULE = "one execution = one history with the tables printed after it and parsed, or one cut-out compared pixel by pixel; states = (id, age, hit counter, distance) rows printed; distinct outcomes = distinct tables and cut-outs"
BOUNDS = {
    "quick": "all histories of 5 updates over {none, A, B, A+B, A moved} x 8 tracker configurations (ReID, initialization); tables of up to 300 objects, and of objects of up to 2500 frames; all rectangles with corners from -7..w+7, -6..h+6 on 4 images (point orders, 2-3 points, floats);"
    " all sets of 3 and 4 points over 4 positions per axis, 5 to 301 points (45 sizes) with every side reached by any one of them; tables of lost objects",
    "thorough": "histories of 7 updates",
}
ASSUMPTIONS = ["the table is read back from rich's rendering at a width of 240 columns"]

A, B = 10.0, 300.0
STEPS = {"-": [], "a": [A], "b": [B], "ab": [A, B], "m": [A + 3.25]}
CONF = [
    dict(hit_counter_max=3, initialization_delay=1),
    dict(hit_counter_max=3, initialization_delay=0),
    dict(hit_counter_max=4, initialization_delay=3),
    dict(hit_counter_max=2, initialization_delay=1, reid_hit_counter_max=2),
    dict(hit_counter_max=2, initialization_delay=0, reid_hit_counter_max=1),
    dict(),
    dict(hit_counter_max=3, initialization_delay=1, past_detections_length=0),
    dict(hit_counter_max=1, initialization_delay=0),
]


def table(objs):
    old = os.environ.get("COLUMNS")
    os.environ["COLUMNS"] = "240"
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            require(print_objects_as_table(objs) is None or True, "")
    finally:
        if old is None:
            del os.environ["COLUMNS"]
        else:
            os.environ["COLUMNS"] = old
    text = buf.getvalue()
    rows = []
    for line in text.splitlines():
        for ch in "│┃|║":
            line = line.replace(ch, "\x00")
        if "\x00" in line:
            rows.append([c.strip() for c in line.split("\x00")][1:-1])
    return rows


def run_hist(case, rec):
    _, conf, hist = case
    kw = dict(CONF[conf])
    if "reid_hit_counter_max" in kw:
        kw["reid_distance_function"] = lambda new, old: 0.5
        kw["reid_distance_threshold"] = 1.0
    tr = Tracker(center_distance, 8, filter_factory=NoFilterFactory() if conf % 2 else OptimizedKalmanFilterFactory(), **kw)
    seen = []
    for k, s in enumerate(hist):
        got = tr.update([Detection(np.array([[x, 5.0], [x + 4, 9.0]])) for x in STEPS[s]])
        rec.step()
        if k < len(hist) - 1:  # printed by the shorter histories
            continue
        for objs in (got, tuple(reversed(tr.tracked_objects))):
            rows = table(objs)
            require(len(rows) >= 1 and [h.lower() for h in rows[0]][:3] == ["id", "age", "hit counter"], lambda: "header %r" % rows[:1])
            rows = rows[1:]
            require(len(rows) == len(objs), lambda: "%d rows for %d objects" % (len(rows), len(objs)))
            for r, o in zip(rows, objs):
                require(len(r) == 5 and r[0] == str(o.id) and r[1] == str(o.age) and r[2] == str(o.hit_counter) and r[4] == str(o.initializing_id), lambda: "row %r of object %s" % (r, o))
                if o.last_distance is None:
                    require(not any(ch.isdigit() for ch in r[3]), lambda: "a distance %r of an object that has none" % r[3])
                else:
                    require(abs(float(r[3]) - float(o.last_distance)) <= 1e-4 * (1 + abs(o.last_distance)), lambda: "distance %r instead of %r" % (r[3], o.last_distance))
                rec.state((conf, r[1], r[2], r[3]))
                seen.append((r[1], r[2], r[3]))
    rec.outcome((conf, tuple(seen)))


def run_cut(case, rec):
    _, (h, w, ch), pts, dt = case
    y, x = np.mgrid[0:h, 0:w]
    img = (y * 17 + x * 3).astype("uint8")
    if ch:
        img = np.stack([img, 255 - img, img // 3], axis=2)
    keep = img.copy()
    p = np.array(pts, dtype=dt)
    kp = p.copy()
    got = get_cutout(p, img)
    x0, x1 = int(min(q[0] for q in p.tolist())), int(max(q[0] for q in p.tolist()))
    y0, y1 = int(min(q[1] for q in p.tolist())), int(max(q[1] for q in p.tolist()))
    rows = [r for r in range(h) if y0 <= r < y1]
    cols = [c for c in range(w) if x0 <= c < x1]
    require(np.array_equal(img, keep) and np.array_equal(p, kp), "an argument was modified")
    if not rows or not cols:
        require(got.size == 0, lambda: "cut-out of shape %s of a box without a part of the image" % (got.shape,))
    else:
        want = np.array([[keep[r, c] for c in cols] for r in rows])
        require(np.array_equal(got, want), lambda: "cut-out of shape %s, expected %s (%s)" % (got.shape, want.shape, (x0, x1, y0, y1)))
    rec.outcome((h, w, ch, got.shape, got.tobytes()))
    rec.step()


def run_many(case, rec):
    """tables of many objects, some with long numbers"""
    _, n, frames, delay = case
    tr = Tracker(center_distance, 8, hit_counter_max=10 ** 6, initialization_delay=delay, filter_factory=NoFilterFactory())
    for t in range(frames):
        got = tr.update([Detection(np.array([[100.0 * i + t, 5.0], [100.0 * i + 4 + t, 9.0]])) for i in range(n if t else n // 2)], period=1 if t % 3 else 1000)
    for objs in (got, tr.tracked_objects, got[: n // 2]):
        rows = table(objs)[1:]
        require(len(rows) == len(objs), lambda: "%d rows for %d objects" % (len(rows), len(objs)))
        for r, o in zip(rows, objs):
            require(r[0] == str(o.id) and r[1] == str(o.age) and r[2] == str(o.hit_counter) and r[4] == str(o.initializing_id), lambda: "row %r of object %s" % (r, o))
    rec.outcome(case)
    rec.step(frames)


def run_case(case, rec):
    if case[0] == "many":
        return run_many(case, rec)
    return run_hist(case, rec) if case[0] == "hist" else run_cut(case, rec)


IMAGES = [(4, 6, 0), (5, 3, 3), (1, 1, 0), (7, 2, 3)]


def shards(tier):
    n = 7 if tier == "thorough" else 5
    return [("many", n) for n in (20, 40, 70, 130, 300)] + [("cut", i) for i in range(len(IMAGES))] + [("points", k) for k in range(8)] + [("hist", c, s, n) for c in range(len(CONF)) for s in STEPS]


def run_shard(shard, rec):
    if shard[0] == "many":
        for frames, delay in ((1, 0), (2, 1), (7, 0), (5, 3)):
            rec.case(("many", shard[1], frames, delay))
        if shard[1] == 20:
            for frames in (100, 101, 1000, 1001, 1025, 2500):
                rec.case(("many", 1, frames, 0))
                rec.case(("many", 3, frames, 2))
        return
    if shard[0] == "hist":
        for n in range(shard[3]):
            for rest in itertools.product(STEPS, repeat=n):
                rec.case(("hist", shard[1], (shard[2],) + rest))
        return
    if shard[0] == "points":
        grid = list(itertools.product((0, 2, 5, 7), (1, 3, 4, 6)))
        im = (8, 9, 3)
        for p in itertools.product(grid[shard[1]::8], grid, grid):
            rec.case(("cut", im, p, "int64"))
        for p in itertools.product(grid[shard[1]::8], ((0, 3), (5, 1)), grid[::3], grid):
            rec.case(("cut", im, p, "float64"))
        for n in SIZES[shard[1]::8]:
            for i in sorted({0, 1, 2, n // 2, n - 2, n - 1}):
                for extreme in ((0, 4), (8, 4), (4, 0), (4, 7)):
                    p = [(3 + k % 3, 3 + k // 3 % 3) for k in range(n)]
                    p[i] = extreme
                    rec.case(("cut", im, tuple(p), "float64"))
        return
    im = IMAGES[shard[1]]
    h, w, _ = im
    xs = [(a, b) for a in range(-7, w + 8) for b in range(a, w + 8)]
    ys = [(a, b) for a in range(-6, h + 7) for b in range(a, h + 7)]
    for (a, b), (c, d) in itertools.product(xs, ys):
        k = (a + b + c + d) % 4
        pts = [((a, c), (b, d)), ((b, d), (a, c)), ((a, d), (b, c)), ((b, c), (a, c), (a, d))][k]
        rec.case(("cut", im, pts, "int64"))
        if (b - a) % 3 == 0 and (d - c) % 2 == 0:
            f = tuple((p[0] + 0.25, p[1] + 0.75) for p in pts)
            rec.case(("cut", im, f, "float64"))
    rec.case(("cut", im, ((2, 1),), "int64"))
