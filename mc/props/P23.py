"""P23: drawing shows exactly the requested objects, points and texts."""
import itertools

import cv2
import numpy as np

from ..common import *
from norfair import Palette, draw_boxes, draw_points
from norfair.drawing import Drawable, draw_tracked_boxes, draw_tracked_objects

LEVEL = "exploration"
TECH = "exhaustive enumeration of drawables, options and frames; every image is compared pixel by pixel with one painted by the reference"
RULE = "one execution = one call of a drawing function on one list of drawables with one setting of the options, compared with the expected image; distinct_nontrivial = distinct images drawn"
BOUNDS = {
    "quick": "35 drawables (detections, tracked objects and drawables; every live-point mask; labels, ids and scores present, falsy, absent) x all 2^5 boolean options x 7 color modes x 3 text colors;"
    " all ordered pairs of 18 drawables x 6 option sets; lists of up to 300 drawables; 5 frame shapes x 3 sizes given or default; deprecated parameters and functions",
    "thorough": "all ordered pairs of all drawables x 32 option sets, all triples of 10",
}
ASSUMPTIONS = ["OpenCV's own primitives (circle, rectangle, putText) paint correctly"]

TAB10 = [(180, 119, 31), (14, 127, 255), (44, 160, 44), (40, 39, 214), (189, 103, 148), (75, 86, 140), (194, 119, 227), (127, 127, 127), (34, 189, 188), (207, 190, 23)]


class Rep:
    """reference description of a drawable, with the object given to norfair"""

    def __init__(self, obj, points, live, id, label, scores, arrays):
        self.obj, self.points, self.live, self.id, self.label, self.scores = obj, np.array(points, dtype=float), list(live), id, label, scores
        self.arrays = arrays
        self.keep = [None if a is None else np.array(a, copy=True) for a in arrays]

    def unchanged(self):
        return all(a is None or (np.asarray(a).dtype == k.dtype and np.array_equal(a, k)) for a, k in zip(self.arrays, self.keep))


P3 = [(30.7, 22.2), (61.0, 40.9), (12.3, 33.5)]
P2 = [(20.6, 18.2), (55.9, 41.4)]
LABELS = {"n": None, "s": "cat", "z": 0, "e": "", "t": ("a", 1)}
POOL = []


def build():
    if POOL:
        return POOL

    def det(pts, dt, label, scores):
        a = np.array(pts, dtype=dt)
        s = None if scores is None else np.array(scores)
        d = Detection(a, scores=s, label=label)
        POOL.append(Rep(d, np.atleast_2d(a), [1] * len(np.atleast_2d(a)), None, label, s, [d.points, s]))

    for label, scores in (("n", None), ("s", (0.5, 0.25)), ("z", (0.0, 0.0)), ("e", (0.123456, 0.9)), ("t", None), ("n", (1.0, 0.33333))):
        det(P2, float, LABELS[label], scores)
    det(P2, int, "dog", None)
    det((40.0, 30.0), float, "one", (0.75,))
    det([(-6.0, 10.0), (95.5, 70.2)], float, None, None)  # reaches beyond the frame

    def custom(mask, id, label, scores, pts=P3, default=False):
        a = np.array(pts, dtype=float)
        l = None if default else np.array(mask, dtype=bool)
        s = None if scores is None else np.array(scores)
        kw = dict(points=a, id=id, label=label, scores=s)
        if not default:
            kw["live_points"] = l
        POOL.append(Rep(Drawable(**kw), pts, mask, id, label, s, [a, l, s]))

    for mask in itertools.product((0, 1), repeat=3):
        custom(mask, 7, "m", (0.9, 0.35, 0.05) if sum(mask) % 2 else None)
    custom((1, 1, 1), 0, None, (0.1, 0.2, 0.3))
    custom((1, 1, 1), "id", LABELS["z"], None)
    custom((1, 1, 1), None, None, None)
    custom((1, 1, 1), -3, "", (0.5, 0.5, 0.5))
    custom((1, 1), 12, "box", (0.1, 0.2), pts=P2)
    custom((1, 1), 12, "dflt", (0.1, 0.2), pts=P2, default=True)
    custom((0, 0), 5, "dead", None, pts=P2)
    custom((0, 1), 6, "half", None, pts=P2)

    # tracked objects with every mask of live points, initializing or not, with and without camera motion
    for mask in itertools.product((0, 1), repeat=2):
        for label in ("lbl", None):
            tr = Tracker(static_distance, 50, initialization_delay=0, hit_counter_max=10, pointwise_hit_counter_max=1, detection_threshold=0.5)
            ds = lambda s: [Detection(np.array(P2), scores=np.array(s, dtype=float), label=label)]
            tr.update(ds((1, 1)))
            for _ in range(3):
                tr.update(ds(mask))
            (o,) = tr.tracked_objects
            add_object(o, mask)
    tr = Tracker(static_distance, 50, initialization_delay=5, hit_counter_max=10)
    tr.update([Detection(np.array(P2), label="init")])
    add_object(tr.tracked_objects[0], (1, 1))
    tr = Tracker("mean_euclidean", 50, initialization_delay=0, hit_counter_max=10)
    for k in range(2):
        tr.update([Detection(np.array(P2) + 3 * k, label=3)], coord_transformations=TranslationTransformation(np.array([100.0 - 7 * k, 5.0])))
    add_object(tr.tracked_objects[0], (1, 1))
    return POOL


def add_object(o, mask):
    live = [bool(x) for x in o.live_points]
    POOL.append(Rep(o, o.estimate, live, o.id, o.label, None, [o.estimate, np.array(o.live_points)]))


def text_of(r, labels, ids, scores):
    parts = []
    if labels and r.label is not None:
        parts.append(str(r.label))
    if ids and r.id is not None:
        parts.append(str(r.id))
    if scores and r.scores is not None:
        parts.append(str(np.round(np.mean(r.scores), 4)))
    # an empty label does not start the text
    return "-".join(p for i, p in enumerate(parts) if p or any(parts[:i]))


def put_text(img, text, pos, size, color, thickness):
    if size is None:
        size = min(max(max(img.shape) / 4000, 0.5), 1.5)
    if thickness is None:
        thickness = int(round(size) + 1)
    x, y = pos[0] + thickness // 2, pos[1] - thickness // 2
    cv2.putText(img, text, (x + 1, y + 1), cv2.FONT_HERSHEY_SIMPLEX, size, (0, 0, 0), thickness, cv2.LINE_AA)
    cv2.putText(img, text, (x, y), cv2.FONT_HERSHEY_SIMPLEX, size, color, thickness, cv2.LINE_AA)


HEX = {"#0fa": (0xAA, 0xFF, 0x00), "#10f0a0": (0xA0, 0xF0, 0x10), "red": (0, 0, 255), "white": (255, 255, 255)}


def colour(mode, r):
    if mode in (None, "by_id"):
        key = r.id
    elif mode == "by_label":
        key = r.label
    else:
        return HEX.get(mode, mode) if isinstance(mode, str) else tuple(mode)
    return Palette.choose_color(key)


def paint_points(img, reps, o, colors=None):
    radius = o.get("radius")
    if radius is None:
        radius = int(round(max(max(img.shape) * 0.002, 1)))
    thickness = o.get("thickness")
    if thickness is None:
        thickness = -1
    for k, r in enumerate(reps):
        hide = o.get("hide_dead_points", True)
        if hide and not any(r.live):
            continue
        c = colors[k] if colors else colour(o.get("color", "by_id"), r)
        if o.get("draw_points", True):
            for p, l in zip(r.points, r.live):
                if l or not hide:
                    cv2.circle(img, (int(p[0]), int(p[1])), radius, c, thickness)
        flags = o.get("draw_labels", True), o.get("draw_ids", True), o.get("draw_scores", False)
        text = text_of(r, *flags)
        if text:
            pts = r.points[np.array(r.live, dtype=bool)] if any(r.live) else r.points
            pos = pts.mean(axis=0) - radius
            tc = o.get("text_color")
            put_text(img, text, (int(pos[0]), int(pos[1])), o.get("text_size"), c if tc is None else colour(tc, r), o.get("text_thickness"))


def paint_boxes(img, reps, o, colors=None):
    thickness = o.get("thickness")
    if thickness is None:
        thickness = int(max(img.shape) / 500)
    for k, r in enumerate(reps):
        c = colors[k] if colors else colour(o.get("color", "by_id"), r)
        (x0, y0), (x1, y1) = [(int(x), int(y)) for x, y in r.points[:2]]
        if o.get("draw_box", True):
            cv2.rectangle(img, (x0, y0), (x1, y1), c, thickness)
        text = text_of(r, o.get("draw_labels", False), o.get("draw_ids", True), o.get("draw_scores", False))
        if text:
            tc = o.get("text_color")
            put_text(img, text, (x0 - thickness // 2, y0 - thickness // 2 - 1), o.get("text_size"), c if tc is None else colour(tc, r), o.get("text_thickness"))


def blank(shape):
    h, w = shape[:2]
    y, x = np.mgrid[0:h, 0:w]
    g = ((x * 3 + y * 5) % 64 + 90).astype("uint8")
    return g if len(shape) == 2 else np.stack([g, g + 20, g // 2], axis=2)


def run_case(case, rec):
    kind, which, opts, shape = case
    pool = build()
    o = dict(opts)
    reps = [pool[i] for i in which]
    frame, want = blank(shape), blank(shape)
    old = dict(o)
    fn, paint = {"points": (draw_points, paint_points), "boxes": (draw_boxes, paint_boxes), "old_points": (draw_tracked_objects, None), "old_boxes": (draw_tracked_boxes, None)}[kind]
    objs = [r.obj for r in reps]
    if o.pop("_tuple", False):
        objs = tuple(objs)
    call = dict(o)
    if o.pop("_deprecated", False):  # given under their old names
        call.pop("_deprecated")
        names = dict(color="line_color", thickness="line_width", text_size="label_size", drawables="detections") if kind == "boxes" else dict(text_size="label_size", drawables="detections")
        call = {names.get(k, k): v for k, v in call.items()}
        if o.get("color") == "by_label":
            call.pop(names.get("color", "color"))
            call["color_by_label"] = True
        if o.get("color") == "random" and kind == "boxes":
            call.pop("line_color")
            call["random_color"] = True
        call["detections"] = objs
        got = fn(frame, **call)
    else:
        got = fn(frame, objs, **call)
    if kind == "old_points":
        fs = frame.shape[0] / 100
        paint = paint_points
        o = dict(color=o.get("color") or ("by_label" if o.get("color_by_label") else "by_id"), radius=o.get("radius", int(fs * 0.5)), thickness=None, draw_labels=o.get("draw_labels", False),
                 draw_ids=o.get("id_size", 1) > 0, draw_points=o.get("draw_points", True), text_size=o.get("label_size", int(max(fs / 100, 1))), text_thickness=o.get("id_thickness", int(fs / 5)))
        got = frame if got is None else got
    elif kind == "old_boxes":
        paint = paint_boxes
        o = dict(color=o.get("border_colors") or ("by_label" if o.get("color_by_label") else "by_id"), thickness=o.get("border_width"), text_size=o.get("label_size") or o.get("id_size"),
                 text_thickness=o.get("id_thickness") or o.get("label_width"), draw_labels=o.get("draw_labels", False), draw_ids=bool(o.get("id_size")), draw_box=o.get("draw_box", True))
    require(got is not None and np.shares_memory(got, frame), "the frame drawn on is not returned")
    require(all(r.unchanged() for r in reps), "a drawn object was modified")
    if o.get("color") == "random":
        for cs in itertools.product(TAB10, repeat=len(reps)):
            w = want.copy()
            paint(w, reps, o, cs)
            if np.array_equal(w, got):
                break
        else:
            require(False, "objects are not drawn in colors of the palette")
    else:
        paint(want, reps, o)
        if not np.array_equal(want, got):
            ys, xs = np.nonzero((want != got).reshape(want.shape[0], want.shape[1], -1).any(axis=2))
            require(False, "%d pixels in x %d..%d, y %d..%d differ from the expected drawing" % (len(xs), xs.min(), xs.max(), ys.min(), ys.max()))
    require(np.array_equal(got, frame), "the frame is not drawn on in place")
    rec.outcome((kind, shape, got.tobytes()))


def run_none(case, rec):
    _, kind, arg, shape = case
    fn = {"points": draw_points, "boxes": draw_boxes}[kind]
    frame = blank(shape)
    if arg == "missing":
        got = fn(frame)
    elif arg in ("bad", "badstr"):
        try:
            fn(frame, [object() if arg == "bad" else "x"])
        except ValueError:
            got = frame
        else:
            require(False, "anything can be drawn")
    else:
        got = fn(frame, {"none": None, "list": [], "tuple": ()}[arg])
    require(got is not None and np.shares_memory(got, frame), "the frame drawn on is not returned")
    require(np.array_equal(got, blank(shape)), "something was drawn")
    rec.outcome(case)


_run = run_case


def run_case(case, rec):  # noqa: F811
    return run_none(case, rec) if case[0] == "none" else _run(case, rec)


def setup(tier):
    build()


SHAPE = (60, 90, 3)
COLORS = ["by_id", "by_label", "random", "red", "#0Fa".lower(), "#10f0a0", (1, 2, 250)]


def boolean_sets(kind):
    names = ["draw_labels", "draw_ids", "draw_scores"] + (["draw_points", "hide_dead_points"] if kind == "points" else ["draw_box"])
    for v in itertools.product((False, True), repeat=len(names)):
        yield tuple(zip(names, v))


def boxable():
    return [i for i, r in enumerate(POOL) if len(r.points) == 2]


def shards(tier):
    build()
    out = [("none",), ("many",), ("shapes",), ("old",)]
    out += [("single", kind, i) for kind in ("points", "boxes") for i in range(len(POOL)) if kind == "points" or i in boxable()]
    out += [("pairs", kind, i, tier == "thorough") for kind in ("points", "boxes") for i in range(len(POOL)) if kind == "points" or i in boxable()]
    if tier == "thorough":
        out += [("triples", kind, i) for kind in ("points", "boxes") for i in range(len(POOL)) if kind == "points" or i in boxable()]
    return out


def run_shard(shard, rec):
    build()
    if shard[0] == "none":
        for kind in ("points", "boxes"):
            for arg in ("missing", "none", "list", "tuple", "bad", "badstr"):
                for shape in (SHAPE, (40, 40), (1, 1, 3)):
                    rec.case(("none", kind, arg, shape))
        for i in range(len(POOL)):  # objects are refused only for their type
            rec.case(("points", (i,), (("_tuple", True),), SHAPE))
    elif shard[0] == "many":
        for kind in ("points", "boxes"):
            idx = list(range(len(POOL)) if kind == "points" else boxable())
            for n in (20, 70, 300):
                for o in ((), (("color", "by_label"), ("draw_scores", True)), (("color", "red"), ("draw_ids", False))):
                    rec.case((kind, tuple((idx * 40)[n // 2 : n // 2 + n]), o, SHAPE))
                    rec.case((kind, tuple([idx[3]] * (n - 1) + [idx[-4]]), o, SHAPE))
    elif shard[0] == "single":
        _, kind, i = shard
        for flags in boolean_sets(kind):
            for c in COLORS:
                for tc in (None, "white", "by-none"):
                    o = flags + (("color", c),)
                    if tc == "white":
                        o += (("text_color", "white"),)
                    elif tc == "by-none":
                        o += (("text_color", (9, 200, 3)), ("radius", 4)) if kind == "points" else (("text_color", (9, 200, 3)), ("thickness", 3))
                    rec.case((kind, (i,), o, SHAPE))
        for o in ((), (("color", None),), (("text_size", 0.3),), (("text_size", 1.2), ("text_thickness", 3)), (("thickness", 2),), (("thickness", 1), ("text_thickness", 1), ("draw_scores", True))):
            rec.case((kind, (i,), o, SHAPE))
            if kind == "points":
                rec.case((kind, (i,), o + (("radius", 3),), SHAPE))
            for c in ("by_label", "red" if kind == "boxes" else "by_label", "random" if kind == "boxes" else "by_label"):
                rec.case((kind, (i,), o + (("color", c), ("_deprecated", True)), SHAPE))
        rec.case((kind, (i,), (("_deprecated", True),), SHAPE))
    elif shard[0] == "pairs":
        _, kind, i, full = shard
        others = range(len(POOL)) if kind == "points" else boxable()
        sets = [f + (("color", "by_label"),) for f in boolean_sets(kind)] if full else [
            (), (("draw_labels", True), ("draw_scores", True)), (("color", "by_label"),), (("color", "red"), ("text_color", "white"), ("draw_labels", True)),
            (("hide_dead_points", False),) if kind == "points" else (("draw_box", False),), (("draw_points", False),) if kind == "points" else (("draw_ids", False),)]
        for j in others:
            for o in sets:
                rec.case((kind, (i, j), o, SHAPE))
    elif shard[0] == "triples":
        _, kind, i = shard
        others = list(range(len(POOL)) if kind == "points" else boxable())[::3][:10]
        for j, k in itertools.product(others, repeat=2):
            rec.case((kind, (i, j, k), (("draw_labels", True), ("draw_scores", True)), SHAPE))
    elif shard[0] == "shapes":
        for shape in ((60, 90), (90, 60, 3), (480, 640, 3), (1080, 1920, 3), (30, 900, 3), (3000, 2000, 3), (2200, 10, 3)):
            for kind in ("points", "boxes"):
                for i in range(len(POOL)) if kind == "points" else boxable():
                    if max(shape) > 1000 and i % 4:
                        continue
                    for o in ((), (("draw_labels", True), ("draw_scores", True), ("text_size", 1)), (("radius", 2),) if kind == "points" else (("thickness", 2),)):
                        rec.case((kind, (i,), o + ((("color", "red"),) if len(shape) == 2 else ()), shape))
    else:
        both = list(itertools.product((False, True), repeat=3))
        for shape in (SHAPE, (600, 500, 3), (1080, 1920, 3)):
            for i in range(len(POOL)):
                if max(shape) > 1000 and i % 3:
                    continue
                for a, b, c in both:
                    rec.case(("old_points", (i,), (("color_by_label", a), ("draw_labels", b), ("draw_points", c)), shape))
                rec.case(("old_points", (i,), (("color", "red"), ("id_size", 0), ("radius", 4)), shape))
                rec.case(("old_points", (i,), (("color", (1, 2, 3)), ("id_size", 1), ("id_thickness", 2), ("label_size", 2)), shape))
                if i in boxable():
                    for a, b, c in both:
                        rec.case(("old_boxes", (i,), (("color_by_label", a), ("draw_labels", b), ("draw_box", c)), shape))
                    rec.case(("old_boxes", (i,), (("border_colors", (1, 2, 3)), ("border_width", 3), ("id_size", 1), ("id_thickness", 2)), shape))
                    rec.case(("old_boxes", (i,), (("id_size", 2), ("label_size", 1), ("draw_labels", True), ("label_width", 3)), shape))
