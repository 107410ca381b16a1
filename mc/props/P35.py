"""P35: the MOT evaluation scripts turn a data set into consistent predictions, metrics and videos, whatever is asked for."""
import contextlib
import hashlib
import io
import itertools
import os
import runpy
import shutil
import sys
import types

import cv2
import numpy as np

from ..common import *
from .P19 import scratch
from .P20 import reference
from norfair import draw_boxes
from norfair.camera_motion import MotionEstimator
from norfair.drawing import Drawable

LEVEL = "exploration"
TECH = "exhaustive enumeration of data sets, options and selections; the scripts are executed as a user would and every output is compared with an independent evaluation"
RULE = "one execution = one run of a script on one data set with one setting of the options; distinct_nontrivial = distinct (script, data set, options) outputs"
BOUNDS = {
    "quick": "3 scripts (the ByteTrack one with a stand-in for the missing package) x 6 data sets of 1 to 3 sequences out of 7 scenes (static, leaving the image, panning, gaps and false detections, crossing, textureless, single frame) x all 2^3 options"
    " x output folder default / missing / existing with old results; all ordered selections of sequences of a data set of 3",
    "thorough": "all data sets of 1 and 2 sequences out of the 7 scenes",
}
ASSUMPTIONS = ["motmetrics and OpenCV's video codec are trusted; the tracker, the motion estimator and the drawing functions are checked by other properties and used here to form the expectation",
               "videos are compared within the loss of the codec"]
CASE_TIMEOUT = 120.0

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(norfair.__file__)))
FOLDER = os.path.join(ROOT, "demos", "motmetrics4norfair", "src")
SCRIPTS = {"norfair": "motmetrics4norfair.py", "xyah": "motmetrics4norfair_xyah.py", "byte": "motmetrics4bytetrack.py"}
W, H = 128, 96
_r = np.random.RandomState(11)
WORLD = cv2.resize(_r.randint(0, 256, (30, 40, 3)).astype("uint8"), (320, 240), interpolation=cv2.INTER_CUBIC)

# name: (length, camera per frame, ground truth boxes of frame t, detections of frame t as (box, confidence))
SCENES = {
    "static": (7, lambda t: (20, 20), lambda t: [(10 + 2 * t, 12, 20, 30), (90 - 3 * t, 55.5, 24, 30)], None),
    "pan": (8, lambda t: (20 + 2 * t, 20 + t), lambda t: [(20 + t, 15, 26, 32), (70, 40.25, 20, 40)], None),
    "gaps": (9, lambda t: (20, 25), lambda t: [(15, 10 + 3 * t, 25, 25), (75, 30, 30, 36)],
             lambda t: ([((15, 10 + 3 * t, 25, 25), 0.9)] if t % 4 else []) + ([((76, 30, 29, 36), 0.3)] if t != 3 else []) + ([((50, 5, 10, 10), 0.95)] if t == 5 else [])),
    "cross": (8, lambda t: (30 + t % 2, 20), lambda t: [(5 + 9 * t, 20, 20, 40), (80 - 9 * t, 24, 20, 40)], None),
    "plain": (5, None, lambda t: [(10 + t, 10, 30, 30)], None),
    # a large moving box, partly outside the image: no point of it may be used for estimating the motion of the camera
    "edge": (8, lambda t: (20, 20), lambda t: [(-24 + 3 * t, -14 + t, 84, 76), (-6, 70, 20, 40)], None),
    "single": (1, lambda t: (20, 20), lambda t: [(10, 10, 30, 30)], None),
}


def detections_of(scene, t):
    _, _, gt, det = SCENES[scene]
    return det(t) if det else [(b, 0.9) for b in gt(t)]


def render(scene, t):
    _, cam, gt, _ = SCENES[scene]
    if cam is None:
        f = np.full((H, W, 3), 120, "uint8")
    else:
        x, y = cam(t)
        f = WORLD[y : y + H, x : x + W].copy()
        for n, (bx, by, bw, bh) in enumerate(gt(t)):
            if scene == "edge" and n == 0:
                x0, y0, x1, y1 = int(bx), int(by), int(bx + bw), int(by + bh)
                patch = WORLD[100 : 100 + y1 - y0, 140 : 140 + x1 - x0]
                f[max(y0, 0) : y1, max(x0, 0) : x1] = patch[max(-y0, 0) :, max(-x0, 0) :]
                continue
            cv2.rectangle(f, (int(bx), int(by)), (int(bx + bw), int(by + bh)), (40 * n, 200, 90), -1)
    return f


def make(root, name, scene):
    L, _, gt, _ = SCENES[scene]
    d = os.path.join(root, name)
    for sub in ("img1", "gt", "det"):
        os.makedirs(os.path.join(d, sub))
    with open(os.path.join(d, "seqinfo.ini"), "w") as f:
        f.write("[Sequence]\nname=%s\nimDir=img1\nframeRate=25\nseqLength=%d\nimWidth=%d\nimHeight=%d\nimExt=.png\n" % (name, L, W, H))
    with open(os.path.join(d, "gt", "gt.txt"), "w") as g, open(os.path.join(d, "det", "det.txt"), "w") as e:
        for t in range(1, L + 1):
            cv2.imwrite(os.path.join(d, "img1", "%06d.png" % t), render(scene, t))
            for i, b in enumerate(gt(t)):
                g.write("%d,%d,%s,1,1,1\n" % (t, i + 1, ",".join(map(str, b))))
            for b, c in detections_of(scene, t):
                e.write("%d,-1,%s,%s,-1,-1,-1\n" % (t, ",".join(map(str, b)), c))


def dets(scene, t):
    out = []
    for (x, y, w, h), c in detections_of(scene, t):
        p = np.array([x, y, x + w, y + h], dtype="float32").astype(float).reshape(2, 2)
        out.append(Detection(p, scores=np.array([c, c], dtype="float32").astype(float)))
    return out


def xyah(points):
    (x0, y0), (x1, y1) = points
    return np.array([[(x0 + x1) / 2, (y0 + y1) / 2], [(x1 - x0) / (y1 - y0), y1 - y0]])


def corners(p):
    h = p[1, 1]
    w = p[1, 0] * h
    return np.array([[p[0, 0] - w / 2, p[0, 1] - h / 2], [p[0, 0] + w / 2, p[0, 1] + h / 2]])


def iou(a, b):
    i = max(0, min(a[1, 0], b[1, 0]) - max(a[0, 0], b[0, 0])) * max(0, min(a[1, 1], b[1, 1]) - max(a[0, 1], b[0, 1]))
    area = lambda q: (q[1, 0] - q[0, 0]) * (q[1, 1] - q[0, 1])
    return 1 - i / (area(a) + area(b) - i)


def expected(script, scene):
    """tracks per frame, as lists of (id, corners, live), computed without files"""
    L = SCENES[scene][0]
    out = []
    if script == "norfair":
        tr = Tracker("iou", 0.9, detection_threshold=0.5, pointwise_hit_counter_max=3, hit_counter_max=8, filter_factory=FilterPyKalmanFilterFactory())
        me = MotionEstimator(max_points=500)
        objs = []
        for t in range(1, L + 1):
            ds = dets(scene, t)
            f = render(scene, t)
            mask = np.ones((H, W), "uint8")
            for q in [d.points for d in ds] + [o.estimate for o in objs]:
                q = np.maximum(q.astype(int), 0)
                mask[q[0, 1] : q[1, 1], q[0, 0] : q[1, 0]] = 0
            objs = tr.update(ds, coord_transformations=me.update(f, mask))
            out.append([(o.id, o.estimate.copy(), o.live_points.copy()) for o in objs])
    elif script == "xyah":
        tr = Tracker(lambda d, o: iou(corners(d.points), corners(o.estimate)), 0.9, detection_threshold=0.01, pointwise_hit_counter_max=3, hit_counter_max=2, filter_factory=FilterPyKalmanFilterFactory())
        for t in range(1, L + 1):
            objs = tr.update([Detection(xyah(d.points), scores=d.scores) for d in dets(scene, t)])
            out.append([(o.id, corners(o.estimate), o.live_points.copy()) for o in objs])
    else:
        fake = FakeByte(None, 25)
        last = []
        for t in range(1, L + 1):
            ds = dets(scene, t)
            if ds:
                last = fake.update(np.array([list(d.points.ravel()) + [d.scores[0]] for d in ds]), None, None)
            out.append([(o.track_id, o.tlbr.reshape(2, 2), np.array([True, True])) for o in last])
    return out


class FakeTrack:
    def __init__(self, i, box):
        self.track_id, self.tlbr = i, box


class FakeByte:
    """stand-in for yolox: numbers the boxes from left to right, drops weak ones"""

    def __init__(self, args, rate):
        self.calls = 0

    def update(self, boxes, size, size2):
        assert boxes.ndim == 2 and boxes.shape[1] == 5
        self.calls += 1
        keep = sorted([b for b in boxes.tolist() if b[4] > 0.5])
        return [FakeTrack(10 + n, np.array(b[:4])) for n, b in enumerate(keep)]


EXPECTED = {}


def expectation(script, scene):
    if (script, scene) not in EXPECTED:
        EXPECTED[script, scene] = expected(script, scene)
    return EXPECTED[script, scene]


def drawn(script, scene):
    out = []
    for t, tracks in enumerate(expectation(script, scene), 1):
        f = render(scene, t)
        draw_boxes(f, drawables=dets(scene, t))
        draw_boxes(f, drawables=[Drawable(points=p, id=i, live_points=l) for i, p, l in tracks])
        out.append(f)
    return out


def digest(root):
    h = hashlib.md5()
    for base, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            h.update(os.path.join(base, f).encode())
            with open(os.path.join(base, f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


@contextlib.contextmanager
def user_session(argv, cwd):
    old = sys.argv, os.getcwd(), cv2.waitKey, cv2.destroyAllWindows, {k: sys.modules.get(k) for k in ("yolox", "yolox.tracker", "yolox.tracker.byte_tracker")}
    sys.argv = argv
    os.chdir(cwd)
    cv2.waitKey, cv2.destroyAllWindows = lambda *a: -1, lambda: None
    mod = types.ModuleType("yolox.tracker.byte_tracker")
    mod.BYTETracker = FakeByte
    sys.modules.update({"yolox": types.ModuleType("yolox"), "yolox.tracker": types.ModuleType("yolox.tracker"), "yolox.tracker.byte_tracker": mod})
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            yield buf
    finally:
        sys.argv, _, cv2.waitKey, cv2.destroyAllWindows, mods = old
        os.chdir(old[1])
        for k, v in mods.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def run_case(case, rec):
    _, script, dataset, options, outmode, select = case
    path = os.path.join(FOLDER, SCRIPTS[script])
    d = scratch()
    try:
        data = os.path.join(d, "data set")
        os.makedirs(data)
        for n, scene in dataset:
            make(data, n, scene)
        with open(os.path.join(data, "readme.txt"), "w") as f:
            f.write("not a sequence\n")
        before = digest(data)
        argv = [path, data]
        for on, opt in zip(options, ("--make-video", "--save-pred", "--save-metrics")):
            if on:
                argv.append(opt)
        out = d
        if outmode != "default":
            out = os.path.join(d, "out", "put")
            argv += ["--output-path", out]
        if outmode == "old":
            for sub in ("predictions", "videos"):
                os.makedirs(os.path.join(out, sub))
            with open(os.path.join(out, "predictions", dataset[0][0] + ".txt"), "w") as f:
                f.write("9,9,9,9,9,9,-1,-1,-1,-1\n" * 30)
            with open(os.path.join(out, "metrics.txt"), "w") as f:
                f.write("old\n" * 30)
        names = [n for n, _ in dataset]
        if select is not None:
            names = [names[i] for i in select]
            argv += ["--select-sequences"] + names
        scenes = dict(dataset)
        with user_session(argv, d) as text:
            try:
                runpy.run_path(path, run_name="__main__")
            except SystemExit as e:
                require(e.code in (None, 0), lambda: "the script ends with %r: %s" % (e.code, text.getvalue()[-300:]))
        rec.step(sum(SCENES[scenes[n]][0] for n in names))
        require(digest(data) == before, "the data set was modified")
        video, pred, metrics = options
        # predictions
        ref_files = []
        for n in names:
            want = [(t, i, p) for t, tracks in enumerate(expectation(script, scenes[n]), 1) for i, p, _ in tracks]
            pf = os.path.join(out, "predictions", n + ".txt")
            if pred:
                require(os.path.isfile(pf), lambda: "no predictions of %s" % n)
                lines = open(pf).read().splitlines()
                require(len(lines) == len(want), lambda: "%s: %d predictions saved, %d expected" % (n, len(lines), len(want)))
                for line, (t, i, p) in zip(lines, want):
                    v = [float(x) for x in line.split(",")]
                    b = [p[0, 0], p[0, 1], p[1, 0] - p[0, 0], p[1, 1] - p[0, 1]]
                    require(v[:2] == [t, i] and close(v[2:6], b, 1e-5), lambda: "%s: prediction %s instead of frame %d id %d %s" % (n, line, t, i, b))
            rf = os.path.join(d, "ref-" + n + ".csv")
            with open(rf, "w") as f:
                for t, i, p in want:
                    f.write("%d,%d,%r,%r,%r,%r,-1,-1,-1,-1\n" % (t, i, float(p[0, 0]), float(p[0, 1]), float(p[1, 0] - p[0, 0]), float(p[1, 1] - p[0, 1])))
            ref_files.append((os.path.join(data, n), rf))
            if video:
                cap = cv2.VideoCapture(os.path.join(out, "videos", n + ".mp4"))
                frames = []
                while True:
                    ok, f = cap.read()
                    if not ok:
                        break
                    frames.append(f)
                cap.release()
                ref = drawn(script, scenes[n])
                require(len(frames) == len(ref), lambda: "video of %s has %d frames, not %d" % (n, len(frames), len(ref)))
                for t, (f, r) in enumerate(zip(frames, ref), 1):
                    require(f.shape == r.shape, lambda: "video of %s has frames of shape %s" % (n, f.shape))
                    err = np.abs(f.astype(int) - r).mean()
                    raw = np.abs(f.astype(int) - render(scenes[n], t)).mean()
                    require(err < 20 and (err < raw or np.array_equal(r, render(scenes[n], t))), lambda: "video of %s, frame %d is not the frame with detections and tracks (differs by %.1f, from the plain frame by %.1f)" % (n, t, err, raw))
        # metrics, on the terminal and in the file
        wanted = ["num_false_positives", "num_misses", "num_switches", "num_unique_objects"]
        empty = [n for n in names if not any(expectation(script, scenes[n]))]
        ref = reference(ref_files, wanted, True)
        shown = text.getvalue()
        if metrics:
            table = open(os.path.join(out, "metrics.txt")).read()
            check_table(table, ref, names, select is not None)
        check_table(shown[shown.rindex("IDF1") if "IDF1" in shown else 0 :], ref, names, select is not None, wrapped=True)
        # nothing that was not asked for
        extra = {x for x in os.listdir(out) if not x.startswith("ref-")} - {"data set"} if os.path.isdir(out) else set()
        allowed = {k for k, on in zip(("videos", "predictions", "metrics.txt"), options) if on}
        if outmode == "old":
            allowed |= {"videos", "predictions", "metrics.txt"}
        require(extra <= allowed and (outmode == "old" or extra == allowed), lambda: "output holds %s, asked for %s" % (sorted(extra), sorted(allowed)))
        for sub, end in (("predictions", ".txt"), ("videos", ".mp4")):
            p = os.path.join(out, sub)
            if os.path.isdir(p) and outmode != "old":
                require(sorted(os.listdir(p)) == sorted(n + end for n in names), lambda: "%s holds %s" % (sub, os.listdir(p)))
        rec.outcome((script, dataset, options, outmode, select, tuple(ref[wanted[0]]), len(empty)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


HEADER = "IDF1 IDP IDR Rcll Prcn GT MT PT ML FP FN IDs FM MOTA MOTP IDt IDa IDm".split()


def check_table(text, ref, names, ordered, wrapped=False):
    rows = {}
    order = []
    if wrapped:  # the terminal may break lines: only the names are looked for
        for n in names + ["OVERALL"]:
            require(n in text, lambda: "%s is not in the table shown" % n)
        return
    lines = [l.split() for l in text.splitlines() if l.strip()]
    require(lines and lines[0] == HEADER, lambda: "header %s" % lines[:1])
    for l in lines[1:]:
        require(len(l) == len(HEADER) + 1, lambda: "row %s" % l)
        rows[l[0]] = dict(zip(HEADER, l[1:]))
        order.append(l[0])
    require(sorted(order) == sorted(names + ["OVERALL"]) and order[-1] == "OVERALL", lambda: "rows %s" % order)
    if ordered:
        require(order[:-1] == names, lambda: "rows %s for the selection %s" % (order, names))
    for k, n in enumerate(names + ["OVERALL"]):
        for h, c in (("FP", "num_false_positives"), ("FN", "num_misses"), ("IDs", "num_switches"), ("GT", "num_unique_objects")):
            require(int(rows[n][h]) == int(ref.iloc[k][c]), lambda: "%s of %s is %s, counted %s" % (h, n, rows[n][h], ref.iloc[k][c]))


SETS = [(("A-1", "static"),), (("S.x", "pan"), ("T", "gaps")), (("one", "cross"), ("two", "static"), ("three", "gaps")), (("flat", "plain"), ("short", "single")), (("m", "gaps"),), (("e", "edge"),)]
THREE = (("b", "static"), ("a", "cross"), ("c", "gaps"))


def shards(tier):
    sets = list(SETS)
    if tier == "thorough":
        sets += [(("q", s),) for s in SCENES] + [(("q", s), ("r", z)) for s in SCENES for z in SCENES]
    return [("options", s, ds) for s in SCRIPTS for ds in sets] + [("select", s) for s in SCRIPTS]


def run_shard(shard, rec):
    if shard[0] == "options":
        for n, options in enumerate(itertools.product((0, 1), repeat=3)):
            for outmode in ("default", "missing", "old") if n in (0, 7) else (("default", "missing", "old")[n % 3],):
                rec.case(("run", shard[1], shard[2], options, outmode, None))
    else:
        for n in (1, 2, 3):
            for sel in itertools.permutations(range(3), n):
                rec.case(("run", shard[1], THREE, (0, 1, 1), "missing", sel))
