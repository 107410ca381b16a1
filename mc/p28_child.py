"""Runs every feature of norfair in a process in which some optional dependencies cannot be imported.

argv: directory with files, blocked modules (comma separated), mode, order; prints one JSON object.
"""
import hashlib
import importlib.abc
import json
import os
import sys

scratch, blocked, mode, order = sys.argv[1:5]
blocked = [b for b in blocked.split(",") if b]


class Blocker(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in blocked:
            if mode == "broken":
                raise ImportError("lib%s.so.1: cannot open shared object file" % name)
            raise ModuleNotFoundError("No module named %r" % name, name=name)


for m in list(sys.modules):
    assert m.split(".")[0] not in ("cv2", "motmetrics", "pandas"), m
sys.meta_path.insert(0, Blocker())
import logging
import warnings

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
result = {}
out = os.dup(1)
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
os.dup2(null, 2)
try:
    import norfair
    import norfair.camera_motion
    import norfair.distances
    import norfair.drawing
    import norfair.filter
    import norfair.metrics
    import norfair.tracker
    import norfair.utils
    import norfair.video
except BaseException as e:
    os.write(out, json.dumps({"import": [type(e).__name__, str(e)]}).encode())
    sys.exit(0)
import numpy as np
from norfair import *
from norfair import drawing, metrics
from norfair.camera_motion import *
from norfair.drawing.color import hex_to_bgr, parse_color

FEATURES = {}


def feature(*needs):
    def deco(fn):
        FEATURES[fn.__name__] = (needs, fn)
        return fn

    return deco


def r(x):
    return np.round(np.asarray(x, dtype=float), 8).tolist()


def history(tr, cam=None):
    rows = []
    for k in range(6):
        dets = [Detection(np.array([[10.0 + 3 * k, 5.0 + j * 40], [14.0 + 3 * k, 12.0 + j * 40]]), scores=np.array([0.9, 0.4 + j]), label="ab"[j]) for j in range(2 if k != 3 else 1)]
        kw = {} if cam is None else dict(coord_transformations=cam(k))
        rows.append(sorted([r(o.estimate), r(o.estimate_velocity), o.age, o.hit_counter, r(o.live_points)] for o in tr.update(dets, **kw)))
    return rows


@feature()
def track_filters():
    return [history(Tracker("mean_euclidean", 30, initialization_delay=1, filter_factory=f())) for f in (OptimizedKalmanFilterFactory, FilterPyKalmanFilterFactory, NoFilterFactory)]


@feature()
def track_distances():
    return [history(Tracker(d, t, initialization_delay=0)) for d, t in (("iou", 0.9), ("frobenius", 40), ("mean_manhattan", 40), ("euclidean", 40), ("cityblock", 60), (lambda a, b: float(np.abs(a.points - b.estimate).max()), 20))]


@feature()
def track_camera():
    h = lambda k: HomographyTransformation(np.array([[1.0, 0.01 * k, 3.0 * k], [0.0, 1.0, -k], [0, 0, 1]]))
    return [history(Tracker("mean_euclidean", 30), lambda k: TranslationTransformation(np.array([-3.0 * k, 1.0]))), history(Tracker("iou", 0.9), h)]


@feature()
def reid():
    tr = Tracker("mean_euclidean", 10, initialization_delay=0, hit_counter_max=2, reid_distance_function=lambda a, b: 0.1, reid_distance_threshold=1, reid_hit_counter_max=5)
    rows = []
    for k in (0, 0, None, None, None, 500, 500, 500):
        rows.append([[o.age, r(o.estimate)] for o in tr.update([] if k is None else [Detection(np.array([[k, 1.0]]))])])
    return rows


@feature()
def transformations():
    p = np.array([[1.0, 2.0], [30.0, -4.0]])
    t, h = TranslationTransformation(np.array([3.0, 4.0])), HomographyTransformation(np.array([[1.0, 0.1, 3], [0, 1.2, 4], [0.001, 0, 1]]))
    return [r(f(p)) for x in (t, h) for f in (x.abs_to_rel, x.rel_to_abs)]


@feature()
def translation_getter():
    g = TranslationTransformationGetter()
    p = np.array([[1.0, 2.0], [5.0, 9.0], [7.0, 7.0]])
    return [[bool(u), r(t.abs_to_rel(p))] for u, t in (g(p + 2.0, p), g(p + 4.0, p))]


@feature()
def colors():
    Palette.set("tab20")
    return [hex_to_bgr("#01fF7a"), parse_color("red"), parse_color((1, 2, 3)), [Palette.choose_color(k) for k in range(25)], Palette.choose_color(None)]


@feature()
def drawable():
    d = Drawable(Detection(np.array([[1.0, 2.0]]), label="x")) if "Drawable" in globals() else drawing.Drawable(Detection(np.array([[1.0, 2.0]]), label="x"))
    return [r(d.points), d.label, r(d.live_points)]


@feature()
def fixed_camera():
    c = drawing.FixedCamera()
    f = np.arange(60, dtype="uint8").reshape(4, 5, 3)
    return [c.adjust_frame(f, TranslationTransformation(np.array([k, -k]))).tolist() for k in range(3)]


@feature()
def draw_nothing():
    f = np.zeros((10, 10, 3), "uint8")
    return [draw_points(f, []).tolist(), draw_boxes(f, []).tolist(), draw_points(f, None) is f, draw_boxes(f, None) is f]


@feature()
def table_and_cutout():
    tr = Tracker("mean_euclidean", 30, initialization_delay=0)
    print_objects_as_table(tr.update([Detection(np.array([[1.0, 2.0]]))]))
    return get_cutout(np.array([[1, 1], [3, 4]]), np.arange(30).reshape(5, 6)).tolist()


@feature()
def information():
    i = metrics.InformationFile(os.path.join(scratch, "seq", "seqinfo.ini"))
    return [i.search("seqLength"), i.search("name"), i.search("imExt")]


@feature()
def read_detections():
    p = metrics.DetectionFileParser(os.path.join(scratch, "seq"))
    return [[[r(d.points), r(d.scores)] for d in f] for f in p]


@feature()
def write_predictions():
    save = os.path.join(scratch, "save-%d" % os.getpid())
    w = metrics.PredictionsTextFile(os.path.join(scratch, "seq"), save)
    tr = Tracker("iou", 0.9, initialization_delay=0)
    for f in metrics.DetectionFileParser(os.path.join(scratch, "seq")):
        w.update(tr.update(f))
    lines = open(os.path.join(save, "predictions", "seq.txt")).read().splitlines()
    return [[l.split(",")[0]] + r([float(v) for v in l.split(",")[2:]]) for l in lines]


def objects():
    tr = Tracker("mean_euclidean", 30, initialization_delay=0)
    return tr.update([Detection(np.array([[10.0, 12.0], [20.0, 30.0]]), label="x")])


def dets():
    return [Detection(np.array([[10.0, 12.0], [20.0, 30.0]]), label="x")]


def blank():
    return np.zeros((50, 60, 3), "uint8")


def digest(a):
    return hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest()


@feature("cv2")
def points():
    return digest(draw_points(blank(), dets()))


@feature("cv2")
def boxes():
    return digest(draw_boxes(blank(), dets()))


@feature("cv2")
def old_points():
    f = blank()
    drawing.draw_tracked_objects(f, objects(), color="red")
    return digest(f) != digest(blank())


@feature("cv2")
def old_boxes():
    return digest(drawing.draw_tracked_boxes(blank(), objects(), border_colors=(1, 2, 3)))


@feature("cv2")
def paths():
    return digest(Paths(color=(1, 2, 3)).draw(blank(), objects()))


@feature("cv2")
def absolute_paths():
    return digest(AbsolutePaths(color=(1, 2, 3)).draw(blank(), objects()))


@feature("cv2")
def grid():
    f = blank()
    drawing.draw_absolute_grid(f, None)
    return digest(f)


def scene(dx):
    y, x = np.mgrid[0:120, 0:160]
    return (np.random.RandomState(3).rand(200, 260)[20:140, 20 + dx:180 + dx] * 255).astype("uint8")[..., None].repeat(3, axis=2)


@feature("cv2")
def motion_translation():
    m = MotionEstimator(transformations_getter=TranslationTransformationGetter())
    return [r(m.update(scene(d)).abs_to_rel(np.array([[5.0, 5.0]]))) for d in (0, 2)]


@feature("cv2")
def motion_homography():
    m = MotionEstimator()
    return [r(np.round(m.update(scene(d)).abs_to_rel(np.array([[5.0, 5.0]])))) for d in (0, 2)]


@feature("cv2")
def homography_getter():
    g = HomographyTransformationGetter()
    p = np.array([[1.0, 2.0], [50.0, 9.0], [7.0, 70.0], [60.0, 66.0], [30.0, 22.0]])
    u, t = g(p + 3.0, p)
    return [bool(u), r(np.round(t.abs_to_rel(p), 3))]


@feature("cv2")
def video():
    v = Video(input_path=os.path.join(scratch, "v.avi"), output_path=os.path.join(scratch, "out-%d.avi" % os.getpid()))
    n = 0
    for f in v:
        v.write(f)
        n += 1
    return n


@feature("cv2")
def frames():
    return [digest(f) for f in norfair.video.VideoFromFrames(os.path.join(scratch, "seq"))]


@feature("cv2")
def frames_video():
    save = os.path.join(scratch, "fv-%d" % os.getpid())
    os.makedirs(os.path.join(save, "videos"), exist_ok=True)
    v = norfair.video.VideoFromFrames(os.path.join(scratch, "seq"), save_path=save, make_video=True)
    return len([v.update(f) for f in v])


@feature("cv2")
def camera():
    if not blocked or "cv2" not in blocked:
        return 0  # there is no camera here
    Video(camera=0)


@feature("motmetrics", "pandas")
def accumulate():
    a = metrics.Accumulators()
    a.create_accumulator(os.path.join(scratch, "seq"))
    tr = Tracker("iou", 0.9, initialization_delay=0)
    for f in metrics.DetectionFileParser(os.path.join(scratch, "seq")):
        a.update(tr.update(f))
    df = a.compute_metrics()
    a.save_metrics(os.path.join(scratch, "m-%d" % os.getpid()))
    return [str(df.loc["OVERALL", "mota"]), len(open(os.path.join(scratch, "m-%d" % os.getpid(), "metrics.txt")).read())]


@feature("motmetrics", "pandas")
def create_accumulator():
    metrics.Accumulators().create_accumulator(os.path.join(scratch, "seq"))


@feature("motmetrics", "pandas")
def compute_nothing():
    try:
        metrics.Accumulators().compute_metrics()
    except ImportError:
        raise
    except Exception:
        pass  # there is nothing to evaluate


@feature("motmetrics", "pandas")
def load():
    df = metrics.load_motchallenge(np.array([[1, 1, 3.0, 4.0, 5.0, 6.0, -1, -1, -1, -1]]))
    return r(df.values)


@feature("motmetrics", "pandas")
def evaluate():
    _, df = metrics.eval_motChallenge([np.array([[1, 1, 3.0, 4.0, 5.0, 6.0, -1, -1, -1, -1]])], [os.path.join(scratch, "seq")])
    return len(df)


names = list(FEATURES)
if order == "reversed":
    names.reverse()
elif order != "forward":  # one feature several times around all others
    names = [order] + names + [order]
for n in names:
    needs, fn = FEATURES[n]
    try:
        got = ["ok", fn()]
    except BaseException as e:
        got = [type(e).__name__, str(e), isinstance(e, ImportError)]
    result.setdefault(n, []).append([list(needs), got])
os.write(out, json.dumps(result).encode())
