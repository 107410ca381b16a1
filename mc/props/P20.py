"""P20: in-memory MOT evaluation equals evaluating the same tracks from file, and counts what happened."""
import itertools
import math
import os
import shutil

import motmetrics as mm
import numpy as np

from ..common import *
from .P13 import merges
from .P19 import INFO, STYLES, inside, scratch, spelled
from norfair import metrics as M

LEVEL = "exploration"
TECH = "exhaustive enumeration of prediction histories evaluated in memory, from file and by an independent count"
RULE = "one execution = one evaluation of one or several sequences, compared metric by metric; distinct_nontrivial = distinct (history, misses, false positives, switches)"
BOUNDS = {
    "quick": "all histories of 3 frames (2 ground truth objects) over 9 actions per frame, evaluated in sets of 27 sequences; all histories of 1 and 2 frames and all pairs of 1-frame ones alone;"
    " 3 metric selections, with and without overall row; sets of sequences with equal names in different folders in 6 spellings, long and unusual names (spaces, percent signs, non-ASCII letters, leading dots); all interleavings of two accumulators (4 pairs of histories);"
    " the same sequence evaluated two and three times; coordinates scaled by 0.001, 0.01 and 1000; 5 to 160 targets or frames (32 sizes)",
    "thorough": "all histories of 4 frames",
}
ASSUMPTIONS = ["motmetrics itself is trusted for the file-based evaluation; boxes of different objects do not overlap"]
CASE_TIMEOUT = 120.0

# ground truth: object 1 and 2 in frames 1..L
GT = {1: lambda t: (100.0 + 3.3 * t, 50.25, 20.0, 40.7), 2: lambda t: (300.123, 60.0 + 2.15 * t, 30.0, 30.5)}


def frame_boxes(action, t):
    """what is predicted in frame t: list of (id, box)"""
    a, b = GT[1](t), GT[2](t)
    far = (600.0, 10.0 * t, 15.0, 15.0)
    near = (a[0] + 2.375, a[1] + 1.4, a[2] + 0.3, a[3] - 0.45)
    off = (a[0] + 15.0, a[1], a[2], a[3])
    return {
        "both": [(1, a), (2, b)], "rev": [(2, b), (1, a)], "none": [], "one": [(1, a)], "two": [(2, b)], "swap": [(1, b), (2, a)],
        "extra": [(3, far), (1, a), (2, b)], "near": [(1, near), (2, b)], "off": [(1, off), (2, b)], "new": [(3, a)],
    }[action]


ACTIONS = ("both", "none", "one", "two", "swap", "extra", "near", "off", "new")
OBJ = {}


def obj(box, id_):
    """a tracked object with the given id and box"""
    key = (box, id_)
    if key not in OBJ:
        tr = Tracker("euclidean", 1e-3, hit_counter_max=3, initialization_delay=0, filter_factory=NoFilterFactory())
        x, y, w, h = box
        dets = [Detection(np.array([[5000.0 * k, 5000.0], [5000.0 * k + 1, 5001.0]])) for k in range(1, id_)]
        tr.update(dets + [Detection(np.array([[x, y], [x + w, y + h]]))])
        o = [o for o in tr.tracked_objects if o.id == id_][0]
        OBJ[key] = (tr, o)
    return OBJ[key][1]


def count(hist):
    """independent count of misses, false positives, switches and matches"""
    last = {}
    miss = fp = sw = 0
    for t, action in enumerate(hist, 1):
        pred = frame_boxes(action, t)
        used = set()
        for g in (1, 2):
            x, y, w, h = GT[g](t)
            hit = None
            for n, (i, b) in enumerate(pred):
                iw = min(x + w, b[0] + b[2]) - max(x, b[0])
                ih = min(y + h, b[1] + b[3]) - max(y, b[1])
                inter = max(iw, 0) * max(ih, 0)
                if inter / (w * h + b[2] * b[3] - inter) >= 0.5:
                    hit, idx = i, n
            if hit is None:
                miss += 1
            else:
                used.add(idx)
                if g in last and last[g] != hit:
                    sw += 1
                last[g] = hit
        fp += len(pred) - len(used)
    return miss, fp, sw, 2 * len(hist)


def write_sequence(root, name, L, scale=1.0):
    d = os.path.join(root, name)
    os.makedirs(os.path.join(d, "gt"))
    with open(os.path.join(d, "seqinfo.ini"), "w") as f:
        f.write(INFO % L)
    with open(os.path.join(d, "gt", "gt.txt"), "w") as f:
        for t in range(1, L + 1):
            for g in (1, 2):
                f.write("%d,%d,%s,1,1,1\n" % (t, g, ",".join(repr(v * scale) for v in GT[g](t))))
            f.write("%d,9,%d,400,10,10,0,1,1\n" % (t, 10 * t))  # not to be considered
    return d


def same(a, b):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-6 * (1 + abs(b))


def reference(pairs, wanted, overall):
    """pairs of sequence folder and prediction file, evaluated by motmetrics alone"""
    accs = []
    for s, f in pairs:
        gt = mm.io.loadtxt(os.path.join(s, "gt", "gt.txt"), fmt="mot15-2D", min_confidence=1)
        ts = mm.io.loadtxt(f, fmt="mot15-2D", min_confidence=-1) if os.path.getsize(f) else gt.iloc[0:0]
        accs.append(mm.utils.compare_to_groundtruth(gt, ts, "iou", distth=0.5))
    mm.lap.default_solver = "scipy"
    return mm.metrics.create().compute_many(accs, names=list(range(len(accs))), metrics=wanted, generate_overall=overall)


WANTED = ["num_misses", "num_false_positives", "num_switches", "mota", "motp", "idf1"]


def run_names(case, rec):
    """sequences in several folders, whatever their names and however these are written"""
    _, layout, style, hists = case
    d = scratch()
    try:
        acc = M.Accumulators()
        pairs = []
        with inside(os.path.join(d), "relative" if style.startswith("relative") else ""):
            for n, (name, hist) in enumerate(zip(layout, hists)):
                s = write_sequence(d, name, len(hist))
                acc.create_accumulator(os.path.relpath(s, d) + ("/" if "slash" in style else "") if style.startswith("relative") else spelled(s, style))
                pf = M.PredictionsTextFile(s, save_path=os.path.join(d, "p%d" % n))
                for t, a in enumerate(hist, 1):
                    objs = [obj(b, i) for i, b in frame_boxes(a, t)]
                    acc.update(objs)
                    pf.update(objs)
                    rec.step()
                pairs.append((s, os.path.join(d, "p%d" % n, "predictions", os.path.basename(name) + ".txt")))
            df = acc.compute_metrics(metrics=WANTED)
        ref = reference(pairs, WANTED, True)
        rows = list(df.index)
        require(len(rows) == len(layout) + 1 and len(set(rows)) == len(rows), lambda: "rows %s for the sequences %s" % (rows, list(layout)))
        require(rows[-1] == "OVERALL", lambda: "rows %s" % rows)
        bases = [os.path.basename(n) for n in layout]
        for k, b in enumerate(bases):
            if bases.count(b) == 1 and not any(x != b and b.startswith(x) for x in bases):
                require(rows[k] == b, lambda: "row %d is %s, the sequence is %s" % (k, rows[k], b))
            require(str(rows[k]).startswith(b), lambda: "row %d is %s, the sequence is %s" % (k, rows[k], b))
        for k in range(len(rows)):
            for c in WANTED:
                require(same(df.iloc[k][c], ref.iloc[k][c]), lambda: "%s of row %s (%s) is %s, evaluating the file gives %s" % (c, k, rows[k], df.iloc[k][c], ref.iloc[k][c]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome(case)


def run_interleaved(case, rec):
    """two accumulators, fed in turns"""
    _, hists, order = case
    d = scratch()
    try:
        accs = [M.Accumulators() for _ in hists]
        pairs, pfs, pos = [], [], [0] * len(hists)
        for n, hist in enumerate(hists):
            s = write_sequence(d, "Q%d" % n, len(hist))
            pfs.append(M.PredictionsTextFile(s, save_path=d))
            pairs.append((s, os.path.join(d, "predictions", "Q%d.txt" % n)))
        for k in order:
            if pos[k] == 0:
                accs[k].create_accumulator(pairs[k][0])
            pos[k] += 1
            objs = [obj(b, i) for i, b in frame_boxes(hists[k][pos[k] - 1], pos[k])]
            accs[k].update(objs)
            pfs[k].update(objs)
            rec.step()
        for k, acc in enumerate(accs):
            df = acc.compute_metrics(metrics=WANTED, generate_overall=False)
            ref = reference(pairs[k:k + 1], WANTED, False)
            for c in WANTED:
                require(same(df.iloc[0][c], ref.iloc[0][c]), lambda: "%s of accumulator %d is %s, evaluating the file gives %s" % (c, k, df.iloc[0][c], ref.iloc[0][c]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome(case)


def run_repeated(case, rec):
    """one sequence evaluated several times, and coordinates that are not pixels"""
    _, hists, scale = case
    d = scratch()
    try:
        acc = M.Accumulators()
        pairs = []
        L = len(hists[0])
        s = write_sequence(d, "S", L, scale)
        for n, hist in enumerate(hists):
            acc.create_accumulator(s)
            pf = M.PredictionsTextFile(s, save_path=os.path.join(d, "p%d" % n))
            for t, a in enumerate(hist, 1):
                objs = [obj(tuple(v * scale for v in b), i) for i, b in frame_boxes(a, t)]
                acc.update(objs)
                pf.update(objs)
                rec.step()
            pairs.append((s, os.path.join(d, "p%d" % n, "predictions", "S.txt")))
        df = acc.compute_metrics()
        ref = reference(pairs, list(mm.metrics.motchallenge_metrics), True)
        require(len(df) == len(hists) + 1, lambda: "rows %s for one sequence evaluated %d times" % (list(df.index), len(hists)))
        for k in range(len(hists) + 1):
            for c in ref.columns:
                require(same(df.iloc[k][c], ref.iloc[k][c]), lambda: "%s of row %d is %s, evaluating the file gives %s" % (c, k, df.iloc[k][c], ref.iloc[k][c]))
            if k < len(hists):
                check_counts(df.iloc[k], count(hists[k]), "row %d" % k)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome(case)


def run_big(case, rec):
    """many targets, many frames"""
    _, n, L = case
    d = scratch()
    try:
        s = os.path.join(d, "S")
        os.makedirs(os.path.join(s, "gt"))
        with open(os.path.join(s, "seqinfo.ini"), "w") as f:
            f.write(INFO % L)
        box = lambda k, t: (50.0 * k + 1.5 * t, 30.0 + k % 7, 20.0, 40.0)
        with open(os.path.join(s, "gt", "gt.txt"), "w") as f:
            for t in range(1, L + 1):
                for k in range(n):
                    f.write("%d,%d,%s,1,1,1\n" % (t, k + 1, ",".join(repr(v) for v in box(k, t))))
        acc = M.Accumulators()
        acc.create_accumulator(s)
        pf = M.PredictionsTextFile(s, save_path=d)
        tr = Tracker("euclidean", 10, hit_counter_max=2, initialization_delay=0, filter_factory=NoFilterFactory())
        miss = fp = 0
        for t in range(1, L + 1):
            dets = []
            for k in range(n):
                x, y, w, h = box(k, t)
                if k % 3 == 2:  # always far off
                    y += 5000.0
                dets.append(Detection(np.array([[x, y], [x + w, y + h]])))
            objs = tr.update(dets)
            require(len(objs) == n, "set-up: %d objects" % len(objs))
            gone = [o for o in objs if o.id % 5 == 0 and t % 2]
            objs = [o for o in objs if o not in gone]
            off = sum(1 for o in objs if o.estimate[0, 1] > 4000)
            miss += n - len(objs) + off
            fp += off
            acc.update(objs)
            pf.update(objs)
            rec.step()
        df = acc.compute_metrics(metrics=WANTED)
        ref = reference([(s, os.path.join(d, "predictions", "S.txt"))], WANTED, True)
        for k in range(2):
            for c in WANTED:
                require(same(df.iloc[k][c], ref.iloc[k][c]), lambda: "%s is %s, evaluating the file gives %s" % (c, df.iloc[k][c], ref.iloc[k][c]))
            got = (int(df.iloc[k]["num_misses"]), int(df.iloc[k]["num_false_positives"]), int(df.iloc[k]["num_switches"]))
            require(got == (miss, fp, 0), lambda: "%d targets, %d frames: misses, false positives, switches %s, counted %s" % (n, L, got, (miss, fp, 0)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome(case)


def run_case(case, rec):
    if case[0] == "rep":
        return run_repeated(case, rec)
    if case[0] == "big":
        return run_big(case, rec)
    if case[0] == "names":
        return run_names(case, rec)
    if case[0] == "inter":
        return run_interleaved(case, rec)
    _, hists, selection, overall = case
    d = scratch()
    try:
        acc = M.Accumulators()
        dirs, files = [], []
        for n, hist in enumerate(hists):
            s = write_sequence(d, "S%02d-x.y" % n, len(hist))
            dirs.append(s)
            explicit = {} if n % 2 else dict(information_file=M.InformationFile(os.path.join(s, "seqinfo.ini")))
            acc.create_accumulator(s, **explicit)
            pf = M.PredictionsTextFile(s, save_path=d)
            for t, a in enumerate(hist, 1):
                objs = [obj(b, i) for i, b in frame_boxes(a, t)]
                if objs or t % 2:
                    acc.update(predictions=objs)
                else:
                    acc.update()
                pf.update(objs)
                rec.step()
            files.append(os.path.join(d, "predictions", "S%02d-x.y.txt" % n))
        metrics = None if selection == "all" else selection.split()
        df = acc.compute_metrics(metrics=metrics, generate_overall=bool(overall))
        again = acc.compute_metrics(metrics=metrics, generate_overall=bool(overall))
        names = ["S%02d-x.y" % n for n in range(len(hists))] + (["OVERALL"] if overall else [])
        require(list(df.index) == names, lambda: "rows %s" % list(df.index))
        wanted = list(mm.metrics.motchallenge_metrics) if metrics is None else metrics
        require(sorted(df.columns) == sorted(wanted), lambda: "columns %s" % list(df.columns))
        # reference: the same tracks read from file by motmetrics
        ref = reference(list(zip(dirs, files)), wanted, bool(overall))
        ref.index = names
        for row in names:
            for c in wanted:
                require(same(df.loc[row, c], ref.loc[row, c]), lambda: "%s of %s is %s, evaluating the file gives %s" % (c, row, df.loc[row, c], ref.loc[row, c]))
                require(same(df.loc[row, c], again.loc[row, c]), lambda: "%s of %s changes when computed again" % (c, row))
        if metrics is None:
            tot = [0, 0, 0, 0]
            for n, hist in enumerate(hists):
                cnt = count(hist)
                tot = [a + b for a, b in zip(tot, cnt)]
                check_counts(df.loc[names[n]], cnt, names[n])
                rec.outcome((hist, cnt))
            if overall:
                check_counts(df.loc["OVERALL"], tot, "OVERALL")
            acc.save_metrics(save_path=os.path.join(d, "m"), file_name="x.txt")
            with open(os.path.join(d, "m", "x.txt")) as f:
                text = f.read()
            require(text == acc.summary_text and all(n in text for n in names), "saved metrics are not the summary")
        else:
            rec.outcome((hists, selection, overall))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_counts(row, cnt, name):
    miss, fp, sw, total = cnt
    got = (int(row["num_misses"]), int(row["num_false_positives"]), int(row["num_switches"]))
    require(got == (miss, fp, sw), lambda: "%s: misses, false positives, switches %s, counted %s" % (name, got, (miss, fp, sw)))
    mota = 1 - (miss + fp + sw) / total
    require(abs(float(row["mota"]) - mota) < 1e-9, lambda: "%s: MOTA %s, counted %s" % (name, row["mota"], mota))
    require(abs(float(row["recall"]) - (total - miss) / total) < 1e-9, lambda: "%s: recall %s" % (name, row["recall"]))


SELECTIONS = ("mota num_misses", "motp", "idf1 num_switches precision")


def shards(tier):
    n = 4 if tier == "thorough" else 3
    out = [("set", w, n) for w in itertools.product(ACTIONS, repeat=1 if n == 3 else 2)]
    out += [("alone", a) for a in ACTIONS] + [("pairs", a) for a in ACTIONS]
    out += [("names", s) for s in STYLES] + [("inter", k) for k in range(4)]
    out += [("rep", a) for a in ACTIONS] + [("big", k) for k in range(8)]
    return out


LAYOUTS = [("a/S", "b/S"), ("b/S", "a/S", "S"), ("S", "T"), ("a/S", "S (2)", "b/S"), ("a/b", "b"), ("x.y/S-1", "x.z/S-1", "x.z/S-2", "x.y/S-2"), ("S",),
           # unusual but valid folder names
           ("a" * 60 + "/" + "b" * 60 + "/S", "a" * 60 + "/" + "c" * 60 + "/S", "a" * 60 + "/" + "b" * 59 + "/S"), ("d/" * 14 + "S", "d/" * 13 + "S"), ("n" * 120, "n" * 119 + "m"),
           ("100%/S", "50% off/s", "{x}/S"), ("séq/Ü 1", "seq/Ü 1", "seq\u0301/Ü 1"), ("S;1", "S,1", "S#1", "S'1"), ("S~", "..S", ".S", "-S"), ("1", "01", "1.0")]
HISTS = [("both", "both"), ("one", "swap", "none"), ("extra", "both", "off"), ("new", "none")]


def run_shard(shard, rec):
    if shard[0] == "rep":
        for b in ACTIONS:
            rec.case(("rep", ((shard[1], b), (b, "both")), 1.0))
            rec.case(("rep", ((shard[1], "both", b), (shard[1], "both", b), ("swap", b, "one")), 1.0))
            for scale in (0.001, 0.01, 1000.0):
                rec.case(("rep", ((shard[1], b),), scale))
        return
    if shard[0] == "big":
        for n in [n for n in SIZES if n <= 160][shard[1]::8]:
            rec.case(("big", n, 3))
            rec.case(("big", 6, n))
        return
    if shard[0] == "names":
        for lay in LAYOUTS:
            for k in range(4):
                rec.case(("names", lay, shard[1], tuple((HISTS[k:] + HISTS[:k])[: len(lay)])))
        return
    if shard[0] == "inter":
        a, b = [(0, 1), (1, 2), (3, 0), (2, 3)][shard[1]]
        for w in merges((len(HISTS[a]), len(HISTS[b]))):
            rec.case(("inter", (HISTS[a], HISTS[b]), w))
        return
    if shard[0] == "set":
        _, first, n = shard
        rest = list(itertools.product(ACTIONS, repeat=n - len(first)))
        for i in range(0, len(rest), 27):
            rec.case(("eval", tuple(first + r for r in rest[i : i + 27]), "all", 1))
    elif shard[0] == "alone":
        a = shard[1]
        rec.case(("eval", ((a,),), "all", 1))
        rec.case(("eval", ((a,),), "all", 0))
        for b in ACTIONS:
            rec.case(("eval", ((a, b),), "all", 1))
        for s in SELECTIONS:
            for o in (0, 1):
                rec.case(("eval", ((a, "both"), ("rev", a, "none")), s, o))
    else:
        a = shard[1]
        for b in ACTIONS:
            rec.case(("eval", ((a,), (b, "both")), "all", 1))
