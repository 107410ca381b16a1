"""P19: MOT files are written and read without loss or reassignment."""
import contextlib
import itertools
import os
import shutil
import tempfile

import numpy as np

from ..common import *
from norfair import metrics as M

LEVEL = "exploration"
TECH = "exhaustive enumeration of small detection files, prediction histories and information files, real code on real files"
RULE = "one execution = one file written and read (or one history of predictions written); distinct_nontrivial = distinct (file or history shape, frames)"
BOUNDS = {
    "quick": "all detection files of 0..4 lines over frames 0..4 (all orders, frames outside the sequence) x sequence lengths 1..3, two box sets, 7 and 10 columns, files of 40 lines in 12 orders, frames of up to 1025 boxes, sequences of up to 1025 frames;"
    " all histories of 1..3 frames over all ordered subsets of 3 objects, 6 spellings of the folder, all frame numbers given by the caller from {0,1,2,7}; all lookups of 9 names in 24 information files",
    "thorough": "files of 5 lines, histories of 4 frames",
}
ASSUMPTIONS = ["coordinates are read back within single precision, which the reader documents by its data type"]

BOXES = {
    "int": [(10, 20, 5, 7), (1, 2, 3, 4), (100, 50, 20, 10), (10, 20, 5, 7), (7, 7, 1, 1)],
    "float": [(-3.5, 0.25, 12.75, 1.5), (1359.1, 413.27, 120.26, 362.77), (0.1, 0.2, 0.3, 0.4), (1e3, -2e-1, 5.5e1, 6), (571.03, 402.13, 104.56, 315.68)],
}
CONF = [0.9, 1, -1, 0.123456, 55.5]
INFO = "[Sequence]\nname=SEQ-1\nimDir=img1\nframeRate=30\nseqLength=%d\nimWidth=640\nimHeight=480\nimExt=.jpg\n"


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="mc-p19-", dir=base)


def fmt(v):
    return repr(v)


def write_seq(d, rows, length, cols=10, sep=","):
    os.makedirs(os.path.join(d, "det"), exist_ok=True)
    with open(os.path.join(d, "det", "det.txt"), "w") as f:
        for fr, box, conf in rows:
            vals = [str(fr), "-1"] + [fmt(v) for v in box] + [fmt(conf)] + ["-1"] * 3
            f.write(sep.join(vals[:cols]) + "\n")
    with open(os.path.join(d, "seqinfo.ini"), "w") as f:
        f.write(INFO % length)


def key(det):
    require(det.points.shape == (2, 2), lambda: "box read as points of shape %s" % (det.points.shape,))
    require(np.shape(det.scores) == (2,) and det.scores[0] == det.scores[1], lambda: "scores %s" % (det.scores,))
    return tuple(float(v) for v in np.asarray(det.points).ravel()) + (float(det.scores[0]),)


def same_multiset(got, want):
    if len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        for w in left:
            if all(abs(a - b) <= 1e-5 * (1 + abs(b)) for a, b in zip(g, w)):
                left.remove(w)
                break
        else:
            return False
    return True


def check_read(case, rec):
    _, frames, length, kind, cols, explicit = case
    rows = [(f, BOXES[kind][i % 5] if len(frames) <= 5 else (i, 2 * i, 3 + i, 5), CONF[i % 5] if len(frames) <= 5 else i) for i, f in enumerate(frames)]
    d = scratch()
    try:
        write_seq(d, rows, length if not explicit else 77, cols)
        info = None
        if explicit:
            p = os.path.join(d, "other.ini")
            with open(p, "w") as f:
                f.write(INFO % length)
            info = M.InformationFile(p)
        parser = M.DetectionFileParser(d, information_file=info) if explicit else M.DetectionFileParser(d)
        shutil.rmtree(d)
        want = [[(b[0], b[1], b[0] + b[2], b[1] + b[3], c) for f, b, c in rows if f == k] for k in range(1, length + 1)]
        for attempt in range(3):
            got = []
            for n, dets in enumerate(parser):
                got.append([key(x) for x in dets])
                require(len(got) <= length, lambda: "more than %d frames" % length)
                if attempt == 1 and n == length // 2:
                    break  # an interrupted iteration does not influence the next one
            for k, g in enumerate(got):
                require(same_multiset(g, want[k]), lambda: "frame %d: %s, the file holds %s" % (k + 1, g, want[k]))
            require(attempt == 1 or len(got) == length, lambda: "iteration %d yields %d frames of %d" % (attempt, len(got), length))
        for k in range(1, length + 1):
            g = [key(x) for x in parser.get_dets_from_frame(k)]
            require(same_multiset(g, want[k - 1]), lambda: "get_dets_from_frame(%d): %s" % (k, g))
        rec.step(3 * length)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome((frames, length, kind))


OBJS = {}


def objects(version):
    """three tracked objects with ids 1..3 and version dependent boxes"""
    if version not in OBJS:
        tr = Tracker("euclidean", 1e-3, hit_counter_max=3, initialization_delay=0, filter_factory=NoFilterFactory())
        k = {0: 1.0, 1: 0.37, 2: -123.456789012}[version]
        v = {0: (0, 0, 0), 1: (0, 0.123456, 1 / 3), 2: (0, 1e-5, 12345.678901)}[version]
        boxes = [np.array([[x * k + i, y * k], [x * k + w, y * k + h]]) for i, (x, y, w, h) in enumerate([(1, 2, 10, 20), (300, 5, 7.25, 3), (11, 400, (33 + v[1]) * (-1 if version == 1 else 1), (44.5 + v[2]) * (-1 if version == 2 else 1))])]
        tr.update([Detection(b) for b in boxes])
        OBJS[version] = tr, sorted(tr.tracked_objects, key=lambda o: o.id), boxes
    return OBJS[version][1:]


ORDERS = [s for n in range(4) for s in itertools.permutations(range(3), n)]


STYLES = ("plain", "slash", "slashes", "dot", "relative", "relative slash")


def spelled(path, style):
    """the same folder, written in another way"""
    if style.startswith("relative"):
        path = os.path.basename(path)
    return path + {"plain": "", "relative": "", "slash": "/", "relative slash": "/", "slashes": "//", "dot": "/."}[style]


@contextlib.contextmanager
def inside(folder, style):
    cwd = os.getcwd()
    if style.startswith("relative"):
        os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(cwd)


SEQUENCES = ("MOT-X.v1", "séq 100%", "MOT-X.v1", "n" * 100, ".hid {0}", "S.txt", "a,b;c")


def check_write(case, rec):
    _, hist, explicit, offset, style = case[:5]
    numbers = case[5] if len(case) > 5 else None
    L = len(hist)
    name = SEQUENCES[(3 * L + sum(hist) + offset) % len(SEQUENCES)]
    d = scratch()
    try:
        seq = os.path.join(d, name)
        os.makedirs(seq)
        with open(os.path.join(seq, "seqinfo.ini"), "w") as f:
            f.write(INFO % (L if not explicit else 50))
        kw = {}
        if explicit:
            p = os.path.join(d, "o.ini")
            with open(p, "w") as f:
                f.write(INFO % L)
            kw["information_file"] = M.InformationFile(p)
        out = os.path.join(d, "out", "deep")
        if explicit:
            os.makedirs(os.path.join(out, "predictions"))
            with open(os.path.join(out, "predictions", name + ".txt"), "w") as f:
                f.write("old contents\n" * 50)
        with inside(d, style):
            pf = M.PredictionsTextFile(input_path=spelled(seq, style), save_path=out, **kw)
        want = []
        for t, o in enumerate(hist):
            objs, boxes = objects((t + offset) % 3)
            fr = t + 1
            args = {}
            if offset == 2:  # explicit frame numbers
                fr = 10 * (t + 1) + 5
                args = dict(frame_number=fr)
            if numbers is not None:
                fr = numbers[t]
                args = dict(frame_number=fr)
            pf.update([objs[i] for i in ORDERS[o]], **args)
            for i in ORDERS[o]:
                b = boxes[i]
                want.append((fr, i + 1, b[0, 0], b[0, 1], b[1, 0] - b[0, 0], b[1, 1] - b[0, 1]))
        path = os.path.join(out, "predictions", name + ".txt")
        require(os.path.isfile(path), lambda: "no predictions file, but %s" % list(os.walk(out)))
        require(os.listdir(os.path.join(out, "predictions")) == [name + ".txt"], "other files were written")
        with open(path) as f:
            text = f.read()
        require(not text or text.endswith("\n"), "the last line is not complete")
        lines = text.splitlines()
        require(len(lines) == len(want), lambda: "%d lines on disk for %d tracked boxes after the last frame: %r" % (len(lines), len(want), text[:200]))
        for line, w in zip(lines, want):
            v = line.split(",")
            require(len(v) == 10 and v[6:] == ["-1"] * 4, lambda: "line %r" % line)
            require(v[0] == str(w[0]) and v[1] == str(w[1]), lambda: "line %r for frame %d id %d" % (line, w[0], w[1]))
            require(all(abs(float(a) - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(v[2:6], w[2:])), lambda: "line %r for box %s" % (line, w[2:]))
        rec.step(L)
        rec.outcome((hist, offset))
    finally:
        shutil.rmtree(d, ignore_errors=True)


NAMES = ("name", "seqLength", "seq", "imDir", "im", "imWidth", "imWidthMax", "frameRate", "missing")
LINES = ("[Sequence]", "name=SEQ", "imWidthMax=99", "imWidth=640", "seqLength=012", "imDir=a=b", "frameRate=29.97", "seq=x 1")


def check_info(case, rec):
    _, order, name, nl = case
    d = scratch()
    try:
        p = os.path.join(d, "i.ini")
        lines = [LINES[i] for i in order]
        with open(p, "w", newline="") as f:
            f.write(nl.join(lines))
        want = None
        for l in lines:
            k, eq, v = l.partition("=")
            if eq and k == name:
                want = int(v) if v.isdigit() else v
                break
        info = M.InformationFile(p)
        for _ in range(2):
            try:
                got = info.search(name)
            except ValueError:
                require(want is None, lambda: "%s=%r not found" % (name, want))
                continue
            require(want is not None and got == want and type(got) is type(want), lambda: "search(%r) is %r, the file says %r" % (name, got, want))
        rec.outcome((order, name, want))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_case(case, rec):
    return {"read": check_read, "write": check_write, "info": check_info}[case[0]](case, rec)


def shards(tier):
    th = tier == "thorough"
    out = [("read", n, L, kind) for n in range(6 if th else 5) for L in (1, 2, 3) for kind in BOXES]
    out += [("big", c) for c in range(4)]
    out += [("write", L, c, m) for L, m in ((1, 1), (2, 1), (3, 8)) + (((4, 16),) if th else ()) for c in range(m)]
    out += [("info", c) for c in range(3)]
    return out


def run_shard(shard, rec):
    if shard[0] == "read":
        _, n, L, kind = shard
        for frames in itertools.product(range(5), repeat=n):
            for cols in (7, 10):
                for explicit in (0, 1):
                    if n < 5 or sum(frames) % 2 == explicit:
                        rec.case(("read", frames, L, kind, cols, explicit))
    elif shard[0] == "big":
        c = shard[1]
        base = [1 + i % 4 for i in range(40)]
        orders = [base, sorted(base), sorted(base, reverse=True), base[::-1], [1] * 40, [4] * 39 + [1], [2] * 20 + [1] * 20, [1, 3] * 20, [3, 1] * 20, [4, 2, 3, 1] * 10,
                  [(i * 7) % 5 for i in range(40)], [(i * i) % 6 for i in range(40)]]
        for o in orders[c::4]:
            for L in (1, 3, 4, 6):
                rec.case(("read", tuple(o), L, "int", 10, 0))
        # crowded frames and long sequences
        n = (129, 257, 300, 1025)[c]
        rec.case(("read", (1,) * n, 1, "int", 10, 0))
        rec.case(("read", (2, 1) * n, 2, "int", 7, 1))
        rec.case(("read", tuple(range(n, 0, -1)), n, "int", 10, 0))
    elif shard[0] == "write":
        _, L, c, m = shard
        for i, hist in enumerate(itertools.product(range(len(ORDERS)), repeat=L)):
            if i % m == c:
                for off in range(3):
                    if L < 4 or (sum(hist) + off) % 5 == 0:
                        rec.case(("write", hist, (i + off) % 2, off, "plain"))
        if c == 0:
            # the caller counts: from 0, backwards, with gaps, the same number twice
            for i, numbers in enumerate(itertools.product((0, 1, 2, 7), repeat=L)):
                for hist in itertools.product((0, 3, 6, 14), repeat=L):
                    rec.case(("write", hist, i % 2, sum(hist) % 2, "plain", numbers))
        if L < 3:
            for style in STYLES[1:]:
                for i, hist in enumerate(itertools.product((0, 1, 5, 8)[:2 if L == 2 else 4], repeat=L)):
                    for explicit in (0, 1):
                        rec.case(("write", hist, explicit, i % 3, style))
    else:
        k = shard[1]
        for i in range(8):
            order = tuple(range(8))[i:] + tuple(range(8))[:i]
            order = order if k == 0 else order[::-1] if k == 1 else order[: 5]
            for name in NAMES:
                rec.case(("info", order, name, ("\n", "\r\n", "\n")[k]))
