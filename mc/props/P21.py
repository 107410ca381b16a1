"""P21: video iteration yields every frame once, in order, and closes its files."""
import contextlib
import itertools
import os
import shutil

import cv2
import numpy as np
from rich.progress import Progress

from .. import fakecv
from ..common import *
from ..fakecv import Clock, FakeCapture, FakeWriter, fake
from .P13 import merges
from .P19 import scratch
from norfair.video import Video

LEVEL = "fault_enumeration"
TECH = "exhaustive enumeration of source answers, write patterns and clock behaviours on the real code with a scripted capture; real video files of every small length"
RULE = "one execution = one video read to its end with a script of source answers, one write decision per frame and one clock; distinct_nontrivial = distinct (answers, decisions, clock, mode)"
BOUNDS = {
    "quick": "all source scripts of 0..5 frames ended by 3 kinds of failure and followed by frames or not, all scripts of up to 5 ordinary, black, white and repeated frames with right and wrong frame counts reported, all patterns of 4 write decisions for up to 4 frames, 6 clocks, camera and file, 3 frame rates;"
    " all constructor argument combinations; terminal widths 0..200; 15 labels x 12 paths with markup; all interleavings of the iterations of two and three videos; real mp4/avi files of 1..6 frames;"
    " videos of 45 lengths up to 301 and of 1000, 1024, 3001 and 5000 frames, with right, wrong and no announced lengths",
    "thorough": "write patterns for 6 frames; scripts of 8 frames, real files up to 12 frames",
}
ASSUMPTIONS = ["the scripted capture and writer stand for OpenCV's; files are written and read back with OpenCV in the real-file cases"]

CLOCKS = {"steady": (0.04,), "stalled": (0.0,), "stalls first": (0.0, 0.0, 0.0, 0.1), "stalls later": (0.05, 0.05, 0.0, 0.0, 0.0, 0.0, 0.05), "backwards": (0.1, -5.0), "jumps": (3600.0, 1e-9)}
# write decisions per frame: nothing, the frame, the frame twice, a larger copy
DECIDE = "-wdL"


def run_loop(case, rec):
    _, script, decisions, clock, mode, ofps = case
    d = scratch()
    try:
        src = os.path.join(d, "in.v1.mp4")
        open(src, "w").close()
        FakeCapture.script = script
        mode, _, count = mode.partition(":")
        FakeCapture.count = int(count) if count else max(1, len(script))
        with fake(Clock(CLOCKS[clock])):
            kw = dict(camera=int(mode[3:])) if mode.startswith("cam") else dict(input_path=src)
            if ofps is not None:
                kw["output_fps"] = ofps
            out = os.path.join(d, "result.mp4")
            v = Video(output_path=out, label="x" if len(script) % 2 else "", **kw)
            require(len(FakeCapture.opened) == 1 and FakeCapture.opened[0].source == (kw.get("camera") if "camera" in kw else src), "source opened")
            cap = FakeCapture.opened[0]
            n, written, kept = 0, [], []
            for frame in v:
                kept.append(frame)
                require(not cap.released, "capture closed before the end")
                require(n < len(cap.frames), "a frame the source did not deliver")
                require(frame is cap.frames[n] or np.array_equal(frame, cap.frames[n]), lambda: "frame %d is not frame %d of the source" % (n, n))
                require(script[n] != "F" or len(script) > 250 or frame[0, 0, 0] == n + 1, "frame modified or out of order")
                a = decisions[n] if n < len(decisions) else "-"
                big = np.full((9, 12, 3), 200 + n, "uint8")
                for f in {"-": (), "w": (frame,), "d": (frame, frame), "L": (big,)}[a]:
                    keep = f.copy()
                    v.write(f)
                    require(np.array_equal(f, keep), "write modified the frame")
                    written.append(keep)
                n += 1
                rec.step()
            require(all(np.array_equal(a, b) for a, b in zip(kept, cap.frames)), "a frame changes after it was yielded")
            good = len(script) - len(script.lstrip("FBWS"))
            require(n == good, lambda: "%d frames yielded, the source delivers %d until it first fails (%s)" % (n, good, script))
            require(cap.reads_after_end == 0, "the source is read after its end")
            require(cap.released >= 1, "the capture is not closed")
            if written:
                require(len(FakeWriter.opened) == 1, lambda: "%d output files opened" % len(FakeWriter.opened))
                w = FakeWriter.opened[0]
                require(w.path == out, lambda: "output written to %s" % w.path)
                require(w.size == (written[0].shape[1], written[0].shape[0]), lambda: "output size %s for frames of %s" % (w.size, written[0].shape))
                require(w.fps == (25.0 if ofps is None else ofps), lambda: "output fps %s, requested %s, source 25" % (w.fps, ofps))
                require(w.fourcc == cv2.VideoWriter_fourcc(*"mp4v"), "output codec")
                require(len(w.frames) == len(written) and all(np.array_equal(a[1], b) for a, b in zip(w.frames, written)), "the output holds other frames than those written")
                require(all(not a[2] for a in w.frames) and w.released >= 1, "the output file is not closed after the last frame")
            else:
                require(not FakeWriter.opened, "an output file is created although nothing is written")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome((script, decisions, clock, mode, ofps))


def run_init(case, rec):
    _, cam, inp, count, tilde = case
    d = scratch()
    home = os.environ.get("HOME")
    try:
        os.environ["HOME"] = d
        with open(os.path.join(d, "ok.mp4"), "w"):
            pass
        os.makedirs(os.path.join(d, "dir"))
        path = {None: None, "ok": "ok.mp4", "missing": "no.mp4", "dir": "dir", "empty": ""}[inp]
        if inp in ("ok", "missing", "dir"):
            path = os.path.join("~" if tilde else d, path)
        camera = {"none": None, "0": 0, "3": 3, "str": "0", "float": 0.0, "list": [0], "bytes": b"0"}[cam]
        FakeCapture.script, FakeCapture.count = "FF", count
        want = None
        if (camera is None) == (path is None) or (camera is not None and type(camera) is not int):
            want = ValueError
        elif path is not None and (inp != "ok" or count == 0):
            want = RuntimeError
        with fake():
            try:
                v = Video(camera=camera, input_path=path, output_path=d)
            except (ValueError, RuntimeError) as e:
                require(want is not None and isinstance(e, want), lambda: "%s, expected %s" % (type(e).__name__, want))
            else:
                require(want is None, lambda: "accepted, expected %s" % want)
                require(sum(1 for _ in v) == 2, "accepted but does not deliver its frames")
                if path is not None:
                    require(FakeCapture.opened[0].source == os.path.join(d, "ok.mp4"), "another file is opened")
    finally:
        os.environ["HOME"] = home or "/root"
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome((cam, inp, count, tilde))


def run_terminal(case, rec):
    _, cols, name_len, label = case
    d = scratch()
    real = os.get_terminal_size
    try:
        src = os.path.join(d, "n" * name_len + ".mp4")
        open(src, "w").close()
        FakeCapture.script, FakeCapture.count = "FFF", 3

        def size(*a):
            if cols is None:
                raise OSError("no terminal")
            return os.terminal_size((cols, 24))

        os.get_terminal_size = size
        with fake():
            v = Video(input_path=src, label=label, output_path=os.path.join(d, "o.avi"))
            n = 0
            for f in v:
                v.write(f)
                n += 1
            require(n == 3 and len(FakeWriter.opened[0].frames) == 3, "frames lost")
    finally:
        os.get_terminal_size = real
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome((cols, name_len, label))


LABELS = ["[/x]", "[bold]", "[/]", "[red]x[/red]", "[", "]", "\\[b]", "[link=", "[@click=x]a[/]", ":smile:", "{x}", "%s %d", "é\u4e2d", "a\nb", "[/" * 30 + "]"]


def run_label(case, rec):
    """any label and any path"""
    _, label, inp, out, cols = case
    d = scratch()
    real = os.get_terminal_size
    try:
        os.makedirs(os.path.join(d, os.path.dirname(inp)), exist_ok=True)
        os.makedirs(os.path.join(d, os.path.dirname(out)), exist_ok=True)
        open(os.path.join(d, inp), "w").close()
        FakeCapture.script, FakeCapture.count = "FFF", 3
        os.get_terminal_size = lambda *a: os.terminal_size((cols, 24))
        with fake():
            v = Video(input_path=os.path.join(d, inp), label=label, output_path=os.path.join(d, out))
            n = 0
            for f in v:
                v.write(f)
                n += 1
            require(n == 3 and len(FakeWriter.opened[0].frames) == 3, "frames lost")
            require(FakeWriter.opened[0].path == os.path.join(d, out), lambda: "written to %s" % FakeWriter.opened[0].path)
            require(FakeWriter.opened[0].released >= 1 and FakeCapture.opened[0].released >= 1, "not closed")
    finally:
        os.get_terminal_size = real
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome(case)


def run_multi(case, rec):
    """several videos read in turns; `order` lists whose turn it is, one turn more than frames ends a video"""
    _, scripts, order, display, write = case
    d = scratch()
    try:
        vids, its, caps = [], [], []
        with fake():
            for k, s in enumerate(scripts):
                src = os.path.join(d, "v%d.mp4" % k)
                open(src, "w").close()
                FakeCapture.script, FakeCapture.count = s, max(1, len(s))
                v = Video(input_path=src, output_path=os.path.join(d, "o%d.mp4" % k)) if k % 2 == 0 else Video(camera=k, output_path=os.path.join(d, "o%d.avi" % k))
                FakeCapture.opened[-1].script = s
                vids.append(v)
                caps.append(FakeCapture.opened[-1])
                its.append(iter(v))
            pos = [0] * len(scripts)
            with Progress() if display else contextlib.nullcontext():
                for k in order:
                    try:
                        f = next(its[k])
                    except StopIteration:
                        require(pos[k] == len(scripts[k]), lambda: "video %d ends after %d frames" % (k, pos[k]))
                        require(caps[k].released >= 1, "capture not closed")
                        pos[k] += 1
                        continue
                    require(pos[k] < len(scripts[k]), "too many frames")
                    require(np.array_equal(f, caps[k].frames[pos[k]]) and f[0, 0, 0] == pos[k] + 1, lambda: "video %d frame %d is another one" % (k, pos[k]))
                    pos[k] += 1
                    if write:
                        vids[k].write(f)
                    rec.step()
            require(pos == [len(s) + 1 for s in scripts], "videos not read to the end")
            if write:
                for k, s in enumerate(scripts):
                    ws = [w for w in FakeWriter.opened if os.path.basename(w.path).startswith("o%d." % k)]
                    require(len(ws) == (1 if s else 0), "output files opened")
                    if ws:
                        require(len(ws[0].frames) == len(s) and ws[0].released >= 1, "output frames")
                        require(all(np.array_equal(a[1], b) for a, b in zip(ws[0].frames, caps[k].frames)), "output frames of another video")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome(case)


def make_file(path, cc, n, fps, size):
    w = cv2.VideoWriter(path, cv2.VideoWriter_fourcc(*cc), fps, size)
    for i in range(n):
        f = np.full((size[1], size[0], 3), 30, "uint8")
        f[:, : (i + 1) * size[0] // (n + 1)] = (10 * i % 256, 200 - 10 * i, 90)
        w.write(f)
    w.release()


def read_file(path):
    c = cv2.VideoCapture(path)
    out = []
    while True:
        ok, f = c.read()
        if not ok:
            break
        out.append(f)
    fps = c.get(cv2.CAP_PROP_FPS)
    c.release()
    return out, fps


def run_real(case, rec):
    _, ext, cc, n, fps, size, ofps, resize = case
    d = scratch()
    try:
        src = os.path.join(d, "in.%s" % ext)
        make_file(src, cc, n, fps, size)
        want, wfps = read_file(src)
        require(len(want) == n, "test file not usable")
        out = os.path.join(d, "o", "x." + ext)
        os.makedirs(os.path.dirname(out))
        with fake(video=False):
            v = Video(input_path=src, output_path=out, output_fps=ofps, output_fourcc=cc if cc == "MJPG" else None)
            got = []
            for f in v:
                got.append(f.copy())
                v.write(cv2.resize(f, (32, 80)) if resize else f)
        require(len(got) == n and all(np.array_equal(a, b) for a, b in zip(got, want)), "frames yielded are not those of the file")
        back, bfps = read_file(out)
        require(len(back) == n, lambda: "output holds %d frames of %d" % (len(back), n))
        require(back[0].shape == ((80, 32, 3) if resize else (size[1], size[0], 3)), lambda: "output size %s" % (back[0].shape,))
        require(abs(bfps - (ofps or wfps)) < 0.01, lambda: "output fps %s" % bfps)
        require(all(np.abs(a.astype(int).mean() - (cv2.resize(b, (32, 80)) if resize else b).astype(int).mean()) < 12 for a, b in zip(back, want)), "output frames are in another order")
        rec.step(n)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.outcome(case)


def run_case(case, rec):
    return {"loop": run_loop, "init": run_init, "term": run_terminal, "real": run_real, "label": run_label, "multi": run_multi}[case[0]](case, rec)


def shards(tier):
    th = tier == "thorough"
    out = [("loop", clock, mode, th) for clock in CLOCKS for mode in ("cam0", "cam2", "file")]
    out += [("scripts", clock, 8 if th else 5) for clock in CLOCKS]
    out += [("contents", mode, 6 if th else 5) for mode in ("cam0", "file", "file:1", "file:3", "file:1000")]
    out += [("label", i) for i in range(len(LABELS))] + [("multi", k, w) for k in range(5) for w in (0, 1)]
    out += [("frames", k) for k in range(8)]
    out += [("init",), ("term",)] + [("real", n) for n in range(1, 13 if th else 7)]
    return out


def run_shard(shard, rec):
    if shard[0] == "frames":
        for n in (SIZES + (1000, 1024, 3001, 5000))[shard[1]::8]:
            for mode in ("cam0", "file", "file:3", "file:%d" % (n - 1), "file:%d" % (2 * n)):
                for dec in ("", "w" * n, "-w" * (n // 2)):
                    for clock in CLOCKS if n < 300 else ("steady",):
                        rec.case(("loop", "F" * n + "E", dec, clock, mode, None))
        return
    if shard[0] == "loop":
        _, clock, mode, th = shard
        for n in range(0, 7 if th else 5):
            for dec in itertools.product(DECIDE, repeat=n):
                for ofps in (None, 12.5):
                    rec.case(("loop", "F" * n + "E", "".join(dec), clock, mode, ofps))
        for ofps in (30, 1, 0.5):
            rec.case(("loop", "FFE", "ww", clock, mode, ofps))
    elif shard[0] == "scripts":
        _, clock, n = shard
        for k in range(n + 1):
            for end in "ENX":
                for tail in ("", "F", "FF", "EF", "NF", "XFFE"):
                    for mode in ("cam0", "file"):
                        for dec in ("", "w" * k, "-w" * k):
                            rec.case(("loop", "F" * k + end + tail, dec[:k], clock, mode, None))
    elif shard[0] == "contents":
        _, mode, n = shard
        for k in range(1, n + 1):
            for s in itertools.product("FBWS", repeat=k):
                for dec in ("", "w" * k):
                    rec.case(("loop", "".join(s) + "E", dec, "steady", mode, None))
    elif shard[0] == "label":
        for inp in ("a.mp4", "[bold]x.mp4", "d[/x].mp4", "[[].mp4"):
            for out in ("o.mp4", "p[/q].avi", "[red]/[bold]x.mp4"):
                for cols in (80, 30, 41, 200):
                    rec.case(("label", LABELS[shard[1]], inp, out, cols))
    elif shard[0] == "multi":
        scripts = [("FFF", "FF"), ("F", "FFFF"), ("", "FF"), ("FF", "FF"), ("F", "F", "F")][shard[1]]
        for w in merges(tuple(len(s) + 1 for s in scripts)):
            for display in (0, 1):
                rec.case(("multi", scripts, w, display, shard[2]))
    elif shard[0] == "init":
        for cam in ("none", "0", "3", "str", "float", "list", "bytes"):
            for inp in (None, "ok", "missing", "dir", "empty"):
                for count in (0, 1, 2, 50):
                    for tilde in (0, 1):
                        rec.case(("init", cam, inp, count, tilde))
    elif shard[0] == "term":
        for cols in (None, 0, 1, 10, 24, 25, 26, 27, 30, 31, 32, 40, 80, 200):
            for name_len in (1, 2, 5, 30, 120, 200):
                for label in ("", "l", "a long label " * 5):
                    rec.case(("term", cols, name_len, label))
    else:
        n = shard[1]
        for ext, cc in (("mp4", "mp4v"), ("avi", "XVID"), ("avi", "MJPG")):
            for fps, size in ((20.0, (64, 48)), (12.0, (48, 64))):
                for ofps in (None, 30.0):
                    for resize in (0, 1):
                        rec.case(("real", ext, cc, n, fps, size, ofps, resize))
