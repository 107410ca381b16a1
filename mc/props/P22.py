"""P22: output names, codecs and frame-folder videos match their inputs."""
import itertools
import os
import shutil

import cv2
import numpy as np

from ..common import *
from ..fakecv import EVENTS, SHOWN, FakeCapture, FakeWriter, fake
from .P19 import STYLES, inside, scratch, spelled
from norfair import metrics as M
from norfair.video import Video, VideoFromFrames

LEVEL = "exploration"
TECH = "exhaustive enumeration of names, configurations and frame-folder histories on the real code with recording stand-ins for OpenCV's writer and window"
RULE = "one execution = one video object named, written, iterated or shown; distinct_nontrivial = distinct (input, configuration, result)"
BOUNDS = {
    "quick": "29 input names x 6 output paths x 4 extensions x 3 codecs and 4 cameras; 16 output file names x 3 codecs; frame folders of 1..4 frames with every pattern of written frames, interruptions and re-iterations, 6 spellings of the folder; folders of 10, 99, 100, 101, 257 and 1025 frames;"
    " 6 frame sizes x 12 ratios",
    "thorough": "frame folders of 1..6 frames",
}
ASSUMPTIONS = ["windows and output files are recorded by stand-ins"]

INPUTS = ["a.mp4", "a.b.mp4", "a.b.avi", "noext", "x.tar.gz", ".hidden.mp4", "with space.mov", "v1.2.3.mp4", "UPPER.MP4", "..odd.mp4", "a_out.mp4", "cam-2024.05.01.mkv", "ünï.mp4", "mp4", "take$HOME.mp4", "${HOME}x.avi", "b~.mp4", "~x.mp4", "50%.mov", "a*?.mp4", "[1].mkv", "%05d.avi", "a;b&c.mp4", " lead.mp4", "trail .mp4", "{x}.mp4", "a\\b.mp4", "-o.mp4", "#1.mp4"]


def stem(name):
    i = name.rfind(".")
    return name[:i] if i > 0 and name[:i].strip(".") else name


def codec_of(path):
    return {".mp4": "mp4v", ".avi": "XVID"}.get(path[-4:].lower())


def run_name(case, rec):
    _, inp, sub, outkind, ext, fourcc = case
    d = scratch()
    cwd = os.getcwd()
    try:
        os.makedirs(os.path.join(d, "in.dir", "sub"))
        os.makedirs(os.path.join(d, "out.d"))
        os.chdir(d)
        if isinstance(inp, int):
            kw = dict(camera=inp)
            base = "camera_%d" % inp
        else:
            folder = os.path.join(d, "in.dir", "sub") if sub else "in.dir"
            path = os.path.join(folder, inp)
            open(path, "w").close()
            kw = dict(input_path=path)
            base = stem(inp)
        outp = {"dir": os.path.join(d, "out.d"), "dir/": os.path.join(d, "out.d") + "/", "late": os.path.join(d, "made.later"), "dot": ".", "default": None, "file": os.path.join(d, "out.d", "res.one.AVI")}[outkind]
        if outp is not None:
            kw["output_path"] = outp
        if ext is not None:
            kw["output_extension"] = ext
        if fourcc is not None:
            kw["output_fourcc"] = fourcc
        FakeCapture.script, FakeCapture.count = "FF", 2
        with fake():
            v = Video(**kw)
            if outkind == "late":
                os.mkdir(outp)
            p1 = v.get_output_file_path()
            name = base + "_out." + (ext or "mp4")
            want = outp if outkind == "file" else os.path.join(outp or ".", name)
            require(os.path.normpath(p1) == os.path.normpath(want), lambda: "output path %r, expected %r" % (p1, want))
            cc = fourcc or codec_of(want)
            try:
                for f in v:
                    v.write(f)
            except RuntimeError:
                require(cc is None, lambda: "no codec for %r" % want)
            else:
                require(cc is not None, lambda: "a codec was made up for %r" % want)
                require(FakeWriter.opened[0].fourcc == cv2.VideoWriter_fourcc(*cc), lambda: "codec of %r is not %s" % (want, cc))
                require(os.path.normpath(FakeWriter.opened[0].path) == os.path.normpath(want), "written to another file")
            require(v.get_output_file_path() == p1, "the output path changes")
        rec.outcome((inp, outkind, ext, fourcc, os.path.basename(p1)))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


CODECNAMES = ["a.mp4", "a.MP4", "a.Mp4", "b.avi", "b.AVI", "c.mkv", "c.mov", "x.mp4.bak", "a.avi.mp4", "a.mp4.avi", "noext", "x.mp", "x.mp44", "x.webm", "x.mp3", "dir.mp4/x"]


def run_codec(case, rec):
    _, name, fourcc = case
    FakeCapture.script, FakeCapture.count = "F", 1
    with fake():
        v = Video(camera=0, output_path="/nonexistent/out.mkv", output_fourcc=fourcc)
        want = fourcc or codec_of(name)
        try:
            got = v.get_codec_fourcc(name)
        except RuntimeError:
            require(want is None, lambda: "no codec for %r" % name)
        else:
            require(got == want, lambda: "codec of %r is %r, expected %r" % (name, got, want))
    rec.outcome(case)


RATES = ("1", "30", "2.5", "29.97", "0.5", "23.976", "120.0")


def run_frames(case, rec):
    """plan: sequence of iterations, each a string over w (written), - (not written), ended by | if interrupted there"""
    _, L, ext, explicit, make, plan = case[:6]
    style = case[6] if len(case) > 6 else "plain"
    rate = case[7] if len(case) > 7 else "17"
    d = scratch()
    try:
        seq = os.path.join(d, "MOT.X-1")
        os.makedirs(os.path.join(seq, "imgs"))
        imgs = []
        for k in range(0, L + 3):
            im = np.full((6, 8, 3), 25 * k % 256, "uint8")
            im[2:] = (k % 256, 20 * (k // 256), 7)
            cv2.imwrite(os.path.join(seq, "imgs", "%06d%s" % (k, ext)), im)
            imgs.append(cv2.imread(os.path.join(seq, "imgs", "%06d%s" % (k, ext))))
        info = "[Sequence]\nname=Other\nimDir=imgs\nframeRate=%s\nseqLength=%d\nimWidth=8\nimHeight=6\nimExt=%s\n"
        with open(os.path.join(seq, "seqinfo.ini"), "w") as f:
            f.write(info % (rate, (L if not explicit else 99), ext))
        kw = {}
        if explicit:
            with open(os.path.join(d, "i.ini"), "w") as f:
                f.write(info % (rate, L, ext))
            kw["information_file"] = M.InformationFile(os.path.join(d, "i.ini"))
            os.makedirs(os.path.join(d, "save", "videos"))
        with fake(), inside(d, style):
            v = VideoFromFrames(spelled(seq, style), save_path=os.path.join(d, "save"), make_video=bool(make), **kw)
            require(len(FakeWriter.opened) == (1 if make else 0), "output files opened")
            w = FakeWriter.opened[0] if make else None
            written = []
            for it in plan:
                n = 0
                for frame in v:
                    require(n < L, lambda: "more than %d frames" % L)
                    require(np.array_equal(frame, imgs[n + 1]), lambda: "frame %d of the iteration is not image %d" % (n, n + 1))
                    a = it[n] if n < len(it) else "-"
                    if a == "|":
                        break
                    require(w is None or not w.released or len(plan) > 1, "output closed before the last frame")
                    if a == "w":
                        v.update(frame)
                        written.append(imgs[n + 1])
                    n += 1
                    rec.step()
                else:
                    require(n == L, lambda: "%d frames of %d" % (n, L))
                    if it.endswith("w") and len(it) == L:
                        require(w.released >= 1, "the output is not closed after the last frame")
            if make:
                require(w.path == os.path.join(d, "save", "videos", "MOT.X-1.mp4"), lambda: "output %r" % w.path)
                require(w.fps == float(rate) and w.size == (8, 6) and w.fourcc == cv2.VideoWriter_fourcc(*"mp4v"), lambda: "output opened with %s %s" % (w.fps, w.size))
                require(len(w.frames) == len(written) and all(np.array_equal(a[1], b) for a, b in zip(w.frames, written)), "the output holds other frames")
        rec.outcome((L, ext, explicit, make, plan))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_show(case, rec):
    _, h, w, ratio, gray = case
    FakeCapture.script, FakeCapture.count = "F", 1
    y, x = np.mgrid[0:h, 0:w]
    f = (np.stack([x * 255 // max(w - 1, 1), y * 255 // max(h - 1, 1), 0 * x + 77], axis=2)).astype("uint8")
    keep = f.copy()
    with fake():
        v = Video(camera=0)
        key = v.show(f) if ratio is None else v.show(f, ratio) if gray else v.show(f, downsample_ratio=ratio)
    require(key == 113, "the pressed key is not returned")
    require(np.array_equal(f, keep), "show modified the frame")
    require(len(SHOWN) == 1, lambda: "%d images shown" % len(SHOWN))
    im = SHOWN[0]
    if ratio in (None, 1):
        require(np.array_equal(im, keep), "another image is shown")
    else:
        require(abs(im.shape[0] - h / ratio) <= 1 and abs(im.shape[1] - w / ratio) <= 1 and im.shape[2] == 3, lambda: "%s downsampled by %s is %s" % ((h, w), ratio, im.shape))
        require((im[..., 2] == 77).all(), "another image is shown")
        if im.shape[1] > 2 and im.shape[0] > 2 and min(h, w) > 2:
            require((np.diff(im[..., 0].astype(int), axis=1) >= 0).all() and (np.diff(im[..., 1].astype(int), axis=0) >= 0).all() and int(im[0, -1, 0]) > int(im[0, 0, 0]) + 100 and int(im[-1, 0, 1]) > int(im[0, 0, 1]) + 100,
                    "the shown image is not the frame")
    rec.outcome((h, w, ratio, im.shape))


def run_case(case, rec):
    return {"name": run_name, "codec": run_codec, "frames": run_frames, "show": run_show}[case[0]](case, rec)


def shards(tier):
    n = 7 if tier == "thorough" else 5
    return [("name", i) for i in range(len(INPUTS) + 1)] + [("codec",), ("show",)] + [("frames", L, e) for L in list(range(1, n)) + [10, 99, 100, 101, 257, 1025] for e in (".png", ".jpg")]


def run_shard(shard, rec):
    if shard[0] == "name":
        inputs = [INPUTS[shard[1]]] if shard[1] < len(INPUTS) else [0, 1, 2, 10]
        for inp in inputs:
            for sub in (0, 1) if isinstance(inp, str) else (0,):
                for outkind in ("dir", "dir/", "late", "dot", "default", "file"):
                    for ext in (None, "avi", "MP4", "mkv"):
                        for cc in (None, "avc1", "MJPG"):
                            rec.case(("name", inp, sub, outkind, ext, cc))
    elif shard[0] == "codec":
        for n in CODECNAMES:
            for cc in (None, "avc1", "XVID"):
                rec.case(("codec", n, cc))
    elif shard[0] == "show":
        for h, w in ((48, 64), (1, 1), (7, 5), (100, 30), (3, 200), (480, 640)):
            for r in (None, 1, 1.0, 2, 3, 0.5, 1.5, 2.5, 4, 0.25, 7.3, 1000):
                for g in (0, 1):
                    rec.case(("show", h, w, r, g))
    else:
        _, L, ext = shard
        if L > 9:
            for rate in RATES[:2]:
                rec.case(("frames", L, ext, 0, 1, ("w" * L,), "plain", rate))
                rec.case(("frames", L, ext, 1, 1, ("-w" * (L // 2), "-" * (L - 1) + "|", "w" * L, ""), "plain", rate))
            return
        pats = ["".join(p) for p in itertools.product("w-", repeat=L)]
        for p in pats:
            for explicit in (0, 1):
                rec.case(("frames", L, ext, explicit, 1, (p,)))
                rec.case(("frames", L, ext, explicit, 1, (p, "")))
        for style in STYLES[1:]:
            for p in ("w" * L, "-" * L):
                for explicit in (0, 1):
                    rec.case(("frames", L, ext, explicit, 1, (p, ""), style))
        for rate in RATES:
            for explicit in (0, 1):
                rec.case(("frames", L, ext, explicit, 1, ("w" * L, ""), "plain", rate))
        for k in range(L + 1):
            for k2 in range(L + 1):
                for make in (0, 1):
                    rec.case(("frames", L, ext, k2 % 2, make, ("-" * k + "|", "-" * k2 + "|", "")))
                    rec.case(("frames", L, ext, k2 % 2, 1, ("w" * k + "|", "-" * k2 + "|", "w" * L, "")))
