"""Recording stand-ins for OpenCV's video classes and the clock (used by P21, P22)."""
import contextlib
import time

import cv2
import numpy as np

EVENTS = []


class FakeCapture:
    """answers from a script: sequence of F (frame), B/W (black/white frame), S (frame equal to the previous), E (False, None), N (True, None), X (False, frame)"""

    script = ""
    fps = 25.0
    count = 1
    shape = (4, 6)
    opened = []

    def __init__(self, source, *a):
        self.source = source
        self.pos = 0
        self.frames = []
        self.released = 0
        self.reads_after_end = 0
        self.ended = False
        FakeCapture.opened.append(self)

    def isOpened(self):
        return True

    def get(self, prop):
        return {cv2.CAP_PROP_FRAME_COUNT: float(self.count), cv2.CAP_PROP_FPS: self.fps, cv2.CAP_PROP_FRAME_HEIGHT: float(self.shape[0]),
                cv2.CAP_PROP_FRAME_WIDTH: float(self.shape[1])}.get(prop, 0.0)

    def deliver(self, f, a):
        """like OpenCV, fill the image given to read()"""
        self.frames.append(f.copy())
        if a and isinstance(a[0], np.ndarray) and a[0].shape == f.shape and a[0].dtype == f.dtype:
            a[0][...] = f
            return a[0]
        return f

    def read(self, *a, image=None):
        a = a or (image,)
        EVENTS.append("read")
        if self.ended:
            self.reads_after_end += 1
        k = self.script[self.pos] if self.pos < len(self.script) else "E"
        self.pos += 1
        if k in "BWS":
            # black, white, or equal to the previous frame
            f = np.full(self.shape + (3,), 255 if k == "W" else 0, "uint8")
            if k == "S" and self.frames:
                f = self.frames[-1].copy()
            return True, self.deliver(f, a)
        if k == "F":
            f = np.full(self.shape + (3,), (17 * self.pos) % 251, "uint8")
            f[0, 0] = (self.pos % 256, 2 + self.pos // 256, 3)
            return True, self.deliver(f, a)
        self.ended = True
        return {"E": (False, None), "N": (True, None), "X": (False, np.zeros(self.shape + (3,), "uint8"))}[k]

    def grab(self):
        raise AssertionError("not simulated")

    retrieve = grab

    def release(self):
        EVENTS.append("release capture")
        self.released += 1


class FakeWriter:
    opened = []

    def __init__(self, path, fourcc, fps, size, *a):
        # what the real one rejects
        if not isinstance(path, str) or not isinstance(fourcc, int) or not isinstance(fps, (int, float)) or not all(isinstance(s, (int, np.integer)) for s in size):
            raise TypeError("VideoWriter(%r, %r, %r, %r)" % (path, fourcc, fps, size))
        EVENTS.append("open")
        self.path, self.fourcc, self.fps, self.size = path, fourcc, fps, tuple(size)
        self.frames = []
        self.released = 0
        FakeWriter.opened.append(self)

    def isOpened(self):
        return True

    def write(self, frame):
        EVENTS.append("write")
        self.frames.append((id(frame), frame.copy(), self.released))

    def release(self):
        EVENTS.append("release writer")
        self.released += 1


class Clock:
    """scripted clock: yields base + the given steps, the last step repeated"""

    def __init__(self, steps):
        self.t, self.steps, self.n = 1000.0, steps, 0

    def __call__(self):
        self.t += self.steps[min(self.n, len(self.steps) - 1)]
        self.n += 1
        return self.t

    def ns(self):
        return int(self() * 1e9)


SHOWN = []


@contextlib.contextmanager
def fake(clock=None, video=True):
    """replaces cv2's video input and output, its windows, and the clock"""
    names = ["imshow", "waitKey", "destroyAllWindows"] + (["VideoCapture", "VideoWriter"] if video else [])
    saved = {n: getattr(cv2, n) for n in names}
    tn = ["time", "perf_counter", "monotonic", "time_ns"]
    tsaved = {n: getattr(time, n) for n in tn}
    del FakeCapture.opened[:], FakeWriter.opened[:], EVENTS[:], SHOWN[:]
    cv2.imshow = lambda name, img: SHOWN.append(np.array(img))
    cv2.waitKey = lambda *a: 113
    cv2.destroyAllWindows = lambda: EVENTS.append("destroy windows")
    if video:
        cv2.VideoCapture, cv2.VideoWriter = FakeCapture, FakeWriter
    if clock is not None:
        time.time = time.perf_counter = time.monotonic = clock
        time.time_ns = clock.ns
    try:
        yield
    finally:
        for n, v in saved.items():
            setattr(cv2, n, v)
        for n, v in tsaved.items():
            setattr(time, n, v)
