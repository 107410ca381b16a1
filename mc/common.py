"""Helpers shared by the tracker explorations (public API of norfair only)."""
import itertools

import numpy as np

import norfair
from norfair import Detection, Tracker
from norfair.camera_motion import TranslationTransformation
from norfair.filter import FilterPyKalmanFilterFactory, NoFilterFactory, OptimizedKalmanFilterFactory

from .framework import Violation, require

TOL = 1e-6
FAR = 1000.0

FILTERS = {
    "opt": lambda: OptimizedKalmanFilterFactory(),
    "fpy": lambda: FilterPyKalmanFilterFactory(),
    "no": lambda: NoFilterFactory(),
}


def close(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = 1.0 + max(np.abs(a).max(), np.abs(b).max())
    return bool(np.all(np.abs(a - b) <= tol * scale))


def center_distance(det, obj):
    """scalar distance working for every shape"""
    return float(np.sqrt(((det.absolute_points.mean(axis=0) - obj.get_estimate(
        absolute=obj.abs_to_rel is not None).mean(axis=0)) ** 2).sum()))


def static_distance(det, obj):
    return float(np.abs(det.points - obj.estimate).max())


def bfs(rec, initial, actions, successor, run, max_states=10**9):
    """Breadth first search over reference states.

    `successor(state, action)` is the reference model's next state (or None if the action is not
    enabled); for every discovered state the shortest history reaching it is extended by every action and the
    complete history is executed on the real code by `run(history)`.
    Returns number of states; every reachable state is expanded (closure) unless max_states is hit.
    """
    seen = {initial: ()}
    frontier = [initial]
    while frontier:
        nxt = []
        for s in frontier:
            hist = seen[s]
            for a in actions:
                t = successor(s, a)
                if t is None:
                    continue
                h = hist + (a,)
                run(h)
                rec.step()
                if t not in seen:
                    if len(seen) >= max_states:
                        raise AssertionError("state cap hit: bounds are wrong")
                    seen[t] = h
                    nxt.append(t)
        frontier = nxt
    for s in seen:
        rec.state((initial, s))
    return len(seen)


def lassos(alphabet, k, n, stems=((),)):
    """every stem followed by the repetition, up to `n` letters, of every primitive word of at most `k` letters"""
    seen = set()
    alphabet = list(alphabet)
    for stem in stems:
        for j in range(1, k + 1):
            for w in itertools.product(alphabet, repeat=j):
                full = (tuple(stem) + w * n)[:n]
                if full not in seen:
                    seen.add(full)
                    yield full


SIZES = (5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 21, 24, 25, 31, 32, 33, 40, 48, 49, 50, 51, 60, 63, 64, 65, 70, 80, 96, 99, 100, 101, 120, 127, 128, 129, 150, 160, 200, 201, 255, 256, 257, 300, 301)


def patterns(n):
    """subsets of n points, as bit masks: all, none, every other one, the last, all but the last, the second half"""
    full = (1 << n) - 1
    even = sum(1 << i for i in range(0, n, 2))
    return (full, 0, even, 1 << n - 1, full ^ 1 << n - 1, full ^ ((1 << n // 2) - 1))


class Life:
    """Reference lifecycle of one object without ReID."""

    __slots__ = ("c", "init", "age")

    def __init__(self, period, delay):
        self.c = period
        self.age = 0
        self.init = self.c > delay

    def step(self):
        self.c -= 1
        self.age += 1

    def hit(self, period, H, delay):
        self.c = min(self.c + 2 * period, H)
        if self.c > delay:
            self.init = True


def effective_delay(H, delay):
    return H // 2 if delay is None else delay


def snapshot(tr, ids=True, det_key=None):
    """everything observable of the objects of a tracker, in a canonical order"""
    out = []
    for o in tr.tracked_objects:
        row = [
            o.initializing_id, o.age, o.hit_counter, o.reid_hit_counter, bool(o.is_initializing), str(o.label),
            tuple(bool(x) for x in o.live_points),
            tuple(np.round(np.asarray(o.estimate, dtype=float).ravel(), 9).tolist()),
            tuple(np.round(np.asarray(o.estimate_velocity, dtype=float).ravel(), 9).tolist()),
            None if o.last_distance is None else round(float(o.last_distance), 6),
        ]
        if ids:
            row.append(o.id)
        if det_key is not None:
            row.append(det_key(o.last_detection))
            row.append(tuple(det_key(d) for d in o.past_detections))
        out.append(tuple(row))
    return tuple(sorted(out, key=repr))
