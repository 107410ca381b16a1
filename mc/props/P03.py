"""P03: trackers running in different threads do not disturb each other (all schedules up to a preemption bound)."""
from .. import sched  # before norfair

import itertools

import numpy as np

from ..common import *

LEVEL = "model_checking"
TECH = "stateless model checking of the real code: cooperative scheduler over all bytecode-level schedules up to a preemption bound"
RULE = (
    "one execution = one complete schedule of real threads; preemption points are all bytecodes (bound 1) or lines (bound 2) of"
    " norfair executed; transitions = scheduling points passed; states = distinct preemption places (thread, code, offset)"
)
BOUNDS = {
    "quick": "2 threads: every bytecode-level schedule with 1 preemption for 9 scenarios (labels: both starting threads); every"
    " line-level schedule with 2 preemptions for the smallest scenario; 3 threads: 1 preemption",
    "thorough": "2 threads: 2 preemptions at bytecode level for the smallest scenario and at line level for three; 3 threads: 2 preemptions at line level",
}
ASSUMPTIONS = [
    "sequentially consistent interleaving of bytecodes under the GIL; calls into C (numpy) are atomic",
    "locks created through threading.Lock/RLock",
]
CASE_TIMEOUT = 20.0

FACT = {}


def shared_factory(kind):
    if kind not in FACT:
        FACT[kind] = FILTERS[kind]()
    return FACT[kind]


def pt(x, y=0.0, **kw):
    return Detection(np.array([[x, y]]), **kw)


def bx(x, **kw):
    return Detection(np.array([[x, 0.0], [x + 20.0, 30.0]]), **kw)


def reidfn(n, o):
    return float(np.abs(n.estimate - o.estimate).max())


# scenario -> per thread: (tracker factory, set-up updates, updates under the scheduler)
def scenario(name):
    S = {
        # creation of one object each
        "create": [(lambda: Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0), [], [[pt(1.0)]]),
                   (lambda: Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0), [], [[pt(500.0)]])],
        # two objects each, initialized by this update
        "init": [(lambda: Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=1), [[pt(1.0), pt(50.0)]], [[pt(51.0), pt(1.5)]]),
                 (lambda: Tracker("euclidean", 30, hit_counter_max=4, initialization_delay=1), [[pt(8.0), pt(90.0)]], [[pt(91.0), pt(9.0)]])],
        "scalar": [(lambda: Tracker("frobenius", 50, hit_counter_max=3, initialization_delay=1, filter_factory=shared_factory("fpy")), [[bx(0.0)]], [[bx(1.0), bx(300.0)]]),
                   (lambda: Tracker("mean_euclidean", 50, hit_counter_max=3, initialization_delay=1, filter_factory=shared_factory("fpy")), [[bx(7.0)]], [[bx(9.0)]])],
        "iou": [(lambda: Tracker("iou", 0.9, hit_counter_max=3, initialization_delay=0, filter_factory=shared_factory("opt")), [[bx(0.0), bx(100.0)]], [[bx(101.0), bx(1.0)]]),
                (lambda: Tracker("iou", 0.8, hit_counter_max=3, initialization_delay=1, filter_factory=shared_factory("opt")), [[bx(5.0)]], [[bx(6.0), bx(400.0)]])],
        "reid": [(lambda: Tracker("euclidean", 10, hit_counter_max=2, initialization_delay=1, reid_distance_function=reidfn, reid_distance_threshold=100, reid_hit_counter_max=3,
                                  filter_factory=shared_factory("no")), [[pt(0.0)], [pt(0.0)], [], [pt(40.0)]], [[pt(40.0)]]),
                 (lambda: Tracker("euclidean", 10, hit_counter_max=2, initialization_delay=1, reid_distance_function=reidfn, reid_distance_threshold=100, reid_hit_counter_max=3,
                                  filter_factory=shared_factory("no")), [[pt(5.0)], [pt(5.0)], [], [pt(70.0)]], [[pt(70.0)]])],
        "labels": [(lambda: Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0, detection_threshold=0.5), [[pt(0.0, label="a"), pt(1.0, label="b")]],
                    [[pt(1.0, label="b", scores=np.array([0.9])), pt(0.0, label="a", scores=np.array([0.1]))]]),
                   (lambda: Tracker(static_distance, 10, hit_counter_max=3, initialization_delay=0, past_detections_length=1), [[pt(0.0, label="b")]], [[pt(3.0, label="b"), pt(3.0, label="a")]])],
        "camera": [(lambda: Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0), [[pt(0.0)]], [("T", (5.0, 1.0), [pt(6.0, 1.0)])]),
                   (lambda: Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0), [[pt(0.0)]], [("T", (-5.0, 9.0), [pt(-4.0, 9.0)])])],
        "two": [(lambda: Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0), [], [[pt(1.0)], [pt(2.0), pt(60.0)]]),
                (lambda: Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=1), [], [[pt(500.0)], [pt(501.0)]])],
        "build": [(lambda: None, [], ["build", [pt(1.0)]]), (lambda: None, [], ["build", [pt(2.0)]])],
        "three": [(lambda: Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0), [], [[pt(100.0 * k)]]) for k in range(3)],
    }
    return S[name]


def step(tr, u):
    if u == "build":
        return Tracker("euclidean", 10, hit_counter_max=3, initialization_delay=0), None
    if isinstance(u, tuple):
        T = TranslationTransformation(np.array(u[1]))
        return tr, tr.update(u[2], coord_transformations=T)
    return tr, tr.update(u)


def observe(tr, ret):
    return snapshot(tr), tuple(sorted(o.id for o in ret)), tr.total_object_count


def prepare(name):
    """(trackers after set-up, bodies, results)"""
    trs, bodies, results, rets = [], [], [], []
    for k, (mk, pre, upd) in enumerate(scenario(name)):
        tr = mk()
        for u in pre:
            step(tr, u)
        trs.append(tr)
        results.append([])

        def body(k=k, upd=upd):
            for u in upd:
                trs[k], ret = step(trs[k], u)
                if ret is not None:
                    results[k].append((list(ret), tr_gids(ret)))

        bodies.append(body)
    return trs, bodies, results


def tr_gids(ret):
    return [o.global_id for o in ret]


REF = {}


def reference(name):
    if name not in REF:
        trs, bodies, results = prepare(name)
        out = []
        for k, b in enumerate(bodies):
            b()
            out.append((snapshot(trs[k]), [tuple(sorted(o.id for o in r)) for r, _ in results[k]], trs[k].total_object_count))
        REF[name] = out
    return REF[name]


def execute(name, start, mode, plan, expect=None, record=True):
    trs, bodies, results = prepare(name)
    before = [o.global_id for tr in trs if tr for o in tr.tracked_objects if o.global_id is not None]
    ex = sched.Execution(bodies, plan, start, mode, expect, record)
    try:
        ex.run()
    except sched.Deadlock as d:
        raise Violation("deadlock: %s" % d)
    return trs, results, ex


def run_case(case, rec):
    name, start, mode, plan, expect = case[:5]
    exp = {p[0]: tuple(w) for p, w in zip(plan, expect)}
    ref = reference(name)
    trs, results, ex = execute(name, start, mode, plan, exp, bool(case[5:]))
    for k, e in enumerate(ex.errors):
        if e is not None:
            raise Violation("thread %d: %s: %s under this schedule" % (k, type(e).__name__, e))
    gids = {}
    for k, tr in enumerate(trs):
        got = (snapshot(tr), [tuple(sorted(o.id for o in r)) for r, _ in results[k]], tr.total_object_count)
        require(got == ref[k], lambda: "thread %d: %s, running alone: %s" % (k, got, ref[k]))
        for o in tr.tracked_objects:
            if o.global_id is not None:
                require(o.global_id not in gids, lambda: "global id %s handed out by trackers %s and %s" % (o.global_id, gids[o.global_id], k))
                gids[o.global_id] = k
    rec.step(ex.n)
    rec.outcome((name, start, tuple(sorted(gids.items(), key=lambda x: x[0]))[0][1], tuple(k for _, k in sorted(gids.items())), ex.switches))
    for p in plan:
        if p[0] < len(ex.points):
            tid, code, where = ex.points[p[0]]
            rec.state((name, tid, code.co_name, where))
    rec.count("preemptions_taken", ex.switches)
    return ex


CHUNKS = 8


def shards(tier):
    th = tier == "thorough"
    out = []
    for name in ("create", "init", "scalar", "iou", "reid", "labels", "camera", "build", "three") + (("two",) if th else ()):
        n = len(scenario(name))
        for start in range(n) if th or name == "labels" else (1,) if name == "iou" else (0,):
            for c in range(2):
                out.append((name, start, "opcode", 1, c, 2))
    out += [("two", s, "line", 1, 0, 1) for s in (0, 1)]
    for name in ("create",) + (("init", "reid", "three") if th else ()):
        for start in (0, 1) if th else (0,):
            for c in range(8):
                out.append((name, start, "line", 2, c, 8))
    if th:
        for start in (0, 1):
            for c in range(64):
                out.append(("create", start, "opcode", 2, c, 64))
    return out


def run_shard(shard, rec):
    name, start, mode, bound, c, m = shard
    for _ in range(2):  # warm up lazily initialised globals, then record
        reference(name)
        _, _, base = execute(name, start, mode, ())
    again = execute(name, start, mode, ())[2]
    same = lambda a, b: [(t, x.co_name, w) for t, x, w in a] == [(t, x.co_name, w) for t, x, w in b]
    if not same(base.points, again.points):
        raise RuntimeError("the same schedule took two different courses")
    rec.case((name, start, mode, (), ()))
    nthreads = len(scenario(name))
    desc = lambda p: (p[0], p[1].co_name, p[2])

    def explore(plan, expect, points, lo, left, top):
        for i in range(lo, len(points)):
            if top and i % m != c:
                continue
            for to in range(nthreads):
                if to == points[i][0]:
                    continue
                pl, exq = plan + ((i, to),), expect + (desc(points[i]),)
                ex = rec.case((name, start, mode, pl, exq) + (("record",) if left > 1 else ()))
                if ex is None or ex.switches < len(pl):
                    continue  # target not enabled: same as a schedule with fewer preemptions
                if left > 1:
                    explore(pl, exq, ex.points, i + 1, left - 1, False)

    explore((), (), base.points, 0, bound, True)
    rec.count("scheduling_points_of_base_runs", len(base.points))
