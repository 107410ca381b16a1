"""Cooperative scheduler for real Python threads.

Must be imported before norfair: it replaces threading.Lock/RLock by locks that hand control back to the scheduler when
they are contended by a scheduled thread (everywhere else they behave like the originals).
Scheduling points: every bytecode (or every line) executed in a norfair source file, and contended locks.
"""
import _thread
import os
import sys
import threading

# third parties first: only locks created by norfair (and by our harness) become cooperative
import cv2  # noqa: F401
import filterpy.kalman  # noqa: F401
import numpy  # noqa: F401
import rich  # noqa: F401
import scipy.spatial.distance  # noqa: F401

ACTIVE = None  # the running Execution
_real_lock = _thread.allocate_lock
_real_rlock = _thread.RLock


class CoopLock:
    reentrant = False

    def __init__(self):
        self._lock = _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        ex = ACTIVE
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        if ex is None or me not in ex.tid_of:
            ok = self._lock.acquire(blocking, timeout)
        else:
            ok = self._lock.acquire(False)
            while not ok:
                if not blocking or 0 <= timeout <= 1:
                    # whoever holds it may be preempted for longer than that
                    return False
                ex.block(ex.tid_of[me], self)
                ok = self._lock.acquire(False)
        if ok:
            self._owner, self._count = me, 1
        return ok

    def release(self):
        if self.reentrant:
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._lock.release()
        if ACTIVE is not None:
            ACTIVE.unblock(self)

    def locked(self):
        return self._lock.locked()

    def _at_fork_reinit(self):
        self._lock = _real_lock()
        self._owner, self._count = None, 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True

    def _is_owned(self):
        return self._owner == _thread.get_ident()


threading.Lock = CoopLock
threading.RLock = CoopRLock
assert "norfair" not in sys.modules, "sched must be imported before norfair"


class Deadlock(Exception):
    pass


class Diverged(Exception):
    pass


def norfair_dir():
    import norfair

    return os.path.dirname(os.path.abspath(norfair.__file__)) + os.sep


class Execution:
    """runs bodies (callables) in threads; plan = ((point index, thread to switch to), ...)"""

    def __init__(self, bodies, plan=(), start=0, mode="opcode", expect=None, record=True):
        self.bodies = bodies
        self.plan = dict(plan)
        self.start = start
        self.mode = mode
        self.points = []  # (tid, where) of every point
        self.n = 0
        self.expect = expect or {}
        self.errors = [None] * len(bodies)
        self.finished = [False] * len(bodies)
        self.blocked = {}
        self.sems = [_real_lock() for _ in bodies]
        for s in self.sems:
            s.acquire()
        self.main = _real_lock()
        self.main.acquire()
        self.tid_of = {}
        self.prefix = norfair_dir()
        self.fatal = None
        self.switches = 0
        # without recording, tracing ends after the last planned preemption
        self.last = None if record else max(self.plan, default=-1)

    # -- scheduling
    def enabled(self, k):
        return not self.finished[k] and k not in self.blocked

    def next_enabled(self, after):
        for k in range(len(self.bodies)):
            if self.enabled(k):
                return k
        return None

    def point(self, tid, code, where):
        i = self.n
        self.n += 1
        self.points.append((tid, code, where))
        if i in self.expect and self.expect[i] != (tid, code.co_name, where):
            self.fatal = Diverged("point %d: %s, recorded %s" % (i, (tid, code.co_name, where), self.expect[i]))
        to = self.plan.get(i)
        if to is not None and to != tid and self.enabled(to):
            self.switches += 1
            self.switch(tid, to)

    def switch(self, tid, to):
        self.sems[to].release()
        self.sems[tid].acquire()

    def block(self, tid, lock):
        self.blocked[tid] = lock
        to = self.next_enabled(tid)
        if to is None:
            self.fatal = Deadlock("all threads wait for locks")
            self.main.release()
            self.sems[tid].acquire()  # for ever
        self.switch(tid, to)

    def unblock(self, lock):
        for k in [k for k, l in self.blocked.items() if l is lock]:
            del self.blocked[k]

    def run(self):
        global ACTIVE
        ACTIVE = self
        try:
            for k in range(len(self.bodies)):
                _thread.start_new_thread(self._thread, (k,))
            self.sems[self.start].release()
            self.main.acquire()
        finally:
            ACTIVE = None
        if self.fatal:
            raise self.fatal
        return self

    def _thread(self, k):
        self.sems[k].acquire()
        self.tid_of[_thread.get_ident()] = k
        prefix = self.prefix
        opcode = self.mode == "opcode"
        point = self.point

        def local(frame, event, arg):
            if self.last is not None and self.n > self.last:
                return local  # (switching opcode tracing off here crashes CPython 3.12)
            if event == "opcode":
                point(k, frame.f_code, frame.f_lasti)
            elif event == "line" and not opcode:
                point(k, frame.f_code, frame.f_lineno)
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(prefix):
                return None
            if self.last is not None and self.n > self.last:
                return None
            if opcode:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        try:
            sys.settrace(tracer)
            try:
                self.bodies[k]()
            finally:
                sys.settrace(None)
        except BaseException as e:  # reported by the harness
            self.errors[k] = e
        self.finished[k] = True
        del self.tid_of[_thread.get_ident()]
        to = self.next_enabled(k)
        if to is not None:
            self.sems[to].release()
        elif all(self.finished):
            self.main.release()
        else:
            self.fatal = Deadlock("thread ended while the others wait for locks")
            self.main.release()
