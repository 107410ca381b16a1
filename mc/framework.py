"""Exploration framework shared by all checks.

A property module (mc/props/Pxx.py) supplies

    LEVEL       evidence level
    shards(tier)            -> list of picklable shard descriptors
    run_shard(shard, rec)   -> enumerates executions; every execution goes through rec.case(case)
    run_case(case, rec)     -> one complete execution of the real code against the oracle
    RULE, ASSUMPTIONS       -> text for the evidence

Everything is enumerated, nothing is sampled: a shard is a fully described finite sub-space, shards are
disjoint, and the run is exhaustive iff every shard ends without hitting a cap.
"""
import contextlib
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 60.0  # seconds of one execution before it counts as not terminating
NPROC = min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The real code contradicts the oracle."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig


class CaseTimeout(BaseException):
    pass


class StopShard(Exception):
    pass


def require(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


def tuplify(x):
    if isinstance(x, list):
        return tuple(tuplify(v) for v in x)
    return x


def known_findings(prop):
    """signatures of the recorded (unrepaired) findings of a property"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                sig, _, what = rest.partition(" ")
                assert sig.startswith("sig=")
                out[sig[4:]] = what
    return out


class Rec:
    """Counts what one shard covered and records violations."""

    def __init__(self, module, known, max_violations=1, timeout=None):
        self.module = module
        self.known = known
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.cases = 0
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.max_violations = max_violations
        self.timeout = timeout or getattr(module, "CASE_TIMEOUT", CASE_TIMEOUT)
        self.extra = {}
        self.current = None

    # -- called by oracles
    def state(self, key):
        self.states.add(hash(key))

    def outcome(self, key):
        self.outcomes.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- called by enumerations
    def case(self, case):
        """Execute one case; returns the result of run_case, or None after a recorded violation."""
        self.cases += 1
        self.current = case
        if len(self.samples) < 2:
            self.samples.append(case)
        signal.setitimer(signal.ITIMER_REAL, self.timeout)
        try:
            return self.module.run_case(case, self)
        except Violation as v:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.violation(case, v.msg, v.sig)
        except CaseTimeout:
            self.violation(case, "no answer after %.0f s: does not terminate" % self.timeout, "timeout")
        except (KeyboardInterrupt, StopShard):
            raise
        except MemoryError:
            self.violation(case, "out of memory", "memory")
        except (SystemExit, Exception) as e:  # the real code raised on a valid input
            signal.setitimer(signal.ITIMER_REAL, 0)
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%d" % (f.filename, f.lineno) for f in tb][-3:]
            self.violation(case, "unexpected %s: %s at %s" % (type(e).__name__, str(e)[:300], where), "exception")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None

    def violation(self, case, msg, sig):
        if sig is not None and sig in self.known:
            self.known_hits.setdefault(sig, (case, msg))
            return
        self.violations.append((case, msg))
        if len(self.violations) >= self.max_violations:
            raise StopShard()


def _alarm(signum, frame):
    raise CaseTimeout()


def quiet():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    try:
        import cv2

        cv2.setNumThreads(1)
    except Exception:
        pass


@contextlib.contextmanager
def silenced():
    """worker processes: nothing the library prints may reach the check's output"""
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1), os.dup(2)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        for fd in saved + (devnull,):
            os.close(fd)


def _init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(devnull, fd)
    quiet()


def _run_shard(args):
    prop, shard, known = args
    module = importlib.import_module("mc.props." + prop)
    rec = Rec(module, known)
    t = time.time()
    error = None
    try:
        module.run_shard(shard, rec)
    except StopShard:
        pass
    except BaseException:
        error = traceback.format_exc()
    return dict(
        shard=shard, states=rec.states, outcomes=rec.outcomes, transitions=rec.transitions, cases=rec.cases,
        samples=rec.samples, violations=rec.violations, known=rec.known_hits, extra=rec.extra, error=error,
        wall=time.time() - t,
    )


def run_shards(prop, shards, known, nproc, left):
    """Runs every shard in a forked process of its own, nproc at a time; yields results in order of completion.

    A process that dies or does not answer in time yields a message instead (and ends the run).
    """
    todo = list(shards)[::-1]
    running = {}  # fd -> (pid, chunks, shard)
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while todo or running:
            while todo and len(running) < nproc:
                shard = todo.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    status = 1
                    try:
                        os.close(r)
                        for fd in running:
                            os.close(fd)
                        _init_worker()
                        data = pickle.dumps(_run_shard((prop, shard, known)), protocol=4)
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        status = 0
                    finally:
                        os._exit(status)
                os.close(w)
                running[r] = (pid, [], shard)
            ready, _, _ = select.select(list(running), [], [], max(0.5, left()))
            if not ready:
                yield "no answer before the deadline: the code under test hangs (shards %s)" % [str(v[2])[:200] for v in running.values()]
                return
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    running[fd][1].append(chunk)
                    continue
                pid, chunks, shard = running.pop(fd)
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                if status or not chunks:
                    yield "the process running shard %s died (wait status %s)" % (str(shard)[:300], status)
                    return
                yield pickle.loads(b"".join(chunks))
    finally:
        for fd, (pid, _, _) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            os.close(fd)


def case_len(c):
    return len(json.dumps(c, default=str))


def main(prop, tier, replay=None):
    t0 = time.time()
    quiet()  # also keeps OpenCV from starting threads, which would not survive the forks
    module = importlib.import_module("mc.props." + prop)
    known = known_findings(prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if replay:
        return main_replay(prop, module, replay)
    if hasattr(module, "setup"):
        module.setup(tier)
    shards = module.shards(tier)
    # longest first is unknown; VERIF_SEED only permutes the order of work, never what is covered
    order = sorted(range(len(shards)), key=lambda i: hashlib.md5(b"%d/%d" % (seed, i)).digest())
    if getattr(module, "ORDERED", False):
        order = list(range(len(shards)))
    states, outcomes = set(), set()
    total = dict(transitions=0, cases=0)
    extra, samples, violations, known_hits, errors = {}, [], [], {}, []
    deadline = float(getattr(module, "DEADLINE", {}).get(tier, 600 if tier == "quick" else 6 * 3600))
    done = 0
    slow = []
    for r in run_shards(prop, [shards[i] for i in order], known, getattr(module, "NPROC", NPROC), lambda: deadline - (time.time() - t0)):
        if isinstance(r, str):
            violations.append((dict(unfinished=len(shards) - done), r))
            break
        done += 1
        states |= r["states"]
        outcomes |= r["outcomes"]
        total["transitions"] += r["transitions"]
        total["cases"] += r["cases"]
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
        samples.append((done, r["samples"]))
        violations += r["violations"]
        for k, v in r["known"].items():
            known_hits.setdefault(k, v)
        slow.append((r["wall"], r["shard"]))
        if r["error"]:
            errors.append((r["shard"], r["error"]))
            break
        if len(violations) >= 3:
            break
    complete = done == len(shards) and not violations and not errors
    if hasattr(module, "finish") and complete:
        for msg in module.finish(extra, outcomes):
            violations.append((dict(aggregate=True), msg))
    wall = time.time() - t0
    flat = [c for _, ss in samples for c in ss]
    pick = flat[:2] + flat[len(flat) // 2 : len(flat) // 2 + 2] + flat[-2:] if len(flat) > 6 else flat
    cov = dict(rule=module.RULE, samples=pick, shards=len(shards), shards_completed=done, exhaustive=complete,
               bounds=getattr(module, "BOUNDS", {}).get(tier, ""), **extra)
    if module.LEVEL == "model_checking":
        cov.update(states=len(states), transitions=total["transitions"], traces_validated_against_impl=total["cases"],
                   distinct_outcomes=len(outcomes))
    else:
        cov.update(evaluations=total["cases"], distinct_nontrivial=len(outcomes) or len(states), checks_inside_evaluations=total["transitions"])
    ev = dict(
        property=prop, tier=tier, seed=seed, level=module.LEVEL, coverage=cov,
        assumptions=list(getattr(module, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for sig, what in known.items():
        if sig in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print(
        "%s %s: %d states, %d transitions, %d executions, %d distinct outcomes, %d/%d shards, %.1f s"
        % (prop, tier, len(states), total["transitions"], total["cases"], len(outcomes), done, len(shards), wall)
    )
    if os.environ.get("MC_PROFILE"):
        for w, s in sorted(slow, key=lambda x: -x[0])[:8]:
            print("  %.1fs %s" % (w, str(s)[:150]))
    if errors and not violations:
        print("ERROR in shard %s\n%s" % errors[0])
        return 3
    if violations:
        violations.sort(key=lambda v: case_len(v[0]))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, (case, msg) in enumerate(violations):
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(dict(property=prop, case=case, message=msg), f, indent=1, default=str)
            if n == 0:
                print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s\n  case: %s" % (msg, json.dumps(case, default=str)[:700]))
        return 1
    return 0


def main_replay(prop, module, path):
    data = json.load(open(path))
    case = tuplify(data["case"])
    signal.signal(signal.SIGALRM, _alarm)
    quiet()
    if hasattr(module, "setup"):
        module.setup("quick")
    rec = Rec(module, {}, max_violations=10**9)
    with silenced():
        rec.case(case)
    if rec.violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + rec.violations[0][1])
        return 1
    print("replay of %s: no violation" % path)
    return 0
