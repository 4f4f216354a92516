"""Framework of the runtime monitors: cases, verdicts, evidence, replay.

A check is a list of `Part`s.  A part is a function run once per case index; it drives the real code in
/repo and calls `case.check(...)` (an oracle evaluation) for everything it observes.  Verdicts are
three-valued: a failed oracle is a violation, a part that never reached its oracle makes the whole run
inconclusive (exit 2), everything else held on what was observed (exit 0).
"""
import hashlib
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback
from concurrent.futures import FIRST_COMPLETED, BrokenExecutor, ProcessPoolExecutor, wait

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BARTPY_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
GRACE = 12.0             # seconds the run goes on after the first violation
CPU_BUDGET = 200.0       # CPU seconds per case; cases take well under a second to a few seconds


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or {}


class NoProgress(BaseException):
    """Raised by the CPU-time watchdog; BaseException so that no handler swallows it."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        if x.size <= 60:
            return jsonable(x.tolist(), depth + 1)
        return {"shape": list(x.shape), "head": jsonable(x.reshape(-1)[:20].tolist())}
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        f = float(x)
        return f if np.isfinite(f) else repr(f)
    if isinstance(x, str) or x is None:
        return x
    return repr(x)[:300]


def derive_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:4], "big")


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(str(o.shape).encode()); h.update(str(o.dtype).encode()); h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b"(")
            for x in o:
                feed(x)
            h.update(b")")
        elif isinstance(o, dict):
            for k in sorted(o, key=repr):
                feed(k); feed(o[k])
        else:
            h.update(repr(o).encode()); h.update(b";")
    for o in objs:
        feed(o)
    return int.from_bytes(h.digest(), "big")


class Case:
    """One execution of a part: its random state, its counters and its observations."""

    def __init__(self, prop, part, index, seed, tier):
        self.prop, self.part, self.index, self.tier = prop, part, index, tier
        self.seed = derive_seed(seed, prop, part, index)
        self.rng = np.random.RandomState(self.seed)
        self.counts = {}
        self.distinct = set()
        self.desc = {}
        self.sample = None
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def seen(self, *key):
        """Register a distinct, non-trivial state or event."""
        if len(self.distinct) < 5000:
            self.distinct.add(digest(*key))

    def describe(self, **kw):
        self.desc.update(kw)

    def check(self, ok, what, **detail):
        self.count("oracle_evaluations")
        if not bool(ok):
            raise Violation(what, detail)

    def close(self, a, b, what, rtol=1e-9, atol=1e-9, **detail):
        self.count("oracle_evaluations")
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation(what + " (shape %s, expected %s)" % (a.shape, b.shape), detail)
        with np.errstate(invalid="ignore"):
            same = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.abs(b))
        if not np.all(same):
            i = int(np.argmin(same.reshape(-1)))
            raise Violation(what, dict(detail, got=a.reshape(-1)[i], expected=b.reshape(-1)[i], at=i,
                                       n_different=int((~same).sum()), n=int(a.size)))

    def equal(self, a, b, what, **detail):
        self.count("oracle_evaluations")
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ok = np.array_equal(np.asarray(a), np.asarray(b))
        else:
            ok = a == b
        if not ok:
            raise Violation(what, dict(detail, got=a, expected=b))

    def raises(self, exc, f, what, **detail):
        self.count("oracle_evaluations")
        try:
            f()
        except exc:
            return
        except Violation:
            raise
        raise Violation(what, detail)


class Part:
    def __init__(self, name, fn, quick, thorough, needs=("oracle_evaluations",), serial=False, cpu=CPU_BUDGET):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.needs, self.serial, self.cpu = needs, serial, cpu


def in_repo_frames(tb):
    repo = os.path.realpath(REPO) + os.sep + "bartpy"
    return [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(repo)]


def malformed(e):
    """The oracle could not even read what the code left behind: no root, a cycle, draws missing, results of another type ..."""
    return isinstance(e, (AssertionError, LookupError, ValueError, RecursionError, ArithmeticError, TypeError, AttributeError, StopIteration, pickle.PickleError)) or (
        isinstance(e, RuntimeError) and not isinstance(e, BrokenExecutor) and "start new" not in str(e))


def run_case(prop, part, index, seed, tier):
    case = Case(prop, part.name, index, seed, tier)
    np.random.seed(case.seed % (2 ** 32 - 1))
    from vf import gen
    gen.set_ambient(case.seed % (2 ** 32 - 1))
    if gen.AMBIENT:
        case.describe(ambient=dict(gen.AMBIENT))
    out = {"part": part.name, "index": index, "violation": None, "error": None}

    def on_alarm(signum, frame):
        raise NoProgress()
    t0 = time.time()
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, part.cpu)
    try:
        part.fn(case)
    except Violation as v:
        out["violation"] = {"what": v.what, "detail": jsonable(v.detail), "where": last_frame()}
    except NoProgress:
        out["violation"] = {"what": "no progress: case did not finish within %g CPU seconds" % part.cpu,
                            "detail": {}, "where": traceback.format_exc()[-1500:]}
    except MemoryError:
        out["error"] = "MemoryError"
    except Exception as e:
        frames = in_repo_frames(e.__traceback__)
        text = traceback.format_exc()
        if frames:
            out["violation"] = {"what": "the code raised %s: %s" % (type(e).__name__, str(e)[:300]), "detail": {},
                                "where": text[-2500:]}
        elif malformed(e):
            out["violation"] = {"what": "the state observed is malformed: %s: %s" % (type(e).__name__, str(e)[:300]), "detail": {},
                                "where": text[-2500:]}
        else:
            out["error"] = text[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    out["counts"] = case.counts
    out["distinct"] = case.distinct
    out["desc"] = jsonable(case.desc)
    out["sample"] = jsonable(case.sample) if case.sample is not None else None
    out["known"] = case.known
    out["wall"] = time.time() - t0
    return out


def last_frame():
    return traceback.format_exc()[-2500:]


_PARTS = None
_ARGS = None


def _silence():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def _worker(task):
    pi, index = task
    prop, seed, tier = _ARGS
    return run_case(prop, _PARTS[pi], index, seed, tier)


def run_parts(prop, parts, seed, tier, only=None, deadline=None):
    """Run all cases of all parts; returns the outcomes and the cases that did not finish."""
    global _PARTS, _ARGS
    _PARTS, _ARGS = parts, (prop, seed, tier)
    tasks, serial = [], []
    for pi, part in enumerate(parts):
        n = part.quick if tier == "quick" else part.thorough
        idx = range(n)
        if only is not None:
            if part.name != only[0]:
                continue
            idx = idx if only[1] is None else [only[1]]
        for i in idx:
            (serial if part.serial else tasks).append((pi, i))
    # interleave the parts so that every part gets going early
    tasks.sort(key=lambda t: (t[1] / max(1, (parts[t[0]].quick if tier == "quick" else parts[t[0]].thorough)), t[0]))
    outcomes = []
    procs = int(os.environ.get("VERIF_PROCS", "8"))
    ctx = multiprocessing.get_context("fork")
    for group, n in ((tasks, procs), (serial, 1)):
        if not group or time.time() > deadline:
            continue
        # non-daemonic workers: the code under test may start worker processes of its own
        pool = ProcessPoolExecutor(min(n, len(group)), mp_context=ctx, initializer=_silence)
        try:
            pending = {pool.submit(_worker, t): t for t in group}
            while pending:
                done, _ = wait(list(pending), timeout=max(deadline - time.time(), 0.05), return_when=FIRST_COMPLETED)
                if not done:
                    break
                for f in done:
                    t = pending.pop(f)
                    try:
                        outcomes.append(f.result())
                    except Exception as e:      # a worker died
                        outcomes.append({"part": parts[t[0]].name, "index": t[1], "violation": None, "counts": {}, "distinct": set(),
                                         "error": "worker died: %r" % (e,), "desc": {}, "sample": None, "known": [], "wall": 0})
                    if outcomes[-1]["violation"]:
                        deadline = min(deadline, time.time() + GRACE)   # enough seen: wind up
        finally:
            workers = list((pool._processes or {}).values())
            pool.shutdown(wait=False, cancel_futures=True)
            for p in workers:
                p.terminate()
            for p in workers:
                p.join(5)
                if p.is_alive():
                    p.kill()
    done = {(o["part"], o["index"]) for o in outcomes}
    missing = [(parts[pi].name, i) for pi, i in tasks + serial if (parts[pi].name, i) not in done]
    return outcomes, missing
