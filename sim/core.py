"""Simulation driver: seeds -> programs -> executions -> verdict, minimised replay and evidence.

A *program* is a plain JSON value: configuration, operation list, fault plan, schedule. `generate`
derives it from one integer; `execute` is a pure function of it and of the code under test. So one
seed is one exactly repeatable execution, and a replay file is simply the minimised program.
"""
from __future__ import annotations

import collections
import contextlib
import copy
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = [REPO + os.sep]  # where the code under test lives (scratch copies add themselves)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_deadline = None
RUN_ALARM_S = 100  # one simulated run taking longer than this has stopped making progress


class Violation(Exception):
    """The property is broken. `kind` is the violation class kept while minimising."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class Stuck(BaseException):
    pass


class Result:
    """What one simulated run did."""

    def __init__(self):
        self.faults = collections.Counter()   # fault kind -> times it actually fired
        self.probes = collections.Counter()   # rare condition -> times reached
        self.ticks = 0                        # simulated arrivals processed
        self.evals = 0                        # oracle evaluations
        self.sig = []                         # event log; its hash identifies the execution
        self.nontrivial = False

    def log(self, *event):
        self.sig.append(event)

    def digest(self):
        return hashlib.sha256(repr(self.sig).encode()).hexdigest()[:16]


def rng_for(*parts):
    """A PRNG that depends on the parts only (never on the process, hash seed or platform)."""
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(tuple(CODE)):
            return True
        tb = tb.tb_next
    return False


def _repo_on_stack(frame):
    while frame is not None:
        if frame.f_code.co_filename.startswith(tuple(CODE)):
            return True
        frame = frame.f_back
    return False


def _alarm(signum, frame):
    frames = [frame] + list(sys._current_frames().values())
    raise Stuck("repo" if any(_repo_on_stack(f) for f in frames) else "harness")


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy as np
        with np.errstate(all="ignore"):
            yield


SHAPE_ERRORS = (ValueError, TypeError, LookupError, AttributeError, ArithmeticError, AssertionError)


def run_program(check, program, alarm=RUN_ALARM_S):
    """Execute one program; returns (verdict, Result) with verdict None or (kind, detail).

    An exception of the code under test that the check did not provoke is a violation; one of the
    harness itself propagates (and makes the whole check fail, not report).
    """
    res = Result()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(alarm)
    global _deadline
    _deadline = time.monotonic() + alarm
    try:
        with quiet():
            check.execute(copy.deepcopy(program), res)
        return None, res
    except Violation as v:
        return (v.kind, v.detail), res
    except Stuck as s:
        if str(s) != "repo":
            raise RuntimeError("harness stuck") from s
        return ("no-progress", f"still running after {alarm}s of wall time"), res
    except RemoteViolation as v:
        return (v.kind, v.detail), res
    except Exception as e:
        if in_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            return (f"unexpected-{type(e).__name__}", f"{e} ({last.name}, {last.filename}:{last.lineno})"), res
        if isinstance(e, SHAPE_ERRORS):
            # the oracle choked on what the code under test handed out (wrong type, shape or key)
            last = traceback.extract_tb(e.__traceback__)[-1]
            return (f"unusable-result-{type(e).__name__}", f"{e} ({last.filename}:{last.lineno})"), res
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        _deadline = None


class RemoteViolation(Exception):
    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


def in_fork(fn, *args):
    """Run fn in a forked child of this (pristine) process and return its result.

    Exceptions: a Violation or an exception out of the code under test comes back as a
    RemoteViolation, anything else as a RuntimeError (harness error)."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                if _deadline:  # the parent would only see itself waiting
                    signal.alarm(max(1, int(_deadline - time.monotonic()) - 3))
                out = ("ok", fn(*args))
            except Violation as v:
                out = ("violation", v.kind, v.detail)
            except Stuck as s:
                out = ("violation" if str(s) == "repo" else "error", "no-progress", "stuck")
            except Exception as e:
                if in_repo(e.__traceback__):
                    out = ("violation", f"unexpected-{type(e).__name__}", str(e))
                elif isinstance(e, SHAPE_ERRORS):
                    out = ("violation", f"unusable-result-{type(e).__name__}", str(e))
                else:
                    out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        except BrokenPipeError:  # the parent was stopped
            code = 3
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    with os.fdopen(r, "rb") as fh:
        try:
            data = fh.read()
        except BaseException:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked run died")
    out = pickle.loads(data)
    if out[0] == "ok":
        return out[1]
    if out[0] == "violation":
        raise RemoteViolation(out[1], out[2])
    raise RuntimeError("in forked run:\n" + out[1])


# ------------------------------------------------------------------ batch driver
_CHECK = None
_DONE = []   # runs this worker process has executed before


def program_for(check, seed0, index, tier):
    program = check.generate(rng_for(check.ID, seed0, index), tier)
    program["seed"] = [seed0, index]
    return program


def run_afresh(check, program, history=(), alarm=RUN_ALARM_S):
    """run_program in a pristine process, after the runs in history: (verdict, event-log hash)."""
    def child():
        for h in history:
            run_program(check, h, alarm)
        verdict, res = run_program(check, program, alarm)
        return verdict, res.digest()
    return in_fork(child)


def _worker(job):
    """Run a slice of seeds; stop the slice at the first violation."""
    cid, seed0, indices, tier = job
    tot = dict(n=0, faults=collections.Counter(), probes=collections.Counter(), ticks=0, evals=0,
               nontrivial=set(), digests=[], viol=None, sample=None)
    for i in indices:
        program = program_for(_CHECK, seed0, i, tier)
        verdict, res = run_program(_CHECK, program)
        tot["n"] += 1
        tot["faults"] += res.faults
        tot["probes"] += res.probes
        tot["ticks"] += res.ticks
        tot["evals"] += res.evals
        d = res.digest()
        tot["digests"].append((i, d))
        if res.nontrivial:
            tot["nontrivial"].add(d)
        if tot["sample"] is None and res.nontrivial:
            tot["sample"] = program
        if verdict is not None:
            tot["viol"] = (i, verdict, program, list(_DONE))
            break
        _DONE.append(i)
    return tot


def run_batch(check, seed, tier, n, workers, budget_s=None):
    """Simulate programs 0..n-1 (in order, sliced over forked workers)."""
    global _CHECK
    _CHECK = check
    size = max(1, min(check.SLICE, -(-n // workers)))
    slices = [list(range(i, min(i + size, n))) for i in range(0, n, size)]
    jobs = [(check.ID, seed, s, tier) for s in slices]
    tot = dict(n=0, faults=collections.Counter(), probes=collections.Counter(), ticks=0, evals=0,
               nontrivial=set(), digests=[], viol=None, samples=[])
    t0 = time.time()
    if workers == 1:
        outs = map(_worker, jobs)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(workers, maxtasksperchild=50)
        outs = pool.imap(_worker, jobs)
    try:
        for out in outs:
            for k in ("n", "ticks", "evals"):
                tot[k] += out[k]
            tot["faults"] += out["faults"]
            tot["probes"] += out["probes"]
            tot["nontrivial"] |= out["nontrivial"]
            tot["digests"] += out["digests"]
            if out["sample"] is not None and len(tot["samples"]) < 2:
                tot["samples"].append(out["sample"])
            if out["viol"] is not None:
                tot["viol"] = out["viol"]
                break
            if budget_s is not None and time.time() - t0 > budget_s:
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    return tot


# ------------------------------------------------------------------ minimiser
def minimise_history(check, program, history, kind, deadline):
    """The fewest earlier runs of the same process that the violation needs."""
    chunk = max(1, len(history) // 2)
    while chunk >= 1 and time.time() < deadline:
        i = 0
        while i < len(history) and time.time() < deadline:
            fewer = history[:i] + history[i + chunk:]
            try:
                verdict, _ = run_afresh(check, program, fewer)
            except Exception:
                verdict = None
            if verdict is not None and verdict[0] == kind:
                history = fewer
            else:
                i += chunk
        chunk //= 2
    return history


def minimise(check, program, kind, deadline, history=()):
    """Greedy delta debugging over the program's lists, keeping the violation class."""
    alarm = 25 if kind == "no-progress" else RUN_ALARM_S
    tries = 0

    def fails(p):
        nonlocal tries
        if time.time() > deadline:
            return False
        tries += 1
        try:
            verdict, _ = run_afresh(check, p, history, alarm)
        except Exception:
            return False
        return verdict is not None and verdict[0] == kind

    def ddmin(p, path):
        try:
            lst = _get(p, path)
        except (LookupError, TypeError):  # dropped together with an enclosing list
            return p
        if not isinstance(lst, list):
            return p
        chunk = max(1, len(lst) // 2)
        while chunk >= 1:
            i, changed = 0, False
            while i < len(_get(p, path)):
                lst = _get(p, path)
                q = copy.deepcopy(p)
                _set(q, path, lst[:i] + lst[i + chunk:])
                if fails(q):
                    p, changed = q, True
                else:
                    i += chunk
                if time.time() > deadline:
                    return p
            if chunk == 1 and not changed:
                break
            chunk = chunk // 2 if chunk > 1 else (1 if changed else 0)
        return p

    changed = True
    while changed and time.time() < deadline:
        before = json.dumps(program, sort_keys=True)
        for path in check.shrink_paths(program):
            program = ddmin(program, path)
        for q in check.simplify(program):
            if time.time() > deadline:
                break
            if fails(q):
                program = q
        changed = json.dumps(program, sort_keys=True) != before
    return program, tries


def _get(p, path):
    for k in path:
        p = p[k]
    return p


def _set(p, path, v):
    for k in path[:-1]:
        p = p[k]
    p[path[-1]] = v


# ------------------------------------------------------------------ base class of the checks
class Check:
    ID = ""
    LEVEL = "exploration"
    QUICK_RUNS = 1000
    THOROUGH_RUNS = 20000
    THOROUGH_BUDGET_S = 1500
    SLICE = 25
    RULE = ""
    REAL = "the whole shipped package (precise/*) with the installed numpy; no component stubbed"
    STUB = "none"
    ASSUMPTIONS: list = []

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, program, res):
        raise NotImplementedError

    def shrink_paths(self, program):
        return [("ops",)] if "ops" in program else []

    def simplify(self, program):
        """Yield simpler variants of the program."""
        from sim import gen
        yield from gen.simpler(program)

    def prepare(self):
        """Once, in the parent, before workers are forked."""
