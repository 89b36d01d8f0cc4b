"""A seeded scheduler for real threads.

Tasks are real threads, but only one ever runs: every other is parked on its own semaphore. Control
can change hands where CPython could switch threads inside the package (function entry, loop
back-edge, return from a C call, an operator, which numpy may run without the interpreter lock) and
at explicit yields of the harness. A schedule is a list of [gap, choice]: after `gap` further points
the running task is parked and the choice-th other live task continues. After the list is exhausted
every task runs to its end. So a schedule is plain data: one program, one interleaving.
"""
from __future__ import annotations

import dis
import sys
import threading

from sim import faults
from sim.core import Stuck

M = sys.monitoring
TOOL = 3
OPS = {"BINARY_OP", "COMPARE_OP", "STORE_SUBSCR", "BINARY_SUBSCR"}


class _G:
    ready = False
    active = None
    codes = None
    ops = {}


def _event(label, code):
    s = _G.active
    if s is not None:
        s.point(label, code)


def _py_start(code, off):
    _event("entry", code)


def _jump(code, src, dst):
    if dst > src:
        return M.DISABLE
    _event("loop", code)


def _c_return(code, off, fn, arg0):
    if _G.active is not None:
        _event("call", code)


def _instruction(code, off):
    ops = _G.ops.get(code)
    if ops is None:
        ops = _G.ops[code] = {i.offset for i in dis.get_instructions(code) if i.opname in OPS}
    if off not in ops:
        return M.DISABLE
    _event("op", code)


def codes(prefixes=None):
    """The code objects to instrument; remembered, so that a forked run need not search for them."""
    if prefixes is None:
        if _G.codes is None:
            _G.codes = faults.package_codes()
        return _G.codes
    return [c for p in prefixes for c in faults.package_codes(p)]


def setup(prefixes=None):
    """Instrument the package (again whenever new code objects may have appeared)."""
    E = M.events
    if not _G.ready:
        M.use_tool_id(TOOL, "verif-sched")
        M.register_callback(TOOL, E.PY_START, _py_start)
        M.register_callback(TOOL, E.JUMP, _jump)
        M.register_callback(TOOL, E.C_RETURN, _c_return)
        M.register_callback(TOOL, E.CALL, lambda *a: None)
        M.register_callback(TOOL, E.INSTRUCTION, _instruction)
        _G.ready = True
    for c in codes(prefixes):
        M.set_local_events(TOOL, c, E.PY_START | E.JUMP | E.CALL | E.INSTRUCTION)


class Task:
    def __init__(self, index, fn):
        self.index, self.fn = index, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.op = self.inop = 0
        self.points = 0
        self.parks = None
        self.thread = None


class Scheduler:
    """sched = Scheduler(switches, parks); sched.spawn(fn)...; sched.run()

    A park [task, op, point, steps] stops a task at the given point of its op-th operation, lets the
    others begin `steps` operations, and then lets it go on."""

    def __init__(self, switches, parks=(), max_points=2_000_000):
        self.queue = [list(s) for s in switches]
        self.parks = [list(p) for p in parks]
        self.parked, self.steps = None, 0
        self.tasks = []
        self.current = None
        self.points = 0
        self.switches = 0
        self.trace = []
        self.by_ident = {}
        self.finished = threading.Event()
        self.max_points = max_points
        self.left = 0
        self._arm()

    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def _arm(self):
        self.left = self.queue[0][0] if self.queue else float("inf")

    def point(self, label="yield", code=None):
        me = self.by_ident.get(threading.get_ident())
        if me is None:
            return
        if self.current is not me:  # it was blocked outside and took over: wait for its turn
            me.sem.acquire()
        self.points += 1
        me.points += 1
        if self.points > self.max_points:
            raise Stuck("repo")
        if code is None:
            me.op, me.inop = me.op + 1, 0
        me.inop += 1
        if self.parked is me:  # everybody else has ended or is blocked
            self.parked = None
        if self.parked is not None and code is None:
            self.steps -= 1
            if self.steps <= 0:
                back, self.parked = self.parked, None
                if not back.done:
                    return self._switch(me, back, "resume", code)
        mine = me.parks
        if mine is None:
            mine = me.parks = sorted([p[1:] for p in self.parks if p[0] % len(self.tasks) == me.index], key=lambda p: p[:2])
        while mine and mine[0][0] + 1 < me.op:  # that operation is over
            mine.pop(0)
        if self.parked is None and mine:
            op, k, steps = mine[0]
            if me.op == op + 1 and me.inop >= k:
                mine.pop(0)
                others = [t for t in self.tasks if not t.done and t is not me]
                if others:
                    self.parked, self.steps = me, steps
                    return self._switch(me, others[steps % len(others)], "park", code)
        self.left -= 1
        if self.left > 0:
            return
        choice = self.queue.pop(0)[1]
        self._arm()
        others = [t for t in self.tasks if not t.done and t is not me and t is not self.parked]
        if not others:
            return
        self._switch(me, others[choice % len(others)], label, code)

    def _switch(self, me, to, label, code):
        self.switches += 1
        self.trace.append((label, code.co_qualname if code else "", me.index, to.index))
        self.current = to
        to.sem.release()
        me.sem.acquire()

    def _body(self, t):
        t.sem.acquire()
        try:
            t.fn(self)
        except BaseException as e:  # noqa: BLE001 - reported by run()
            t.error = e
        t.done = True
        rest = [x for x in self.tasks if not x.done]
        if rest:
            self.current = rest[0]
            rest[0].sem.release()
        else:
            self.finished.set()

    def run(self):
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
            self.by_ident[t.thread.ident] = t
        _G.active = self
        old = sys.getswitchinterval()
        try:
            self.current = self.tasks[0]
            self.tasks[0].sem.release()
            seen, still = -1, 0
            while not self.finished.wait(0.5):
                # a task blocked on a lock of a parked one makes no progress: let another run
                still = still + 1 if self.points == seen else 0
                seen = self.points
                if still >= 4:
                    still = 0
                    others = [t for t in self.tasks if not t.done and t is not self.current]
                    if others:
                        self.current = others[0]
                        others[0].sem.release()
        finally:
            _G.active = None
            sys.setswitchinterval(old)
        for t in self.tasks:
            t.thread.join(5)
        for t in self.tasks:
            if t.error is not None:
                raise t.error


def gen_switches(rng, tasks, length=None, mean=None):
    """A random schedule: one typical burst length, or (parking one task for long) a mixture."""
    n = length if length is not None else rng.choice([2, 5, 10, 25, 60])
    if mean is None and rng.random() < 0.5:
        means = [rng.choice([3, 10, 30, 100, 300]) for _ in range(n)]
    else:
        means = [mean or rng.choice([2, 5, 15, 40, 120])] * n
    return [[1 + int(rng.expovariate(1.0 / m)), rng.randrange(max(1, tasks - 1))] for m in means]


def gen_parks(rng, tasks, ops):
    """Long pauses of one task inside one of its operations."""
    if rng.random() < 0.5:
        return []
    return [[rng.randrange(tasks), rng.randrange(max(1, ops)), 1 + int(rng.expovariate(1.0 / 25)), rng.choice([1, 2, 2, 3, 4, 8])]
            for _ in range(rng.choice([1, 1, 2, 3]))]
