"""Fault injection at any instant inside the code under test.

Three families, each turning "the k-th opportunity during this call" into an exception:

* ``interrupt`` - KeyboardInterrupt where CPython itself may deliver one: function entry, loop
  back-edge, return from a C call;
* ``alloc``     - MemoryError at a C call returning its result or at an operator about to build one;
* ``linalg``    - LinAlgError or MemoryError from the k-th decomposition or inversion.

The first two use ``sys.monitoring`` on the code objects of the package (nothing is patched, the
package is unaware); the last wraps numpy.linalg attributes for the duration of the call. The
opportunities are counted in a dry run on a copy, so a program stores a fraction, not an offset.
"""
from __future__ import annotations

import contextlib
import copy
import dis
import gc
import os
import sys
import types

import numpy as np

from sim import core

M = sys.monitoring
TOOL = 4
LINALG = ["inv", "pinv", "svd", "eigh", "eigvals", "eigvalsh", "cholesky", "solve", "slogdet", "norm",
          "eig", "lstsq", "qr", "det", "matrix_power"]
ALLOC_OPS = {"BINARY_OP", "BUILD_MAP", "BINARY_SLICE", "BUILD_LIST", "BUILD_TUPLE", "UNARY_NEGATIVE",
             "BINARY_SUBSCR", "DICT_MERGE", "DICT_UPDATE", "BUILD_CONST_KEY_MAP"}


class Injected(KeyboardInterrupt):
    """KeyboardInterrupt raised by the simulator."""


class InjectedMemory(MemoryError):
    pass


class InjectedLinAlg(np.linalg.LinAlgError):
    pass


def package_codes(prefix=None):
    """All code objects of the package under test that are loaded."""
    prefix = prefix or os.path.join(core.REPO, "precise") + os.sep
    seen = {}

    def add(c):
        if c in seen:
            return
        seen[c] = True
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(prefix):
            add(o.__code__)
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


class _State:
    ready = False
    on = False
    family = None
    count = 0
    target = -1
    where = None
    ops = {}


S = _State()


def _point(label, code):
    S.count += 1
    if S.count - 1 == S.target:
        S.on = False
        S.where = f"{label}@{code.co_qualname}"
        raise Injected() if S.family == "interrupt" else InjectedMemory("injected")


def _py_start(code, off):
    if S.on and S.family == "interrupt":
        _point("entry", code)


def _jump(code, src, dst):
    if dst > src:
        return M.DISABLE
    if S.on and S.family == "interrupt":
        _point("loop", code)


def _c_return(code, off, fn, arg0):
    if S.on:
        _point("call:" + getattr(fn, "__name__", "?"), code)


def _instruction(code, off):
    ops = S.ops.get(code)
    if ops is None:
        ops = S.ops[code] = {i.offset for i in dis.get_instructions(code) if i.opname in ALLOC_OPS}
    if off not in ops:
        return M.DISABLE
    if S.on and S.family == "alloc":
        _point("op", code)


def setup():
    """Instrument the package (once per process)."""
    if S.ready:
        return
    M.use_tool_id(TOOL, "verif-faults")
    E = M.events
    M.register_callback(TOOL, E.PY_START, _py_start)
    M.register_callback(TOOL, E.JUMP, _jump)
    M.register_callback(TOOL, E.C_RETURN, _c_return)
    M.register_callback(TOOL, E.CALL, lambda *a: None)
    M.register_callback(TOOL, E.INSTRUCTION, _instruction)
    for c in package_codes():
        M.set_local_events(TOOL, c, E.PY_START | E.JUMP | E.CALL | E.INSTRUCTION)
    S.ready = True


@contextlib.contextmanager
def _linalg(target, exc, counter):
    """The target-th numpy.linalg call made while active raises."""
    saved = {}

    def wrap(name, f):
        def g(*a, **k):
            if not counter["on"]:
                return f(*a, **k)
            counter["n"] += 1
            if counter["n"] - 1 == target:
                counter["on"] = False
                counter["where"] = "linalg." + name
                raise exc
            return f(*a, **k)
        return g

    for name in LINALG:
        saved[name] = getattr(np.linalg, name)
        setattr(np.linalg, name, wrap(name, saved[name]))
    try:
        yield
    finally:
        for name, f in saved.items():
            setattr(np.linalg, name, f)


def run(action, family, target):
    """Run action() with the target-th opportunity of the family failing (-1: none).

    Returns (opportunities met, where the fault fired or None, exception that came out or None)."""
    out = None
    if family in ("interrupt", "alloc"):
        setup()
        S.family, S.count, S.target, S.where = family, 0, target, None
        S.on = True
        try:
            action()
        except (Injected, InjectedMemory) as e:
            out = e
        finally:
            S.on = False
        return S.count, S.where, out
    exc = InjectedLinAlg("injected") if family == "linalg" else InjectedMemory("injected")
    counter = {"n": 0, "on": True, "where": None}
    with _linalg(target, exc, counter):
        try:
            action()
        except (np.linalg.LinAlgError, MemoryError) as e:
            if counter["where"] is None:
                raise
            out = e  # the injected error, or what the fallback ran into after it
    return counter["n"], counter["where"], out


FAMILIES = ["interrupt", "alloc", "linalg", "linalg-mem"]


def snapshot(obj):
    """A harness-level copy of an instance (independent of its own copy protocol)."""
    return copy.deepcopy(obj.__dict__)


def revive(cls, snap):
    new = cls.__new__(cls)
    new.__dict__.update(copy.deepcopy(snap))
    return new


def put_back(obj, snap):
    obj.__dict__.clear()
    obj.__dict__.update(copy.deepcopy(snap))


def strike(obj, action, family, frac):
    """Fail action(obj) at the fraction `frac` of its opportunities.

    Returns (where or None, exception or None). The number of opportunities is counted on a copy."""
    clone = revive(type(obj), snapshot(obj))
    n, _, _ = run(lambda: action(clone), family, -1)
    if n == 0:
        return None, None
    target = min(n - 1, int(frac * n))
    _, where, exc = run(lambda: action(obj), family, target)
    return where, exc
