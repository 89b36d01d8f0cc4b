"""A simulated deployment of one estimator: a source that resends, a disturbed feed, a consumer
that checkpoints, crashes, restarts, has updates fail under it and receives garbage.

The consumer only uses the public surface. Whether a delivery that raised was absorbed it finds out
the way an operator would, by comparing checkpoints; rows not absorbed are sent again. The rows
acknowledged so far are the ground truth the oracles work from.
"""
from __future__ import annotations

import copy
import json
import pickle

import numpy as np

from sim import faults, gen

FAMILIES = ["interrupt", "alloc", "linalg-mem"]


def gen_history(rng, idx, hot=(), fail=True, restart=("json", "pickle", "deepcopy"), bad=True, refit=True):
    """Operations delivering the arrivals idx with faults in between."""
    ops, i, n = [], 0, len(idx)
    do_fail = fail and rng.random() < 0.6
    do_crash = bool(restart) and rng.random() < 0.6
    do_bad = bad and rng.random() < 0.4
    while i < n:
        step = rng.choice([1, 1, 2, 3, rng.randint(1, 12), rng.randint(1, max(1, n // 3))])
        for h in sorted(hot):
            if i < h < i + step:
                step = h - i
                break
        ops.append([rng.choice(["rows", "rows", "batch"]), idx[i:i + step]])
        i += step
        near = any(abs(i - h) <= 1 for h in hot)
        if do_fail and i < n and rng.random() < (0.5 if near else 0.25):
            ops.append(["fail", [idx[i]], rng.choice(FAMILIES), round(rng.random(), 4)])
            i += 1
        if do_crash and rng.random() < 0.25:
            ops.append(["ckpt"])
        if do_crash and rng.random() < (0.35 if near else 0.15):
            ops.append(["crash", rng.choice([0, 0, 1]), rng.choice(list(restart))])
        if do_bad and rng.random() < 0.2:
            ops.append(["bad", rng.choice(["width", "text", "cube"])])
        if refit and rng.random() < 0.02:
            ops.append(["refit", idx[max(0, i - rng.randint(2, 12)):i]])
    return ops


class Deployment:
    def __init__(self, make, feed, res, before=None, after=None, restarted=None):
        self.make, self.feed, self.res = make, feed, res
        self.sut = make()
        self.log = []
        self.ckpts = []
        self.before, self.after, self.restarted = before, after, restarted

    def deliver(self, idx, how="rows"):
        if not idx:
            return
        if how == "batch":
            parts = [idx]
        else:
            parts = [[i] for i in idx]
        for part in parts:
            if self.before:
                self.before(part)
            X = self.feed.rows(part)
            self.sut.partial_fit(X if how == "batch" else X[0])
            self.log = self.log + part
            self.res.ticks += len(part)
            if self.after:
                self.after(part)

    def checkpoint(self):
        try:
            return json.dumps(self.sut.get_state())
        except NotImplementedError:
            return None

    def step(self, op):
        res, kind = self.res, op[0]
        if kind in ("rows", "batch"):
            self.deliver(op[1], kind)
            res.log(kind, len(op[1]))
        elif kind == "fail":
            if not op[1]:
                return
            _, idx, family, frac = op
            was = self.checkpoint()
            if self.before:
                self.before(idx)
            x = self.feed.row(idx[0])
            snap = faults.snapshot(self.sut)
            where, exc = faults.strike(self.sut, lambda e: e.partial_fit(x), family, frac)
            if exc is None:
                if where is not None:  # swallowed: the row met a fallback, start it over undisturbed
                    faults.put_back(self.sut, snap)
                    self.sut.partial_fit(x)
                elif not self._absorbed(was):
                    self.sut.partial_fit(x)
            else:
                res.faults[family] += 1
                res.nontrivial = True
                if not self._absorbed(was):
                    self.sut.partial_fit(x)  # sent again
                else:
                    res.probes["failed after absorbing"] += 1
            self.log = self.log + idx
            res.ticks += 1
            res.log("fail", family, where)
            if self.after:
                self.after(idx)
        elif kind == "ckpt":
            self.ckpts.append((self.checkpoint(), pickle.dumps(self.sut), len(self.log)))
            res.log("ckpt")
        elif kind == "crash":
            _, lag, how = op
            if how == "deepcopy":
                self.sut = copy.deepcopy(self.sut)
                lost = []
            else:
                if self.ckpts:
                    text, blob, pos = self.ckpts[max(0, len(self.ckpts) - 1 - lag)]
                    if how == "json":
                        self.sut = self.make()
                        self.sut.set_state(json.loads(text))
                    else:
                        self.sut = pickle.loads(blob)
                else:
                    self.sut, pos = self.make(), 0
                lost, self.log = self.log[pos:], self.log[:pos]
                self.ckpts = [c for c in self.ckpts if c[2] <= pos]
            res.faults["crash:" + how] += 1
            res.faults["rows resent"] += len(lost)
            res.nontrivial = True
            res.log("crash", how, len(lost))
            if self.restarted:
                self.restarted(list(self.log))
            self.deliver(lost)
        elif kind == "bad":
            bad = {"width": np.ones(self.feed.p + 1), "text": ["x"] * self.feed.p,
                   "cube": np.ones((2, 2, self.feed.p))}[op[1]]
            if op[1] == "width" and not self.log:
                return
            try:
                self.sut.partial_fit(bad)
            except (ValueError, TypeError):
                res.faults["malformed delivery"] += 1
            res.log("bad", op[1])
        elif kind == "refit":
            if not op[1]:
                return
            self.sut.fit(self.feed.rows(op[1]))
            self.log = list(op[1])
            self.ckpts = []
            res.ticks += len(op[1])
            res.log("refit", len(op[1]))
            if self.restarted:
                self.restarted(list(self.log))

    def _absorbed(self, was):
        now = self.checkpoint()
        return now != was
