"""Oracle for estimators whose update inverts their own estimate: every update is compared with the
documented step taken from the state observed just before it, so rounding never accumulates."""
from __future__ import annotations

import numpy as np

from sim.core import Violation
from sim.deploy import Deployment
from sim.gen import build
from sim.ref import Step


class OneStep:
    def __init__(self, cfg, feed, res, extra=None):
        self.cfg, self.feed, self.res, self.extra = cfg, feed, res, extra
        self.step = Step(cfg, feed.p)
        self.diff = bool(cfg["params"].get("diff"))
        self.trace = []   # hidden state of the model after each acknowledged row
        self.dep = Deployment(lambda: build(cfg), feed, res, before=self.before, after=self.after,
                              restarted=self.restarted)
        self.pre = None

    def hidden(self):
        return self.trace[-1] if self.trace else self.step.fresh()

    def before(self, part):
        s = dict(self.hidden())
        sut = self.dep.sut
        n = sut.n_samples_
        if n != s["n"]:
            raise Violation("count", f"{n} samples, {s['n']} expected, {self.cfg}")
        if n:
            s["m"], s["C"] = sut.location_, sut.covariance_
        s["ok"], s["spread"], s["ens"], s["bigm"], s["bigC"] = True, 0.0, None, 0.0, 0.0
        self.pre = s

    def fold(self, s, idx, prev):
        for i in idx:
            x = self.feed.row(i)
            if self.diff:
                x, prev = (None if prev is None else x - prev), x
            if x is not None:
                s = self.step(s, x)
                if not np.isfinite(s["C"]).all():
                    s = dict(s, ok=False)
            self.trace.append(s)
        return s

    def after(self, part):
        log = self.dep.log
        done = log[:len(log) - len(part)]
        self.trace = self.trace[:len(done)]
        prev = self.feed.row(done[-1]) if done else None
        s = self.fold(self.pre, part, prev)
        self.compare(s, part)

    def restarted(self, log):
        self.trace = self.trace[:len(log)]
        if len(self.trace) < len(log):  # a refit: there is no observed state to start from
            self.trace = []
            self.compare(self.fold(self.step.fresh(), log, None), log)

    def compare(self, s, part):
        sut, cfg, res = self.dep.sut, self.cfg, self.res
        n = sut.n_samples_
        if n != s["n"]:
            raise Violation("count", f"{n} samples, {s['n']} expected, {cfg}")
        if n == 0:
            return
        if not s["ok"]:
            res.probes["rounding decides: not compared"] += 1
            return
        res.evals += 1
        if n > self.step.nb:
            res.probes["update after burn-in compared"] += 1
        m, C = sut.location_, sut.covariance_
        ref = max(np.abs(C).max(), np.abs(s["C"]).max(), 1e-300)
        mag = np.abs(s["m"]).max() + np.sqrt(ref)
        tol = 1e-7 + 50 * s["spread"]
        big = 1e-14 * s.get("bigm", 0.0)  # what rounding of the previous state leaves behind
        noise = 1e-11 * mag * np.sqrt(ref) + 1e-24 * mag * mag + 1e-14 * s.get("bigC", 0.0) + 4 * big * (np.sqrt(ref) + big)
        if not np.abs(m - s["m"]).max() <= tol * np.sqrt(ref) + 1e-11 * mag + big:
            raise Violation("location", f"{m.tolist()} instead of {s['m'].tolist()} at sample {n}, {cfg}")
        if not np.abs(C - s["C"]).max() <= tol * ref + noise:
            raise Violation("covariance", f"{C.tolist()} instead of {s['C'].tolist()} at sample {n} "
                            f"(tolerance {tol * ref + noise:.3g}), {cfg}")
        if self.extra:
            self.extra(self, s, part)

    def run(self, ops):
        for op in ops:
            if op[0] == "refit":
                self.trace = []
            self.dep.step(op)
