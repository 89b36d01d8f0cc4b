"""C09: shrinkage and coupling estimators apply their documented damping to the stream."""
import numpy as np

from sim import gen
from sim.core import Check, Violation
from sim.deploy import Deployment, gen_history
from sim.gen import Feed, build
from sim.ref import Follower
from checks.c01 import length_for

NAMES = ["LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance", "SchurLedoitWolfCovariance",
         "SchurConditionalCovariance"]
TOL = 1e-8


class C09(Check):
    ID = "C09"
    QUICK_RUNS = 20000
    THOROUGH_RUNS = 250000
    RULE = ("One run deploys one shrinkage or coupling estimator on a disturbed feed with checkpoints, crashes, failing "
            "updates, garbage and refits, and compares covariance_ (and gamma_) after every event with a second "
            "implementation of the documented transform of the acknowledged rows; non-trivial when a crash or failure hits.")
    NAMES = NAMES
    HOT_K = False

    def generate(self, rng, tier):
        data = gen.gen_data(rng)
        cfg = gen.gen_cfg(rng, self.NAMES, data["p"], diff=rng.random() < 0.3)
        n = max(1, length_for(rng, cfg, 0.006))
        data["T"] = n + 8
        idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
        b = gen.burn_n(gen.cfg_r(cfg))
        hot = {1, 2, b - 1, b, b + 1} | ({3, 4, 5} if self.HOT_K else set())
        return {"cfg": cfg, "data": data, "feed": counts, "ops": gen_history(rng, idx, hot)}

    def compare(self, ref, log, m, attr, a, what, cfg, res):
        b = np.asarray(getattr(m, attr)())
        a = np.asarray(a, dtype=float)
        res.evals += 1
        if a.shape != b.shape or not np.isfinite(a).all():
            raise Violation(attr, f"{a.tolist()} {what}, {cfg}")
        scale = max(np.abs(b).max(), 1e-300) if attr != "gamma" else 1.0
        err = np.abs(a - b) / scale
        tol = TOL + (m.rounding() if hasattr(m, "rounding") else 0.0)
        if (err <= tol).all():
            return
        if tol > 1e-4:
            res.probes["too ill-conditioned to compare"] += 1
            return
        spread = ref.spread(log, attr) / scale
        if (spread > 1e-3).any():
            res.probes["history amplifies rounding: not compared"] += 1
            return
        if (err <= tol + 100 * spread).all():
            res.probes["compared within the rounding of the history"] += 1
            return
        raise Violation(attr, f"{a.tolist()} instead of {b.tolist()} {what} ({m.n} samples, off by {err.max():.3g}, "
                        f"rounding moves it {spread.max():.3g}), {cfg}")

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        res.faults.update(program.get("feed", {}))
        ref = Follower(cfg, feed.row)

        def check(what):
            m = ref.at(dep.log)
            if m is None:
                return
            self.compare(ref, dep.log, m, "covariance", dep.sut.covariance_, what, cfg, res)
            g = getattr(dep.sut, "gamma_", None)
            if g is not None and not 0.0 <= g <= 1.0:
                raise Violation("gamma", f"{g} outside [0, 1] {what}, {cfg}")
            if hasattr(m, "gamma"):
                self.compare(ref, dep.log, m, "gamma", g, what, cfg, res)

        dep = Deployment(lambda: build(cfg), feed, res, restarted=lambda log: check("right after a restart"))
        for op in program["ops"]:
            dep.step(op)
            check(f"after {op[0]}")


CHECK = C09()
