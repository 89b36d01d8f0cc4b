"""C08: each acknowledged row counts once, with its documented weight."""
import numpy as np

from sim import gen
from sim.core import Check, Violation
from sim.deploy import Deployment, gen_history
from sim.gen import Feed, build
from sim.ref import Follower
from checks.c01 import length_for

FULL = ["EmpiricalCovariance", "EwaCovariance", "BlockCovariance", "DiagonalCovariance"]
MEANS = [n for n in gen.REGISTERED if n not in ("HuberCovariance", "AdaptiveEwaCovariance") + tuple(FULL)]


class C08(Check):
    ID = "C08"
    QUICK_RUNS = 24000
    THOROUGH_RUNS = 300000
    RULE = ("One run deploys one estimator on a disturbed feed with checkpoints, crashes, failing updates, garbage and "
            "refits, and compares location_ and covariance_ after every event with the weighted moments of the "
            "acknowledged rows; non-trivial when a crash or failure hits.")

    def generate(self, rng, tier):
        data = gen.gen_data(rng)
        cfg = gen.gen_cfg(rng, FULL if rng.random() < 0.65 else MEANS, data["p"], diff=rng.random() < 0.35)
        n = max(1, length_for(rng, cfg, 0.015))
        data["T"] = n + 8
        idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
        b = gen.burn_n(gen.cfg_r(cfg))
        return {"cfg": cfg, "data": data, "feed": counts, "every_row": rng.random() < 0.3 and n < 300,
                "ops": gen_history(rng, idx, {1, 2, b - 1, b, b + 1})}

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        res.faults.update(program.get("feed", {}))
        ref = Follower(cfg, feed.row)
        full = cfg["name"] in FULL
        floor = 1.2e-8 if cfg["name"] == "BlockCovariance" else 0.0

        def check(what):
            log = dep.log
            m = ref.at(log)
            n = 0 if m is None else m.n
            sut = dep.sut
            res.evals += 1
            if sut.n_samples_ != n:
                raise Violation("count", f"n_samples_ is {sut.n_samples_}, {n} expected {what}, {cfg}")
            if m is None:
                return
            X = feed.rows(log)
            if cfg["params"].get("diff"):
                X = np.diff(X, axis=0)
            mag = np.abs(X).max(axis=0)
            dev = np.abs(X - X.mean(axis=0)).max(axis=0)
            a, b = sut.location_, m.location()
            if a.shape != b.shape:
                raise Violation("location", f"shape {a.shape}, {cfg}")
            tol = 1e-9 * dev + 1e-12 * mag + 1e-300
            if not (np.abs(a - b) <= tol).all():
                raise Violation("location", f"{a} instead of {b} {what} ({n} samples), {cfg}")
            if not full:
                return
            if cfg["name"] == "DiagonalCovariance":
                dev = dev + mag  # the first deviation is about zero
            a, b = sut.covariance_, m.covariance()
            tol = (1e-9 * np.outer(dev, dev) + 1e-12 * (np.outer(mag, dev) + np.outer(dev, mag))
                   + 1e-26 * np.outer(mag, mag) + floor)
            if a.shape != b.shape or not (np.abs(a - b) <= tol).all():
                raise Violation("covariance", f"{a.tolist()} instead of {b.tolist()} {what} ({n} samples), {cfg}")

        dep = Deployment(lambda: build(cfg), feed, res,
                         after=(lambda part: check("after a row")) if program["every_row"] else None,
                         restarted=lambda log: check("right after a restart"))
        for op in program["ops"]:
            dep.step(op)
            check(f"after {op[0]}")


CHECK = C08()
