"""C07: outputs are valid matrices at every instant of a faulty feed."""
import contextlib

import numpy as np

from sim import gen
from sim.core import Check, Violation
from sim.deploy import Deployment, gen_history
from sim.gen import Feed, build
from sim.obs import read
from checks.c01 import length_for


@contextlib.contextmanager
def broken(names, res):
    """The first call of each of these numpy.linalg routines fails to converge."""
    saved = {n: getattr(np.linalg, n) for n in names}
    left = set(names)

    def wrap(name, f):
        def g(*a, **k):
            if name in left:
                left.discard(name)
                res.faults["linalg:" + name] += 1
                raise np.linalg.LinAlgError("injected")
            return f(*a, **k)
        return g

    for n, f in saved.items():
        setattr(np.linalg, n, wrap(n, f))
    try:
        yield left
    finally:
        for n, f in saved.items():
            setattr(np.linalg, n, f)


class C07(Check):
    ID = "C07"
    QUICK_RUNS = 8000
    THOROUGH_RUNS = 250000
    RULE = ("One run feeds one estimator or composition, row by row, from a source with sensor faults (spikes, stuck, dead, "
            "collinear and duplicated series, level shifts, scale jumps), loss, duplication, reordering, restarts, "
            "failing updates and failing inversions, and checks every output after every event; non-trivial when a "
            "sensor fault, crash or failing inversion hits.")

    def generate(self, rng, tier):
        data = gen.gen_data(rng)
        conditional = rng.random() < 0.15
        cfg = gen.tame(gen.gen_conditional(rng, data["p"]) if conditional else gen.gen_cfg(rng, None, data["p"]))
        n = max(1, min(length_for(rng, cfg), 70)) if rng.random() < 0.93 else rng.randint(100, 400)
        data["T"] = n + 8
        if rng.random() < 0.75:
            data["bad"] = gen.gen_sensor_faults(rng, data["p"], data["T"])
        idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
        for f in data.get("bad", []):
            counts["sensor:" + f[0]] = counts.get("sensor:" + f[0], 0) + 1
        b = gen.burn_n(gen.cfg_r(cfg))
        ops = gen_history(rng, idx, {1, 2, b, b + 1}, fail=not conditional,
                          restart=("pickle", "deepcopy") if conditional else ("json", "pickle", "deepcopy"))
        return {"cfg": cfg, "data": data, "feed": counts, "ops": ops, "broken": rng.choice([0, 0, 1, 2])}

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        res.faults.update(program.get("feed", {}))
        res.nontrivial = bool(program["data"].get("bad"))
        diff = gen.is_diff(cfg)
        composed = cfg["name"] == "ConditionalCovariance"

        def values():
            X = feed.rows(dep.log)
            return np.diff(X, axis=0) if diff and not composed else X

        def check(part=None):
            sut, X = dep.sut, values()
            n = len(X)
            if read(sut, "n_samples_") != n:
                raise Violation("count", f"n_samples_ is {sut.n_samples_} after {n} samples, {cfg}")
            if n == 0:
                return
            if composed:
                c = cfg.get("corr")
                if c and gen.is_diff(c) and n < 2:
                    return
            res.evals += 1
            p = feed.p
            mag = np.abs(X).max(axis=0)
            m = sut.location_
            if m.shape != (p,) or not np.isfinite(m).all():
                raise Violation("location", f"{m}, {cfg}")
            if not composed:
                slack = 1e-11 * mag + 1e-300
                if not ((m >= X.min(axis=0) - slack) & (m <= X.max(axis=0) + slack)).all():
                    raise Violation("location-range", f"{m} outside {X.min(axis=0)} .. {X.max(axis=0)}, {cfg}")
            C = sut.covariance_
            if C.shape != (p, p) or not np.isfinite(C).all():
                raise Violation("covariance-finite", f"{C} after {n} samples, {cfg}")
            big = np.abs(C).max()
            if np.abs(C - C.T).max() > 1e-12 * big:
                raise Violation("covariance-symmetric", f"{C}, {cfg}")
            w = np.linalg.eigvalsh((C + C.T) / 2)
            dust = 1e-15 * float(mag.max()) ** 2  # rounding of the values themselves
            if cfg["name"] in ("DCCCovariance", "ConditionalCovariance"):
                dust += 1e-18  # they start from unit variances and floor them at 1e-12
            if w[0] < -1e-9 * w[-1] - dust:
                raise Violation("covariance-psd", f"eigenvalues {w} after {n} samples, {cfg}")
            R = sut.correlation_
            if R.shape != (p, p) or not np.isfinite(R).all():
                raise Violation("correlation-finite", f"{R}, {cfg}")
            var = np.diag(C)
            pos = var > 1e-290  # a product of two such numbers must not underflow further
            if np.abs(np.diag(R)[pos] - 1).max(initial=0) > 1e-9:
                raise Violation("correlation-diagonal", f"{np.diag(R)} for variances {var}, {cfg}")
            live = var > 1e-12 * float(mag.max()) ** 2 + 1e-12 * big
            if np.abs(R[np.ix_(live, live)]).max(initial=0) > 1 + 1e-6:
                raise Violation("correlation-range", f"{R} for variances {var}, {cfg}")
            if big < 1e-290 and big > 0:
                return  # nothing but underflow to invert
            P = sut.precision_
            self.precision(P, C, w, "", cfg)
            if program["broken"] and part is not None:
                with broken(["inv", "pinv"][:program["broken"]], res) as left:
                    try:
                        P = sut.precision_
                    except np.linalg.LinAlgError:
                        hopeless = program["broken"] == 2 and not np.diag(C).any()  # nothing to fall back on
                        if not hopeless:
                            raise Violation("no-fallback", f"precision_ gives up when inversion fails, {cfg}") from None
                        return
                if len(left) < program["broken"]:
                    res.nontrivial = True
                if "pinv" not in left and program["broken"] == 2:
                    if not np.isfinite(P).all():
                        raise Violation("fallback-finite", f"{P}, {cfg}")
                else:
                    self.precision(P, C, w, " after a failed inversion", cfg)

        dep = Deployment(lambda: build(cfg), feed, res, after=check)
        for op in program["ops"]:
            dep.step(op)
            if op[0] in ("crash", "refit", "bad"):
                check()

    @staticmethod
    def precision(P, C, w, what, cfg):
        if P.shape != C.shape or not np.isfinite(P).all():
            raise Violation("precision-finite", f"{P}{what} of {C}, {cfg}")
        if w[0] > 0 and w[-1] / w[0] < 1e8:
            eye = np.eye(len(C))
            err = min(np.abs(P @ C - eye).max(), np.abs(C @ P - eye).max())
            if err > 1e-9 + 1e-13 * len(C) * w[-1] / w[0]:
                raise Violation("precision-inverse", f"precision times covariance is off by {err:.3g}{what} (condition {w[-1] / w[0]:.3g}), {C.tolist()} {cfg}")


CHECK = C07()
