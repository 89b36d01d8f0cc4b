"""C10: gross outliers have bounded influence on the robust estimators."""
import copy

import numpy as np

from sim import gen
from sim.core import Check, Violation
from sim.deploy import Deployment, gen_history
from sim.gen import Feed, build
from sim.onestep import OneStep
from checks.c19 import onestep_program


def tyler_walk(rows, t0, C, r, nb):
    """The documented recursion from the shape C held after t0 rows (forgotten at rate 1-r)."""
    p = len(rows[0])
    m, n = np.zeros(p), 0
    for x in rows:
        n += 1
        lr = 1.0 / n if n <= nb else r
        d = x - m
        m = m + lr * d
        if n <= t0:
            continue
        q = max(float(d @ np.linalg.solve(C, d)), 1e-12)
        N = (1 - lr) * C + lr * p * np.outer(d, d) / q
        t = np.trace(N)
        C = p * N / t if t != 0 else C
    return C


def unit(C):
    s = 1 / np.sqrt(np.diag(C))
    return C * np.outer(s, s)


class C10(Check):
    ID = "C10"
    QUICK_RUNS = 8000
    THOROUGH_RUNS = 200000
    RULE = ("One run deploys Huber or Tyler on a disturbed feed with restarts and failures, compares each Huber update with "
            "the documented step from the state met, and at random instants hands a giant outlier, the same row pulled "
            "back to the cutoff, axis-aligned rows and rescaled rows to copies of the live estimator; non-trivial when a "
            "probe, crash or failure hits.")

    def generate(self, rng, tier):
        if rng.random() < 0.5:
            prog = onestep_program(rng, ["HuberCovariance"])
        else:
            data = gen.gen_data(rng, kinds=["gauss", "gauss", "factor", "ar", "heavy", "walk", "offset"])
            if data["p"] > 8:
                data["p"] = 5
            cfg = gen.tame(gen.gen_cfg(rng, ["TylerCovariance"], data["p"], diff=rng.random() < 0.25))
            r = cfg["params"]["r"] = rng.choice([1.0, 0.5, 0.35, 0.25, 0.2, 0.1, 0.05, round(rng.uniform(0.02, 0.6), 3)])
            long = rng.random() < 0.5
            if long:
                r = cfg["params"]["r"] = rng.choice([0.5, 0.35, 0.25, 0.2, round(rng.uniform(0.18, 0.55), 3)])
            b = gen.burn_n(r)
            n = b + int(35 / r) + 5 if long else rng.choice([rng.randint(2, b + 20), b + rng.randint(1, 40)])
            n = min(n, 220)
            data["T"] = n + 8
            if rng.random() < (0.15 if long else 0.5):
                data["bad"] = gen.gen_sensor_faults(rng, data["p"], data["T"])
            idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
            for f in data.get("bad", []):
                counts["sensor:" + f[0]] = counts.get("sensor:" + f[0], 0) + 1
            prog = {"cfg": cfg, "data": data, "feed": counts, "ops": gen_history(rng, idx, {1, 2, b - 1, b, b + 1})}
        ops = []
        for op in prog["ops"]:
            ops.append(op)
            if rng.random() < 0.35:
                ops.append(["probe", rng.randrange(10**6)])
        prog["ops"] = ops
        return prog

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        res.faults.update(program.get("feed", {}))
        huber = cfg["name"] == "HuberCovariance"
        if huber:
            one = OneStep(cfg, feed, res)
            dep = one.dep
        else:
            shots, met = [], [None]

            def before(part):
                met[0] = dep.sut.location_ if dep.sut.n_samples_ else None

            def after(part):
                self.shape(cfg, dep, feed, part, met[0])
                shots[:] = [s for s in shots if s[0] < dep.sut.n_samples_]
                if dep.sut.n_samples_:
                    shots.append((dep.sut.n_samples_, dep.sut.covariance_))

            dep = Deployment(lambda: build(cfg), feed, res, before=before, after=after)
        for op in program["ops"]:
            if op[0] == "probe":
                (self.probe_huber if huber else self.probe_tyler)(cfg, dep, feed, op[1], res)
                continue
            if op[0] == "refit":
                if huber:
                    one.trace = []
                else:
                    shots.clear()
            dep.step(op)
        if not huber:
            self.converged(cfg, dep, feed, shots, res)

    # ------------------------------------------------------------- Huber
    @staticmethod
    def push(est, cfg, dep, feed, x):
        """Deliver one (differenced) observation to a copy of the live estimator."""
        e = copy.deepcopy(est)
        if gen.is_diff(cfg):
            x = feed.row(dep.log[-1]) + x
        e.partial_fit(x)
        return e

    def probe_huber(self, cfg, dep, feed, seed, res):
        r = float(cfg["params"].get("r", 0.05))
        sut, p = dep.sut, feed.p
        if sut.n_samples_ < gen.burn_n(r):
            return
        m, S = sut.location_, sut.covariance_
        w = np.linalg.eigvalsh(S)
        if not w[0] > 0 or w[-1] / w[0] > 1e7:
            return
        g = np.random.default_rng(seed)
        u = np.linalg.cholesky(S) @ g.standard_normal(p)
        u = u / np.sqrt(u @ np.linalg.solve(S, u))
        cut = float(cfg["params"].get("c", 2.5)) * np.sqrt(p)
        far = cut * 10.0 ** g.uniform(0.05, 7)
        mag = np.abs(m).max() + (np.abs(feed.row(dep.log[-1])).max() if gen.is_diff(cfg) else 0.0)
        rel = 1e-13 * mag / (cut * np.abs(u).max())
        at, out = self.push(sut, cfg, dep, feed, m + cut * (1 + 1e-12) * u), self.push(sut, cfg, dep, feed, m + far * u)
        res.faults["outlier"] += 1
        res.evals += 1
        res.nontrivial = True
        res.log("probe", seed)
        tol = 1e-8 + 1e-13 * w[-1] / w[0] + 100 * rel
        if tol > 1e-3:
            return
        step = cut * np.abs(u).max()
        if not np.abs(at.location_ - out.location_).max() <= tol * step + 1e-11 * (mag + far * np.abs(u).max() * 1e-4):
            raise Violation("outlier-mean", f"an outlier at {far / cut:.3g} cutoffs moves the mean to {out.location_}, one at the "
                            f"cutoff to {at.location_}, {cfg}")
        a, b = at.covariance_, out.covariance_
        if not np.abs(a - b).max() <= tol * max(np.abs(a).max(), step ** 2):
            raise Violation("outlier-covariance", f"an outlier at {far / cut:.3g} cutoffs gives {b.tolist()}, one at the cutoff "
                            f"{a.tolist()}, {cfg}")
        # just inside: weighted in full
        near = cut * g.uniform(0.5, 0.999)
        e = self.push(sut, cfg, dep, feed, m + near * u)
        want = (1 - r) * S + r * near ** 2 * np.outer(u, u)
        if not np.abs(e.covariance_ - want).max() <= tol * np.abs(want).max() * 10:
            raise Violation("inlier", f"a row at {near / cut:.3g} cutoffs is not weighted in full: {e.covariance_.tolist()} "
                            f"instead of {want.tolist()}, {cfg}")

    # ------------------------------------------------------------- Tyler
    @staticmethod
    def shape(cfg, dep, feed, part, met):
        d = np.diag(dep.sut.covariance_) if dep.sut.n_samples_ else np.ones(1)
        dead = np.abs(d) <= 1e-12
        if not (dead | (np.abs(d - 1) <= 1e-9)).all():
            raise Violation("unit-diagonal", f"{d}, {cfg}")
        if dead.any() and len(part) == 1 and met is not None:
            dev = feed.row(part[0]) - (feed.row(dep.log[-2]) if gen.is_diff(cfg) else 0.0) - met
            if (np.abs(dev[dead]) > 1e-3 * np.abs(dev).max()).any():
                raise Violation("dead-diagonal", f"{d} right after a deviation of {dev}, {cfg}")

    def probe_tyler(self, cfg, dep, feed, seed, res):
        sut, p = dep.sut, feed.p
        n = sut.n_samples_
        if n < 1:
            return
        r = float(cfg["params"].get("r", 0.05))
        m, R = sut.location_, sut.covariance_
        g = np.random.default_rng(seed)
        w = np.linalg.eigvalsh(R)
        if not w[0] > 0 or w[-1] / w[0] > 1e6:
            return
        mag = np.abs(m).max() + (np.abs(feed.row(dep.log[-1])).max() if gen.is_diff(cfg) else 0.0)
        X = feed.rows(dep.log[-30:])
        size = max(np.abs(X).max(), mag, 1.0)  # well above the floor of the distance
        u = (g.standard_normal(p) + 0.2) * (X.std(axis=0) / max(X.std(axis=0).max(), 1e-300) + 0.05) * size
        k = 2.0 ** int(g.integers(1, 25))
        res.faults["outlier"] += 1
        res.nontrivial = True
        res.evals += 1
        res.log("probe", seed)
        a = self.push(sut, cfg, dep, feed, m + u).covariance_
        b = self.push(sut, cfg, dep, feed, m + k * u).covariance_
        tol = 1e-7 + 1e-11 * w[-1] / w[0] + 1e-12 * mag / np.abs(u).min() * w[-1] / w[0]
        if tol < 1e-3 and not np.abs(a - b).max() <= tol:
            raise Violation("size-matters", f"a row {k:g} times further out gives {b.tolist()} instead of {a.tolist()}, {cfg}, "
                            f"n={n}")
        # one coordinate only: the entries of that coordinate shrink by a known factor
        i = int(g.integers(p))
        e = np.zeros(p)
        e[i] = size * 2.0 ** int(g.integers(0, 8))
        lr = 1 / (n + 1) if n + 1 <= gen.burn_n(r) else r
        if lr >= 1 or p == 1:
            return
        moves = (np.diff(X, axis=0) if gen.is_diff(cfg) and len(X) > 2 else X).std(axis=0)
        if n > 2 and moves.min() < 1e-7 * mag:
            return  # a series so still that rounding of its mean is all there is to see
        got = self.push(sut, cfg, dep, feed, m + e).covariance_
        t = np.sqrt((1 - lr) / ((1 - lr) + lr * p / np.linalg.inv(R)[i, i]))
        want = R.copy()
        want[i, :] *= t
        want[:, i] *= t
        want[i, i] = 1.0
        # the other coordinates of the delivered row may differ from the mean by rounding
        tol = 1e-7 + 1e-10 * w[-1] / w[0] + 1e-12 * (mag / e[i]) * w[-1] / w[0] * 1e3
        if tol < 1e-3 and not np.abs(got - want).max() <= tol:
            raise Violation("recursion", f"a row along coordinate {i} gives {got.tolist()} instead of {want.tolist()} "
                            f"(step {lr:.4g}), {cfg}, n={n}")

    def converged(self, cfg, dep, feed, shots, res):
        """From an observed correlation with several guesses at its scales: once the guesses do not
        matter any more, the estimator has to agree with them."""
        X = feed.rows(dep.log)
        if gen.is_diff(cfg):
            X = np.diff(X, axis=0)
        r = float(cfg["params"].get("r", 0.05))
        nb = gen.burn_n(r)
        usable = []
        for t0, R in shots:
            if t0 < 1 or len(X) - max(t0, nb) < 8 or (1 - r) ** (len(X) - max(t0, nb)) > 1e-6:
                continue
            w = np.linalg.eigvalsh(R)
            if (np.diag(R) > 0.5).all() and w[0] > 1e-5:
                usable.append((t0, R))
        if not usable:
            return
        t0, R = usable[0]  # the longest time to forget
        p = feed.p
        g = np.random.default_rng(7)
        sd = X[max(0, t0 - 20):t0].std(axis=0)
        sd = sd / sd.max() + 1e-3 if sd.max() > 0 else np.ones(p)
        refs = []
        try:
            for k in range(7):
                D = np.ones(p) if k == 1 else 10.0 ** g.uniform(-6, 6, p) if k in (2, 3, 4) else sd
                C = R * np.outer(D, D)
                rows = X if k < 5 else X * (1 + 1e-14 * g.standard_normal(X.shape))
                refs.append(unit(tyler_walk(rows, t0, C * p / np.trace(C), r, nb)))
        except np.linalg.LinAlgError:
            return
        spread = max(np.abs(a - refs[0]).max() for a in refs[1:])
        if not spread < 1e-5:
            res.probes["reference not converged: not compared"] += 1
            return
        res.probes["free-running recursion compared"] += 1
        res.evals += 1
        if not np.abs(dep.sut.covariance_ - refs[0]).max() <= 1e-6 + 30 * spread:
            raise Violation("recursion", f"{dep.sut.covariance_.tolist()} instead of {refs[0].tolist()} after {len(X)} rows "
                            f"(references agree to {spread:.2g}), {cfg}")


CHECK = C10()
