"""C12: composed covariances are vol x correlation of one-step-ahead residuals."""
import numpy as np

from sim import gen
from sim.core import Violation
from sim.deploy import Deployment, gen_history
from sim.gen import Feed, build
from sim.obs import dist, rounding_spread
from checks import c09
from checks.c01 import length_for


class Alone:
    """The composition written out: every sub-model is a stand-alone instance."""

    def __init__(self, cfg, p):
        vol = cfg.get("vol") or {"name": "EwaCovariance", "params": {}}
        corr = cfg.get("corr") or {"name": "EwaCovariance", "params": {}}
        self.sk = gen.skater(vol["skater"]) if "skater" in vol else None
        self.v = [[None, 0.0, 1.0] if self.sk else build(vol) for _ in range(p)]
        self.R = build(corr)
        self.p, self.n = p, 0

    def forecast(self, i):
        v = self.v[i]
        if self.sk:
            return v[1], v[2]
        if v.n_samples_ == 0:
            return 0.0, 1.0
        return float(v.location_[0]), float(v.covariance_[0, 0])

    def push(self, x, noise=None):
        f = [self.forecast(i) for i in range(self.p)]
        eps = (x - np.array([m for m, _ in f])) / np.sqrt(np.array([max(v, 1e-12) for _, v in f]))
        if noise is not None:  # the last bits of a residual are nobody's promise
            eps = eps * (1 + noise(eps.shape))
        self.R.partial_fit(eps)
        for i in range(self.p):
            if self.sk:
                dists, state = self.sk(float(x[i]), self.v[i][0])
                self.v[i] = [state, dists[0].mean, dists[0].std ** 2]
            else:
                self.v[i].partial_fit([float(x[i])])
        self.n += 1

    def location(self):
        return np.array([self.forecast(i)[0] for i in range(self.p)])

    def covariance(self):
        if self.R.n_samples_ == 0:
            return None
        sd = np.sqrt([max(self.forecast(i)[1], 1e-12) for i in range(self.p)])
        return self.R.correlation_ * np.outer(sd, sd)


def trembling(cfg, feed, log, attr, want, enough, k=12):
    """How far rounding-level noise in the residuals moves the composition written out."""
    worst = 0.0
    for j in range(k):
        g = np.random.default_rng(3000 + j)
        size = [1e-16, 3e-16, 1e-15, 1e-14][j % 4]
        a = Alone(cfg, feed.p)
        for i in log:
            a.push(feed.row(i), lambda shape: size * g.standard_normal(shape))
        got = a.location() if attr == "location_" else a.covariance()
        worst = max(worst, dist(got, want))
        if worst >= enough:
            break
    return worst


class C12(c09.C09):
    ID = "C12"
    QUICK_RUNS = 10500
    THOROUGH_RUNS = 120000
    RULE = ("One run deploys DCC or a random composition (positional estimator or skater as volatility, any estimator "
            "as correlation) on a disturbed feed with restarts, failures (DCC) and garbage, and compares with DCC's "
            "recursion or with stand-alone sub-models advanced by hand; non-trivial when a restart or failure hits.")
    NAMES = ["DCCCovariance"]
    STUB = "skaters: three small deterministic univariate models (functional, in-place and dict state)"

    def generate(self, rng, tier):
        if rng.random() < 0.4:
            return super().generate(rng, tier)
        data = gen.gen_data(rng)
        cfg = gen.gen_conditional(rng, data["p"])
        n = max(1, min(length_for(rng, cfg), 60)) if rng.random() < 0.992 else rng.randint(257, 700)
        data["T"] = n + 8
        idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
        b = gen.burn_n(gen.cfg_r(cfg))
        return {"cfg": cfg, "data": data, "feed": counts,
                "ops": gen_history(rng, idx, {1, 2, b, b + 1}, fail=False, restart=("pickle", "deepcopy"))}

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        if cfg["name"] == "DCCCovariance":
            return super().execute(program, res)
        res.faults.update(program.get("feed", {}))
        make = lambda: build(cfg)
        alone = [Alone(cfg, feed.p), []]
        excused = {}

        def check(what):
            log, sut = dep.log, dep.sut
            a, seen = alone
            if seen != log[:len(seen)]:
                a, seen = Alone(cfg, feed.p), []
            for i in log[len(seen):]:
                a.push(feed.row(i))
            alone[:] = [a, list(log)]
            if not log:
                return
            res.evals += 1
            if sut.n_samples_ != len(log):
                raise Violation("count", f"{sut.n_samples_} instead of {len(log)} {what}, {cfg}")
            for attr, want in (("location_", a.location()), ("covariance_", a.covariance())):
                if want is None:
                    continue
                if len(log) < 1.5 * excused.get(attr, 0):
                    continue
                d = dist(getattr(sut, attr), want)
                if d <= 1e-9:
                    continue
                rows = [feed.row(i) for i in log]
                if d < np.inf and (d <= 1e-9 + 100 * rounding_spread(make, rows, attr, enough=d / 100)
                                   or d <= 1e-9 + 100 * trembling(cfg, feed, log, attr, want, d / 100)):
                    res.probes["compared within the rounding of the history"] += 1
                    excused[attr] = len(log)  # look again when it has moved on
                    continue
                raise Violation(attr, f"{getattr(sut, attr).tolist()} instead of {want.tolist()} {what} "
                                f"(off by {d:.3g}), {cfg} after {len(log)} rows")

        dep = Deployment(make, feed, res)
        for op in program["ops"]:
            dep.step(op)
            check(f"after {op[0]}")


CHECK = C12()
