"""C25: the order, the units and the offsets of the series carry no information."""
import numpy as np

from sim import gen
from sim.core import Check, Violation
from sim.deploy import Deployment, gen_history
from sim.gen import Feed, build
from sim.obs import dist, feed_all, read
from checks.c01 import length_for

ORDER = ["EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance", "AdaptiveEwaCovariance", "LedoitWolfCovariance", "OASCovariance",
         "ShrunkCovariance", "PartialMomentsCovariance", "HuberCovariance", "TylerCovariance", "GeodesicEwaCovariance", "DCCCovariance",
         "FactorCovariance", "ConditionalCovariance"]
UNIT = ["EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance", "AdaptiveEwaCovariance", "LedoitWolfCovariance", "OASCovariance",
        "ShrunkCovariance", "PartialMomentsCovariance", "HuberCovariance", "SchurCovariance", "SchurConditionalCovariance",
        "SchurLedoitWolfCovariance", "BlockCovariance"]
UNITS = ["EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance", "AdaptiveEwaCovariance", "PartialMomentsCovariance",
         "ShrunkCovariance", "SchurCovariance", "SchurConditionalCovariance", "HuberCovariance", "BlockCovariance"]
OFFSET = ["EmpiricalCovariance", "EwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance",
          "SchurConditionalCovariance", "SchurLedoitWolfCovariance", "BlockCovariance"]
LISTS = {"order": ORDER, "unit": UNIT, "units": UNITS, "offset": OFFSET}
# estimators that put a floor of fixed size under something (1e-8 in eigenvalues, 1e-12 elsewhere)
FLOORED = {"BlockCovariance": 1e-7, "SchurCovariance": 1e-6, "SchurLedoitWolfCovariance": 1e-6}
# these weigh a row by a distance under the estimate itself: where that is singular, rounding decides
FRAGILE = ["AdaptiveEwaCovariance", "HuberCovariance", "TylerCovariance", "GeodesicEwaCovariance"]


class C25(Check):
    ID = "C25"
    QUICK_RUNS = 10000
    THOROUGH_RUNS = 250000
    RULE = ("One run deploys an estimator on a disturbed feed with restarts, refits, failing updates and garbage, and compares it at "
            "random instants with a twin that was given the acknowledged rows with the series in another order, in other "
            "units or with other offsets; non-trivial when a crash, refit or failure comes between.")
    ASSUMPTIONS = ["data of ordinary size: some estimators put absolute floors under variances or eigenvalues"]

    def generate(self, rng, tier):
        how = rng.choice(["order", "order", "unit", "units", "offset"])
        data = gen.gen_data(rng, p=rng.choice([2, 2, 3, 3, 4, 5, 6, 8] if how == "order" else [1, 2, 3, 4, 5]))
        p = data["p"]
        name = rng.choice(LISTS[how])
        if name == "ConditionalCovariance":
            cfg = gen.gen_conditional(rng, p)
            names = cfg["corr"]["name"] if cfg.get("corr") else "EwaCovariance"
            steady = [n for n in ORDER[:-1] if n not in FRAGILE + ["PartialMomentsCovariance", "FactorCovariance"]]
            if names not in steady:
                cfg["corr"] = gen.gen_cfg(rng, steady, p, diff=False)
        else:
            cfg = gen.gen_cfg(rng, [name], p, diff=rng.random() < 0.2)
            if how == "units" and name == "ShrunkCovariance":
                cfg["params"].pop("target", None)
            if how in ("unit", "units") and name == "SchurCovariance":
                cfg["params"].pop("interpolation", None)
        n = max(1, min(length_for(rng, cfg), 90)) if rng.random() < 0.994 else rng.randint(257, 700)
        data["T"] = n + 8
        if rng.random() < 0.2:
            data["bad"] = gen.gen_sensor_faults(rng, p, data["T"])
        idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
        perm = list(range(p))
        rng.shuffle(perm)
        change = {"order": perm, "unit": [rng.choice([0.125, 0.5, 2.0, 16.0])] * p,
                  "units": [rng.choice([0.125, 0.5, 1.0, 2.0, 8.0]) for _ in range(p)],
                  "offset": [rng.choice([-4.0, 0.0, 1.0, 8.0]) for _ in range(p)]}[how]
        composed = cfg["name"] == "ConditionalCovariance"
        ops = []
        b = gen.burn_n(gen.cfg_r(cfg))
        for op in gen_history(rng, idx, {1, 2, b, b + 1}, fail=not composed,
                              restart=("pickle", "deepcopy") if composed else ("json", "pickle", "deepcopy")):
            ops.append(op)
            if op[0] in ("crash", "refit") or rng.random() < 0.2:
                ops.append(["compare"])
        ops.append(["compare"])
        return {"cfg": cfg, "how": how, "change": change, "data": data, "feed": counts, "ops": ops}

    def execute(self, program, res):
        cfg, feed, how = program["cfg"], Feed(program["data"]), program["how"]
        res.faults.update(program.get("feed", {}))
        dep = Deployment(lambda: build(cfg), feed, res)
        a = np.array(program["change"])
        diff = gen.is_diff(cfg)
        if len(a) != feed.p:
            return
        res.probes[how] += 1

        def rows(X):
            return X[:, a] if how == "order" else X + a if how == "offset" else X * a

        def location(m):
            return m[a] if how == "order" else m + (0.0 if diff else a) if how == "offset" else m * a

        def matrix(C):
            return C[np.ix_(a, a)] if how == "order" else C if how == "offset" else C * np.outer(a, a)

        def answers(X, noise=None):
            e = feed_all(build(cfg), X if noise is None else X * (1 + 3e-14 * noise.standard_normal(X.shape)))
            return [read(e, "location_"), read(e, "covariance_")]

        inner = cfg["name"]
        burn = gen.burn_n(gen.cfg_r(cfg)) if inner in FRAGILE[:2] else 0

        def singular(X):
            e = build(cfg)
            for x in X:
                e.partial_fit(x)
                if e.n_samples_ >= max(burn, 1):
                    R = read(e, "correlation_")
                    if not isinstance(R, str) and not np.linalg.cond(R) < 1e6:
                        return True
            return False

        def dusty(X):
            """Does a row leave nothing but rounding for a further principal direction?"""
            if cfg["name"] != "FactorCovariance":
                return False
            e = build(cfg)
            for x in X:
                e.partial_fit(x)
                norms = [np.linalg.norm(v) for v in ((e.get_state() or {}).get("V") or [])]
                if any(0 < v < 1e-9 * np.abs(X).max() for v in norms):
                    return True
            return False

        def compare():
            if not dep.log:
                return
            X = feed.rows(dep.log)
            got = [read(dep.sut, "location_"), read(dep.sut, "covariance_")]
            twin = feed_all(build(cfg), rows(X))
            want = [read(twin, "location_"), read(twin, "covariance_")]
            res.evals += 1
            if isinstance(got[0], str) or isinstance(want[0], str) or isinstance(got[1], str) or isinstance(want[1], str):
                if [isinstance(g, str) for g in got] != [isinstance(w, str) for w in want]:
                    raise Violation("answers", f"{got} but {want} after a change of {how} {a.tolist()}, {cfg}")
                return
            if inner in ("SchurConditionalCovariance", "SchurLedoitWolfCovariance"):  # regressions on a singular block
                q = {k: v for k, v in cfg["params"].items() if k in ("r", "diff")}
                R = read(feed_all(build({"name": "EwaCovariance", "params": q}), X), "correlation_")
                if not isinstance(R, str) and not np.linalg.cond(R) < 1e8:
                    res.probes["singular on the way: not compared"] += 1
                    return
            if dusty(X):
                res.probes["a direction seeded by rounding: not compared"] += 1
                return
            if inner in FRAGILE and singular(X):
                res.probes["singular on the way: not compared"] += 1
                return
            mag = np.abs(X).max(axis=0)
            big = mag if how == "order" else mag + np.abs(a) if how == "offset" else mag
            floor = FLOORED.get(cfg["name"], 1e-11) if how != "order" else 0.0
            if how in ("unit", "units"):
                floor = floor * np.outer(np.maximum(a, 1.0), np.maximum(a, 1.0))
            for what, g, w, f in (("location_", got[0], want[0], location), ("covariance_", got[1], want[1], matrix)):
                f_g = f(g)
                if f_g.shape != w.shape:
                    raise Violation(what, f"{w.tolist()} instead of {f_g.tolist()} after a change of {how}, {cfg}")
                if what == "location_":
                    unit = location(np.asarray(big)) if how in ("order",) else np.abs(a) * mag if how in ("unit", "units") else big
                    tol = 1e-9 * unit + 1e-300
                else:
                    dev = np.sqrt(np.abs(np.diag(w)))
                    s = big if how == "offset" else (mag[a] if how == "order" else mag * a)
                    tol = 1e-7 * np.outer(dev, dev) + 1e-12 * (np.outer(s, dev) + np.outer(dev, s)) + 1e-24 * np.outer(s, s)
                    tol = tol + 1e-7 * max(np.abs(w).max(), 1e-300) * (how == "order") + floor
                if not (np.abs(f_g - w) <= tol).all():
                    off = float((np.abs(f_g - w) / tol).max())
                    if off < 1e14:  # does rounding alone move it as far?
                        g_ = np.random.default_rng(7)
                        i = 0 if what == "location_" else 1
                        noisy = [f(answers(X, g_)[i]) for _ in range(5)]
                        spread = max(np.abs(x - f_g).max() for x in noisy)
                        if np.abs(f_g - w).max() <= 300 * spread:
                            res.probes["rounding decides"] += 1
                            continue
                    raise Violation(what, f"{w.tolist()} instead of {f_g.tolist()} after a change of {how} {a.tolist()} "
                                    f"(off by {off:.3g} tolerances), {cfg}")

        for op in program["ops"]:
            if op[0] == "compare":
                compare()
            else:
                dep.step(op)


CHECK = C25()
