"""C05: absorbing rows is all or nothing under any interruption."""
import json

import numpy as np

from sim import faults, gen
from sim.core import Check, Violation
from sim.gen import Feed, build
from sim.obs import dist, json_dist, observe, rounding_spread
from checks.c01 import length_for

READS = ["location_", "covariance_", "correlation_", "precision_", "n_samples_", "get_state", "score", "pickle"]


class C05(Check):
    ID = "C05"
    LEVEL = "exploration"
    QUICK_RUNS = 10000
    THOROUGH_RUNS = 200000
    RULE = ("One run streams rows into one estimator and cuts several deliveries, refits and reads short at a random "
            "opportunity (function entry, loop back-edge, return of a C call, operator about to allocate, "
            "decomposition), then resubmits what was not absorbed; non-trivial when a fault came out of a delivery.")

    def generate(self, rng, tier):
        data = gen.gen_data(rng)
        cfg = gen.gen_cfg(rng, p=data["p"], diff=rng.random() < 0.4)
        n = max(1, min(length_for(rng, cfg), 120)) if rng.random() < 0.992 else rng.randint(257, 520)
        data["T"] = n + 8
        ops, i = [], 0
        b = gen.burn_n(gen.cfg_r(cfg))
        hot = {1, 2, b, b + 1}
        fams = [f for f in faults.FAMILIES if rng.random() < 0.6] or ["interrupt"]

        def frac():
            return round(rng.choice([rng.random(), rng.random(), rng.random() * 0.1, 1 - rng.random() * 0.15]), 4)

        while i < n:
            near = any(abs(i - h) <= 1 for h in hot)
            step = rng.choice([1, 1, 1, 2, 3, rng.randint(1, 25)] if n < 257 else [1, 9, rng.randint(1, 140)])
            idx = list(range(i, min(i + step, n)))
            if rng.random() < (0.5 if near or n < 12 else 0.2):
                ops.append(["strike", rng.choice(["one", "batch", "batch"]), idx, rng.choice(fams), frac()])
            else:
                ops.append(["rows", idx])
            i += step
            if rng.random() < 0.12:
                ops.append(["read", rng.choice(READS), rng.choice(fams), frac()])
            if rng.random() < 0.05:
                ops.append(["strike", "fit", list(range(max(0, i - rng.randint(1, 10)), min(i + 1, n))),
                            rng.choice(fams), frac()])
        ops.append(["strike", "batch", list(range(max(0, n - 3), n)), rng.choice(fams), frac()])
        return {"cfg": cfg, "data": data, "ops": ops}

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        make = lambda: build(cfg)
        sut = make()
        log = []
        cache = [make(), 0, []]

        def twin(idx):
            t, k, seen = cache
            if seen != idx[:k]:
                t, k = make(), 0
            for i in idx[k:]:
                t.partial_fit(feed.row(i))
            cache[:] = [t, len(idx), list(idx)]
            return t

        def same(a, idx):
            """None when a is in the state after exactly the rows idx, else what differs."""
            res.evals += 1
            x, y = observe(a), observe(twin(idx))
            rows = None
            if x["n_samples_"] != y["n_samples_"]:
                return "n_samples_", float("inf")
            for attr in x:
                d = dist(x[attr], y[attr])
                if attr == "precision_" or d <= 1e-9:
                    continue
                rows = rows or [feed.row(i) for i in idx]
                if d == float("inf") or d > 1e-9 + 100 * rounding_spread(make, rows, attr, enough=d / 100):
                    return attr, d
            s, t = json.loads(json.dumps(a.get_state())), json.loads(json.dumps(twin(idx).get_state()))
            d = json_dist(s, t)
            if d > 1e-9:
                rows = rows or [feed.row(i) for i in idx]
                if d == float("inf") or d > 1e-9 + 100 * max(rounding_spread(make, rows, x, enough=d / 100) for x in
                                                           ("location_", "covariance_")):
                    return "state", d
            return None

        for op in program["ops"]:
            if op[0] == "rows":
                if op[1]:
                    sut.partial_fit(feed.rows(op[1]))
                    log += op[1]
                    res.ticks += len(op[1])
                    res.log("rows", len(op[1]))
            elif op[0] == "read":
                _, attr, family, frac = op
                if sut.n_samples_ == 0 and attr not in ("n_samples_", "get_state", "pickle"):
                    continue

                def action(e, attr=attr):
                    if attr == "precision_" or attr == "score":
                        try:
                            return e.score(feed.rows([0, 1])) if attr == "score" else e.precision_
                        except np.linalg.LinAlgError:
                            return None  # a singular estimate may have no inverse
                    elif attr == "get_state":
                        e.get_state()
                    elif attr == "pickle":
                        e.__getstate__()
                    else:
                        getattr(e, attr)
                where, exc = faults.strike(sut, action, family, frac)
                if exc is not None:
                    res.faults[f"{family} in read"] += 1
                res.log("read", attr, where, type(exc).__name__)
                bad = same(sut, log)
                if bad:
                    raise Violation("read-left-a-trace", f"{attr} cut short at {where}: {bad[0]} differs by {bad[1]:.3g}, "
                                    f"{cfg} after {len(log)} rows")
            else:
                _, verb, idx, family, frac = op
                if not idx:
                    continue
                X = feed.rows(idx)
                if verb == "one":
                    idx, X = idx[:1], X[0]
                snap = faults.snapshot(sut)
                action = (lambda e: e.fit(X)) if verb == "fit" else (lambda e: e.partial_fit(X))
                where, exc = faults.strike(sut, action, family, frac)
                base = [] if verb == "fit" else log
                res.ticks += len(idx)
                if exc is None:
                    if where is not None and family in ("interrupt", "alloc"):
                        res.probes["fault swallowed"] += 1
                    elif where is not None:
                        # a documented fallback took over: start again from before the delivery
                        res.probes["fallback took over"] += 1
                        faults.put_back(sut, snap)
                        action(sut)
                    else:
                        faults.put_back(sut, snap)
                        action(sut)
                    log = base + idx
                    bad = same(sut, log)
                    if bad:
                        raise Violation("acknowledged-but-lost", f"{family} at {where} did not surface, {bad[0]} differs "
                                        f"by {bad[1]:.3g}, {cfg} after {len(log)} rows")
                    res.log(verb, "ok", where)
                    continue
                res.faults[f"{family} in {verb}"] += 1
                res.nontrivial = True
                tried = []
                options = [base + idx[:m] for m in range(len(idx) + 1)]
                if verb == "fit":
                    options.insert(0, log)
                found = None
                n_now = sut.n_samples_
                for o in options:
                    if abs(len(o) - n_now) > 1:
                        continue
                    bad = same(sut, o)
                    if bad is None:
                        found = o
                        break
                    tried.append((len(o), *bad))
                if found is None:
                    raise Violation("torn-delivery", f"{verb} of {len(idx)} rows onto {len(base)} cut short by {family} at "
                                    f"{where}: no prefix explains the estimator (n_samples_={n_now}, tried {tried[:4]}), {cfg}")
                kept = len(found) - len(base) if found is not log or verb != "fit" else -1
                if kept > 0:
                    res.probes["some rows of the batch were absorbed"] += 1
                res.log(verb, family, where, kept)
                # deliver the rest again
                if verb == "fit" and found is log:
                    sut.fit(feed.rows(idx))
                    log = list(idx)
                else:
                    rest = (base + idx)[len(found):]
                    if rest:
                        sut.partial_fit(feed.rows(rest))
                    log = base + idx
                bad = same(sut, log)
                if bad:
                    raise Violation("resubmission-differs", f"{bad[0]} differs by {bad[1]:.3g} after resubmitting, {cfg}")
        bad = same(sut, log)
        if bad:
            raise Violation("final-result-differs", f"{bad[0]} differs by {bad[1]:.3g}, {cfg} after {len(log)} rows")


CHECK = C05()
