"""C11: recency-weighted estimators forget faults in bounded time."""
import json
import math
import pickle

import numpy as np

from sim import gen
from sim.core import Check, Violation
from sim.gen import Feed, build
from sim.obs import dist, rounding_spread

NAMES = [n for n in gen.REGISTERED if n not in ("EmpiricalCovariance", "FactorCovariance", "AdaptiveEwaCovariance")]
FRAGILE = ["TylerCovariance", "GeodesicEwaCovariance", "HuberCovariance"]
GENTLE = ["spike", "spike-one", "shift", "scale", "flip"]
MEAN_RATE = [n for n in NAMES if n != "HuberCovariance"]


def rate(cfg):
    return gen.cfg_r(cfg)


class C11(Check):
    ID = "C11"
    QUICK_RUNS = 2000
    THOROUGH_RUNS = 80000
    RULE = ("One run gives two instances different pasts (one or both through spikes, stuck, dead or collinear series, level "
            "shifts, other scales), then the same clean rows with occasional crash and restore of one of them, and "
            "requires equal outputs after a bounded number of rows and the mean difference to shrink by 1-r per row; "
            "non-trivial when the pasts differ by an injected fault.")

    def generate(self, rng, tier):
        data = gen.gen_data(rng, p=rng.choice([1, 2, 2, 3, 3, 4, 5, 6]), kinds=["gauss", "gauss", "factor", "ar", "ints", "offset"])
        cfg = gen.gen_cfg(rng, NAMES, data["p"], diff=rng.random() < 0.2)
        q, name = cfg["params"], cfg["name"]
        q["r"] = rng.choice([0.5, 0.35, 0.3, 0.2, 0.15, 0.1] + ([0.05] if tier == "thorough" else []))
        if name == "GeodesicEwaCovariance":
            q["r"] = rng.choice([0.3, 0.2, 0.15, 0.1])
        if "vol_r" in q:
            q["vol_r"] = rng.choice([0.5, 0.3, 0.2, 0.1])
        if name == "HuberCovariance":
            q["c"] = rng.choice([2.5, 3.0, 5.0])
            q["r"] = min(q["r"], 0.5 / (data["p"] + 1))  # a window longer than the dimension
        fragile = name in FRAGILE
        b = gen.burn_n(rate(cfg))
        la, lb = rng.choice([0, 3, b, b + 3, rng.randint(1, b + 30)]), rng.choice([0, 1, b, rng.randint(1, b + 30)])
        if fragile:  # these divide by their own estimate: let the past have full rank
            la = max(la, b + data["p"] + 3)
            lb = 0 if rng.random() < 0.5 else max(lb, b + data["p"] + 3)
        past = max(la, lb, 1)
        bad = gen.gen_sensor_faults(rng, data["p"], past, n=rng.choice([1, 2, 3]))
        if fragile:
            for f in bad:
                f[0] = f[0] if f[0] in GENTLE else rng.choice(GENTLE)
                f[4] = max(-1e3, min(1e3, f[4]))
        other = gen.gen_sensor_faults(rng, data["p"], past, n=1) if rng.random() < 0.3 and not fragile else []
        return {"cfg": cfg, "data": dict(data, T=3000), "a": la, "b": lb, "bad": bad, "other": other,
                "crash": rng.choice([None, None, "json", "pickle"]), "at": rng.randint(1, 40)}

    def shrink_paths(self, program):
        return [("bad",), ("other",)]

    def simplify(self, program):
        yield from super().simplify(program)
        for k in ("a", "b"):
            for v in (0, program[k] // 2, program[k] - 1):
                if 0 <= v < program[k]:
                    yield dict(program, **{k: v})
        if program["crash"]:
            yield dict(program, crash=None)

    def execute(self, program, res):
        cfg, data = program["cfg"], program["data"]
        make = lambda: build(cfg)
        clean = Feed(data)
        T = max(program["a"], program["b"], 1)
        seeds = dict(data, T=T, seed=data["seed"] + 1), dict(data, T=T, seed=data["seed"] + 2)
        pasts = []
        for spec, n, bad in ((seeds[0], program["a"], program["bad"]), (seeds[1], program["b"], program["other"])):
            rows = Feed(dict(spec, bad=bad)).rows(list(range(n)))
            pasts.append(rows)
            for f in bad:
                if n > f[1]:
                    res.faults["sensor:" + f[0]] += 1
                    res.nontrivial = True
        twins = [make(), make()]
        for e, rows in zip(twins, pasts):
            for x in rows:
                e.partial_fit(x)
            res.ticks += len(rows)
        res.log("pasts", program["a"], program["b"], program["bad"], program["other"])

        name, r = cfg["name"], rate(cfg)
        diff = gen.is_diff(cfg)
        size = np.abs(clean.rows(list(range(60)))).std(axis=0).min() + 1e-3 * data["scale"]
        worst = max([1.0] + [np.abs(p).max() for p in pasts if len(p)]) / max(size, 1e-12)
        memory = 2 * math.log(max(worst, 10.0)) + 36
        k = gen.burn_n(r) + int(memory / -math.log1p(-r))
        if name in ("HuberCovariance", "TylerCovariance", "DCCCovariance"):
            k *= 2
        mean_r = cfg["params"].get("vol_r") or r if name == "DCCCovariance" else r
        burn = gen.burn_n(r)
        t = last = None
        used = []
        for extension in range(3):
            start = len(used)
            for i in range(start, start + k):
                x = clean.row(i)
                before = None
                exact = name in MEAN_RATE and i < 120 and min(e.n_samples_ for e in twins) >= burn
                if exact:
                    before = twins[0].location_ - twins[1].location_
                for e in twins:
                    e.partial_fit(x)
                used.append(i)
                res.ticks += 2
                if exact and not (diff and i == 0):
                    after = twins[0].location_ - twins[1].location_
                    mag = max(np.abs(twins[0].location_).max(), np.abs(twins[1].location_).max(), np.abs(x).max(),
                              np.abs(before).max())
                    res.evals += 1
                    if not np.abs(after - (1 - mean_r) * before).max() <= 1e-12 * mag + 1e-300:
                        raise Violation("mean-decay", f"difference {before} becomes {after} at rate {mean_r}, {cfg}")
                if i == program["at"] and program["crash"]:
                    res.faults["crash:" + program["crash"]] += 1
                    if program["crash"] == "json":
                        e = make()
                        twins[0] = e.set_state(json.loads(json.dumps(twins[0].get_state()))) or e
                    else:
                        twins[0] = pickle.loads(pickle.dumps(twins[0]))
            last = self.compare(twins, cfg, clean, used)
            res.evals += 1
            if last is None:
                if extension:
                    res.probes["needed more than one horizon"] += 1
                return
        attr, d = last
        spread = 0.0
        for rows in pasts:
            allrows = list(rows) + [clean.row(i) for i in used]
            spread = max(spread, rounding_spread(make, allrows, attr, size=1e-15, enough=d / 100))
        if d < np.inf and d <= 100 * spread:
            res.probes["rounding of the history: not compared"] += 1
            return
        raise Violation("not-forgotten", f"{attr} still differs by {d:.3g} (relative) after {len(used)} identical rows, {cfg}; "
                        f"{getattr(twins[0], attr).tolist()} and {getattr(twins[1], attr).tolist()}")

    @staticmethod
    def compare(twins, cfg, clean, used):
        a, b = twins
        S = a.covariance_
        sd = np.sqrt(max(np.abs(np.diag(S)).max(), 0.0))
        level = np.abs(clean.rows(used[-60:])).max()
        loc = np.abs(a.location_ - b.location_).max()
        if not loc <= 1e-6 * sd + 1e-10 * level:
            return "location_", loc / max(sd, 1e-300)
        for attr in ("covariance_", "correlation_"):
            d = dist(getattr(a, attr), getattr(b, attr))
            if not d <= 1e-6:
                return attr, d
        return None


CHECK = C11()
