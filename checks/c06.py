"""C06: a malformed delivery is refused and leaves no trace."""
import copy
import json
import pickle

import numpy as np

from sim import gen, keyedgen
from sim.core import Check, Violation
from sim.gen import Feed, build
from sim.obs import dist, observe, require_same
from checks.c01 import length_for

WIDTH = ["wide", "narrow", "one", "double", "empty", "bad-batch-width"]
FORM = ["scalar", "cube", "ragged", "string", "object", "dict", "generator", "late-string", "late-ragged", "bytes"]
FITS = ["fit-1d", "fit-cube", "fit-ragged", "fit-string", "fit-scalar"]


class C06(Check):
    ID = "C06"
    QUICK_RUNS = 24000
    THOROUGH_RUNS = 300000
    RULE = ("One run mixes a disturbed feed with corrupted deliveries (wrong width, wrong shape, garbage values, good "
            "rows followed by garbage, refits on garbage) at random instants and restarts, next to a twin that only "
            "gets the good rows; non-trivial when a corrupted delivery arrives.")

    def generate(self, rng, tier):
        what = rng.choice(["est"] * 5 + ["cond", "fixed", "dynamic"])
        if what in ("fixed", "dynamic"):
            n = rng.randint(1, 25)
            names = keyedgen.NAMES[:rng.randint(1, 5)]
            ops = []
            for t in range(n):
                if rng.random() < 0.3:
                    ops.append(["bad", t, rng.choice(["text", "object", "sequence", "mapping"]), rng.randrange(9),
                                [x for x in names if rng.random() < 0.8] or [names[0]]])
                sub = [x for x in names if rng.random() < 0.85] or [rng.choice(names)]
                rng.shuffle(sub)
                ops.append(["tick", t, sub])
                if rng.random() < 0.1:
                    ops.append(["read"])
            return {"what": what, "ops": ops, "data": {"seed": rng.randrange(10**6)},
                    "spec": {"kind": what, "est": keyedgen.wrapped(rng, 4, diff=0.3),
                             "kw": ({"impute": rng.choice(["ffill", "mean", "zero"])} if what == "fixed" else
                                    {"max_universes": rng.choice([1, 2, 10]), "max_staleness": rng.choice([1, 3, 50])})}}
        data = gen.gen_data(rng)
        cfg = (gen.gen_conditional(rng, data["p"]) if what == "cond"
               else gen.gen_cfg(rng, p=data["p"], diff=rng.random() < 0.4))
        n = max(1, min(length_for(rng, cfg), 80 if what == "est" else 25)) if rng.random() < 0.995 else rng.randint(257, 400)
        data["T"] = n + 8
        idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
        ops, i = [], 0
        kinds = [k for k in WIDTH + FORM if rng.random() < 0.5] or ["wide"]
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(["bad", rng.choice(kinds), rng.randrange(5)])
        while i < len(idx):
            k = rng.choice([1, 1, 1, 2, 3, rng.randint(1, 20)])
            ops.append(["rows", idx[i:i + k]])
            i += k
            if rng.random() < 0.45:
                ops.append(["bad", rng.choice(kinds + FITS), rng.randrange(5)])
            if what == "est" and rng.random() < 0.12:
                ops.append(["restart", rng.choice(["json", "pickle", "deepcopy"])])
            elif what == "cond" and rng.random() < 0.05:
                ops.append(["restart", rng.choice(["pickle", "deepcopy"])])
            if rng.random() < 0.1:
                ops.append(["read"])
        return {"what": what, "cfg": cfg, "data": data, "ops": ops, "feed": counts}

    # ------------------------------------------------------------------
    def execute(self, program, res):
        if program["what"] in ("fixed", "dynamic"):
            return self.keyed(program, res)
        cfg, feed = program["cfg"], Feed(program["data"])
        res.faults.update(program.get("feed", {}))
        make = lambda: build(cfg)
        sut, log = make(), []
        p = feed.p

        def check(what_):
            res.evals += 1
            twin = make()
            rows = [feed.row(i) for i in log]
            for r in rows:
                twin.partial_fit(r)
            require_same(observe(sut), observe(twin), "trace-left", f"{what_}, {cfg} after {len(log)} rows", make, rows)

        def malformed(kind, v):
            """The object to deliver, or None where this kind is not malformed here."""
            good = feed.rows([len(log) + j for j in range(3)]) * 3.0 + 1.0
            if kind in WIDTH and not log:
                return None
            if kind == "wide":
                return np.ones(p + 1 + v % 2) * 5.0
            if kind == "narrow":
                return np.ones(p - 1) * 5.0 if p > 1 else None
            if kind == "one":
                return None if p == 1 else (np.array([4.0]), np.array([[4.0], [5.0]]), [4.0])[v % 3]
            if kind == "double":
                return np.ones(2 * p) * 2.0
            if kind == "empty":
                return [] if v % 2 else np.zeros((2, 0))
            if kind == "bad-batch-width":
                w = p + 1 if v % 2 or p == 1 else p - 1
                return np.ones((3, w))
            if kind == "scalar":
                return (3.5, np.float64(2.0), np.array(7.0), 4)[v % 4]
            if kind == "cube":
                return np.ones((2, 2, p)) if v % 2 else np.ones((1, 1, p))
            if kind == "ragged":
                return [list(good[0]), list(good[1])[:-1] if p > 1 else [1.0, 2.0]]
            if kind == "string":
                return (["x"] * p, "garbage", [["n/a"] * p])[v % 3]
            if kind == "bytes":
                return [b"\xff"] * p
            if kind == "object":
                return [object()] * p
            if kind == "dict":
                return {"a": 1.0}
            if kind == "generator":
                return (x for x in [1.0] * p)
            if kind == "late-string":
                return [list(good[0]), list(good[1]), ["#REF"] * p]
            if kind == "late-ragged":
                return [list(good[0]), list(good[1]), list(good[2]) + [0.0]]
            return None

        def bad_fit(kind, v):
            return {"fit-1d": np.ones(p), "fit-cube": np.ones((2, 3, p)), "fit-scalar": 3.0,
                    "fit-ragged": [[1.0] * p, [1.0] * (p + 1)], "fit-string": [["x"] * p]}[kind]

        for op in program["ops"]:
            if op[0] == "rows":
                if op[1]:
                    sut.partial_fit(feed.rows(op[1]))
                    log += op[1]
                    res.ticks += len(op[1])
                    res.log("rows", len(op[1]))
            elif op[0] == "bad":
                kind, v = op[1], op[2]
                fit = kind.startswith("fit-")
                X = bad_fit(kind, v) if fit else malformed(kind, v)
                if X is None:
                    continue
                before = repr(X) if isinstance(X, (list, np.ndarray)) else None
                res.faults[kind] += 1
                res.nontrivial = True
                if not log:
                    res.probes["malformed before the first row"] += 1
                try:
                    (sut.fit if fit else sut.partial_fit)(X)
                except (ValueError, TypeError) as e:
                    res.log("refused", kind, type(e).__name__)
                else:
                    raise Violation("malformed-accepted", f"{kind}/{v} accepted by {cfg} after {len(log)} rows of width {p}")
                if before is not None and repr(X) != before:
                    raise Violation("argument-modified", f"{kind}: {cfg}")
                if v == 0 or len(log) < 6:
                    check(f"after refusing {kind}")
            elif op[0] == "restart":
                if op[1] == "json":
                    text = json.dumps(sut.get_state())
                    sut = make()
                    sut.set_state(json.loads(text))
                elif op[1] == "pickle":
                    sut = pickle.loads(pickle.dumps(sut))
                else:
                    sut = copy.deepcopy(sut)
                res.faults["restart"] += 1
                res.log("restart", op[1])
            else:
                check("while running")
        check("at the end")

    def keyed(self, program, res):
        spec = program["spec"]
        ticks = keyedgen.Ticks(program["data"]["seed"])
        make = lambda: keyedgen.build_adapter(spec)
        sut, log = make(), []
        fixed = spec["kind"] == "fixed"
        universe = None
        lag = 1 if "diff" in json.dumps(spec["est"]) else 0

        def check(what_):
            res.evals += 1
            twin = make()
            for t, names in log:
                twin.update(ticks.tick(t, names))
            if fixed and sut.keys != twin.keys:
                raise Violation("trace-left", f"{what_}: universe {sut.keys} instead of {twin.keys}, {spec}")
            if len(log) <= lag:
                return
            a, b = sut.cov_array(), twin.cov_array()
            if a[1] != b[1] or dist(a[0], b[0]) > 1e-6:
                raise Violation("trace-left", f"{what_}, {spec} after {len(log)} ticks")
            if not fixed:
                s, t = keyedgen.universes(sut), keyedgen.universes(twin)
                if s != t:
                    raise Violation("trace-left", f"{what_}: universes {s} instead of {t}, {spec}")

        for op in program["ops"]:
            if op[0] == "tick":
                sut.update(ticks.tick(op[1], op[2]))
                if universe is None:
                    universe = list(op[2])
                log.append((op[1], op[2]))
                res.ticks += 1
                res.log("tick", op[2])
            elif op[0] == "bad":
                _, t, kind, where, names = op
                x = ticks.tick(t, names)
                tracked = [k for k in names if k in universe] if fixed and universe is not None else list(names)
                if not tracked or (kind == "sequence" and len(names) < 2):
                    continue
                k = tracked[where % len(tracked)]
                x[k] = {"text": "n/a", "object": object(), "sequence": [1.0, 2.0], "mapping": {"a": 1.0}}[kind]
                res.faults["tick-" + kind] += 1
                res.nontrivial = True
                if universe is None:
                    res.probes["malformed before the first tick"] += 1
                try:
                    sut.update(x)
                except (ValueError, TypeError) as e:
                    res.log("refused", kind, type(e).__name__)
                else:
                    raise Violation("malformed-accepted", f"tick with {kind} for {k} accepted, {spec} after {len(log)} ticks")
                check(f"after refusing {kind}")
            else:
                check("while running")
        check("at the end")


CHECK = C06()
