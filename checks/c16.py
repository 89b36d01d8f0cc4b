"""C16: FixedUniverse is the wrapped estimator on imputed rows in key order."""
import collections
import copy

import numpy as np

from sim import faults, gen, keyedgen
from sim.core import Check, Violation
from sim.gen import build
from sim.obs import dist, read, rounding_spread

WIDE = 16
LABELS = {"text": keyedgen.NAMES + list("IJKLMNOP"), "int": [7, 3, 11, 0, 5, 2, 13, 1, 20, 17, 6, 9, 31, 4, 12, 8],
          "tuple": [("x", i) for i in range(WIDE)]}
QUERIES = ["cov_array", "cov_array", "get_cov", "get_cov", "get_corr", "get_corr", "covariance_", "covariance",
           "correlation_", "to_frame", "to_frame"]


class Model:
    """Imputation by hand, feeding a stand-alone estimator of the wrapped kind."""

    def __init__(self, cfg, keys, impute):
        self.cfg, self.impute = cfg, impute
        self.names = list(keys) if keys is not None else None
        self.est = build(cfg)
        self.seen = {}
        self.rows = []

    def row(self, tick):
        names = list(tick) if self.names is None else self.names
        out = []
        for j, k in enumerate(names):
            if k in tick:
                out.append(float(tick[k]))
            elif self.impute == "zero":
                out.append(0.0)
            elif self.impute == "mean" and self.est.n_samples_ > 0:
                out.append(float(self.est.location_[j]))
            else:
                out.append(self.seen.get(k, 0.0))
        return names, np.array(out)

    def take(self, tick):
        names, y = self.row(tick)
        self.est.partial_fit(y)
        self.names = names
        self.rows.append(y)
        self.seen.update({k: float(tick[k]) for k in names if k in tick})


def build_fixed(spec, labels):
    import precise
    kw = {"impute": spec["impute"]} if spec["impute"] != "default" else {}
    if spec["keys"] is not None:
        keys = [labels[i] for i in spec["keys"]]
        kw["keys"] = {"list": list, "tuple": tuple, "dict": dict.fromkeys}[spec["keys_as"]](keys)
    cfg = spec["est"]
    if spec["via"] == "class":
        cls = getattr(precise, cfg["name"])
        return (precise.keyed if spec["front"] else precise.FixedUniverse)(cls, **kw, **cfg["params"])
    return (precise.keyed if spec["front"] else precise.FixedUniverse)(build(cfg), **kw)


class C16(Check):
    ID = "C16"
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 250000
    RULE = ("One run sends ticks with names lost, added, shuffled, repeated and resent to a FixedUniverse, some of which fail "
            "inside (decomposition or allocation) or are malformed, queries it in any order of names, and compares every "
            "answer with a stand-alone estimator fed by an independent imputation. Non-trivial when a name was missing "
            "or a tick failed.")

    def generate(self, rng, tier):
        width = rng.choice([1, 2, 2, 3, 3, 4, 5, 6] * 3 + [9, 12])
        impute = rng.choice(["ffill", "mean", "zero", "default"])
        if rng.random() < 0.12:
            cfg = gen.gen_conditional(rng, width, skaters=False)
        else:
            cfg = keyedgen.wrapped(rng, width, diff=0.0 if impute == "mean" else 0.3, names=gen.REGISTERED)
        front = rng.random() < 0.5
        via = "class" if cfg["name"] != "ConditionalCovariance" and rng.random() < 0.3 else "instance"
        names = list(range(width))
        rng.shuffle(names)
        keys = list(names) if rng.random() < 0.4 else None
        extra = [i for i in range(8 if width <= 6 else WIDE) if i not in names]
        mode = rng.choice(["any", "any", "mostly", "flap", "one"])
        n = rng.choice([rng.randint(1, 10), rng.randint(5, 40), rng.randint(10, 80)]) if rng.random() < 0.992 else rng.randint(257, 450)
        gone = set()
        ops = []
        for t in range(n):
            if mode == "flap":
                for j in names:
                    if rng.random() < 0.15:
                        gone ^= {j}
                here = [j for j in names if j not in gone]
            elif mode == "one":
                here = [rng.choice(names)]
            else:
                keep = 0.6 if mode == "any" else 0.93
                here = [j for j in names if rng.random() < keep]
            if not here and (t == 0 or rng.random() < 0.5):
                here = list(names)
            if rng.random() < 0.25 and extra:
                here += rng.sample(extra, rng.randint(1, len(extra))) if t or keys is not None else []
            rng.shuffle(here)
            at = t if rng.random() < 0.9 else rng.randint(0, t)  # resent or late tick
            u = rng.random()
            if u < 0.06 and cfg["name"] != "ConditionalCovariance":
                ops.append(["fail", at, here, rng.choice(["alloc", "linalg-mem", "linalg"]), round(rng.random(), 3)])
            elif u < 0.1:
                ops.append(["bad", at, here, rng.choice(["x", {}, [1.0, 2.0]])])
            elif u < 0.13:
                ops.append(["noise", at, here])
            else:
                ops.append(["tick", at, here, rng.choice(["update", "update", "learn_one", "learn_many", "ordered", "numpy"])])
            for _ in range(rng.choice([0, 0, 1, 2]) if n < 257 or rng.random() < 0.2 else 0):
                sub = rng.sample(names, rng.randint(1, width)) if rng.random() < 0.7 else None
                ops.append(["query", rng.choice(QUERIES), sub])
            if rng.random() < 0.03:
                ops.append(["copy"])
        spec = {"est": cfg, "impute": impute, "keys": keys, "keys_as": rng.choice(["list", "tuple", "dict"]), "via": via,
                "front": front}
        return {"spec": spec, "labels": rng.choice(["text", "text", "int", "tuple"]), "seed": rng.randrange(10**6), "coarse": rng.choice(keyedgen.COARSE),
                "scale": rng.choice([1.0, 1.0, 0.01, 100.0]), "ops": ops}

    def shrink_paths(self, program):
        return [("ops",)] + [("ops", i, 2) for i, op in enumerate(program["ops"]) if op[0] == "tick"]

    def execute(self, program, res):
        spec, labels = program["spec"], LABELS[program["labels"]]
        cfg = spec["est"]
        V = np.round(keyedgen.values(program["seed"], 100, WIDE, program.get("coarse", "")) * program["scale"], 8)
        sut = build_fixed(spec, labels)
        impute = "ffill" if spec["impute"] == "default" else spec["impute"]
        ref = Model(cfg, None if spec["keys"] is None else [labels[i] for i in spec["keys"]], impute)
        first = list(ref.names) if ref.names is not None else None

        def tick_of(op):
            return {labels[j]: float(V[op[1] % 100][j]) for j in op[2]}

        def wanted(sub):
            names = ref.names if sub is None else sub
            pos = [ref.names.index(k) for k in names]
            C = ref.est.covariance_
            return names, C[np.ix_(pos, pos)]

        def unready():
            return ref.names is None or isinstance(read(ref.est, "covariance_"), str)

        def query(how, sub):
            if ref.names is None:
                sub = None
            elif sub is not None:
                sub = [labels[i] for i in sub if labels[i] in ref.names] or None
            if how in ("covariance_", "correlation_", "covariance"):
                sub = None
            given = None if sub is None else list(sub)
            try:
                out = getattr(sut, how) if how in ("covariance_", "correlation_", "covariance") else (
                    getattr(sut, how)() if sub is None else getattr(sut, how)(sub))
            except ValueError:
                if unready():
                    res.probes["query before the first row"] += 1
                    return
                raise
            if unready():
                raise Violation("premature-answer", f"{how} answered {out} before any row, {spec}")
            if sub != given:
                raise Violation("argument-modified", f"{how} changed the list of names")
            names, C = wanted(sub)
            if how == "cov_array":
                got, order = out
            elif how in ("get_cov", "get_corr"):
                got, order = out, names
            elif how == "to_frame":
                got, order = out.to_numpy(), list(out.index)
                if list(out.columns) != order:
                    raise Violation("labels", f"to_frame rows {order}, columns {list(out.columns)}")
            else:
                order = list(out)
                if any(list(out[k]) != order for k in order):
                    raise Violation("labels", f"{how} has ragged names {out}")
                got = np.array([[out[a][b] for b in order] for a in order])
            if list(order) != list(names):
                raise Violation("labels", f"{how}({sub}) answered for {order} instead of {names}, {spec}")
            res.evals += 1
            if how in ("get_corr", "correlation_"):
                v = np.diag(C)
                if not (np.diag(got) == 1.0).all():
                    raise Violation("correlation", f"{how} has diagonal {np.diag(got)}, {spec}")
                ok = v > 1e-12 * max(v.max(), 1e-300)
                s = np.sqrt(np.where(ok, v, 1.0))
                W = C / s[:, None] / s[None, :]
                np.fill_diagonal(W, 1.0)
                m = np.outer(ok, ok)
                got, C = np.where(m, got, 0.0), np.where(m, W, 0.0)
            d = dist(got, C)
            if d > 1e-9:
                def mk():
                    return build(cfg)
                spread = rounding_spread(mk, ref.rows, "covariance_", enough=d / 100) if d < np.inf else 0.0
                if d > 100 * spread + 1e-9:
                    raise Violation("answer", f"{how}({sub}) is {got.tolist()} instead of {C.tolist()} after {len(ref.rows)} "
                                    f"ticks, {spec}")

        def steady():
            if first is not None and list(sut.keys) != first:
                raise Violation("universe-changed", f"universe {sut.keys} was {first}, {spec}")

        for op in program["ops"]:
            kind = op[0]
            if kind in ("tick", "noise"):
                tick = tick_of(op)
                if not tick and ref.names is None:
                    continue
                if kind == "noise":  # values of names outside the universe are nobody's business
                    if ref.names is None:
                        continue
                    tick = {**{"zz": "not a number", ("q",): None}, **tick}
                    res.faults["unknown names"] += 1
                before = dict(tick)
                miss = ref.names is not None and any(k not in tick for k in ref.names)
                if miss:
                    res.faults["name missing"] += 1
                    res.nontrivial = True
                how = op[3] if kind == "tick" else "update"
                sent = tick
                if how == "ordered":
                    sent = collections.OrderedDict(tick)
                elif how == "numpy":
                    sent = {k: np.float64(v) for k, v in tick.items()}
                try:
                    if how == "learn_many":
                        sut.learn_many([sent])
                    elif how == "learn_one":
                        sut.learn_one(sent)
                    else:
                        sut.update(sent)
                except np.linalg.LinAlgError:
                    try:
                        copy.deepcopy(ref).take(tick)
                    except np.linalg.LinAlgError:
                        res.probes["the wrapped estimator cannot take this row"] += 1
                        continue
                    raise
                if kind == "tick" and sent != before:
                    raise Violation("argument-modified", f"update changed its tick {before} into {sent}")
                ref.take({k: v for k, v in tick.items() if kind == "tick" or k in ref.names})
                if first is None:
                    first = list(ref.names)
                res.ticks += 1
                res.log(kind, op[2])
            elif kind == "fail":
                tick = tick_of(op)
                if not tick and ref.names is None:
                    continue
                snap = faults.snapshot(sut)
                where, exc = faults.strike(sut, lambda s: s.update(dict(tick)), op[3], op[4])
                if exc is not None:
                    res.faults["tick failing: " + op[3]] += 1
                    res.nontrivial = True
                    res.log("fail", op[3], where)
                else:  # nothing failed, or a documented fallback took over: send it undisturbed
                    faults.put_back(sut, snap)
                    sut.update(dict(tick))
                    ref.take(tick)
                    first = first or list(ref.names)
                    res.log("survived", where)
            elif kind == "bad":
                tick = tick_of(op)
                tracked = [k for k in tick if ref.names is None or k in ref.names]
                if not tracked:
                    continue
                tick[tracked[-1]] = op[3]
                try:
                    sut.update(tick)
                except (ValueError, TypeError):
                    res.faults["malformed tick"] += 1
                    res.nontrivial = True
                else:
                    raise Violation("malformed-accepted", f"{tick} was accepted, {spec}")
                res.log("bad")
            elif kind == "copy":
                old = sut
                sut = copy.deepcopy(sut)
                del old
                res.faults["moved to a copy"] += 1
            else:
                query(op[1], op[2])
            steady()
        for how in ("cov_array", "correlation_"):
            query(how, None)


CHECK = C16()
