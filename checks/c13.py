"""C13: state and work per row stay constant however long the stream runs."""
import gc
import json
import pickle
import sys
import tracemalloc
import types

import numpy as np

from sim import faults, gen, keyedgen
from sim.core import Check, Violation
from sim.gen import Feed, build

SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType)


def deep_size(obj):
    """Bytes of everything reachable from the instance, code excluded."""
    seen, todo, total = set(), [obj.__dict__ if hasattr(obj, "__dict__") else obj], 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, SKIP):
            continue
        seen.add(id(o))
        total += sys.getsizeof(o)
        if isinstance(o, np.ndarray):
            if o.base is not None:
                todo.append(o.base)
            if o.dtype == object:
                todo.extend(o.ravel().tolist())
            continue
        if isinstance(o, (str, bytes, int, float)):
            continue
        if hasattr(o, "__dict__"):
            todo.append(o.__dict__)
        todo.extend(gc.get_referents(o))
    return total


def numbers(state):
    """How many numbers a checkpoint holds."""
    if isinstance(state, dict):
        return sum(numbers(v) for v in state.values())
    if isinstance(state, (list, tuple)):
        return sum(numbers(v) for v in state)
    return 1


READS = ["covariance_", "correlation_", "precision_", "location_"]


class C13(Check):
    ID = "C13"
    QUICK_RUNS = 800
    THOROUGH_RUNS = 20000
    RULE = ("One run streams hundreds to thousands of rows with sensor faults into one estimator, composition or fixed-universe "
            "adapter and, in windows along the stream, measures the instance, its checkpoint and pickle, the peak "
            "allocation and the number of interpreter steps of an update, and the steps of every read; the last window "
            "must not exceed the first. Non-trivial when the stream is at least five times the burn-in or faults hit.")

    def generate(self, rng, tier):
        kind = rng.choice(["est", "est", "est", "cond", "fixed", "wide", "read", "kept"])
        p = rng.choice([1, 2, 3, 4, 6])
        prog = {"kind": kind}
        if kind == "kept":
            prog["how"] = rng.choice(["est", "est", "cond", "fixed"])
        what = prog.get("how", kind)
        if kind == "wide":
            p = rng.choice([40, 80, 120, 200])
            name = rng.choice(["BlockCovariance", "FactorCovariance"])
            cfg = {"name": name, "params": {"r": rng.choice([0.05, 0.3])}}
            if name == "BlockCovariance":
                cfg["params"]["n_blocks"] = rng.choice([8, 20, p // 4, p])
            else:
                cfg["params"]["k"] = rng.choice([1, 2, 4])
            if rng.random() < 0.4:
                cfg["params"]["diff"] = True
            n = rng.choice([20, 40])
        elif what == "cond":
            cfg = gen.gen_conditional(rng, p)
            n = rng.choice([300, 800])
        else:
            cfg = gen.gen_cfg(rng, None, p)
            n = rng.choice([300, 600, 1500] + ([6000] if tier == "thorough" else []))
        for c in [cfg, cfg.get("vol"), cfg.get("corr")]:
            if c and "params" in c:
                for k in ("r", "vol_r"):
                    if k in c["params"]:
                        c["params"][k] = max(c["params"][k], 0.03)
        if kind == "read":
            n = rng.randint(2, 60)
        if kind == "kept":
            n = rng.choice([100, 150])
        prog.update(cfg=cfg, n=n, warm=60)
        prog["data"] = gen.gen_data(rng, p=p)
        prog["data"]["T"] = max(n, 8)
        if kind != "wide" and rng.random() < 0.6:
            prog["data"]["bad"] = gen.gen_sensor_faults(rng, p, prog["data"]["T"])
        if kind == "read" and rng.random() < 0.3:
            prog["data"]["scale"] = rng.choice([1e-150, 1e-60, 1e60, 1e100, 1e150])
        if what == "fixed":
            prog["impute"] = rng.choice(["ffill", "mean", "zero"])
            prog["noise"] = rng.random() < 0.6
            prog["miss"] = rng.choice([0.0, 0.1, 0.5])
        return prog

    def shrink_paths(self, program):
        return [("data", "bad")] if "bad" in program["data"] else []

    def simplify(self, program):
        yield from super().simplify(program)
        for n in (program["n"] // 2, program["n"] - 1):
            if n >= 2:
                yield dict(program, n=n)

    def execute(self, program, res):
        kind, cfg = program["kind"], program["cfg"]
        feed = Feed(program["data"])
        res.log(kind, cfg, program["n"], program["data"])
        for f in program["data"].get("bad", []):
            res.faults["sensor:" + f[0]] += 1
        faults.setup()
        if kind == "wide":
            return self.wide(program, feed, res)
        if kind == "read":
            return self.reads(program, feed, res)
        if kind == "kept":
            return self.kept(program, feed, res)
        return self.windows(program, feed, res)

    # ------------------------------------------------------------- growth
    @staticmethod
    def subject(program, feed):
        """What is fed, and how one row is pushed into it."""
        import precise
        cfg = program["cfg"]
        if program.get("how", program["kind"]) != "fixed":
            return build(cfg), lambda e, i: e.partial_fit(feed.row(i))
        names = [f"n{j}" for j in range(feed.p)]
        g = np.random.default_rng(program["data"]["seed"])

        def push(e, i):
            x = {k: v for k, v in zip(names, feed.row(i)) if g.random() >= program["miss"]}
            if program["noise"]:
                x[f"other{i}"] = float(i)
            e.update(x)

        return precise.FixedUniverse(build(cfg), keys=names, impute=program["impute"]), push

    def kept(self, program, feed, res):
        """Whatever an update or read leaves behind in the process, the instance or not."""
        cfg, n = program["cfg"], program["n"]
        sut, push = self.subject(program, feed)
        res.nontrivial = True

        def stretch(a, b):
            for i in range(a, b):
                push(sut, i)
                if i % 10 == 5:
                    sut.covariance_, sut.correlation_
                    if hasattr(sut, "score"):
                        sut.precision_, sut.location_, sut.score(feed.row(i)), pickle.dumps(sut)
            gc.collect()

        stretch(0, 60)
        marks, at = [], 60
        for k in range(4):  # each stretch twice as long: caches fill up, a leak doubles
            stretch(at, at + n * 2 ** k)
            at += n * 2 ** k
            marks.append(sys.getallocatedblocks())
        res.ticks += at
        res.evals += 1
        grown = np.diff(marks)
        if grown[-1] > 0.5 * 8 * n and grown[-1] > 1.4 * grown[-2] > 1.5 * grown[-3] > 0:
            raise Violation("memory-kept", f"the process keeps about {grown[-1] / (8 * n):.1f} blocks of memory per row, "
                            f"{program['how']} {cfg}")

    def windows(self, program, feed, res):
        cfg, kind, n = program["cfg"], program["kind"], program["n"]
        sut, push = self.subject(program, feed)
        warm = gen.burn_n(gen.cfg_r(cfg)) + 4
        if n < warm + 80:
            n = warm + 80
        width = 30
        first, last, quarter = {}, {}, {}
        res.nontrivial = n >= 5 * warm or bool(program["data"].get("bad"))
        for i in range(n):
            window = first if warm <= i < warm + width else last if i >= n - width else None
            if window is None:
                push(sut, i)
                continue
            self.measure(sut, push, i, window, res)
        res.ticks += n
        res.evals += 1
        for k, v in last.items():
            limit = first[k] * (1.3 if k in ("steps", "peak") else 1.1) + {"steps": 12, "peak": 16384}.get(k, 400)
            if k == "numbers":
                limit = first[k]
            if v > limit:
                raise Violation("growth-" + k, f"{k} per row grows from {first[k]} (rows {warm}..{warm + width}) to {v} "
                                f"(rows {n - width}..{n}), {kind} {cfg}")

    @staticmethod
    def measure(sut, push, i, window, res):
        def top(k, v):
            window[k] = max(window.get(k, 0), v)

        if i % 3 == 0:
            steps, _, exc = faults.run(lambda: push(sut, i), "interrupt", -1)
            top("steps", steps)
        elif i % 3 == 1:
            tracemalloc.start()
            try:
                push(sut, i)
                tracemalloc.reset_peak()
                base = tracemalloc.get_traced_memory()[0]
                push(sut, i)
                top("peak", tracemalloc.get_traced_memory()[1] - base)
            finally:
                tracemalloc.stop()
        else:
            push(sut, i)
            top("size", deep_size(sut))
            est = sut if hasattr(sut, "partial_fit") else None
            if est is not None:
                top("pickle", len(pickle.dumps(est)))
                try:
                    top("numbers", numbers(json.loads(json.dumps(est.get_state()))))
                except NotImplementedError:
                    pass

    # ------------------------------------------------------------- wide streams
    def wide(self, program, feed, res):
        cfg, p = program["cfg"], feed.p
        sut = build(cfg)
        if cfg["name"] == "BlockCovariance":
            nb = min(cfg["params"]["n_blocks"], p)
            sizes = [len(a) for a in np.array_split(np.arange(p), nb)]
            bound = sum(b * b for b in sizes) + 4 * p + 8 * nb + 20
            fixed = 600 * nb + 4000
        else:
            k = cfg["params"]["k"]
            bound = k * p + 5 * p + 20
            fixed = 4000
        assert bound < p * p or cfg["params"].get("n_blocks", 99) < 8
        res.nontrivial = True
        for i in range(program["n"]):
            sut.partial_fit(feed.row(i))
            if i % 7 == 3:
                sut.covariance_
            if i % 5 == 4:
                res.evals += 1
                got = numbers(sut.get_state())
                if got > bound:
                    raise Violation("wide-checkpoint", f"{got} numbers for {p} features (at most {bound}), {cfg}")
                size = deep_size(sut)
                if size > 8 * bound * 1.5 + fixed:
                    raise Violation("wide-state", f"{size} bytes for {p} features (at most {8 * bound * 1.5 + fixed:.0f}), {cfg}")
        res.ticks += program["n"]

    # ------------------------------------------------------------- reads
    def reads(self, program, feed, res):
        cfg = program["cfg"]
        sut = build(cfg)
        res.nontrivial = True
        for i in range(program["n"]):
            try:
                steps, _, _ = faults.run(lambda: sut.partial_fit(feed.row(i)), "interrupt", -1)
            except (np.linalg.LinAlgError, FloatingPointError, OverflowError):
                return  # overflow at absurd scales: refused, not endless
            if steps > 20000:
                raise Violation("endless-update", f"{steps} steps for one row, {cfg}")
            if i % 4 and i < program["n"] - 2:
                continue
            for attr in READS:
                def read(a=attr):
                    try:
                        getattr(sut, a)
                    except (ValueError, np.linalg.LinAlgError):
                        pass
                steps, _, _ = faults.run(read, "interrupt", -1)
                res.evals += 1
                if steps > 20000:
                    raise Violation("endless-read", f"{steps} steps to read {attr} after {i + 1} rows, {cfg}")
        res.ticks += program["n"]


CHECK = C13()
