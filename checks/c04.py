"""C04: reading never disturbs the stream, and what was read stays the reader's."""
import copy
import json
import pickle

import numpy as np

from sim import gen, keyedgen
from sim.core import Check, Violation
from sim.gen import Feed, build
from sim.obs import dist, observe, require_same
from checks.c01 import length_for

EST_READS = ["location_", "covariance_", "correlation_", "precision_", "get_precision", "n_samples_", "mahalanobis",
             "score", "get_params", "get_state", "repr", "pickle", "deepcopy"]
KEYED_READS = ["cov_array", "cov_array_sub", "get_cov", "get_corr", "get_cov_sub", "covariance_", "correlation_",
               "covariance", "repr"]


def alike(a, b, tol=1e-9):
    """Structural equality with float tolerance."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and dist(a, b) <= tol
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return dist(np.array(float(a)), np.array(float(b))) <= tol
    try:
        return a == b or repr(a) == repr(b)
    except Exception:
        return False


def overwrite(v):
    """Vandalise everything reachable in a result the reader was given."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype != object:
            v[...] = -1e6
    elif isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], (dict, list, np.ndarray)):
                overwrite(v[k])
        for k in list(v):
            v[k] = -7.0
        v["intruder"] = 1.0
    elif isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (dict, list, np.ndarray)):
                overwrite(x)
            else:
                v[i] = -7.0
        v.append(9.0)
    elif isinstance(v, tuple):
        for x in v:
            overwrite(x)


class C04(Check):
    ID = "C04"
    QUICK_RUNS = 8000
    THOROUGH_RUNS = 200000
    RULE = ("One run interleaves a disturbed feed with reads by a careless consumer who keeps results, overwrites them "
            "in place and reads again, and compares with a twin that was never read; non-trivial when something read "
            "is kept across an update or overwritten.")

    def generate(self, rng, tier):
        what = rng.choice(["est"] * 6 + ["cond", "fixed", "fixed", "dynamic", "dynamic"])
        ops = []
        if what in ("est", "cond"):
            data = gen.gen_data(rng)
            cfg = (gen.gen_conditional(rng, data["p"]) if what == "cond"
                   else gen.gen_cfg(rng, p=data["p"], diff=rng.random() < 0.3))
            n = max(1, min(length_for(rng, cfg), 90 if what == "est" else 30)) if rng.random() < 0.994 else rng.randint(257, 420)
            data["T"] = n + 8
            idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
            reads = [r for r in EST_READS if rng.random() < 0.5 and not (what == "cond" and r in ("get_state", "get_params"))]
            prog = {"what": what, "cfg": cfg, "data": data, "feed": counts}
        else:
            n = rng.randint(1, 40)
            cfg = keyedgen.wrapped(rng, 4)
            idx = list(range(n))
            reads = [r for r in KEYED_READS if rng.random() < 0.6]
            prog = {"what": what, "spec": {"kind": what, "est": cfg, "kw": (
                {"impute": rng.choice(["ffill", "mean", "zero"])} if what == "fixed" else
                {"max_universes": rng.choice([1, 2, 3, 10]), "max_staleness": rng.choice([1, 3, 50])})},
                "data": {"seed": rng.randrange(10**6)}}
            names = keyedgen.NAMES[:rng.randint(1, 5)]
        reads = reads or ["covariance_"]
        i = 0
        if rng.random() < 0.15:
            ops.append(["get", rng.choice(reads)])
        while i < len(idx):
            k = rng.choice([1, 1, 2, 3, rng.randint(1, 20)])
            if what in ("est", "cond"):
                ops.append(["rows", idx[i:i + k]])
            else:
                for t in idx[i:i + k]:
                    sub = [x for x in names if rng.random() < 0.8] or [rng.choice(names)]
                    if t == 0:
                        sub = list(names)
                    rng.shuffle(sub)
                    ops.append(["tick", t, sub])
            i += k
            if what in ("est", "cond") and rng.random() < 0.08:
                # the stream itself starts over (often with as many rows as were read before)
                m = rng.choice([i, i, k, max(1, i - 1), rng.randint(1, n)])
                at = rng.randrange(n + 8)
                kinds = ["fit", "restore", "params"] if what == "est" else ["fit"]
                how = rng.choice(kinds)
                if how == "params":
                    other = gen.gen_cfg(rng, cfg["name"], data["p"])["params"]
                    ops.append(["params", {k: v for k, v in other.items() if k != "diff"}])
                else:
                    ops.append([how, [(at + j) % (n + 8) for j in range(min(m, n))]])
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                u = rng.random()
                if u < 0.65:
                    ops.append(["get", rng.choice(reads)])
                elif u < 0.9:
                    ops.append(["spoil", rng.randrange(8)])
                else:
                    ops.append(["check"])
        prog["ops"] = ops
        return prog

    def execute(self, program, res):
        what = program["what"]
        positional = what in ("est", "cond")
        if positional:
            cfg, feed = program["cfg"], Feed(program["data"])
            make = lambda: build(cfg)
        else:
            cfg = program["spec"]
            ticks = keyedgen.Ticks(program["data"]["seed"])
            make = lambda: keyedgen.build_adapter(cfg)
        res.faults.update(program.get("feed", {}))
        sut, log, kept, events = make(), [], [], []
        inner = cfg["est"] if not positional else cfg
        might_be_unfitted = "diff" in json.dumps(inner)

        def probe(e, how):
            if positional:
                if how in ("mahalanobis", "score"):
                    X = feed.rows([0, 3, 5])
                    Y = X.copy()
                    out = getattr(e, how)(X)
                    if not np.array_equal(X, Y):
                        raise Violation("argument-modified", f"{how} changed its argument, {cfg}")
                    return out
                if how in ("get_precision", "get_params", "get_state"):
                    return getattr(e, how)()
                if how == "repr":
                    return repr(e)
                if how == "pickle":
                    pickle.dumps(e)
                    return 0
                if how == "deepcopy":
                    copy.deepcopy(e)
                    return 0
                return getattr(e, how)
            if how == "repr":
                return repr(e)
            if how.endswith("_sub"):
                ks = list(e.keys) if what == "fixed" else list(e.x)
                sub = ks[::-1][:2]
                given = list(sub)
                out = getattr(e, how[:-4])(sub)
                if sub != given:
                    raise Violation("argument-modified", f"{how} changed the list of names, {cfg}")
                return out
            if how in ("cov_array", "get_cov", "get_corr"):
                return getattr(e, how)()
            return getattr(e, how)

        def tolerance(how):
            if how in ("precision_", "get_precision", "mahalanobis", "score"):
                c = sut.covariance_
                k = np.linalg.cond(c) if np.isfinite(c).all() else np.inf
                return None if not np.isfinite(k) or k > 1e9 else max(1e-9, 1e-14 * k)
            return 1e-9

        def compare(what_):
            res.evals += 1
            twin = make()
            if positional:
                for e in events:  # everything but the reads
                    apply(twin, e)
                rows = [feed.row(i) for i in log]
                require_same(observe(sut), observe(twin), "reads-disturb", f"{what_}, {cfg} after {len(log)} rows",
                             make, rows)
            else:
                for t, names in log:
                    twin.update(ticks.tick(t, names))
                if len(log) <= (1 if might_be_unfitted else 0):
                    return
                a, b = sut.cov_array(), twin.cov_array()
                if a[1] != b[1] or dist(a[0], b[0]) > 1e-6:
                    raise Violation("reads-disturb", f"{what_}, {cfg} after {len(log)} ticks: {a} instead of {b}")

        def apply(e, op):
            if op[0] == "rows":
                e.partial_fit(feed.rows(op[1]))
            elif op[0] == "fit":
                e.fit(feed.rows(op[1]))
            elif op[0] == "params":
                e.set_params(**op[1])
            else:
                other = make()
                for i in op[1]:
                    other.partial_fit(feed.row(i))
                e.set_state(json.loads(json.dumps(other.get_state())))

        def still_intact(when):
            for how, obj, saved, at in kept:
                if not alike(obj, saved, 0.0):
                    raise Violation("result-changed", f"value read as {how} at row {at} changed {when}, {cfg}")

        for op in program["ops"]:
            if op[0] == "rows":
                if op[1]:
                    apply(sut, op)
                    events.append(op)
                    log += op[1]
                    res.ticks += len(op[1])
                    if kept:
                        res.nontrivial = True
                        still_intact("while the stream went on")
                    res.log("rows", len(op[1]))
            elif op[0] in ("fit", "restore", "params"):
                if op[0] == "params" or op[1]:
                    apply(sut, op)
                    events.append(op)
                    if op[0] != "params":
                        log[:] = op[1]
                        res.ticks += len(op[1])
                    res.probes["stream started over (fit)" if op[0] == "fit" else "stream restored from a checkpoint"
                               if op[0] == "restore" else "parameters changed"] += 1
                    still_intact("when the estimator was " + {"fit": "refitted", "restore": "restored", "params": "reconfigured"}[op[0]])
                    res.log(op[0], len(op[1]))
            elif op[0] == "tick":
                sut.update(ticks.tick(op[1], op[2]))
                log.append((op[1], op[2]))
                res.ticks += 1
                if kept:
                    res.nontrivial = True
                    still_intact("while the stream went on")
                res.log("tick", op[2])
            elif op[0] == "get":
                how = op[1]
                try:
                    v = probe(sut, how)
                except np.linalg.LinAlgError:
                    res.probes["singular estimate has no inverse"] += 1
                    continue
                except (ValueError, TypeError, AttributeError):
                    if len(log) > (1 if might_be_unfitted else 0):
                        raise
                    res.probes["read before the first row"] += 1
                    if how in ("covariance_", "location_"):
                        res.log("unfitted", how)
                    continue
                tol = tolerance(how) if positional and sut.n_samples_ > 0 else 1e-9
                w = probe(sut, how)
                res.evals += 1
                if tol is not None and not alike(v, w, tol):
                    raise Violation("repeated-read-differs", f"{how} twice in a row, {cfg} after {len(log)} rows: {v} then {w}")
                if isinstance(v, (np.ndarray, dict, list, tuple)):
                    kept.append((how, v, copy.deepcopy(v), len(log)))
                res.log("get", how)
            elif op[0] == "spoil":
                if kept:
                    how, obj, saved, at = kept.pop(op[1] % len(kept))
                    before = [(h, copy.deepcopy(o)) for h, o, _, _ in kept]
                    overwrite(obj)
                    res.faults["overwrote " + how] += 1
                    res.nontrivial = True
                    still_intact(f"when the result of {how} was overwritten")
                    res.log("spoil", how)
            else:
                compare("while running")
        still_intact("by the end")
        compare("at the end")


CHECK = C04()
