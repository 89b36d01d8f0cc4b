"""C02: pickled / deep-copied estimators continue identically and independently."""
import copy
import pickle

from sim import gen
from sim.core import Check, Violation
from sim.gen import Feed, build
from sim.obs import observe, require_same
from checks.c01 import length_for


class C02(Check):
    ID = "C02"
    QUICK_RUNS = 8000
    THOROUGH_RUNS = 150000
    RULE = ("One run keeps a growing family of instances, each cloned from another by pickle or deepcopy at a random "
            "instant and fed its own rows afterwards; non-trivial when a clone and its original both go on.")

    def generate(self, rng, tier):
        data = gen.gen_data(rng)
        cond = rng.random() < 0.3
        cfg = (gen.gen_conditional(rng, data["p"]) if cond
               else gen.gen_cfg(rng, p=data["p"], diff=rng.random() < 0.4))
        n = length_for(rng, cfg, 0.006)
        n = max(2, min(n, 60) if cond and n < 280 else min(n, 700))
        data["T"] = n + 30
        ops, i, live = [], 0, 1
        if rng.random() < 0.2:
            ops.append(["clone", 0, "deepcopy"])
            live += 1
        while i < n:
            step = rng.choice([1, 1, 2, 3, rng.randint(1, max(1, n // 4))])
            ops.append([rng.choice(["rows", "rows", "batch"]), rng.randrange(live), list(range(i, min(i + step, n)))])
            i += step
            if live < 5 and rng.random() < 0.35:
                how = rng.choice(["deepcopy", "copyreg"] + [f"pickle{k}" for k in range(0, 6)])
                if cond and how == "copyreg":
                    how = "deepcopy"
                ops.append(["clone", rng.randrange(live), how])
                live += 1
            if rng.random() < 0.15:
                ops.append(["read", rng.randrange(live)])
        # common continuation
        ops.append(["clone", rng.randrange(live), "pickle4"])
        ops.append(["common", list(range(n, n + rng.randint(1, 6)))])
        return {"cfg": cfg, "data": data, "ops": ops}

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        make = lambda: build(cfg)
        suts, logs = [make()], [[]]
        twins = {}
        par0 = repr(suts[0])

        def check(k, what):
            res.evals += 1
            t, done = twins.get(k, (None, 0))
            if t is None:
                t, done = make(), 0
            for i in logs[k][done:]:
                t.partial_fit(feed.row(i))
            twins[k] = (t, len(logs[k]))
            require_same(observe(suts[k]), observe(t), "clone-differs", f"{what}: instance {k} of {cfg}, {len(logs[k])} rows",
                         make, [feed.row(i) for i in logs[k]])

        for op in program["ops"]:
            if op[0] in ("rows", "batch", "common"):
                idx = op[-1]
                who = range(len(suts)) if op[0] == "common" else [op[1] % len(suts)]
                if not idx:
                    continue
                for k in who:
                    if op[0] == "batch":
                        suts[k].partial_fit(feed.rows(idx))
                    else:
                        for i in idx:
                            suts[k].partial_fit(feed.row(i))
                    logs[k] += idx
                    res.ticks += len(idx)
                res.log(op[0], list(who), len(idx))
            elif op[0] == "clone":
                src = op[1] % len(suts)
                how = op[2]
                if how == "deepcopy":
                    new = copy.deepcopy(suts[src])
                elif how == "copyreg":
                    new = copy.copy(suts[src])
                else:
                    try:
                        new = pickle.loads(pickle.dumps(suts[src], protocol=int(how[6:])))
                    except (pickle.PicklingError, AttributeError, TypeError) as e:
                        raise Violation("not-picklable", f"{cfg}: {e}")
                res.faults["clone:" + how] += 1
                if not logs[src]:
                    res.probes["cloned before the first row"] += 1
                if len(logs[src]) == 1 and gen.is_diff(cfg):
                    res.probes["cloned between the first two levels"] += 1
                if type(new) is not type(suts[src]):
                    raise Violation("clone-type", f"{type(new)}")
                if cfg["name"] != "ConditionalCovariance":
                    if repr(new) != par0 or new.get_params() != suts[src].get_params():
                        raise Violation("clone-params", f"{new!r} vs {par0}")
                suts.append(new)
                logs.append(list(logs[src]))
                if len(logs[src]):
                    res.nontrivial = True
                res.log("clone", src, how)
                check(len(suts) - 1, "right after cloning")
            elif op[0] == "read":
                check(op[1] % len(suts), "while running")
        for k in range(len(suts)):
            check(k, "at the end")


CHECK = C02()
