"""C03: the estimate depends on the rows, not on how they were delivered."""
import numpy as np

from sim import gen
from sim.core import Check, Violation
from sim.gen import Feed, build
from sim.obs import observe, require_same
from checks.c01 import length_for

FORMS = ["plain", "list", "tuple", "strided", "fortran", "readonly", "buffer", "reversed-view", "int", "float32",
         "frame", "object"]


class C03(Check):
    ID = "C03"
    QUICK_RUNS = 9600
    THOROUGH_RUNS = 150000
    RULE = ("One run cuts a feed into deliveries of random size, container and memory layout (one shared buffer "
            "refilled between deliveries included), with reads and refits in between, next to a twin fed plain rows; "
            "non-trivial when some delivery is not a plain fresh row.")

    def generate(self, rng, tier):
        data = gen.gen_data(rng)
        cond = rng.random() < 0.2
        cfg = (gen.gen_conditional(rng, data["p"]) if cond
               else gen.gen_cfg(rng, p=data["p"], diff=rng.random() < 0.4))
        n = length_for(rng, cfg, 0.03)
        n = max(1, min(n, 50) if cond else n)
        data["T"] = n + 10
        exact = rng.choice(["float64", "float64", "int", "float32"])
        forms = [f for f in FORMS if rng.random() < 0.5 and not (f in ("int", "float32") and f != exact)] or ["buffer"]
        if exact != "float64":
            forms.append(exact)
        idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 10)
        ops, i = [], 0
        if rng.random() < 0.1:
            ops += [["batch", rng.choice(forms), []], ["read"]]
        if not cond and rng.random() < 0.15:   # another life before, perhaps of another width
            ops.append(["wide", rng.choice([0, 1, 2]), rng.randint(1, 12)])
        while i < len(idx):
            form = rng.choice(forms)
            u = rng.random()
            if u < 0.35:
                ops.append(["one", form, [idx[i]]])
                i += 1
            else:
                k = rng.choice([1, 2, 3, rng.randint(1, 20), rng.randint(1, n)])
                verb = "fit" if rng.random() < 0.06 else "batch"
                ops.append([verb, form, idx[i:i + k]])
                i += k
            if rng.random() < 0.05:
                ops.append(["batch", form, []])
            if rng.random() < 0.15:
                ops.append(["read"])
        return {"cfg": cfg, "data": data, "exact": exact, "ops": ops, "feed": counts}

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        res.faults.update(program.get("feed", {}))
        p = feed.p
        cond = cfg["name"] == "ConditionalCovariance"
        make = lambda: build(cfg)
        sut, twin = make(), make()
        log = []
        buffers = {}

        def values(idx):
            X = feed.rows(idx)
            if program["exact"] == "int":
                X = np.rint(X * (1 if program["data"]["kind"] == "ints" else 4))
            elif program["exact"] == "float32":
                X = X.astype(np.float32).astype(float)
            return X

        def check(what):
            res.evals += 1
            if not cond and (sut.get_state() is None) != (twin.get_state() is None):
                raise Violation("delivery-matters", f"get_state() is {sut.get_state()} instead of {twin.get_state()} {what}, "
                                f"{cfg} after {len(log)} rows")
            require_same(observe(sut), observe(twin), "delivery-matters", f"{what}, {cfg} after {len(log)} rows",
                         make, log)

        for op in program["ops"]:
            if op[0] == "read":
                check("while running")
                res.log("read")
                continue
            if op[0] == "wide":
                g = np.random.default_rng(op[2])
                sut.partial_fit(g.standard_normal((op[2], p + op[1])) * 50)
                sut.fit(values([0]))
                twin = make()
                twin.fit(values([0]))
                log = [values([0])[0]]
                res.faults["refit after another stream"] += 1
                res.log("wide", op[1:])
                continue
            verb, form, idx = op
            if verb == "one" and len(idx) != 1:
                continue
            if verb == "fit" and not idx:
                continue
            X = values(idx)
            shape = (p,) if verb == "one" else X.shape
            flat = X[0] if verb == "one" else X
            owner = None
            if form == "list":
                arg = flat.tolist() if len(idx) else np.zeros((0, p))
            elif form == "tuple":
                arg = tuple(map(tuple, flat.tolist())) if verb != "one" else tuple(flat.tolist())
                if not len(idx):
                    arg = np.zeros((0, p))
            elif form == "strided":
                owner = np.full(tuple(3 * s for s in shape), 77.0)
                arg = owner[tuple(slice(1, None, 3) for _ in shape)]
                arg[...] = flat
            elif form == "reversed-view":
                owner = flat[tuple(slice(None, None, -1) for _ in shape)].copy()
                arg = owner[tuple(slice(None, None, -1) for _ in shape)]
            elif form == "fortran":
                arg = owner = np.asfortranarray(flat.copy())
            elif form == "readonly":
                arg = flat.copy()
                arg.setflags(write=False)
            elif form == "buffer":
                arg = owner = buffers.setdefault(shape, np.empty(shape))
                arg[...] = flat
            elif form == "int":
                arg = owner = flat.astype(np.int64)
            elif form == "float32":
                arg = owner = flat.astype(np.float32)
            elif form == "object":
                arg = owner = flat.astype(object)
            elif form == "frame":
                import pandas as pd
                arg = pd.Series(flat.copy()) if verb == "one" else pd.DataFrame(flat.copy())
            else:
                arg = owner = flat.copy()
            before = np.array(arg, dtype=float)
            if verb == "fit":
                got = sut.fit(arg)
                twin = make()
                log = []
                res.probes["refit of a used instance"] += 1
            else:
                got = sut.partial_fit(arg)
            if got is not sut:
                raise Violation("return-value", f"{cfg['name']}.{verb} does not return the estimator")
            after = np.array(arg, dtype=float)
            if before.shape != after.shape or not np.array_equal(before, after):
                raise Violation("input-modified", f"{cfg['name']} changed the caller's {form} array")
            if owner is not None:      # the caller reuses its memory
                owner[...] = -12345
            for r in X:
                twin.partial_fit(r.copy())
                log.append(r.copy())
            res.ticks += len(idx)
            res.faults["delivery:" + form] += 1
            res.nontrivial |= form != "plain" or verb != "one"
            res.log(verb, form, len(idx))
        check("at the end")
        for i in range(3):
            r = values([i])[0] + i
            sut.partial_fit(r.copy())
            twin.partial_fit(r.copy())
            log.append(r)
        check("after further rows")


CHECK = C03()
