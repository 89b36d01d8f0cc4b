"""C01: JSON checkpoint + crash + restart at any point is invisible."""
import json

import numpy as np

from sim import gen
from sim.core import Check, Violation
from sim.gen import Feed, build
from sim.obs import json_dist, observe, require_same, rounding_spread


def length_for(rng, cfg, long=0.0):
    """Rows to deliver: around the burn-in mostly, and now and then (``long``) far beyond any of them."""
    if long and rng.random() < long:
        return rng.randint(280, 1400)
    b = gen.burn_n(gen.cfg_r(cfg))
    return rng.choice([rng.randint(1, 8), rng.randint(1, 25), b + rng.randint(-3, 6), b + rng.randint(0, 40)])


class C01(Check):
    ID = "C01"
    LEVEL = "exploration"
    QUICK_RUNS = 9600
    THOROUGH_RUNS = 150000
    RULE = ("One run streams a disturbed feed into one estimator, takes checkpoints (JSON text or plain dict) at "
            "random instants, crashes and restores into fresh, used or the same instance, and replays the rows "
            "after the checkpoint; non-trivial when at least one crash loses rows or state.")

    def generate(self, rng, tier):
        data = gen.gen_data(rng)
        cfg = gen.gen_cfg(rng, p=data["p"], diff=rng.random() < 0.4)
        n = max(1, length_for(rng, cfg, 0.015))
        data["T"] = n + 8
        idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
        ops, i = [], 0
        hot = {0, 1, 2, gen.burn_n(gen.cfg_r(cfg)), gen.burn_n(gen.cfg_r(cfg)) + 1, gen.burn_n(gen.cfg_r(cfg)) - 1}
        if rng.random() < 0.3:
            ops.append(["ckpt", rng.choice(["json", "dict"])])
        while i < len(idx):
            step = rng.choice([1, 1, 2, 3, rng.randint(1, 12)]) if n < 60 else rng.choice([1, 3, rng.randint(1, 60)])
            for h in sorted(hot):
                if i < h < i + step:
                    step = h - i
                    break
            ops.append(["batch" if rng.random() < 0.3 else "rows", idx[i:i + step]])
            i += step
            near = any(abs(i - h) <= 1 for h in hot)
            if rng.random() < (0.6 if near else 0.25):
                ops.append(["ckpt", rng.choice(["json", "json", "dict"])])
            if rng.random() < (0.5 if near else 0.2):
                ops.append(["crash", rng.choice([0, 0, 0, 1, 2]),
                            rng.choice(["fresh", "fresh", "same", "used", "used-level", "used-wide"])])
            if rng.random() < 0.1:
                ops.append(["read"])
        ops.append(["crash", 0, rng.choice(["fresh", "used-level"])])
        return {"cfg": cfg, "data": data, "ops": ops, "feed": counts}

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        res.faults.update(program.get("feed", {}))
        make = lambda: build(cfg)
        sut, twin = make(), make()
        log = []          # rows delivered so far (arrival indices)
        ckpts = []        # (json text, object handed out, position in log)

        def check(what, kind="restart-visible"):
            res.evals += 1
            a, b = observe(sut), observe(twin)
            require_same(a, b, kind, f"{what}, {cfg['name']} {cfg['params']} after {len(log)} rows",
                         make, [feed.row(i) for i in log])
            ta, tb = json.loads(json.dumps(sut.get_state())), json.loads(json.dumps(twin.get_state()))
            d = json_dist(ta, tb)
            if d > 1e-9 and (d == np.inf or d > 100 * max(
                    rounding_spread(make, [feed.row(i) for i in log], x, enough=d / 100) for x in ("location_", "covariance_")) + 1e-9):
                raise Violation("next-checkpoint-differs", f"{what}: distance {d:.3g} {cfg}")

        for op in program["ops"]:
            if op[0] in ("rows", "batch"):
                if not op[1]:
                    continue
                rows = feed.rows(op[1])
                if op[0] == "batch":
                    sut.partial_fit(rows)
                else:
                    for r in rows:
                        sut.partial_fit(r)
                for r in rows:
                    twin.partial_fit(r)
                log += op[1]
                res.ticks += len(rows)
                res.log(op[0], len(rows))
            elif op[0] == "ckpt":
                state = sut.get_state()
                try:
                    text = json.dumps(state)
                except (TypeError, ValueError) as e:
                    raise Violation("not-json", f"get_state() of {cfg['name']}: {e}")
                ckpts.append((text, state, len(log), op[1]))
                res.log("ckpt", op[1])
            elif op[0] == "crash":
                if not ckpts:
                    # nothing durable: start over
                    text, state, pos, how = "null", None, 0, "json"
                    res.probes["crash with nothing durable"] += 1
                else:
                    text, state, pos, how = ckpts[max(0, len(ckpts) - 1 - op[1])]
                receiver = op[2]
                if receiver == "fresh":
                    sut = make()
                elif receiver != "same":
                    sut = make()
                    width = feed.p + 2 if receiver == "used-wide" else feed.p
                    g = np.random.default_rng(7)
                    for _ in range(1 if receiver == "used-level" else 9):
                        sut.partial_fit(g.standard_normal(width) * 50)
                if json.dumps(state) != text:
                    raise Violation("checkpoint-not-stable", f"{cfg['name']}: checkpoint changed after it was taken")
                sut.set_state(json.loads(text) if how == "json" else state)
                res.faults["crash"] += 1
                res.faults["crash:" + receiver] += 1
                if pos < len(log):
                    res.faults["lost-rows"] += len(log) - pos
                if how == "json" and json.loads(text) is None:
                    res.probes["restored an empty checkpoint"] += 1
                res.nontrivial = True
                res.log("crash", receiver, len(log) - pos)
                # the restored instance must be the estimator as of the checkpoint
                past = make()
                for i in log[:pos]:
                    past.partial_fit(feed.row(i))
                require_same(observe(sut), observe(past), "restore-differs",
                             f"right after restoring, {cfg} at row {pos}", make, [feed.row(i) for i in log[:pos]])
                for i in log[pos:]:
                    sut.partial_fit(feed.row(i))
                check("after restart and replay")
                for k, (t, s, q, h) in enumerate(ckpts):
                    if q > pos:  # checkpoints beyond the rollback stay valid
                        continue
            elif op[0] == "read":
                check("while running")
                res.log("read")
        check("at the end")
        # one more row exposes anything carried outside the compared attributes
        for j in range(3):
            row = feed.row(len(log) + 3 * j + 1)
            sut.partial_fit(row)
            twin.partial_fit(row)
            log.append((len(log) + 3 * j + 1) % feed.T)
        check("after further rows")


CHECK = C01()
