"""C15: a concurrent reader always sees the state after some whole row."""
import json

import numpy as np

from sim import gen, sched
from sim.core import Check, Violation, in_fork
from sim.gen import Feed, build
from sim.obs import dist
from checks.c01 import length_for

READS = ["location_", "covariance_", "covariance_", "correlation_", "precision_", "n_samples_", "get_state"]
ALL = ["location_", "covariance_", "correlation_", "precision_", "n_samples_", "get_state"]


def look(est, what):
    """One read; 'unfitted' before the first row."""
    from precise.base import NotFittedError
    try:
        if what == "get_state":
            return json.dumps(est.get_state(), sort_keys=True)
        v = getattr(est, what)
    except NotFittedError:
        return "unfitted"
    except np.linalg.LinAlgError:
        return "linalg-error"
    return np.array(v, dtype=float)


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str) and a.startswith("{") and b.startswith("{"):
            x, y = json.loads(a), json.loads(b)
            from sim.obs import json_dist
            return json_dist(x, y) <= 1e-12
        return isinstance(a, str) and isinstance(b, str) and a == b
    return dist(a, b) <= 1e-12


class C15(Check):
    ID = "C15"
    QUICK_RUNS = 30000
    THOROUGH_RUNS = 1000000
    RULE = ("One run lets one writer thread and one or two reader threads share an estimator under a seeded schedule that can "
            "switch at every function entry, loop, C-call return and operator of the package; every read is matched "
            "against that read of the sequential prefixes. Non-trivial when a switch lands inside the package.")
    ASSUMPTIONS = ["switches inside numpy's own C code and between adjacent byte codes without a call are not simulated"]

    touchy: list = []

    def prepare(self):
        """Find the estimators whose reads leave something behind in the instance: races hide there."""
        def left():
            out = []
            for name in gen.REGISTERED:
                est = build({"name": name, "params": {}})
                for x in Feed({"seed": 5, "p": 4, "kind": "factor", "T": 60, "scale": 1.0}).rows(range(60)):
                    est.partial_fit(x)
                before = repr(vars(est))
                est.covariance_, est.correlation_, est.precision_, est.location_
                if repr(vars(est)) != before:
                    out.append(name)
            return out
        try:
            self.touchy = in_fork(left)
        except Exception:  # the runs themselves will tell
            self.touchy = []

    def generate(self, rng, tier):
        data = gen.gen_data(rng, p=rng.choice([1, 2, 2, 3, 4, 5]))
        names = self.touchy if rng.random() < 0.25 else None
        cfg = gen.gen_cfg(rng, names or None, data["p"], diff=rng.random() < 0.3)
        n = max(2, min(length_for(rng, cfg), 40))
        data["T"] = n + 4
        before = rng.choice([0, 0, 1, rng.randint(0, n - 1), n - rng.randint(1, min(n, 8))])
        before = max(0, before)
        readers = rng.choice([1, 1, 2, 2, 3])
        rest, batches, i = n - before, [], before
        while i < n:
            k = rng.choice([1, 1, 1, 2, 3])
            batches.append([rng.choice(["rows", "batch"]), list(range(i, min(n, i + k)))])
            i += k
        scripts = [[rng.choice(READS) for _ in range(rng.randint(1, 12))] for _ in range(readers)]
        return {"cfg": cfg, "data": data, "before": before, "ops": batches, "reads": scripts, "first": rng.randrange(3),
                "switches": sched.gen_switches(rng, readers + 1),
                "parks": sched.gen_parks(rng, readers + 1, 8)}

    def shrink_paths(self, program):
        return [("ops",), ("switches",), ("parks",)] + [("reads", i) for i in range(len(program["reads"]))]

    def simplify(self, program):
        yield from super().simplify(program)
        for i, s in enumerate(program["switches"]):
            for gap in (1, s[0] // 2, s[0] - 1):
                if 1 <= gap < s[0]:
                    yield dict(program, switches=program["switches"][:i] + [[gap, s[1]]] + program["switches"][i + 1:])

    def execute(self, program, res):
        cfg, feed = program["cfg"], Feed(program["data"])
        log = list(range(program["before"]))
        rows = [i for op in program["ops"] for i in op[1]]
        # every read of every prefix, sequentially
        want = [{}]
        twin = build(cfg)
        for i in log:
            twin.partial_fit(feed.row(i))
        wanted = sorted({w for s in program["reads"] for w in s})
        want = [{w: look(twin, w) for w in wanted}]
        for i in rows:
            twin.partial_fit(feed.row(i))
            want.append({w: look(twin, w) for w in wanted})
        end = {w: look(twin, w) for w in ALL}

        est = build(cfg)
        for i in log:
            est.partial_fit(feed.row(i))
        acked, started = [0], [0]
        got = [[] for _ in program["reads"]]

        def writer(s):
            for kind, idx in program["ops"]:
                parts = [idx] if kind == "batch" else [[i] for i in idx]
                for part in parts:
                    s.point("deliver")
                    started[0] += len(part)
                    est.partial_fit(feed.rows(part) if kind == "batch" else feed.row(part[0]))
                    acked[0] += len(part)

        def reader(j):
            def go(s):
                for w in program["reads"][j]:
                    s.point("read")
                    lo = acked[0]
                    v = look(est, w)
                    got[j].append((w, v, lo, started[0]))
            return go

        sched.setup()
        s = sched.Scheduler(program["switches"], program["parks"])
        tasks = [writer] + [reader(j) for j in range(len(program["reads"]))]
        k = program["first"] % len(tasks)
        for t in tasks[k:] + tasks[:k]:
            s.spawn(t)
        s.run()
        res.ticks += len(log) + len(rows)
        inside = [t for t in s.trace if t[1]]
        res.faults["preemption"] += len(s.trace)
        res.probes["preempted inside the package"] += len(inside)
        res.nontrivial = bool(inside)
        res.log(cfg["name"], s.trace)
        for j, reads in enumerate(got):
            floor = 0
            for w, v, lo, hi in reads:
                res.evals += 1
                fits = [k for k in range(max(lo, floor), hi + 1) if same(v, want[k][w])]
                if not fits:
                    early = [k for k in range(len(want)) if same(v, want[k][w])]
                    what = (f"the state after {early} rows" if early else "no state after whole rows")
                    raise Violation("torn-read" if not early else "stale-read",
                                    f"{w} returned {v if isinstance(v, str) else v.tolist()}, {what}; rows {max(lo, floor)}..{hi} were "
                                    f"possible, {cfg}")
                floor = fits[0]
                if 0 < floor < hi:
                    res.probes["read overlapped an update"] += 1
        final = {w: look(est, w) for w in ALL}
        for w in ALL:
            if not same(final[w], end[w]):
                raise Violation("writer-disturbed", f"{w} at the end is {final[w]} instead of {end[w]}, {cfg}")


CHECK = C15()
