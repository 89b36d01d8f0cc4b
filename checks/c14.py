"""C14: separately created instances are isolated from each other under any interleaving."""
import copy
import re

import numpy as np

from sim import gen, keyedgen, sched
from sim.core import Check, Violation, in_fork
from sim.obs import dist

KINDS = ["direct", "direct", "clone", "clone", "deepcopy", "ckpt", "fixed", "fixed", "dynamic", "dynamic", "cond", "cond",
         "class"]
EST_READS = ["location_", "covariance_", "correlation_", "precision_", "n_samples_", "get_state", "get_params", "repr",
             "score", "mahalanobis"]
KEYED_READS = ["cov_array", "get_corr", "covariance_", "correlation_"]
EXPECTED = (ValueError, TypeError, AttributeError, NotImplementedError, np.linalg.LinAlgError)
NAMES = keyedgen.NAMES


def plain(v):
    """A picklable, comparable copy of a result."""
    if isinstance(v, np.ndarray):
        return np.array(v, dtype=float)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, (bool, int, float)):
        return v
    return re.sub(r" at 0x[0-9a-f]+", "", v if isinstance(v, str) else repr(v))


def away(a, b):
    """Distance of two plain results."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return np.inf
        return max([away(a[k], b[k]) for k in a] or [0.0])
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return np.inf
        if a and all(isinstance(x, (int, float)) for x in a + b):
            return dist(np.array(a, dtype=float), np.array(b, dtype=float))
        return max([away(x, y) for x, y in zip(a, b)] or [0.0])
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return dist(a, b) if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) else np.inf
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return dist(np.array(float(a)), np.array(float(b)))
    return 0.0 if type(a) is type(b) and a == b else np.inf


def part_set(part, params):
    part.set_params(**{k: v for k, v in params.items() if k in part.get_params()})
    return repr(part)


def some_params(rng):
    """Values for a few parameters; an object takes those it has."""
    every = {"r": rng.choice([0.5, 0.1, 0.9]), "n_blocks": rng.choice([1, 2, 3]), "gamma": round(rng.random(), 3),
             "delta": round(rng.random(), 3), "target": rng.choice(["identity", "constant_correlation"]), "c": rng.choice([1.0, 3.0]),
             "max_r": rng.choice([0.3, 0.9]), "vol_r": rng.choice([0.1, 0.5]), "k": rng.choice([1, 2]),
             "interpolation": rng.choice(["linear", "geodesic"]), "diff": rng.random() < 0.5}
    return {k: every[k] for k in rng.sample(sorted(every), rng.choice([1, 3, 6, len(every)]))}


class World:
    """What the tasks share: prototypes, checkpoints and the array of observations."""

    def __init__(self, program, states, task=None):
        self.program = program
        self.X = np.array(gen.Feed(program["data"]).rows(range(program["data"]["T"])))
        self.X0 = self.X.copy()
        # a task on its own lives in a world where nothing else was ever constructed
        n = len(program["protos"])
        if task is None:
            used = set(range(n))
        elif task["kind"] == "cond":
            used = {task["other"] % n} | (set() if task["skater"] else {task["proto"] % n})
        else:
            used = set() if task["kind"] in ("direct", "ckpt", "default") else {task["proto"] % n}
        self.protos = [gen.build(c) if i in used else None for i, c in enumerate(program["protos"])]
        self.ckpts = [(c["cfg"], s) for c, s in zip(program["ckpts"], states)]
        self.given = copy.deepcopy(states)
        self.skaters = {}

    def make(self, t):
        import precise
        kind, spec = t["kind"], t
        proto = self.protos[t["proto"] % len(self.protos)]
        if kind == "direct":
            return gen.build(spec["cfg"])
        if kind == "default":
            return precise.ConditionalCovariance()
        if kind == "clone":
            return type(proto)(**proto.get_params())
        if kind == "deepcopy":
            return copy.deepcopy(proto)
        if kind == "ckpt":
            cfg, state = self.ckpts[t["ckpt"] % len(self.ckpts)]
            return gen.build(cfg).set_state(state)
        if kind == "fixed":
            return precise.FixedUniverse(proto, **spec["fixed"])
        if kind == "dynamic":
            return precise.DynamicUniverse(proto, **spec["dynamic"])
        if kind == "class":
            cls = precise.FixedUniverse if t["proto"] % 2 else precise.DynamicUniverse
            return cls(type(proto), **proto.get_params())
        other = self.protos[t["other"] % len(self.protos)]
        if spec["skater"]:
            f = self.skaters.setdefault(spec["skater"], precise.from_skater(gen.skater(spec["skater"])))
            return precise.ConditionalCovariance(vol=f, corr=other)
        return precise.ConditionalCovariance(vol=proto, corr=other)

    def run(self, t, s=None):
        """The task's script; returns everything it observed."""
        seen = []

        def at(label):
            if s is not None:
                s.point(label)

        def tell(fn):
            try:
                seen.append(plain(fn()))
            except EXPECTED as e:
                seen.append("raised " + type(e).__name__)

        at("create")
        obj = self.make(t)
        keyed = hasattr(obj, "cov_array")
        for op in t["ops"]:
            at(op[0])
            if op[0] == "rows":
                for i in op[1]:
                    x = self.X[i % len(self.X)]
                    if keyed:
                        drop = (i * 7 + t["salt"]) % 5
                        tick = {NAMES[j]: float(v) for j, v in enumerate(x) if j != drop or len(x) == 1}
                        tell(lambda: obj.update(tick) and None)
                    else:
                        tell(lambda: obj.partial_fit(x) and None)
            elif op[0] == "batch" and not keyed:
                tell(lambda: obj.partial_fit(self.X[op[1][0] % len(self.X):][:len(op[1])]) and None)
            elif op[0] == "fit" and not keyed:
                tell(lambda: obj.fit(self.X[:3]) and None)
            elif op[0] == "read":
                if keyed:
                    how = KEYED_READS[op[1] % len(KEYED_READS)]
                    tell(lambda: getattr(obj, how)() if how in ("cov_array", "get_corr") else getattr(obj, how))
                else:
                    how = EST_READS[op[1] % len(EST_READS)]
                    if how in ("score", "mahalanobis"):
                        tell(lambda: getattr(obj, how)(self.X[:4]))
                    elif how == "repr":
                        tell(lambda: repr(obj))
                    elif how in ("get_state", "get_params"):
                        def spoil():
                            d = getattr(obj, how)()
                            out = plain(d)
                            if isinstance(d, dict):
                                d.clear()
                            return out
                        tell(spoil)
                    else:
                        tell(lambda: getattr(obj, how))
            elif op[0] == "set" and not keyed:
                new = {k: v for k, v in op[1].items() if k in obj.get_params()}
                tell(lambda: obj.set_params(**new) and None)
                for part in ("vol", "corr"):  # and those of the models it is composed of
                    if t["kind"] == "default":
                        tell(lambda: part_set(getattr(obj, part), op[1]))
            elif op[0] == "again" and not keyed:
                def again():
                    nonlocal obj
                    new = type(obj)(**obj.get_params())
                    new.set_state(obj.get_state())
                    obj = new
                tell(again)
            elif op[0] == "another":
                tell(lambda: self.make(t) and None)
            elif op[0] == "registry":
                def registry():
                    import precise
                    from precise.assessment import all_assessors
                    lst = precise.all_estimators()
                    names = [c.__name__ for c in lst]
                    lst.clear()
                    a = all_assessors()
                    names += [str(getattr(c, "__name__", type(c).__name__)) for c in a]
                    a.clear()
                    return names
                tell(registry)
        at("end")
        if keyed:
            tell(obj.cov_array)
            tell(lambda: obj.keys if hasattr(obj, "keys") else keyedgen.universes(obj))
        else:
            for a in ("n_samples_", "location_", "covariance_", "correlation_"):
                tell(lambda: getattr(obj, a))
            tell(lambda: obj.get_state())
        return seen

    def check_shared(self):
        for cfg, e in zip(self.program["protos"], self.protos):
            fresh = gen.build(cfg)
            if e.n_samples_ != 0 or e.get_state() is not None:
                raise Violation("prototype-fitted", f"shared prototype {cfg} holds {e.n_samples_} rows")
            if plain(e.get_params()) != plain(fresh.get_params()) or plain(repr(e)) != plain(repr(fresh)):
                raise Violation("prototype-altered", f"{e!r} instead of {fresh!r}")
        for (cfg, s), g in zip(self.ckpts, self.given):
            if away(plain(s), plain(g)) != 0:
                raise Violation("checkpoint-altered", f"shared checkpoint of {cfg} changed: {s} instead of {g}")
        if not np.array_equal(self.X, self.X0):
            raise Violation("data-altered", "the shared observations were modified")


class C14(Check):
    ID = "C14"
    QUICK_RUNS = 4000
    THOROUGH_RUNS = 150000
    RULE = ("One run drives two to four tasks, each with its own estimator, composition or adapter made from shared classes, "
            "prototypes, checkpoints and data, first alone in a pristine process each, then together under a seeded "
            "schedule that can switch at every function entry, loop, C-call return and operator of the package; every "
            "result a task sees must be the same. Non-trivial when a switch lands inside the package.")
    ASSUMPTIONS = ["switches inside numpy's own C code and between adjacent byte codes without a call are not simulated"]

    def generate(self, rng, tier):
        data = gen.gen_data(rng, p=rng.choice([1, 2, 3, 3, 4, 5]), T=30)
        p = data["p"]
        setty = rng.random() < 0.2  # everybody changes parameters
        defaults = rng.random() < 0.08  # most of them made of what comes by default
        setty |= defaults
        family = [rng.choice(gen.REGISTERED)] if setty or rng.random() < 0.5 else None  # often all of one class
        protos = [gen.gen_cfg(rng, family, p, diff=rng.random() < 0.2) for _ in range(rng.choice([1, 1, 2]))]
        late = rng.random() < 0.4  # everybody past the burn-in window
        ckpts = [{"cfg": gen.gen_cfg(rng, family, p, diff=rng.random() < 0.3), "n": rng.randint(2, 12)}]
        if late:
            ckpts[0]["n"] = rng.randint(8, 25)
            for c in protos + [ckpts[0]["cfg"]]:
                if "r" in c["params"]:
                    c["params"]["r"] = rng.choice([0.2, 0.25, 0.35, 0.5])
        tasks = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops, i = [], rng.choice([0, 0, rng.randrange(20)])
            for _ in range(rng.randint(2, 10)):
                u = 0.82 if setty and rng.random() < 0.4 else rng.random()
                k = rng.choice([1, 1, 2, 4])
                if u < 0.5:
                    ops.append([rng.choice(["rows", "rows", "batch"]), list(range(i, i + k))])
                    i += k
                elif u < 0.8:
                    ops.append(["read", rng.randrange(10)])
                elif u < 0.84:  # whatever parameters the object has of these
                    ops.append(["set", some_params(rng)])
                elif u < 0.88:
                    ops.append(["again"])
                elif u < 0.92:
                    ops.append(["another"])
                elif u < 0.95:
                    ops.append(["fit"])
                else:
                    ops.append(["registry"])
            if late and rng.random() < 0.6:
                ops.insert(0, ["rows", list(range(8))])
            kind = rng.choice(["direct", "clone", "ckpt"] if setty else KINDS + ["ckpt"] * (4 if late else 0))
            if rng.random() < (0.7 if defaults else 0.02):
                kind = "default"
            tasks.append({"kind": kind, "proto": rng.randrange(2), "other": rng.randrange(2), "ckpt": 0,
                          "cfg": gen.gen_cfg(rng, family, p), "salt": rng.randrange(5),
                          "skater": rng.choice(["", "", *gen.SKATERS]),
                          "fixed": {"impute": rng.choice(["ffill", "mean", "zero"])},
                          "dynamic": {"max_universes": rng.choice([1, 2, 10]), "max_staleness": rng.choice([1, 5, 50])},
                          "ops": ops})
        parks = sched.gen_parks(rng, len(tasks), 6)
        if late:
            parks += [[rng.randrange(len(tasks)), 1 + rng.randrange(5), rng.randint(1, 40), rng.choice([1, 1, 2])]
                      for _ in range(rng.randint(3, 8))]
        return {"data": data, "protos": protos, "ckpts": ckpts, "tasks": tasks,
                "switches": [] if late and rng.random() < 0.5 else sched.gen_switches(rng, len(tasks)), "parks": parks}

    def shrink_paths(self, program):
        return ([("tasks",), ("switches",), ("parks",)] + [("tasks", i, "ops") for i in range(len(program["tasks"]))])

    def prepare(self):
        import precise  # noqa: F401
        import precise.assessment  # noqa: F401
        sched.codes()

    def execute(self, program, res):
        tasks = program["tasks"]
        if not tasks or not program["protos"]:
            return

        def checkpoint(c):
            e = gen.build(c["cfg"])
            e.partial_fit(np.array(gen.Feed(program["data"]).rows(range(c["n"]))))
            return e.get_state()

        wanted = any(t["kind"] == "ckpt" for t in tasks)
        states = [in_fork(checkpoint, c) for c in program["ckpts"]] if wanted else []

        def alone(i):
            return World(program, states, tasks[i]).run(tasks[i])

        def together():
            w = World(program, states)
            got = [None] * len(tasks)
            sched.setup()
            s = sched.Scheduler(program["switches"], program["parks"])

            def body(i):
                def go(s_):
                    got[i] = w.run(tasks[i], s_)
                return go
            for i in range(len(tasks)):
                s.spawn(body(i))
            s.run()
            w.check_shared()
            return got, s.trace

        got, trace = in_fork(together)
        inside = [t for t in trace if t[1]]
        res.faults["preemption"] += len(trace)
        res.probes["preempted inside the package"] += len(inside)
        res.nontrivial = bool(inside)
        res.log([t["kind"] for t in tasks], program["protos"], trace)
        for i, t in enumerate(tasks):
            want = in_fork(alone, i)
            res.ticks += sum(len(op[1]) for op in t["ops"] if op[0] in ("rows", "batch"))
            res.evals += len(want)
            if len(want) != len(got[i]):
                raise Violation("interference", f"task {i} ({t['kind']}) saw {len(got[i])} results, {len(want)} alone")
            for k, (a, b) in enumerate(zip(got[i], want)):
                if not away(a, b) <= 1e-9:
                    raise Violation("interference", f"task {i} ({t['kind']}) saw {a} as its result {k}, alone {b}")


CHECK = C14()
