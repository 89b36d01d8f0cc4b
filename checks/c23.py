"""C23: judges and the recommender keep no memory between calls."""
import functools
import importlib
import json
import os
import random
import sys

import numpy as np

from sim import core, faults, gen, sched
from sim.core import Check, Violation, in_fork
from sim.obs import dist

JUDGES = ["LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss", "FrobeniusToTruth", "GMVVariance", "VariogramScore"]
EXPECTED = (ValueError, TypeError, LookupError, AttributeError, ArithmeticError, AssertionError, np.linalg.LinAlgError)


def params(rng, name):
    if rng.random() < 0.3:
        return {}
    if name == "BlockPseudoLikelihood":
        return {"block_size": rng.choice([1, 2, 3, 10])}
    if name == "SchurLikelihood":
        return {"gamma": rng.choice([0.0, 0.25, 0.5, 0.5, 1.0]), "n_blocks": rng.choice([1, 2, 2, 3, 4]),
                "interpolation": rng.choice(["linear", "linear", "geodesic"])}
    return {}


@functools.lru_cache(maxsize=512)
def _content(kind, p, n, seed):
    g = np.random.default_rng(seed)
    X = g.standard_normal((n, p)) * g.uniform(0.5, 2.0, p)
    style = seed % 5
    if style == 1:
        X = X + g.standard_normal((n, 1)) * 1.5
    elif style == 2:
        X = X * g.standard_t(3, (n, 1))
    elif style == 3:
        X = X * 0.01
    if kind == "X":
        out = X
    else:
        A = g.standard_normal((2 * p + 3, p)) * g.uniform(0.5, 2.0, p)
        out = A.T @ A / len(A) + 0.05 * np.eye(p)
        if style == 3:
            out = out * 1e-4
    return out


def content(c):
    return _content(c["kind"], c["p"], c["n"], c["seed"]).copy()


def array_for(c):
    """The argument object for a content: layout as asked for."""
    A = content(c)
    if c["layout"] == "F":
        return np.asfortranarray(A)
    if c["layout"] == "view":
        big = np.full((2 * A.shape[0], 2 * A.shape[1]), 7.25)
        big[::2, ::2] = A
        return big[::2, ::2]
    if c["layout"] == "list":
        return A.tolist()
    return A


def refill(obj, c):
    """Overwrite the argument object in place with other contents (a reused buffer)."""
    A = content(c)
    if isinstance(obj, list):
        for i, row in enumerate(A.tolist()):
            obj[i][:] = row
    else:
        flag = obj.flags.writeable
        if not flag:
            obj.setflags(write=True)
        obj[...] = A
        if not flag:
            obj.setflags(write=False)


def plain(v):
    if isinstance(v, dict):
        return {str(k): float(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [x if isinstance(x, str) else getattr(x, "__name__", repr(x)) for x in v]
    return float(v)


def away(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return dist(np.array(a), np.array(b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return max([away(a[k], b[k]) for k in a] or [0.0])
    return 0.0 if type(a) is type(b) and a == b else np.inf


def judge_of(name, kw, how="class"):
    import precise.assessment as pa
    if how == "registry" and not kw:
        return pa.assessor_from_name(name)
    if how == "list" and not kw:
        return [a for a in pa.all_assessors() if a.name == name][0]
    return getattr(pa, name)(**kw)


def perform(c, args, judge=None):
    """One call; returns (comparable result, the object handed out)."""
    from precise import recommend
    try:
        if c["what"] == "suggest":
            r = recommend.suggest(args["X"], top=c["top"]) if c["top"] is not None else recommend.suggest(args["X"])
        elif c["what"] == "features":
            r = recommend.covariance_features(args["X"])
        else:
            j = judge if judge is not None else judge_of(c["what"], c["kw"], c["how"])
            kw = {"X_test": args["X"]}
            if c["truth"] is not None:
                kw["true_cov"] = args["truth"]
            r = j.score(args["cov"], **kw)
        return plain(r), r
    except EXPECTED as e:
        return "raised " + type(e).__name__, None


def drop_model():
    """The trained model is absent: the package is imported again without it."""
    import precise
    name = "precise._recommender_model"
    sys.modules[name] = None
    precise.__dict__.pop("_recommender_model", None)
    importlib.reload(sys.modules["precise.recommend"])
    precise.suggest = sys.modules["precise.recommend"].suggest
    precise.covariance_features = sys.modules["precise.recommend"].covariance_features


def outside():
    """Process state that is none of a judge's business."""
    s = np.random.get_state()
    return random.getstate(), s[0], s[1].tolist(), s[2:], np.geterr(), dict(os.environ)


class C23(Check):
    ID = "C23"
    QUICK_RUNS = 700
    THOROUGH_RUNS = 60000
    SLICE = 10
    RULE = ("One run makes a history of judge and recommender calls (reused and overwritten buffers, shared judge objects, calls that "
            "fail, calls interrupted at an instant inside the package, results spoiled by the caller), then up to three threads "
            "make more calls under a seeded schedule, in one process; every result is compared with that of the same call "
            "alone in a pristine process. Non-trivial when a switch or a fault landed inside the package.")
    ASSUMPTIONS = ["switches inside numpy's own C code and between adjacent byte codes without a call are not simulated"]

    def gen_call(self, rng, covs, xs):
        what = rng.choice(JUDGES + ["SchurLikelihood", "BlockPseudoLikelihood", "suggest", "suggest", "suggest", "features", "features"])
        return {"what": what, "kw": params(rng, what), "how": rng.choice(["class", "registry", "list"]),
                "cov": rng.choice(covs), "X": rng.choice(xs), "truth": None if rng.random() < 0.2 and what != "FrobeniusToTruth" else rng.choice(covs),
                "top": rng.choice([None, 0, 1, 2, 3, 5, 17, 40]), "spoil": rng.random() < 0.3}

    def generate(self, rng, tier):
        p = rng.choice([2, 3, 3, 4, 5, 6])
        n = rng.choice([3, 5, 8, 20])
        bufs = []
        for kind, k in (("cov", rng.randint(1, 3)), ("X", rng.randint(1, 3))):
            for _ in range(k):
                bufs.append({"kind": kind, "p": p, "n": n, "seed": rng.randrange(40), "layout": rng.choice(["C", "C", "C", "F", "view", "list"]),
                             "readonly": rng.random() < 0.3, "owner": rng.choice([None, None, 0, 1, 2])})
        if rng.random() < 0.3:  # one that does not fit the others
            bufs.append({"kind": rng.choice(["cov", "X"]), "p": p + 1, "n": n, "seed": rng.randrange(40), "layout": "C",
                         "readonly": False, "owner": None})
        for kind in ("cov", "X"):
            first = next(b for b in bufs if b["kind"] == kind)
            first["owner"] = None
        pool = [[name, params(rng, name)] for name in (rng.choice(JUDGES) for _ in range(rng.randint(1, 3)))]

        def ops(task, k):
            mine = [i for i, b in enumerate(bufs) if b["owner"] in (None, task) or task is None]
            covs = [i for i in mine if bufs[i]["kind"] == "cov"]
            xs = [i for i in mine if bufs[i]["kind"] == "X"]
            own = [i for i in mine if task is None or bufs[i]["owner"] == task]
            out = []
            for _ in range(k):
                u = rng.random()
                if u < 0.2 and own:
                    out.append(["fill", rng.choice(own), rng.randrange(40)])
                elif u < 0.4 and task is None:
                    out.append(["cut", self.gen_call(rng, covs, xs), rng.choice(faults.FAMILIES), rng.random()])
                elif u < 0.55:
                    c = self.gen_call(rng, covs, xs)
                    j = rng.randrange(len(pool))
                    out.append(["shared", dict(c, what=pool[j][0], kw=pool[j][1]), j])
                else:
                    out.append(["call", self.gen_call(rng, covs, xs)])
            return out

        n_tasks = rng.choice([0, 2, 2, 3])
        return {"bufs": bufs, "pool": pool, "model": rng.random() < 0.75, "ops": ops(None, rng.randint(1, 8)),
                "tasks": [ops(t, rng.randint(1, 5)) for t in range(n_tasks)],
                "after": ops(None, rng.randint(0, 3)), "switches": sched.gen_switches(rng, max(2, n_tasks)),
                "parks": sched.gen_parks(rng, max(2, n_tasks), 4)}

    def prepare(self):
        import precise  # noqa: F401
        import precise.assessment  # noqa: F401
        sched.codes()
        faults.setup()

    def shrink_paths(self, program):
        return [("ops",), ("after",), ("switches",), ("parks",), ("tasks",)] + [("tasks", i) for i in range(len(program["tasks"]))]

    def execute(self, program, res):
        out = in_fork(self.history, program)
        probes, log, calls = out["probes"], out["log"], out["calls"]
        for k, v in out["faults"].items():
            res.faults[k] += v
        for k, v in probes.items():
            res.probes[k] += v
        res.nontrivial = bool(out["inside"])
        res.log(program["model"], log)
        base = {}
        for c, bufs, got, when in calls:
            key = json.dumps([c["what"], c["kw"], c["top"] if c["what"] == "suggest" else 0, c["truth"] is None, bufs], sort_keys=True)
            if key not in base:
                base[key] = in_fork(self.pristine, program["model"], c, bufs)
            res.ticks += 1
            res.evals += 1
            if away(got, base[key]) > 1e-9:
                raise Violation("memory", f"{c['what']}{c['kw'] or ''} gave {got} {when}, {base[key]} in a fresh process "
                                          f"({'with' if program['model'] else 'without'} the trained model)")

    @staticmethod
    def pristine(model, c, bufs):
        if not model:
            drop_model()
        return perform(c, {k: array_for(b) for k, b in bufs.items()})[0]

    def history(self, program):
        """The whole history in one process; returns what was called and what came back."""
        import precise
        if not program["model"]:
            drop_model()
        registered = [c.__name__ for c in precise.all_estimators()]
        now = [dict(b) for b in program["bufs"]]
        objs = []
        for b in now:
            a = array_for(b)
            if isinstance(a, np.ndarray) and b["readonly"]:
                a.setflags(write=False)
            objs.append(a)
        pool = [judge_of(name, kw) for name, kw in program["pool"]]
        np.seterr(all="warn")
        before = outside()
        out = {"calls": [], "faults": {}, "probes": {}, "log": [], "inside": 0}

        def hit(kind, where="faults"):
            out[where][kind] = out[where].get(kind, 0) + 1

        def args_of(c):
            used = {"X": c["X"]}
            if c["what"] not in ("suggest", "features"):
                used["cov"] = c["cov"]
                if c["truth"] is not None:
                    used["truth"] = c["truth"]
            return used

        def intact(when):
            for i, b in enumerate(now):
                if not np.array_equal(np.asarray(objs[i], dtype=float), content(b)):
                    raise Violation("argument-modified", f"an argument was modified {when}")

        def call(c, when, judge=None, alone=True):
            used = args_of(c)
            got, r = perform(c, {k: objs[i] for k, i in used.items()}, judge)
            shape = {k: {x: now[i][x] for x in ("kind", "p", "n", "seed", "layout")} for k, i in used.items()}
            out["calls"].append((c, shape, got, when))
            if isinstance(got, str):
                hit("call that fails")
            if alone:
                intact(f"by {c['what']} {when}")
            if c["what"] == "suggest" and not isinstance(got, str):
                top = 3 if c["top"] is None else c["top"]
                if len(got) != min(top, len(registered)) or len(set(got)) != len(got) or not set(got) <= set(registered):
                    raise Violation("suggestion", f"suggest(top={top}) gave {got}")
                if not all(k in precise.all_estimators() for k in r):
                    raise Violation("suggestion", f"suggest gave {r}, not the registered classes")
            if isinstance(r, np.ndarray) or (isinstance(r, list) and any(r is o for o in objs)):
                raise Violation("argument-returned", f"{c['what']} handed out {type(r)}")
            if c["spoil"] and r is not None and not isinstance(got, (str, float)):
                hit("result spoiled by the caller")
                r.clear()
                precise.all_estimators().clear()
                for a in precise.assessment.all_assessors():
                    a.__dict__.update({k: 0 for k in a.__dict__})

        def step(op, when, alone=True):
            if op[0] == "fill":
                now[op[1]]["seed"] = op[2]
                refill(objs[op[1]], now[op[1]])
                hit("buffer overwritten")
            elif op[0] == "call":
                call(op[1], when, alone=alone)
            elif op[0] == "shared":
                call(op[1], when + " with a shared judge", pool[op[2]], alone)
            elif op[0] == "cut":
                c, fam, frac = op[1:]
                args = {k: objs[i] for k, i in args_of(c).items()}
                count, _, _ = faults.run(lambda: perform(c, args), fam, -1)
                if not count:
                    return
                _, where, err = faults.run(lambda: self.unguarded(c, args), fam, int(frac * count))
                if where is not None:
                    hit(f"interrupted call ({fam})")
                    out["inside"] += 1
                    out["log"].append(where)
                    intact(f"by an interrupted {c['what']} ({where})")

        for i, op in enumerate(program["ops"]):
            out["log"].append([op[0], op[1]["what"] if isinstance(op[1], dict) else 0])
            step(op, f"as call {i}")
        if program["tasks"]:
            faults_on = sched.setup
            faults_on() if program["model"] else sched.setup([os.path.join(core.REPO, "precise") + os.sep])
            s = sched.Scheduler(program["switches"], program["parks"])
            for t, script in enumerate(program["tasks"]):
                def go(s, script=script, t=t):
                    for op in script:
                        s.point("op")
                        step(op, f"in thread {t}", alone=False)
                s.spawn(go)
            s.run()
            intact("by concurrent calls")
            inside = [x for x in s.trace if x[1]]
            out["faults"]["preemption"] = len(s.trace)
            out["probes"]["preempted inside the package"] = len(inside)
            out["inside"] += len(inside)
            out["log"].append([list(x) for x in s.trace])
        for i, op in enumerate(program["after"]):
            step(op, f"as call {i} after all threads")
        if repr(outside()) != repr(before):
            raise Violation("global-state", "the calls changed random or numpy state of the process")
        return out

    @staticmethod
    def unguarded(c, args):
        """A call whose injected fault must come out; errors of its own do not matter here."""
        try:
            perform(c, args)
        except (faults.Injected, faults.InjectedMemory, faults.InjectedLinAlg):
            raise


CHECK = C23()
