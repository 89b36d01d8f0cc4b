"""C21: a seeded experiment is a pure function of its seed."""
import json
import os
import pickle
import random
import subprocess
import sys
import time

import numpy as np

from sim import core, sched
from sim.core import Check, Violation, in_fork
from sim.obs import dist

THEORY = ["power", "projections", "high-dim", "schur-power", "pseudo", "pseudo-clean", "godambe", "draws", "structured", "spiked",
          "gamma-star"]
ENTRIES = (["scenarios", "scenarios", "scenarios", "bakeoff", "loeo", "loeo", "lofo", "training", "training", "theory", "theory",
            "theory"])


def spoil(v):
    """The caller does what it likes with a result of its own."""
    if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
        v *= -7.0
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v.clear()
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v.clear()


def taken(v):
    out = plain(v)
    spoil(v)
    return out


def plain(v):
    if isinstance(v, np.ndarray):
        return np.array(v, dtype=float) if v.dtype.kind in "fiub" else [str(x) for x in v.ravel()]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (np.floating, np.integer)):
        return float(v)
    return v


def away(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return dist(a, b) if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) else np.inf
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return np.inf
        return max([away(a[k], b[k]) for k in a] or [0.0])
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return np.inf
        return max([away(x, y) for x, y in zip(a, b)] or [0.0])
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return dist(np.array(float(a)), np.array(float(b)))
    return 0.0 if a == b else np.inf


def theory(which, c, seed):
    """The seeded Monte-Carlo experiments behind the papers, at small sizes."""
    from research import metric_power, schur_gamma_star, schur_godambe, schur_spiked
    p, n, t = 4 + 2 * (c["p"] % 3), c["m"] + 2, c["trials"] + 2
    idx = np.arange(p)
    truth = 0.6 ** np.abs(idx[:, None] - idx[None, :])
    sizes = [2, p - 2]
    if which == "power":
        return metric_power.run(p=p, n_grid=(n, 2 * n), trials=t, n_dirs=4, min_gap=0.0, seed=seed)
    if which == "projections":
        return metric_power.projection_power(p=p, k_list=(1, 2, None), total_dirs=8, n_test=n, trials=t, min_gap=0.0, seed=seed)
    if which == "high-dim":
        return metric_power.proof_high_dim(p=p + 4, bulk=4, k_list=(2, None), n_test=n, trials=t, seed=seed)
    if which == "schur-power":
        return metric_power.schur_power(p=2 * p, g=2, gammas=(0.0, 0.5, 1.0), n_test=n, trials=t, seed=seed)
    if which == "pseudo":
        return metric_power.pseudo_likelihood_power(block_sizes=(2, None), p=p + 4, bulk=4, n_test=n, trials=t, seed=seed)
    if which == "pseudo-clean":
        return metric_power.pseudo_likelihood_power(regime="clean", block_sizes=(2, None), p=p + 4, bulk=4, n_test=n, trials=t, seed=seed)
    if which == "godambe":
        return schur_godambe.snr_montecarlo(truth * 1.1, truth + np.eye(p), truth, sizes, 0.5, n=50 * n, seed=seed)
    if which == "draws":
        return schur_godambe.discrimination_power_over_draws(8, 12, (0.3, 1.0), n_draws=t + 2, seed=seed)
    if which == "structured":
        return schur_godambe.structured_power_over_draws(p=2 * p, g=2, gammas=(1.0, 0.5), n_test=n, trials=t, seed=seed)
    if which == "spiked":
        return schur_spiked.snr_montecarlo(p, 3 * p, sizes, 0.5, 0.5, 0.05, truth, n_draws=t + 2, seed=seed)
    return schur_gamma_star.empirical_gamma_star(0.4, 8, n_draws=n, seed=seed)


def call(c, seed=None):
    """Run one seeded entry point."""
    from research import bakeoff, oos, train_recommender
    seed = c["seed"] if seed is None else seed
    k = c["entry"]
    if k == "scenarios":
        return taken(bakeoff.build_scenarios(d=c["p"], n=c["n"], n_test=c["m"], seed=seed))
    if k == "bakeoff":
        return taken(bakeoff.run(d=c["p"], n=min(c["n"], 24), n_test=c["m"], seed=seed))
    if k == "training":
        return taken(train_recommender.generate(n_problems=c["problems"], seed=seed))
    if k == "theory":
        return taken(theory(THEORY[c["share"] % len(THEORY)], c, seed))
    full = oos.ENSEMBLES
    oos.ENSEMBLES = {e: full[e] for e in full if sum(map(ord, e)) % c["of"] == c["share"] % c["of"] or e == "equicorr"}
    if len(oos.ENSEMBLES) < 2:
        oos.ENSEMBLES = {e: full[e] for e in list(full)[:2]}
    try:
        if k == "loeo":
            return taken(oos.leave_one_ensemble_out(p=c["p"], n_train=c["n"] // 2 + 2, n_test=c["m"], trials=c["trials"], seed=seed))
        return taken(oos.leave_one_family_out_trained(p=c["p"], n_train=c["n"] // 2 + 2, n_test=c["m"], trials=c["trials"],
                                                      n_problems=c["problems"], seed=seed))
    finally:
        oos.ENSEMBLES = full


def data_of(c, result):
    """The random data a result consists of (None when it only holds ranks)."""
    if c["entry"] == "scenarios":
        return [x for sc in result for x in sc[1:3]]
    if c["entry"] == "training":
        return [result[0]]
    if c["entry"] == "theory":
        which = THEORY[c["share"] % len(THEORY)]
        if which in ("godambe", "spiked"):
            return [np.array(result, dtype=float).ravel()[:1]]
        if which == "draws":
            return [np.array([result[1]])]
        if which in ("power", "projections"):
            return [np.array([result[1]])]
    return None


def global_state():
    s = np.random.get_state()
    return random.getstate(), (s[0], s[1].tolist(), *s[2:])


class _Clock:
    def __init__(self, start, rate):
        self.t, self.rate = start, rate

    def __call__(self):
        self.t += self.rate
        return self.t


def perturb(kind, salt):
    """Change something a seeded experiment must not depend on."""
    g = core.rng_for("perturb", kind, salt)
    if kind == "global numpy state":
        np.random.seed(g.randrange(2**31))
        np.random.rand(g.randrange(1, 50))
    elif kind == "global random state":
        random.seed(g.random())
        random.random()
    elif kind == "clock":
        c = _Clock(g.choice([0.0, 1e9, 4e9]), g.choice([-1.0, 0.0, 1e-9, 3600.0]))
        for name in ("time", "monotonic", "perf_counter", "process_time"):
            setattr(time, name, c)
        time.time_ns = lambda: int(c() * 1e9)
    elif kind == "environment":
        os.environ["USER"] = f"u{g.randrange(1000)}"
        os.environ["TZ"] = "Asia/Tokyo"
        os.chdir("/")
    elif kind == "used generator":
        np.random.default_rng(0).standard_normal(10)
        np.random.default_rng().standard_normal(3)
    elif kind == "memory":
        keep = [bytes(g.randrange(1, 5000)) for _ in range(200)]
        perturb.keep = keep[::3]


PERTURB = ["global numpy state", "global numpy state", "global random state", "clock", "environment", "used generator", "memory"]

CHILD = """
import sys, json, pickle, warnings
warnings.simplefilter("ignore")
sys.path[:0] = {paths!r}
import numpy as np
np.seterr(all="ignore")
from checks.c21 import call
sys.stdout.buffer.write(pickle.dumps(call(json.loads({c!r}))))
"""


def elsewhere(c, hashseed):
    """The same call in a new process with another hash seed."""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    code = CHILD.format(paths=[core.VERIF, core.REPO], c=json.dumps(c))
    out = subprocess.run([sys.executable, "-X", "pycache_prefix=/nonexistent/verif-pycache", "-c", code], env=env, capture_output=True,
                         timeout=300)
    if out.returncode:
        raise Violation("fails-elsewhere", f"{c} in another process: {out.stderr.decode()[-400:]}")
    return pickle.loads(out.stdout)


class C21(Check):
    ID = "C21"
    QUICK_RUNS = 200
    THOROUGH_RUNS = 6000
    SLICE = 3
    RULE = ("One run makes a seeded research call in a pristine process and again in others whose hash seed, global random state, clock, "
            "environment, memory, call history or concurrent company differ, and compares results exactly; it also "
            "checks that the global random state is untouched and that another seed gives other data. Non-trivial when a "
            "perturbation was applied.")
    REAL = "research/bakeoff.py, research/oos.py, research/train_recommender.py, research/metric_power.py and research/schur_*.py (small sizes), the whole package, scikit-learn, randomcov"
    ASSUMPTIONS = ["small problem sizes; leave-one-out runs use a subset of the generative families"]

    def prepare(self):
        import research.bakeoff  # noqa: F401
        import research.oos  # noqa: F401
        import research.metric_power  # noqa: F401
        import research.schur_gamma_star  # noqa: F401
        import research.schur_godambe  # noqa: F401
        import research.schur_spiked  # noqa: F401
        import research.train_recommender  # noqa: F401

    def gen_call(self, rng, cheap=False):
        return {"entry": rng.choice(["scenarios", "scenarios", "loeo", "theory"] if cheap else ENTRIES), "seed": rng.choice([0, 0, 1, 7, rng.randrange(10**6)]),
                "p": rng.choice([3, 4, 5, 7]), "n": rng.choice([6, 12, 20, 40]), "m": rng.choice([3, 10, 20]),
                "trials": rng.choice([1, 1, 2]), "problems": rng.choice([1, 2, 3]), "of": rng.choice([3, 4, 5]), "share": rng.randrange(55)}

    def generate(self, rng, tier):
        ops = []
        for _ in range(rng.randint(1, 3)):
            u = rng.random()
            if u < 0.45:
                ops.append(["perturb", rng.sample(PERTURB, rng.randint(1, 4)), rng.randrange(1000)])
            elif u < 0.65:
                ops.append(["history", [self.gen_call(rng, cheap=True) for _ in range(rng.randint(1, 3))]])
            elif u < 0.75:
                ops.append(["twice"])
            elif u < 0.82:
                ops.append(["elsewhere", rng.randrange(1, 1000)])
            elif u < 0.92:
                ops.append(["company", self.gen_call(rng, cheap=True), sched.gen_switches(rng, 2, mean=rng.choice([40, 300, 2000]))])
            else:
                ops.append(["seed", rng.randrange(1, 1000)])
        return {"call": self.gen_call(rng), "ops": ops}

    def execute(self, program, res):
        c = program["call"]

        def pristine():
            before = global_state()
            out = call(c)
            return out, before == global_state()

        want, untouched = in_fork(pristine)
        res.ticks += 1
        if not untouched:
            raise Violation("global-state", f"{c} changed the global random state")

        def same(got, how):
            res.evals += 1
            d = away(got, want)
            if d > 1e-9:
                raise Violation("not-reproducible", f"{c} gives another result {how} (relative difference {d:.3g})")

        for op in program["ops"]:
            res.nontrivial = True
            if op[0] == "perturb":
                def go():
                    for k in op[1]:
                        perturb(k, op[2])
                    before = global_state()
                    out = call(c)
                    return out, before == global_state()
                got, untouched = in_fork(go)
                for k in op[1]:
                    res.faults[k] += 1
                if not untouched:
                    raise Violation("global-state", f"{c} changed the global random state")
                same(got, f"under another {', '.join(op[1])}")
            elif op[0] == "history":
                def go():
                    for h in op[1]:
                        call(h)
                    return call(c)
                res.faults["earlier calls"] += len(op[1])
                same(in_fork(go), f"after {[h['entry'] for h in op[1]]}")
            elif op[0] == "twice":
                def go():
                    first = call(c)
                    return first, call(c)
                a, b = in_fork(go)
                res.faults["repeated call"] += 1
                same(a, "in a pristine process")
                same(b, "when repeated")
            elif op[0] == "elsewhere":
                res.faults["other process and hash seed"] += 1
                same(elsewhere(c, op[1]), f"in a process with hash seed {op[1]}")
            elif op[0] == "company":
                def go():
                    sched.setup([os.path.join(core.REPO, "research") + os.sep])
                    s = sched.Scheduler(op[2])
                    box = {}

                    def mine(s_):
                        s_.point("call")
                        box["got"] = call(c)

                    def other(s_):
                        s_.point("call")
                        call(op[1])
                    s.spawn(mine)
                    s.spawn(other)
                    s.run()
                    return box["got"], len(s.trace), [t[:2] for t in s.trace]
                if "l" in c["entry"][:1] or "l" in op[1]["entry"][:1]:
                    continue  # the harness narrows the families through a module attribute
                got, n, trace = in_fork(go)
                res.faults["preemption"] += n
                res.log(trace)
                same(got, f"while {op[1]['entry']} runs in another thread")
            elif op[0] == "seed":
                if data_of(c, want) is None:
                    continue
                got = in_fork(lambda: call(c, c["seed"] + op[1]))
                for a, b in zip(data_of(c, want), data_of(c, got)):
                    res.evals += 1
                    if a.shape == b.shape and a.size and np.isclose(a, b, rtol=1e-9, atol=0).any(axis=0).all():
                        raise Violation("seed-ignored", f"{c} draws the same data with seed {c['seed'] + op[1]}")
                res.faults["other seed"] += 1
            res.log(c, op[0])


CHECK = C21()
