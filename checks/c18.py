"""C18: DynamicUniverse stays within its limits and keeps tracking what is live."""
import copy
import itertools
import re

import numpy as np

from sim import gen, keyedgen
from sim.core import Check, Violation
from sim.gen import build
from sim.obs import dist
from checks.c13 import deep_size
from checks.c17 import LABELS, WIDTH, Model, gen_arrivals

SMOOTH = ["EmpiricalCovariance", "EwaCovariance", "DiagonalCovariance", "LedoitWolfCovariance", "ShrunkCovariance",
          "BlockCovariance", "PartialMomentsCovariance", "AdaptiveEwaCovariance", "DCCCovariance", "SchurCovariance"]


def count(adapter):
    """Number of universes held, as the adapter reports it."""
    m = re.search(r"universes=(\d+)", repr(adapter))
    return int(m.group(1)) if m else len(adapter.states)


class C18(Check):
    ID = "C18"
    QUICK_RUNS = 3000
    THOROUGH_RUNS = 100000
    RULE = ("One run lets names churn under small limits (drifting, dropping out, one newcomer per tick, bursts of throw-away names, "
            "malformed ticks) and after every tick checks the number of universes, that what went stale is forgotten, that "
            "every newcomer that keeps arriving is tracked from its first tick, and which universes were given up; then a "
            "name set that stays the same is compared, in answers and memory, with one that never had company. "
            "Non-trivial when a universe was evicted.")
    ASSUMPTIONS = ["ticks name at least one series"]

    def generate(self, rng, tier):
        kw = {"max_universes": rng.choice([1, 1, 2, 2, 3, 4, 6]), "max_staleness": rng.choice([0, 1, 2, 3, 5, 8, 20])}
        cfg = gen.gen_cfg(rng, rng.choice([["EwaCovariance", "EmpiricalCovariance"], SMOOTH]), 3, diff=False)
        pool = list(range(rng.choice([3, 4, 5, 6, 8] * 3 + [12])))
        mode = rng.choice(["drift", "drift", "lossy", "groups", "groups", "parade", "parade", "stable", "wild"])
        n = rng.choice([rng.randint(3, 15), rng.randint(10, 40), rng.randint(30, 80)])
        ops = []
        for t, here in enumerate(gen_arrivals(rng, pool, n, mode)):
            for k in range(rng.choice([1, 1, 1, 2, 3])):
                ops.append(["tick", t * 3 + k, here])
            if rng.random() < 0.04:
                ops.append(["bad", t * 3, here])
            if rng.random() < 0.03:
                ops.append(["copy"])
        tail = [32 + i for i in range(rng.randint(1, 4))]
        return {"spec": {"kind": "dynamic", "est": cfg, "kw": kw, "via": rng.choice(["class", "direct", "keyed"])},
                "seed_values": rng.randrange(10**6), "coarse": rng.choice(keyedgen.COARSE), "ops": ops, "tail": tail,
                "settle": kw["max_staleness"] + 1 + rng.choice([0, 1, 5]), "compare": rng.random() < 0.7}

    def shrink_paths(self, program):
        return [("ops",), ("tail",)] + [("ops", i, 2) for i, op in enumerate(program["ops"]) if op[0] == "tick"]

    def execute(self, program, res):
        spec = program["spec"]
        cfg, kw = spec["est"], spec["kw"]
        limit, patience = kw["max_universes"], kw["max_staleness"]
        V = keyedgen.values(program["seed_values"], 400, WIDTH, program.get("coarse", ""))
        sut = keyedgen.build_adapter(spec)
        models = [Model(cfg, limit, patience)] if program["compare"] else []
        history = []        # key-sets of the ticks absorbed
        since = {}          # name -> (key-set, order, rows) while it only ever arrived in that one key-set
        had = 0

        def tick_of(t, here):
            return {LABELS[j]: float(V[t % len(V)][j]) for j in here}

        def absorb(t, here):
            nonlocal models, had
            tick = tick_of(t, here)
            sut.update(dict(tick))
            names = frozenset(tick)
            history.append(names)
            for k in tick:
                if k not in since:
                    since[k] = [names, list(tick), []]
                elif since[k] is not None and since[k][0] != names:
                    since[k] = None
            for k, s in since.items():
                if s is None:
                    continue
                if k in tick:
                    s[2].append([tick[x] for x in s[1]])
                else:
                    since[k] = None
            models = [s for m in models for s in m.take(tick)]
            if len(models) > 24:
                models = []
                res.probes["too many ties: model given up"] += 1
            res.ticks += 1
            res.log(here)

        def inspect():
            nonlocal models, had
            n = count(sut)
            res.evals += 1
            if n > limit:
                raise Violation("over-limit", f"{n} universes with max_universes={limit} after {len(history)} ticks")
            recent = history[-(patience + 1):]
            alive = sum(any(s <= r for r in recent) for s in set(history))
            if n > alive:
                raise Violation("stale-kept", f"{n} universes, only {alive} key-sets had data in the last {patience + 1} ticks")
            if n < 1:
                raise Violation("not-tracked", "no universe left after a tick")
            if n < len(set(history)):
                res.nontrivial = True
                if n < had:
                    res.faults["universe given up"] += 1
            had = n
            # what stopped arriving is forgotten
            names = sorted(set().union(*history[-40:]))[:6]
            pairs = list(itertools.combinations(names, 2))
            for a, b in pairs[:: max(1, len(pairs) // 4)]:
                if not any(a in r and b in r for r in recent):
                    C = sut.get_cov([a, b])
                    va, vb = (any(x in r for r in recent) for x in (a, b))
                    scale = max(np.abs(C).max(), 1e-300)
                    if np.abs(C[0, 1]) > 1e-9 * scale:
                        raise Violation("stale-answer", f"cov({a},{b}) is {C.tolist()} though they last met more than {patience} "
                                        f"ticks ago, {spec}")
                    for x, v, c in ((a, va, C[0, 0]), (b, vb, C[1, 1])):
                        if not v and c > 1e-9:
                            raise Violation("stale-answer", f"{x} has variance {c} though last seen more than {patience} ticks ago")
                    res.probes["forgotten pair queried"] += 1
            # newcomers that keep arriving are tracked from their first tick
            for k, s in since.items():
                if s is None or frozenset(history[-1]) != s[0]:
                    continue
                twin = build(cfg)
                for y in s[2]:
                    twin.partial_fit(np.array(y))
                want = twin.covariance_
                j = s[1].index(k)
                got = sut.get_cov([k])
                if dist(got, want[j:j + 1, j:j + 1]) > 1e-9 and not (want[j, j] < 1e-300 and abs(got[0, 0]) < 1e-300):
                    raise Violation("not-tracked", f"{k} arrived in the last {len(s[2])} ticks and has variance {got.tolist()} instead of "
                                    f"{want[j, j]}, {spec}")
                if len(s[2]) > 1:
                    res.probes["newcomer followed"] += 1
            # the universes kept are the right ones
            if models:
                fits = []
                asked = [list(p) for p in pairs[:3]] + [list(history[-1])[:4]]
                for names_ in asked:
                    names_ = sorted(names_)
                    got = sut.get_cov(names_)
                    ok = []
                    possible = []
                    for m in models:
                        possible = m.answers(names_)
                        if possible is None or any(np.abs(got - W).max() <= 1e-7 * max(np.abs(W).max(), 1e-300) + 1e-300
                                                   for W in possible):
                            ok.append(m)
                    if not ok:
                        raise Violation("wrong-survivors", f"get_cov({names_}) is {got.tolist()}, the universes that should have "
                                        f"survived give {[w.tolist() for w in possible[:2]]}, {spec}")
                    models = ok

        for op in program["ops"]:
            if op[0] == "tick" and op[2]:
                absorb(op[1], op[2])
                inspect()
            elif op[0] == "bad" and op[2]:
                tick = tick_of(op[1], op[2])
                tick[LABELS[op[2][0]]] = "x"
                try:
                    sut.update(tick)
                except (ValueError, TypeError):
                    res.faults["malformed tick"] += 1
                if history:
                    inspect()
            elif op[0] == "copy":
                sut = copy.deepcopy(sut)
        # from now on one name set only: it owes nothing to the company it had
        tail = [j for j in program["tail"]]
        if not tail or any(LABELS[j] in h for j in tail for h in history):
            return
        lone = keyedgen.build_adapter(spec)
        for t in range(program["settle"]):
            absorb(200 + t, tail)
            lone.update(tick_of(200 + t, tail))
            got, want = sut.cov_array(), lone.cov_array()
            res.evals += 1
            if got[1] != want[1] or dist(got[0], want[0]) > 1e-9:
                raise Violation("company-matters", f"{want[1]} alone gives {want[0].tolist()}, after other names {got[0].tolist()}")
        inspect()
        if count(sut) != 1:
            raise Violation("stale-kept", f"{count(sut)} universes after {program['settle']} ticks of one name set "
                            f"(max_staleness={patience})")
        a, b = deep_size(sut), deep_size(lone)
        if a > b + 600:
            raise Violation("memory", f"{a} bytes after {len(history)} ticks of changing names, {b} without them")


CHECK = C18()
