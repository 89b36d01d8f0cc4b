"""C17: DynamicUniverse answers from the longest-lived, least-stale co-observation."""
import copy
import itertools

import numpy as np

from sim import gen, keyedgen
from sim.core import Check, Violation
from sim.gen import build
from sim.obs import read

WIDTH = 40
LABELS = [f"n{i}" for i in range(WIDTH)]
QUERIES = ["cov_array", "cov_array", "get_cov", "get_cov", "get_corr", "covariance_", "covariance", "correlation_", "to_frame"]


def gen_arrivals(rng, pool, n, mode):
    """Which names arrive in each tick."""
    most = 4 if len(pool) <= 8 else len(pool)
    out, live = [], set(rng.sample(pool, rng.randint(1, min(most, len(pool)))))
    stable = sorted(live)
    groups = [rng.sample(pool, rng.randint(1, min(most, len(pool)))) for _ in range(rng.randint(2, 4))]
    for t in range(n):
        if mode == "drift":
            if rng.random() < 0.35:
                j = rng.choice(pool)
                live ^= {j}
                live = live or {j}
            here = sorted(live)
        elif mode == "lossy":
            here = [j for j in stable if rng.random() < 0.8] or [rng.choice(stable)]
        elif mode == "groups":
            here = groups[t * len(groups) // n] if rng.random() < 0.7 else rng.choice(groups)
            if rng.random() < 0.2:
                here = sorted(set(here) | set(rng.choice(groups)))
        elif mode == "parade":  # one newcomer per tick
            here = stable[:2] + [8 + t % (WIDTH - 8)]
        elif mode == "stable":
            here = stable if rng.random() < 0.9 else rng.sample(pool, rng.randint(1, min(3, len(pool))))
        else:
            here = [j for j in pool if rng.random() < 0.6] or [rng.choice(pool)]
        here = list(dict.fromkeys(here))
        rng.shuffle(here)
        out.append(here[:6 if most == 4 else 12])
    return out


class Track:
    """One tracked key-set of the reference."""

    def __init__(self, cfg, order):
        self.order, self.names = list(order), frozenset(order)
        self.est = build(cfg)
        self.life = self.stale = 0
        self._cov = None

    def take(self, tick):
        self.est.partial_fit(np.array([tick[k] for k in self.order], dtype=float))
        self.life, self.stale, self._cov = self.life + 1, 0, None

    def cov(self):
        if self._cov is None:
            self._cov = read(self.est, "covariance_")
        return self._cov

    def entry(self, a, b):
        return self.cov()[self.order.index(a), self.order.index(b)]

    def usable(self):
        return not isinstance(self.cov(), str)


class Model:
    """The documented multi-universe strategy; where it leaves a choice open, every choice is kept."""

    def __init__(self, cfg, limit, patience):
        self.cfg, self.limit, self.patience = cfg, limit, patience
        self.tracks = []
        self.latest = None

    def take(self, tick):
        """Returns the possible successors of this model."""
        names = frozenset(tick)
        for t in self.tracks:
            if t.names <= names:
                t.take(tick)
            else:
                t.stale += 1
        self.tracks = [t for t in self.tracks if t.stale <= self.patience]
        self.latest = list(tick)
        if any(t.names == names for t in self.tracks):
            return [self]
        new = Track(self.cfg, list(tick))
        new.take(tick)
        if self.tracks and len(self.tracks) >= self.limit:
            worst = max((t.stale, -t.life) for t in self.tracks)
            victims = [i for i, t in enumerate(self.tracks) if (t.stale, -t.life) == worst]
        else:
            victims = [None]
        out = []
        for v in victims:
            m = self if v == victims[-1] else copy.deepcopy(self)
            if v is not None:
                del m.tracks[v]
            m.tracks.append(new if m is self else copy.deepcopy(new))
            out.append(m)
        return out

    def entries(self, a, b):
        """Possible values of a pair ([] when it was never co-observed)."""
        have = [t for t in self.tracks if a in t.names and b in t.names and t.usable()]
        if not have:
            return []
        best = max((t.life, -t.stale) for t in have)
        vals = []
        for t in have:
            if (t.life, -t.stale) == best:
                v = t.entry(a, b)
                if not any(v == w for w in vals):
                    vals.append(v)
        return vals

    def answers(self, names, cap=64):
        """Possible matrices for a query; None when there are too many."""
        n = len(names)
        cells = [(i, j) for i in range(n) for j in range(i, n)]
        opts = [self.entries(names[i], names[j]) or [np.nan] for i, j in cells]
        size = 1
        for o in opts:
            size *= len(o)
        if size > cap:
            return None
        out = []
        for combo in itertools.product(*opts):
            M = np.zeros((n, n))
            for (i, j), v in zip(cells, combo):
                M[i, j] = M[j, i] = v
            off = [M[i, j] for i in range(n) for j in range(n) if i != j and not np.isnan(M[i, j])]
            M[np.isnan(M)] = sum(off) / len(off) if off else 0.0
            w, U = np.linalg.eigh(M)
            out.append((U * np.clip(w, 0.0, None)) @ U.T)
        return out


class C17(Check):
    ID = "C17"
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 100000
    RULE = ("One run lets names arrive and leave (drifting, dropping out, in alternating groups, one newcomer per tick, resent and "
            "late ticks, malformed ones), queries at random instants and compares with an independent multi-universe model "
            "that keeps every choice the rules leave open. Non-trivial when more than one key-set was in play.")
    ASSUMPTIONS = ["ticks name at least one series"]

    def generate(self, rng, tier):
        pool = list(range(rng.choice([2, 3, 4, 5, 6, 8] * 3 + [12, 14])))
        mode = rng.choice(["drift", "drift", "lossy", "lossy", "groups", "groups", "parade", "stable", "wild"])
        n = rng.choice([rng.randint(2, 10), rng.randint(5, 30), rng.randint(20, 60)]) if rng.random() < 0.992 else rng.randint(120, 300)
        cfg = keyedgen.wrapped(rng, 3, diff=0.15)
        kw = {}
        if rng.random() < 0.85:
            kw["max_universes"] = rng.choice([1, 2, 2, 3, 4, 6, 10])
        if rng.random() < 0.85:
            kw["max_staleness"] = rng.choice([0, 1, 2, 3, 5, 10, 50])
        ops = []
        for t, here in enumerate(gen_arrivals(rng, pool, n, mode)):
            at = t if rng.random() < 0.93 else rng.randint(0, t)
            if rng.random() < 0.04:
                ops.append(["bad", at, here])
            ops.append(["tick", at, here, rng.choice(["update", "update", "learn_one", "learn_many"])])
            if rng.random() < 0.05:
                ops.append(["tick", at, here[::-1], "update"])
            for _ in range(rng.choice([0, 0, 1, 1, 2]) if n < 120 or rng.random() < 0.15 else 0):
                sub = None
                if rng.random() < 0.6:
                    k = rng.randint(1, min(5 if rng.random() < 0.9 else 12, len(pool)))
                    sub = rng.sample(pool, k)
                    if rng.random() < 0.1:
                        sub.append(39)  # never seen
                ops.append(["query", rng.choice(QUERIES), sub])
            if rng.random() < 0.03:
                ops.append(["copy"])
        return {"spec": {"kind": "dynamic", "est": cfg, "kw": kw, "via": rng.choice(["class", "direct", "keyed"])},
                "seed_values": rng.randrange(10**6), "coarse": rng.choice(keyedgen.COARSE), "ops": ops}

    def shrink_paths(self, program):
        return [("ops",)] + [("ops", i, 2) for i, op in enumerate(program["ops"]) if op[0] == "tick"]

    def execute(self, program, res):
        spec = program["spec"]
        cfg, kw = spec["est"], spec["kw"]
        V = keyedgen.values(program["seed_values"], 60, WIDTH, program.get("coarse", ""))
        sut = keyedgen.build_adapter(spec)
        models = [Model(cfg, kw.get("max_universes", 10), kw.get("max_staleness", 50))]
        sets = set()

        def query(how, sub):
            nonlocal models
            latest = models[0].latest
            if how in ("covariance_", "covariance", "correlation_"):
                sub = None
            names = latest if sub is None else [LABELS[i] for i in sub]
            if latest is None:
                if sub is None:
                    try:
                        sut.cov_array()
                    except ValueError:
                        return
                    raise Violation("premature-answer", f"answered before any tick, {spec}")
                return
            given = list(names)
            if how in ("covariance_", "covariance", "correlation_"):
                out = getattr(sut, how)
            else:
                out = getattr(sut, how)() if sub is None else getattr(sut, how)(given)
            if given != names:
                raise Violation("argument-modified", f"{how} changed the list of names")
            if how == "cov_array":
                got, order = out
            elif how in ("get_cov", "get_corr"):
                got, order = out, names
            elif how == "to_frame":
                got, order = out.to_numpy(), list(out.index)
                if list(out.columns) != order:
                    raise Violation("labels", f"to_frame rows {order}, columns {list(out.columns)}")
            else:
                order = list(out)
                got = np.array([[out[a][b] for b in order] for a in order])
            if list(order) != list(names):
                raise Violation("labels", f"{how}({sub}) answered for {order} instead of {names}, {spec}")
            res.evals += 1
            fit, nearest = [], None
            for m in models:
                possible = m.answers(names)
                if possible is None:
                    res.probes["too many ties: not compared"] += 1
                    return
                for W in possible:
                    scale = max(np.abs(W).max(), 1e-300)
                    if how in ("get_corr", "correlation_"):
                        v = np.diag(W)
                        ok = v > 1e-5 * max(v.max(), 1e-300)
                        s = np.sqrt(np.where(ok, v, 1.0))
                        R = W / s[:, None] / s[None, :]
                        np.fill_diagonal(R, 1.0)
                        m2 = np.outer(ok, ok)
                        err = np.abs(np.where(m2, got - R, 0.0)).max() / 1e-4
                        if not (np.abs(np.diag(got) - 1) < 1e-9).all():
                            err = np.inf
                    else:
                        err = np.abs(got - W).max() / (1e-7 * scale + 1e-300)
                    if not nearest or err < nearest[0]:
                        nearest = (err, W)
                    if err <= 1:
                        fit.append(m)
                        break
            if not fit:
                raise Violation("answer", f"{how}({names}) is {got.tolist()} instead of {nearest[1].tolist()} "
                                f"(off by {nearest[0]:.3g} tolerances), {spec}")
            if len(fit) < len(models):
                res.probes["an answer settled an open choice"] += 1
            models = fit

        for op in program["ops"]:
            if op[0] in ("tick", "bad"):
                if not op[2]:
                    continue
                tick = {LABELS[j]: float(V[op[1] % len(V)][j]) for j in op[2]}
                if op[0] == "bad":
                    tick[LABELS[op[2][-1]]] = "x"
                    try:
                        sut.update(tick)
                    except (ValueError, TypeError):
                        res.faults["malformed tick"] += 1
                        continue
                    raise Violation("malformed-accepted", f"{tick} was accepted, {spec}")
                sent = dict(tick)
                try:
                    if op[3] == "learn_many":
                        sut.learn_many([sent])
                    else:
                        getattr(sut, op[3])(sent)
                except np.linalg.LinAlgError:
                    res.probes["the wrapped estimator cannot take this row"] += 1
                    return
                if sent != tick:
                    raise Violation("argument-modified", f"update changed its tick {tick} into {sent}")
                models = [s for m in models for s in m.take(tick)]
                if len(models) > 1:
                    res.probes["tie between universes to give up"] += 1
                if len(models) > 24:
                    res.probes["too many ties: run stopped"] += 1
                    return
                if frozenset(tick) not in sets:
                    res.faults["new key-set"] += 1
                sets.add(frozenset(tick))
                res.nontrivial = len(sets) > 1
                res.ticks += 1
                res.log("tick", op[2])
            elif op[0] == "copy":
                sut = copy.deepcopy(sut)
                res.faults["moved to a copy"] += 1
            else:
                query(op[1], op[2])
                res.log("query", op[1], op[2])
        query("cov_array", None)
        query("get_cov", sorted({i for op in program["ops"] if op[0] == "tick" for i in op[2]})[:6] or None)


CHECK = C17()
