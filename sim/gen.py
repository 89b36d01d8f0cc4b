"""Generators: configurations, simulated feeds, program simplification."""
from __future__ import annotations

import copy
import functools
import math

import numpy as np

REGISTERED = [
    "EmpiricalCovariance", "DiagonalCovariance", "BlockCovariance", "EwaCovariance",
    "AdaptiveEwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance",
    "SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance",
    "PartialMomentsCovariance", "HuberCovariance", "TylerCovariance", "GeodesicEwaCovariance",
    "DCCCovariance", "FactorCovariance",
]
SKATERS = ["ema", "holt", "constant"]


def burn_n(r):
    return int(min(250, max(5, math.ceil(1.0 / r))))


def gen_r(rng):
    return rng.choice([1.0, 0.5, 0.35, 0.25, 0.2, 0.1, 0.1, 0.05, 0.05, 0.03, 0.02,
                       round(rng.uniform(0.02, 0.95), 3)] + ([0.01, 0.004, 0.001] if rng.random() < 0.3 else []))


def gen_params(rng, name, p=4, diff=None):
    """Random constructor parameters (JSON values) for a registered estimator."""
    q = {}
    if name != "EmpiricalCovariance" and rng.random() < 0.93:
        q["r"] = gen_r(rng)
    if name in ("BlockCovariance", "SchurCovariance", "SchurConditionalCovariance",
                "SchurLedoitWolfCovariance") and rng.random() < 0.85:
        q["n_blocks"] = rng.choice([1, 2, 2, 3, 3, 4, 5, p, p + 2])
    if name == "SchurCovariance":
        if rng.random() < 0.8:
            q["gamma"] = rng.choice([0.0, 1.0, 0.5, round(rng.uniform(0, 1), 3)])
        if rng.random() < 0.4:
            q["interpolation"] = "geodesic"
    if name == "ShrunkCovariance":
        if rng.random() < 0.8:
            q["delta"] = rng.choice([0.0, 1.0, 0.3, round(rng.uniform(0, 1), 3)])
        if rng.random() < 0.45:
            q["target"] = "identity"
    if name == "HuberCovariance" and rng.random() < 0.7:
        q["c"] = rng.choice([1.0, 1.5, 2.0, 3.0, 5.0])
    if name == "AdaptiveEwaCovariance" and rng.random() < 0.7:
        q["max_r"] = rng.choice([0.2, 0.5, 0.8, 1.0])
    if name == "DCCCovariance" and rng.random() < 0.6:
        q["vol_r"] = gen_r(rng)
    if name == "FactorCovariance" and rng.random() < 0.8:
        q["k"] = rng.choice([1, 1, 2, 3, p, p + 1])
    if diff is None:
        diff = rng.random() < 0.3
    if diff:
        q["diff"] = True
    return q


def gen_cfg(rng, names=None, p=4, diff=None):
    name = rng.choice(names or REGISTERED)
    return {"name": name, "params": gen_params(rng, name, p, diff)}


def tame(cfg):
    """With r=1 an estimate is one rank-one scatter; estimators that invert it then follow rounding alone,
    and so does one of residuals, whose magnitude jumps."""
    corr = cfg.get("corr") or {}
    for c in (cfg, corr):
        if "r" in c.get("params", {}) and c["params"]["r"] == 1.0 and (
                c is corr or c["name"] in ("TylerCovariance", "HuberCovariance", "AdaptiveEwaCovariance")):
            c["params"]["r"] = 0.9
    return cfg


def gen_conditional(rng, p=4, skaters=True):
    """ConditionalCovariance over random volatility and correlation models."""
    cfg = {"name": "ConditionalCovariance"}
    u = rng.random()
    if u < 0.1:
        cfg["vol"] = None
    elif u < 0.4 and skaters:
        cfg["vol"] = {"skater": rng.choice(SKATERS)}
    else:
        cfg["vol"] = gen_cfg(rng, [n for n in REGISTERED if n != "TylerCovariance"], 1, diff=rng.random() < 0.15)
    cfg["corr"] = None if rng.random() < 0.1 else gen_cfg(rng, None, p, diff=rng.random() < 0.15)
    return cfg


# -- skaters: small deterministic univariate models in the documented duck-typed form
class Dist:
    def __init__(self, mean, std):
        self.mean, self.std = mean, std


def sk_constant(y, s):
    """Running mean and variance; functional state."""
    n, m, v = s or (0, 0.0, 0.0)
    n += 1
    d = y - m
    m += d / n
    v += (d * (y - m) - v) / n
    return [Dist(m, math.sqrt(v) + 1e-3)], (n, m, v)


def sk_ema(y, s):
    """Exponential smoothing keeping its state in a list it updates in place."""
    if s is None:
        s = [y, 1.0]
    e = y - s[0]
    s[0] += 0.2 * e
    s[1] = 0.9 * s[1] + 0.1 * e * e
    return [Dist(s[0], math.sqrt(s[1])), Dist(s[0], 2 * math.sqrt(s[1]))], s


def sk_holt(y, s):
    """Local linear trend; a fresh dict per step."""
    if s is None:
        s = {"l": y, "b": 0.0, "v": 1.0}
    f = s["l"] + s["b"]
    e = y - f
    s = {"l": f + 0.3 * e, "b": s["b"] + 0.05 * e, "v": 0.93 * s["v"] + 0.07 * e * e}
    return [Dist(s["l"] + s["b"], math.sqrt(s["v"]))], s


SK = {"constant": sk_constant, "ema": sk_ema, "holt": sk_holt}


def build(cfg):
    """Instantiate a configuration against the code under test."""
    import precise
    if cfg["name"] == "ConditionalCovariance":
        vol, corr = cfg.get("vol"), cfg.get("corr")
        kw = {}
        if vol is not None:
            kw["vol"] = precise.from_skater(skater(vol["skater"])) if "skater" in vol else build(vol)
        if corr is not None:
            kw["corr"] = build(corr)
        return precise.ConditionalCovariance(**kw)
    return getattr(precise, cfg["name"])(**cfg["params"])


def skater(name):
    return SK[name]


def cfg_r(cfg):
    """The slowest decay rate of a configuration (decides how long burn-in takes)."""
    if cfg["name"] == "ConditionalCovariance":
        return min([cfg_r(c) for c in (cfg.get("vol"), cfg.get("corr")) if c and "name" in c] or [0.05])
    q = cfg["params"]
    r = q.get("r", 0.05)
    return min(r, q.get("vol_r") or r) if cfg["name"] == "DCCCovariance" else r


def is_diff(cfg):
    return bool(cfg.get("params", {}).get("diff"))


# ------------------------------------------------------------------ feeds
KINDS = ["gauss", "gauss", "factor", "factor", "ar", "heavy", "walk", "ints", "offset"]


def gen_data(rng, p=None, kinds=None, T=80):
    if p is None:
        p = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8] + ([12, 16] if rng.random() < 0.25 else []))
    return {"seed": rng.randrange(10**6), "p": p, "kind": rng.choice(kinds or KINDS), "T": T,
            "scale": rng.choice([1.0, 1.0, 1.0, 0.01, 30.0])}


@functools.lru_cache(maxsize=64)
def _matrix(seed, p, kind, T, scale):
    g = np.random.default_rng(seed)
    if kind == "gauss":
        X = g.standard_normal((T, p)) * g.uniform(0.5, 2.0, p)
    elif kind == "factor":
        b = g.uniform(0.3, 1.5, p) * g.choice([-1, 1], p)
        X = g.standard_normal((T, 1)) * b + g.standard_normal((T, p)) * g.uniform(0.3, 1.0, p)
    elif kind == "ar":
        X = g.standard_normal((T, p))
        for t in range(1, T):
            X[t] += 0.6 * X[t - 1]
    elif kind == "heavy":
        X = g.standard_t(3, (T, p)) * g.uniform(0.5, 2.0, p)
    elif kind == "walk":
        X = np.cumsum(g.standard_normal((T, p)), axis=0)
    elif kind == "ints":
        X = g.integers(-9, 10, (T, p)).astype(float)
        scale = 1.0
    elif kind == "offset":
        X = g.standard_normal((T, p)) + g.choice([-1, 1], p) * 10.0 ** g.integers(0, 5, p)
    else:
        raise ValueError(kind)
    X = X * scale
    X.setflags(write=False)
    return X


SENSOR_FAULTS = ["spike", "spike-one", "stuck", "stuck-one", "dead", "zero", "shift", "scale", "collinear", "copy",
                 "flip", "tiny"]


def gen_sensor_faults(rng, p, T, n=None):
    """A few faults of the source itself: [kind, start, length, column, magnitude]."""
    out = []
    for _ in range(n if n is not None else rng.choice([0, 1, 1, 2, 3])):
        kind = rng.choice(SENSOR_FAULTS)
        start = rng.choice([0, 0, rng.randrange(T), rng.randrange(T)])
        length = 1 if kind.startswith("spike") else rng.choice([1, 2, rng.randint(1, 20), T])
        out.append([kind, start, length, rng.randrange(p), rng.choice([3.0, -10.0, 1e2, 1e3, -1e4, 1e6])])
    return out


def _apply(X, kind, start, length, col, mag):
    a, b, p = start, min(start + length, len(X)), X.shape[1]
    c, d = col % p, (col + 1) % p
    if a >= b:
        return
    if kind == "spike":
        X[a:b] *= mag
    elif kind == "spike-one":
        X[a:b, c] *= mag
    elif kind == "stuck":
        X[a:b] = X[a]
    elif kind == "stuck-one":
        X[a:b, c] = X[a, c]
    elif kind == "dead":
        X[a:b, c] = 0.0
    elif kind == "zero":
        X[a:b] = 0.0
    elif kind == "shift":
        X[a:b] += mag
    elif kind == "scale":
        X[a:b] *= abs(mag) ** 0.5
    elif kind == "tiny":
        X[a:b] /= abs(mag)
    elif kind == "collinear":
        X[a:b, d] = -2.0 * X[a:b, c]
    elif kind == "copy":
        X[a:b, d] = X[a:b, c]
    elif kind == "flip":
        X[a:b, c] *= -1.0


@functools.lru_cache(maxsize=64)
def _disturbed(seed, p, kind, T, scale, bad):
    X = _matrix(seed, p, kind, T, scale)
    if not bad:
        return X
    X = X.copy()
    for b in bad:
        _apply(X, *b)
    X.setflags(write=False)
    return X


class Feed:
    """Row i of the simulated source; deterministic in the data spec and i."""

    def __init__(self, spec):
        self.spec = spec
        self.p, self.T = spec["p"], spec["T"]
        self._X = _disturbed(spec["seed"], spec["p"], spec["kind"], spec["T"], spec["scale"],
                             tuple(tuple(b) for b in spec.get("bad", ())))

    def row(self, i):
        return self._X[i % self.T].copy()

    def rows(self, idx):
        return np.array([self._X[i % self.T] for i in idx]).reshape(len(idx), self.p)


def faulty_indices(rng, n, faults, T):
    """Arrival order at the sink for n emitted rows: loss, duplication, reordering, stalls.

    Returns (indices, Counter of what happened)."""
    out, i = [], 0
    kinds = faults
    counts = {}

    def hit(k):
        counts[k] = counts.get(k, 0) + 1

    while i < n:
        u = rng.random()
        if "loss" in kinds and u < 0.05:
            hit("loss")
            i += 1
            continue
        out.append(i)
        if "dup" in kinds and 0.05 <= u < 0.11:
            hit("dup")
            out.append(i)
        if "reorder" in kinds and 0.11 <= u < 0.17 and len(out) > 1:
            hit("reorder")
            j = rng.randrange(max(0, len(out) - 5), len(out))
            out.insert(j, out.pop())
        if "stuck" in kinds and 0.17 <= u < 0.19:
            hit("stuck")
            out += [i] * rng.randint(2, 8)
        if "gap" in kinds and 0.19 <= u < 0.21:
            hit("gap")
            i += rng.randint(2, 6)
        i += 1
    return out, counts


def feed_faults(rng):
    """Swarm style: a random subset of the feed fault kinds (often none)."""
    if rng.random() < 0.35:
        return []
    return [k for k in ("loss", "dup", "reorder", "stuck", "gap") if rng.random() < 0.5]


# ------------------------------------------------------------------ simplification
def simpler(program):
    """Generic simpler variants: drop parameters, shrink dimensions and ranges."""
    def walk(node, path):
        if isinstance(node, dict):
            for k in list(node):
                yield from walk(node[k], path + [k])
        elif isinstance(node, list):
            for i, v in enumerate(node):
                yield from walk(v, path + [i])
        yield path, node

    def variant(path, value):
        q = copy.deepcopy(program)
        n = q
        for k in path[:-1]:
            n = n[k]
        n[path[-1]] = value
        return q

    def drop(path, key):
        q = copy.deepcopy(program)
        n = q
        for k in path:
            n = n[k]
        del n[key]
        return q

    for path, node in list(walk(program, [])):
        if not path or path[0] == "seed":
            continue
        if path[-1] == "params" and isinstance(node, dict):
            for k in list(node):
                yield drop(path, k)
        if path[-1] == "r" and isinstance(node, float):
            for v in (0.5, 0.2, 0.05):
                if node == v:
                    break
                yield variant(path, v)
        if path[-1] == "p" and isinstance(node, int) and node > 1:
            for v in sorted({1, 2, node - 1}):
                if v < node:
                    yield variant(path, v)
        if path[-1] == "kind" and node in KINDS and node != "gauss":
            yield variant(path, "gauss")
        if path[-1] == "scale" and node != 1.0:
            yield variant(path, 1.0)
        if path[-1] == "bad" and isinstance(node, list):
            for i in range(len(node)):
                yield variant(path, node[:i] + node[i + 1:])
        # ["rows", [i, j, ...]]-style index lists inside operations
        if (isinstance(node, list) and len(node) > 1 and all(isinstance(v, int) for v in node)
                and "ops" in path):
            half = len(node) // 2
            yield variant(path, node[:half])
            yield variant(path, node[half:])
            if len(node) <= 12:
                for i in range(len(node)):
                    yield variant(path, node[:i] + node[i + 1:])
