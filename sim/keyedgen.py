"""Keyed (dict) feeds: ticks of named values with names missing, arriving and leaving."""
from __future__ import annotations

import numpy as np

from sim import gen

NAMES = ["A", "B", "C", "D", "E", "F", "G", "H"]


def wrapped(rng, p=4, diff=0.15, names=None):
    """Configuration of the estimator an adapter wraps."""
    names = names or [n for n in gen.REGISTERED if n not in ("GeodesicEwaCovariance",)]
    if rng.random() < 0.4:
        return gen.gen_cfg(rng, ["EwaCovariance", "EmpiricalCovariance"], p, diff=rng.random() < diff)
    return gen.gen_cfg(rng, names, p, diff=rng.random() < diff)


COARSE = ["", "", "", "ints", "zeros"]


def values(seed, T, width=len(NAMES), coarse=""):
    """Values of every name at every time; "ints" and "zeros" give exact zeros and repeated values."""
    g = np.random.default_rng(seed)
    L = g.standard_normal((width, width)) * 0.4 + np.eye(width)
    V = np.round(g.standard_normal((T, width)) @ L.T, 6)
    if coarse == "ints":
        V = np.rint(V)
    elif coarse == "zeros":
        V[g.random(V.shape) < 0.15] = 0.0
    return V + 0.0


class Ticks:
    """Tick (time, names) -> dict; deterministic in the seed."""

    def __init__(self, seed, T=200):
        self.V = values(seed, T)
        self.T = T

    def tick(self, t, names):
        return {k: float(self.V[t % self.T][NAMES.index(k) if k in NAMES else hash_name(k)]) for k in names}


def hash_name(k):
    return sum(map(ord, k)) % len(NAMES)


def build_adapter(spec):
    """spec: {"kind": "fixed"|"dynamic", "est": cfg, "kw": {...}, "via": "class"|"direct"|"keyed"}"""
    import precise
    cfg, kw = spec["est"], dict(spec.get("kw", {}))
    via = spec.get("via", "direct")
    cls = precise.FixedUniverse if spec["kind"] == "fixed" else precise.DynamicUniverse
    if via == "class":
        return cls(getattr(precise, cfg["name"]), **kw, **cfg["params"])
    if via == "keyed":
        return precise.keyed(gen.build(cfg), dynamic=spec["kind"] == "dynamic", **kw)
    return cls(gen.build(cfg), **kw)


def universes(adapter):
    """What a DynamicUniverse tracks, as far as its attributes still go by these names (its answers
    are compared in any case); otherwise what its repr says."""
    try:
        return sorted([sorted(u.keys), u.staleness, u.longevity] for u in adapter.states.values())
    except AttributeError:
        return repr(adapter)
