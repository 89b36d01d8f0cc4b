"""Observation of estimators through their public surface, and comparison of observations."""
from __future__ import annotations

import numpy as np

from sim.core import Violation

ATTRS = ["n_samples_", "location_", "covariance_", "correlation_", "precision_"]


def read(est, attr):
    """One read; an unfitted estimator gives the marker 'unfitted'."""
    from precise.base import NotFittedError
    try:
        v = getattr(est, attr)
    except NotFittedError:
        return "unfitted"
    except np.linalg.LinAlgError:
        return "linalg-error"
    return v


def observe(est, attrs=ATTRS):
    out = {}
    for a in attrs:
        v = read(est, a)
        out[a] = np.array(v, dtype=float) if isinstance(v, np.ndarray) else v
    return out


def dist(a, b):
    """Largest difference relative to the larger magnitude; 0 when equal (NaN == NaN)."""
    if isinstance(a, str) or isinstance(b, str):
        return 0.0 if isinstance(a, str) and isinstance(b, str) and a == b else np.inf
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    if same.all():
        return 0.0
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return np.inf
    scale = max(np.abs(a).max(), np.abs(b).max())
    with np.errstate(all="ignore"):
        return float(np.abs(a / scale - b / scale).max())


RTOL = 1e-9


def differs(x, y, attrs=None, rtol=RTOL):
    """First attribute of two observations that differs beyond rounding, or None."""
    for a in attrs or x:
        tol = 0 if a == "n_samples_" else rtol
        if a == "precision_" and not isinstance(x[a], str) and not isinstance(y[a], str):
            # rounding in the covariance is amplified by its condition number
            c = x.get("covariance_")
            if c is not None and not isinstance(c, str) and np.isfinite(c).all() and c.size:
                k = np.linalg.cond(c)
                tol = max(rtol, 1e-13 * k) if np.isfinite(k) else np.inf
                if tol > 1e-2:
                    continue
        d = dist(x[a], y[a])
        if d > tol:
            return a, d
    return None


def feed_all(est, rows):
    for r in rows:
        est.partial_fit(r)
    return est


STEPS = [1.0, 1.0, 0.003, 1.0, 0.03, 0.3]


def rounding_spread(make, rows, attr, k=12, size=3e-14, enough=np.inf):
    """How far rounding-level noise in the data moves `attr` of this estimator on this history.

    Used only when an exact comparison failed: histories that pass through singular matrices
    amplify the last bit of every operation, and there a difference proves nothing."""
    base = None
    worst = 0.0
    for j in range(k + 1):
        g = np.random.default_rng(1000 + j)
        noise = size * STEPS[j % len(STEPS)]  # chaos may show at one size and not at another
        est = make()
        for r in rows:
            r = np.asarray(r, dtype=float)
            est.partial_fit(r if j == 0 else r * (1 + noise * g.standard_normal(r.shape)))
        v = observe(est, [attr])[attr]
        if j == 0:
            base = v
        else:
            worst = max(worst, dist(base, v))
            if worst >= enough:
                break
    return worst


def require_same(x, y, kind, what, make=None, rows=None, attrs=None, rtol=RTOL):
    """Raise a Violation unless two observations agree (up to rounding)."""
    d = differs(x, y, attrs, rtol)
    if d is None:
        return
    attr, size = d
    if size != np.inf and attr != "n_samples_" and make is not None:
        spread = rounding_spread(make, rows, attr, enough=size / 100)
        if size <= 100 * spread + rtol:
            # compare the remaining attributes
            rest = [a for a in (attrs or list(x)) if a != attr]
            if rest:
                require_same({a: x[a] for a in rest}, {a: y[a] for a in rest}, kind, what, make, rows, rest, rtol)
            return
    raise Violation(f"{kind}", f"{attr} differs by {size:.3g} (relative) {what}")


def json_dist(a, b):
    """Distance between two JSON values of the same structure (inf if structures differ)."""
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return 0.0 if a == b else np.inf
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return np.inf
        return max([json_dist(a[k], b[k]) for k in a] or [0.0])
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return np.inf
        try:
            x, y = np.array(a, dtype=float), np.array(b, dtype=float)
        except (ValueError, TypeError):
            return max([json_dist(p, q) for p, q in zip(a, b)] or [0.0])
        return dist(x, y)
    return dist(np.array(float(a)), np.array(float(b)))
