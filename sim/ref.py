"""Reference models: what each estimator documents, written down a second time.

Each model is fed the acknowledged rows one by one and says what ``location_`` and ``covariance_``
must be. Linear recursions run in extended precision; nothing here imports the package.
"""
from __future__ import annotations

import math

import numpy as np

LD = np.longdouble


def burn(r):
    n = math.ceil(1.0 / r)
    return max(5, n) if max(5, n) < 250 else 250


def blocks(p, nb):
    """Contiguous blocks, the first ones one longer, as numpy.array_split documents."""
    nb = min(max(1, nb), p)
    q, extra = divmod(p, nb)
    out, a = [], 0
    for k in range(nb):
        b = a + q + (1 if k < extra else 0)
        out.append((a, b))
        a = b
    return out


def cross_mask(p, nb):
    m = np.ones((p, p), dtype=bool)
    for a, b in blocks(p, nb):
        m[a:b, a:b] = False
    return m


def floored(a, eps=1e-8):
    a = (a + a.T) / 2
    w, v = np.linalg.eigh(a)
    return (v * np.maximum(w, eps)) @ v.T


def corr_of(c):
    d = np.sqrt(np.diag(c))
    out = np.zeros_like(c)
    for i in range(len(c)):
        for j in range(len(c)):
            if d[i] * d[j] != 0:
                out[i, j] = c[i, j] / (d[i] * d[j])
    return out


def geodesic(a, b, t):
    """A #_t B through a Cholesky factor instead of square roots."""
    a, b = floored(a), floored(b)
    L = np.linalg.cholesky(a)
    m = np.linalg.solve(L, b)
    m = np.linalg.solve(L, m.T).T
    w, q = np.linalg.eigh((m + m.T) / 2)
    w = np.maximum(w, 0.0) ** t
    lq = L @ q
    return (lq * w) @ lq.T


class Welford:
    """Mean and scatter with weights 1/n up to a horizon, then r; deviations about the previous mean.

    The burn-in part is kept as plain sums, so it is not the recursion of the package."""

    def __init__(self, p, r=None, n_burn=None):
        self.p, self.r, self.nb = p, r, n_burn
        self.rows = []
        self.m = np.zeros(p, dtype=LD)
        self.c = np.zeros((p, p), dtype=LD)
        self.n = 0

    def push(self, x):
        x = np.asarray(x, dtype=LD)
        self.n += 1
        if self.nb is None or self.n <= self.nb:
            self.rows.append(x)
            if self.nb is None or self.n == self.nb:
                self._moments()
            self.dirty = self.n != self.nb
        else:
            if self.rows:
                self._moments()
                self.rows = []
            d = x - self.m
            self.m = self.m + LD(self.r) * d
            self.c = self.c - LD(self.r) * (self.c - np.outer(d, d))

    def _moments(self):
        R = np.array(self.rows, dtype=LD)
        self.m = R.mean(axis=0)
        D = R - self.m
        self.c = D.T @ D / LD(len(R))

    def moments(self):
        if self.rows:
            self._moments()
        return self.m, self.c


class Ref:
    noise = None  # set while measuring how far rounding moves the model

    def __init__(self, params, p):
        self.q, self.p = params, p
        self.r = float(params.get("r", 0.05))
        self.n = 0
        self.w = self.base()

    def base(self):
        return Welford(self.p, self.r, burn(self.r))

    def push(self, x):
        self.n += 1
        self.w.push(x)

    def location(self):
        return self.w.moments()[0].astype(float)

    def S(self):
        return self.w.moments()[1].astype(float)

    def covariance(self):
        return self.S()


class Empirical(Ref):
    def base(self):
        return Welford(self.p)


class Ewa(Ref):
    pass


class Block(Ref):
    def covariance(self):
        S = self.S()
        out = np.zeros_like(S)
        for a, b in blocks(self.p, self.q.get("n_blocks", 4)):
            out[a:b, a:b] = floored(S[a:b, a:b])
        return out


class PrevMean:
    """Weights 1/n up to n_burn then r, of something computed from the deviation about the previous mean."""

    def __init__(self, p, n_burn, r_mean, r_stat, stat, shape):
        self.nb, self.rm, self.rs, self.stat = n_burn, LD(r_mean), LD(r_stat), stat
        self.m = np.zeros(p, dtype=LD)
        self.v = np.zeros(shape, dtype=LD)
        self.n = 0

    def push(self, x):
        x = np.asarray(x, dtype=LD)
        self.n += 1
        d = x - self.m
        a, b = (LD(1) / self.n, LD(1) / self.n) if self.n <= self.nb else (self.rm, self.rs)
        self.m = self.m + a * d
        self.v = (1 - b) * self.v + b * self.stat(d)
        return d


class Diagonal(Ref):
    def base(self):
        return PrevMean(self.p, burn(self.r), self.r, self.r, lambda d: d * d, (self.p,))

    def location(self):
        return self.w.m.astype(float)

    def covariance(self):
        return np.diag(self.w.v.astype(float))


class PartialMoments(Diagonal):
    """The four quadrants add up to the outer product of the deviation about the previous mean."""

    def base(self):
        return PrevMean(self.p, burn(self.r), self.r, self.r, lambda d: np.outer(d, d), (self.p, self.p))

    def covariance(self):
        return self.w.v.astype(float)


class LedoitWolf(Ref):
    def __init__(self, params, p):
        super().__init__(params, p)
        self.pi = LD(0)

    def push(self, x):
        if self.n >= burn(self.r):
            m, c = self.w.moments()
            d = np.asarray(x, dtype=LD) - m
            self.pi = (1 - LD(self.r)) * self.pi + LD(self.r) * ((np.outer(d, d) - c) ** 2).sum() / self.p
        super().push(x)

    def intensity(self):
        S = self.S()
        mu = np.trace(S) / self.p
        d2 = ((S - mu * np.eye(self.p)) ** 2).sum() / self.p
        if d2 <= 0 or self.pi <= 0:
            return 0.0, mu
        return min(float(self.pi) * self.r / d2, 1.0), mu

    def covariance(self):
        a, mu = self.intensity()
        return (1 - a) * self.S() + a * mu * np.eye(self.p)


class OAS(Ref):
    def covariance(self):
        S, p = self.S(), self.p
        n = max(1.0 / self.r, 2.0)
        t, t2 = np.trace(S), float((S * S).sum())
        num, den = (1 - 2.0 / p) * t2 + t * t, (n + 1 - 2.0 / p) * (t2 - t * t / p)
        rho = 1.0 if den <= 0 else max(0.0, min(1.0, num / den))
        return (1 - rho) * S + rho * (t / p) * np.eye(p)


class Shrunk(Ref):
    def covariance(self):
        S, p, d = self.S(), self.p, float(self.q.get("delta", 0.1))
        if self.q.get("target") == "identity":
            T = np.trace(S) / p * np.eye(p)
        else:
            sd = np.sqrt(np.diag(S))
            tot = sum(S[i, j] / (sd[i] * sd[j]) for i in range(p) for j in range(p) if i != j and sd[i] * sd[j] > 0)
            rbar = tot / (p * (p - 1)) if p > 1 else 0.0
            T = rbar * np.outer(sd, sd)
            for i in range(p):
                T[i, i] = S[i, i]
        return S + d * (T - S)


class Schur(Ref):
    def covariance(self):
        S = self.S()
        X = cross_mask(self.p, self.q.get("n_blocks", 4))
        g = float(self.q.get("gamma", 0.5))
        B = np.where(X, 0.0, S)
        if self.q.get("interpolation") == "geodesic":
            return geodesic(B, S, g)
        return floored(B + g * (S - B))


    def rounding(self):
        """The geodesic divides by the (floored) eigenvalues of its starting point."""
        if self.q.get("interpolation") != "geodesic":
            return 0.0
        w = np.linalg.eigvalsh(np.where(cross_mask(self.p, self.q.get("n_blocks", 4)), 0.0, self.S()))
        return 3e-14 * max(w[-1], 1e-8) / max(w[0], 1e-8)


class SchurLW(Ref):
    def __init__(self, params, p):
        super().__init__(params, p)
        self.pi = LD(0)
        self.X = cross_mask(p, params.get("n_blocks", 4))

    def push(self, x):
        if self.n >= burn(self.r):
            m, c = self.w.moments()
            d = np.asarray(x, dtype=LD) - m
            self.pi = (1 - LD(self.r)) * self.pi + LD(self.r) * ((np.outer(d, d) - c) ** 2)[self.X].sum()
        super().push(x)

    def gamma(self):
        m2 = float((self.S() ** 2)[self.X].sum())
        return max(0.0, min(1.0, 1.0 - float(self.pi) * self.r / m2)) if m2 > 0 else 1.0

    def covariance(self):
        S, g = self.S(), self.gamma()
        return floored(np.where(self.X, g * S, S))


class SchurConditional(Ref):
    def parts(self):
        S, p = self.S(), self.p
        R = corr_of(S)
        n_eff = max(2.0, min(float(self.n), (2.0 - self.r) / self.r))
        X = cross_mask(p, self.q.get("n_blocks", 4))
        rij = R[X]
        if rij.size == 0:
            return S, R, n_eff, 1.0
        keep = np.maximum(rij ** 2 - (1 + rij ** 2) / n_eff, 0.0).sum()
        tot = (rij ** 2).sum()
        return S, R, n_eff, (min(1.0, keep / tot) if tot > 0 else 0.0)

    def gamma(self):
        return self.parts()[3]

    def covariance(self):
        S, R, n_eff, g = self.parts()
        p = self.p
        bl = blocks(p, self.q.get("n_blocks", 4))
        G = np.zeros((p, p))
        a, b = bl[0]
        G[a:b, a:b] = R[a:b, a:b]
        for a, b in bl[1:]:
            ridge = min(0.9, max(0.0, a / n_eff))
            C = R[:a, :a]
            C = np.where(np.eye(a, dtype=bool), C, (1 - ridge) * C) + 1e-10 * np.eye(a)
            h = np.linalg.solve(C, R[:a, a:b])
            s = floored(R[a:b, a:b] - R[:a, a:b].T @ h)
            hg = g * h
            low = hg.T @ G[:a, :a]
            G[a:b, :a], G[:a, a:b] = low, low.T
            G[a:b, a:b] = (1 - g) * R[a:b, a:b] + g * s + low @ hg
        sd = np.sqrt(np.maximum(np.diag(S), 1e-12))
        return floored(G) * np.outer(sd, sd)


class DCC(Ref):
    def base(self):
        self.vr = self.q.get("vol_r")
        self.vr = self.r if self.vr is None else float(self.vr)
        self.nb = burn(min(self.r, self.vr))
        self.h = PrevMean(self.p, self.nb, self.vr, self.vr, lambda d: d * d, (self.p,))
        self.h.v = np.ones(self.p, dtype=LD)
        self.Q = np.eye(self.p, dtype=LD)
        return self.h

    def push(self, x):
        self.n += 1
        d = self.h.push(x)
        if self.n == 1 and self.noise is not None:
            # the update starts from unit variances: one unit of rounding of 1.0 may survive
            self.h.v = np.abs(self.h.v + 3e-16 * self.noise.standard_normal(self.p))
        e = d / np.sqrt(np.maximum(self.h.v, LD(1e-12)))
        a = LD(1) / self.n if self.n <= self.nb else LD(self.r)
        self.Q = self.Q + a * (np.outer(e, e) - self.Q)

    def location(self):
        return self.h.m.astype(float)

    def covariance(self):
        Q, h = self.Q.astype(float), np.maximum(self.h.v.astype(float), 1e-12)
        s = np.sqrt(h / np.maximum(np.diag(Q), 1e-12))
        return Q * np.outer(s, s)


class Factor(Ref):
    """k candid incremental principal directions by deflation; n_burn = k + 1."""

    def base(self):
        self.k = min(int(self.q.get("k", 2)), self.p)
        self.nb = self.k + 1
        self.v = np.zeros((self.k, self.p), dtype=LD)
        return PrevMean(self.p, self.nb, self.r, self.r, lambda d: d * d, (self.p,))

    def push(self, x):
        self.n += 1
        u = self.w.push(x)
        a = LD(1) / self.n if self.n <= self.nb else LD(self.r)
        for j in range(self.k):
            size = np.sqrt((self.v[j] ** 2).sum())
            if size < 1e-12:
                self.v[j] = u
                return
            e = self.v[j] / size
            s = (u * e).sum()
            self.v[j] = (1 - a) * self.v[j] + a * s * u
            u = u - s * e

    def location(self):
        return self.w.m.astype(float)

    def covariance(self):
        out = np.zeros((self.p, self.p), dtype=LD)
        for vj in self.v:
            size = np.sqrt((vj ** 2).sum())
            if size > 1e-12:
                out += np.outer(vj, vj) / size
        cap = np.diag(out)
        return (out + np.diag(np.maximum(self.w.v - cap, 0))).astype(float)


class MeanOnly(Ref):
    """Only location_ is modelled."""

    def covariance(self):
        return None


MODELS = {
    "EmpiricalCovariance": Empirical, "DiagonalCovariance": Diagonal, "BlockCovariance": Block,
    "EwaCovariance": Ewa, "LedoitWolfCovariance": LedoitWolf, "OASCovariance": OAS,
    "ShrunkCovariance": Shrunk, "SchurCovariance": Schur, "SchurConditionalCovariance": SchurConditional,
    "SchurLedoitWolfCovariance": SchurLW, "PartialMomentsCovariance": PartialMoments,
    "DCCCovariance": DCC, "FactorCovariance": Factor, "TylerCovariance": MeanOnly,
    "GeodesicEwaCovariance": MeanOnly,
}


def model(cfg, rows, jitter=None):
    """The reference after these rows (first differences of them when diff=True)."""
    rows = [np.asarray(r, dtype=float) for r in rows]
    if jitter is not None:
        rows = [r * (1 + 3e-14 * jitter.standard_normal(r.shape)) for r in rows]
    if cfg["params"].get("diff"):
        rows = [b - a for a, b in zip(rows, rows[1:])]
    if not rows:
        return None
    m = MODELS[cfg["name"]](cfg["params"], len(rows[0]))
    m.noise = jitter
    for r in rows:
        m.push(r)
    return m


class Follower:
    """A reference model that follows a growing log of acknowledged rows without starting over."""

    def __init__(self, cfg, row):
        self.cfg, self.row = cfg, row
        self.reset()

    def reset(self):
        self.m, self.seen, self.prev = None, [], None

    def at(self, log):
        if self.seen != log[:len(self.seen)]:
            self.reset()
        for i in log[len(self.seen):]:
            x = self.row(i)
            if self.cfg["params"].get("diff"):
                x, self.prev = (None if self.prev is None else x - self.prev), x
            if x is not None:
                if self.m is None:
                    self.m = MODELS[self.cfg["name"]](self.cfg["params"], len(x))
                self.m.push(x)
        self.seen = list(log)
        return self.m

    def spread(self, log, attr, k=4):
        """How far rounding-level noise in the rows moves the reference itself."""
        rows = [self.row(i) for i in log]
        base = np.asarray(getattr(model(self.cfg, rows), attr)())
        worst = np.zeros_like(base)
        for j in range(k):
            v = np.asarray(getattr(model(self.cfg, rows, np.random.default_rng(500 + j)), attr)())
            worst = np.maximum(worst, np.abs(v - base))
        return worst


# ------------------------------------------------------------------ one step from an observed state
class Step:
    """The documented update of the estimators that invert their own estimate, from a given state."""

    def __init__(self, cfg, p):
        q = cfg["params"]
        self.name, self.q, self.p = cfg["name"], q, p
        self.r = float(q.get("r", 0.05))
        self.nb = burn(self.r)

    def fresh(self):
        return {"n": 0, "m": np.zeros(self.p), "C": np.zeros((self.p, self.p)), "sbar": 1.0, "ok": True,
                "sbar_ok": True, "spread": 0.0}

    def __call__(self, s, x):
        """Returns the next state; ok=False where rounding decides the outcome."""
        n, m, C, r = s["n"] + 1, s["m"], s["C"], self.r
        d = x - m
        out = dict(s, n=n, bigm=max(s.get("bigm", 0.0), np.abs(m).max()), bigC=max(s.get("bigC", 0.0), np.abs(C).max()))
        if n <= self.nb:
            out["m"] = m + d / n
            out["C"] = (n - 1) / n * (C + np.outer(d, d) / n)
            return out
        if self.name == "GeodesicEwaCovariance":
            out["m"] = m + r * d
            A, B = floored(C), floored(np.outer(d, d))
            if max(np.abs(C).max() / max(np.linalg.eigvalsh(A)[0], 1e-8), float(d @ d) / 1e-8) > 1e14:
                out["ok"] = False  # the floor is below the rounding of the entries
                return out
            try:
                out["C"] = geodesic(A, B, r)
                g = np.random.default_rng(3)
                out["ens"] = [noisy_geodesic(c, np.outer(d, d), r, g) for c in s.get("ens") or [C] * 6]
                out["spread"] = max(np.abs(c - out["C"]).max() for c in out["ens"]) / np.abs(out["C"]).max()
            except np.linalg.LinAlgError:  # the floor is below the rounding of the entries
                out["ok"] = False
                return out
            out["ok"] = s["ok"] and out["spread"] < 1e-5
            return out
        k = np.linalg.cond(C) if np.isfinite(C).all() else np.inf
        good = k < 1e9
        maha2 = float(d @ np.linalg.solve(C, d)) if good else np.nan
        out["ok"] = s["ok"] and good
        out["spread"] = max(s["spread"], 1e-15 * k if good else 0.0)
        if self.name == "HuberCovariance":
            limit = float(self.q.get("c", 2.5)) ** 2 * self.p
            w = 1.0 if maha2 <= limit else math.sqrt(limit / maha2) if good else 0.0
            out["m"] = m + r * w * d
            out["C"] = (1 - r) * C + r * np.outer(w * d, w * d)
        else:
            out["sbar"] = 0.9 * s["sbar"] + 0.1 * maha2 / self.p
            out["sbar_ok"] = s["sbar_ok"] and good
            out["ok"] = out["ok"] and out["sbar_ok"]
            a = min(max(r * out["sbar"], r), float(self.q.get("max_r", 0.5))) if out["sbar_ok"] else r
            out["rate"] = a
            out["m"] = (1 - a) * m + a * x
            out["C"] = (1 - a) * C + a * np.outer(d, d)
        return out


def noisy_geodesic(a, b, t, g):
    """The geodesic with rounding-sized noise in the operands and in L^-1 B L^-T."""
    def sym():
        e = g.standard_normal(a.shape)
        return e + e.T

    size = 1e-15 * np.abs(floored(b)).max() / max(np.linalg.eigvalsh(a)[0], 1e-8)
    fa = floored(a + 1e-15 * np.abs(a).max() * sym())
    fb = floored(b + 1e-15 * np.abs(b).max() * sym())
    L = np.linalg.cholesky(fa)
    m = np.linalg.solve(L, fb)
    m = np.linalg.solve(L, m.T).T
    w, q = np.linalg.eigh((m + m.T) / 2 + size * sym())
    lq = L @ q
    return (lq * np.maximum(w, 0.0) ** t) @ lq.T
