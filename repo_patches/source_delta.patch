From 131c501aa10d623d745044609f00437d8b0ad885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 01/24] fix: diff=True keeps its own copy of the previous level

The previous level was a view of the caller's array, so a caller that refills one
buffer per tick differenced every row against itself.
---
 precise/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index c06fff5..7af3bfe 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -53,9 +53,9 @@ class BaseOnlineCovariance:
         for x in as_rows(X):
             if use_diff:
                 if self._prev_x is None:
-                    self._prev_x = x
+                    self._prev_x = x.copy()  # never keep a view of the caller's buffer
                     continue
-                x, self._prev_x = x - self._prev_x, x
+                x, self._prev_x = x - self._prev_x, x.copy()
             if self._state is None:
                 self.n_features_in_ = len(x)
                 self._state = self._init_state(len(x))
-- 
2.43.0


From 9b74fd43864e664c6bf6f8e268fc38e26cb28615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 02/24] fix: an observation whose update fails leaves no trace

With diff=True the previous level advanced before the update ran, so when the update
raised, the retried row was differenced against itself; and a failing first update left
an initialised, never-updated state behind. Commit all three attributes after the update.
---
 precise/base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 7af3bfe..bfbfbd1 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -51,15 +51,18 @@ class BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
         for x in as_rows(X):
+            prev_x = self._prev_x
             if use_diff:
-                if self._prev_x is None:
+                if prev_x is None:
                     self._prev_x = x.copy()  # never keep a view of the caller's buffer
                     continue
-                x, self._prev_x = x - self._prev_x, x.copy()
-            if self._state is None:
-                self.n_features_in_ = len(x)
-                self._state = self._init_state(len(x))
-            self._state = self._update_state(self._state, x)
+                x, prev_x = x - prev_x, x.copy()
+            state = self._state
+            if state is None:
+                state = self._init_state(len(x))
+            state = self._update_state(state, x)
+            # Commit together and last, so a row that fails leaves the estimator untouched.
+            self._state, self._prev_x, self.n_features_in_ = state, prev_x, len(x)
         return self
 
     def fit(self, X, y=None) -> BaseOnlineCovariance:
-- 
2.43.0


From 555a76968e88d5604dfad6216a3fc5f2a4540c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 03/24] fix: location_ returns a copy of the running mean

It handed out the state's own array, so a caller modifying it corrupted the estimator.
---
 precise/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/base.py b/precise/base.py
index bfbfbd1..da7aa7a 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -89,7 +89,8 @@ class BaseOnlineCovariance:
 
     @property
     def location_(self) -> np.ndarray:
-        return np.asarray(self._state_to_mean(self._fitted_state()), dtype=float)
+        # A copy: the caller must not be handed the running mean itself.
+        return np.array(self._state_to_mean(self._fitted_state()), dtype=float)
 
     @property
     def covariance_(self) -> np.ndarray:
-- 
2.43.0


From 2022a4ebd219fc321d87876cfecd9e1c8bce5f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 04/24] fix: fit validates its input before discarding the
 fitted state

---
 precise/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index da7aa7a..6e9f99f 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -67,11 +67,11 @@ class BaseOnlineCovariance:
 
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
-        self._state = None
-        self._prev_x = None
         arr = np.asarray(X, dtype=float)
         if arr.ndim != 2:
             raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
+        self._state = None
+        self._prev_x = None
         return self.partial_fit(arr)
 
     def _fitted_state(self) -> dict:
-- 
2.43.0


From 2776cd6bf52f9c473e78c602b2ca041857bbf0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 05/24] fix: reject observations of the wrong width

numpy broadcasting let a row of length 1 (or, for some estimators and for p=1, any
length) into a fitted estimator, silently corrupting it. Raise ValueError before any
row of the batch is absorbed.
---
 precise/base.py        | 15 ++++++++++++++-
 precise/conditional.py |  4 +++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 6e9f99f..97d0e99 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -50,7 +50,9 @@ class BaseOnlineCovariance:
     def partial_fit(self, X, y=None) -> BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_width(rows)
+        for x in rows:
             prev_x = self._prev_x
             if use_diff:
                 if prev_x is None:
@@ -65,6 +67,17 @@ class BaseOnlineCovariance:
             self._state, self._prev_x, self.n_features_in_ = state, prev_x, len(x)
         return self
 
+    def _check_width(self, rows: np.ndarray) -> None:
+        """Reject rows that do not fit the stream seen so far, before any is absorbed."""
+        known = self.n_features_in_ if self._state is not None else None
+        if self._state is None and self._prev_x is not None:
+            known = len(self._prev_x)
+        width = rows.shape[1]
+        if len(rows) > 0 and known is not None and width != known:
+            raise ValueError(
+                f"{type(self).__name__} is tracking {known} features, got rows of {width}."
+            )
+
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
         arr = np.asarray(X, dtype=float)
diff --git a/precise/conditional.py b/precise/conditional.py
index f0d7149..adf86c5 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -131,7 +131,9 @@ class ConditionalCovariance(BaseOnlineCovariance):
         raise TypeError("vol must be a positional estimator instance or a from_skater(...) factory")
 
     def partial_fit(self, X, y=None) -> ConditionalCovariance:
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_width(rows)
+        for x in rows:
             if self._state is None:
                 d = len(x)
                 self.n_features_in_ = d
-- 
2.43.0


From f1bbef55a655e1e1a01ccb32263cd25f8f6d018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 06/24] fix: get_state/set_state carry the previous level of
 diff=True

A checkpoint of a diff=True estimator lost the previous level, so the restored estimator
skipped one difference (and one taken after the first level was None); restoring into a
used instance kept that instance's own previous level and differenced across streams.
---
 precise/base.py             | 16 ++++++++++++----
 precise/block_covariance.py | 14 +++++++-------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 97d0e99..a348f6e 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -157,22 +157,30 @@ class BaseOnlineCovariance:
     def get_state(self) -> dict | None:
         """Return the current state as a plain, JSON-friendly dict (or None if unfitted)."""
         if self._state is None:
-            return None
-        return {
+            return self._with_prev_x(None)
+        return self._with_prev_x({
             k: (v.tolist() if isinstance(v, np.ndarray) else v)
             for k, v in self._state.items()
-        }
+        })
+
+    def _with_prev_x(self, state: dict | None) -> dict | None:
+        # diff=True: the previous level is part of the stream's state.
+        if self._prev_x is None:
+            return state
+        return {**(state or {}), "prev_x": self._prev_x.tolist()}
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
         if state is None:
             self._state = None
+            self._prev_x = None
             self.n_features_in_ = None
             return self
         restored = {}
         for k, v in state.items():
             restored[k] = np.array(v, dtype=float) if isinstance(v, list) else v
-        self._state = restored
+        self._prev_x = restored.pop("prev_x", None)
+        self._state = restored or None
         n_dim = restored.get("n_dim")
         self.n_features_in_ = None if n_dim is None else int(n_dim)
         return self
diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index 90f4253..a478543 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -93,9 +93,9 @@ class BlockCovariance(BaseOnlineCovariance):
     # explicitly to flat JSON rather than relying on the base list/array coercion.
     def get_state(self) -> dict | None:
         if self._state is None:
-            return None
+            return super().get_state()
         s = self._state
-        return {
+        return self._with_prev_x({
             "n_dim": int(s["n_dim"]),
             "n_samples": int(s["n_samples"]),
             "r": float(s["r"]),
@@ -103,13 +103,11 @@ class BlockCovariance(BaseOnlineCovariance):
             "slices": [[int(a), int(b)] for a, b in s["slices"]],
             "block_means": [np.asarray(sub["mean"], dtype=float).tolist() for sub in s["subs"]],
             "block_covs": [np.asarray(sub["cov"], dtype=float).tolist() for sub in s["subs"]],
-        }
+        })
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
-        if state is None:
-            self._state = None
-            self.n_features_in_ = None
-            return self
+        if state is None or "n_samples" not in state:
+            return super().set_state(state)
         n_samples, r, n_burn = int(state["n_samples"]), float(state["r"]), int(state["n_burn"])
         slices = [(int(a), int(b)) for a, b in state["slices"]]
         subs = [
@@ -120,4 +118,6 @@ class BlockCovariance(BaseOnlineCovariance):
         self._state = {"n_dim": int(state["n_dim"]), "n_samples": n_samples, "r": r,
                        "n_burn": n_burn, "slices": slices, "subs": subs}
         self.n_features_in_ = int(state["n_dim"])
+        prev = state.get("prev_x")
+        self._prev_x = None if prev is None else np.array(prev, dtype=float)
         return self
-- 
2.43.0


From 780ee1c8a09146c1cb21c12a8daf84f3c6c3044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 07/24] fix: TylerCovariance survives an all-zero first
 observation

The shape matrix became zero and was divided by its zero trace: NaN for ever after.
---
 precise/tyler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/precise/tyler.py b/precise/tyler.py
index 356b434..3441463 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -53,7 +53,9 @@ class TylerCovariance(BaseOnlineCovariance):
         C = np.asarray(s["C"], dtype=float)
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
         C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
-        C = p * C / np.trace(C)  # fix the scale: trace == p
+        trace = np.trace(C)
+        # Fix the scale: trace == p (an all-zero scatter carries no direction: keep the shape).
+        C = p * C / trace if trace != 0 else np.asarray(s["C"], dtype=float)
         return {
             "n_dim": p, "n_samples": n, "mean": mean, "C": C, "r": s["r"], "n_burn": s["n_burn"],
         }
-- 
2.43.0


From 3a6009d96eb23882fbe29c627cf87bc48035d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 08/24] fix: correlation has a unit diagonal whatever the scale
 of the data

cov_to_corrcoef added 1e-12 to the product of standard deviations, which is as large as
the variances themselves for data of scale 1e-6 (correlation_ diagonal of 0.5).
---
 precise/_linalg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index aba34d2..e8da317 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -22,8 +22,10 @@ def to_symmetric(a: np.ndarray) -> np.ndarray:
 def cov_to_corrcoef(a: np.ndarray) -> np.ndarray:
     """Normalize a covariance matrix to a correlation matrix (unit diagonal)."""
     variances = np.diagonal(a)
-    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis]) + EPS
-    return a / denominator
+    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis])
+    # A zero-variance series is uncorrelated with everything; otherwise divide exactly, since an
+    # additive guard is not small next to the variances of small-scale data.
+    return np.divide(a, denominator, out=np.zeros_like(denominator), where=denominator != 0)
 
 
 def is_positive_def(a: np.ndarray) -> bool:
-- 
2.43.0


From b89bafcbcd122fb8a97e4d6a9adb10ebb03d1668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 09/24] fix: DynamicUniverse keeps the newest universe when it
 is full

While max_universes older universes were all still live, the newcomer was always the one
evicted, so names that joined after that were never tracked at all.
---
 precise/keyed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 8db2f31..b2e71e9 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -239,12 +239,13 @@ class DynamicUniverse(_KeyedAdapter):
         if x_keys not in [u.keys_set for u in self.states.values()]:
             fresh = _Universe(keys=x.keys(), factory=self._make)
             fresh.update(x)
-            self._add_universe(fresh)
-            if len(self.states) > self.max_universes:
+            # Make room first: the newcomer is the youngest, so it must not be a candidate.
+            if self.states and len(self.states) >= self.max_universes:
                 victim = sorted(
                     self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity)
                 )[0][0]
                 del self.states[victim]
+            self._add_universe(fresh)
         return self
 
     def _resolve_keys(self, keys) -> list[str]:
-- 
2.43.0


From 41681330a43963e42342ead0752bfdfc673abdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 10/24] fix: a malformed keyed tick leaves the adapters
 untouched

A tick with one non-numeric value raised half way: FixedUniverse had already remembered
the values before it (and fixed its universe from a rejected first tick), DynamicUniverse
had already updated some universes and made the bad tick its current one.
---
 precise/keyed.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index b2e71e9..7a16ce0 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -132,24 +132,23 @@ class FixedUniverse(_KeyedAdapter):
         self._last: np.ndarray | None = None
 
     def update(self, x: dict) -> FixedUniverse:
-        if self.keys is None:
-            self.keys = list(x.keys())
+        keys = list(x.keys()) if self.keys is None else self.keys
         if self._est is None:
             self._est = self._make()
-            self._last = np.zeros(len(self.keys))
-        assert self._last is not None  # set above on first update
-        y = np.empty(len(self.keys))
-        for i, k in enumerate(self.keys):
+        last = np.zeros(len(keys)) if self._last is None else self._last.copy()
+        y = np.empty(len(keys))
+        for i, k in enumerate(keys):
             if k in x:
                 y[i] = x[k]
-                self._last[i] = x[k]
+                last[i] = x[k]
             elif self.impute == "ffill":
-                y[i] = self._last[i]
+                y[i] = last[i]
             elif self.impute == "mean":
-                y[i] = self._est.location_[i] if self._est.n_samples_ > 0 else self._last[i]
+                y[i] = self._est.location_[i] if self._est.n_samples_ > 0 else last[i]
             else:  # "zero"
                 y[i] = 0.0
         self._est.partial_fit(y)
+        self.keys, self._last = keys, last  # only once the tick has been absorbed
         return self
 
     def cov_array(self, keys=None):
@@ -224,7 +223,9 @@ class DynamicUniverse(_KeyedAdapter):
         self._counter += 1
 
     def update(self, x: dict) -> DynamicUniverse:
-        self.x = dict(x)
+        tick = dict(x)
+        np.array(list(tick.values()), dtype=float)  # a malformed tick must not reach any universe
+        self.x = tick
         x_keys = set(x.keys())
 
         for universe in self.states.values():
-- 
2.43.0


From 8f6e892cc754b2a38746ca3d6aa7ec310e4ddf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 11/24] fix: freezing the recommender replaces the model file
 atomically

write_text truncated the shipped model first, so a crash or a full disk while exporting
left a truncated module, and 'import precise' failing with a SyntaxError.
---
 research/train_recommender.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index 12976b7..c6ccbf3 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -12,6 +12,7 @@ the frozen tree. This is the humpday-style "train offline, ship a frozen model"
 
 from __future__ import annotations
 
+import os
 from pathlib import Path
 
 import numpy as np
@@ -74,7 +75,13 @@ def export(clf, mean, std):
         f"VALUE = {[[int(c) for c in node[0]] for node in t.value]!r}",
         "",
     ]
-    _OUT.write_text("\n".join(lines))
+    # Replace the shipped model in one step: a crash or a full disk must leave the old one intact.
+    tmp = _OUT.with_name(_OUT.name + ".tmp")
+    with open(tmp, "w") as fh:
+        fh.write("\n".join(lines))
+        fh.flush()
+        os.fsync(fh.fileno())
+    os.replace(tmp, _OUT)
 
 
 def main():
-- 
2.43.0


From a38eb0e7252bbd9a37cd7e0f245988b49a3a54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 12/24] fix: export the recommender's leaf counts, not their
 truncated fractions

Since scikit-learn 1.3 tree_.value holds class fractions, so int() turned every impure
leaf into all zeros and the frozen tree had nothing to say there.
---
 research/train_recommender.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index c6ccbf3..a5d7f94 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -60,6 +60,9 @@ def export(clf, mean, std):
         "Numpy-only decision tree walked by precise.suggest; do not edit by hand.\n"
         '"""'
     )
+    # scikit-learn >= 1.3 stores class fractions, not counts: scale back to counts per leaf.
+    frac = t.value[:, 0, :] / t.value[:, 0, :].sum(axis=1, keepdims=True)
+    counts = np.rint(frac * t.n_node_samples[:, None]).astype(int)
     lines = [
         docstring,
         "# ruff: noqa: E501  (generated data tables: tree arrays are single long lines by design)",
@@ -72,7 +75,7 @@ def export(clf, mean, std):
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
         f"RIGHT = {t.children_right.tolist()!r}",
-        f"VALUE = {[[int(c) for c in node[0]] for node in t.value]!r}",
+        f"VALUE = {counts.tolist()!r}",
         "",
     ]
     # Replace the shipped model in one step: a crash or a full disk must leave the old one intact.
-- 
2.43.0


From 6b667f780505c67eda85a618e149084f18f1c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 13/24] fix: seeded experiments draw randomcov matrices from
 their own generator

The randomcov scenarios ignored seed= and drew from fresh entropy, so no two runs of a
seeded bake-off, out-of-sample trial or recommender training agreed.
---
 research/bakeoff.py | 2 +-
 research/oos.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/research/bakeoff.py b/research/bakeoff.py
index 358bf9a..343cd1b 100644
--- a/research/bakeoff.py
+++ b/research/bakeoff.py
@@ -102,7 +102,7 @@ def build_scenarios(d=12, n=1500, n_test=500, seed=0):
     if HAVE_RANDOMCOV:
         for method in ("lkj", "wishart", "residuals"):
             try:
-                cov = np.asarray(random_covariance_matrix(n=d, corr_method=method))
+                cov = np.asarray(random_covariance_matrix(n=d, corr_method=method, rng=rng))
                 tr, te = _gaussian(cov, n, rng), _gaussian(cov, n_test, rng)
                 scs.append((f"randomcov_{method}", tr, te, cov))
             except Exception:  # pragma: no cover - depends on randomcov internals
diff --git a/research/oos.py b/research/oos.py
index 52610f3..87adf34 100644
--- a/research/oos.py
+++ b/research/oos.py
@@ -82,7 +82,9 @@ ENSEMBLES = {
 if HAVE_RANDOMCOV:  # pragma: no cover
     for _m in ("lkj", "wishart", "residuals"):
         ENSEMBLES[f"randomcov_{_m}"] = (
-            (lambda p, rng, m=_m: np.asarray(random_covariance_matrix(n=p, corr_method=m))),
+            (lambda p, rng, m=_m: np.asarray(
+                random_covariance_matrix(n=p, corr_method=m, rng=rng)
+            )),
             False,
         )
 
-- 
2.43.0


From fb28e0b43090f2b856492909d976bd80ab723641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 14/24] fix: constant-correlation shrinkage keeps small-scale
 estimates positive semi-definite

---
 precise/shrunk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/precise/shrunk.py b/precise/shrunk.py
index be3d17b..c3a419c 100644
--- a/precise/shrunk.py
+++ b/precise/shrunk.py
@@ -12,6 +12,7 @@ from __future__ import annotations
 
 import numpy as np
 
+from precise._linalg import cov_to_corrcoef
 from precise._state import ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -50,8 +51,10 @@ class ShrunkCovariance(BaseOnlineCovariance):
         if self.target == "identity":
             target = (np.trace(S) / p) * np.eye(p)
         else:  # constant_correlation
-            d = np.sqrt(np.maximum(np.diag(S), 1e-12))
-            corr = S / np.outer(d, d)
+            # The true variances: a floor would put entries in the target that the preserved
+            # (smaller) diagonal cannot carry, and the estimate would stop being a covariance.
+            d = np.sqrt(np.diag(S))
+            corr = cov_to_corrcoef(S)
             off = corr[~np.eye(p, dtype=bool)]
             rbar = float(np.mean(off)) if off.size else 0.0
             target = rbar * np.outer(d, d)
-- 
2.43.0


From 37a0905f4657fa06561e6133404e4c49226c9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 15/24] fix: BlockCovariance precision falls back when a block
 cannot be inverted

---
 precise/block_covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index a478543..fd1b124 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -18,7 +18,7 @@ from __future__ import annotations
 
 import numpy as np
 
-from precise._linalg import make_pos_def, to_symmetric
+from precise._linalg import make_pos_def, to_symmetric, try_invert
 from precise._state import ewa_burn_n, ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -80,7 +80,7 @@ class BlockCovariance(BaseOnlineCovariance):
         p = state["n_dim"]
         out = np.zeros((p, p))
         for sub, (a, b) in zip(state["subs"], state["slices"]):
-            out[a:b, a:b] = np.linalg.inv(self._pd_block(sub))
+            out[a:b, a:b] = try_invert(self._pd_block(sub))
         return out
 
     def _state_to_mean(self, state: dict) -> np.ndarray:
-- 
2.43.0


From 7e87a9516bd84b8db467ea16368730a12e26a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 16/24] fix: the geodesic step stays positive definite under
 rounding

---
 precise/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index e8da317..463c107 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -111,4 +111,5 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     evals_m = np.clip(evals_m, 0.0, None) ** gamma
     middle_power = (evecs_m * evals_m) @ evecs_m.T
 
-    return to_symmetric(start_sqrt @ middle_power @ start_sqrt)
+    # Both ends are floored, so the geodesic between them is too; rounding must not undo that.
+    return make_pos_def(start_sqrt @ middle_power @ start_sqrt)
-- 
2.43.0


From 0d834051e2e2422c4e6de9a293a480fc571a4489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 17/24] fix: correlations of series with vanishing variance do
 not underflow

---
 precise/_linalg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 463c107..50a531b 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -21,11 +21,12 @@ def to_symmetric(a: np.ndarray) -> np.ndarray:
 
 def cov_to_corrcoef(a: np.ndarray) -> np.ndarray:
     """Normalize a covariance matrix to a correlation matrix (unit diagonal)."""
-    variances = np.diagonal(a)
-    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis])
+    std = np.sqrt(np.diagonal(a))
     # A zero-variance series is uncorrelated with everything; otherwise divide exactly, since an
-    # additive guard is not small next to the variances of small-scale data.
-    return np.divide(a, denominator, out=np.zeros_like(denominator), where=denominator != 0)
+    # additive guard is not small next to the variances of small-scale data. One factor at a time:
+    # the product of two vanishing variances underflows.
+    denominator = np.where(std != 0, std, np.inf)
+    return a / denominator[:, np.newaxis] / denominator[np.newaxis, :]
 
 
 def is_positive_def(a: np.ndarray) -> bool:
-- 
2.43.0


From 3ae597b617df124bd1a94b0f4d8b061aebb74b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 18/24] fix: inversion falls back when the inverse overflows

---
 precise/_linalg.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 50a531b..d5b99e8 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -81,12 +81,15 @@ def affine_shrink(a: np.ndarray, phi: float = 1.01, lmbd: float = 0.01) -> np.nd
 def try_invert(a: np.ndarray, phi: float = 1.01, lmbd: float = 0.01) -> np.ndarray:
     """Invert a matrix, falling back to pseudo-inverse then ridge+shrinkage."""
     try:
-        return np.linalg.inv(a)
+        inverse = np.linalg.inv(a)
+        if np.all(np.isfinite(inverse)):  # an inverse that overflows is no inverse
+            return inverse
     except np.linalg.LinAlgError:
-        try:
-            return np.linalg.pinv(a)
-        except np.linalg.LinAlgError:
-            return np.linalg.inv(affine_shrink(a, phi=phi, lmbd=lmbd))
+        pass
+    try:
+        return np.linalg.pinv(a)
+    except np.linalg.LinAlgError:
+        return np.linalg.inv(affine_shrink(a, phi=phi, lmbd=lmbd))
 
 
 def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarray:
-- 
2.43.0


From 9524266f3230d410b67e280ac0fca8be0e76e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 19/24] fix: the nearest positive-definite projection always
 terminates

---
 precise/_linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index d5b99e8..1f4a7fe 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -50,12 +50,13 @@ def nearest_pos_def(a: np.ndarray) -> np.ndarray:
     if is_positive_def(a3):
         return a3
 
-    spacing = np.spacing(np.linalg.norm(a))
+    spacing = np.spacing(np.max(s))  # the Frobenius norm would underflow for tiny entries
     identity = np.eye(a.shape[0])
     k = 1
     while not is_positive_def(a3):
         mineig = np.min(np.real(np.linalg.eigvals(a3)))
-        a3 += identity * (-mineig * k**2 + spacing)
+        # Never step back, and keep growing: rounding may hide the eigenvalue that is missing.
+        a3 += identity * (max(-mineig, 0.0) + spacing) * k**2
         k += 1
     return a3
 
-- 
2.43.0


From ecc2a255b468d7345f72b5d96394d726e49b30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 20/24] fix: a checkpoint taken while rows arrive is of one
 instant

get_state read the state, then the previous level of diff=True, and a pickle
read the previous level twice: a thread absorbing a row in between left a
checkpoint of two different instants.
---
 precise/base.py             | 28 +++++++++++++---------------
 precise/block_covariance.py |  9 +++------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index a348f6e..e798c9c 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -156,18 +156,17 @@ class BaseOnlineCovariance:
     # ------------------------------------------------------- serialization
     def get_state(self) -> dict | None:
         """Return the current state as a plain, JSON-friendly dict (or None if unfitted)."""
-        if self._state is None:
-            return self._with_prev_x(None)
-        return self._with_prev_x({
-            k: (v.tolist() if isinstance(v, np.ndarray) else v)
-            for k, v in self._state.items()
-        })
-
-    def _with_prev_x(self, state: dict | None) -> dict | None:
-        # diff=True: the previous level is part of the stream's state.
-        if self._prev_x is None:
+        # Taken together: another thread may be absorbing rows meanwhile.
+        state, prev_x = self._state, self._prev_x
+        if state is not None:
+            state = self._state_to_json(state)
+        if prev_x is None:
             return state
-        return {**(state or {}), "prev_x": self._prev_x.tolist()}
+        # diff=True: the previous level is part of the stream's state.
+        return {**(state or {}), "prev_x": prev_x.tolist()}
+
+    def _state_to_json(self, state: dict) -> dict:
+        return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in state.items()}
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
@@ -188,17 +187,16 @@ class BaseOnlineCovariance:
     def __getstate__(self) -> dict:
         return {
             "params": self.get_params(),
-            "state": self.get_state(),
+            "state": self.get_state(),  # the previous level of diff=True included
             "n_features_in_": self.n_features_in_,
-            "prev_x": None if self._prev_x is None else self._prev_x.tolist(),
         }
 
     def __setstate__(self, data: dict) -> None:
         self.__init__(**data["params"])  # type: ignore[misc]
         self.set_state(data["state"])
         self.n_features_in_ = data.get("n_features_in_")
-        prev = data.get("prev_x")
-        self._prev_x = None if prev is None else np.array(prev, dtype=float)
+        if data.get("prev_x") is not None:  # pickled by an earlier version
+            self._prev_x = np.array(data["prev_x"], dtype=float)
 
     def __repr__(self) -> str:
         params = ", ".join(f"{k}={getattr(self, k)!r}" for k in self._param_names())
diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index fd1b124..058dc0b 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -91,11 +91,8 @@ class BlockCovariance(BaseOnlineCovariance):
 
     # The state holds a list of per-block sub-dicts (nested arrays), so we serialize it
     # explicitly to flat JSON rather than relying on the base list/array coercion.
-    def get_state(self) -> dict | None:
-        if self._state is None:
-            return super().get_state()
-        s = self._state
-        return self._with_prev_x({
+    def _state_to_json(self, s: dict) -> dict:
+        return {
             "n_dim": int(s["n_dim"]),
             "n_samples": int(s["n_samples"]),
             "r": float(s["r"]),
@@ -103,7 +100,7 @@ class BlockCovariance(BaseOnlineCovariance):
             "slices": [[int(a), int(b)] for a, b in s["slices"]],
             "block_means": [np.asarray(sub["mean"], dtype=float).tolist() for sub in s["subs"]],
             "block_covs": [np.asarray(sub["cov"], dtype=float).tolist() for sub in s["subs"]],
-        })
+        }
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         if state is None or "n_samples" not in state:
-- 
2.43.0


From a32c9ab607b943fd4e6be2b876c605941d0a36a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 21/24] fix: the exported recommender can be imported again

With numpy 2 the class names were written as np.str_('...'), and importing the
frozen model, and with it the package, failed with a NameError.
---
 research/train_recommender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index a5d7f94..ea7b5fe 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -70,7 +70,7 @@ def export(clf, mean, std):
         f"FEATURES = {FEATURES!r}",
         f"MEAN = {[round(float(v), 6) for v in mean]!r}",
         f"STD = {[round(float(v), 6) for v in std]!r}",
-        f"CLASSES = {list(clf.classes_)!r}",
+        f"CLASSES = {[str(c) for c in clf.classes_]!r}",
         f"FEATURE = {t.feature.tolist()!r}",
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
-- 
2.43.0


From af9a5389bf7a94ea49d5ccb52cda301807ccb581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 22/24] fix: an estimator without a score cannot win a trial

A NaN score was the maximum for argmax, so a failing estimator became the label
of a training problem, and it left the ranks of a trial in no particular order.
One that raised stopped the generation of training data.
---
 research/oos.py               | 23 +++++++++++------------
 research/train_recommender.py |  4 ++--
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/research/oos.py b/research/oos.py
index 87adf34..c68e647 100644
--- a/research/oos.py
+++ b/research/oos.py
@@ -104,6 +104,15 @@ def _ranks(scores: dict) -> dict:
     return {nm: i + 1 for i, nm in enumerate(order)}
 
 
+def _score(cls, train, test, assessor):
+    """Score one estimator OOS; one that fails, or has no number for a score, comes last."""
+    try:
+        score = assessor.score(cls().fit(train).covariance_, X_test=test)
+    except Exception:
+        return -np.inf
+    return -np.inf if np.isnan(score) else score
+
+
 def _trial(gen, heavy, p, n_train, n_test, rng, assessor, recommender=None):
     """One trial: score every estimator OOS, and record the recommended one.
 
@@ -114,12 +123,7 @@ def _trial(gen, heavy, p, n_train, n_test, rng, assessor, recommender=None):
     true_cov = gen(p, rng)
     train = _sample(true_cov, n_train, rng, heavy)
     test = _sample(true_cov, n_test, rng, heavy)
-    scores = {}
-    for cls in all_estimators():
-        try:
-            scores[cls.__name__] = assessor.score(cls().fit(train).covariance_, X_test=test)
-        except Exception:
-            scores[cls.__name__] = -np.inf
+    scores = {cls.__name__: _score(cls, train, test, assessor) for cls in all_estimators()}
     if recommender is not None:
         recommended = recommender(train)
     else:
@@ -183,12 +187,7 @@ def _train_recommender(train_ensembles, n_problems, rng, assessor):
         n = max(int(p * rng.choice([0.5, 0.8, 1.5, 3.0])), 10)
         true = gen(p, rng)
         tr, te = _sample(true, n, rng, heavy), _sample(true, 400, rng, heavy)
-        scores = []
-        for E in ests:
-            try:
-                scores.append(assessor.score(E().fit(tr).covariance_, X_test=te))
-            except Exception:
-                scores.append(-np.inf)
+        scores = [_score(E, tr, te, assessor) for E in ests]
         Xf.append(_features(tr))
         y.append(names[int(np.argmax(scores))])
     X = np.asarray(Xf, dtype=float)
diff --git a/research/train_recommender.py b/research/train_recommender.py
index ea7b5fe..c1a5d13 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -20,7 +20,7 @@ from sklearn.tree import DecisionTreeClassifier
 
 from precise import all_estimators, covariance_features
 from precise.assessment import GMVVariance
-from research.oos import ENSEMBLES, _sample
+from research.oos import ENSEMBLES, _sample, _score
 
 FEATURES = [
     "p_over_n", "effective_rank", "sphericity", "condition_number",
@@ -47,7 +47,7 @@ def generate(n_problems=800, seed=0):
         n = max(int(p * rng.choice([0.5, 0.8, 1.5, 3.0])), 10)
         true = gen_fn(p, rng)
         train, test = _sample(true, n, rng, heavy), _sample(true, 400, rng, heavy)
-        scores = [assessor.score(E().fit(train).covariance_, X_test=test) for E in ests]
+        scores = [_score(E, train, test, assessor) for E in ests]
         Xf.append(_features(train))
         y.append(names[int(np.argmax(scores))])
     return np.array(Xf, dtype=float), np.array(y), names
-- 
2.43.0


From df1d9227b1f2d5a79fa0489caf216423f5e56af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 23/24] fix: a judge without a number ranks an estimator last
 in the bake-off

---
 research/bakeoff.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/research/bakeoff.py b/research/bakeoff.py
index 343cd1b..b3f5167 100644
--- a/research/bakeoff.py
+++ b/research/bakeoff.py
@@ -126,9 +126,11 @@ def run(**kwargs):
             for a in assessors:
                 if a.usable(have_data=True, have_truth=True):
                     try:
-                        scores[a.name] = float(a.score(cov, X_test=test, true_cov=true_cov))
+                        score = float(a.score(cov, X_test=test, true_cov=true_cov))
                     except Exception:
-                        scores[a.name] = -np.inf
+                        score = -np.inf
+                    # no number for a score cannot be ranked: it comes last, like a failure
+                    scores[a.name] = -np.inf if np.isnan(score) else score
             results[Est.__name__][name] = scores
     return results
 
-- 
2.43.0


From 8ef273498b4320c68bb045fd7c5f1b435c75b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:03 +0000
Subject: [PATCH 24/24] fix: score and mahalanobis refuse rows of the wrong
 width instead of broadcasting them

---
 precise/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/precise/base.py b/precise/base.py
index e798c9c..67a8979 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -126,6 +126,11 @@ class BaseOnlineCovariance:
         """Squared Mahalanobis distance of each row of ``X`` from ``location_``."""
         rows = as_rows(X)
         prec = self.precision_
+        width = rows.shape[1]
+        if width != len(prec):  # a single column would broadcast
+            raise ValueError(
+                f"{type(self).__name__} is tracking {len(prec)} features, got rows of {width}."
+            )
         centered = rows - self.location_
         return np.einsum("ij,jk,ik->i", centered, prec, centered)
 
-- 
2.43.0

