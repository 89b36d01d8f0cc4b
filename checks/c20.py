"""C20: freezing the recommender is crash-atomic and faithful."""
import atexit
import importlib
import os
import shutil
import sys
import tempfile

import numpy as np

from sim import core, disk
from sim.core import Check, Violation, in_fork

MODEL = os.path.join("precise", "_recommender_model.py")
FLAVOURS = ["gauss", "heavy", "factor", "scaled", "tiny"]


def window(seed, n, p, flavour):
    """A data window whose features range widely."""
    g = np.random.default_rng(seed)
    X = g.standard_normal((n, p))
    if flavour == "heavy":
        X = g.standard_t(3, (n, p))
    elif flavour == "factor":
        X = X * 0.3 + g.standard_normal((n, 1)) * g.uniform(0.5, 1.5, p)
    elif flavour == "scaled":
        X = X * 10.0 ** g.uniform(-2, 2, p)
    elif flavour == "tiny":
        X = X * 1e-4
    return X


class Tree:
    """A scratch copy of the code under test, imported from there: one per simulating process."""

    def __init__(self, base):
        self.root = tempfile.mkdtemp(prefix="tree-", dir=base)
        ignore = shutil.ignore_patterns("__pycache__", "data", "legacy*", "*.csv")
        for name in ("precise", "research"):
            shutil.copytree(os.path.join(core.REPO, name), os.path.join(self.root, name), ignore=ignore)
        for name in [m for m in sys.modules if m.split(".")[0] in ("precise", "research")]:
            del sys.modules[name]
        sys.path.insert(0, self.root)
        core.CODE.append(self.root + os.sep)
        importlib.invalidate_caches()
        self.precise = importlib.import_module("precise")
        self.tr = importlib.import_module("research.train_recommender")
        for m in (self.precise, self.tr):
            if not os.path.realpath(m.__file__).startswith(os.path.realpath(self.root)):
                raise RuntimeError(f"imported {m.__file__}")
        self.model = os.path.join(self.root, MODEL)
        self.shipped = disk.snapshot(self.root)


class _G:
    base = None
    tree = None
    pid = None


def tree():
    if _G.pid != os.getpid():
        _G.tree, _G.pid = Tree(_G.base), os.getpid()
    return _G.tree


def values(source):
    """What a model file defines, or None when it cannot be executed."""
    ns = {}
    try:
        exec(compile(source, "model", "exec"), ns)
    except BaseException:  # noqa: BLE001
        return None
    return {k: v for k, v in ns.items() if k.isupper()}


class C20(Check):
    ID = "C20"
    QUICK_RUNS = 500
    THOROUGH_RUNS = 30000
    SLICE = 50
    RULE = ("One run trains a small real decision tree, exports it in a scratch copy of the code over an old (or no) model, first "
            "undisturbed (then the frozen model is walked for random windows and compared with the tree), then again and "
            "again with the process killed, the power cut, an interrupt, a failing operation, a write cut short or a full "
            "disk at a random point, checking the surviving file and exporting once more. Non-trivial when a fault fired.")
    REAL = "research/train_recommender.py export and main, precise.recommend, scikit-learn trees, the real file system"
    STUB = "the 800 generated training problems of main() (a table of features and labels is supplied)"
    ASSUMPTIONS = ["rename is atomic on the file system; features within rounding of a threshold (six decimals are kept) are not compared",
                   "power loss keeps directory operations and loses file data that was not synced"]

    def prepare(self):
        import sklearn.tree  # noqa: F401
        import scipy.sparse  # noqa: F401
        _G.base = tempfile.mkdtemp(prefix="verif-c20-")
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_G.base, ignore_errors=True))

    def generate(self, rng, tier):
        attacks = []
        for _ in range(rng.randint(2, 6)):
            kind = rng.choice(["kill", "kill", "power", "power", "interrupt", "error", "error", "short", "cut"])
            a = {"kind": kind, "at": round(rng.random(), 4)}
            if kind == "error":
                a["error"] = rng.choice(["full", "io", "denied"])
            if kind == "power":
                a["at"] = round(1 - rng.random() ** 3, 4)  # data is at risk from the rename on
                a["keep"] = rng.choice([0.0, 0.0, 0.5, round(rng.random(), 3)])
            attacks.append(a)
        return {"seed_data": rng.randrange(10**6), "problems": rng.choice([12, 30, 60, 120]), "depth": rng.choice([1, 2, 3, 5]),
                "leaf": rng.choice([1, 1, 3, 10]), "classes": rng.choice([1, 2, 3, 5, 17]), "via": rng.choice(["export", "export", "main"]),
                "old": rng.choice(["shipped", "shipped", "other", "none"]), "windows": rng.choice([5, 20, 40]), "ops": attacks}

    def shrink_paths(self, program):
        return [("ops",)]

    def execute(self, program, res):
        t = tree()
        was = dict(t.shipped)
        try:
            self._execute(program, res, t, was)
        finally:
            disk.restore(t.root, t.shipped)

    def _execute(self, program, res, t, was):
        from sklearn.tree import DecisionTreeClassifier
        features, FEATURES = t.precise.covariance_features, list(t.tr.FEATURES)
        names = [c.__name__ for c in t.precise.all_estimators()]
        rng = core.rng_for("c20", program["seed_data"])

        def some_window():
            p = rng.choice([1, 2, 3, 5, 8, 12])
            n = max(2, int(p * rng.choice([0.5, 1.0, 2.0, 5.0])))
            return window(rng.randrange(10**6), n, p, rng.choice(FLAVOURS))

        def vector(X):
            f = features(X)
            return [float(f[k]) for k in FEATURES]

        X = np.array([vector(some_window()) for _ in range(program["problems"])])
        pick = rng.sample(names, program["classes"])
        j = rng.randrange(X.shape[1])
        cut = np.argsort(np.argsort(X[:, j])) * len(pick) // len(X)
        y = np.array([pick[int(c)] if rng.random() < 0.7 else rng.choice(pick) for c in cut])

        def train(X, y, depth, leaf):
            mean, std = X.mean(0), X.std(0) + 1e-9
            clf = DecisionTreeClassifier(max_depth=depth, min_samples_leaf=leaf, random_state=0)
            return clf.fit((X - mean) / std, y), mean, std

        main = program["via"] == "main"
        clf, mean, std = train(X, y, *((5, 10) if main else (program["depth"], program["leaf"])))

        def export():
            if main:
                t.tr.generate = lambda *a, **k: (X, y, names)
                t.tr.main()
            else:
                t.tr.export(clf, mean, std)

        # the model that is there before
        if program["old"] == "none":
            os.remove(t.model)
        elif program["old"] == "other":
            other = train(X[::2], y[::2][::-1], 5, 1)
            rep = disk.run(t.root, lambda: t.tr.export(*other))
            if rep["how"] != "done":
                raise Violation("export-failed", f"undisturbed export: {rep['error']}")
            res.ticks += 1
        before = disk.snapshot(t.root)
        old = before.get(MODEL)

        def rest(s):
            return {k: v for k, v in s.items() if k != MODEL}

        # undisturbed
        rep = disk.run(t.root, export)
        if rep["how"] != "done":
            raise Violation("export-failed", f"undisturbed {program['via']}: {rep['error']}")
        after = disk.snapshot(t.root)
        changed = sorted(k for k in set(rest(before)) | set(rest(after)) if before.get(k) != after.get(k))
        if changed:
            raise Violation("other-files", f"exporting changed {changed}")
        new = after.get(MODEL)
        if new is None or values(new) is None:
            raise Violation("unusable-model", f"after a successful export the model file is {new if new is None else 'broken'}")
        points = rep["points"]
        res.ticks += 1
        self.faithful(program, res, t, clf, mean, std, (X - mean) / std, y, [some_window() for _ in range(program["windows"])])

        # disturbed
        for op in program["ops"]:
            disk.restore(t.root, before)
            a = dict(op)
            if a["kind"] in ("short", "cut"):
                a["bytes"] = int(a.pop("at") * (len(new) + 1))
            else:
                n = points["io" if a["kind"] == "error" else "any"]
                if n == 0:
                    continue
                a["at"] = min(n - 1, int(a["at"] * n))
            rep = disk.run(t.root, export, a)
            fired = rep["how"] in ("stopped", "cut") or rep["where"] is not None or (a["kind"] == "short" and rep["how"] == "raised")
            if fired:
                res.faults[{"cut": "killed in a write", "short": "write cut short, disk full", "kill": "process killed",
                            "power": "power lost"}.get(a["kind"], a["kind"]) + (":" + a["error"] if "error" in a else "")] += 1
                res.nontrivial = True
            if rep.get("lost"):
                res.faults["un-synced data lost"] += rep["lost"]
            res.log(a, rep["how"], rep["where"])
            res.ticks += 1
            res.evals += 1
            now = disk.snapshot(t.root)
            got = now.get(MODEL)
            what = f"{a} at {rep['where']} ({rep['error'] or rep['how']})"
            if got != old and got != new:
                v = None if got is None else values(got)
                if v is None or v not in ([values(new)] + ([values(old)] if old is not None else [])):
                    raise Violation("torn-model", f"{what}: the model file holds {'nothing' if got is None else repr(got[-60:])} "
                                    f"({len(got or b'')} bytes, old {len(old or b'')}, new {len(new)})")
            if rep["how"] == "done" and got != new and values(got) != values(new):
                raise Violation("silent-failure", f"{what}: the export returned and left the old model")
            changed = sorted(k for k in rest(before) if before[k] != now.get(k))
            if changed:
                raise Violation("other-files", f"{what}: changed {changed}")
            if got == old and old is not None and rep["how"] != "done":
                res.probes["old model survived"] += 1
            elif got == new and rep["how"] != "done":
                res.probes["new model was already complete"] += 1
            # whatever it left behind, the next export works
            rep = disk.run(t.root, export)
            got = disk.snapshot(t.root).get(MODEL)
            if rep["how"] != "done" or got is None or (got != new and values(got) != values(new)):
                raise Violation("no-recovery", f"after {what} the next export gave {rep['error'] or rep['how']}")

    def faithful(self, program, res, t, clf, mean, std, Xs, y, windows):
        """The frozen model against the tree it was exported from."""
        leaf_of = clf.apply(Xs.astype(np.float32))
        counts = {leaf: {c: int((y[leaf_of == leaf] == c).sum()) for c in set(y)} for leaf in set(leaf_of)}
        tree_, FEATURES = clf.tree_, list(t.tr.FEATURES)

        def frozen():
            for m in ("precise._recommender_model", "precise.recommend"):
                sys.modules.pop(m, None)
            importlib.invalidate_caches()
            r = importlib.import_module("precise.recommend")
            n = len(t.precise.all_estimators())
            out = []
            for W in windows:
                out.append(([c.__name__ for c in r.suggest(W, top=n)], r.covariance_features(W)))
            # the same without a model: the order ties are broken in
            for m in ("precise._recommender_model", "precise.recommend"):
                sys.modules.pop(m, None)
            if hasattr(t.precise, "_recommender_model"):
                del t.precise._recommender_model
            sys.modules["precise._recommender_model"] = None
            r = importlib.import_module("precise.recommend")
            return out, [[c.__name__ for c in r.suggest(W, top=n)] for W in windows]

        got, plain = in_fork(frozen)
        for (ranking, f), base in zip(got, plain):
            x = np.array([float(f[k]) for k in FEATURES])
            xs = (x - mean) / std
            slack = (1e-6 + 1e-6 * np.abs(xs)) / std + 1e-6 + 1e-6 * np.abs(xs)
            node, close = 0, False
            while tree_.children_left[node] != -1:
                j = tree_.feature[node]
                close |= not abs(xs[j] - tree_.threshold[node]) > 2 * slack[j]
                node = tree_.children_left[node] if xs[j] <= tree_.threshold[node] else tree_.children_right[node]
            if close:
                res.probes["too close to a threshold: not compared"] += 1
                continue
            res.evals += 1
            have = counts.get(node, {})
            want = sorted(base, key=lambda c: -have.get(c, 0))
            if ranking != want:
                raise Violation("unfaithful", f"suggest ranks {ranking[:4]}, the tree's leaf {node} holds {have} so {want[:4]}")


CHECK = C20()
