"""C22: walk-forward and held-out evaluations never leak and survive failing estimators."""
import contextlib

import numpy as np

from sim import core, gen
from sim.core import Check, Violation
from sim.obs import dist

MODES = ["ok", "ok", "ok", "fit raises", "covariance_ raises", "score raises", "score is nan", "sometimes fit raises",
         "sometimes score is nan"]
ERRORS = [ValueError, np.linalg.LinAlgError, MemoryError, RuntimeError, ZeroDivisionError, FloatingPointError]


@contextlib.contextmanager
def patched(*triples):
    """Replace what a module looks up under these names (or, where it no longer has one, what the package offers)."""
    import precise
    from precise import assessment
    triples = [(next((x for x in (m, precise, assessment) if hasattr(x, k)), m), k, v) for m, k, v in triples]
    old = [(m, k, getattr(m, k)) for m, k, _ in triples]
    try:
        for m, k, v in triples:
            setattr(m, k, v)
        yield
    finally:
        for m, k, v in old:
            setattr(m, k, v)


class Lab:
    """Recording stand-ins for the estimators, the judge, the recommender and the families."""

    def __init__(self, program, res):
        import precise
        self.program, self.res = program, res
        self.trials = []
        names = [c.__name__ for c in precise.all_estimators()]
        self.classes = [self.estimator(names[i % len(names)], i, mode) for i, mode in enumerate(program["modes"])]
        self.names = [c.__name__ for c in self.classes]

    def now(self):
        if not self.trials:
            raise Violation("no-trial", "an estimator is judged before any family was drawn")
        return self.trials[-1]

    def fails(self, i, mode):
        """Does estimator i fail in this trial, and how?"""
        if mode.startswith("sometimes "):
            hit = core.rng_for("fail", self.program["seed_trials"], len(self.trials), i).random() < 0.4
            return mode[len("sometimes "):] if hit else "ok"
        return mode

    def estimator(self, name, i, mode):
        lab = self
        error = ERRORS[i % len(ERRORS)]

        class Stub:
            X = None

            def fit(self, X, y=None):
                self.X = None
                return self.partial_fit(X)

            def partial_fit(self, X, y=None):
                t = lab.now()
                X, old = np.atleast_2d(np.array(X, dtype=float)), self.X
                self.X = X if old is None else np.vstack([old, X])
                # what this instance has been fitted on by now
                mine = t["fits"].setdefault(name, [])
                if old is not None and mine and mine[-1] is old:
                    mine.pop()
                mine.append(self.X)
                if lab.fails(i, mode) == "fit raises":
                    t["failed"].add(name)
                    lab.res.faults["estimator fails to fit"] += 1
                    raise error("injected")
                return self

            @property
            def covariance_(self):
                t = lab.now()
                if lab.fails(i, mode) == "covariance_ raises":
                    t["failed"].add(name)
                    lab.res.faults["estimate fails"] += 1
                    raise error("injected")
                p = t["fits"][name][-1].shape[1]
                C = np.eye(p)
                C[0, 0] = i + 2.0
                return C

        Stub.__name__ = Stub.__qualname__ = name
        return Stub

    def score(self, cov, X_test=None, **kw):
        t = self.now()
        i = int(round(float(cov[0, 0]))) - 2
        name, mode = self.names[i], self.program["modes"][i]
        t["tests"].append(np.array(X_test))
        how = self.fails(i, mode)
        if how == "score raises":
            t["failed"].add(name)
            self.res.faults["score fails"] += 1
            raise ERRORS[i % len(ERRORS)]("injected")
        if how == "score is nan":
            t["failed"].add(name)
            self.res.faults["score is nan"] += 1
            return float("nan")
        v = core.rng_for("score", self.program["seed_trials"], len(self.trials), i).uniform(-3, 3)
        # families have favourites, so that the fixed choice depends on what it is chosen on
        v += 4.0 * (core.rng_for("taste", self.program["seed_trials"], t["family"], i).random() < 0.3)
        t["scores"][name] = v
        return v

    def suggest(self, X, top=3):
        t = self.now()
        t["suggest"].append(np.array(X))
        k = core.rng_for("suggest", self.program["seed_trials"], len(self.trials)).randrange(len(self.classes))
        t["rec"] = self.names[k]
        return (self.classes[k:] + self.classes[:k])[:top]

    def families(self, full, chosen):
        def wrap(name, f):
            def draw(p, rng):
                self.trials.append({"family": name, "fits": {}, "scores": {}, "failed": set(), "tests": [], "suggest": []})
                return f(p, rng)
            return draw
        return {k: (wrap(k, full[k][0]), full[k][1]) for k in chosen}

    # -- what one trial must look like
    def check_trial(self, t, shape=None, judge=True):
        seen = sorted(t["fits"])
        if seen != sorted(self.names):
            raise Violation("estimator-skipped", f"{sorted(set(self.names) - set(seen))} took no part in a trial")
        train = t["fits"][self.names[0]][0]
        for k, Xs in t["fits"].items():
            if any(not np.array_equal(X, train) for X in Xs):
                raise Violation("unequal-terms", f"{k} was fitted on other rows than {self.names[0]}")
        for T in t["tests"]:
            if not np.array_equal(T, t["tests"][0]):
                raise Violation("unequal-terms", "estimators were judged on different rows")
            if any((T == row).all(axis=1).any() for row in train):
                raise Violation("leak", "an estimator was judged on rows it was fitted on")
        for X in t["suggest"]:
            if not np.array_equal(X, train):
                raise Violation("leak", "the recommender saw other rows than the training window")
        if shape and (train.shape != (shape[0], shape[2]) or (t["tests"] and t["tests"][0].shape != (shape[1], shape[2]))):
            raise Violation("window", f"fitted on {train.shape}, judged on {t['tests'][0].shape if t['tests'] else None}, {shape} asked")
        self.res.evals += 1
        return train

    def ranks(self, t):
        """name -> (best, worst) rank it may be given; failures share the last places."""
        good = sorted((k for k in self.names if k not in t["failed"]), key=lambda k: -t["scores"][k])
        out = {k: (i + 1, i + 1) for i, k in enumerate(good)}
        for k in self.names:
            if k not in out:
                out[k] = (len(good) + 1, len(self.names))
        return out


def bounds(ranks, name):
    return (np.mean([r[name][0] for r in ranks]), np.mean([r[name][1] for r in ranks]))


class C22(Check):
    ID = "C22"
    QUICK_RUNS = 1000
    THOROUGH_RUNS = 30000
    SLICE = 10
    RULE = ("One run drives a rolling evaluation over simulated returns, a leave-one-out validation or the generation of training "
            "data, with estimators, judge, recommender and families recorded and some estimators failing, and recomputes the "
            "result from the record. Non-trivial when an estimator failed or more than one window was evaluated.")
    REAL = "research/oos.py, research/oos_equity.py, research/train_recommender.py, scikit-learn; the package's estimators in the rolling evaluation"
    STUB = "estimators, judge and shipped recommender are recording stand-ins in the synthetic validations"
    ASSUMPTIONS = ["estimators are not made to fail in the rolling equity evaluation, which does not promise to survive that"]

    def prepare(self):
        import research.oos  # noqa: F401
        import research.oos_equity  # noqa: F401
        import research.train_recommender  # noqa: F401

    def generate(self, rng, tier):
        kind = rng.choice(["rolling", "rolling", "rolling-real", "loeo", "loeo", "loeo", "lofo", "training", "bakeoff"])
        prog = {"kind": kind, "seed_trials": rng.randrange(10**6), "modes": [rng.choice(MODES) for _ in range(rng.choice([2, 3, 5, 9, 17]))]}
        if all(m != "ok" for m in prog["modes"]):
            prog["modes"][0] = "ok"
        if kind.startswith("rolling"):
            p = rng.choice([2, 3, 4, 5])
            a, b = rng.choice([p * 3, p * 4, p * 6]), rng.choice([1, 2, 5, 9])
            step = rng.choice([1, 2, 5, b, b + 3])
            n = rng.choice([0, 1, 1, 2, 3, 6])
            prog["data"] = dict(gen.gen_data(rng, p=p, kinds=["gauss", "factor", "ar", "heavy"]), T=a + b + n * step + rng.randint(0, max(0, step - 1)))
            prog.update(train=a, test=b, step=step, as_list=rng.random() < 0.2)
            if rng.random() < 0.3:
                prog["data"]["bad"] = gen.gen_sensor_faults(rng, p, prog["data"]["T"])
        else:
            prog.update(p=rng.choice([3, 4, 6]), n=rng.choice([4, 8, 15]), m=rng.choice([1, 5, 20]), trials=rng.choice([1, 2, 2, 5, 5, 24]),
                        seed_exp=rng.randrange(1000), problems=rng.choice([1, 3, 12, 12, 25, 25, 60, 100]), families=rng.sample(range(8), rng.choice([2, 3, 4])))
        return prog

    def shrink_paths(self, program):
        return [("modes",)]

    def simplify(self, program):
        yield from super().simplify(program)
        for i, m in enumerate(program["modes"]):
            if m != "ok":
                yield dict(program, modes=program["modes"][:i] + ["ok"] + program["modes"][i + 1:])
        for k, small in (("trials", 1), ("problems", 1), ("m", 1), ("n", 4), ("p", 3)):
            if program.get(k, small) != small:
                yield dict(program, **{k: small})

    def execute(self, program, res):
        res.log({k: v for k, v in program.items() if k != "seed"})
        if program["kind"].startswith("rolling"):
            self.rolling(program, res)
        elif program["kind"] == "bakeoff":
            self.bakeoff(program, res)
        elif program["modes"]:
            getattr(self, program["kind"])(program, res)

    # ------------------------------------------------------------- rolling evaluation
    def rolling(self, program, res):
        import precise
        from research import oos_equity
        R = np.array(gen.Feed(program["data"]).rows(range(program["data"]["T"])))
        T, p = R.shape
        a, b, step = program["train"], program["test"], program["step"]
        starts = list(range(0, T - a - b + 1, step))
        if not starts:
            return
        real = program["kind"] == "rolling-real"
        seen, asked = [], []
        if real:
            classes, suggest = precise.all_estimators(), precise.suggest
        else:
            def make(i):
                class Stub:
                    X = None

                    def fit(self, X, y=None):
                        self.X = None
                        return self.partial_fit(X)

                    def partial_fit(self, X, y=None):
                        X = np.atleast_2d(np.array(X, dtype=float))
                        self.X = X if self.X is None else np.vstack([self.X, X])
                        return self

                    @property
                    def covariance_(self):
                        seen.append((i, self.X))
                        C = np.atleast_2d(np.cov(self.X, rowvar=False))
                        d = np.diag(np.diag(C))
                        return C + (i + 1) * 0.2 * (d + 1e-6 * np.trace(d) * np.eye(p))
                Stub.__name__ = f"Stub{i}"
                return Stub
            classes = [make(i) for i in range(len(program["modes"]) or 1)]

            def suggest(X, top=3):
                asked.append(np.array(X))
                k = core.rng_for("pick", np.array(X).tobytes()).randrange(len(classes))
                return (classes[k:] + classes[:k])[:top]
        given = R.tolist() if program["as_list"] else R
        keep = R.copy()
        if real:
            out = oos_equity.rolling_oos(given, train_len=a, test_len=b, step=step)
        else:
            with patched((oos_equity, "all_estimators", lambda: list(classes)), (oos_equity, "suggest", suggest)):
                out = oos_equity.rolling_oos(given, train_len=a, test_len=b, step=step)
            fits = list(seen)
        if not np.array_equal(R, keep):
            raise Violation("data-modified", "the returns were modified")
        fixed, rec, oracle, ew, counts = out
        res.ticks += T
        res.nontrivial = len(starts) > 1
        if program["data"].get("bad"):
            res.faults["disturbed returns"] += 1
        if not real:
            want = [(i, R[t:t + a]) for t in starts for i in range(len(classes))]
            for name, got, want_ in (("fitted", sorted(fits, key=lambda f: f[0]), sorted(want, key=lambda f: f[0])),):
                for i, X in got:
                    if not any(np.array_equal(X, R[t:t + a]) for t in starts):
                        raise Violation("leak", f"estimator {i} was fitted on rows that are no training window ({X.shape})")
            for X in asked:
                if not any(np.array_equal(X, R[t:t + a]) for t in starts):
                    raise Violation("leak", f"the recommender saw rows that are no training window ({X.shape})")
        # the evaluation, by hand
        risk = {c.__name__: [] for c in classes}
        recs, ews, picks = [], [], {}
        shaky = set()
        for t in starts:
            train, test = R[t:t + a], R[t + a:t + a + b]
            for c in classes:
                C = c().fit(train).covariance_
                k = np.linalg.cond(C) if np.isfinite(C).all() else np.inf
                if not k < 1e8:
                    shaky.add(c.__name__)
                    risk[c.__name__].append(np.nan)
                    continue
                w = np.linalg.solve(C, np.ones(p))
                if not (np.isfinite(w).all() and abs(w.sum()) >= 1e-6 * np.abs(w).sum()):
                    shaky.add(c.__name__)
                w = w / w.sum()
                risk[c.__name__].append(float(np.mean((test @ w) ** 2)))
            name = suggest(train, top=1)[0].__name__
            picks[name] = picks.get(name, 0) + 1
            recs.append(risk[name][-1])
            ews.append(float(np.mean(test.mean(axis=1) ** 2)))

        def vol(v):
            return float(np.sqrt(252 * np.mean(v)))

        def agree(what, got, want):
            res.evals += 1
            if not abs(got - want) <= 1e-6 * abs(want) + 1e-300:
                raise Violation("wrong-evaluation", f"{what} is {got}, {want} by hand over {len(starts)} windows")
        if set(fixed) != set(risk):
            raise Violation("wrong-evaluation", f"results for {sorted(fixed)} instead of {sorted(risk)}")
        for k, v in risk.items():
            if k not in shaky:
                agree(k, fixed[k], vol(v))
        agree("equal weight", ew, vol(ews))
        if counts != picks:
            raise Violation("wrong-evaluation", f"recommendations {counts} instead of {picks}")
        if sum(counts.values()) != len(starts):
            raise Violation("windows", f"{sum(counts.values())} windows evaluated instead of {len(starts)}")
        if not shaky:
            agree("recommender", rec, vol(recs))
            agree("oracle", oracle, vol([min(v) for v in zip(*risk.values())]))
        worst = min(list(fixed.values()) + [rec])
        sound = all(np.isfinite(v) for v in fixed.values()) and np.isfinite(rec)
        if sound and not oracle <= worst * (1 + 1e-9):
            raise Violation("oracle", f"the oracle {oracle} is worse than a fixed choice {worst}")

    # ------------------------------------------------------------- synthetic validations
    def setup(self, program, res):
        from research import oos
        lab = Lab(program, res)
        chosen = [list(oos.ENSEMBLES)[i] for i in sorted(program["families"])]
        fam = lab.families(oos.ENSEMBLES, chosen)
        return oos, lab, chosen, fam

    def finish(self, program, res, lab):
        res.ticks += len(lab.trials)
        res.nontrivial = any(t["failed"] for t in lab.trials)

    def judge(self, lab, held, r, fixed_trials, held_trials, picks):
        """Compare one result line with the record of its trials."""
        train_ranks = [lab.ranks(t) for t in fixed_trials]
        bf = r["best_fixed"]
        if bf not in lab.names:
            raise Violation("result", f"fixed choice {bf!r}")
        lo, _ = bounds(train_ranks, bf)
        best = min(bounds(train_ranks, k)[1] for k in lab.names)
        if lo > best + 1e-9:
            raise Violation("fixed-choice", f"{bf} is the fixed choice for {held} with mean rank {lo} on the other families, {best} was there")
        held_ranks = [lab.ranks(t) for t in held_trials]
        lo, hi = bounds(held_ranks, bf)
        if not lo - 1e-9 <= r["rank_best_fixed"] <= hi + 1e-9:
            raise Violation("rank", f"the fixed choice {bf} has mean rank {r['rank_best_fixed']} on {held}, the record gives {lo}..{hi}")
        lo = np.mean([k[n][0] for k, n in zip(held_ranks, picks)])
        hi = np.mean([k[n][1] for k, n in zip(held_ranks, picks)])
        if not lo - 1e-9 <= r["rank_recommender"] <= hi + 1e-9:
            raise Violation("rank", f"the recommender has mean rank {r['rank_recommender']} on {held}, the record gives {lo}..{hi}")
        lab.res.evals += 3

    def no_leak(self, held, trials):
        for t in trials:
            if t["family"] == held:
                raise Violation("leak", f"the choice for {held} drew on {held} itself")

    def loeo(self, program, res):
        oos, lab, chosen, fam = self.setup(program, res)
        k, n, m, p = program["trials"], program["n"], program["m"], program["p"]
        with patched((oos, "ENSEMBLES", fam), (oos, "all_estimators", lambda: list(lab.classes)), (oos, "suggest", lab.suggest)):
            out = oos.leave_one_ensemble_out(p=p, n_train=n, n_test=m, trials=k, seed=program["seed_exp"], assessor=lab)
        self.finish(program, res, lab)
        if list(out) != chosen or len(lab.trials) != 2 * k * len(chosen):
            raise Violation("result", f"{len(lab.trials)} trials, results for {list(out)}; {2 * k * len(chosen)} and {chosen} expected")
        for j, held in enumerate(chosen):
            part = lab.trials[2 * k * j:2 * k * (j + 1)]
            for t in part:
                lab.check_trial(t, (n, m, p))
            self.no_leak(held, part[:k])
            if any(t["family"] != held for t in part[k:]):
                raise Violation("held-out", f"{held} was judged on {[t['family'] for t in part[k:]]}")
            self.judge(lab, held, out[held], part[:k], part[k:], [t["rec"] for t in part[k:]])

    def tree(self, lab, trials):
        """The recommender by hand: features and best estimators of the training problems."""
        from sklearn.tree import DecisionTreeClassifier
        X, y, sure = [], [], True
        for t in trials:
            X.append(self.vector(lab.check_trial(t)))
            ranks = lab.ranks(t)
            top = [k for k in lab.names if ranks[k] == (1, 1)]
            sure &= bool(top)
            y.append(top[0] if top else lab.names[0])
        X = np.array(X)
        mean, std = X.mean(0), X.std(0) + 1e-9
        return DecisionTreeClassifier(max_depth=5, min_samples_leaf=10, random_state=0).fit((X - mean) / std, y), mean, std, y, X, sure

    def vector(self, W):
        import precise
        from research.train_recommender import FEATURES
        f = precise.covariance_features(W)
        return [float(f[k]) for k in FEATURES]

    def lofo(self, program, res):
        oos, lab, chosen, fam = self.setup(program, res)
        k, n, m, p, q = program["trials"], program["n"], program["m"], program["p"], program["problems"]
        with patched((oos, "ENSEMBLES", fam), (oos, "all_estimators", lambda: list(lab.classes)), (oos, "suggest", lab.suggest)):
            out = oos.leave_one_family_out_trained(p=p, n_train=n, n_test=m, trials=k, n_problems=q, seed=program["seed_exp"], assessor=lab)
        self.finish(program, res, lab)
        size = q + 2 * k
        if list(out) != chosen or len(lab.trials) != size * len(chosen):
            raise Violation("result", f"{len(lab.trials)} trials, results for {list(out)}; {size * len(chosen)} and {chosen} expected")
        for j, held in enumerate(chosen):
            part = lab.trials[size * j:size * (j + 1)]
            for t in part[q:]:
                lab.check_trial(t, (n, m, p))
            self.no_leak(held, part[:q + k])
            if any(t["family"] != held for t in part[q + k:]):
                raise Violation("held-out", f"{held} was judged on {[t['family'] for t in part[q + k:]]}")
            clf, mean, std, _, _, sure = self.tree(lab, part[:q])
            picks = []
            for t in part[q + k:]:
                f = (np.array(self.vector(t["fits"][lab.names[0]][0])) - mean) / std
                picks.append(str(clf.predict(f[None, :])[0]))
            if sure:
                self.judge(lab, held, out[held], part[q:q + k], part[q + k:], picks)

    def training(self, program, res):
        from research import train_recommender as tr
        _, lab, chosen, fam = self.setup(program, res)
        with patched((tr, "ENSEMBLES", fam), (tr, "all_estimators", lambda: list(lab.classes)), (tr, "GMVVariance", lambda: lab)):
            X, y, names = tr.generate(n_problems=program["problems"], seed=program["seed_exp"])
        self.finish(program, res, lab)
        if list(names) != lab.names or len(lab.trials) != program["problems"]:
            raise Violation("result", f"{len(lab.trials)} problems of {program['problems']}, names {names}")
        _, _, _, want, XX, sure = self.tree(lab, lab.trials)
        if dist(np.array(X, dtype=float), XX) > 1e-12:
            raise Violation("result", "the features are not those of the training windows")
        for t, got, w in zip(lab.trials, [str(v) for v in y], want):
            res.evals += 1
            if got != w and len(t["failed"]) < len(lab.names):
                raise Violation("label", f"{got} is the label of a problem {w} wins (failed: {sorted(t['failed'])})")

    # ------------------------------------------------------------- bake-off
    def bakeoff(self, program, res):
        """Recording estimators and judges, some judges failing on some estimates, on the real scenarios."""
        from research import bakeoff
        seed, k, q = program["seed_trials"], 2 + program["trials"], max(1, len(program["modes"]))
        kw = dict(d=program["p"], n=2 * program["n"], n_test=program["m"], seed=program["seed_exp"])
        scenarios = bakeoff.build_scenarios(**kw)
        fits, table, names = [], {}, [f"Judge{j}" for j in range(q)]

        def make(i):
            class Stub:
                X = None

                def fit(self, X, y=None):
                    self.X = None
                    return self.partial_fit(X)

                def partial_fit(self, X, y=None):
                    X = np.atleast_2d(np.array(X, dtype=float))
                    self.X = X if self.X is None else np.vstack([self.X, X])
                    return self

                @property
                def covariance_(self):
                    fits.append((i, self.X))
                    C = np.eye(self.X.shape[1])
                    C[0, 0], C[0, 1] = i + 2.0, self.X[0, 0]
                    return C
            Stub.__name__ = f"Stub{i}"
            return Stub

        def place(X, col):
            return next((s for s, sc in enumerate(scenarios) if np.array_equal(sc[col], X)), None)

        class Judge:
            def __init__(self, j):
                self.j, self.name, self.mode = j, names[j], (program["modes"] or ["ok"])[j % q]

            def usable(self, *, have_data, have_truth):
                return have_data and have_truth

            def score(self, cov, *, X_test=None, true_cov=None):
                i, s = int(round(float(cov[0, 0]))) - 2, place(X_test, 2)
                if s is None or not np.array_equal(true_cov, scenarios[s][3]):
                    raise Stop("leak", "an estimate was judged on rows that are no test sample, or against another truth")
                if cov[0, 1] != scenarios[s][1][0, 0]:
                    raise Stop("unequal-terms", f"the estimate judged on {scenarios[s][0]} was fitted on other rows")
                how = self.mode.replace("sometimes ", "")
                hit = how.startswith(("score", "fit", "cov")) and (how == self.mode or core.rng_for("bake", seed, i, s, self.j).random() < 0.4)
                if hit and how == "score is nan":
                    res.faults["score is nan"] += 1
                    table[i, s, self.j] = None
                    return float("nan")
                if hit:
                    res.faults["score fails"] += 1
                    table[i, s, self.j] = None
                    raise ERRORS[self.j % len(ERRORS)]("injected")
                v = table[i, s, self.j] = core.rng_for("cell", seed, i, s, self.j).uniform(-3, 3)
                return v

        class Stop(BaseException):
            pass
        classes, judges = [make(i) for i in range(k)], [Judge(j) for j in range(q)]
        try:
            with patched((bakeoff, "all_estimators", lambda: list(classes)), (bakeoff, "all_assessors", lambda: list(judges))):
                out = bakeoff.run(**kw)
        except Stop as e:
            raise Violation(*e.args)
        res.ticks += len(fits)
        res.nontrivial = any(v is None for v in table.values())
        for i, X in fits:
            if place(X, 1) is None:
                raise Violation("leak", f"estimator {i} was fitted on rows that are no training sample")
        cells = {(f"Stub{i}", sc[0], names[j]) for i in range(k) for sc in scenarios for j in range(q)}
        got = {(e, s, a): v for e, ss in out.items() for s, aa in ss.items() for a, v in aa.items()}
        if set(got) != cells or len(table) != len(cells):
            raise Violation("result", f"{len(got)} cells for {k} estimators, {len(scenarios)} scenarios and {q} judges")
        lost = -np.inf
        want = {(f"Stub{i}", scenarios[s][0], names[j]): lost if v is None else v for (i, s, j), v in table.items()}
        for c, v in got.items():
            res.evals += 1
            if v != want[c]:
                raise Violation("wrong-evaluation", f"{c} scores {v}, the judge said {want[c]}")
        primary = names[program["trials"] % q]
        lo, hi = {}, {}
        for i in range(k):
            for s, sc in enumerate(scenarios):
                v = [want[f"Stub{n}", sc[0], primary] for n in range(k)]
                lo.setdefault(i, []).append(1 + sum(x > v[i] for x in v))
                hi.setdefault(i, []).append(sum(x >= v[i] for x in v))
        lines = [ln.split() for ln in bakeoff.leaderboard(out, primary=primary).splitlines() if ln.startswith("Stub")]
        if sorted(ln[0] for ln in lines) != sorted(c.__name__ for c in classes):
            raise Violation("leaderboard", f"lines for {[ln[0] for ln in lines]}")
        ranks = [float(ln[1]) for ln in lines]
        for ln, r in zip(lines, ranks):
            i = int(ln[0][4:])
            res.evals += 1
            if not np.mean(lo[i]) - 0.006 <= r <= np.mean(hi[i]) + 0.006:
                raise Violation("leaderboard", f"{ln[0]} has average rank {r}, its scores give {np.mean(lo[i]):.2f}..{np.mean(hi[i]):.2f}")
            shown = [primary, *[a for a in names if a != primary][:2]]
            for j, cell in zip(shown, ln[2:]):
                v = [want[ln[0], sc[0], j] for sc in scenarios if np.isfinite(want[ln[0], sc[0], j])]
                mean = np.mean(v) if v else -np.inf
                if not (float(cell) == mean or abs(float(cell) - mean) <= 0.0006):
                    raise Violation("leaderboard", f"{ln[0]} has mean {cell} under {j}, its scores give {mean}")
        if ranks != sorted(ranks):
            raise Violation("leaderboard", f"ranks {ranks} are out of order")
        wins = dict(ln.split(" -> ") for ln in bakeoff.per_scenario_winners(out, primary=primary).splitlines() if " -> " in ln)
        for name, best in wins.items():
            v = want[best.strip(), name.strip(), primary]
            if v < max(want[c.__name__, name.strip(), primary] for c in classes):
                raise Violation("leaderboard", f"{best} is no winner of {name}")


CHECK = C22()
