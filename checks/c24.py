"""C24: everything read at one instant describes one and the same estimate."""
import numpy as np

from sim import gen
from sim.core import Check, Violation
from sim.deploy import Deployment, gen_history
from sim.gen import Feed, build
from sim.obs import read
from checks.c01 import length_for

READS = ["location_", "covariance_", "correlation_", "precision_", "get_precision", "mahalanobis", "score"]


class C24(Check):
    ID = "C24"
    QUICK_RUNS = 12000
    THOROUGH_RUNS = 250000
    RULE = ("One run deploys one estimator or composition on a disturbed feed with restarts, refits, failing updates, garbage and "
            "changed parameters, and at random instants asks it everything in random order about random rows in random "
            "form, checking the answers against each other; non-trivial when a crash, refit or failure comes between.")

    def generate(self, rng, tier):
        data = gen.gen_data(rng)
        conditional = rng.random() < 0.15
        cfg = gen.gen_conditional(rng, data["p"]) if conditional else gen.gen_cfg(rng, None, data["p"], diff=rng.random() < 0.25)
        n = max(1, min(length_for(rng, cfg), 80)) if rng.random() < 0.994 else rng.randint(257, 700)
        data["T"] = n + 8
        if rng.random() < 0.25:
            data["bad"] = gen.gen_sensor_faults(rng, data["p"], data["T"])
        idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
        b = gen.burn_n(gen.cfg_r(cfg))
        ops = []
        if rng.random() < 0.3:
            ops.append(self.question(rng))
        for op in gen_history(rng, idx, {1, 2, b, b + 1}, fail=not conditional,
                              restart=("pickle", "deepcopy") if conditional else ("json", "pickle", "deepcopy")):
            ops.append(op)
            if op[0] in ("crash", "refit") or rng.random() < 0.5:
                ops += [self.question(rng) for _ in range(rng.choice([1, 1, 2]))]
            if not conditional and rng.random() < 0.04:
                other = gen.gen_cfg(rng, cfg["name"], data["p"])["params"]
                ops.append(["params", {k: v for k, v in other.items() if k != "diff"}])
        ops.append(self.question(rng))
        return {"cfg": cfg, "data": data, "feed": counts, "ops": ops}

    @staticmethod
    def question(rng):
        order = list(READS)
        rng.shuffle(order)
        return ["ask", order, rng.randrange(10**6), rng.choice([1, 1, 2, 3, 7, 20]),
                rng.choice(["array", "array", "list", "row", "fortran", "strided", "mine"]), rng.choice([1.0, 1.0, 0.1, 30.0])]

    def shrink_paths(self, program):
        return [("ops",)] + [("ops", i, 1) for i, op in enumerate(program["ops"]) if op[0] == "ask"]

    def execute(self, program, res):
        from precise.base import NotFittedError
        cfg, feed = program["cfg"], Feed(program["data"])
        res.faults.update(program.get("feed", {}))
        inner = [cfg] if cfg["name"] != "ConditionalCovariance" else [c for c in (cfg.get("vol"), cfg.get("corr")) if c and "name" in c]
        lag = int(any(gen.is_diff(c) for c in inner))
        dep = Deployment(lambda: build(cfg), feed, res)
        last = [None]

        def ask(order, seed, k, form, spread):
            sut, p = dep.sut, feed.p
            g = np.random.default_rng(seed)
            n = sut.n_samples_
            Q = np.round(g.standard_normal((k, p)) * spread + (feed.rows(dep.log[-3:]).mean(axis=0) if dep.log else 0.0), 6)
            if form == "mine" and dep.log:
                Q = feed.rows([dep.log[int(g.integers(len(dep.log)))] for _ in range(k)])
            if form == "row":
                Q = Q[:1]
            asked = {"list": Q.tolist(), "row": Q[0].copy(), "fortran": np.asfortranarray(Q), "mine": Q.copy(), "array": Q.copy()}.get(form)
            if form == "strided":
                wide = np.repeat(Q, 2, axis=1)
                asked = wide[:, ::2]
            got, unfitted = {}, []
            for how in order:
                try:
                    v = getattr(sut, how)
                    if how in ("mahalanobis", "score"):
                        v = v(asked)
                    elif how == "get_precision":
                        v = v()
                    got[how] = v
                except NotFittedError:
                    unfitted.append(how)
                except np.linalg.LinAlgError:
                    res.probes["no inverse"] += 1
                    return
            res.evals += 1
            if n == 0 or (len(dep.log) <= lag and unfitted):
                if cfg["name"] != "ConditionalCovariance" and set(unfitted) != set(order):
                    raise Violation("answers-unfitted", f"{sorted(got)} answered before the first sample, {cfg}")
                res.probes["asked before the first sample"] += 1
                return
            if unfitted:
                raise Violation("fitted-refuses", f"{unfitted} claim that nothing was seen after {len(dep.log)} rows, {cfg}")
            if len(got) < len(READS):
                for how in READS:
                    if how not in got and how not in ("mahalanobis", "score"):
                        got[how] = getattr(sut, how) if how != "get_precision" else sut.get_precision()
            C, P, m = got["covariance_"], got["precision_"], got["location_"]
            if C.shape != (p, p) or P.shape != (p, p) or m.shape != (p,):
                raise Violation("shape", f"{C.shape}, {P.shape}, {m.shape} for {p} series, {cfg}")
            if not (np.isfinite(C).all() and np.isfinite(P).all()):
                return  # C07's business
            # correlation_ is covariance_ in units of its own deviations
            v = np.diag(C)
            R = got["correlation_"]
            live = v > 1e-280
            if live.any():
                s = np.sqrt(v[live])
                W = C[np.ix_(live, live)] / s[:, None] / s[None, :]
                if not np.abs(W - R[np.ix_(live, live)]).max() <= 1e-9 * max(1.0, np.abs(W).max()):
                    raise Violation("correlation", f"{R.tolist()} next to the covariance {C.tolist()}, {cfg}")
            cond = np.linalg.cond(C) if np.abs(C).max() > 1e-250 else np.inf
            tol = 1e-9 + 1e-13 * cond if np.isfinite(cond) else np.inf
            if tol > 1e-4:
                res.probes["too ill-conditioned to compare inverses"] += 1
                tol = None
            size = np.abs(P).max()
            if tol is not None and not np.abs(P - got["get_precision"]).max() <= tol * size:
                raise Violation("precision", f"precision_ {P.tolist()}, get_precision() {got['get_precision'].tolist()}, {cfg}")
            # distances and scores are those of this estimate
            if tol is not None:
                D = Q - m
                want = np.einsum("ij,jk,ik->i", D, P, D)
                if "mahalanobis" in got:
                    d = np.asarray(got["mahalanobis"])
                    near = tol * size * (D * D).sum(axis=1) + 1e-300 + 1e-7 * size * 1e-9 * (np.abs(Q) + np.abs(m)).max() ** 2
                    if d.shape != (len(Q),) or not (np.abs(d - want) <= near).all():
                        raise Violation("mahalanobis", f"{d.tolist()} instead of {want.tolist()} for {Q.tolist()} ({form}), location {m.tolist()}, "
                                        f"precision {P.tolist()}, {cfg}")
                sign, logdet = np.linalg.slogdet(P)
                if "score" in got and sign > 0:
                    want = float(np.mean(0.5 * logdet - 0.5 * want - 0.5 * p * np.log(2 * np.pi)))
                    near = (tol * size * float((D * D).sum(axis=1).max()) + 10 * tol * p + 1e-9 * abs(want)
                            + 1e-16 * size * float((np.abs(Q) + np.abs(m)).max()) ** 2)
                    if not abs(got["score"] - want) <= near:
                        raise Violation("score", f"{got['score']} instead of {want} for {Q.tolist()} ({form}), {cfg}")
            if last[0] is not None and last[0] != (len(dep.log), res.faults.total()):
                res.probes["asked again later"] += 1
            last[0] = (len(dep.log), res.faults.total())
            # a question about rows of another width is refused
            for width in {1, p + 1, 2 * p} - {p}:
                for how in ("mahalanobis", "score"):
                    try:
                        out = getattr(sut, how)(np.ones((2, width)))
                    except ValueError:
                        continue
                    raise Violation("width", f"{how} of rows {width} wide answered {out} from {p} series, {cfg}")

        for op in program["ops"]:
            if op[0] == "ask":
                ask(*op[1:])
            elif op[0] == "params":
                dep.sut.set_params(**op[1])
                res.faults["parameters changed"] += 1
            else:
                dep.step(op)


CHECK = C24()
