"""C19: adaptive, geodesic, partial-moment and factor estimators follow their recursions."""
from sim import gen
from sim.deploy import gen_history
from sim.gen import Feed
from sim.onestep import OneStep
from checks import c09
from checks.c01 import length_for

FREE = ["PartialMomentsCovariance", "FactorCovariance"]
STEP = ["AdaptiveEwaCovariance", "GeodesicEwaCovariance"]


class C19(c09.C09):
    ID = "C19"
    QUICK_RUNS = 4000
    THOROUGH_RUNS = 200000
    RULE = ("One run deploys one adaptive, geodesic, partial-moment or factor estimator on a disturbed feed (sensor faults "
            "included) with checkpoints, crashes, failing updates, garbage and refits, and compares every update with the "
            "documented recursion; non-trivial when a crash or failure hits.")
    NAMES = FREE
    HOT_K = True

    def generate(self, rng, tier):
        if rng.random() < 0.5:
            return super().generate(rng, tier)
        return onestep_program(rng, STEP)

    def execute(self, program, res):
        if program["cfg"]["name"] in FREE:
            return super().execute(program, res)
        res.faults.update(program.get("feed", {}))
        OneStep(program["cfg"], Feed(program["data"]), res).run(program["ops"])


def onestep_program(rng, names, max_n=150):
    data = gen.gen_data(rng)
    cfg = gen.gen_cfg(rng, names, data["p"], diff=rng.random() < 0.25)
    if rng.random() < 0.7:
        cfg["params"]["r"] = rng.choice([0.35, 0.2, 0.1, 0.1, 0.05, round(rng.uniform(0.03, 0.4), 3)])
    b = gen.burn_n(gen.cfg_r(cfg))
    n = max(1, min(rng.choice([length_for(rng, cfg), b + rng.randint(1, 60)]), max_n))
    if rng.random() < 0.01:  # now and then far beyond any burn-in
        n = rng.randint(257, 1100)
    data["T"] = n + 8
    if rng.random() < 0.4:
        data["bad"] = gen.gen_sensor_faults(rng, data["p"], data["T"])
    idx, counts = gen.faulty_indices(rng, n, gen.feed_faults(rng), n + 8)
    for f in data.get("bad", []):
        counts["sensor:" + f[0]] = counts.get("sensor:" + f[0], 0) + 1
    return {"cfg": cfg, "data": data, "feed": counts, "ops": gen_history(rng, idx, {1, 2, b - 1, b, b + 1})}


CHECK = C19()
