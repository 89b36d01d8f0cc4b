#!/opt/venv/bin/python
"""run.py CHECK [--tier quick|thorough] [--replay FILE] [--runs N] [--workers N] [--digests]"""
import os
import sys

ENV = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "PYTHONDONTWRITEBYTECODE": "1"}
if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", **ENV)
    env.setdefault("PYTHONHASHSEED", "0")
    # a private, never-written bytecode cache: always the current source of /repo
    os.execve(sys.executable, [sys.executable, "-X", "pycache_prefix=/nonexistent/verif-pycache",
                               os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

from sim import core  # noqa: E402

sys.path.insert(0, core.REPO)


def known_findings(cid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("findings", []) if f.get("property") == cid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check", nargs="?", default="")
    ap.add_argument("--setup", action="store_true", help="only verify that everything needed is there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--digests", action="store_true", help="print one event-log hash per run")
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args()
    cid = a.check.upper()
    t0 = time.time()
    try:
        import precise
        where = os.path.realpath(os.path.dirname(precise.__file__))
    except Exception:
        import precise_import_failed  # noqa: F401  (harness error: the package does not import)
    if where != os.path.realpath(os.path.join(core.REPO, "precise")):
        print(f"harness error: testing {where}, not {core.REPO}", file=sys.stderr)
        return 2
    if a.setup:
        for name in sorted(os.listdir(os.path.join(HERE, "checks"))):
            if name.startswith("c") and name.endswith(".py"):
                importlib.import_module("checks." + name[:-3])
        print("setup: ok")
        return 0
    check = importlib.import_module("checks." + cid.lower()).CHECK
    check.prepare()

    if a.replay:
        rec = json.load(open(a.replay))
        verdict, digest = core.run_afresh(check, rec["program"], rec.get("after", []))
        print("event log", digest)
        if verdict is None:
            print("replay: no violation")
            return 0
        print(f"replay: {verdict[0]}: {verdict[1]}")
        same = verdict[0] == rec["violation"]["kind"]
        print("same violation as recorded" if same else "NOT the recorded violation")
        print(f"VIOLATION property={cid} replay={a.replay}")
        return 1

    n = a.runs or (check.QUICK_RUNS if a.tier == "quick" else check.THOROUGH_RUNS)
    budget = None if a.tier == "quick" else check.THOROUGH_BUDGET_S
    tot = core.run_batch(check, a.seed, a.tier, n, a.workers, budget)
    if a.digests:
        for i, d in sorted(tot["digests"]):
            print("DIGEST", i, d)
    wall = time.time() - t0
    viol = tot["viol"]
    code = 0
    if viol is not None:
        index, (kind, detail), program, done = viol
        tries, history = 0, []
        verdict, digest = core.run_afresh(check, program)
        if verdict is None:  # it takes what earlier runs left behind in the process
            history = [core.program_for(check, a.seed, i, a.tier) for i in done]
            verdict, digest = core.run_afresh(check, program, history)
            if verdict is not None:
                history = core.minimise_history(check, program, history, verdict[0], time.time() + 60)
        if verdict is not None:
            if not a.no_minimise:
                program, tries = core.minimise(check, program, verdict[0], time.time() + 90, history)
            verdict, digest = core.run_afresh(check, program, history)
        if verdict is None:
            print(f"harness error: the failing program of run {index} does not fail again ({kind}: {detail})", file=sys.stderr)
            return 2
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{cid}-s{a.seed}-{index}.json")
        json.dump({"property": cid, "violation": {"kind": verdict[0], "detail": verdict[1]},
                   "seed": a.seed, "run": index, "minimiser_runs": tries,
                   "event_log": digest, "after": history, "program": program},
                  open(path, "w"), indent=1)
        print(f"{cid}: {verdict[0]}: {verdict[1]}")
        print(f"run {index} of seed {a.seed}{f' after {len(history)} other runs' if history else ''}; minimised with {tries} runs; "
              f"replay: ./run.py {cid} --replay {path}")
        print(f"VIOLATION property={cid} replay={path}")
        code = 1
    for f in known_findings(cid):
        print(f"KNOWN-FINDING: property={cid} {f['what']}")
    runs = tot["n"]
    ev = {
        "property": cid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed, "level": check.LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(tot["nontrivial"]),
            "rule": check.RULE + " A run is distinct by the hash of its event log (deliveries, "
                    "faults that fired, crash points, context switches).",
            "samples": tot["samples"][:1],
            "simulated_runs": runs,
            "runs_per_hour": int(runs / max(wall, 1e-9) * 3600),
            "simulated_time": f"{tot['ticks']} arrivals (the system has no clock: time is counted "
                              "in arrivals of the simulated feed)",
            "oracle_evaluations": tot["evals"],
            "faults_injected": dict(sorted(tot["faults"].items())),
            "rare_conditions_reached": dict(sorted(tot["probes"].items())),
            "real_components": check.REAL, "stub_components": check.STUB,
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": 0 if viol is None else 1,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{cid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if code == 0:
        print(f"{cid}: held on {runs} simulated runs ({len(tot['nontrivial'])} distinct non-trivial, "
              f"{sum(tot['faults'].values())} faults, {tot['ticks']} arrivals) in {wall:.1f}s")
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
