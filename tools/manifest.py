"""Regenerate MANIFEST.json (a convenience for the author; nothing reads it at check time)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "deterministic simulation with fault injection"
NOTE = {
    "C01": "Seeded search over crash points, lagging checkpoints and delivery faults; exact to rounding against a run that never stopped.",
    "C02": "Seeded search over pickle/deepcopy points in whole histories; trusts numpy and the pickle module.",
    "C03": "Seeded search over deliveries (batching, buffers, dtypes) of the same rows; exact to rounding.",
    "C04": "Seeded search over read placement; results aged and overwritten between updates.",
    "C05": "Interrupts, failing allocations and failing decompositions at counted instants of single updates, randomly placed (every instant is reachable, not every one is visited in one run); assumes CPython delivers interrupts at function entry, loop back-edges and returns from C.",
    "C06": "Seeded search over malformed deliveries and ticks at random instants of a stream, compared with twins that never saw them.",
    "C07": "Invariants after every row of randomly disturbed feeds, with failing inversions injected; tolerances are rounding-sized.",
    "C08": "Refinement against independent weighted-moment references over the acknowledged rows of random deployments.",
    "C09": "Refinement against independent implementations of each documented transform along random deployments.",
    "C10": "Each Huber step against the documented step from the observed state; outlier, rescaling and axis probes on copies of the live estimator; Tyler's recursion from observed correlations.",
    "C11": "Twins with different disturbed pasts and a common clean future; bounds are explicit and extended twice before an alarm.",
    "C12": "Refinement against stand-alone sub-models advanced by hand; skaters are small stand-ins.",
    "C13": "Measured sizes, allocation peaks and interpreter steps in windows along long streams; a leak must show within the simulated length.",
    "C14": "Real threads parked at instruction-level points and switched by a seeded scheduler; races inside numpy's C code are out of reach.",
    "C15": "Real reader and writer threads switched at instruction-level points by a seeded scheduler; each read must equal that read of some prefix.",
    "C16": "Refinement against an independently imputed stand-alone estimator over random tick sequences with failures.",
    "C17": "Refinement against an independent multi-universe model over random arrivals and departures.",
    "C18": "Invariants and bounded progress over random churn, through the public answers and the documented limits.",
    "C19": "Refinement against independent recursions: free-running, or step by step from observed states where rounding would accumulate.",
    "C20": "Real export code over a simulated disk (scratch directory): crash at any I/O operation, torn, short and failing writes; the surviving file is imported and walked.",
    "C21": "Real research code in pristine forks and subprocesses with perturbed hash seed, global random state, clock and history.",
    "C22": "Real evaluation code on simulated returns with failing estimators injected, against an independent walk-forward and leave-one-out reference.",
    "C23": "Real assessors and recommender called from interleaved threads and long call histories, against pristine forks.",
    "C24": "Every answer against the others of the same instant, at random instants of random deployments; inverses compared only where well conditioned.",
    "C25": "Deployments against twins fed the acknowledged rows with permuted, rescaled or shifted series; histories that pass through singular estimates are left out where rounding decides.",
}
NA = {
    "N01": "Scores are pure functions of their arguments: no schedule, time, I/O, crash or fault decides whether they equal their formulas, so simulation has nothing to vary (their independence from history and concurrency is claimed in C23).",
    "N02": "Pure functions of a data matrix; nothing a scheduler or fault plan could change (history and concurrency are claimed in C23 and C04).",
    "N03": "Algebraic identities of pure matrix functions; a question for property testing or proof, not for simulation.",
    "N04": "A static fact about names and imports; it has no executions to schedule.",
    "N05": "Scripts that compare closed forms with Monte-Carlo estimates; their outcome is mathematics, and they have no concurrency, time or I/O a property depends on.",
}


def main():
    checks = []
    for cid, note in NOTE.items():
        if not os.path.exists(os.path.join(HERE, "checks", cid.lower() + ".py")):
            continue
        checks.append({
            "property": cid,
            "quick_cmd": f"./run.py {cid} --tier quick",
            "thorough_cmd": f"./run.py {cid} --tier thorough",
            "technique": DST,
            "level": "exploration",
            "level_note": note,
        })
    have = {c["property"] for c in checks}
    na = [{"property": k, "reason": v} for k, v in NA.items()]
    na += [{"property": k, "reason": "check under construction"} for k in NOTE if k not in have]
    out = {"version": 1, "setup_cmd": "./run.py --setup",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: every seam is an existing one (numpy attributes, file functions, sys.monitoring, threads, "
                    "forked processes). See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")


main()
