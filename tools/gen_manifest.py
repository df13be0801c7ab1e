"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
NA = {
    "C24": "A pure function of its inputs: no schedule, clock, I/O, crash or second party takes part, so there is nothing for a simulator to decide (see DESIGN.md).",
    "C25": "A pure numerical function of its inputs: no schedule, clock, I/O, crash or second party takes part, so there is nothing for a simulator to decide (see DESIGN.md).",
}
ORACLE = {
    "C01": "history of pipeline calls: at most one per trial",
    "C02": "reference model: what the scripted pipeline returned, compared with what observers read during and after the run",
    "C03": "budget counters recomputed from the history, with the overshoot bound",
    "C04": "conservation of cost between results and the shared record",
    "C05": "liveness after the last crash, readability, no unexplained exception",
    "C06": "start-up histories against a solo reference run",
    "C07": "refusal before any effect, on-disk state unchanged",
    "C08": "refinement against an undisturbed single-worker reference run",
    "C09": "error policy rules over the history",
    "C10": "per-trial monotonicity over snapshots and metadata against the virtual clock",
    "C11": "sequential model of a versioned record (linearizability of short histories)",
    "C12": "mutual exclusion, time limit and release rules over lock histories",
    "C13": "queue order of pending work over the history",
    "C14": "interval bounds on what a concurrent status query may report",
    "C15": "CSV contents against the recorded trials",
    "C16": "promotion rules over the sampled history",
    "C17": "directory, checkpoint and lineage rules over the history",
    "C18": "containment of injected disk errors: other workers, recorded results, later workers",
    "C19": "later calls compared with a fresh-process reference",
    "C20": "conservation and domain rules over all trials, grid coverage",
    "C21": "limits against the virtual monotonic clock under wall clock jumps",
    "C22": "progress of every shipped searcher under failed, running and lost trials",
    "C23": "refinement of stop/resume chains against one uninterrupted run",
    "C26": "interval bounds on what each command may print, from the trials recorded before, during and after it",
    "C27": "event files and callback calls compared with what the scripted pipelines logged, per chain of trials",
    "C28": "each search against its own rules and against its solo reference run",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": f"deterministic simulation with fault injection, seeded search; oracle: {ORACLE[i]}",
        "level": "exploration",
        "level_note": "Runs the real package from /repo in one process under a seeded scheduler with virtual time, simulated file locks and injected crashes, "
                      "stalls, clock jumps and disk errors; every violation is minimised and replays exactly. Samples executions, proves nothing; trusts that the "
                      "seams (POSIX files without power loss, flock, clocks) behave as on one real machine.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none: no hook was added to /repo; the seams are the standard library calls the package makes (open, os.*, fcntl, time, random), replaced inside the check's own process",
              "enable": "nothing to enable; the checks import /repo's working tree directly (NEPS_SIM_REPO can point them at another copy)",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "See DESIGN.md. python3 check.py <id> --replay replays/<file> runs a replay file again. Genuine defects found were repaired in /repo (fix: commits), listed in known_findings.jsonl.",
}, open(f"{H}/MANIFEST.json", "w"), indent=1)
