"""Runs one specification (with its reference runs) and applies a property's oracle."""
from __future__ import annotations

import json
import time as _time  # patched by seams, real outside simulated processes

from . import oracles, world
from .seams import R


def _strip(spec):
    return {k: v for k, v in spec.items() if k not in ("ref", "schedule")}


def chain_of(w, root):
    fin = w.final.get(root)
    if fin is None:
        return None
    return [t["config"] for t in oracles.by_id(fin["trials"])]


# References that do not depend on the run's seed are shared between the runs of a shard: the
# parent keeps what its children computed (same code, same inputs, same hash seed).
REFCACHE = {}
NEWREFS = {}


def run_refs(spec, scratch):
    """Reference executions: fault-free, one worker, default schedule."""
    extra = {}
    for root, rs in (spec.get("ref") or {}).items():
        for r in rs:
            rspec = {**_strip(spec), "sched": {"kind": "none"}, "procs": r["procs"]}
            rspec.update(r.get("over", {}))
            if r.get("shared"):
                rspec = {"seed": 1, "dt": 0.0005, "sched": {"kind": "none"}, "space": spec["space"],
                         "pipe": {"dur": (0, 0)}, "procs": r["procs"]}
                key = json.dumps([root, rspec], sort_keys=True)
                if key not in REFCACHE:
                    w = world.World(rspec, scratch).run()
                    if w.sim.harness_error:
                        raise RuntimeError("harness error in reference run: " + w.sim.harness_error)
                    REFCACHE[key] = NEWREFS[key] = w.extra.get("model") or chain_of(w, root)
                if REFCACHE[key] is not None:
                    extra.setdefault("refs", {}).setdefault(root, []).append(REFCACHE[key])
                continue
            w = world.World(rspec, scratch).run()
            if w.sim.harness_error:
                raise RuntimeError("harness error in reference run: " + w.sim.harness_error)
            rr = r.get("root", root)
            if r.get("want", "chain") == "chain":
                c = chain_of(w, rr)
                if c is not None:
                    extra.setdefault("refs", {}).setdefault(root, []).append(c)
            elif r["want"] == "order":
                fin = w.final.get(rr)
                if fin is not None:
                    extra.setdefault("refs", {}).setdefault(root, []).append(oracles.by_time(fin["trials"]))
            else:
                H = oracles.Hist(w)
                tr = [(e["tid"], e["config"], e["expect"], e["err"] is not None) for e in H.evals_of(rr)]
                extra.setdefault("ref_trace", {})[root] = tr
    return extra


def execute(spec, pid, scratch, trace_log=False, keep_world=False):
    t0 = R.time()
    extra = run_refs(spec, scratch)
    w = world.World(spec, scratch)
    w.extra.update(extra)
    w.run(trace_log=trace_log)
    v = oracles.check(w, pid)
    s = w.sim
    res = {
        "seed": spec["seed"], "viol": v, "hash": s.trace.hexdigest(), "ilv": s.ilv.hexdigest(),
        "lockwait": s.max_lock_wait, "steps": s.steps, "switches": s.switches, "simtime": s.now, "faults": dict(s.fault_counts),
        "probes": dict(s.probes or {}), "evals": len([1 for e in s.history if e["ev"] == "eval_start"]),
        "events": len(s.history), "aborted": s.aborted, "procs": len(s.procs), "preempts": list(s.preempts),
        "ops": dict(s.op_kinds), "wall": R.time() - t0,
        "crashes": [(e["p"], e["step"], e.get("held"), e.get("in_eval")) for e in s.history if e["ev"] == "crash"],
        "nontrivial": bool((s.switches > 2 or s.fault_counts) and s.history),
    }
    res["newrefs"] = dict(NEWREFS)
    if trace_log:
        res["log"] = s.trace_log
        res["history"] = s.history
    if keep_world:
        res["world"] = w
    return res
