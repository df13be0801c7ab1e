#!/usr/bin/env python3
"""Entry point of every check.

    python3 check.py C05                       quick or thorough, by VERIF_TIER
    python3 check.py C05 --replay FILE         run a replay file again

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is
broken.  Anything else: an error of the check itself.
"""
from __future__ import annotations

import argparse
import collections
import json
import os
import selectors
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("NEPS_SIM_PYTHON", "/opt/venv/bin/python")
NSHARDS = 8  # fixed: which seed runs under which PYTHONHASHSEED must not depend on the machine
QUICK_S = 40.0
THOROUGH_S = 600.0
MIN_RUNS = 6  # per shard
HARD_LIMIT = {"quick": 780.0, "thorough": 3600.0}
REAL = ["neps.api / neps.runtime (worker loop, limits, global state)", "neps.state.* (file based state, versions, locks, seed snapshot)",
        "neps.optimizers.*", "neps.status.*", "neps.utils.*", "portalocker", "PyYAML", "pandas", "numpy/torch/botorch (one thread)",
        "the kernel's file system (tmpfs under /dev/shm)"]
STUB = ["process scheduling (one baton, seeded)", "clocks and sleep (virtual time)", "flock/lockf (simulated lock table, freed at a crash)",
        "os.urandom / uuid / pids", "process death, I/O errors, torn writes (injected at file operations)", "directory listing order (shuffled)",
        "run_pipeline (scripted by the simulator)"]


def hashseed_of(shard):
    return 101 + 13 * shard


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "known" and d["property"] == prop:
                        out.append(d)
    return out


class Worker:
    def __init__(self, args, hashseed, scratch, known=()):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", NEPS_SIM_SCRATCH=scratch, MPLCONFIGDIR=scratch + "/mpl",
                   NEPS_SIM_KNOWN=json.dumps(list(known)), PYTHONPATH=HERE, HOME=scratch)
        for k in list(env):
            if k.startswith("NEPS_") and not k.startswith("NEPS_SIM_"):
                del env[k]
        self.r, w = os.pipe()
        self.err = open(f"{scratch}/err{time.monotonic_ns()}", "w+")

        def pre():
            os.dup2(w, 3)

        self.p = subprocess.Popen([PY, "-m", "sim.worker", *map(str, args)], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.DEVNULL, stderr=self.err, preexec_fn=pre, close_fds=False,
                                  start_new_session=True)
        os.close(w)
        self.buf = b""
        self.eof = False

    def read(self):
        b = os.read(self.r, 1 << 20)
        if not b:
            self.eof = True
            return []
        self.buf += b
        *lines, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in lines]

    def send(self, **kw):
        self.p.stdin.write((json.dumps(kw) + "\n").encode())
        self.p.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def errtext(self):
        self.err.flush()
        with open(self.err.name) as f:
            return f.read()[-3000:]


def ask(w, want, timeout):
    """Reads one worker until a message of one of the kinds arrives."""
    end = time.monotonic() + timeout
    sel = selectors.DefaultSelector()
    sel.register(w.r, selectors.EVENT_READ)
    while time.monotonic() < end:
        if sel.select(1.0):
            for m in w.read():
                if m["kind"] in want:
                    return m
            if w.eof:
                return None
    return None


def replay(prop, path, scratch):
    with open(path) as f:
        rep = json.load(f)
    w = Worker([prop, "replay", os.path.abspath(path)], rep["hashseed"], scratch)
    m = ask(w, ("replayed", "harness"), 700)
    w.kill()
    if m is None or m["kind"] == "harness":
        return {"error": (m or {}).get("msg") or w.errtext() or "no answer"}
    v = next((v for v in m["viol"] if v["sig"] == rep["sig"]), None)
    return {"viol": v, "any": m["viol"], "same": m["hash"] == rep["hash"], "hash": m["hash"], "rep": rep}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--start", type=int, default=0, help="offset into the seeds")
    a = ap.parse_args()
    prop, tier = a.property, ("thorough" if a.tier == "thorough" else "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1") or "1")
    base_dir = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = f"{base_dir}/vsim_{os.urandom(4).hex()}".ljust(24, "_")
    os.makedirs(scratch)
    try:
        if a.replay:
            r = replay(prop, a.replay, scratch)
            if "error" in r:
                print("check error:", r["error"])
                return 2
            if r["viol"]:
                print(r["viol"]["msg"])
                print("replay: same violation," + (" same event trace" if r["same"] else f" DIFFERENT event trace {r['hash']}"))
                print(f"VIOLATION property={prop} replay={a.replay}")
                return 1
            print("replay: the violation did not occur" + (f" (others: {[v['sig'] for v in r['any']]})" if r["any"] else ""))
            return 1 if r["any"] else 0
        return search(prop, tier, vseed, scratch, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def search(prop, tier, vseed, scratch, a):
    t0 = time.monotonic()
    budget = a.budget or (QUICK_S if tier == "quick" else THOROUGH_S)
    hard = max(HARD_LIMIT[tier], budget * 2)
    base = vseed * 10_000_000 + a.start
    known = load_known(prop)
    ws = [Worker([prop, "search", base, s, NSHARDS, budget, MIN_RUNS], hashseed_of(s), scratch, [k["sig"] for k in known])
          for s in range(NSHARDS)]
    sel = selectors.DefaultSelector()
    for w in ws:
        sel.register(w.r, selectors.EVENT_READ, w)
    runs, harness, viol, done = [], [], None, 0
    up = None
    while sel.get_map() and viol is None:
        if time.monotonic() - t0 > hard:
            harness.append({"msg": "time limit of the check reached"})
            break
        for key, _ in sel.select(1.0):
            w = key.data
            for m in w.read():
                if m["kind"] == "up":
                    up = up or time.monotonic()
                elif m["kind"] == "run":
                    runs.append(m)
                elif m["kind"] == "harness":
                    harness.append(m)
                elif m["kind"] == "done":
                    done += 1
                elif m["kind"] == "violation" and viol is None:
                    viol = (m, w)
            if w.eof:
                sel.unregister(w.r)
        if len(harness) >= 40 and viol is None:
            break
    search_s = time.monotonic() - (up or t0)
    rc = 0
    report = None
    if viol is not None:
        m, w = viol
        for o in ws:
            if o is not w:
                o.kill()
        w.send(do="minimise", jobs=os.cpu_count() or 4, seconds=60 if tier == "quick" else 240)
        r = ask(w, ("minimised",), 60 + 300 + hard / 2)
        w.kill()
        if r is None:  # report what was found, unminimised
            print("check warning: minimisation gave no answer:", w.errtext()[-500:])
            from_seed = {"note": "unminimised", "seed": m["seed"]}
            spec = None
        else:
            from_seed = {"seed": r["seed"], "size": r["size"], "tried": r["tried"]}
            spec = r["spec"]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}-{m['seed']}.json")
        if spec is None:
            # the spec is a pure function of property and seed
            code = f"import json,sys; sys.path.insert(0,{HERE!r})\nfrom sim.profiles import gen\nprint(json.dumps(gen({prop!r},{m['seed']})))"
            spec = json.loads(subprocess.run([PY, "-c", code], capture_output=True, text=True).stdout)
            r = {"sig": m["sig"], "msg": m["msg"], "hash": None, "log": [], "hashseed": m["hashseed"], "original": None}
        with open(path, "w") as f:
            json.dump({"property": prop, "sig": r["sig"], "msg": r["msg"], "hash": r["hash"], "hashseed": r["hashseed"],
                       "found": from_seed, "spec": spec, "original": r.get("original"),
                       "trace_tail": r.get("log")}, f, indent=1)
        again = replay(prop, path, scratch)
        ok = again.get("viol") is not None and again.get("same")
        print(f"{prop}: {r['sig']}: {r['msg']}")
        print(f"seed {m['seed']}, PYTHONHASHSEED {r['hashseed']}, {json.dumps(from_seed)}; replay in a fresh process: "
              + ("same violation, same event trace" if ok else f"NOT IDENTICAL {json.dumps({k: again.get(k) for k in ('error', 'same', 'any')}, default=str)[:600]}"))
        print(f"VIOLATION property={prop} replay={path}")
        report = {"sig": r["sig"], "replay": path, "reproduced_exactly": bool(ok)}
        rc = 1
    else:
        for w in ws:
            if not w.eof:
                w.kill()
            else:
                w.p.wait()
        if done != NSHARDS:
            bad = [w.errtext() for w in ws if w.p.returncode]
            harness.append({"msg": f"{NSHARDS - done} of {NSHARDS} shards did not finish: " + (bad[0] if bad else "")})
    evidence(prop, tier, vseed, runs, time.monotonic() - t0, search_s, known, harness, report)
    hits = collections.Counter(s for m in runs for s in m["known"])
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}" + (f" (seen in {hits[k['sig']]} runs)" if hits[k["sig"]] else ""))
    if rc == 0 and harness:
        print(f"check error: {len(harness)} harness errors; first: {harness[0].get('seed')} {harness[0]['msg']}")
        return 2
    if rc == 0:
        print(f"{prop}: held in {len(runs)} simulated runs ({sum(m['simtime'] for m in runs):.0f} simulated seconds, "
              f"{len({m['ilv'] for m in runs})} distinct interleavings) in {time.monotonic() - t0:.0f} s")
    return rc


def evidence(prop, tier, vseed, runs, wall, search_s, known, harness, report):
    faults, probes, ops = collections.Counter(), collections.Counter(), collections.Counter()
    runs_with = collections.Counter()
    crash_where = collections.Counter()
    for m in runs:
        faults.update(m["faults"])
        runs_with.update(m["faults"].keys())
        probes.update(m["probes"])
        ops.update(m["ops"])
        for in_eval, held in m["crashes"]:
            crash_where["during an evaluation" if in_eval else "holding a lock" if held else "elsewhere"] += 1
    nt = {m["hash"] for m in runs if m["nontrivial"]}
    per_h = 3600.0 / max(search_s, 1e-9)
    cov = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(nt),
        "rule": "one evaluation is one simulated execution of a seeded scenario (workers, faults, schedule); it is non-trivial if it "
                "made more than two context switches or had an injected fault, and distinct if the hash of its complete event trace is",
        "samples": [m["sample"] for m in runs if m.get("sample")][:2],
        "seeds": [runs and min(m["seed"] for m in runs), runs and max(m["seed"] for m in runs)],
        "runs_per_hour": round(len(runs) * per_h),
        "seeds_per_hour": round(len(runs) * per_h),
        "simulated_seconds": round(sum(m["simtime"] for m in runs), 1),
        "longest_lock_waits": sorted((round(m["lockwait"], 2) for m in runs), reverse=True)[:5],
        "steps": sum(m["steps"] for m in runs),
        "context_switches": sum(m["switches"] for m in runs),
        "distinct_interleavings": len({m["ilv"] for m in runs}),
        "interleaving_measure": "hash over the sequence of (process switched from, process switched to, operation at the switch)",
        "pipeline_evaluations": sum(m["evals"] for m in runs),
        "simulated_processes": sum(m["procs"] for m in runs),
        "faults_injected": dict(faults),
        "runs_with_fault": dict(runs_with),
        "crash_points": dict(crash_where),
        "probes": dict(probes),
        "operations": dict(ops.most_common(20)),
        "real_components": REAL,
        "stubbed_components": STUB,
        "hash_seeds": sorted({hashseed_of(s) for s in range(NSHARDS)}),
        "harness_errors": len(harness),
    }
    if report:
        cov["violation"] = report
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": vseed, "level": "exploration", "coverage": cov,
                   "assumptions": ["the simulated seams behave as POSIX files, flock and clocks do on one machine",
                                   "a killed process loses nothing it had handed to the kernel (no power loss)",
                                   "sampled, not enumerated: a clean batch is evidence, not proof"],
                   "wall_s": round(wall, 1), "violations": 1 if report else 0}, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
