"""One shard of the search: boots the code under test once, forks one child per
simulated run, reports results as JSON lines on fd 3.

    python -m sim.worker PID search BASE SHARD NSHARDS BUDGET_S MIN_RUNS
    python -m sim.worker PID replay FILE
"""
from __future__ import annotations

import gc
import json
import os
import pickle
import select
import signal
import shutil
import sys
import time as _time
import traceback

HANG_CPU = float(os.environ.get("NEPS_SIM_HANG_CPU", "240"))
HANG_WALL = 600.0
_monotonic = _time.monotonic  # the real clock, captured before the seams are installed


def cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            a = f.read().rsplit(")", 1)[1].split()
        return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


class Child:
    """One simulated run in a forked child."""

    def __init__(self, spec, pid, scratch, trace_log=False):
        from .execute import execute

        self.spec = spec
        rd, wr = os.pipe()
        self.t0 = _monotonic()
        self.rd = rd
        self.buf = b""
        self.c = os.fork()
        if self.c == 0:
            os.close(rd)
            d = f"{scratch}/{os.getpid():08d}"  # every run directory has a name of the same length
            os.makedirs(d)
            gc.disable()
            try:
                r = execute(spec, pid, d, trace_log=trace_log)
            except BaseException:  # noqa: BLE001
                r = {"harness": traceback.format_exc()[-3000:]}
            try:
                data = pickle.dumps(r)
            except Exception:  # noqa: BLE001
                data = pickle.dumps({"harness": "unpicklable result: " + traceback.format_exc()[-2000:]})
            shutil.rmtree(d, ignore_errors=True)
            try:
                while data:
                    data = data[os.write(wr, data):]
            finally:
                os._exit(0)
        os.close(wr)
        self.scratch = f"{scratch}/{self.c:08d}"

    def poll(self, timeout):
        """None while running, else the result."""
        r, _, _ = select.select([self.rd], [], [], timeout)
        if r:
            b = os.read(self.rd, 1 << 20)
            if b:
                self.buf += b
                return None
            os.close(self.rd)
            os.waitpid(self.c, 0)
            shutil.rmtree(self.scratch, ignore_errors=True)
            if not self.buf:
                return {"harness": "the run's process died without a result"}
            return pickle.loads(self.buf)
        wall = _monotonic() - self.t0
        if wall > 30:
            if cpu_of(self.c) > HANG_CPU:
                self.kill()
                return {"hang": True}
            if wall > HANG_WALL:
                self.kill()
                return {"harness": f"a run took more than {HANG_WALL} s of wall clock time"}
        return None

    def kill(self):
        try:
            os.kill(self.c, signal.SIGKILL)
        except OSError:
            pass
        os.close(self.rd)
        os.waitpid(self.c, 0)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def wait(self):
        while True:
            r = self.poll(1.0)
            if r is not None:
                return finish(r)


def finish(r):
    if r.get("newrefs"):
        from . import execute as ex

        ex.REFCACHE.update(r.pop("newrefs"))
    if r.get("hang"):
        r = {"viol": [{"sig": "no-termination",
                       "msg": f"the code under test ran for {HANG_CPU:.0f} s of CPU time without finishing "
                              "(and without reaching another operation on files, locks or clocks)"}],
             "hash": "hang", "ilv": "hang", "steps": 0, "switches": 0, "simtime": 0.0, "lockwait": 0.0, "faults": {}, "probes": {},
             "evals": 0, "events": 0, "aborted": "hang", "procs": 0, "preempts": [], "ops": {}, "wall": HANG_CPU,
             "crashes": [], "nontrivial": True}
    return r


def run_many(specs, pid, scratch, jobs, stop_at=None, good=None):
    """Results in order; stops early once `good(result)` is true for the first time
    (everything before it in order has been answered then)."""
    res = [None] * len(specs)
    live = {}
    nxt = 0
    limit = len(specs)
    while True:
        while nxt < limit and len(live) < jobs and (stop_at is None or _monotonic() < stop_at):
            live[nxt] = Child(specs[nxt], pid, scratch)
            nxt += 1
        if not live:
            break
        for i in sorted(live):
            if i not in live:
                continue
            r = live[i].poll(0.002)
            if r is not None:
                res[i] = finish(r)
                del live[i]
                if good is not None and good(res[i]):
                    limit = min(limit, i + 1)
                    for j in [j for j in live if j >= limit]:
                        live.pop(j).kill()
    return res


# --------------------------------------------------------------------------- minimisation
def ddmin_sizes(n):
    k = n
    while k >= 1:
        yield k
        k //= 2


class Minimiser:
    def __init__(self, spec, sig, pid, scratch, jobs, seconds):
        self.spec, self.sig, self.pid, self.scratch, self.jobs = spec, sig, pid, scratch, jobs
        self.stop = _monotonic() + seconds
        self.tried = 0

    def fails(self, r):
        return r is not None and any(v["sig"] == self.sig for v in r.get("viol", ()))

    def attempt(self, cands):
        """Adopts the first candidate (in order) that still fails."""
        if not cands or _monotonic() > self.stop:
            return False
        self.tried += len(cands)
        res = run_many(cands, self.pid, self.scratch, self.jobs, stop_at=self.stop, good=self.fails)
        for c, r in zip(cands, res):
            if self.fails(r):
                c = json.loads(json.dumps(c))
                if "schedule" in c:
                    c["schedule"] = [list(x) for x in r["preempts"]]
                self.spec = c
                return True
        return False

    def list_min(self, get, put):
        xs = get(self.spec)
        for k in ddmin_sizes(len(xs)):
            i = 0
            while i < len(get(self.spec)) and _monotonic() < self.stop:
                xs = get(self.spec)
                cands, pos = [], []
                j = i
                while j < len(xs) and len(cands) < self.jobs:
                    cands.append(put(self.spec, xs[:j] + xs[j + k:]))
                    pos.append(j)
                    j += k
                before = self.spec
                if self.attempt(cands):
                    n = len(get(self.spec))
                    if n >= len(get(before)):
                        i = j
                else:
                    i = j

    def run(self, first):
        cp = lambda s: json.loads(json.dumps(s))  # noqa: E731
        # 1. the schedule becomes explicit
        s = cp(self.spec)
        s["schedule"] = [list(x) for x in first["preempts"]]
        if not self.attempt([s]):
            return self.spec
        # 2. no interruption of anybody at all?
        s = cp(self.spec)
        s["schedule"] = []
        self.attempt([s])

        # 3. fewer simulated processes (emptied, so that the others keep their identity), faults, restarts
        def edits(spec):
            out = []
            for i, ps in enumerate(spec["procs"]):
                if len(spec["procs"]) > 1 and ps["prog"]:
                    t = cp(spec)
                    t["procs"][i]["prog"] = []
                    t["procs"][i].pop("faults", None)
                    t["procs"][i].pop("kill_at", None)
                    t["procs"][i].pop("restart", None)
                    out.append(t)
            for i, ps in enumerate(spec["procs"]):
                for key in ("restart", "kill_at", "skew", "speed"):
                    if ps.get(key):
                        t = cp(spec)
                        t["procs"][i].pop(key)
                        out.append(t)
                for j in range(len(ps.get("faults") or ())):
                    t = cp(spec)
                    del t["procs"][i]["faults"][j]
                    out.append(t)
                if len(ps["prog"]) > 1:
                    for j in reversed(range(len(ps["prog"]))):
                        t = cp(spec)
                        del t["procs"][i]["prog"][j]
                        out.append(t)
            return out

        while _monotonic() < self.stop and self.attempt(edits(self.spec)):
            pass
        # 4. fewer preemptions
        self.list_min(lambda s: s.get("schedule", []),
                      lambda s, xs: {**cp(s), "schedule": xs})
        while _monotonic() < self.stop and self.attempt(edits(self.spec)):
            pass
        return self.spec


def tail_log(r, n=160):
    return [list(x) for x in (r.get("log") or [])[-n:]]


# --------------------------------------------------------------------------- main
def main():
    out = os.fdopen(3, "w", buffering=1)

    def say(**kw):
        out.write(json.dumps(kw, default=repr) + "\n")
        out.flush()

    pid, mode = sys.argv[1], sys.argv[2]
    scratch = os.environ["NEPS_SIM_SCRATCH"] + f"/w{os.getpid():08d}"
    os.makedirs(scratch)
    from .boot import boot
    from .profiles import gen

    boot()
    gc.collect()
    gc.freeze()
    hashseed = int(os.environ["PYTHONHASHSEED"])
    if mode == "replay":
        with open(sys.argv[3]) as f:
            rep = json.load(f)
        r = Child(rep["spec"], pid, scratch, trace_log=True).wait()
        if "harness" in r:
            say(kind="harness", msg=r["harness"])
        else:
            say(kind="replayed", viol=r["viol"], hash=r["hash"], log=tail_log(r))
        return
    base, shard, nshards, budget, min_runs = (int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]),
                                              float(sys.argv[6]), int(sys.argv[7]))
    say(kind="up")
    known = set(json.loads(os.environ.get("NEPS_SIM_KNOWN", "[]")))
    t0 = _monotonic()
    i = shard
    n = 0
    while n < min_runs or _monotonic() - t0 < budget:
        seed = base + i
        spec = json.loads(json.dumps(gen(pid, seed)))
        r = Child(spec, pid, scratch).wait()
        n += 1
        i += nshards
        if "harness" in r:
            say(kind="harness", seed=seed, msg=r["harness"])
            continue
        new = [v for v in r["viol"] if v["sig"] not in known]
        say(kind="run", seed=seed, hash=r["hash"], ilv=r["ilv"], steps=r["steps"], switches=r["switches"],
            simtime=r["simtime"], lockwait=r["lockwait"], faults=r["faults"], probes=r["probes"], evals=r["evals"], events=r["events"],
            aborted=r["aborted"], wall=r["wall"], nontrivial=r["nontrivial"], procs=r["procs"],
            crashes=[[c[3], bool(c[2])] for c in r["crashes"]], ops=r["ops"],
            known=[v["sig"] for v in r["viol"] if v["sig"] in known], viol=[v["sig"] for v in new],
            sample=spec if n <= 1 else None)
        if new:
            say(kind="violation", seed=seed, hashseed=hashseed, sig=new[0]["sig"], msg=new[0]["msg"])
            cmd = json.loads(sys.stdin.readline() or '{"do": "stop"}')
            if cmd["do"] != "minimise":
                return
            m = Minimiser(spec, new[0]["sig"], pid, scratch, cmd["jobs"], cmd["seconds"])
            if r["hash"] == "hang":
                small = spec
            else:
                small = m.run(r)
            fin = Child(small, pid, scratch, trace_log=True).wait()
            if "harness" in fin or not m.fails(fin):
                small = spec
                fin = Child(small, pid, scratch, trace_log=True).wait()
            v = next((v for v in fin.get("viol", ()) if v["sig"] == new[0]["sig"]), new[0])
            say(kind="minimised", spec=small, original=spec, sig=v["sig"], msg=v["msg"], hash=fin.get("hash"),
                tried=m.tried, log=tail_log(fin), hashseed=hashseed, seed=seed,
                size={"preemptions": len(small.get("schedule", r["preempts"])), "of": len(r["preempts"]),
                      "faults": sum(len(p.get("faults") or ()) for p in small["procs"]),
                      "of_faults": sum(len(p.get("faults") or ()) for p in spec["procs"])})
            return
    say(kind="done")


if __name__ == "__main__":
    try:
        main()
    finally:
        shutil.rmtree(os.environ["NEPS_SIM_SCRATCH"] + f"/w{os.getpid():08d}", ignore_errors=True)
