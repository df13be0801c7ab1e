"""Oracles: each takes the finished World and yields (signature, message) for every
violation of its property found in the recorded history / final state.

They judge only behaviour observable by a user: pipeline invocations, what run() does,
what status and the state loader return, files the documentation promises.
"""
from __future__ import annotations

import math

from .core import EPOCH
from .world import DOMAIN, FIDELITY, World, nan_eq


class Hist:
    def __init__(self, w: World):
        self.w = w
        self.spec = w.spec
        h = self.h = w.sim.history
        self.runs = []  # run/worker calls
        self.evals = []
        cur_call = {}
        cur_eval = {}
        self.crashed = {}
        self.procs = {p.name: p for p in w.sim.procs}
        last_mark = {}
        interrupted = set()
        for e in h:
            p = e["p"]
            if e["ev"] == "call":
                op = self.procs[p].spec["prog"][e["i"]]
                c = {"p": p, "op": e["op"], "root": e["root"], "call": e["seq"], "ret": None, "out": None,
                     "evals": [], "i": e["i"], "spec": op, "t0": e["t"], "chain": None}
                cur_call[p] = c
                last_mark[p] = e["seq"]
                if e["op"] in ("run", "worker"):
                    self.runs.append(c)
            elif e["ev"] == "ret":
                c = cur_call.get(p)
                if c is not None:
                    c["ret"] = e["seq"]
                    c["out"] = e["out"]
                    c["chain"] = e.get("chain")
                    c["tb"] = e.get("tb")
                    c["io"] = e.get("io_fault")
                    c["t1"] = e["t"]
                    if e["out"] == "exc" and p in interrupted and any(a == "KeyboardInterrupt" for a, _ in e["chain"]):
                        # a user's ctrl-c somewhere in the call: ends the process like a kill, but unwinding
                        c["out"] = "interrupted"
                        self.crashed[p] = e
            elif e["ev"] == "interrupt":
                interrupted.add(p)
            elif e["ev"] == "eval_start":
                ev = {"p": p, "root": e["root"], "tid": e["tid"], "config": e["config"], "start": e["seq"],
                      "t_start": e["t"], "end": None, "err": None, "expect": None, "n": e["n"], "dir": e["dir"],
                      "prev": e["prev"], "s0": last_mark.get(p, -1), "run": cur_call.get(p), "acked": False,
                      "dur": None}
                self.evals.append(ev)
                cur_eval[p] = ev
                if cur_call.get(p) is not None:
                    cur_call[p]["evals"].append(ev)
            elif e["ev"] == "eval_end":
                ev = cur_eval.get(p)
                ev["end"] = e["seq"]
                ev["t_end"] = e["t"]
                ev["err"] = e["err"]
                ev["err_type"] = e.get("err_type")
                ev["expect"] = e["result"]
                ev["dur"] = e["dur"]
                last_mark[p] = e["seq"]
            elif e["ev"] == "crash":
                self.crashed[p] = e
        # acknowledgement: the worker went past the evaluation
        for r in self.runs:
            evs = r["evals"]
            for i, ev in enumerate(evs):
                if ev["end"] is None:
                    continue
                if i + 1 < len(evs):
                    ev["acked"] = True
                    ev["ack_seq"] = evs[i + 1]["start"]
                elif r["out"] == "ok":
                    ev["acked"] = True
                    ev["ack_seq"] = r["ret"]
                elif r["out"] == "exc" and r["chain"] and r["chain"][0][0] == "WorkerRaiseError":
                    ev["acked"] = True
                    ev["ack_seq"] = r["ret"]
        self.aborted = w.sim.aborted

    def roots(self):
        return sorted({r["root"] for r in self.runs if r["root"]})

    def evals_of(self, root):
        return [e for e in self.evals if e["root"] == root]

    def runs_of(self, root):
        return [r for r in self.runs if r["root"] == root]

    def io_faulted(self, p):
        return getattr(self.procs[p], "io_faults", 0) > 0


def first_line(s):
    return (s or "").strip().split("\n")[-1][:200]


def describe_exc(r):
    return " <- ".join(f"{a}: {b[:120]}" for a, b in (r["chain"] or [])[:3])


def liveness(H, pid, allow=()):
    """No hang: the run ended by itself."""
    if H.aborted in ("step-limit", "deadlock"):
        yield (f"{H.aborted}", f"the simulated run did not terminate ({H.aborted}); "
               f"live: {[p.name for p in H.w.sim.procs if p.outcome == 'crash' and (p.crashed or '').startswith('aborted')]}")


def unexpected_exceptions(H, ok=lambda r: False):
    for r in H.runs:
        if r["out"] == "exc" and not ok(r):
            yield (f"exc:{r['chain'][0][0]}:{r['chain'][-1][0]}",
                   f"run call of {r['p']} on {r['root']} raised {describe_exc(r)}\n{r['tb'][-1200:]}")


# --------------------------------------------------------------------------- C01
def c01(H):
    seen = {}
    for e in H.evals:
        k = (e["root"], e["tid"])
        if k in seen:
            a = seen[k]
            yield ("dup-eval", f"trial {k} evaluated twice: by {a['p']} (event {a['start']}) and by {e['p']} (event {e['start']})")
        else:
            seen[k] = e


# --------------------------------------------------------------------------- C02
def report_matches(rep, ev, spec_kw):
    """Compare a recorded report with what the pipeline did."""
    if rep is None:
        return "no result recorded"
    if ev["err"] is None:
        ex = ev["expect"]
        if rep["as"] != "success":
            return f"recorded as {rep['as']} but the pipeline returned {ex}"
        want = {"loss": ex["loss"], "extra": ex["extra"],
                "cost": spec_kw.get("cost_if_not_provided") if ex["cost"] is None else ex["cost"]}
        for k in want:
            if not nan_eq(rep[k], want[k]):
                return f"{k} recorded {rep[k]!r}, pipeline gave {want[k]!r}"
        want_lc = ex["lc"]
        if want_lc is None:
            want_lc = spec_kw.get("learning_curve_if_not_provided", "loss" if not spec_kw.get("_worker") else None)
            if want_lc == "loss":
                want_lc = [ex["loss"]]
        if not nan_eq(rep["lc"], want_lc):
            return f"learning curve recorded {rep['lc']!r}, pipeline gave {want_lc!r}"
        if rep["err"] is not None:
            return f"error recorded for a success: {rep['err']!r}"
        return None
    if rep["as"] != "crashed":
        return f"recorded as {rep['as']} but the pipeline raised"
    if rep["err"] is None or rep["err"] != ev["err"]:
        return f"error recorded {rep['err']!r}, pipeline raised {ev['err']!r}"
    if not rep["has_tb"]:
        return "no traceback recorded"
    lo, co = spec_kw.get("loss_value_on_error"), spec_kw.get("cost_value_on_error")
    if not nan_eq(rep["loss"], lo) or not nan_eq(rep["cost"], co):
        return f"substitute values recorded {rep['loss']!r}/{rep['cost']!r}, configured {lo!r}/{co!r}"
    if not nan_eq(rep["lc"], spec_kw.get("learning_curve_on_error")):
        return f"learning curve of a failure recorded {rep['lc']!r}, configured {spec_kw.get('learning_curve_on_error')!r}"
    return None


def c02(H):
    w = H.w
    for root in H.roots():
        if root in w.final_err:
            if H.evals_of(root):
                yield ("unreadable", f"recorded results of {root} can no longer be read: {w.final_err[root][-900:]}")
            continue
        fin = w.final.get(root)
        if fin is None:
            continue
        tr = fin["trials"]
        done_by = {}
        for ev in H.evals_of(root):
            t = tr.get(ev["tid"])
            if t is None:
                yield ("lost-trial", f"trial {ev['tid']} was evaluated by {ev['p']} but is not in the final state")
                continue
            if not nan_eq(dict(t["config"]), dict(ev["config"])):
                yield ("config", f"trial {ev['tid']}: recorded config {t['config']} but pipeline got {ev['config']}")
            if ev["end"] is None:
                if t["report"] is not None and ev["tid"] not in done_by:
                    others = [e for e in H.evals_of(root) if e["tid"] == ev["tid"] and e["end"] is not None]
                    if not others:
                        yield ("phantom-result", f"trial {ev['tid']} has a result although its evaluation never finished")
                continue
            if ev["err"] in ("badvalue", "interrupt"):
                continue
            done_by.setdefault(ev["tid"], []).append(ev)
        for tid, evs in done_by.items():
            if len(evs) > 1:
                continue  # C01's business
            ev = evs[0]
            rep = tr[tid]["report"]
            kw = dict(ev["run"]["spec"].get("kw", {}))
            kw.update(ev["run"]["spec"].get("defaults", {}))
            if ev["run"]["op"] == "worker":
                kw["_worker"] = True
            if rep is None:
                if ev["acked"]:
                    yield ("lost-result", f"result of trial {tid} (worker {ev['p']} moved on at event {ev['ack_seq']}) is not recorded; state={tr[tid]['state']}")
                continue
            m = report_matches(rep, ev, kw)
            if m:
                yield ("wrong-result", f"trial {tid} by {ev['p']}: {m}")
            elif ev["acked"] and tr[tid]["state"] != rep["as"]:
                yield ("state-mismatch", f"trial {tid}: acknowledged result '{rep['as']}' but state '{tr[tid]['state']}'")
        # observers
        for e in H.h:
            if e["ev"] == "snap_ret" and e["root"] == root and e["exc"] is None:
                for tid, t in e["trials"].items():
                    f = tr.get(tid)
                    if f is None:
                        yield ("vanished", f"trial {tid} seen at event {e['seq']} is gone in the final state")
                    elif t["report"] is not None and not nan_eq(t["report"], f["report"]):
                        yield ("changed", f"result of trial {tid} seen at event {e['seq']} as {t['report']} is finally {f['report']}")


# --------------------------------------------------------------------------- C03
def c03(H):
    yield from liveness(H, "C03")
    for root in H.roots():
        runs = H.runs_of(root)
        kws = [r["spec"].get("kw", {}) for r in runs]
        evs = H.evals_of(root)
        nworkers = len({r["p"] for r in runs})
        orphans = sum(1 for e in evs if e["end"] is None or not e["acked"])
        for r in runs:
            K = r["spec"].get("kw", {}).get("max_evaluations_per_run", r["spec"].get("kw", {}).get("max_evaluations_for_worker"))
            if K is not None and len(r["evals"]) > K:
                yield ("per-run", f"{r['p']} made {len(r['evals'])} evaluations in one call, limit {K}")
        Ms = {kw.get("max_evaluations_total") for kw in kws}
        if len(Ms) != 1 or None in Ms:
            M = None
        else:
            M = Ms.pop()
        incl = {inprog(r) for r in runs}
        for e in evs:
            r = e["run"]
            m = r["spec"].get("kw", {}).get("max_evaluations_total")
            if m is None:
                continue
            if inprog(r):
                before = sum(1 for o in evs if o["start"] < e["s0"])
                if before >= m:
                    yield ("late-start", f"{e['p']} started trial {e['tid']} (event {e['start']}) although {before} evaluations had been started before it last looked (after event {e['s0']}); budget {m}")
            else:
                before = sum(1 for o in evs if o["acked"] and o["ack_seq"] < e["s0"])
                if before >= m:
                    yield ("late-start", f"{e['p']} started trial {e['tid']} although {before} evaluations were recorded before it last looked; budget {m}")
        if M is not None and len(incl) == 1:
            inc = incl.pop()
            # workers that were ever active at the same time
            W = max_overlap(runs, H)
            lim = M + W - 1 + (0 if inc else orphans)
            if len(evs) > lim:
                yield ("overshoot", f"{len(evs)} evaluations with budget {M} and at most {W} workers at a time")
            if not inc:
                lim2 = M + W - 1
                fin = H.w.final.get(root)
                if fin:
                    n = sum(1 for t in fin["trials"].values() if t["report"] is not None)
                    if n > lim2:
                        yield ("overshoot", f"{n} results with budget {M} and at most {W} workers at a time")
            full = [r for r in runs if r["out"] == "ok"]
            reached_total = [r for r in full if len(r["evals"]) < (r["spec"]["kw"].get("max_evaluations_per_run") or 10**9)
                             and r["spec"]["kw"].get("max_cost_total") is None
                             and not r["spec"]["kw"].get("max_evaluations_for_worker")]
            for r in reached_total:
                if inc:
                    # an evaluation counts from the moment it is claimed, which lies between the worker's last
                    # look at the store and the call of the user's function (the worker may stall in between)
                    n = sum(1 for o in evs if o["s0"] < r["ret"])
                else:
                    n = sum(1 for o in evs if o["end"] is not None and o["end"] < r["ret"])
                # trials claimed by a worker that died before reaching the pipeline count too
                slack = sum(1 for p in H.crashed) if inc else 0
                if n + slack < M:
                    yield ("early-stop", f"{r['p']} returned after only {n} evaluations of a budget of {M}")
        for r in runs:
            kw = r["spec"].get("kw", {})
            K = kw.get("max_evaluations_per_run")
            if r["out"] == "ok" and K is not None and kw.get("max_evaluations_total") is None and kw.get("max_cost_total") is None:
                if len(r["evals"]) < K:
                    yield ("early-stop-run", f"{r['p']} returned after {len(r['evals'])} evaluations, per-run limit {K}")


def inprog(r):
    kw = r["spec"].get("kw", {})
    if r["op"] == "worker":
        return bool(kw.get("include_in_progress_evaluations_towards_maximum", False))
    return not kw.get("continue_until_max_evaluation_completed", False)


def max_overlap(runs, H):
    pts = []
    for r in runs:
        end = r["ret"]
        if end is None:
            c = H.crashed.get(r["p"])
            end = c["seq"] if c else 10**9
        pts.append((r["call"], 1))
        pts.append((end, -1))
    pts.sort(key=lambda x: (x[0], -x[1]))
    cur = best = 0
    for _, d in pts:
        cur += d
        best = max(best, cur)
    return max(best, 1)


def cost_conserved(H, fin, runs, evs):
    total = sum(t["report"]["cost"] for t in fin["trials"].values()
                if t["report"] is not None and t["report"]["cost"] is not None)
    used = fin["budget"]["used_cost_budget"] if fin["budget"] else None
    if used is not None:
        # a killed (or I/O-faulted) worker may die between recording the result and booking its cost
        slack = 0.0
        for p in set(H.crashed) | {r["p"] for r in runs if r["out"] == "exc"}:
            mine = [e for e in evs if e["p"] == p and e["end"] is not None]
            if mine:
                c = cost_of(mine[-1])
                slack += c or 0.0
        if used > total + 1e-9:
            yield ("overbooked", f"spent cost booked {used} but recorded results sum to {total}")
        if used < total - slack - 1e-9:
            yield ("underbooked", f"spent cost booked {used} but recorded results sum to {total} (allowance for killed workers {slack})")


# --------------------------------------------------------------------------- C04
def c04(H):
    yield from liveness(H, "C04")
    w = H.w
    for root in H.roots():
        runs = H.runs_of(root)
        evs = H.evals_of(root)
        fin = w.final.get(root)
        if fin is None:
            continue
        yield from cost_conserved(H, fin, runs, evs)
        for e in evs:
            kw = e["run"]["spec"].get("kw", {})
            mc = kw.get("max_cost_total")
            if mc is not None:
                seen = sum(cost_of(o) or 0.0 for o in evs if o["acked"] and o["ack_seq"] < e["s0"])
                own = [o for o in evs if o["p"] == e["p"] and o["end"] is not None and o["end"] <= e["s0"] and not (o["acked"] and o["ack_seq"] < e["s0"])]
                seen += sum(cost_of(o) or 0.0 for o in own)
                if seen >= mc:
                    yield ("late-start", f"{e['p']} started trial {e['tid']} although recorded costs were {seen} >= {mc}")
            mw = kw.get("max_cost_for_worker")
            if mw is not None:
                mine = sum(cost_of(o) or 0.0 for o in e["run"]["evals"] if o["start"] < e["start"])
                if mine >= mw:
                    yield ("late-start-worker", f"{e['p']} started trial {e['tid']} with own cost {mine} >= {mw}")
        for r in runs:
            kw = r["spec"].get("kw", {})
            mc = kw.get("max_cost_total")
            if r["out"] == "ok" and mc is not None and kw.get("max_evaluations_total") is None and not kw.get("max_evaluations_per_run"):
                have = sum(cost_of(o) or 0.0 for o in evs if o["end"] is not None and o["end"] < r["ret"])
                if have < mc:
                    yield ("early-stop", f"{r['p']} returned with costs {have} < {mc}")
            mw = kw.get("max_cost_for_worker")
            if r["out"] == "ok" and mw is not None and kw.get("max_cost_total") is None and kw.get("max_evaluations_total") is None:
                mine = sum(cost_of(o) or 0.0 for o in r["evals"])
                if mine < mw:
                    yield ("early-stop-worker", f"{r['p']} returned with own cost {mine} < {mw}")


def cost_of(e):
    kw = dict(e["run"]["spec"].get("kw", {}))
    kw.update(e["run"]["spec"].get("defaults", {}))
    if e["err"] is not None:
        return kw.get("cost_value_on_error")
    c = e["expect"]["cost"]
    return kw.get("cost_if_not_provided") if c is None else c


# --------------------------------------------------------------------------- C05
def c05(H):
    yield from liveness(H, "C05")
    w = H.w
    if H.aborted:
        return
    yield from unexpected_exceptions(H, ok=lambda r: expected_exc(r))
    for root, err in w.final_err.items():
        if any(r["out"] == "ok" for r in H.runs_of(root)) or H.evals_of(root):
            yield ("unreadable", f"after the crashes the run directory cannot be read: {err[-900:]}")
    for e in H.h:
        if e["ev"] in ("status_ret", "snap_ret") and e["exc"] is not None and e["ready"]:
            yield (f"observer:{e['exc'].split(':')[0]}", f"{e['ev']} failed on an established run: {e['exc']}\n{e['tb'][-900:]}")
    for root in H.roots():
        fin = w.final.get(root)
        last = [r for r in H.runs_of(root) if r["out"] == "ok"]
        if fin is None or not last:
            continue
        kw = last[-1]["spec"].get("kw", {})
        M = kw.get("max_evaluations_total")
        if M is None or kw.get("max_evaluations_per_run") or kw.get("max_cost_total"):
            continue
        done = sum(1 for t in fin["trials"].values() if t["report"] is not None)
        if inprog(last[-1]):
            # each killed worker may have taken one evaluation of the budget with it
            if done + len(H.crashed) < M:
                yield ("incomplete", f"{done} results of {M}, {len(H.crashed)} workers killed")
        elif done < M:
            yield ("incomplete", f"workers returned with {done} results of {M} although told to complete the budget")


def expected_exc(r):
    return r["spec"].get("may_raise", False)


# --------------------------------------------------------------------------- C06
def c06(H):
    yield from liveness(H, "C06")
    if H.aborted:
        return
    yield from unexpected_exceptions(H, ok=expected_exc)
    w = H.w
    for root in H.roots():
        if root in w.final_err:
            yield ("unreadable", w.final_err[root][-900:])
        ref = w.extra.get("refs", {}).get(root)
        fin = w.final.get(root)
        if ref and fin:
            got = [t["config"] for t in by_id(fin["trials"])]
            if not any(got == r[: len(got)] for r in ref):
                yield ("mixed-seed", f"sampled configurations {got} do not stem from one worker's initial random state; references {ref}")


def by_time(trials):
    return [(t["id"], t["config"]) for t in sorted(trials.values(), key=lambda t: t["t_sampled"])]


def by_id(trials):
    def key(t):
        return tuple(int(x) for x in t["id"].split("_"))

    return sorted(trials.values(), key=key)


# --------------------------------------------------------------------------- C07
def c07(H):
    yield from liveness(H, "C07")
    if H.aborted:
        return
    w = H.w
    for root in H.roots():
        runs = H.runs_of(root)
        if root in w.final_err:
            if not any(r["out"] == "ok" for r in runs) and H.crashed:
                continue  # killed before the directory was established, the others were refused
            yield ("unreadable", w.final_err[root][-900:])
            continue
        fin = w.final.get(root)
        if fin is None:
            continue
        tag = lambda r: r["spec"].get("tag")
        over = [r for r in runs if r["spec"].get("kw", {}).get("overwrite_working_directory")]
        if over:
            # sequential scenario: everything present at the end must have been evaluated since the last overwrite
            last = max(over, key=lambda r: r["call"])
            since = {e["tid"]: e for e in H.evals_of(root) if e["start"] > last["call"]}
            for tid, t in fin["trials"].items():
                if t["report"] is not None and tid not in since or t["t_sampled"] - EPOCH < last["t0"] - 1e-3:
                    yield ("stale-trial", f"trial {tid} of the old run survived the overwrite")
                elif tid in since and since[tid]["expect"] and t["report"] and not nan_eq(t["report"]["loss"], since[tid]["expect"]["loss"]):
                    yield ("stale-result", f"trial {tid} carries a result of the old run")
            for x in fin["errs"]:
                e = since.get(x["trial_id"])
                if e is None or e["err"] != x["err"]:
                    yield ("stale-error", f"the error log after the overwrite still names {x['trial_id']}: {x['err']!r}")
            if fin["budget"] is not None:
                spent = sum(cost_of(e) or 0.0 for e in since.values() if e["end"] is not None)
                if fin["budget"]["used_cost_budget"] > spent + 1e-9:
                    yield ("stale-cost", f"cost booked after the overwrite {fin['budget']['used_cost_budget']}, evaluations since cost {spent}")
            ref = w.extra.get("refs", {}).get(root)
            if ref:
                got = [t["config"] for t in by_id(fin["trials"])]
                if got != ref[0][: len(got)]:
                    yield ("stale-seed", f"after the overwrite {got} was sampled, the overwriting worker's random state gives {ref[0][: len(got)]}")
            for r in runs:
                if r["out"] == "exc":
                    mine = [e for e in r["evals"] if e["err"] is not None]
                    if mine and not r["spec"]["kw"].get("ignore_errors"):
                        continue
                    yield (f"overwrite-exc:{r['chain'][-1][0]}", f"{r['p']}: {describe_exc(r)}\n{r['tb'][-900:]}")
            kw = last["spec"]["kw"]
            n = sum(1 for t in fin["trials"].values() if t["report"] is not None)
            if last["out"] == "ok" and n < kw["max_evaluations_total"]:
                yield ("overwrite-incomplete", f"{n} results after overwrite, budget {kw['max_evaluations_total']}")
            continue
        oks = {tag(r) for r in runs if r["out"] == "ok"}
        evt = {tag(e["run"]) for e in H.evals_of(root)}
        if len(oks | evt) > 1:
            yield ("two-optimizers", f"workers with different optimizer settings {sorted(oks | evt)} both worked on {root}")
        owner = (sorted(oks | evt) or [None])[0]
        for r in runs:
            if r["out"] == "exc":
                if owner is not None and tag(r) == owner:
                    yield (f"refused-match:{r['chain'][-1][0]}", f"{r['p']} matches the run but failed: {describe_exc(r)}\n{r['tb'][-900:]}")
                elif owner is not None and r["chain"][0][0] != "NePSError":
                    yield (f"wrong-refusal:{r['chain'][0][0]}", f"{r['p']}: refused with {describe_exc(r)}\n{r['tb'][-900:]}")
        if owner is not None:
            eta = next((r["spec"]["info_expect"] for r in runs if tag(r) == owner and "info_expect" in r["spec"]), None)
            if eta is not None and not all(nan_eq(fin["info"].get("searcher_args", {}).get(k), v) for k, v in eta.items()):
                yield ("info-changed", f"optimizer description on disk {fin['info']} is not the one of the working worker ({eta})")
        if "snap_before" in w.extra:
            pass


# --------------------------------------------------------------------------- C08
def c08(H):
    w = H.w
    if H.aborted:
        return
    for root in H.roots():
        ref = w.extra.get("refs", {}).get(root)
        fin = w.final.get(root)
        if not ref or fin is None:
            continue
        ref = ref[0]
        got = [t["config"] for t in by_id(fin["trials"])]
        if not H.crashed and not any(H.io_faulted(r["p"]) for r in H.runs_of(root)):
            if got != ref[: len(got)]:
                i = next(i for i in range(len(got)) if got[i] != ref[i])
                yield ("diverged", f"{i + 1}. sampled configuration is {got[i]}, a single undisturbed worker samples {ref[i]}")
        else:
            j = 0
            for i, c in enumerate(got):
                while j < len(ref) and ref[j] != c:
                    j += 1
                if j >= len(ref):
                    dup = c in got[:i]
                    yield ("reused-draw" if dup else "diverged",
                           f"{i + 1}. sampled configuration {c} " + ("repeats an earlier draw" if dup else "is not a later draw of the run's random sequence"))
                    break
                j += 1


# --------------------------------------------------------------------------- C09
def c09(H):
    yield from liveness(H, "C09")
    if H.aborted:
        return
    w = H.w
    for root in H.roots():
        runs = H.runs_of(root)
        evs = H.evals_of(root)
        fin = w.final.get(root)
        for r in runs:
            kw = r["spec"].get("kw", {})
            pol = policy(r)
            failed = [e for e in r["evals"] if e["err"] is not None]
            if pol == "ignore":
                if r["out"] == "exc":
                    yield (f"ignored-raised:{r['chain'][-1][0]}", f"{r['p']} raised with errors ignored: {describe_exc(r)}\n{r['tb'][-900:]}")
                continue
            if failed and r["p"] not in H.crashed:
                if r["evals"][-1] is not failed[0]:
                    yield ("continued", f"{r['p']} went on after its own error in trial {failed[0]['tid']}")
                elif pol.startswith("raise"):
                    if r["out"] != "exc":
                        yield ("not-raised", f"{r['p']} returned '{r['out']}' after an error in trial {failed[0]['tid']}")
                    elif r["chain"][0][0] != "WorkerRaiseError" or not any(failed[0]["err"][:60] in m for _, m in r["chain"][1:]):
                        yield ("wrong-raise", f"{r['p']}: {describe_exc(r)}")
                elif r["out"] != "ok":
                    yield ("stop-raised", f"{r['p']} raised with policy {pol}: {describe_exc(r)}")
            elif not failed and r["out"] == "exc":
                others = [e for e in evs if e["err"] is not None and e["end"] is not None and e["end"] < r["ret"] and e["p"] != r["p"]]
                # a searcher that is handed another worker's failed result refuses to go on as well
                kinds = ("WorkerRaiseError",) if not others else ("WorkerRaiseError", "WorkerFailedToGetPendingTrialsError")
                refused = r["chain"][0][0] != kinds[-1] or len(kinds) == 1 or r["chain"][-1][0] == "ValueError"
                if not (pol == "raise_any_error" and others and r["chain"][0][0] in kinds and refused):
                    yield (f"spurious:{r['chain'][0][0]}:{r['chain'][-1][0]}", f"{r['p']} raised without an error to report: {describe_exc(r)}\n{r['tb'][-900:]}")
        # cross-worker stop
        for r in runs:
            pol = policy(r)
            if pol in ("raise_any_error", "stop_any_error"):
                recorded = [e for e in evs if e["err"] is not None and e["acked"]]
                for e in r["evals"]:
                    for o in recorded:
                        if o["ack_seq"] < e["s0"] and o["p"] != e["p"]:
                            yield ("ignored-other", f"{e['p']} started trial {e['tid']} after an error by {o['p']} in trial {o['tid']} had been recorded")
                            break
                if r["out"] == "ok" and pol == "raise_any_error":
                    # it stopped although an error was recorded before its last look
                    last = max([r["call"]] + [e["end"] for e in r["evals"] if e["end"] is not None])
                    for o in recorded:
                        if o["ack_seq"] < last and not limit_hit(r):
                            yield ("other-not-raised", f"{r['p']} returned normally although an error by {o['p']} had been recorded before it last looked")
                            break
        if fin is None:
            continue
        # error log
        want = {}
        for e in evs:
            if e["err"] is not None and e["err"] not in ("badvalue", "interrupt"):
                want[e["tid"]] = e
        got = {}
        for x in fin["errs"]:
            if x["trial_id"] in got:
                yield ("err-dup", f"error of trial {x['trial_id']} logged twice")
            got[x["trial_id"]] = x
        for tid, e in want.items():
            x = got.get(tid)
            if x is None:
                if e["acked"]:
                    yield ("err-lost", f"error of trial {tid} (worker {e['p']}) missing from the error log {sorted(got)}")
                continue
            if x["err"] != e["err"]:
                yield ("err-msg", f"error of trial {tid} logged as {x['err']!r}, raised {e['err']!r}")
            if x["err_type"] != e["err_type"] or not x["tb"] or x["err_type"] not in x["tb"]:
                yield ("err-type", f"error of trial {tid}: type {x['err_type']}")
            t = fin["trials"].get(tid)
            if t and t["worker"] != x["worker_id"]:
                yield ("err-worker", f"error of trial {tid} logged for worker {x['worker_id']}, trial ran on {t['worker']}")
        for tid in got:
            if tid not in want:
                yield ("err-phantom", f"error log names trial {tid}, which did not fail")
        for tid, e in want.items():
            t = fin["trials"].get(tid)
            if t is None or not e["acked"]:
                continue
            if t["state"] != "crashed":
                yield ("not-crashed", f"failed trial {tid} has state {t['state']}")
            elif t["report"] is None or t["report"]["as"] != "crashed":
                yield ("not-crashed", f"failed trial {tid} has no failure report")
            else:
                kw = {**e["run"]["spec"].get("kw", {}), **e["run"]["spec"].get("defaults", {})}
                if not nan_eq(t["report"]["loss"], kw.get("loss_value_on_error")) or not nan_eq(t["report"]["cost"], kw.get("cost_value_on_error")):
                    yield ("substitute", f"failed trial {tid}: recorded {t['report']['loss']}/{t['report']['cost']}, configured {kw.get('loss_value_on_error')}/{kw.get('cost_value_on_error')}")
        # budget with ignored errors
        if all(policy(r) == "ignore" for r in runs) and not H.crashed:
            kw = runs[0]["spec"].get("kw", {})
            M = kw.get("max_evaluations_total")
            if M is not None and all(r["out"] == "ok" for r in runs):
                n = sum(1 for t in fin["trials"].values() if t["report"] is not None)
                if n < M or n > M + max_overlap(runs, H) - 1:
                    yield ("ignore-budget", f"{n} recorded evaluations for a budget of {M}")


def limit_hit(r):
    kw = r["spec"].get("kw", {})
    K = kw.get("max_evaluations_per_run") or kw.get("max_evaluations_for_worker")
    return bool(K and len(r["evals"]) >= K)


def policy(r):
    kw = r["spec"].get("kw", {})
    if r["op"] == "worker":
        return kw.get("on_error", "ignore")
    return "ignore" if kw.get("ignore_errors") else "raise_any_error"


# --------------------------------------------------------------------------- C10
RANK = {"pending": 0, "submitted": 0, "evaluating": 1, "success": 2, "failed": 2, "crashed": 2}
STATIC = ("config", "prev", "prev_loc", "loc", "sampler", "t_sampled")


def c10(H):
    w = H.w
    for root in H.roots():
        fin = w.final.get(root)
        seen = {}
        obs = [(e["seq"], e["call"], e["trials"]) for e in H.h
               if e["ev"] == "snap_ret" and e["root"] == root and e["exc"] is None]
        if fin:
            obs.append((10**9, 10**9, fin["trials"]))
        # compare observations that do not overlap in time
        for i, (seq, call, trials) in enumerate(obs):
            for (pseq, _c, ptr) in obs[:i]:
                if pseq >= call:
                    continue
                for tid, a in ptr.items():
                    b = trials.get(tid)
                    if b is None:
                        yield ("vanished", f"trial {tid} disappeared")
                        continue
                    if RANK.get(b["state"], -1) < RANK.get(a["state"], 9):
                        yield ("backwards", f"trial {tid} went from {a['state']} to {b['state']}")
                    elif RANK.get(a["state"]) == 2 and a["state"] != b["state"]:
                        yield ("final-changed", f"trial {tid} went from {a['state']} to {b['state']}")
                    for k in STATIC:
                        if not nan_eq(a[k], b[k]):
                            yield ("static-changed", f"trial {tid}: {k} changed from {a[k]!r} to {b[k]!r}")
                    if RANK.get(a["state"]) >= 1 and a["worker"] is not None and b["worker"] != a["worker"]:
                        yield ("worker-changed", f"trial {tid}: worker changed from {a['worker']} to {b['worker']}")
        if not fin:
            continue
        jumps = any(e["ev"] == "clock_jump" for e in H.h) or any(ps.get("skew") for ps in w.spec["procs"])
        pids = {p.name: str(p.pid) for p in w.sim.procs}
        for ev in H.evals_of(root):
            t = fin["trials"].get(ev["tid"])
            if t is None:
                continue
            if t["state"] == "pending":
                yield ("never-claimed", f"trial {ev['tid']} was evaluated by {ev['p']} but is recorded as pending")
            wid = ev["run"]["spec"].get("wid")
            if wid is not None:
                if t["worker"] != wid:
                    yield ("wrong-worker", f"trial {ev['tid']} ran on {wid}, recorded worker {t['worker']}")
            elif t["worker"] is None or not t["worker"].startswith(pids[ev["p"]] + "-"):
                yield ("wrong-worker", f"trial {ev['tid']} ran in process {pids[ev['p']]} ({ev['p']}), recorded worker {t['worker']}")
            if ev["acked"] and ev["dur"] is not None:
                for d in (t["dur"], (t["report"] or {}).get("dur")):
                    if d is None or abs(d - ev["dur"]) > 0.05 + 60 * w.spec.get("dt", 5e-4) + stall_total(H, ev["p"]):
                        yield ("duration", f"trial {ev['tid']}: recorded duration {d}, pipeline took {ev['dur']:.4f}")
                        break
            if ev["acked"]:
                if t["t_started"] is None or t["t_end"] is None:
                    yield ("no-time", f"trial {ev['tid']}: missing timestamps")
                elif not jumps:
                    if not (t["t_sampled"] <= t["t_started"] <= t["t_end"]):
                        yield ("time-order", f"trial {ev['tid']}: sampled {t['t_sampled']} started {t['t_started']} ended {t['t_end']}")
                    elif t["t_started"] - EPOCH > ev["t_start"] + 1e-3 or t["t_end"] - EPOCH < ev["t_end"] - 1e-3:
                        yield ("time-wrong", f"trial {ev['tid']}: recorded {t['t_started'] - EPOCH:.3f}..{t['t_end'] - EPOCH:.3f}, pipeline ran {ev['t_start']:.3f}..{ev['t_end']:.3f}")


def stall_total(H, p):
    return sum(f.get("x", 0) for f in H.procs[p].faults if f["kind"] == "stall")


# --------------------------------------------------------------------------- C13
def c13(H):
    yield from liveness(H, "C13")
    w = H.w
    if H.aborted:
        return
    # snapshot taken by the last observer of phase 0 names the pending leftovers
    for root in H.roots():
        snaps = [e for e in H.h if e["ev"] == "snap_ret" and e["root"] == root and e["p"] == "between" and e["exc"] is None]
        if not snaps:
            continue
        s = snaps[-1]
        pend = sorted((t for t in s["trials"].values() if t["state"] == "pending"), key=lambda t: t["t_sampled"])
        P = [t["id"] for t in pend]
        if not P:
            continue
        w.sim.probe("pending_leftovers", len(P))
        for e in H.h:
            if e["ev"] == "pend_list" and e["root"] == root and (e["ids"] != P[: e["n"]] or e["one"] != P[0]):
                yield ("pending-order", f"pending trials in sampling order {P}; asked for {e['n']}: {e['ids']}, asked for the next: {e['one']}")
        later = [e for e in H.evals_of(root) if e["start"] > s["seq"]]
        wruns = [r for r in H.runs_of(root) if r["call"] > s["seq"]]
        budget_left = len(later) >= len(P)
        order = [e["tid"] for e in later if e["tid"] in P]
        nW = max_overlap(wruns, H) if wruns else 1
        if nW == 1:
            k = min(len(P), len(later))
            if [e["tid"] for e in later[:k]] != P[:k]:
                yield ("order", f"pending leftovers in sampling order {P}, but the next evaluations were {[e['tid'] for e in later[:k]]}")
        fin = w.final.get(root)
        if fin is None:
            continue
        tr = fin["trials"]
        new = [t for i, t in tr.items() if i not in s["trials"]]
        for t in new:
            for pid_ in P:
                q = tr.get(pid_)
                if q is None:
                    yield ("lost", f"pending trial {pid_} vanished")
                elif q["t_started"] is None or q["t_started"] > t["t_sampled"] + 1e-3:
                    yield ("skipped", f"new trial {t['id']} was sampled while trial {pid_} was still pending (started {q['t_started']}, new sampled {t['t_sampled']})")
        if nW > 1 and len(order) == len(P):
            st = [tr[i]["t_started"] for i in P if tr[i]["t_started"] is not None]
            # oldest first, up to concurrency: the i-th oldest is claimed before the (i+W)-th
            for i in range(len(st) - nW):
                if st[i] > st[i + nW] + 1e-3:
                    yield ("order", f"pending leftovers claimed out of order: {list(zip(P, st))}")
                    break
    # never sample while something is pending, also without leftovers: covered by 'skipped'


# --------------------------------------------------------------------------- C14
def c14(H):
    w = H.w
    yield from liveness(H, "C14")
    for e in H.h:
        if e["ev"] != "status_ret":
            continue
        root = e["root"]
        evs = H.evals_of(root)
        if e["exc"] is not None:
            if e["ready"]:
                yield (f"status-exc:{e['exc'].split(':')[0]}", f"status failed on a live run: {e['exc']}\n{e['tb'][-900:]}")
            continue
        a, b = e["call"], e["seq"]
        s = e["s"]
        yield from check_status(H, root, s, a, b, f"status at event {b}")
    for root, fin in w.final.items():
        s = dict(fin["summary"])
        yield from check_status(H, root, s, 10**9, 10**9, "final status", fin)
    # the observers did not disturb anyone
    yield from unexpected_exceptions(H, ok=expected_exc)


def check_status(H, root, s, a, b, what, fin=None):
    evs = H.evals_of(root)
    n_crash = len(H.crashed)
    lo = sum(1 for x in evs if x["acked"] and x["ack_seq"] < a)
    hi = sum(1 for x in evs if x["end"] is not None and x["end"] < b)
    if not lo <= s["n_eval"] <= hi:
        yield ("n_eval", f"{what}: {s['n_eval']} evaluated, but between {lo} and {hi} had finished")
    run_lo = sum(1 for x in evs if x["start"] < a and (x["end"] is None or x["end"] > b) and not died_between(H, x, a))
    # claimed before the pipeline is entered, and until the result is recorded
    W = len({r["p"] for r in H.runs_of(root) if r["call"] < b})
    run_hi = sum(1 for x in evs if x["start"] < b and not (x["acked"] and x["ack_seq"] < a)) + W
    if not run_lo <= s["n_run"] <= run_hi:
        yield ("n_run", f"{what}: {s['n_run']} running, expected {run_lo}..{run_hi}")
    free = s["n_pend"] - s["n_run"]
    started = {x["tid"] for x in evs if x["start"] < b}
    asked = {e["tid"] for e in H.h if e["ev"] == "asked" and e["root"] == root and e["seq"] < a}
    if free < len(asked - started) - W:
        yield ("n_pend", f"{what}: {free} pending without worker, but {sorted(asked - started)} had been sampled and not started")
    tot = H.w.final.get(root)
    if tot is not None and free > len(tot["trials"]) - len({x["tid"] for x in evs if x["start"] < a}):
        yield ("n_pend", f"{what}: {free} pending without worker, more than there ever were trials not started by then")
    if s["n_pend"] < s["n_run"]:
        yield ("n_pend", f"{what}: pending {s['n_pend']} < pending with worker {s['n_run']}")
    err_lo = sum(1 for x in evs if x["acked"] and x["ack_seq"] < a and x["err"] is not None)
    err_hi = sum(1 for x in evs if x["end"] is not None and x["end"] < b and x["err"] is not None)
    if not err_lo <= s["n_err"] <= err_hi:
        yield ("n_err", f"{what}: {s['n_err']} failed, expected {err_lo}..{err_hi}")
    losses = None
    if "done" in s:
        if len(s["done"]) != s["n_eval"]:
            yield ("n_eval_detail", f"{what}: count {s['n_eval']} but details for {len(s['done'])}")
        losses = {i: r["loss"] for i, r in s["done"].items() if r != "error"}
        ends = {x["tid"]: x for x in evs if x["end"] is not None}
        for i, l in losses.items():
            if i in ends and ends[i]["expect"] is not None and not nan_eq(l, ends[i]["expect"]["loss"]):
                yield ("wrong-loss", f"{what}: trial {i} shown with loss {l}, pipeline returned {ends[i]['expect']['loss']}")
        if set(s["done"]) & (set(s["pending"])) and not n_crash:
            yield ("double", f"{what}: trials {sorted(set(s['done']) & set(s['pending']))} both finished and pending")
        if not set(s["free"]) <= set(s["pending"]) or len(s["pending"]) != s["n_pend"] or len(s["pending"]) - len(s["free"]) != s["n_run"]:
            yield ("pending-detail", f"{what}: pending {s['pending']} free {s['free']} counts {s['n_pend']}/{s['n_run']}")
    elif fin is not None:
        losses = {i: t["report"]["loss"] for i, t in fin["trials"].items()
                  if t["report"] is not None and t["report"]["as"] == "success"}
        n = sum(1 for t in fin["trials"].values() if t["report"] is not None)
        if n != s["n_eval"]:
            yield ("n_eval", f"{what}: {s['n_eval']} evaluated, {n} results on record")
        r = sum(1 for t in fin["trials"].values() if t["state"] == "evaluating")
        pn = sum(1 for t in fin["trials"].values() if t["state"] == "pending")
        if s["n_run"] != r or s["n_pend"] != r + pn:
            yield ("n_pend", f"{what}: pending {s['n_pend']} (running {s['n_run']}), on record {pn} pending and {r} running")
    if losses is not None:
        vals = [v for v in losses.values() if isinstance(v, float) and not math.isnan(v)]
        best = min(vals) if vals else float("inf")
        if not nan_eq(float(s["best"]), float(best)):
            yield ("best", f"{what}: best loss {s['best']}, results {losses}")
        elif best != float("inf") and not nan_eq(losses.get(s["best_id"]), best):
            yield ("best-id", f"{what}: best id {s['best_id']} with loss {losses.get(s['best_id'])}, best {best}")
        elif best != float("inf") and "best_config" in s:
            ends = {x["tid"]: x for x in evs}
            c = ends.get(s["best_id"])
            if c is not None and not nan_eq(dict(s["best_config"]), dict(c["config"])):
                yield ("best-config", f"{what}: best config {s['best_config']}, trial {s['best_id']} ran with {c['config']}")


def died_between(H, x, a):
    return False


# --------------------------------------------------------------------------- C15
def c15(H):
    w = H.w
    yield from liveness(H, "C15")
    if H.aborted:
        return
    yield from unexpected_exceptions(H, ok=expected_exc)
    for root in H.roots():
        runs = H.runs_of(root)
        fin = w.final.get(root)
        if fin is None or not all(r["out"] == "ok" for r in runs):
            continue
        csv = fin.get("csv")
        if not csv or set(csv) != {"config_data.csv", "run_status.csv"}:
            yield ("missing", f"summary files present: {sorted(csv or {})}")
            continue
        cd, rs = csv["config_data.csv"], csv["run_status.csv"]
        if isinstance(cd, str) or isinstance(rs, str):
            yield ("unreadable", f"{cd if isinstance(cd, str) else rs}")
            continue
        ids = list(cd["config_id"])
        want = {i: t for i, t in fin["trials"].items()}
        if sorted(ids) != sorted(want):
            yield ("rows", f"CSV rows {sorted(ids)}, trials {sorted(want)}")
            continue
        for _, row in cd.iterrows():
            t = want[row["config_id"]]
            for k, v in t["config"].items():
                got = row.get(f"config.{k}")
                if got is None or not same_cell(got, v):
                    yield ("cell", f"CSV config.{k} of {row['config_id']} is {got!r}, recorded {v!r}")
            if t["report"] is not None and t["report"]["as"] == "success":
                got = row.get("result.loss")
                if got is None or not same_cell(got, t["report"]["loss"]):
                    yield ("cell", f"CSV loss of {row['config_id']} is {got!r}, recorded {t['report']['loss']!r}")
            if (t["report"] is not None) != (row["status"] == "complete"):
                yield ("status-cell", f"CSV status of {row['config_id']} is {row['status']}")
        d = dict(zip(rs["description"], rs["value"]))
        s = fin["summary"]
        for k, v in (("num_evaluated_configs", s["n_eval"]), ("num_pending_configs", s["n_pend"]),
                     ("num_pending_configs_with_worker", s["n_run"]), ("num_error", s["n_err"]),
                     ("best_loss", s["best"])):
            if not same_cell(d.get(k, "missing"), v):
                yield ("counts", f"CSV {k} = {d.get(k)!r}, status says {v!r}")


def same_cell(got, v):
    if v is None:
        return got in ("", "None", "nan")
    if isinstance(v, bool) or isinstance(v, str):
        return str(got) == str(v)
    if got == "" and math.isnan(float(v)):
        return True
    try:
        g = float(got)
    except ValueError:
        return False
    v = float(v)
    return (math.isnan(g) and math.isnan(v)) or g == v or abs(g - v) <= 1e-12 * max(abs(g), abs(v))


# --------------------------------------------------------------------------- C16
def split(tid):
    a, b = tid.split("_")
    return int(a), int(b)


def c16(H):
    w = H.w
    eta = w.spec.get("eta", 3)
    for root in H.roots():
        fin = w.final.get(root)
        if fin is None:
            continue
        space = w.spec["space"]
        fid = FIDELITY[space]
        tr = fin["trials"]
        succ = {}
        for t in by_id(tr):
            n, r = split(t["id"])
            if t["prev"] is None:
                # a fresh sample must not reuse a number already in use
                same = [o for o in tr.values() if split(o["id"])[0] == n and o["prev"] is None]
                if len(same) > 1:
                    yield ("dup-number", f"configuration number {n} sampled afresh twice: {[o['id'] for o in same]}")
                continue
            q = tr.get(t["prev"])
            if q is None:
                yield ("dangling", f"{t['id']} continues {t['prev']}, which does not exist")
                continue
            qn, qr = split(q["id"])
            if qn != n or qr >= r:
                yield ("lineage", f"{t['id']} continues {q['id']}")
            if qr != r - 1:
                yield ("level-skipped", f"{t['id']} continues {q['id']}: not the next lower level")
            if q["report"] is None or q["report"]["as"] != "success":
                yield ("unfinished-parent", f"{t['id']} promoted from {q['id']} whose state is {q['state']}")
            elif q["t_end"] is not None and q["t_end"] > t["t_sampled"] + 1e-6:
                yield ("early-promotion", f"{t['id']} sampled at {t['t_sampled']} before {q['id']} ended at {q['t_end']}")
            a = {k: v for k, v in t["config"].items() if k != fid}
            b = {k: v for k, v in q["config"].items() if k != fid}
            if not nan_eq(a, b):
                yield ("config-changed", f"{t['id']} has {a}, its predecessor {q['id']} {b}")
            if not t["config"][fid] > q["config"][fid]:
                yield ("fidelity", f"{t['id']} runs at fidelity {t['config'][fid]}, predecessor {q['id']} at {q['config'][fid]}")
            if t["prev"] in succ:
                yield ("promoted-twice", f"{t['prev']} was continued by {succ[t['prev']]} and {t['id']}")
            succ[t["prev"]] = t["id"]
            if q["loc"] != t["prev_loc"]:
                yield ("prev-loc", f"{t['id']}: predecessor directory recorded as {t['prev_loc']}, is {q['loc']}")
        # trials at one level share one fidelity value
        lv = {}
        for t in tr.values():
            n, r = split(t["id"])
            lv.setdefault(r, set()).add(t["config"][fid])
        for r, vals in lv.items():
            if len(vals) > 1:
                yield ("level-fidelity", f"level {r} ran at fidelities {sorted(vals)}")
        if w.spec.get("mf_rule") == "asha":
            yield from asha_rule(H, root, tr, eta)


def asha_rule(H, root, tr, eta):
    """Every promotion picks from the best 1/eta of what had finished at that level and was
    still there (not promoted further) when it was sampled."""
    evs = {e["tid"]: e for e in H.evals_of(root)}
    proc_of = {t["worker"]: evs[t["id"]]["p"] for t in tr.values() if t["worker"] and t["id"] in evs}
    stall = max([0.0] + [stall_total(H, p) for p in H.procs])
    for t in by_id(tr):
        if t["prev"] is None or t["prev"] not in tr:
            continue
        q = tr[t["prev"]]
        if q["report"] is None:
            continue
        _, r = split(q["id"])
        s = t["t_sampled"]
        promoted_before = {o["prev"] for o in tr.values() if o["prev"] is not None and o["t_sampled"] < s}
        # possibly there: ended before the sampling and not promoted before it
        maybe = [o for o in tr.values() if split(o["id"])[1] == r and o["report"] is not None and o["t_end"] is not None
                 and o["t_end"] <= s and o["id"] not in promoted_before]
        k = len(maybe) // eta
        if k == 0:
            yield ("asha-early", f"{t['id']} promoted with only {len(maybe)} finished results at level {r} (eta={eta})")
            continue
        # surely known: recorded before the sampler's last trace before the sampling, or by the sampler itself,
        # or long enough before
        p = proc_of.get(t["sampler"])
        look = max([e["seq"] for e in H.h if e["p"] == p and e["t"] + EPOCH < s], default=-1) if p else -1
        better = 0
        for o in maybe:
            e = evs.get(o["id"])
            if e is None or not e["acked"] or o["id"] == q["id"]:
                continue
            if (e["ack_seq"] < look or (o["worker"] == t["sampler"] and H.h[e["end"]]["t"] + EPOCH < s)
                    or H.h[e["ack_seq"]]["t"] + EPOCH < s - 2.0 - stall):
                better += loss_rank(o) < loss_rank(q)
        if better >= k:
            yield ("asha-rank", f"{t['id']} promoted although {better} better results were known at level {r} (of {len(maybe)}, eta={eta})")


def loss_rank(o):
    r = o["report"]
    if r["as"] != "success" or r["loss"] is None or math.isnan(r["loss"]):
        return float("inf")
    return r["loss"]


# --------------------------------------------------------------------------- C17
def c17(H):
    w = H.w
    for root in H.roots():
        fin = w.final.get(root)
        if fin is None:
            continue
        tr = fin["trials"]
        ended = {}
        for e in H.evals_of(root):
            t = tr.get(e["tid"])
            if t is None:
                continue
            if e["dir"] != t["loc"]:
                yield ("dir", f"trial {e['tid']} was given directory {e['dir']}, recorded {t['loc']}")
            want = tr[t["prev"]]["loc"] if t["prev"] in tr else None
            if e["prev"] != want:
                yield ("prev-dir", f"trial {e['tid']} was given previous directory {e['prev']}, its predecessor {t['prev']} lives in {want}")
        dirs = [t["loc"] for t in tr.values()]
        if len(set(dirs)) != len(dirs):
            yield ("shared-dir", "two trials share a directory")
        for t in tr.values():
            if not t["loc"].startswith(w.root_path(root) + "/"):
                yield ("foreign-dir", f"trial {t['id']} of {root} is located in {t['loc']}")
        saved = {e["tid"]: e["nn"] for e in H.h if e["ev"] == "ckpt_save" and e["root"] == root}
        for e in H.h:
            if e["ev"] == "ckpt_load" and e["root"] == root:
                t = tr.get(e["tid"])
                if t is None:
                    continue
                want = f"{root}/{t['prev']}" if t["prev"] in saved else None
                if e["got"] == want and want is not None and e["nn"] != saved[t["prev"]]:
                    yield ("checkpoint-state", f"trial {e['tid']} loaded model and optimizer {e['nn']}, its predecessor saved {saved[t['prev']]}")
                if e["got"] != want:
                    yield ("checkpoint", f"trial {e['tid']} loaded the checkpoint of {e['got']}, expected {want}")
            if e["ev"] == "init_dir" and e["root"] == root:
                t = tr.get(e["tid"])
                if t is None:
                    continue
                x, hops = t, 0
                while x["prev"] is not None and x["prev"] in tr and hops < 20:
                    x = tr[x["prev"]]
                    hops += 1
                if e["got"] != x["loc"] or e["got2"] != x["loc"]:
                    yield ("init-dir", f"trial {e['tid']}: initial directory {e['got']} / {e['got2']}, expected {x['loc']}")
            if e["ev"] == "cur_trial" and e["root"] == root:
                t = tr.get(e["tid"])
                if e["seen"] != e["tid"] or (t is not None and e["seen_loc"] != t["loc"]):
                    yield ("current", f"while evaluating {e['tid']} of {root} the current trial was {e['seen']} in {e['seen_loc']}")
        for tid, txt in fin.get("user_files", {}).items():
            started = [e for e in H.evals_of(root) if e["tid"] == tid and e["acked"]]
            if started and w.spec.get("pipe", {}).get("user_files") and w.spec["pipe"].get("ckpt") and txt != f"{root}/{tid}":
                yield ("user-file", f"the file the pipeline stored in the directory of trial {tid} reads {txt!r}")
    yield from unexpected_exceptions(H, ok=expected_exc)


# --------------------------------------------------------------------------- C18
def c18(H):
    yield from liveness(H, "C18")
    if H.aborted:
        return
    w = H.w
    for r in H.runs:
        if r["out"] == "exc" and not H.io_faulted(r["p"]) and not expected_exc(r):
            yield (f"spread:{r['chain'][0][0]}:{r['chain'][-1][0]}",
                   f"{r['p']} had no disk error itself but raised {describe_exc(r)}\n{r['tb'][-1200:]}")
    for root, err in w.final_err.items():
        if H.evals_of(root):
            yield ("unreadable", f"run directory unreadable after disk errors: {err[-900:]}")
    for s, m in c01(H):
        yield (s, m)
    for s, m in c02(H):
        if s in ("lost-result",):
            # a result whose recording failed with an error was reported to the caller, not acknowledged
            yield (s, m)
        elif s != "unreadable":
            yield (s, m)
    for root in H.roots():
        fin = w.final.get(root)
        last = [r for r in H.runs_of(root) if r["out"] == "ok" and not H.io_faulted(r["p"])]
        if fin is None or not last:
            continue
        kw = last[-1]["spec"].get("kw", {})
        M = kw.get("max_evaluations_total")
        done = sum(1 for t in fin["trials"].values() if t["report"] is not None)
        if M is not None and not inprog(last[-1]) and done < M and not kw.get("max_evaluations_per_run"):
            yield ("incomplete", f"{done} results of {M}")
        yield from cost_conserved(H, fin, H.runs_of(root), H.evals_of(root))
        # the failures of workers whose disk worked stay in the error log
        logged = {x["trial_id"] for x in fin["errs"]}
        for e in H.evals_of(root):
            if e["err"] is not None and e["acked"] and not H.io_faulted(e["p"]) and e["p"] not in H.crashed and e["tid"] not in logged:
                yield ("lost-error", f"the failure of {e['tid']} (recorded by {e['p']}) is missing in the error log")


# --------------------------------------------------------------------------- C19
def c19(H):
    yield from liveness(H, "C19")
    if H.aborted:
        return
    w = H.w
    for p, pr in H.procs.items():
        runs = [r for r in H.runs if r["p"] == p]
        for i, r in enumerate(runs):
            if r["spec"].get("expect") == "ok" and r["out"] is not None:
                if r["out"] != "ok":
                    yield (f"later-run:{r['chain'][0][0]}:{r['chain'][-1][0]}",
                           f"{i + 1}. run call in {p} failed: {describe_exc(r)}; earlier calls ended {[x['out'] for x in runs[:i]]}\n{r['tb'][-900:]}")
                else:
                    M = r["spec"]["kw"].get("max_evaluations_per_run")
                    if M is not None and len(r["evals"]) != M:
                        yield ("later-count", f"{i + 1}. run call in {p} made {len(r['evals'])} evaluations instead of {M}")
    for s, m in c17(H):
        if s in ("current", "init-dir", "checkpoint", "prev-dir", "dir"):
            yield (s, m)
    refs = w.extra.get("refs", {})
    for root, ref in refs.items():
        fin = w.final.get(root)
        if fin is None or not ref:
            continue
        got = by_time(fin["trials"])
        if got != ref[0][: len(got)]:
            yield ("sampling", f"search in {root} after earlier calls sampled {got}, in a fresh process {ref[0]}")
    for e in H.h:
        if e["ev"] == "leak":
            yield ("leak", f"after the call ended, the process still refers to trial {e['trial']}")


# --------------------------------------------------------------------------- C20
def c20(H):
    w = H.w
    if H.aborted:
        return
    for root in H.roots():
        fin = w.final.get(root)
        if fin is None:
            continue
        tr = fin["trials"]
        space = next((r["spec"].get("space") for r in H.runs_of(root) if r["spec"].get("space")), w.spec.get("space", "f1"))
        dom = DOMAIN[space]
        for tid, t in tr.items():
            if tid != t["id"]:
                yield ("id-mismatch", f"trial stored under {tid} calls itself {t['id']}")
            if set(t["config"]) != set(dom):
                yield ("keys", f"trial {tid} has parameters {sorted(t['config'])}, space has {sorted(dom)}")
                continue
            for k, ok in dom.items():
                if not ok(t["config"][k]):
                    yield ("domain", f"trial {tid}: {k}={t['config'][k]!r} outside the space")
        ids_seen = {}
        for e in H.evals_of(root):
            if e["tid"] not in tr:
                yield ("unrecorded", f"{e['p']} evaluated {e['tid']}, which is not on record")
            elif not nan_eq(dict(tr[e["tid"]]["config"]), dict(e["config"])):
                yield ("config", f"trial {e['tid']}: pipeline got {e['config']}, recorded {tr[e['tid']]['config']}")
            ids_seen.setdefault(e["tid"], []).append(e["config"])
        for tid, cs in ids_seen.items():
            if any(not nan_eq(dict(c), dict(cs[0])) for c in cs[1:]):
                yield ("id-reused", f"trial id {tid} was used for different configurations {cs}")
        nums = sorted({int(t["id"].split("_")[0]) for t in tr.values()})
        if nums and nums != list(range(nums[0], nums[0] + len(nums))):
            yield ("gap", f"trial numbers are {nums}")
        if nums and nums[0] not in (0, 1):
            yield ("gap", f"trial numbers start at {nums[0]}")
        unfinished = [t["id"] for t in tr.values() if t["report"] is None]
        lossy = len(H.crashed) + sum(1 for r in H.runs_of(root) if r["out"] == "exc")
        if len(unfinished) > lossy:
            yield ("unfinished", f"trials {unfinished} left unfinished although only {lossy} workers were killed or failed")
        yield from grid_rule(H, root, tr, space)
    for r in H.runs:
        if r["out"] == "exc" and not expected_exc(r) and not H.io_faulted(r["p"]):
            names = [a for a, _ in r["chain"]]
            if "TrialAlreadyExistsError" in names or "VersionedResourceAlreadyExistsError" in names:
                yield ("id-collision", f"{r['p']}: {describe_exc(r)}")


GRID = {"grid": [{"c": c, "d": d} for c in "abc" for d in (1, 2)],
        "grid2": [{"c": c, "n": n} for c in "ab" for n in (1, 2, 3)]}


def grid_rule(H, root, tr, space):
    if H.w.spec.get("searcher") != "@grid":
        return
    pts = [tuple(sorted((k, v) for k, v in t["config"].items())) for t in tr.values()]
    want = [tuple(sorted(d.items())) for d in GRID[space]]
    if len(set(pts)) != len(pts):
        yield ("grid-dup", f"grid points visited twice: {sorted(pts)}")
    for x in pts:
        if x not in want:
            yield ("grid-foreign", f"{x} is not a grid point")
    M = next((r["spec"]["kw"].get("max_evaluations_total") for r in H.runs_of(root)), None)
    if M == len(want) and not H.crashed and set(pts) != set(want) and all(r["out"] == "ok" for r in H.runs_of(root)):
        yield ("grid-missing", f"grid points never visited: {sorted(set(want) - set(pts))}")


# --------------------------------------------------------------------------- C21
def c21(H):
    yield from liveness(H, "C21")
    if H.aborted:
        return
    yield from unexpected_exceptions(H, ok=expected_exc)
    w = H.w
    for root in H.roots():
        evs = H.evals_of(root)
        fin = w.final.get(root)
        for r in H.runs_of(root):
            kw = r["spec"].get("kw", {})
            L = kw.get("max_wallclock_time_for_worker_seconds")
            E = kw.get("max_evaluation_time_for_worker_seconds")
            T = kw.get("max_evaluation_time_total_seconds")
            # latest instant the worker can have looked at the clock before an evaluation: it looks, then
            # performs a bounded number of file operations; compare with the previous mark (conservative)
            for e in r["evals"]:
                if L is not None:
                    mark_t = H.h[e["s0"]]["t"]
                    start_t = r.get("began", r["t0"])
                    # worker's clock starts after set-up; set-up time is an upper-bound slack
                    if mark_t - (start_t + setup_slack(H, r)) >= L:
                        yield ("late-wallclock", f"{e['p']} started trial {e['tid']} {mark_t - start_t:.3f}s after it began; limit {L}")
                if E is not None:
                    own = sum(o["dur"] for o in r["evals"] if o["start"] < e["start"])
                    if own >= E:
                        yield ("late-own", f"{e['p']} started trial {e['tid']} after {own:.3f}s of evaluations; limit {E}")
                if T is not None:
                    tot = sum(o["dur"] for o in evs if o["acked"] and o["ack_seq"] < e["s0"])
                    own = sum(o["dur"] for o in r["evals"] if o["end"] is not None and o["end"] <= e["s0"] and not (o["acked"] and o["ack_seq"] < e["s0"]))
                    if tot + own >= T:
                        yield ("late-total", f"{e['p']} started trial {e['tid']} after {tot + own:.3f}s of recorded evaluation time; limit {T}")
            if r["out"] == "ok":
                reached = []
                slack = 0.05 + 200 * w.spec.get("dt", 5e-4) + stall_total(H, r["p"])
                if L is not None:
                    reached.append(r["t1"] - r["t0"] >= L)
                if E is not None:
                    reached.append(sum(o["dur"] for o in r["evals"]) + slack * max(1, len(r["evals"])) >= E)
                if T is not None:
                    reached.append(sum(o["dur"] for o in evs if o["end"] is not None and o["end"] < r["ret"])
                                   + sum((0.05 + 200 * w.spec.get("dt", 5e-4) + stall_total(H, o["p"])) for o in evs) >= T)
                M = kw.get("max_evaluations_total")
                if M is not None:
                    reached.append(sum(1 for o in evs if o["end"] is not None and o["end"] < r["ret"]) >= M)
                if reached and not any(reached):
                    yield ("early-stop", f"{r['p']} stopped after {r['t1'] - r['t0']:.3f}s / {len(r['evals'])} evaluations without reaching a limit {kw}")
        if fin:
            for t in fin["trials"].values():
                if t["dur"] is not None and t["dur"] < 0:
                    yield ("negative", f"trial {t['id']} has duration {t['dur']}")


def setup_slack(H, r):
    # from the run call to the worker's own start: bounded by the time to its first evaluation
    if r["evals"]:
        return max(0.0, r["evals"][0]["t_start"] - r["t0"])
    return 0.0


# --------------------------------------------------------------------------- C22
def c22(H):
    yield from liveness(H, "C22")
    if H.aborted:
        return
    yield from unexpected_exceptions(H, ok=expected_exc)
    w = H.w
    for root in H.roots():
        runs = [r for r in H.runs_of(root) if r["out"] == "ok"]
        fin = w.final.get(root)
        if not runs or fin is None:
            continue
        kw = runs[-1]["spec"].get("kw", {})
        M = kw.get("max_evaluations_total")
        done = sum(1 for t in fin["trials"].values() if t["report"] is not None)
        if M is not None and not inprog(runs[-1]) and done < M:
            yield ("incomplete", f"{done} results of {M}")


# --------------------------------------------------------------------------- C23
def c23(H):
    yield from liveness(H, "C23")
    if H.aborted:
        return
    yield from unexpected_exceptions(H, ok=expected_exc)
    w = H.w
    for root in H.roots():
        ref = w.extra.get("ref_trace", {}).get(root)
        if not ref:
            continue
        got = [(e["tid"], e["config"], e["expect"], e["err"] is not None) for e in H.evals_of(root)]
        n = min(len(got), len(ref))
        for i in range(n):
            a, b = got[i], ref[i]
            if a[0] != b[0] or not nan_eq(dict(a[1]), dict(b[1])) or not nan_eq(a[2], b[2]) or a[3] != b[3]:
                yield ("diverged", f"evaluation {i + 1}: resumed search ran {a[0]} {a[1]}, uninterrupted search {b[0]} {b[1]}")
                break
        else:
            if len(got) != len(ref):
                yield ("length", f"resumed search made {len(got)} evaluations, uninterrupted {len(ref)}")


# --------------------------------------------------------------------------- C26
def fnum(x):
    """A number as the command line prints it (None: not a number)."""
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def shown_eq(text, v):
    """Does the printed number mean v, given that at least six decimals are shown?"""
    f = fnum(text)
    if f is None or v is None:
        return f is None and v is None
    if math.isnan(v) or math.isinf(v) or math.isnan(f) or math.isinf(f):
        return nan_eq(f, float(v))
    return abs(f - v) <= 0.6e-6 + 1e-9 * abs(v)


FINAL_STATES = ("success", "crashed", "failed", "corrupted")


def c26(H):
    w = H.w
    yield from liveness(H, "C26")
    for e in H.h:
        if e["ev"] != "cli_ret":
            continue
        cmd, got, root = e["cmd"], e["got"], e["root"]
        what = f"'{' '.join(cmd)}' at event {e['seq']}"
        if e["exc"] is not None and cmd[0] == "py" and not e["ready"]:
            continue  # no run there yet, which the function answers with an exception
        if e["exc"] is not None:
            yield (f"cli-exc:{cmd[0]}:{e['exc'].split(':')[0]}", f"{what} failed: {e['exc']}\n{e['tb'][-900:]}")
            continue
        if "unparsable" in got:
            yield ("cli-garbled", f"{what} printed {got['lines']}")
            continue
        if got.get("nostate"):
            if e["ready"]:
                yield ("cli-nostate", f"{what} says there is no state, but the run is under way")
            continue
        yield from C26[cmd[0]](H, e, root, cmd, got, e["call"], e["seq"], what)
    yield from unexpected_exceptions(H, ok=expected_exc)


def subst(H, root):
    """The loss recorded for a failed trial."""
    for r in H.runs_of(root):
        return r["spec"]["kw"].get("loss_value_on_error")


def ev_of(H, root):
    return {x["tid"]: x for x in H.evals_of(root)}


def check_shown(H, root, evs, a, b, what, tid, state, loss):
    """One trial shown in some state with some loss."""
    x = evs.get(tid)
    fin = H.w.final.get(root)
    if x is None:
        if fin is not None and tid not in fin["trials"]:
            yield ("cli-unknown", f"{what} shows trial {tid}, which does not exist")
        if state in FINAL_STATES:
            yield ("cli-state", f"{what} shows trial {tid} as {state}, it was never evaluated")
        return
    done_lo = x["acked"] and x["ack_seq"] < a
    done_hi = x["end"] is not None and x["end"] < b
    if state in FINAL_STATES:
        if not done_hi:
            yield ("cli-state", f"{what} shows trial {tid} as {state} before its evaluation ended")
        elif (x["err"] is None) != (state == "success"):
            yield ("cli-state", f"{what} shows trial {tid} as {state}, its evaluation ended with error {x['err']}")
        elif loss is not False:
            want = x["expect"]["loss"] if x["err"] is None else subst(H, root)
            if not shown_eq(loss, want):
                yield ("cli-loss", f"{what} shows trial {tid} with loss {loss}, recorded was {want}")
    elif state == "evaluating":
        if done_lo:
            yield ("cli-state", f"{what} shows trial {tid} as evaluating, it had ended before")
    elif state == "pending":
        if x["start"] < a:
            yield ("cli-state", f"{what} shows trial {tid} as pending, it had been started before")
    else:
        yield ("cli-state", f"{what} shows trial {tid} in state {state}")
    if state in ("evaluating", "pending") and loss not in (False, None) and fnum(loss) is not None:
        # a worker killed between storing the result and the state leaves a result in a running trial
        torn = done_hi and x["p"] in H.crashed or any(q["p"] == x["p"] for q in H.runs if q["out"] == "exc")
        want = None if not done_hi else x["expect"]["loss"] if x["err"] is None else subst(H, root)
        if not torn or not shown_eq(loss, want):
            yield ("cli-loss", f"{what} shows a loss {loss} for trial {tid} in state {state}")


def cli_status(H, e, root, cmd, got, a, b, what):
    evs = ev_of(H, root)
    fin = H.w.final.get(root)
    c = got["counts"]
    try:
        n = {k: int(c[k]) for k in ("succ", "fail", "active", "pend", "run")}
        best = float(c["best"])
    except (KeyError, ValueError) as x:
        yield ("cli-garbled", f"{what}: counts {c} ({x!r})")
        return
    yield from check_status(H, root, {"n_eval": n["succ"] + n["fail"], "n_pend": n["pend"], "n_run": n["run"],
                                      "n_err": n["fail"], "best": best, "best_id": got["best_id"]}, a, b, what)
    yield from best_bounds(evs, a, b, what, best, got["best_id"])
    W = len({r["p"] for r in H.runs_of(root) if r["call"] < b})
    lo = sum(1 for x in evs.values() if x["start"] < a and (x["end"] is None or x["end"] > b))
    hi = sum(1 for x in evs.values() if x["start"] < b and not (x["acked"] and x["ack_seq"] < a)) + W
    if not lo <= n["active"] <= hi:
        yield ("cli-active", f"{what}: {n['active']} active trials, expected {lo}..{hi}")
    ids = [r["id"] for r in got["rows"]]
    if len(set(ids)) != len(ids):
        yield ("cli-rows", f"{what}: lists {ids}")
    for r in got["rows"]:
        yield from check_shown(H, root, evs, a, b, what, r["id"], r["state"], r["loss"])
        t = fin["trials"].get(r["id"]) if fin else None
        if t is not None and str(t["sampler"]) != r["worker"]:
            yield ("cli-rows", f"{what}: trial {r['id']} listed for worker {r['worker']}, sampled by {t['sampler']}")
    if fin is not None and all(i in fin["trials"] for i in ids):
        ts = [fin["trials"][i]["t_sampled"] for i in ids]
        if ts != sorted(ts, reverse=True):
            yield ("cli-rows", f"{what}: listed {ids}, not latest first")
    filt = [x[2:] for x in cmd[1:]]
    known = [x for x in evs.values() if x["start"] < a]
    if filt:
        want = {"succeeded": "success"}.get(filt[0], filt[0])
        if any(r["state"] != want for r in got["rows"]):
            yield ("cli-filter", f"{what} lists {[(r['id'], r['state']) for r in got['rows']]}")
        if want == "success":
            must = {x["tid"] for x in known if x["acked"] and x["ack_seq"] < a and x["err"] is None}
        elif want == "evaluating":
            must = {x["tid"] for x in known if x["end"] is None or x["end"] > b}
        else:
            must = {y["tid"] for y in H.h if y["ev"] == "asked" and y["root"] == root and y["seq"] < a
                    and fin is not None and fin["trials"].get(y["tid"], {}).get("state") == "pending"}
        if must - set(ids):
            yield ("cli-filter", f"{what} lists {ids}, misses {sorted(must - set(ids))}")
    else:
        if len(ids) < min(7, len(known)):
            yield ("cli-rows", f"{what} lists {ids}, {len(known)} trials had been started")
        if fin is not None and ids and all(i in fin["trials"] for i in ids):
            last = min(fin["trials"][i]["t_sampled"] for i in ids)
            miss = [x["tid"] for x in known if x["tid"] in fin["trials"] and x["tid"] not in ids
                    and fin["trials"][x["tid"]]["t_sampled"] > last]
            if miss:
                yield ("cli-rows", f"{what} lists {ids} as latest trials, {miss} are later")


def best_bounds(evs, a, b, what, best, best_id):
    """The best loss shown lies between what was known at the start and at the end."""
    ok = [x for x in evs.values() if x["err"] is None and x["expect"] is not None and x["end"] is not None
          and isinstance(x["expect"]["loss"], float) and not math.isnan(x["expect"]["loss"])]
    hi = min([x["expect"]["loss"] for x in ok if x["acked"] and x["ack_seq"] < a], default=float("inf"))
    lo = min([x["expect"]["loss"] for x in ok if x["end"] < b], default=float("inf"))
    if math.isnan(best) or best > hi + 1e-6 or best < lo - 1e-6:
        yield ("cli-best", f"{what}: best loss {best}, expected between {lo} and {hi}")
    if best_id not in (None, "None") and best != float("inf"):
        x = evs.get(best_id)
        if x is None or x["expect"] is None or not shown_eq(best, x["expect"]["loss"]):
            yield ("cli-best", f"{what}: best trial {best_id} with loss {best}, it returned {x and x['expect']}")


def cli_results(H, e, root, cmd, got, a, b, what):
    evs = ev_of(H, root)
    rows = got["rows"]
    for r in rows:
        yield from check_shown(H, root, evs, a, b, what, r["id"], "success", r["loss"])
        x = evs.get(r["id"])
        if x is not None and any(f"{k}: {v}" not in r["text"] for k, v in x["config"].items()):
            yield ("cli-config", f"{what}: trial {r['id']} shown as {r['text']}, its configuration is {x['config']}")
    ls = [x["expect"]["loss"] for x in (evs.get(r["id"]) for r in rows) if x is not None and x["expect"] is not None]
    if any(not p < q for p, q in zip(ls, ls[1:])):
        yield ("cli-incumbents", f"{what}: incumbents {rows} do not improve")
    ids = [r["id"] for r in rows]
    if len(set(ids)) != len(ids):
        yield ("cli-incumbents", f"{what}: incumbents {ids}")
    yield from best_bounds(evs, a, b, what, ls[0] if ls else float("inf"), ids[0] if ids else None)
    # nothing happened during the query: exactly the successively better ones
    num = {}
    for t in evs:
        try:
            num[t] = int(t.replace("_", "")) if "_" in t else int(t)
        except ValueError:
            return
    done = sorted((x for x in evs.values() if x["end"] is not None and x["end"] < b), key=lambda x: num[x["tid"]])
    if all(x["acked"] and x["ack_seq"] < a for x in done):
        cur, exp = float("inf"), []
        for x in done:
            if x["err"] is None and x["expect"]["loss"] < cur:
                cur = x["expect"]["loss"]
                exp.append(x["tid"])
        if "_" not in "".join(evs) and exp[::-1] != ids:
            yield ("cli-incumbents", f"{what}: incumbents {ids}, expected {exp[::-1]}")
        if bool(exp) != bool(ids):
            yield ("cli-incumbents", f"{what}: incumbents {ids}, expected {exp[::-1]}")


def cli_errors(H, e, root, cmd, got, a, b, what):
    evs = ev_of(H, root)
    ids = [x["id"] for x in got["errs"]]
    if len(set(ids)) != len(ids):
        yield ("cli-errors", f"{what}: lists {ids}")
    for r in got["errs"]:
        x = evs.get(r["id"])
        if x is None or x["err"] is None or x["end"] is None or x["end"] > b:
            yield ("cli-errors", f"{what}: lists an error of trial {r['id']}, which had not failed")
            continue
        if x["err_type"] is not None and x["err_type"] not in r.get("type", ""):
            yield ("cli-errors", f"{what}: trial {r['id']} failed with {x['err_type']}, shown is {r.get('type')}")
        if x["err"].strip() and x["err"].strip().split("\n")[0].strip() not in r.get("msg", ""):
            yield ("cli-errors", f"{what}: trial {r['id']} failed with {x['err']!r}, shown is {r.get('msg')!r}")
        fin = H.w.final.get(root)
        t = fin["trials"].get(r["id"]) if fin else None
        if t is not None and r.get("worker") != str(t["worker"]):
            yield ("cli-errors", f"{what}: error of trial {r['id']} attributed to {r.get('worker')}, it was run by {t['worker']}")
    must = {x["tid"] for x in evs.values() if x["err"] is not None and x["acked"] and x["ack_seq"] < a}
    if must - set(ids):
        yield ("cli-errors", f"{what}: lists {ids}, misses {sorted(must - set(ids))}")
    if got["none"] and ids:
        yield ("cli-errors", f"{what}: no errors, and errors of {ids}")


def cli_info(H, e, root, cmd, got, a, b, what):
    evs = ev_of(H, root)
    tid = cmd[1]
    x = evs.get(tid)
    fin = H.w.final.get(root)
    if got["notfound"]:
        if x is not None and x["start"] < a:
            yield ("cli-notfound", f"{what}: trial not found, it had been started")
        return
    if got.get("id") != tid:
        yield ("cli-info", f"{what}: shows trial {got.get('id')}")
        return
    yield from check_shown(H, root, evs, a, b, what, tid, got.get("state"), got.get("loss"))
    if x is not None and sorted(f"{k}: {v}" for k, v in x["config"].items()) != got["cfg"]:
        yield ("cli-config", f"{what}: configuration {got['cfg']}, it ran with {x['config']}")
    t = fin["trials"].get(tid) if fin else None
    if t is not None:
        if got.get("state") not in ("pending", None) and got.get("worker") != str(t["worker"]):
            yield ("cli-info", f"{what}: evaluated by {got.get('worker')}, on record {t['worker']}")
        if got.get("prev") != str(t["prev"]):
            yield ("cli-info", f"{what}: previous trial {got.get('prev')}, on record {t['prev']}")
        if got.get("state") == "success" and x is not None and x["expect"] is not None \
                and not shown_eq(got.get("cost"), x["expect"]["cost"]):
            yield ("cli-info", f"{what}: cost {got.get('cost')}, returned {x['expect']['cost']}")


def cli_py(H, e, root, cmd, got, a, b, what):
    evs = ev_of(H, root)
    try:
        n = {k: int(got[k]) for k in ("n_eval", "n_pend", "n_run", "n_err")}
        best = float(got.get("best", "inf"))
    except (KeyError, ValueError) as x:
        yield ("cli-garbled", f"{what}: {got} ({x!r})")
        return
    yield from check_status(H, root, {**n, "best": best, "best_id": got.get("best_id")}, a, b, what)
    yield from best_bounds(evs, a, b, what, best, got.get("best_id"))
    if len(got["ret"]["done"]) != n["n_eval"] or len(got["ret"]["pend"]) != n["n_pend"]:
        yield ("cli-py", f"{what}: printed {n}, returned {got['ret']}")
    done = got["ret"]["done"]
    sec, cur, loss = {}, None, None
    for ln in got["text"]:
        if ln.startswith("Best loss across"):
            cur = sec.setdefault("best_losses", [])
        elif ln.startswith("Best configs and"):
            cur = sec.setdefault("best_configs", [])
        elif ln.startswith("All evaluated configs"):
            cur = sec.setdefault("all_configs", [])
        elif cur is not None and cur is sec.get("best_losses"):
            cur.append(fnum(ln))
        elif cur is not None and ln.startswith("Loss:"):
            loss = ln.split(":", 1)[1].strip()
        elif cur is not None and ln.startswith("Config ID:"):
            cur.append((ln.split(":", 1)[1].strip(), loss))
    if not n["n_eval"]:
        return
    for k in cmd[1:]:
        if k not in sec:
            yield ("cli-py", f"{what}: no listing of {k} in {got['text']}")
    for tid, l in sec.get("best_configs", []) + sec.get("all_configs", []):
        x = evs.get(tid)
        if x is None or x["end"] is None or x["end"] > b:
            yield ("cli-py", f"{what}: lists trial {tid}, which had not been evaluated")
        elif x["err"] is None and not shown_eq(l, x["expect"]["loss"]):
            yield ("cli-py", f"{what}: lists trial {tid} with loss {l}, it returned {x['expect']['loss']}")
    if "all_configs" in sec and sorted(t for t, _ in sec["all_configs"]) != done:
        yield ("cli-py", f"{what}: lists {sec['all_configs']}, evaluated were {done}")
    for k, ls in (("best_losses", sec.get("best_losses")), ("best_configs", [fnum(l) for _, l in sec.get("best_configs", [])])):
        if k not in sec:
            continue
        if any(l is None for l in ls) or any(not p > q for p, q in zip(ls, ls[1:])) or not nan_eq(min(ls, default=float("inf")), best):
            yield ("cli-py", f"{what}: {k} {ls}, the best loss is {best}")


C26 = {"status": cli_status, "results": cli_results, "errors": cli_errors, "info-config": cli_info, "py": cli_py}


# --------------------------------------------------------------------------- C27
def f32(x):
    import struct

    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(float("inf"), x)


def c27(H):
    from collections import Counter

    w = H.w
    yield from liveness(H, "C27")
    if H.aborted:
        return
    # which evaluation a process was busy with at an event, and what it did next
    cur, at = {}, {}
    nxt = {}
    for e in H.h:
        if e["ev"] == "eval_start":
            cur[e["p"]] = (e["root"], e["tid"])
        at[e["seq"]] = cur.get(e["p"])
    by_p = {}
    for x in H.evals:
        by_p.setdefault(x["p"], []).append(x)
    for xs in by_p.values():
        for x, y in zip(xs, xs[1:]):
            nxt[id(x)] = y["start"]
    evs = {(x["root"], x["tid"]): x for x in H.evals}

    def went_on(x):
        """The worker got past the end of the evaluation (and of what is attached to it)."""
        return x["end"] is not None and x["err"] not in ("interrupt", "badvalue") and x["acked"]

    def chain0(tr, tid):
        t, hops = tr.get(tid), 0
        while t is not None and t["prev"] in tr and hops < 30:
            t = tr[t["prev"]]
            hops += 1
        return t

    # callbacks
    reg = {}
    for e in H.h:
        if e["ev"] == "cb_reg":
            reg.setdefault(e["p"], e["seq"])
        elif e["ev"] == "cb":
            x = evs.get(at[e["seq"]])
            if not e["mine"] or x is None or x["tid"] != e["tid"] or x["dir"] != e["loc"]:
                yield ("callback-foreign", f"{e['p']} was notified of the end of trial {e['tid']} in {e['loc']}, it evaluated {at[e['seq']]}")
            elif x["end"] is None or x["end"] > e["seq"]:
                yield ("callback-early", f"{e['p']} was notified of the end of trial {e['tid']} while it was being evaluated")
    cbs = Counter(at[e["seq"]] for e in H.h if e["ev"] == "cb")
    for x in H.evals:
        k = (x["root"], x["tid"])
        if x["p"] in reg and reg[x["p"]] < x["start"]:
            if cbs[k] > 1 or (went_on(x) and cbs[k] != 1):
                yield ("callback-count", f"the end of trial {k} was notified {cbs[k]} times")
    # what was logged
    want, may = {}, {}
    for e in H.h:
        if e["ev"] != "tb_log" or not e["on"]:
            continue
        fin = w.final.get(e["root"])
        if fin is None:
            continue
        t0 = chain0(fin["trials"], e["tid"])
        if t0 is None:
            continue
        x = evs[(e["root"], e["tid"])]
        base = t0["loc"][len(w.sim.root):].lstrip("/")
        name = base.rsplit("/", 1)[-1]
        exp = [(base + "/tbevents", f"{name}/Loss", f32(e["value"]), e["step"])]
        if e["hparam"]:
            exp.append((base + "/tbevents", "Summary/Loss", f32(e["value"]), e["step"]))
            exp.append((base + "/tbevents", "hparams", 0.0, 0))
        if e["extra"] is not None:
            exp.append((base + "/tbevents", f"{name}/acc", f32(e["extra"]), e["step"]))
        for q in exp:
            may.setdefault(e["root"], Counter())[q] += 1
            if e["done"] and went_on(x):
                want.setdefault(e["root"], Counter())[q] += 1
    for root, fin in w.final.items():
        have = Counter()
        for r in fin.get("tb", []):
            if r["tag"] == "Summary/Incumbent_graph":
                if r["dir"] != f"{root}/summary":
                    yield ("incumbent-dir", f"incumbent of {root} recorded in {r['dir']}")
                continue
            have[(r["dir"], r["tag"], f32(r["value"]), r["step"])] += 1
        for q, n in have.items():
            if n > may.get(root, {}).get(q, 0):
                yield ("log-foreign", f"the event files of {root} hold {q} {n} times, it was logged {may.get(root, {}).get(q, 0)} times")
        for q, n in want.get(root, {}).items():
            if have[q] < n:
                yield ("log-lost", f"the event files of {root} hold {q} {have[q]} times, it was logged {n} times by workers that went on")
    # every write goes to the run that is being worked on
    incs = {}
    for e in H.h:
        if e["ev"] == "tb_rec":
            k = at[e["seq"]]
            if k is None or e["dir"].split("/")[0] != k[0]:
                yield ("foreign-run", f"{e['p']} wrote {e['tag']} to {e['dir']} while working on {k}")
            elif e["tag"] == "Summary/Incumbent_graph":
                incs.setdefault(k, []).append(e)
    last_inc = {}
    for e in H.h:
        if e["ev"] == "tb_log":
            last_inc[(e["root"], e["tid"])] = e["inc"] and e["on"]
    for x in H.evals:
        k = (x["root"], x["tid"])
        es = incs.get(k, [])
        n = 1 if last_inc.get(k) else 0
        if len(es) > n or (went_on(x) and len(es) != n):
            yield ("incumbent-count", f"the incumbent was recorded {len(es)} times at the end of trial {k}, expected {n}")
        mine = ev_of(H, x["root"])
        for e in es:
            if x["end"] is None or e["seq"] < x["end"]:
                yield ("incumbent-early", f"the incumbent was recorded while trial {k} was being evaluated")
                continue
            for s, m in best_bounds({t: y for t, y in mine.items()}, x["end"], e["seq"], f"incumbent after trial {k}", e["value"], None):
                if not math.isinf(e["value"]) and abs(e["value"]) > 1e6:
                    continue
                yield ("incumbent-value", m)
            lo = sum(1 for y in mine.values() if y["acked"] and y["ack_seq"] < x["end"])
            hi = sum(1 for y in mine.values() if y["end"] is not None and y["end"] < e["seq"])
            if not lo <= e["step"] <= hi:
                yield ("incumbent-step", f"incumbent after trial {k} recorded at {e['step']}, between {lo} and {hi} were evaluated")
    for r in H.runs:
        if r["spec"].get("expect") == "ok" and r["out"] == "exc":
            yield (f"later-run:{r['chain'][0][0]}:{r['chain'][-1][0]}", f"run call on {r['root']} in {r['p']} failed: {describe_exc(r)}\n{r['tb'][-900:]}")
    if all(len([o for o in ps["prog"] if o["op"] == "run"]) == 1 for ps in w.spec["procs"]):
        yield from unexpected_exceptions(H, ok=expected_exc)


# --------------------------------------------------------------------------- C28
def c28(H):
    w = H.w
    yield from liveness(H, "C28")
    if H.aborted:
        return
    for s, m in c03(H):
        yield (s, m)
    space = w.spec["space"]
    for root in H.roots():
        runs = H.runs_of(root)
        fin = w.final.get(root)
        procs = {r["p"] for r in runs}
        moods = {r["spec"].get("mood") for r in runs}
        crashed = bool(procs & set(H.crashed))
        evs = {e["tid"]: e for e in H.evals_of(root)}
        calm = not crashed and moods <= {"calm", "errok"}
        if calm:
            for r in runs:
                if r["out"] == "exc":
                    yield (f"disturbed:{r['chain'][0][0]}:{r['chain'][-1][0]}",
                           f"run call on {root} raised {describe_exc(r)} although nothing happened to that search\n{r['tb'][-900:]}")
        elif not crashed and "err" in moods:
            for r in runs:
                if r["out"] == "exc" and not any(e["err"] is not None for e in evs.values()):
                    yield ("disturbed", f"run call on {root} raised {describe_exc(r)} although no evaluation of that search failed")
        if fin is None:
            if calm and any(r["out"] == "ok" for r in runs):
                yield ("vanished", f"the search in {root} left nothing behind")
            continue
        # the same trials the search would have sampled alone
        ref = (w.extra.get("refs", {}).get(root) or [None])[0]
        got = [t["config"] for t in by_id(fin["trials"])]
        if ref and not crashed:
            if got != ref[: len(got)]:
                i = next(i for i in range(len(got)) if got[i] != ref[i])
                yield ("diverged", f"{i + 1}. configuration of {root} is {got[i]}, alone it would be {ref[i]}")
        elif ref:
            j = 0
            for c in got:
                while j < len(ref) and ref[j] != c:
                    j += 1
                if j >= len(ref):
                    yield ("diverged", f"configuration {c} of {root} is not one this search would sample alone")
                    break
                j += 1
        for t in fin["trials"].values():
            if t["loc"] != f"{w.root_path(root)}/configs/config_{t['id']}" and not t["loc"].startswith(w.root_path(root) + "/"):
                yield ("foreign-dir", f"trial {t['id']} of {root} is located in {t['loc']}")
            e = evs.get(t["id"])
            if t["report"] is not None and e is None:
                yield ("foreign-result", f"trial {t['id']} of {root} has a result, it was never evaluated there")
            if e is not None and t["report"] is not None and e["err"] is None and e["expect"] is not None \
                    and not nan_eq(t["report"]["loss"], e["expect"]["loss"]):
                yield ("foreign-result", f"trial {t['id']} of {root} has loss {t['report']['loss']}, its pipeline returned {e['expect']['loss']}")
            if e is not None and not nan_eq(dict(e["config"]), dict(t["config"])):
                yield ("foreign-config", f"trial {t['id']} of {root} is recorded with {t['config']}, it ran with {e['config']}")
        for x in fin["errs"]:
            e = evs.get(x["trial_id"])
            if e is None or e["err"] is None:
                yield ("foreign-error", f"the error log of {root} has an error of trial {x['trial_id']}, which did not fail there")
        if calm:
            # budget spent on this search alone
            M = max(r["spec"]["kw"]["max_evaluations_total"] for r in runs)
            n = sum(1 for t in fin["trials"].values() if t["report"] is not None)
            lim = M + max_overlap(runs, H) - 1
            if not M <= n <= lim:
                yield ("budget", f"the search in {root} has {n} results, its budget is {M}")


ORACLES = {n[0].upper() + n[1:]: f for n, f in list(globals().items())
           if len(n) == 3 and n[0] == "c" and n[1:].isdigit()}


def check(w: World, pid):
    H = Hist(w)
    if w.sim.harness_error:
        raise RuntimeError("harness error: " + w.sim.harness_error)
    out = []
    seen = set()
    f = ORACLES.get(pid)
    if f is None:
        from . import direct

        f = direct.ORACLES[pid]
    for s, m in f(H):
        if s not in seen:
            seen.add(s)
            out.append({"sig": s, "msg": m})
    return out
