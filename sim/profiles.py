"""Specification generators: one integer decides the scenario, the schedule and the faults
of a simulated run. Swarm style: each seed enables its own subset of features."""
from __future__ import annotations

import random

from .core import h64

MF = ("asha", "successive_halving", "hyperband")
CONFIGS = "configs/config_"


class G:
    def __init__(self, prop, seed):
        self.r = random.Random(h64(prop, seed, "spec"))
        self.seed = seed

    def p(self, x):
        return self.r.random() < x

    def pick(self, *a):
        return self.r.choice(a)

    def u(self, a, b):
        return round(self.r.uniform(a, b), 4)

    def i(self, a, b):
        return self.r.randint(a, b)

    # ------------------------------------------------------------- schedule, timing
    def sched(self):
        k = self.i(0, 9)
        if k < 4:
            return {"kind": "walk", "p": self.pick(0.02, 0.08, 0.2, 0.4, 0.7)}
        if k < 6:
            return {"kind": "pct", "d": self.i(1, 6), "span": self.pick(300, 900, 2500, 6000)}
        if k < 8:
            return {"kind": "sticky", "len": self.pick(4, 12, 40, 120)}
        return {"kind": "mut", "p": self.pick(0.15, 0.4, 0.8)}

    def dt(self):
        return self.pick(0.0001, 0.0005, 0.0005, 0.002)

    def dur(self):
        return self.pick((0.0, 0.0), (0.0, 0.05), (0.0, 0.3), (0.2, 1.5), (0.5, 5.0))

    def base(self, **kw):
        s = {"seed": self.seed, "sched": self.sched(), "dt": self.dt(), "space": "f1",
             "pipe": {"dur": self.dur(), "slices": self.pick(1, 1, 2, 4)}, "procs": []}
        s.update(kw)
        return s

    # ------------------------------------------------------------- faults
    def where(self, early=0.45):
        """A position in a process' life."""
        if self.p(early):
            return {"at": "mop", "n": self.i(1, 75)}
        k = self.i(0, 5)
        if k == 5:  # in the middle of an evaluation
            return {"at": "match", "op": "sleep", "path": "", "n": self.i(1, 25)}
        if k == 0:
            return {"at": "mop", "n": self.i(40, 420)}
        if k == 1:
            return {"at": "op", "n": self.i(1, 1200)}
        if k == 2:  # inside the handling of one trial
            return {"at": "match", "op": "*mut", "path": CONFIGS, "n": self.i(1, 130)}
        if k == 3:
            return {"at": "match", "op": self.pick("write", "open", "replace", "close", "mkdir", "rename"),
                    "path": self.pick(CONFIGS, ".optimizer_state", ".seed_state", ".errors", ".optimizer_info", ""),
                    "n": self.i(1, 30)}
        return {"at": "match", "op": self.pick("flock", "unlock"), "path": "", "n": self.i(1, 200)}

    def crash(self, early=0.45):
        f = self.where(early)
        if self.p(0.35):
            return {**f, "kind": "torn", "x": self.pick(0.0, 0.3, 0.5, 0.9, 1.0)}
        if self.p(0.15):
            return {**f, "kind": "interrupt"}
        return {**f, "kind": "crash"}

    def stall(self, mx=20.0):
        return {**self.where(0.3), "kind": "stall", "x": self.u(0.1, mx)}

    def clock(self):
        if self.p(0.4):
            w = {"at": "match", "op": "sleep", "path": "", "n": self.i(1, 12)}
        else:
            w = self.where(0.3)
        return {**w, "kind": "clock", "x": self.pick(-3600.0, -30.0, -1.0, 5.0, 600.0, 1e6)}

    def ioerr(self, early=0.35):
        if self.p(0.3):
            # reading: what is there may look as if it were not
            op, k = self.pick(("open:r", "EMFILE"), ("open:r", "EIO"), ("read", "EIO"), ("stat", "EIO"), ("scandir", "EMFILE"), ("listdir", "EIO"))
            path = self.pick(".version", ".optimizer_state", ".optimizer_info", ".seed_state", ".errors", CONFIGS, "state.txt", "report.yaml", "")
            return {"at": "match", "op": op, "path": path, "n": self.i(1, 8) if self.p(0.6) else self.i(1, 80), "kind": k, "x": 0.0}
        k = self.pick("ENOSPC", "ENOSPC", "EIO", "EMFILE", "short", "short")
        f = self.where(early)
        if f["at"] == "match" and f["op"] in ("flock", "unlock", "sleep"):
            f = {"at": "match", "op": self.pick("write", "open", "replace", "mkdir"), "path": "", "n": self.i(1, 120)}
        if f["at"] == "op":
            f = {"at": "match", "op": self.pick("read", "open", "write"), "path": "", "n": self.i(1, 250)}
        return {**f, "kind": k, "x": self.pick(0.0, 0.4, 0.8)}

    def kill(self, ps, mx=8.0):
        """Give a process a way to die."""
        if self.p(0.35):
            ps["kill_at"] = self.u(0.0, mx)
        else:
            ps.setdefault("faults", []).append(self.crash())
        return ps

    def restart(self, ps):
        ps["restart"] = {"max": self.i(1, 2), "delay": self.pick(0.0, 0.5, 5.0),
                         "faults": [[self.crash()] if self.p(0.3) else []]}
        return ps

    # ------------------------------------------------------------- processes
    def stagger(self, i):
        return self.pick(0.0, 0.0, 0.0, 0.01 * i, 0.2 * i, self.u(0.0, 3.0))

    def workers(self, n, root, kw, op="run", stagger=True, name="w", **extra):
        out = []
        mode = self.i(0, 2) if stagger else 0
        for i in range(n):
            st = 0.0 if mode == 0 else (self.u(0, 0.15) if mode == 1 else self.stagger(i))
            o = {"op": op, "root": root, "kw": dict(kw), **extra}
            out.append({"name": f"{name}{i}", "start": st, "prog": [o]})
        return out

    def observers(self, root, n=None, kinds=("snap", "status")):
        out = []
        for k in range(n if n is not None else self.i(0, 2)):
            out.append({"name": f"obs{k}", "start": self.u(0.0, 2.0),
                        "prog": [{"op": self.pick(*kinds), "root": root, "n": self.i(2, 6),
                                  "gap": self.pick(0.05, 0.3, 1.0, 2.0), "gap0": True}]})
        return out

    def mild(self, spec, p_crash=0.4, p_stall=0.4, p_clock=0.15, p_skew=0.1, p_restart=0.6, keep_one=True):
        ws = [ps for ps in spec["procs"] if ps["prog"] and ps["prog"][0]["op"] in ("run", "worker")]
        for j, ps in enumerate(ws):
            if self.p(p_crash) and not (keep_one and j == 0):
                self.kill(ps)
                if self.p(p_restart):
                    self.restart(ps)
            if self.p(p_stall):
                ps.setdefault("faults", []).append(self.stall())
            if self.p(p_clock):
                ps.setdefault("faults", []).append(self.clock())
            if self.p(p_skew):
                ps["skew"] = self.u(-5, 5)
            if self.p(0.2):
                ps["speed"] = self.pick(0.2, 3.0, 10.0)
        return spec

    def searcher(self, spec, kw, mf=0.3, p_grid=0.0, err=False):
        if self.p(p_grid):
            spec["space"] = self.pick("grid", "grid2")
            kw["searcher"] = "@grid"
            spec["searcher"] = "@grid"
        elif self.p(mf):
            spec["space"] = self.pick("mf", "mf", "mf4", "mff")
            kw["searcher"] = self.pick(*MF)
            kw["eta"] = spec["eta"] = self.pick(2, 3)
        else:
            spec["space"] = self.pick("f1", "f1", "mix", "prior", "cat", "odd")
            kw["searcher"] = "random_search"
        return kw


    def tri(self, spec, kw, p):
        """A user-written searcher that draws from all random generators."""
        if self.p(p):
            spec["space"] = "tri"
            kw["searcher"] = "@tri"


def _errs(g, spec, kw, p=0.4, policy="ignore"):
    if g.p(p):
        spec["pipe"]["err"] = g.pick(0.1, 0.3, 0.6)
        kw["ignore_errors"] = True
        if g.p(0.5):
            kw["loss_value_on_error"] = g.pick(1.0, 99.5, 0.0)
            kw["cost_value_on_error"] = g.pick(0.0, 2.5)


# --------------------------------------------------------------------------- general profile
def general(g, max_m=8):
    """Any mixture: several workers, late joiners, crashes, restarts, observers."""
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, max_m), "post_run_summary": g.p(0.2)}
    g.searcher(spec, kw)
    spec["pipe"]["form"] = g.pick("cost", "mixed")
    _errs(g, spec, kw, 0.3)
    if g.p(0.4):
        kw["continue_until_max_evaluation_completed"] = True
    spec["procs"] = g.workers(g.i(1, 4), "r", kw)
    if g.p(0.6):
        g.mild(spec)
    if g.p(0.3):
        late = g.workers(g.i(1, 2), "r", kw, name="late")
        for ps in late:
            ps["phase"] = 1
        spec["procs"] += late
    spec["procs"] += g.observers("r")
    return spec


def gen_c01(g):
    if g.p(0.25):
        return general(g)
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, 7), "post_run_summary": False}
    g.searcher(spec, kw, mf=0.2)
    spec["pipe"]["dur"] = g.pick((0.0, 0.0), (0.0, 0.05), (0.0, 0.3), (0.0, 1.0))
    _errs(g, spec, kw, 0.25)
    if g.p(0.5):
        kw["continue_until_max_evaluation_completed"] = True
    n = g.i(2, 5)
    if g.p(0.55):
        # leave pending trials behind, then let several workers race for them
        pre = g.workers(g.i(1, 3), "r", kw, name="pre")
        for ps in pre:
            k = g.i(0, 3)
            f = g.crash(0.2) if k == 0 else {
                "at": "match", "op": g.pick("*mut", "write", "open"), "path": CONFIGS, "kind": g.pick("crash", "torn"),
                "x": 0.5, "n": g.i(1, 90)}
            ps["faults"] = [f]
        spec["procs"] += pre
        ws = g.workers(n, "r", kw, stagger=g.p(0.3))
        for ps in ws:
            ps["phase"] = 1
        spec["procs"] += ws
    else:
        spec["procs"] += g.workers(n, "r", kw)
        if g.p(0.5):
            g.mild(spec)
    return spec


def gen_c02(g):
    if g.p(0.25):
        return general(g)
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, 6), "post_run_summary": g.p(0.2)}
    g.searcher(spec, kw, mf=0.25)
    spec["pipe"]["form"] = g.pick("mixed", "mixed", "cost")
    spec["pipe"]["costs"] = g.pick([1.0], [0.0, 1.0, 2.5], [0.0], [-1.0, 0.0, 1e-12, 7])
    spec["pipe"]["special"] = g.p(0.5) and kw["searcher"] == "random_search"
    _errs(g, spec, kw, 0.5)
    if g.p(0.5):
        kw["continue_until_max_evaluation_completed"] = True
    spec["procs"] = g.workers(g.i(1, 4), "r", kw)
    if g.p(0.2) and kw["searcher"] == "random_search":
        for ps in spec["procs"]:
            o = ps["prog"][0]
            o.update(op="worker", wid="W" + ps["name"], kw={"max_evaluations_total": kw["max_evaluations_total"]},
                     defaults={k: kw[k] for k in ("loss_value_on_error", "cost_value_on_error") if k in kw})
        if g.p(0.5):
            d = {"cost_if_not_provided": g.pick(4.0, 0.0)}
            if g.p(0.5):
                d["learning_curve_if_not_provided"] = g.pick("loss", [9.0, 8.0], [])
            if g.p(0.5):
                d["learning_curve_on_error"] = g.pick([7.0], [])
            for ps in spec["procs"]:
                ps["prog"][0]["defaults"].update(d)
    if g.p(0.75):
        g.mild(spec, p_crash=0.7, keep_one=False)
        late = [dict(ps, name="late" + ps["name"], phase=1, faults=[], kill_at=None, restart=None)
                for ps in spec["procs"][:1]]
        if late[0]["prog"][0].get("wid"):
            late[0] = {**late[0], "prog": [{**late[0]["prog"][0], "wid": "Wlate"}]}
        spec["procs"] += late
    spec["procs"] += g.observers("r", kinds=("snap", "snap", "status"))
    return spec


def gen_c03(g):
    spec = g.base()
    kw = {"max_evaluations_total": g.i(1, 7), "post_run_summary": False}
    g.searcher(spec, kw, mf=0.15)
    _errs(g, spec, kw, 0.2)
    if g.p(0.5):
        kw["continue_until_max_evaluation_completed"] = True
    n = g.i(1, 5)
    mode = g.i(0, 4)
    if mode == 0:
        del kw["max_evaluations_total"]
        spec["procs"] = g.workers(n, "r", kw)
        for ps in spec["procs"]:
            ps["prog"][0]["kw"]["max_evaluations_per_run"] = g.i(1, 4)
    elif mode == 1:
        spec["procs"] = g.workers(n, "r", kw)
        for ps in spec["procs"]:
            if g.p(0.6):
                ps["prog"][0]["kw"]["max_evaluations_per_run"] = g.i(1, 3)
    else:
        spec["procs"] = g.workers(n, "r", kw)
    if g.p(0.5):
        g.mild(spec, p_crash=0.35)
    if mode != 0 and g.p(0.6):
        again = g.workers(g.i(1, 2), "r", kw, name="again")
        for ps in again:
            ps["phase"] = 1
        spec["procs"] += again
    if mode != 0 and g.p(0.3):
        for ps in spec["procs"]:
            if ps.get("phase", 0) == 0 and g.p(0.5):
                ps["prog"] = ps["prog"] + [dict(ps["prog"][0])]
    return spec


def gen_c04(g):
    spec = g.base()
    spec["pipe"]["costs"] = g.pick([1.0], [0.5, 1.0, 2.0], [0.25, 3.0, 0.0], [1, 2, 3])
    kw = {"post_run_summary": False}
    spec["pipe"]["form"] = g.pick("cost", "mixedcost")
    mode = g.i(0, 5)
    n = g.i(1, 5)
    if mode <= 2:
        kw["max_cost_total"] = g.pick(2.0, 4.5, 7.0, 5)
        if g.p(0.3):
            kw["max_evaluations_total"] = g.i(2, 8)
        _errs(g, spec, kw, 0.25)
        if kw.get("ignore_errors") and not kw.get("cost_value_on_error"):
            kw["loss_value_on_error"] = 3.0
            kw["cost_value_on_error"] = g.pick(0.5, 2.5)
        g.searcher(spec, kw, mf=0.2)
        spec["procs"] = g.workers(n, "r", kw)
    elif mode <= 4:
        kw["max_evaluations_total"] = g.i(3, 8)
        kw["continue_until_max_evaluation_completed"] = g.p(0.5)
        _errs(g, spec, kw, 0.4)
        g.searcher(spec, kw, mf=0.2)
        spec["procs"] = g.workers(n, "r", kw)
    else:
        wk = {"max_cost_for_worker": g.pick(2.0, 3.5)} if g.p(0.6) else {"max_cost_total": g.pick(3.0, 6.0)}
        spec["pipe"]["form"] = g.pick("cost", "mixed")
        d = {"cost_if_not_provided": g.pick(0.5, 1.5)}
        if g.p(0.3):
            spec["pipe"]["err"] = 0.3
            d.update(loss_value_on_error=1.0, cost_value_on_error=0.75)
        spec["procs"] = g.workers(n, "r", wk, op="worker", defaults=d)
        for ps in spec["procs"]:
            ps["prog"][0]["wid"] = "W" + ps["name"]
    spec["pipe"]["costs"] = [c for c in spec["pipe"]["costs"]]
    if 0.0 in spec["pipe"]["costs"] and len(spec["pipe"]["costs"]) == 1:
        spec["pipe"]["costs"] = [1.0]
    if g.p(0.5):
        g.mild(spec, p_crash=0.35)
    return spec


def gen_c05(g):
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, 6), "post_run_summary": g.p(0.25)}
    g.searcher(spec, kw, mf=0.25)
    spec["pipe"]["form"] = g.pick("cost", "mixed")
    _errs(g, spec, kw, 0.35)
    kw["continue_until_max_evaluation_completed"] = g.p(0.75)
    spec["procs"] = g.workers(g.i(1, 4), "r", kw)
    anyk = False
    for ps in spec["procs"]:
        if g.p(0.8) or not anyk:
            g.kill(ps, mx=3.0)
            anyk = True
            if g.p(0.5):
                g.restart(ps)
    g.mild(spec, p_crash=0.0)
    late = g.workers(g.i(1, 2), "r", kw, name="late")
    for ps in late:
        ps["phase"] = 1
    spec["procs"] += late
    spec["procs"] += g.observers("r")
    return spec


def _solo(kw, rng_seed, pipe=None, root="r", n=1, name="w0"):
    return [{"name": name, "start": 0.0, "rng_seed": rng_seed, "prog": [
        {"op": "run", "root": root, "kw": kw, **({"pipe": pipe} if pipe else {})}]}]


def _model(searcher, rng_seed, n):
    """The draws of one process that asks the searcher again and again, without any state on disk."""
    return {"shared": True, "procs": [{"name": "w0", "start": 0.0, "rng_seed": rng_seed, "prog": [
        {"op": "call", "fn": "model_draws", "searcher": searcher, "n": n}]}]}


def gen_c06(g):
    spec = g.base()
    M = g.i(2, 6)
    kw = {"max_evaluations_total": M, "post_run_summary": g.p(0.3)}
    g.searcher(spec, kw, mf=0.0)
    g.tri(spec, kw, 0.4)
    if g.p(0.3):
        kw["continue_until_max_evaluation_completed"] = True
    n = g.i(2, 6)
    spec["procs"] = g.workers(n, "r", kw)
    rs = g.r.sample(range(1000, 1007), n)
    for i, ps in enumerate(spec["procs"]):
        ps["start"] = g.pick(0.0, 0.0, 0.0, g.u(0, 0.05), g.u(0, 0.3))
        ps["rng_seed"] = rs[i]
        if g.p(0.2):
            ps.setdefault("faults", []).append({"at": "op", "n": g.i(1, 150), "kind": "stall", "x": g.u(0.1, 5)})
    spec["ref"] = {"r": [_model(kw["searcher"], ps["rng_seed"], 16) for ps in spec["procs"]]}
    return spec


def _settings_pair(g):
    """Two different optimizer settings for one space; several spellings each.
    -> (space, [spellings of A], [spellings of B]); a spelling is (kw, description expected on disk)"""
    k = g.i(0, 9)
    if k < 4:
        a = [({"searcher": "asha", "eta": 3}, {"eta": 3}), ({"searcher": "asha"}, {"eta": 3})]
        b = g.pick(*[
            [({"searcher": "asha", "eta": 2}, {"eta": 2})], [({"searcher": "successive_halving", "eta": 3}, {"eta": 3})],
            [({"searcher": "asha", "early_stopping_rate": 1}, {"early_stopping_rate": 1})],
            [({"searcher": "asha", "random_interleave_prob": 0.5}, {"random_interleave_prob": 0.5})],
            [({"searcher": "hyperband"}, {"eta": 3})], [({"searcher": "default"}, {"eta": 3})]])
        sp = "mf"
    elif k < 5:
        y = {"strategy": "asha", "name": "mine", "eta": 3}
        a = [({"searcher": {"$yaml": y}}, {"eta": 3})]
        b = [({"searcher": g.pick({"$yaml": {**y, "eta": 2}}, {"$yaml": {**y, "name": "other"}}, {"$yaml": {**y, "early_stopping_rate": 1}})}, {})]
        sp = "mf"
    elif k < 7:
        a = [({"searcher": "random_search"}, {"use_priors": False}), ({"searcher": "random_search", "use_priors": False}, {"use_priors": False}),
             ({"searcher": "random_search", "ignore_fidelity": True}, {"use_priors": False})]
        b = [({"searcher": "random_search", **g.pick({"use_priors": True}, {"ignore_fidelity": False})}, {})]
        sp = g.pick("f1", "prior")
    else:
        T = lambda v: {"$": "tuple", "v": v}  # noqa: E731
        C = lambda v, w: ({"searcher": "@cls", "sargs": v}, w)  # noqa: E731
        a, b = g.pick(*[
            ([C({"a": 1}, {"a": 1})], [C({}, {})]),
            ([C({"a": 1}, {"a": 1})], [C({"a": 1, "z": 2}, {"a": 1, "z": 2})]),
            ([C({"a": 1}, {"a": 1})], [C({"a": "1"}, {"a": "1"})]),
            ([C({"a": T([1, 2])}, {"a": [1, 2]})], [C({"a": T([1, 3])}, {"a": [1, 3]})]),
            ([C({"a": {"k": [1, T([2, 3])]}}, {"a": {"k": [1, [2, 3]]}})], [C({"a": {"k": [1, T([2, 4])]}}, {"a": {"k": [1, [2, 4]]}})]),
            ([C({"a": {"k": 1}}, {"a": {"k": 1}})], [C({"a": {"k": 1, "m": 2}}, {"a": {"k": 1, "m": 2}})]),
            ([C({"a": 0.1}, {"a": 0.1}), C({"a": {"$": "np", "v": 0.1}}, {"a": 0.1})], [C({"a": 0.1 + 1e-12}, {"a": 0.1 + 1e-12})]),
            ([C({"a": None}, {"a": None})], [C({"a": "None"}, {"a": "None"})]),
            ([C({"a": {"$": "enum", "v": "x"}}, {"a": "x"})], [C({"a": {"$": "enum", "v": "y"}}, {"a": "y"})]),
            ([C({"a": {"$": "arr", "v": [1.0, 2.0]}}, {"a": [1.0, 2.0]})], [C({"a": {"$": "arr", "v": [1.0, 2.5]}}, {"a": [1.0, 2.5]})]),
            ([C({"a": [1, 2]}, {"a": [1, 2]})], [C({"a": [1, 2, 3]}, {"a": [1, 2, 3]})]),
            ([C({"a": "yes", "b": 1e-9}, {"a": "yes", "b": 1e-9}), C({"b": 1e-9, "a": "yes"}, {"a": "yes", "b": 1e-9})], [C({"a": "no", "b": 1e-9}, {"a": "no", "b": 1e-9})]),
        ])
        sp = "tri"
    if g.p(0.3):
        a, b = b, a
    return sp, a, b


def gen_c07(g):
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, 5), "post_run_summary": False}
    spec["space"] = "mf"
    spec["pipe"]["dur"] = g.pick((0, 0), (0, 0.3), (0.1, 1.0))
    A = {**kw, "searcher": "asha", "eta": 3}
    B = {**kw, "searcher": "asha", "eta": 2} if g.p(0.6) else {**kw, "searcher": "successive_halving", "eta": 3}
    if g.p(0.35):
        # overwriting, one call after the other
        rs = g.p(0.5)
        spec["space"] = sp = g.pick("f1", "mix") if rs else "mf"
        if rs:
            A = {**kw, "searcher": "random_search"}
            B = {**A, "use_priors": True}
        progs = []
        for k in range(g.i(2, 3)):
            o = dict(A if (k == 0 or g.p(0.6)) else B)
            if k:
                o["overwrite_working_directory"] = True
            o["max_evaluations_total"] = g.i(2, 5)
            op = {"op": "run", "root": "r", "kw": o, "space": sp, "cont": True, "pipe": {"salt": k, "costs": [1.0, 0.5, 2.0]}}
            if g.p(0.5):
                op["pipe"]["err"] = g.pick(0.3, 0.7)
                if g.p(0.4):
                    op["may_raise"] = True
                else:
                    o["ignore_errors"] = True
                    if g.p(0.5):
                        o["loss_value_on_error"], o["cost_value_on_error"] = 9.0, 4.0
            progs.append(op)
        if g.p(0.5):
            spec["procs"] = [{"name": "w0", "start": 0.0, "prog": progs}]
        else:
            spec["procs"] = [{"name": f"w{k}", "start": 0.0, "phase": k, "rng_seed": 3000 + k, "prog": [o]} for k, o in enumerate(progs)]
            if g.p(0.5):
                g.kill(spec["procs"][0], mx=2.0)
            if rs and progs[-1]["kw"] == {**A, **{k: v for k, v in progs[-1]["kw"].items() if k != "use_priors"}}:
                spec["ref"] = {"r": [_model("random_search", 3000 + len(progs) - 1, 8)]}
        return spec
    race = g.p(0.6)
    spec["space"], SA, SB = _settings_pair(g)

    def op(sp, tag, **more):
        k, info = g.pick(*sp)
        return {"op": "run", "root": "r", "kw": {**kw, **k, **more}, "tag": tag, "info_expect": info}

    for i in range(g.i(1, 3)):
        spec["procs"].append({"name": f"a{i}", "start": g.u(0, 0.1) if race else 0.0, "prog": [op(SA, "A")]})
    for i in range(g.i(1, 2)):
        spec["procs"].append({"name": f"b{i}", "start": g.u(0, 0.1) if race else g.u(0, 3), "phase": 0 if race else g.i(0, 1),
                              "prog": [op(SB, "B")]})
    if g.p(0.4):
        for ps in spec["procs"]:
            if g.p(0.5):
                ps.setdefault("faults", []).append({"at": "op", "n": g.i(1, 150), "kind": "stall", "x": g.u(0.05, 3)})
    if g.p(0.3):
        spec["procs"].append({"name": "a9", "phase": 2, "start": 0.0, "prog": [op(SA, "A", max_evaluations_total=7)]})
    if g.p(0.2):
        for ps in spec["procs"][:-1]:
            if g.p(0.4):
                ps.setdefault("faults", []).append(g.crash(0.3))
    return spec


def gen_c08(g):
    spec = g.base()
    M = g.i(3, 8)
    kw = {"max_evaluations_total": M, "post_run_summary": False, "searcher": "random_search"}
    spec["space"] = g.pick("f1", "mix", "prior")
    g.tri(spec, kw, 0.45)
    spec["pipe"]["perturb"] = g.p(0.7)
    if g.p(0.3):
        spec["pipe"]["err"] = 0.3
        kw["ignore_errors"] = True
    same = 77 + g.i(0, 5)
    if g.p(0.5):
        kw["continue_until_max_evaluation_completed"] = True
    n = g.i(1, 4)
    if g.p(0.5):
        # established by one worker, continued by others that have other random states
        est = {"name": "est", "start": 0.0, "rng_seed": same, "prog": [
            {"op": "run", "root": "r", "kw": {**kw, "max_evaluations_per_run": g.i(1, 2)}}]}
        spec["procs"] = [est] + g.workers(n, "r", kw)
        for i, ps in enumerate(spec["procs"][1:]):
            ps["phase"] = 1
            ps["rng_seed"] = same + 5 + i
            if g.p(0.4):
                ps["prog"][0]["kw"]["max_evaluations_per_run"] = g.i(1, 3)
        if g.p(0.5):
            spec["procs"] += [{**ps, "name": "z" + ps["name"], "phase": 2, "prog": [{"op": "run", "root": "r", "kw": dict(kw)}]}
                              for ps in spec["procs"][1:2]]
        victims = spec["procs"][1:]
    else:
        spec["procs"] = g.workers(n, "r", kw)
        for ps in spec["procs"]:
            ps["rng_seed"] = same
        victims = spec["procs"]
    if g.p(0.4):
        for ps in victims:
            if g.p(0.6):
                ps.setdefault("faults", []).append(g.crash(0.1))
                if g.p(0.6):
                    g.restart(ps)
                    ps["restart"]["faults"] = [[g.crash(0.1)] if g.p(0.4) else []]
        # without 'est' any of them may be the one that establishes the run (the others may die before)
        late = same if victims is spec["procs"] else same + 99
        spec["procs"].append({"name": "fin", "phase": 3, "start": 0.0, "rng_seed": late, "prog": [
            {"op": "run", "root": "r", "kw": {**kw, "max_evaluations_total": M + 2}}]})
    spec["ref"] = {"r": [_model(kw["searcher"], same, 24)]}
    return spec


def gen_c09(g):
    spec = g.base()
    M = g.i(3, 7)
    kw = {"max_evaluations_total": M, "post_run_summary": False}
    spec["pipe"]["err"] = g.pick(0.1, 0.25, 0.5, 0.9)
    n = g.i(1, 4)
    mode = g.i(0, 5)
    if mode <= 2:
        g.searcher(spec, kw, mf=0.1)
        kw["ignore_errors"] = mode == 0
        if g.p(0.4):
            kw["loss_value_on_error"], kw["cost_value_on_error"] = 5.0, 0.5
        if mode != 0 and g.p(0.3):
            kw.pop("max_evaluations_total")
            kw["max_evaluations_per_run"] = g.i(2, 4)
        if mode == 0 and kw["searcher"] != "random_search":
            pass
        spec["procs"] = g.workers(n, "r", kw)
        if mode != 0 and g.p(0.6):
            late = g.workers(1, "r", {**kw, "max_evaluations_total": M + 3}, name="late")
            late[0]["phase"] = 1
            spec["procs"] += late
    else:
        pol = g.pick("raise_worker_error", "stop_worker_error", "raise_any_error", "stop_any_error", "ignore")
        d = {"loss_value_on_error": 7.0, "cost_value_on_error": 1.0} if g.p(0.4) else {}
        spec["procs"] = g.workers(n, "r", {"on_error": pol, "max_evaluations_total": M}, op="worker", defaults=d)
        for ps in spec["procs"]:
            ps["prog"][0]["wid"] = "W" + ps["name"]
    if g.p(0.35):
        for ps in spec["procs"]:
            if g.p(0.3):
                ps.setdefault("faults", []).append(g.stall())
    return spec


def gen_c10(g):
    if g.p(0.2):
        return general(g)
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, 6), "post_run_summary": False}
    g.searcher(spec, kw, mf=0.3)
    spec["pipe"]["dur"] = g.pick((0.0, 0.1), (0.2, 1.5), (0.5, 4.0))
    _errs(g, spec, kw, 0.3)
    if g.p(0.5):
        kw["continue_until_max_evaluation_completed"] = True
    spec["procs"] = g.workers(g.i(1, 4), "r", kw)
    if g.p(0.25) and kw["searcher"] == "random_search":
        for ps in spec["procs"]:
            ps["prog"][0].update(op="worker", wid="W" + ps["name"], kw={"max_evaluations_total": kw["max_evaluations_total"]})
    if g.p(0.7):
        g.mild(spec, p_crash=0.4, p_clock=0.3, p_skew=0.15)
        late = g.workers(1, "r", kw, name="late")
        late[0]["phase"] = 1
        if spec["procs"][0]["prog"][0]["op"] == "worker":
            late[0]["prog"][0].update(op="worker", wid="Wlate", kw={"max_evaluations_total": kw["max_evaluations_total"]})
        spec["procs"] += late
    spec["procs"] += [{"name": f"obs{k}", "start": g.u(0, 0.5), "prog": [
        {"op": "snap", "root": "r", "n": g.i(4, 10), "gap": g.pick(0.02, 0.1, 0.5, 1.0), "gap0": True}]}
        for k in range(g.i(1, 2))]
    return spec


def gen_c11(g):
    spec = g.base()
    spec["dt"] = 0.0005
    spec["procs"] = [{"name": "setup", "start": 0.0, "prog": [{"op": "call", "fn": "c11_setup", "root": "r"}]}]
    n = g.i(2, 5)
    faulty = g.p(0.5)
    pool = ["opt", "err"] if faulty else ["opt", "err", "seed", "trial"]
    res = g.r.sample(pool, g.i(1, 2))
    if not faulty and g.p(0.3):
        res = ["trial"]
    if not faulty and g.p(0.2):
        res = ["seed"]
    for c in range(n):
        ops = []
        for _ in range(g.i(2, 7)):
            k = g.pick("read", "rmw", "rmw", "rmw", "put", "put", "load", "abort", "claim", "claim")
            x = g.r.choice(res)
            if k == "claim" and (faulty or x == "seed"):
                k = "put"
            ops.append([k, x, g.pick(0, 0, 0.01, 0.1, 0.5)])
        ps = {"name": f"c{c}", "phase": 1, "start": g.pick(0.0, 0.0, g.u(0, 0.2)),
              "prog": [{"op": "call", "fn": "c11_client", "root": "r", "res": sorted(set(o[1] for o in ops)), "ops": ops,
                        "base": 1 + c * 30}]}
        if faulty and g.p(0.6):
            ps["faults"] = [{"at": "mop", "n": g.i(25, 90), "kind": g.pick("crash", "torn"), "x": g.pick(0.0, 0.5, 0.9)}
                            if g.p(0.65) else
                            {"at": "mop", "n": g.i(25, 90), "kind": g.pick("ENOSPC", "EIO", "short"), "x": g.pick(0.0, 0.5)}]
        elif g.p(0.3):
            ps["faults"] = [g.stall(5.0)]
        spec["procs"].append(ps)
    spec["procs"].append({"name": "end", "phase": 2, "start": 0.0, "prog": [{"op": "call", "fn": "c11_final", "root": "r"}]})
    return spec


def gen_c12(g):
    spec = g.base(fair=0.5)
    spec["dt"] = g.pick(0.0002, 0.001)
    n = g.i(2, 5)
    locks = ["L0"] if g.p(0.7) else ["L0", "L1"]
    for c in range(n):
        ops = []
        for _ in range(g.i(1, 5)):
            k = g.pick("lock", "lock", "lock", "lock", "csv", "nb", "probe")
            o = {"kind": k, "lock": g.r.choice(locks), "poll": g.pick(0.05, 0.2, 1.0),
                 "timeout": g.pick(1.0, 3.0, 6.0, 20.0, 120.0), "hold": g.pick(0, 0.02, 0.5, 2.0, 9.0),
                 "gap": g.pick(0, 0, 0.1, 1.0, 7.0)}
            if g.p(0.1):
                o["timeout"] = None
            if g.p(0.15):
                o["exc"] = g.pick("value", "int", "lock")
            ops.append(o)
        ps = {"name": f"c{c}", "start": g.pick(0.0, 0.0, g.u(0, 1.0)), "prog": [{"op": "call", "fn": "c12_client", "ops": ops}]}
        if g.p(0.35):
            ps["kill_at"] = g.u(0, 12)
        elif g.p(0.2):
            ps["faults"] = [{"at": "op", "n": g.i(1, 80), "kind": "crash"}]
        elif g.p(0.25):
            ps["faults"] = [{"at": "op", "n": g.i(1, 80), "kind": "clock", "x": g.pick(-100.0, -1.0, 2.0, 500.0)}]
        elif g.p(0.2):
            ps["faults"] = [{"at": "op", "n": g.i(1, 80), "kind": "stall", "x": g.u(0.1, 6.0)}]
        spec["procs"].append(ps)
    return spec


def gen_c13(g):
    spec = g.base()
    kw = {"post_run_summary": False}
    g.searcher(spec, kw, mf=0.2)
    k = g.i(1, 4)
    n = g.i(1, 3)
    pre_kw = {**kw, "max_evaluations_total": 30}
    for i in range(k):
        ps = {"name": f"pre{i}", "start": 0.0 if g.p(0.4) else g.u(0, 2.0), "prog": [{"op": "run", "root": "r", "kw": pre_kw}]}
        if g.p(0.8):
            # die after having sampled, around the claim
            ps["faults"] = [{"at": "match", "op": g.pick("*mut", "*mut", "flock", "write", "stat", "close"),
                             "path": g.pick(CONFIGS, CONFIGS, ".seed_state", ".optimizer_state"),
                             "kind": "crash", "n": g.i(1, 60)}]
        else:
            ps["kill_at"] = g.u(0.05, 4.0)
        if g.p(0.5):
            ps["faults"] = ps.get("faults", []) + [{"at": "op", "n": g.i(150, 700), "kind": "stall", "x": g.u(0.1, 3)}]
        ps["faults"] = ps.get("faults", []) + [{"at": "op", "n": 2500, "kind": "crash"}]
        spec["procs"].append(ps)
    if kw["searcher"] == "random_search" and g.p(0.4):
        # many pending trials, asked for ahead of time (ids beyond 9, several askers, some of them killed)
        spec["procs"] = [{"name": "est", "start": 0.0, "prog": [{"op": "run", "root": "r", "kw": {**kw, "max_evaluations_per_run": g.i(1, 3)}}]}]
        for i in range(g.i(1, 3)):
            ps = {"name": f"ask{i}", "phase": 1, "start": g.u(0, 0.3), "prog": [
                {"op": "call", "fn": "presample", "root": "r", "n": g.i(3, 12), "gap": g.pick(0, 0, 0.01, 1.0), "wid": f"a{i}"}]}
            if g.p(0.3):
                ps["faults"] = [g.crash(0.0)]
            if g.p(0.2):
                ps["skew"] = g.u(0, 3)
            spec["procs"].append(ps)
        n = g.i(1, 3)
    spec["procs"].append({"name": "between", "phase": 2, "start": 0.0, "prog": [
        {"op": "snap", "root": "r", "n": 1}, {"op": "call", "fn": "pending", "root": "r", "n": g.i(1, 30)}]})
    for i in range(n):
        spec["procs"].append({"name": f"w{i}", "phase": 3, "start": g.u(0, 0.3) if n > 1 else 0.0, "prog": [
            {"op": "run", "root": "r", "kw": {**kw, "max_evaluations_per_run": g.i(2, 6) if g.p(0.8) else 20}}]})
    return spec


def gen_c14(g):
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, 7), "post_run_summary": g.p(0.3)}
    g.searcher(spec, kw, mf=0.2)
    spec["pipe"]["form"] = g.pick("cost", "mixed")
    spec["pipe"]["special"] = kw["searcher"] == "random_search" and g.p(0.3)
    _errs(g, spec, kw, 0.4)
    kw["continue_until_max_evaluation_completed"] = g.p(0.5)
    spec["procs"] = g.workers(g.i(1, 3), "r", kw)
    if g.p(0.4):
        g.mild(spec, p_crash=0.5)
    ph = presampled(g, spec, kw, 0.25)
    spec["procs"] += [{"name": f"obs{k}", "phase": ph, "start": g.u(0.0, 1.0), "prog": [
        {"op": "status", "root": "r", "n": g.i(3, 8), "gap": g.pick(0.0, 0.05, 0.4, 1.5), "gap0": True}]}
        for k in range(g.i(1, 3))]
    return spec


def gen_c15(g):
    spec = g.base()
    kw = {"max_evaluations_total": g.i(1, 6), "post_run_summary": True}
    g.searcher(spec, kw, mf=0.2)
    spec["pipe"]["form"] = g.pick("cost", "mixed", "mixed")
    spec["pipe"]["special"] = kw["searcher"] == "random_search" and g.p(0.3)
    if g.p(0.5):
        spec["pipe"]["err"] = g.pick(0.3, 0.6, 1.0)
        kw["ignore_errors"] = True
    kw["continue_until_max_evaluation_completed"] = g.p(0.4)
    spec["procs"] = g.workers(g.i(1, 4), "r", kw)
    if g.p(0.3):
        for ps in spec["procs"]:
            ps["prog"][0]["kw"]["max_evaluations_per_run"] = g.i(1, 3)
    for ps in spec["procs"]:
        if g.p(0.3):
            ps.setdefault("faults", []).append({"at": "match", "op": g.pick("*mut", "*", "flock", "write"), "path": g.pick("summary_csv", "configs"),
                                                "n": g.i(1, 8) if g.p(0.5) else g.i(1, 200), "kind": "stall", "x": g.u(0.05, 4.0)})
    return spec


def _mf_spec(g, err=0.0):
    spec = g.base()
    spec["space"] = g.pick("mf", "mf4", "mff")
    s = g.pick("asha", "asha", "successive_halving", "hyperband")
    eta = g.pick(2, 3, 3) if spec["space"] != "mff" else 3
    kw = {"searcher": s, "eta": eta, "post_run_summary": False}
    spec["eta"] = eta
    if s == "asha":
        spec["mf_rule"] = "asha"
    spec["pipe"]["fid_scale"] = g.p(0.5)
    spec["pipe"]["dur_fid"] = g.p(0.4)
    if spec["pipe"]["dur_fid"]:
        spec["pipe"]["dur"] = g.pick((0, 0.05), (0.05, 0.5))
    return spec, kw


def gen_c16(g):
    spec, kw = _mf_spec(g)
    kw["max_evaluations_total"] = g.i(6, 14)
    kw["continue_until_max_evaluation_completed"] = g.p(0.5)
    if g.p(0.3):
        spec["pipe"]["err"] = g.pick(0.15, 0.4)
        kw["ignore_errors"] = True
        if g.p(0.5):
            kw["loss_value_on_error"], kw["cost_value_on_error"] = 50.0, 1.0
    spec["procs"] = g.workers(g.i(1, 4) if g.p(0.7) else g.i(4, 6), "r", kw)
    if kw["searcher"] == "asha" and g.p(0.35):
        # many results accumulate at the lowest level before anybody may promote
        kw["max_evaluations_total"] = g.i(10, 20)
        presampled(g, spec, kw, 1.0)
    elif g.p(0.5):
        g.mild(spec, p_crash=0.4, p_clock=0.0, p_skew=0.0)
        late = g.workers(1, "r", kw, name="late")
        late[0]["phase"] = 1
        spec["procs"] += late
    return spec


def gen_c17(g):
    spec, kw = _mf_spec(g)
    spec["pipe"].update(ckpt=True, user_files=True, probe_global=g.p(0.5), ckpt_skip=g.p(0.5), ckpt_nn=g.pick(0, 0, 0, 1, 2))
    kw["max_evaluations_total"] = g.i(5, 10) if g.p(0.7) else g.i(10, 18)
    n = g.i(1, 3)
    if g.p(0.4):
        # several searches one after the other in one process
        kw1 = {**kw, "max_evaluations_total": g.i(4, 8)}
        for i in range(n):
            prog = [{"op": "run", "root": rt, "kw": kw1, "cont": True} for rt in g.r.sample(["r", "s", "t"], g.i(2, 3))]
            spec["procs"].append({"name": f"w{i}", "start": g.u(0, 0.3), "prog": prog})
    else:
        spec["procs"] = g.workers(n, "r", kw)
        if g.p(0.4):
            g.mild(spec, p_crash=0.5, p_clock=0)
            late = g.workers(1, "r", kw, name="late")
            late[0]["phase"] = 1
            spec["procs"] += late
    return spec


def gen_c18(g):
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, 6), "post_run_summary": g.p(0.2), "continue_until_max_evaluation_completed": True}
    g.searcher(spec, kw, mf=0.2)
    spec["pipe"]["form"] = g.pick("cost", "mixed")
    _errs(g, spec, kw, 0.3)
    spec["procs"] = g.workers(g.i(2, 4), "r", kw)
    hit = False
    for ps in spec["procs"]:
        if g.p(0.6) or not hit:
            hit = True
            ps["faults"] = [g.ioerr() for _ in range(g.i(1, 2))]
            if g.p(0.4):
                # a disk that stays full for a while
                f = ps["faults"][0]
                if f["at"] == "mop":
                    ps["faults"] += [{**f, "n": f["n"] + d} for d in range(1, g.i(2, 12))]
            ps["prog"][0]["may_raise"] = True
    if g.p(0.4):
        for ps in spec["procs"]:
            if g.p(0.3):
                ps.setdefault("faults", []).append(g.stall())
    if g.p(0.5):
        # workers whose disk fails while they join a search that exists
        for ps in spec["procs"]:
            if g.p(0.5):
                ps["prog"][0]["kw"] = {**kw, "max_evaluations_per_run": g.i(1, 2)}
        joins = g.workers(g.i(1, 2), "r", kw, name="join")
        for ps in joins:
            ps["phase"] = 1
            ps["prog"][0]["may_raise"] = True
            ps["faults"] = [g.ioerr(0.6) if g.p(0.4) else
                            {"at": "match", "op": g.pick("open:r", "open:r", "read", "stat", "open", "write"),
                             "path": g.pick(".optimizer_state", ".seed_state", ".errors", ".optimizer_info", ".version", CONFIGS),
                             "n": g.i(1, 5), "kind": g.pick("EIO", "EMFILE"), "x": 0.0}]
            if g.p(0.3):
                f = ps["faults"][0]
                ps["faults"] += [{**f, "n": f["n"] + d} for d in range(1, g.i(2, 6))]
        spec["procs"] += joins
    late = g.workers(g.i(1, 2), "r", kw, name="late")
    for ps in late:
        ps["phase"] = 2
    spec["procs"] += late
    return spec


def gen_c19(g):
    spec = g.base()
    mf = g.p(0.5)
    spec["space"] = "mf" if mf else "f1"
    kw = {"searcher": "asha", "eta": 3} if mf else {"searcher": "random_search"}
    spec["eta"] = 3
    kw["post_run_summary"] = g.p(0.3)
    same = 501 + g.seed % 1000
    prog = []
    roots = ["r", "s", "t", "u"]
    ref = {}
    for k in range(g.i(2, 4)):
        end = g.pick("ok", "err", "bad", "interrupt", "interrupt") if k < 3 else "ok"
        n = g.i(2, 5)
        rk = {**kw, "max_evaluations_per_run": n}
        o = {"op": "run", "root": roots[k], "kw": rk, "cont": True,
             "pipe": {"ckpt": g.p(0.6), "probe_global": True, "perturb": g.p(0.3), "dur": (0, 0.2), "salt": k}}
        ids = [f"{x}_0" for x in range(3)] if mf else [str(x) for x in range(1, 4)]
        if end == "err":
            o["pipe"]["err_ids"] = [g.r.choice(ids[:n])]
            o["may_raise"] = True
        elif end == "bad":
            o["pipe"]["bad"] = {g.r.choice(ids[: min(n, 2)]): g.pick("none", "noloss", "str", "obj")}
            o["may_raise"] = True
        elif end == "interrupt":
            o["pipe"]["intr"] = g.r.choice(ids[: min(n, 2)])
            o["may_raise"] = True
        else:
            o["expect"] = "ok"
        prog.append(o)
    # afterwards: a clean search in the same process, on a new or an already used directory
    fin = {"op": "run", "root": "z", "kw": {**kw, "max_evaluations_per_run": g.i(2, 5)}, "cont": True, "expect": "ok",
           "pipe": {"ckpt": True, "probe_global": True, "dur": (0, 0.2), "salt": 9}}
    prog.append(fin)
    if g.p(0.4):
        prev = g.r.choice([o for o in prog[:-1]])
        if "err_ids" not in prev["pipe"]:
            prog.append({"op": "run", "root": prev["root"], "kw": {**kw, "max_evaluations_per_run": 2}, "cont": True, "expect": "ok",
                         "pipe": {"ckpt": prev["pipe"]["ckpt"], "probe_global": True, "dur": (0, 0.2), "salt": 11}})
    spec["procs"] = [{"name": "w0", "start": 0.0, "rng_seed": same, "prog": prog}]
    if g.p(0.4):
        spec["procs"].append({"name": "w1", "start": g.u(0, 1), "prog": [dict(fin, expect=None, may_raise=False)]})
    # what a fresh process does with the random state the last search started from is checked through 'reseed'
    if len(spec["procs"]) == 1:
        fin["reseed"] = same
        rk = {**kw, "max_evaluations_per_run": fin["kw"]["max_evaluations_per_run"] + 3, "post_run_summary": False}
        spec["ref"] = {"z": [{"want": "order", "procs": [{"name": "w0", "start": 0.0, "rng_seed": same, "prog": [
            {"op": "run", "root": "z", "kw": rk, "reseed": same, "pipe": dict(fin["pipe"])}]}]}]}
    return spec


def gen_c20(g):
    if g.p(0.25):
        return general(g)
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, 8), "post_run_summary": False}
    g.searcher(spec, kw, mf=0.3, p_grid=0.35)
    if kw["searcher"] == "@grid":
        kw["max_evaluations_total"] = 6
        kw["continue_until_max_evaluation_completed"] = False
        if spec["space"] == "grid2":
            kw["grid_step_size"] = 3
        spec["pipe"]["dur"] = g.pick((0.0, 0.0), (0.0, 0.3), (0.2, 2.0))
        _errs(g, spec, kw, 0.35)
        spec["procs"] = g.workers(g.i(1, 4), "r", kw)
        spec["grid"] = True
        for ps in spec["procs"]:
            ps["prog"][0]["may_raise"] = True
        if g.p(0.3):
            for ps in spec["procs"]:
                if g.p(0.5):
                    ps.setdefault("faults", []).append(g.stall())
        if g.p(0.3):
            for ps in spec["procs"]:
                ps["prog"][0]["kw"]["max_evaluations_per_run"] = g.i(1, 3)
            late = g.workers(1, "r", kw, name="late", may_raise=True)
            late[0]["phase"] = 1
            spec["procs"] += late
        return spec
    _errs(g, spec, kw, 0.3)
    kw["continue_until_max_evaluation_completed"] = g.p(0.5)
    spec["procs"] = g.workers(g.i(1, 5), "r", kw)
    if g.p(0.5):
        g.mild(spec, p_crash=0.4)
    return spec


def gen_c21(g):
    spec = g.base()
    spec["pipe"]["dur"] = g.pick((0.2, 1.0), (0.5, 3.0), (1.0, 10.0))
    wk = {}
    k = g.i(0, 3)
    if k == 0 or g.p(0.2):
        wk["max_wallclock_time_for_worker_seconds"] = g.pick(2.0, 6.0, 15.0)
    if k == 1 or g.p(0.2):
        wk["max_evaluation_time_for_worker_seconds"] = g.pick(2.0, 5.0)
    if k >= 2:
        wk["max_evaluation_time_total_seconds"] = g.pick(4.0, 10.0)
    if not wk:
        wk["max_wallclock_time_for_worker_seconds"] = 5.0
    if g.p(0.2):
        wk["max_evaluations_total"] = g.i(2, 5)
    if g.p(0.3):
        spec["pipe"]["err"] = 0.3
    spec["procs"] = g.workers(g.i(1, 4), "r", wk, op="worker")
    for ps in spec["procs"]:
        ps["prog"][0]["wid"] = "W" + ps["name"]
        for _ in range(g.i(0, 3)):
            ps.setdefault("faults", []).append({**g.pick({"at": "op", "n": g.i(1, 900)},
                                                         {"at": "match", "op": "sleep", "path": "", "n": g.i(1, 20)}), "kind": "clock",
                                                "x": g.pick(-1e5, -3600.0, -20.0, -3.0, 3.0, 20.0, 3600.0, 1e6)})
        if g.p(0.3):
            ps["skew"] = g.pick(-1e4, 50.0, 1e5)
        if g.p(0.2):
            ps["speed"] = g.pick(0.5, 4.0)
    return spec


SEARCHERS = [("random_search", "f1"), ("random_search", "mix"), ("successive_halving", "mf"), ("asha", "mf"), ("hyperband", "mf"),
             ("asha", "mff"), ("hyperband", "mf4"), ("successive_halving", "mff"), ("successive_halving", "mf4"),
             ("asha", "mf4"), ("priorband", "mfp"), ("priorband", "mfp4"), ("asha_prior", "mfp4"), ("mobster", "mf4"),
             ("priorband_bo", "mfp4"),
             ("asha_prior", "mfp"), ("successive_halving_prior", "mfp"), ("bayesian_optimization", "f1"),
             ("pibo", "prior"), ("mobster", "mf"), ("priorband_bo", "mfp")]
HEAVY = ("bayesian_optimization", "pibo", "mobster", "priorband_bo")


def gen_c22(g):
    spec = g.base()
    while True:
        s, space = g.r.choice(SEARCHERS)
        if s not in HEAVY or g.p(0.35):
            break
    spec["space"] = space
    kw = {"searcher": s, "ignore_errors": True, "continue_until_max_evaluation_completed": True, "post_run_summary": False}
    heavy = s in HEAVY
    kw["max_evaluations_total"] = g.i(4, 6) if heavy else g.i(6, 16)
    if s in ("bayesian_optimization", "pibo"):
        kw["initial_design_size"] = g.i(2, 3)
    spec["eta"] = 3
    spec["pipe"]["err"] = g.pick(0.0, 0.2, 0.5, 0.9)
    if g.p(0.4):
        kw["loss_value_on_error"], kw["cost_value_on_error"] = g.pick(10.0, 1.0), 1.0
    if g.p(0.3):
        spec["pipe"]["form"] = "mixed"
    if s not in ("random_search", "bayesian_optimization", "pibo") and g.p(0.3):
        kw["eta"] = spec["eta"] = 2
    # many workers: nothing but running trials for a while
    spec["procs"] = g.workers(g.i(1, 3) if heavy or g.p(0.6) else g.i(4, 6), "r", kw)
    if g.p(0.6):
        pre = g.workers(g.i(1, 2), "r", kw, name="pre")
        for ps in pre:
            ps["faults"] = [g.crash(0.05)]
        spec["procs"] += pre
    if g.p(0.3):
        for ps in spec["procs"]:
            if g.p(0.4):
                ps.setdefault("faults", []).append(g.stall())
    return spec


def gen_c23(g):
    spec = g.base()
    spec["sched"] = {"kind": "none"}
    k = g.i(0, 4)
    kw = {"post_run_summary": g.p(0.2)}
    if k == 0:
        spec["space"] = g.pick("f1", "mix", "prior")
        kw["searcher"] = "random_search"
        g.tri(spec, kw, 0.5)
    elif k == 1:
        spec["space"] = g.pick("grid", "grid2")
        kw["searcher"] = "@grid"
        if spec["space"] == "grid2":
            kw["grid_step_size"] = 3
    else:
        spec["space"] = g.pick("mf", "mf4", "mff")
        kw["searcher"] = g.pick(*MF)
        kw["eta"] = 3 if spec["space"] == "mff" else g.pick(2, 3)
    spec["pipe"]["perturb"] = g.p(0.5)
    spec["pipe"]["fid_scale"] = g.p(0.5)
    if g.p(0.3):
        spec["pipe"]["err"] = g.pick(0.2, 0.5)
        kw["ignore_errors"] = True
    spec["pipe"]["form"] = g.pick("cost", "mixed")
    total = 6 if kw["searcher"] == "@grid" else g.i(4, 14)
    same = 900 + g.seed % 1000
    cuts = []
    left = total
    while left > 0:
        c = min(left, g.i(1, 4))
        cuts.append(c)
        left -= c
    for i, c in enumerate(cuts):
        rk = {**kw, "max_evaluations_per_run": c}
        o = {"op": "run", "root": "r", "kw": rk}
        if i and g.p(0.4):  # sometimes the same process calls run again
            spec["procs"][-1]["prog"].append(o)
        else:
            spec["procs"].append({"name": f"w{i}", "start": 0.0, "phase": i, "rng_seed": same + (i if i else 0), "prog": [o]})
    ps0 = spec["procs"][0]
    for ps in spec["procs"]:
        if g.p(0.3):
            ps["faults"] = [g.stall()]
        if g.p(0.2):
            # never makes the wall clock run backwards across workers
            ps["skew"] = 0.0
    nk = {**kw, "max_evaluations_per_run": total, "post_run_summary": False}
    spec["ref"] = {"r": [{"procs": _solo(nk, same), "want": "trace"}]}
    return spec


def presampled(g, spec, kw, p):
    """With probability p, somebody asks for configurations ahead of time: the run is first
    established, then pending trials accumulate next to the workers. Returns the phase the
    workers live in."""
    if kw["searcher"] not in ("random_search", "asha") or not g.p(p):
        return 0
    for ps in spec["procs"]:
        ps["phase"] = 1
    spec["procs"].insert(0, {"name": "est", "start": 0.0, "prog": [
        {"op": "run", "root": "r", "kw": {**kw, "max_evaluations_per_run": g.i(1, 2)}}]})
    for i in range(g.i(1, 2)):
        ps = {"name": f"ask{i}", "phase": 1, "start": g.u(0, 0.5), "prog": [
            {"op": "call", "fn": "presample", "root": "r", "n": g.i(2, 8), "gap": g.pick(0, 0.01, 0.5), "wid": f"a{i}",
             **({"searcher": "asha", "kw": kw} if kw["searcher"] == "asha" else {})}]}
        if g.p(0.3):
            ps["faults"] = [g.crash(0.0)]
        spec["procs"].append(ps)
    return 1


def cli_cmds(g, n):
    out = []
    for _ in range(n):
        k = g.i(0, 9)
        if k < 4:
            out.append(["status", *([g.pick("--pending", "--evaluating", "--succeeded")] if g.p(0.5) else [])])
        elif k < 5:
            out.append(["results"])
        elif k < 6:
            out.append(["errors"])
        elif k < 8:
            out.append(["info-config", str(g.i(0, 3))])
        else:
            out.append(["py", *[x for x in ("best_losses", "best_configs", "all_configs") if g.p(0.3)]])
    return out


def gen_c26(g):
    spec = g.base()
    kw = {"max_evaluations_total": g.i(2, 12), "post_run_summary": g.p(0.2)}
    g.searcher(spec, kw, mf=0.35)
    if spec["space"] == "odd":
        spec["space"] = "mix"  # the printed form of odd values is not meant to be parsed
    spec["pipe"]["form"] = g.pick("cost", "mixed")
    spec["pipe"]["special"] = kw["searcher"] == "random_search" and g.p(0.3)
    _errs(g, spec, kw, 0.5)
    kw["continue_until_max_evaluation_completed"] = g.p(0.5)
    spec["procs"] = g.workers(g.i(1, 3), "r", kw)
    if g.p(0.4):
        g.mild(spec, p_crash=0.5)
    ph = presampled(g, spec, kw, 0.25)
    spec["procs"] += [{"name": f"cli{k}", "start": g.u(0.0, 1.0), "prog": [
        {"op": "cli", "root": "r", "cmds": cli_cmds(g, g.i(3, 8)), "gap": g.pick(0.0, 0.05, 0.4, 1.5), "gap0": g.p(0.8)}],
        "phase": ph} for k in range(g.i(1, 2))]
    # the finished run
    spec["procs"].append({"name": "after", "phase": 2, "start": 0.0, "prog": [
        {"op": "cli", "root": "r", "gap": 0.1, "cmds": [["status"], ["results"], ["errors"],
                                                         ["info-config", str(g.i(0, 9))], *cli_cmds(g, 3)]}]})
    return spec


def gen_c28(g):
    spec = g.base()
    spec["space"] = g.pick("f1", "mix", "prior")
    spec["ref"] = {}
    lay = g.i(0, 4)
    n = g.i(2, 3)
    runs = []
    for i in range(n):
        if lay == 0:
            root, ids = f"r{i}", {}
        elif lay == 1:
            root, ids = f"r/task_{i}", {"task_id": i}
        elif lay == 2:
            root, ids = f"r/dev_{i}", {"development_stage_id": i}
        elif lay == 3:
            root, ids = (("r", {}), ("r/dev_1", {"development_stage_id": 1}), ("r/task_x", {"task_id": "x"}))[i]
        else:
            root, ids = (("r/task_0/dev_0", {"task_id": 0, "development_stage_id": 0}),
                         ("r/task_0/dev_1", {"task_id": 0, "development_stage_id": 1}),
                         ("r/task_1/dev_0", {"task_id": 1, "development_stage_id": 0}))[i]
        same = 1000 * (i + 1) + g.i(0, 3)
        kw = {"searcher": "random_search", "max_evaluations_total": g.i(2, 6), "post_run_summary": g.p(0.3), **ids}
        kw["continue_until_max_evaluation_completed"] = g.p(0.5)
        pipe = {"salt": i}
        mood = g.pick("calm", "calm", "err", "errok", "crash")
        if mood in ("err", "errok"):
            pipe["err"] = g.pick(0.3, 0.6)
            kw["ignore_errors"] = mood == "errok"
        if g.p(0.2) and not (lay == 3 and i == 0):
            kw["overwrite_working_directory"] = True
        runs.append({"op": "run", "root": root, "base": root.split("/")[0], "kw": kw, "pipe": pipe, "mood": mood, "same": same})
        spec["ref"][root] = [_model("random_search", same, 24)]
    if g.p(0.45):
        # all of them one after the other in one process, some called again
        prog = []
        for o in runs:
            o["mood"] = "calm" if o["mood"] == "crash" else o["mood"]
            prog.append({**o, "reseed": o["same"], "cont": True})
        g.r.shuffle(prog)
        if g.p(0.5):
            o = g.r.choice(runs)
            if not o["kw"].get("overwrite_working_directory") and o["mood"] != "err":
                prog.append({**o, "cont": True, "kw": {**o["kw"], "max_evaluations_total": o["kw"]["max_evaluations_total"] + 2}})
        spec["procs"] = [{"name": "w0", "start": 0.0, "rng_seed": 5, "prog": prog}]
        return spec
    for i, o in enumerate(runs):
        for j in range(1 if o["kw"].get("overwrite_working_directory") else g.i(1, 2)):
            ps = {"name": f"w{i}{j}", "start": g.u(0, 0.5), "rng_seed": o["same"], "prog": [dict(o)]}
            if o["mood"] == "crash":
                ps.setdefault("faults", []).append(g.crash(0.3))
                if g.p(0.4) and not o["kw"].get("overwrite_working_directory"):
                    g.restart(ps)
            if g.p(0.3):
                ps.setdefault("faults", []).append(g.stall())
            spec["procs"].append(ps)
    if g.p(0.3):
        spec["procs"] += [{**ps, "phase": 0} for ps in g.observers(g.r.choice(runs)["root"])]
    return spec


def gen_c27(g):
    spec = g.base()
    mf = g.p(0.5)
    spec["space"] = g.pick("mf", "mf4") if mf else g.pick("f1", "mix")
    spec["eta"] = 3
    kw = {"searcher": g.pick(*MF), "eta": 3} if mf else {"searcher": "random_search"}
    kw["post_run_summary"] = g.p(0.2)

    def tb():
        return {"epochs": g.i(1, 3), "hparam": g.p(0.7), "inc": g.p(0.6), "extra": g.p(0.4), "gap": g.pick(0, 0, 0.1)}

    spec["pipe"].update(tb=tb(), dur=g.pick((0, 0), (0, 0.3), (0.5, 2.0)))
    cb = lambda: "user" if g.p(0.5) else None
    if g.p(0.5):
        # one search, several workers, late joiners
        kw["max_evaluations_total"] = g.i(3, 10)
        _errs(g, spec, kw, 0.4)
        spec["procs"] = g.workers(g.i(1, 3), "r", kw, cb=cb())
        if g.p(0.5):
            g.mild(spec, p_crash=0.5)
        if g.p(0.4):
            late = g.workers(1, "r", {**kw, "max_evaluations_total": kw["max_evaluations_total"] + 2}, name="late", cb=cb())
            late[0]["phase"] = 1
            spec["procs"] += late
        return spec
    # several searches one after the other in one process, ending in all the ways they can
    for j in range(g.i(1, 2)):
        prog = []
        for k in range(g.i(2, 4)):
            n = g.i(1, 4)
            o = {"op": "run", "root": ["r", "s", "t", "u"][k] + str(j), "cont": True,
                 "kw": {**kw, "max_evaluations_per_run": n}, "cb": cb(),
                 "pipe": {"salt": k, "tb": tb() if g.p(0.75) else None, "ckpt": g.p(0.2)}}
            end = g.pick("ok", "ok", "err", "errok", "bad", "interrupt")
            ids = [f"{x}_0" for x in range(3)] if mf else [str(x) for x in range(1, 4)]
            if end in ("err", "errok"):
                o["pipe"]["err_ids"] = [g.r.choice(ids[:n])]
                if end == "errok":
                    o["kw"]["ignore_errors"] = True
                    o["kw"]["loss_value_on_error"] = 50.0
                    o["kw"]["cost_value_on_error"] = 1.0
            elif end == "bad":
                o["pipe"]["bad"] = {g.r.choice(ids[: min(n, 2)]): g.pick("none", "noloss", "str", "obj")}
            elif end == "interrupt":
                o["pipe"]["intr"] = g.r.choice(ids[: min(n, 2)])
            if end in ("ok", "errok"):
                o["expect"] = "ok"
            if g.p(0.12):
                prog.append({"op": "tb", "root": None, "on": g.p(0.4)})
            prog.append(o)
            if g.p(0.2):
                prog.append({"op": "rmtree", "root": o["root"]})
        spec["procs"].append({"name": f"w{j}", "start": g.u(0, 0.5), "prog": prog})
    return spec


GEN = {n[4:].upper(): f for n, f in list(globals().items()) if n.startswith("gen_c")}


def _widen(g, prop, spec):
    """Long evaluations, long pauses between generations of workers."""
    if prop not in ("C11", "C12", "C21") and g.p(0.15):
        spec["pipe"]["dur"] = g.pick((0.0, 5e3), (100.0, 1e5), (0.0, 600.0))
        for ps in spec["procs"]:
            if ps.get("kill_at") is not None:
                ps["kill_at"] = round(ps["kill_at"] * g.pick(1, 10, 1e3, 1e4), 4)
    if prop not in ("C11", "C12") and g.p(0.15):
        gap = g.pick(100.0, 4e3, 1e5, 3e6)
        for ps in spec["procs"]:
            if ps.get("phase", 0):
                ps["start"] = round(ps.get("start", 0.0) + gap, 4)
                if ps.get("kill_at") is not None:
                    ps["kill_at"] = round(ps["kill_at"] + gap, 4)


def gen(prop, seed):
    g = G(prop, seed)
    spec = GEN[prop](g)
    _widen(g, prop, spec)
    return spec
