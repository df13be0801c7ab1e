"""Workloads and oracles below the worker level: the shared-record layer (C11) and the
file locks (C12), driven directly by several simulated client processes."""
from __future__ import annotations

import random
import time
from pathlib import Path

from .core import h64


# --------------------------------------------------------------------------- C11
def _load(w, root):
    from neps.state.filebased import load_filebased_neps_state

    return load_filebased_neps_state(Path(w.root_path(root)))


def op_c11_setup(w, op):
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
    from neps.state.trial import Trial

    st = create_or_load_filebased_neps_state(
        directory=Path(w.root_path(op["root"])), optimizer_info=OptimizerInfo({"name": "x"}),
        optimizer_state=OptimizationState(
            budget=BudgetInfo(max_cost_budget=0, used_cost_budget=0, max_evaluations=1, used_evaluations=0),
            shared_state={"tags": ["0"]}))
    st._trials.put_new(Trial.new(trial_id="1_0", config={"x": 0.5}, location="", previous_trial=None,
                                 previous_trial_location=None, time_sampled=1.0, worker_id="s"))
    with st._seed_state.acquire() as (v, put):
        put(_seed_value(0))


def _seed_value(tag):
    """A snapshot all of whose parts are derived from one number."""
    import numpy as np
    import torch

    from neps.state.seed_snapshot import SeedSnapshot

    s = SeedSnapshot.new_capture()
    st = np.random.RandomState(tag).get_state(legacy=True)
    s.np_rng = (st[0], st[1].copy(), st[2], st[3], st[4])
    s.py_rng = random.Random(tag).getstate()
    g = torch.Generator()
    g.manual_seed(tag)
    s.torch_rng = g.get_state().clone()
    return s


_PYCACHE = {}


def _seed_tags(w, snap):
    """Which tag each part of a snapshot belongs to."""
    import numpy as np
    import torch

    if not _PYCACHE:
        for t in range(200):
            g = torch.Generator()
            g.manual_seed(t)
            _PYCACHE["p", random.Random(t).getstate()[1]] = t
            _PYCACHE["n", np.random.RandomState(t).get_state()[1].tobytes()] = t
            _PYCACHE["t", g.get_state().numpy().tobytes()] = t
    return (_PYCACHE.get(("p", tuple(snap.py_rng[1])), "?"),
            _PYCACHE.get(("n", np.asarray(snap.np_rng[1], dtype=np.uint32).tobytes()), "?"),
            _PYCACHE.get(("t", snap.torch_rng.numpy().tobytes()), "?") if snap.torch_rng is not None else "?")


def _synced(st, res):
    return {"opt": lambda: st._optimizer_state, "err": lambda: st._shared_errors,
            "seed": lambda: st._seed_state, "trial": lambda: st._trials.get_by_id("1_0")}[res]()


def _decode(w, res, v):
    """-> list of tags (oldest first), or a string describing a torn value."""
    if res == "opt":
        t = list(v.shared_state["tags"])
        if v.budget is None or v.budget.used_cost_budget != len(t) - 1:
            return f"mixed: budget {v.budget} with tags {t}"
        return t
    if res == "err":
        for e in v.errs:
            if e.err != e.trial_id * 3 or e.worker_id != "w" + e.trial_id:
                return f"mixed: error record {e}"
        return ["0"] + [e.trial_id for e in v.errs]
    if res == "seed":
        a = _seed_tags(w, v)
        if len(set(a)) != 1 or a[0] == "?":
            return f"mixed: random state parts {a}"
        return [str(a[0])]
    m = v.metadata.evaluating_worker_id
    r = v.report
    a = ["0"] if m is None else m.split(",")
    b = ["0"] if r is None else list(r.extra["tags"])
    if a != b or (v.state.value == "pending") != (m is None) or v.config != {"x": 0.5}:
        return f"mixed: metadata {a}, report {b}, state {v.state.value}, config {v.config}"
    return a


def _encode(w, res, old, tags, tag):
    from neps.state.err_dump import ErrDump
    from neps.state.optimizer import BudgetInfo, OptimizationState
    from neps.state.trial import Trial

    new = tags + [tag]
    if res == "opt":
        return OptimizationState(
            budget=BudgetInfo(max_cost_budget=0, used_cost_budget=len(new) - 1, max_evaluations=1, used_evaluations=0),
            shared_state={"tags": new})
    if res == "err":
        return ErrDump([ErrDump.SerializableTrialError(trial_id=t, worker_id="w" + t, err_type="E", err=t * 3, tb=None)
                        for t in new[1:]])
    if res == "seed":
        return _seed_value(int(tag))
    t = Trial.new(trial_id="1_0", config={"x": 0.5}, location=old.metadata.location, previous_trial=None,
                  previous_trial_location=None, time_sampled=1.0, worker_id="s")
    t.set_evaluating(time_started=2.0, worker_id=",".join(new))
    t.report = t.set_complete(report_as="success", time_end=3.0, loss=0.25, cost=None, learning_curve=None,
                              err=None, tb=None, extra={"tags": new}, evaluation_duration=1.0)
    return t


def op_c11_client(w, op):
    """One client process executing read / locked update / unlocked put operations."""
    from neps.exceptions import VersionMismatchError

    sim = w.sim
    st = _load(w, op["root"])
    sy = {r: _synced(st, r) for r in op["res"]}
    known = {r: _decode(w, r, sy[r]._unsynced()) for r in op["res"]}
    vals = {r: sy[r]._unsynced() for r in op["res"]}
    for i, (kind, res, gap) in enumerate(op["ops"]):
        if gap:
            time.sleep(gap)
        s = sy[res]
        tag = str(op["base"] + i)
        inv = sim.log("r_inv", kind=kind, res=res, tag=tag)["seq"]
        try:
            if kind == "read":
                v = s.synced()
                vals[res], known[res] = v, _decode(w, res, v)
                sim.log("r_ret", inv=inv, kind=kind, res=res, out="ok", seen=known[res], tag=None)
            elif kind == "load":
                st2 = _load(w, op["root"])
                v = _synced(st2, res)._unsynced()
                sim.log("r_ret", inv=inv, kind="read", res=res, out="ok", seen=_decode(w, res, v), tag=None)
            elif kind == "rmw":
                with s.acquire() as (v, put):
                    seen = _decode(w, res, v)
                    if isinstance(seen, str):
                        sim.log("r_ret", inv=inv, kind=kind, res=res, out="ok", seen=seen, tag=None)
                        return
                    nv = _encode(w, res, v, seen, tag)
                    if gap and gap < 0.3:
                        time.sleep(gap)
                    put(nv)
                vals[res], known[res] = nv, seen + [tag] if res != "seed" else [tag]
                sim.log("r_ret", inv=inv, kind=kind, res=res, out="ok", seen=seen, tag=tag)
            elif kind == "abort":
                # a locked section left by an exception without writing
                try:
                    with s.acquire() as (v, put):
                        seen = _decode(w, res, v)
                        vals[res], known[res] = v, seen
                        raise KeyError("user")
                except KeyError:
                    sim.log("r_ret", inv=inv, kind="read", res=res, out="ok", seen=seen, tag=None)
            elif kind == "claim":
                # as a worker claims a trial: the object in hand is changed in place and put; everybody who
                # claims the same version writes the same content, exactly one of them may succeed
                seen = known[res]
                if isinstance(seen, str):
                    return
                tag = str(900 + len(seen))
                v = vals[res]
                if res == "opt":
                    v.shared_state["tags"].append(tag)
                    v.budget.used_cost_budget += 1
                elif res == "err":
                    from neps.state.err_dump import ErrDump
                    v.errs.append(ErrDump.SerializableTrialError(trial_id=tag, worker_id="w" + tag, err_type="E", err=tag * 3, tb=None))
                else:
                    v.__dict__.update(_encode(w, res, v, seen, tag).__dict__)
                try:
                    s.put(v)
                except VersionMismatchError:
                    sim.log("r_ret", inv=inv, kind=kind, res=res, out="stale", seen=seen, tag=tag)
                    inv = sim.log("r_inv", kind="read", res=res, tag=str(op["base"] + i))["seq"]
                    v = s.synced()
                    vals[res], known[res] = v, _decode(w, res, v)
                    sim.log("r_ret", inv=inv, kind="read", res=res, out="ok", seen=known[res], tag=None)
                else:
                    known[res] = seen + [tag]
                    sim.log("r_ret", inv=inv, kind=kind, res=res, out="ok", seen=seen, tag=tag)
            else:  # put of a value computed from what was last seen, without holding the lock in between
                seen = known[res]
                if isinstance(seen, str):
                    return
                nv = _encode(w, res, vals[res], seen, tag)
                try:
                    s.put(nv)
                except VersionMismatchError:
                    sim.log("r_ret", inv=inv, kind=kind, res=res, out="stale", seen=seen, tag=tag)
                else:
                    vals[res], known[res] = nv, seen + [tag] if res != "seed" else [tag]
                    sim.log("r_ret", inv=inv, kind=kind, res=res, out="ok", seen=seen, tag=tag)
        except OSError as e:
            if not getattr(sim.cur, "io_faults", 0):
                raise
            sim.log("r_ret", inv=inv, kind=kind, res=res, out="io", seen=None, tag=tag, exc=str(e))
            return


def op_c11_final(w, op):
    st = _load(w, op["root"])
    for res in ("opt", "err", "seed", "trial"):
        w.extra.setdefault("c11_final", {})[res] = _decode(w, res, _synced(st, res).synced())


def c11(H):
    w = H.w
    for e in H.h:
        if e["ev"] == "ret" and e["out"] == "exc":
            p = H.procs[e["p"]]
            if not getattr(p, "io_faults", 0):
                yield (f"exc:{e['chain'][0][0]}", f"{e['p']}: {e['chain'][:2]}\n{e['tb'][-1200:]}")
    if H.aborted:
        yield ("hang", f"run did not end: {H.aborted}")
        return
    final = w.extra.get("c11_final")
    if final is None:
        return
    invs = {e["seq"]: e for e in H.h if e["ev"] == "r_inv"}
    rets = {e["inv"]: e for e in H.h if e["ev"] == "r_ret"}
    for res in ("opt", "err", "seed", "trial"):
        fin = final[res]
        if isinstance(fin, str):
            yield ("torn", f"{res}: final value is {fin}")
            continue
        ops = []
        bad = False
        for s, i in invs.items():
            if i["res"] != res:
                continue
            r = rets.get(s)
            if r is not None and isinstance(r["seen"], str):
                yield ("torn", f"{i['p']} read {res} as {r['seen']}")
                bad = True
            ops.append((i, r))
        if bad:
            continue
        ok = [(i, r) for i, r in ops if r is not None and r["out"] == "ok"]
        upd = [(i, r) for i, r in ok if r["tag"] is not None]
        unk = {i["tag"]: (i, r) for i, r in ops if (r is None or r["out"] == "io") and i["kind"] in ("rmw", "put")}
        if res == "seed":
            nxt = {}
            for i, r in upd:
                if r["seen"][-1] in nxt:
                    yield ("lost-update", f"{res}: {i['p']} and {nxt[r['seen'][-1]][0]['p']} both updated version {r['seen'][-1]}")
                    bad = True
                nxt[r["seen"][-1]] = (i, r)
            if bad:
                continue
            chain = ["0"]
            while chain[-1] in nxt and len(chain) < 500:
                chain.append(nxt[chain[-1]][1]["tag"])
            if chain[-1] != fin[-1]:
                yield ("lost-update", f"{res}: updates form {chain} but the final value is {fin}")
                continue
        else:
            chain = fin
        pos = {t: k for k, t in enumerate(chain)}
        if len(pos) != len(chain):
            yield ("dup", f"{res}: an update took effect twice: {chain}")
            continue
        items = []
        claims = {}
        for i, r in upd:
            if r["kind"] == "claim":
                if r["tag"] in claims:
                    yield ("double-claim", f"{res}: {i['p']} and {claims[r['tag']]} both successfully updated version {r['seen']}")
                    bad = True
                claims[r["tag"]] = i["p"]
        for i, r in ok:
            seen = r["seen"]
            if r["tag"] is not None:
                if r["tag"] not in pos:
                    yield ("lost-update", f"{res}: the successful update {r['tag']} by {i['p']} is not in the final value {chain}")
                    bad = True
                    continue
                k = pos[r["tag"]]
                base = chain[:k] if res != "seed" else chain[k - 1:k]
                if base != seen:
                    yield ("lost-update", f"{res}: update {r['tag']} by {i['p']} was based on {seen}, took effect after {base}")
                    bad = True
                items.append((i["seq"], r["seq"], k, True, i))
            else:
                if seen[-1] not in pos or (res != "seed" and chain[: len(seen)] != seen):
                    yield ("phantom-read", f"{res}: {i['p']} read {seen}, final value {chain}")
                    bad = True
                    continue
                items.append((i["seq"], r["seq"], pos[seen[-1]], False, i))
        known = {r["tag"] for _i, r in upd} | set(unk) | {"0"}
        for t in chain:
            if t not in known:
                yield ("phantom-update", f"{res}: value {t} was never successfully written ({chain})")
                bad = True
        if bad:
            continue
        for a in items:
            for b in items:
                if a[1] < b[0] and (b[2] < a[2] or (b[3] and b[2] == a[2] and a is not b)):
                    yield ("stale", f"{res}: {b[4]['p']} {b[4]['kind']} (event {b[0]}) saw version {b[2]} of {chain} although {a[4]['p']} had seen or written version {a[2]} before (event {a[1]})")
        # crashed updates that took effect do so within the process' life; rejected puts need a reason
        for i, r in ops:
            if r is not None and r["out"] == "stale":
                k = pos.get(r["seen"][-1])
                if r["tag"] in pos and r["kind"] != "claim":
                    yield ("rejected-applied", f"{res}: rejected write {r['tag']} by {i['p']} took effect")
                own = {y["tag"] if y is not None and y["tag"] else x["tag"] for x, y in ops if x["p"] == i["p"] and not (y is not None and y["out"] == "stale")}
                later = [t for t in chain[(k or 0) + 1:] if t not in own]
                touched = later or any(q[0]["p"] != i["p"] for q in unk.values())
                if k is not None and not touched:
                    yield ("spurious-reject", f"{res}: write {r['tag']} by {i['p']} on the current version {r['seen'][-1]} was rejected ({chain})")


# --------------------------------------------------------------------------- C12
def op_c12_client(w, op):
    from portalocker.exceptions import LockException

    from neps.state.filebased import FileLocker
    from neps.utils._locker import Locker

    sim = w.sim
    base = Path(w.root_path("locks")) / "a" / "b"
    for k, o in enumerate(op["ops"]):
        if o.get("gap"):
            time.sleep(o["gap"])
        name = o.get("lock", "L0")
        path = base / name
        if o["kind"] == "probe":
            a = sim.log("p_inv", lock=name)["seq"]
            v = FileLocker(lock_path=path, poll=o["poll"], timeout=o["timeout"]).is_locked()
            sim.log("p_ret", lock=name, inv=a, locked=v)
            continue
        inv = sim.log("l_try", lock=name, poll=o["poll"], timeout=o["timeout"], nb=o["kind"] == "nb")["seq"]
        got = False
        try:
            if o["kind"] == "csv":
                base.mkdir(parents=True, exist_ok=True)
                cm = Locker(path)(poll=o["poll"], timeout=o["timeout"])
            else:
                cm = FileLocker(lock_path=path, poll=o["poll"], timeout=o["timeout"]).lock(
                    **({"fail_if_locked": True} if o["kind"] == "nb" else {}))
            with cm:
                got = True
                sim.log("l_got", lock=name, inv=inv)
                if o["hold"]:
                    time.sleep(o["hold"])
                # leave by return or by exception
                if o.get("exc"):
                    sim.log("l_leave", lock=name, inv=inv)
                    raise {"value": ValueError, "int": KeyboardInterrupt, "lock": LockException}[o["exc"]]("user")
                sim.log("l_leave", lock=name, inv=inv)
            sim.log("l_done", lock=name, inv=inv, out="ok")
        except (ValueError, KeyboardInterrupt) as e:
            sim.log("l_done", lock=name, inv=inv, out="user", exc=type(e).__name__)
        except LockException as e:
            sim.log("l_done", lock=name, inv=inv, out="user" if got else "timeout", exc=type(e).__name__)


def c12(H):
    w = H.w
    sim = w.sim
    fair = w.spec.get("fair", 8.0)
    for e in H.h:
        if e["ev"] == "ret" and e["out"] == "exc":
            yield (f"exc:{e['chain'][0][0]}", f"{e['p']}: {e['chain'][:2]}\n{e['tb'][-1200:]}")
    if H.aborted:
        yield ("hang", f"a process waited forever ({H.aborted})")
        return
    attempts = {}
    for e in H.h:
        if e["ev"] == "l_try":
            attempts[e["seq"]] = {"p": e["p"], "lock": e["lock"], "t": e["t"], "seq": e["seq"], "got": None, "leave": None,
                                  "done": None, "out": None, "poll": e["poll"], "timeout": e["timeout"], "nb": e["nb"]}
        elif e["ev"] in ("l_got", "l_leave", "l_done"):
            a = attempts[e["inv"]]
            a[e["ev"][2:]] = e
            if e["ev"] == "l_done":
                a["out"] = e["out"]
    end_seq = len(H.h) + 1
    tend = H.h[-1]["t"] if H.h else 0.0
    crash = H.crashed
    holds = {}
    for a in attempts.values():
        if a["got"] is not None:
            lv, dn = a["leave"], a["done"]
            c = crash.get(a["p"])
            end = (lv or dn or c or {"seq": end_seq})["seq"]
            # certainly free again at:
            rel = (dn or c or {"t": tend})["t"]
            holds.setdefault(a["lock"], []).append((a["got"]["seq"], end, a["got"]["t"], rel, a))
    for lk, hs in holds.items():
        hs.sort(key=lambda x: x[0])
        for x, y in zip(hs, hs[1:]):
            if y[0] < x[1]:
                yield ("overlap", f"{y[4]['p']} entered the section of {lk} at event {y[0]} while {x[4]['p']} was inside (events {x[0]}..{x[1]})")
    for a in attempts.values():
        slack = 3 * fair + 0.05 + 200 * w.spec.get("dt", 5e-4)
        st = sum(f.get("x", 0) for f in H.procs[a["p"]].faults if f["kind"] == "stall")
        allst = sum(f.get("x", 0) for p in H.procs.values() for f in p.faults if f["kind"] == "stall")
        if a["out"] == "timeout":
            waited = a["done"]["t"] - a["t"]
            if a["nb"]:
                continue
            if a["timeout"] is None:
                yield ("no-limit", f"{a['p']} gave up after {waited:.3f}s although it was told to wait without limit")
                continue
            if waited < a["timeout"] - 1e-6:
                yield ("early-timeout", f"{a['p']} gave up after {waited:.3f}s, timeout {a['timeout']}s")
            # free long enough?
            free_from = a["t"]
            last = a["done"]["t"]
            worst = 0.0
            ivs = sorted((h[2], h[3]) for h in holds.get(a["lock"], ()) if h[3] > a["t"] and h[2] < last)
            probes = any(e["ev"] == "p_inv" for e in H.h)
            cur = a["t"]
            for g, r in ivs:
                worst = max(worst, g - cur)
                cur = max(cur, r)
            # beyond the deadline nobody has to look any more
            worst = max(worst, a["t"] + a["timeout"] - cur)
            if worst > a["poll"] + slack + allst + (fair if probes else 0):
                yield ("missed", f"{a['p']} failed to get {a['lock']} in {waited:.3f}s although it was free for {worst:.3f}s (poll {a['poll']})")
        if a["done"] is not None or a["got"] is not None:
            e = a["got"] or a["done"]
            waited = e["t"] - a["t"]
            if a["timeout"] is not None and waited > a["timeout"] + a["poll"] + slack + st:
                yield ("late", f"{a['p']} waited {waited:.3f}s for {a['lock']}, timeout {a['timeout']}s, poll {a['poll']}s")
    inv = {}
    for e in H.h:
        if e["ev"] == "p_inv":
            inv[e["seq"]] = e
        elif e["ev"] == "p_ret":
            i = inv[e["inv"]]
            for h in holds.get(e["lock"], ()):
                if h[0] < i["seq"] and h[1] > e["seq"] and h[4]["p"] != e["p"] and not e["locked"]:
                    yield ("probe-free", f"{e['p']} was told that {e['lock']} is free while {h[4]['p']} held it")
            if e["locked"]:
                # somebody may hold it from the attempt (before the section is entered) until done
                busy = any(a["seq"] < e["seq"] and (a["done"] is None and a["p"] not in crash or
                                                    (a["done"] is not None and a["done"]["seq"] > i["seq"]) or
                                                    (a["done"] is None and a["p"] in crash and crash[a["p"]]["seq"] > i["seq"]))
                           for a in attempts.values() if a["lock"] == e["lock"]) or \
                    any(x["ev"] == "p_inv" and x["p"] != e["p"] and x["lock"] == e["lock"] for x in H.h)
                if not busy:
                    yield ("probe-locked", f"{e['p']} was told that {e['lock']} is locked while nobody used it")


# --------------------------------------------------------------------------- C13
def op_presample(w, op):
    """Ask for trials ahead of their evaluation, through the state's public interface."""
    from neps.optimizers.random_search.optimizer import RandomSearch
    from neps.search_spaces.search_space import SearchSpace

    from .world import build_space

    st = _load(w, op["root"])
    space = SearchSpace(**build_space(w.spec["space"], w.neps))
    if op.get("searcher") == "asha":
        from neps.optimizers.multi_fidelity.successive_halving import AsynchronousSuccessiveHalving

        opt = AsynchronousSuccessiveHalving(
            pipeline_space=space, budget=10**6,
            **{k: v for k, v in op["kw"].items() if k in ("eta", "ignore_errors", "loss_value_on_error", "cost_value_on_error")})
    else:
        opt = RandomSearch(pipeline_space=space)
    for k in range(op["n"]):
        if op.get("gap"):
            time.sleep(op["gap"])
        t = st.sample_trial(optimizer=opt, worker_id=op.get("wid", "asker"))
        w.sim.log("asked", root=op["root"], tid=t.id, t_sampled=t.metadata.time_sampled)


def op_pending(w, op):
    """What the state offers as pending trials (only meaningful while nobody works)."""
    st = _load(w, op["root"])
    many = st.get_next_pending_trial(n=op["n"])
    one = st.get_next_pending_trial()
    w.sim.log("pend_list", root=op["root"], n=op["n"], ids=[t.id for t in many], one=None if one is None else one.id)


def op_model_draws(w, op):
    """Reference model for sampling: the searcher asked again and again in one process, no state on
    disk, no other worker. Only for searchers whose next draw depends on the random state alone."""
    from neps.optimizers.random_search.optimizer import RandomSearch
    from neps.search_spaces.search_space import SearchSpace

    from .world import build_space, custom_searcher

    sp = SearchSpace(**build_space(w.spec["space"], w.neps))
    opt = RandomSearch(pipeline_space=sp) if op["searcher"] == "random_search" else custom_searcher(op["searcher"])(pipeline_space=sp)
    trials = {}
    out = []
    for k in range(op["n"]):
        s = opt.ask(trials=trials, budget_info=None)
        trials[s.id] = None
        out.append(dict(s.config))
    w.extra["model"] = out


OPS = {"model_draws": op_model_draws, "presample": op_presample, "pending": op_pending,
       "c11_setup": op_c11_setup, "c11_client": op_c11_client, "c11_final": op_c11_final, "c12_client": op_c12_client}
ORACLES = {"C11": c11, "C12": c12}
