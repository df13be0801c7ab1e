"""Interprets a run specification: builds the simulated processes, drives the real code
through its public API, records the history, and reads the final state back."""
from __future__ import annotations

import math
import json
import os
import random
import shutil
import time
import traceback
from pathlib import Path

from . import seams
from .boot import boot
from .core import Simulation, h64


def unit(*parts) -> float:
    return h64(*parts) / 2.0**64


# --------------------------------------------------------------------------- search spaces
def build_space(name, neps):
    F, I, C, K = neps.FloatParameter, neps.IntegerParameter, neps.CategoricalParameter, neps.ConstantParameter
    if name == "f1":
        return {"x": F(0, 1)}
    if name == "mix":
        return {"x": F(1e-4, 1e1, log=True), "n": I(2, 40), "c": C(["a", "b", "c"]), "k": K(7)}
    if name == "mf":
        return {"x": F(0, 1), "ep": I(1, 9, is_fidelity=True)}
    if name == "mf4":
        return {"x": F(0, 1), "c": C(["u", "v"]), "ep": I(1, 4, is_fidelity=True)}
    if name == "mff":
        return {"x": F(0, 1), "n": I(1, 30), "ep": F(1.0, 27.0, is_fidelity=True)}
    if name == "mfp":
        return {"x": F(0, 1, default=0.4, default_confidence="medium"),
                "ep": I(1, 9, is_fidelity=True)}
    if name == "mfp4":
        return {"x": F(0, 1, default=0.4, default_confidence="medium"),
                "c": C(["u", "v"], default="v", default_confidence="high"),
                "ep": I(1, 4, is_fidelity=True)}
    if name == "prior":
        return {"x": F(0, 1, default=0.4, default_confidence="medium"),
                "c": C(["a", "b"], default="a", default_confidence="low")}
    if name == "cat":
        return {"c": C(["a", "b"]), "n": I(1, 2)}
    if name == "odd":
        return {"on": C(ODD_S), "b": C([True, False]), "y": C(ODD_F), "big": I(-10**12, 10**12),
                "tiny": F(1e-30, 1e-3, log=True), "null": K("~")}
    if name == "grid":
        return {"c": C(["a", "b", "c"]), "d": C([1, 2])}
    if name == "grid2":
        return {"c": C(["a", "b"]), "n": I(1, 3)}
    if name == "tri":
        return {k: F(0, 1) for k in ("a", "b", "c", "d", "e")}
    raise KeyError(name)


ODD_S = ["null", "yes", "1e5", " a b ", "\u00fc\n", "#x", "0.10", "x: y", "12_000", "2001-01-01", "- a", "'"]
ODD_F = [0.1, 1e-300, 1e22, 5e-324, -0.0, 1.7976931348623157e308]
_CUSTOM = {}


def dec(v):
    """Arguments that JSON cannot express: {"$": kind, "v": ...}."""
    if isinstance(v, dict):
        if "$" in v:
            x = dec(v["v"])
            if v["$"] == "np":
                import numpy as np

                return np.float64(x)
            if v["$"] == "arr":
                import numpy as np

                return np.array(x)
            if v["$"] == "enum":
                import enum

                return enum.Enum("Mode", {"A": x}).A
            return {"tuple": tuple, "set": set}[v["$"]](x)
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def custom_searcher(name):
    """Searchers a user may write; they draw from every generator neps keeps."""
    if not _CUSTOM:
        import math as m

        import numpy as np
        import torch
        from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig

        class TriSearcher(BaseOptimizer):
            def __init__(self, pipeline_space, **kw):
                super().__init__(pipeline_space=pipeline_space)

            def ask(self, trials, budget_info):
                k = int(random.random() * 4)
                sq = lambda v: 1 / (1 + m.exp(-v))  # noqa: E731
                c = {"a": random.random(), "b": 0.5, "c": 0.5, "d": 0.5, "e": 0.5}
                if k != 0:
                    c["b"] = float(np.random.rand())
                if k != 1:
                    c["c"] = float(torch.rand(1, dtype=torch.float64).item())
                if k != 2:  # these generators keep a second value for the next call
                    c["d"] = float(sq(np.random.randn()))
                if k != 3:
                    c["e"] = float(sq(random.gauss(0, 1)))
                return SampledConfig(config=c, id=str(len(trials) + 1))

            def whoami(self):
                return "TriSearcher"

        _CUSTOM["@tri"] = TriSearcher
    return _CUSTOM[name]


DOMAIN = {
    "tri": {k: (lambda v: isinstance(v, float) and 0 <= v <= 1) for k in ("a", "b", "c", "d", "e")},
    "f1": {"x": lambda v: isinstance(v, float) and 0 <= v <= 1},
    "mix": {"x": lambda v: isinstance(v, float) and 1e-4 * (1 - 1e-9) <= v <= 10 * (1 + 1e-9),
            "n": lambda v: isinstance(v, int) and 2 <= v <= 40,
            "c": lambda v: v in ("a", "b", "c"), "k": lambda v: v == 7},
    "mf": {"x": lambda v: isinstance(v, float) and 0 <= v <= 1, "ep": lambda v: isinstance(v, int) and 1 <= v <= 9},
    "mf4": {"x": lambda v: isinstance(v, float) and 0 <= v <= 1, "c": lambda v: v in ("u", "v"),
            "ep": lambda v: isinstance(v, int) and 1 <= v <= 4},
    "mff": {"x": lambda v: isinstance(v, float) and 0 <= v <= 1, "n": lambda v: isinstance(v, int) and 1 <= v <= 30,
            "ep": lambda v: 1 - 1e-9 <= v <= 27 + 1e-9},
    "mfp": {"x": lambda v: isinstance(v, float) and 0 <= v <= 1, "ep": lambda v: isinstance(v, int) and 1 <= v <= 9},
    "mfp4": {"x": lambda v: isinstance(v, float) and 0 <= v <= 1, "c": lambda v: v in ("u", "v"),
             "ep": lambda v: isinstance(v, int) and 1 <= v <= 4},
    "prior": {"x": lambda v: isinstance(v, float) and 0 <= v <= 1, "c": lambda v: v in ("a", "b")},
    "odd": {"on": lambda v: isinstance(v, str) and v in ODD_S, "b": lambda v: isinstance(v, bool),
            "y": lambda v: isinstance(v, float) and v in ODD_F, "big": lambda v: isinstance(v, int) and abs(v) <= 10**12,
            "tiny": lambda v: isinstance(v, float) and 1e-30 * 0.999999 <= v <= 1e-3 * 1.000001, "null": lambda v: v == "~"},
    "cat": {"c": lambda v: v in ("a", "b"), "n": lambda v: isinstance(v, int) and 1 <= v <= 2},
    "grid": {"c": lambda v: v in ("a", "b", "c"), "d": lambda v: v in (1, 2)},
    "grid2": {"c": lambda v: v in ("a", "b"), "n": lambda v: isinstance(v, int) and 1 <= v <= 3},
}
FIDELITY = {"mf": "ep", "mf4": "ep", "mff": "ep", "mfp": "ep", "mfp4": "ep"}


class UserError(Exception):
    pass


class UserKeyError(KeyError):
    pass


def trial_to_dict(t):
    r = t.report
    m = t.metadata
    return {
        "id": t.id, "config": {k: v for k, v in t.config.items()}, "state": t.state.value,
        "report": None if r is None else {
            "loss": r.loss, "cost": r.cost, "lc": r.learning_curve, "extra": dict(r.extra),
            "as": r.reported_as, "err": None if r.err is None else str(r.err),
            "has_tb": r.tb is not None, "dur": r.evaluation_duration},
        "prev": m.previous_trial_id, "prev_loc": m.previous_trial_location, "loc": m.location,
        "sampler": m.sampling_worker_id, "worker": m.evaluating_worker_id,
        "t_sampled": m.time_sampled, "t_started": m.time_started, "t_end": m.time_end,
        "dur": m.evaluation_duration,
    }


def nan_eq(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(nan_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(nan_eq(x, y) for x, y in zip(a, b))
    return a == b


class World:
    def __init__(self, spec, scratch):
        self.spec = spec
        self.scratch = scratch
        self.neps, self.ctx = boot()
        self.seed = spec["seed"]
        self.roots = {}
        self.pipe_calls = {}
        self.invocations = {}
        self.final = {}
        self.final_err = {}
        self.extra = {}
        self.restarts = {}
        self.pipe_objs = {}

    # ------------------------------------------------------------------ user pipeline
    def make_pipe(self, pspec, space, root):
        """The user's objective function."""
        w = self
        sim = self.sim
        fid = FIDELITY.get(space)
        key = pspec.get("salt", 0)

        def run_pipeline(pipeline_directory, previous_pipeline_directory, **config):
            p = sim.cur
            tid = Path(pipeline_directory).name.split("_", 1)[1]
            n = w.invocations[(root, tid)] = w.invocations.get((root, tid), 0) + 1
            p.in_eval = True
            p.eval_of = (root, tid)
            rec = sim.log("eval_start", root=root, tid=tid, config=dict(config), n=n,
                          dir=str(pipeline_directory),
                          prev=None if previous_pipeline_directory is None else str(previous_pipeline_directory))
            m0 = sim.now
            base = (w.seed, key, root, tid)
            if pspec.get("perturb"):
                import numpy as np
                import torch

                random.seed(h64(base, "pr") % 1000)
                np.random.seed(h64(base, "pn") % 1000)
                torch.manual_seed(h64(base, "pt") % 1000)
                np.random.rand(3)
            if pspec.get("ckpt"):
                w._checkpoint_use(root, tid, pipeline_directory, previous_pipeline_directory, pspec)
            if pspec.get("tb"):
                from . import tbsim

                tbsim.use(w, root, tid, pspec)
            if pspec.get("probe_global"):
                from neps.runtime import get_in_progress_trial

                sim.log("cur_trial", root=root, tid=tid, seen=get_in_progress_trial().id,
                        seen_loc=get_in_progress_trial().metadata.location)
            lo, hi = pspec.get("dur", (0.5, 5.0))
            fkey = tuple(sorted((k, repr(v)) for k, v in config.items()))
            d = lo + (hi - lo) * unit(base, "dur")
            if fid and pspec.get("dur_fid"):
                d *= float(config[fid])
            nsl = pspec.get("slices", 1)
            for _ in range(nsl):
                time.sleep(d / nsl)
            okey = (w.seed, key, fkey) if pspec.get("by_config") else base
            u = unit(okey, "err")
            forced = pspec.get("err_ids")
            fails = (tid in forced) if forced is not None else u < pspec.get("err", 0.0)
            elapsed = sim.now - m0
            if fails:
                msg = f"boom {root} {tid} #{n} \u00e4\n second 'line': {h64(okey, 'm') % 997}"
                kind = h64(okey, "ek") % 7
                exc = (UserError(msg), ValueError(msg), RuntimeError(msg), UserKeyError(msg), UserError(),
                       ValueError(msg, 17), OSError(28, "no space"))[kind]
                sim.log("eval_end", root=root, tid=tid, n=n, err=str(exc), dur=elapsed, result=None,
                        err_type=type(exc).__name__)
                p.in_eval = False
                raise exc
            if pspec.get("intr") == tid and n == 1:
                sim.log("eval_end", root=root, tid=tid, n=n, err="interrupt", dur=elapsed, result=None)
                p.in_eval = False
                raise KeyboardInterrupt("user pressed ctrl-c")
            bad = pspec.get("bad")
            if bad and n == 1 and tid in bad:
                sim.log("eval_end", root=root, tid=tid, n=n, err="badvalue", dur=elapsed, result=None)
                p.in_eval = False
                return {"none": None, "noloss": {"cost": 1.0}, "str": "not a number",
                        "obj": {"loss": 0.5, "thing": object()}}[bad[tid]]
            result, expect = w.make_result(pspec, okey, config, fid)
            sim.log("eval_end", root=root, tid=tid, n=n, err=None, dur=elapsed, result=expect)
            p.in_eval = False
            return result

        return run_pipeline

    def make_result(self, pspec, okey, config, fid):
        """Returns (what the pipeline returns, what must be recorded)."""
        import numpy as np

        loss = round(unit(okey, "loss"), 9)
        if pspec.get("fid_scale") and fid:
            loss = round(loss / float(config[fid]), 9)
        if pspec.get("special"):
            sp = h64(okey, "sp") % 14
            loss = {0: float("inf"), 1: float("nan"), 2: -3.5, 3: 0.0, 4: 1e300, 5: 5e-324}.get(sp, loss)
        costs = pspec.get("costs", [1.0])
        cost = costs[h64(okey, "cost") % len(costs)]
        form = pspec.get("form", "cost")
        if form == "mixed":
            form = ["float", "loss", "cost", "extra", "info", "np", "lc", "int", "np32", "elc", "lctuple", "sub",
                    "bool", "shared"][h64(okey, "form") % 14]
        elif form == "mixedcost":
            form = ["cost", "extra", "info", "np", "lc", "elc", "lctuple", "sub", "shared"][h64(okey, "form") % 9]
        exp = {"loss": loss, "cost": None, "lc": None, "extra": {}}  # lc None: not provided
        if form == "float":
            return loss, exp
        if form == "int":
            if math.isnan(loss) or math.isinf(loss):
                return loss, exp
            i = int(h64(okey, "i") % 1000)
            exp.update(loss=float(i))
            return i, exp
        if form == "loss":
            return {"loss": loss}, exp
        if form == "np32":
            f = np.float32(loss)
            exp.update(loss=float(f))
            return f, exp
        if form == "bool":
            b = bool(h64(okey, "b") % 2)
            exp.update(loss=float(b))
            return b, exp
        exp["cost"] = float(cost)
        if form == "cost":
            return {"loss": loss, "cost": cost}, exp
        if form == "extra":
            ex = {"note": "a: b\n- 'q' \u20ac", "num": 3, "nested": {"deep": [1, 2.5, None, True]}, "yes": "no"}
            exp["extra"] = ex
            import copy

            return {"loss": loss, "cost": cost, **copy.deepcopy(ex)}, exp
        if form == "info":
            exp["extra"] = {"info_dict": {"acc": 0.25, "tag": "t#1"}}
            lc = [loss + 1.0, loss + 0.5, loss]
            exp["lc"] = lc
            return {"loss": loss, "cost": cost,
                    "info_dict": {"acc": 0.25, "tag": "t#1", "learning_curve": list(lc)}}, exp
        if form == "shared":
            # the pipeline hands out the same nested object every time
            exp["extra"] = {"info_dict": {"acc": 0.5, "list": [1, 2]}}
            exp["lc"] = [2.0, 1.0]
            info = self.extra.setdefault(("shared", self.sim.cur.name),
                                         {"acc": 0.5, "list": [1, 2], "learning_curve": [2.0, 1.0]})
            return {"loss": loss, "cost": cost, "info_dict": info}, exp
        if form == "np":
            exp["extra"] = {"arr": [1.5, 2.5]}
            return {"loss": np.float64(loss), "cost": np.float64(cost), "arr": np.array([1.5, 2.5])}, exp
        if form == "lc":
            lc = [loss, loss * 0.5] if not math.isinf(loss) else [loss]
            exp["lc"] = lc
            return {"loss": loss, "cost": cost, "learning_curve": list(lc)}, exp
        if form == "elc":
            exp["lc"] = []
            return {"loss": loss, "cost": cost, "learning_curve": []}, exp
        if form == "lctuple":
            exp["lc"] = [3.0, 2.0, 0.0]
            return {"loss": loss, "cost": cost, "learning_curve": (3, np.float64(2.0), 0)}, exp
        if form == "sub":
            # a mapping that is no plain dict, integers, falsy values
            import types

            exp["extra"] = {"zero": 0, "empty": "", "none": None, "flag": False, "list": [], "d": {}}
            exp["cost"] = float(int(cost))
            return types.MappingProxyType({"loss": loss, "cost": int(cost), "zero": 0, "empty": "", "none": None,
                                           "flag": False, "list": [], "d": {}}), exp
        raise KeyError(form)

    def _checkpoint_use(self, root, tid, d, prev, pspec):
        from neps.utils.common import get_initial_directory, load_checkpoint, save_checkpoint

        sim = self.sim
        base = (self.seed, pspec.get("salt", 0), root, tid)
        nn = bool(pspec.get("ckpt_nn"))
        name = "state.v1" if pspec.get("ckpt_nn") == 2 else "checkpoint"
        val = float(h64(base, "nn") % 1000)
        model = opt = None
        if nn:
            import torch

            model = torch.nn.Linear(1, 1)
            opt = torch.optim.SGD(model.parameters(), lr=1.0, momentum=0.9)
        explicit = h64(base, "ckd") % 2 and pspec.get("ckpt_skip")
        if explicit and prev is not None:
            before = load_checkpoint(directory=h64(base, "cks") % 2 and str(prev) or prev, checkpoint_name=name,
                                     model=model, optimizer=opt)
        else:
            before = load_checkpoint(checkpoint_name=name, model=model, optimizer=opt)
        sim.log("ckpt_load", root=root, tid=tid, prev=None if prev is None else str(prev),
                got=None if before is None else before.get("who"),
                nn=[float(model.weight.item()), opt.param_groups[0]["lr"]] if nn and before is not None else None)
        init = get_initial_directory()
        init2 = get_initial_directory(d)
        sim.log("init_dir", root=root, tid=tid, got=str(init), got2=str(init2), dir=str(d))
        if pspec.get("user_files"):
            with open(Path(d) / "user_notes.txt", "w") as f:
                f.write(f"{root}/{tid}")
        if pspec.get("ckpt_skip") and h64(base, "ckk") % 3 == 0:
            return  # this one stores no checkpoint
        if nn:
            with torch.no_grad():
                model.weight.fill_(val)
            opt.param_groups[0]["lr"] = val / 2
        sim.log("ckpt_save", root=root, tid=tid, nn=[val, val / 2] if nn else None)
        save_checkpoint(values_to_save={"who": f"{root}/{tid}"}, model=model, optimizer=opt, checkpoint_name=name,
                        **({"directory": d} if explicit else {}))

    # ------------------------------------------------------------------ programs
    def root_path(self, root):
        return os.path.join(self.scratch, "x", root)

    def do(self, op, p):
        """Execute one program step in the current simulated process."""
        k = op["op"]
        sim = self.sim
        if k == "sleep":
            time.sleep(op["s"])
            return None
        if k == "run":
            root = op["root"]
            space = op.get("space", self.spec.get("space", "f1"))
            pspec = {**self.spec.get("pipe", {}), **op.get("pipe", {})}
            kw = dict(op.get("kw", {}))
            searcher = kw.pop("searcher", "random_search")
            if kw.get("max_evaluations_total") is None and kw.get("max_cost_total") is None:
                kw["max_evaluations_total"] = 10_000  # neps.run insists on a total limit
            sp = build_space(space, self.neps)
            if searcher == "@grid":
                from neps.optimizers.grid_search.optimizer import GridSearch
                from neps.search_spaces.search_space import SearchSpace

                searcher = GridSearch(pipeline_space=SearchSpace(**sp),
                                      grid_step_size=kw.pop("grid_step_size", 10))
            elif searcher == "@cls":
                # the class itself is handed over, with arguments
                searcher = custom_searcher("@tri")
                kw.update(dec(kw.pop("sargs", {})))
            elif isinstance(searcher, dict) and "$yaml" in searcher:
                path = os.path.join(self.scratch, "x", f".searcher_{p.name}.yaml")
                with open(path, "w") as f:
                    f.write(json.dumps(searcher["$yaml"]))
                searcher = path
            elif isinstance(searcher, str) and searcher.startswith("@"):
                from neps.search_spaces.search_space import SearchSpace

                searcher = custom_searcher(searcher)(pipeline_space=SearchSpace(**sp))
            if op.get("reseed") is not None:
                import numpy as np
                import torch

                random.seed(op["reseed"])
                np.random.seed(op["reseed"])
                torch.manual_seed(op["reseed"])
            if op.get("cb"):
                self._register_cb(op["cb"])
            try:
                self.neps.run(run_pipeline=self.make_pipe(pspec, space, root), pipeline_space=sp,
                              root_directory=self.root_path(op.get("base", root)), searcher=searcher, **kw)
            finally:
                if not p.dead:
                    self._leak_check(root)
            return None
        if k == "worker":
            return self.run_worker(op)
        if k == "status":
            from neps.status.status import get_summary_dict

            for i in range(op.get("n", 1)):
                if i or op.get("gap0"):
                    time.sleep(op.get("gap", 1.0))
                if not os.path.isdir(self.root_path(op["root"])):
                    continue
                a = sim.log("status_call", root=op["root"])["seq"]
                ready = self.is_established(op["root"])
                try:
                    s = get_summary_dict(self.root_path(op["root"]), add_details=True)
                except Exception as e:  # noqa: BLE001
                    sim.log("status_ret", root=op["root"], call=a, exc=f"{type(e).__name__}: {e}"[:300],
                            ready=ready, tb=traceback.format_exc()[-1500:])
                    if op.get("raise"):
                        raise
                    continue
                sim.log("status_ret", root=op["root"], call=a, exc=None, s={
                    "n_eval": s["num_evaluated_configs"], "n_pend": s["num_pending_configs"],
                    "n_run": s["num_pending_configs_with_worker"], "n_err": s["num_error"],
                    "best": s["best_loss"], "best_id": s["best_config_id"],
                    "best_config": None if s["best_config"] is None else dict(s["best_config"]),
                    "done": {i: r.result if r.result == "error" else {"loss": r.result.get("loss")}
                             for i, r in s["previous_results"].items()},
                    "pending": sorted(s["pending_configs"]), "free": sorted(s["pending_configs_free"])})
            return None
        if k == "snap":
            from neps.state.filebased import load_filebased_neps_state

            for i in range(op.get("n", 1)):
                if i or op.get("gap0"):
                    time.sleep(op.get("gap", 1.0))
                rp = self.root_path(op["root"])
                if not os.path.isdir(rp):
                    continue
                a = sim.log("snap_call", root=op["root"])["seq"]
                ready = self.is_established(op["root"])
                try:
                    st = load_filebased_neps_state(Path(rp))
                    trials = st.get_all_trials()
                    ts = {i: trial_to_dict(t) for i, t in trials.items()}
                    sim.log("snap_ret", root=op["root"], call=a, exc=None, trials=ts)
                except Exception as e:  # noqa: BLE001
                    sim.log("snap_ret", root=op["root"], call=a, exc=f"{type(e).__name__}: {e}"[:300],
                            ready=ready, tb=traceback.format_exc()[-1500:])
            return None
        if k == "rmtree":
            # the user throws an earlier search of this process away
            sim.log("rm", root=op["root"])
            shutil.rmtree(self.root_path(op["root"]), ignore_errors=True)
            return None
        if k == "tb":
            from neps.plot.tensorboard_eval import tblogger

            (tblogger.enable if op["on"] else tblogger.disable)()
            return None
        if k == "cli":
            from . import cliobs

            return cliobs.run(self, op, p)
        if k == "call":
            from . import direct

            return direct.OPS[op["fn"]](self, op)
        raise KeyError(k)

    def _register_cb(self, key):
        from neps.runtime import register_notify_trial_end

        sim = self.sim
        me = sim.cur

        def cb(trial):
            sim.log("cb", key=key, tid=trial.id, loc=str(trial.metadata.location), mine=sim.cur is me)

        register_notify_trial_end(key, cb)
        sim.log("cb_reg", key=key)

    def _leak_check(self, root):
        """After a run call the helpers must not refer to a trial any more."""
        from neps.runtime import get_in_progress_trial

        try:
            t = get_in_progress_trial()
        except RuntimeError:
            return
        self.sim.log("leak", root=root, trial=t.id)

    def is_established(self, root):
        """Some worker has already got as far as evaluating in this run directory (so that
        the directory is certainly fully created)."""
        return any(e["ev"] == "eval_start" and e["root"] == root for e in self.sim.history)

    def run_worker(self, op):
        """A worker built through the runtime classes, with explicit settings."""
        from neps.optimizers.random_search.optimizer import RandomSearch
        from neps.runtime import DefaultWorker
        from neps.search_spaces.search_space import SearchSpace
        from neps.state.filebased import create_or_load_filebased_neps_state
        from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
        from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings

        space = self.spec.get("space", "f1")
        root = op["root"]
        kw = {
            "on_error": "ignore", "max_evaluations_total": None,
            "include_in_progress_evaluations_towards_maximum": False, "max_cost_total": None,
            "max_evaluations_for_worker": None, "max_evaluation_time_total_seconds": None,
            "max_wallclock_time_for_worker_seconds": None,
            "max_evaluation_time_for_worker_seconds": None, "max_cost_for_worker": None,
        }
        kw.update(op.get("kw", {}))
        drv = {"loss_value_on_error": None, "cost_value_on_error": None, "cost_if_not_provided": None,
               "learning_curve_on_error": None, "learning_curve_if_not_provided": None}
        drv.update(op.get("defaults", {}))
        settings = WorkerSettings(
            default_report_values=DefaultReportValues(**drv),
            **{**kw, "on_error": OnErrorPossibilities(kw["on_error"])})
        state = create_or_load_filebased_neps_state(
            directory=Path(self.root_path(root)),
            optimizer_info=OptimizerInfo({"name": op.get("info", "rs")}),
            optimizer_state=OptimizationState(
                budget=BudgetInfo(max_cost_budget=kw["max_cost_total"] or 0, used_cost_budget=0,
                                  max_evaluations=100, used_evaluations=0), shared_state={}))
        worker = DefaultWorker.new(
            state=state, settings=settings,
            optimizer=RandomSearch(pipeline_space=SearchSpace(**build_space(space, self.neps))),
            evaluation_fn=self.make_pipe({**self.spec.get("pipe", {}), **op.get("pipe", {})}, space, root),
            **({"worker_id": op["wid"]} if op.get("wid") else {}))
        worker.run()
        return None

    def program(self, ps):
        def main():
            sim = self.sim
            p = sim.cur
            last = None
            for i, op in enumerate(ps["prog"]):
                sim.log("call", op=op["op"], root=op.get("root"), i=i, wid=op.get("wid"))
                p.started_call = op["op"] in ("run", "worker")
                try:
                    v = self.do(op, p)
                    p.started_call = False
                    sim.log("ret", op=op["op"], root=op.get("root"), i=i, out="ok", val=v)
                except seams.SimCrash:
                    raise
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    if p.dead:
                        raise seams.SimCrash("dead") from None
                    p.started_call = False
                    chain = []
                    x = e
                    while x is not None and len(chain) < 6:
                        chain.append((type(x).__name__, str(x)[:200]))
                        x = x.__cause__ or x.__context__
                    sim.log("ret", op=op["op"], root=op.get("root"), i=i, out="exc", chain=chain,
                            io_fault=getattr(p, "io_faults", 0),
                            tb="".join(traceback.format_exception(e))[-3000:])
                    last = e
                    p.in_eval = False
                    if not op.get("cont") or getattr(p, "interrupted", False):
                        break
            return last is None

        return main

    def spawn_proc(self, ps, start):
        p = self.sim.spawn(ps["name"], self.program(ps), start=start, faults=ps.get("faults", ()),
                           speed=ps.get("speed", 1.0), skew=ps.get("skew", 0.0),
                           rng_seed=ps.get("rng_seed"))
        p.spec = ps
        if ps.get("kill_at") is not None:
            self.sim.at(ps["kill_at"], lambda: self.sim.kill_external(p))
        return p

    def on_crash(self, p):
        r = p.spec.get("restart")
        if not r:
            return
        base = p.spec["name"].split("~")[0]
        n = self.restarts[base] = self.restarts.get(base, 0) + 1
        if n > r.get("max", 1):
            return
        ps = dict(p.spec)
        ps["name"] = f"{base}~{n}"
        ps["faults"] = list(r.get("faults", [[]])[n - 1]) if len(r.get("faults", [])) >= n else []
        ps["kill_at"] = None
        ps["rng_seed"] = p.spec.get("rng_seed")
        self.spawn_proc(ps, self.sim.now + r.get("delay", 1.0))

    # ------------------------------------------------------------------ run
    def run(self, trace_log=False):
        spec = self.spec
        x = os.path.join(self.scratch, "x")
        shutil.rmtree(x, ignore_errors=True)
        os.makedirs(x)
        self.sim = sim = Simulation(
            self.seed, x, sched=spec.get("sched"), dt=spec.get("dt", 0.0005),
            max_steps=spec.get("max_steps", 150_000),
            replay=spec.get("schedule"), fair=spec.get("fair", 4.0))
        if trace_log:
            sim.trace_log = []
        sim.context = self.ctx
        sim.on_crash = self.on_crash
        try:
            phases = sorted({ps.get("phase", 0) for ps in spec["procs"]})
            self.phase_ends = {}
            for ph in phases:
                t0 = sim.now
                for ps in spec["procs"]:
                    if ps.get("phase", 0) == ph:
                        self.spawn_proc({**ps, "kill_at": None if ps.get("kill_at") is None else ps["kill_at"] + t0},
                                        t0 + ps.get("start", 0.0))
                sim.run()
                self.phase_ends[ph] = len(sim.history)
                if sim.aborted:
                    break
            if not sim.aborted:
                self.read_final()
        finally:
            seams.SIM = None
            if not spec.get("keep"):
                shutil.rmtree(x, ignore_errors=True)
        return self

    def read_final(self):
        """A fresh, fault-free observer process reads everything back."""
        from neps.state.filebased import load_filebased_neps_state
        from neps.status.status import get_summary_dict

        sim = self.sim
        roots = sorted({op["root"] for ps in self.spec["procs"] for op in ps["prog"] if op.get("root")})
        sim.sched = {"kind": "none"}
        for root in roots:
            rp = self.root_path(root)
            if not os.path.isdir(rp):
                continue

            def obs(rp=rp, root=root):
                try:
                    st = load_filebased_neps_state(Path(rp))
                    trials = {i: trial_to_dict(t) for i, t in st.get_all_trials().items()}
                    os_ = st.optimizer_state()
                    self.final[root] = {
                        "trials": trials,
                        "budget": None if os_.budget is None else vars(os_.budget).copy(),
                        "errs": [vars(e).copy() for e in st.get_errors().errs],
                        "info": st.optimizer_info().info,
                    }
                    s = get_summary_dict(rp, add_details=True)
                    self.final[root]["summary"] = {
                        "n_eval": s["num_evaluated_configs"], "n_pend": s["num_pending_configs"],
                        "n_run": s["num_pending_configs_with_worker"], "n_err": s["num_error"],
                        "best": s["best_loss"], "best_id": s["best_config_id"]}
                    csvd = os.path.join(rp, "summary_csv")
                    if os.path.isdir(csvd):
                        import pandas as pd

                        self.final[root]["csv"] = {}
                        for n in ("config_data.csv", "run_status.csv"):
                            q = os.path.join(csvd, n)
                            if os.path.exists(q):
                                sim.bypass += 1
                                try:
                                    self.final[root]["csv"][n] = pd.read_csv(q, dtype=str, keep_default_na=False)
                                except Exception as e:  # noqa: BLE001
                                    self.final[root]["csv"][n] = repr(e)
                                finally:
                                    sim.bypass -= 1
                    from . import tbsim

                    sim.bypass += 1
                    try:
                        self.final[root]["tb"] = tbsim.read(rp)
                    finally:
                        sim.bypass -= 1
                    self.final[root]["user_files"] = {
                        i: (open(os.path.join(t["loc"], "user_notes.txt")).read()
                            if os.path.exists(os.path.join(t["loc"], "user_notes.txt")) else None)
                        for i, t in trials.items()}
                except Exception as e:  # noqa: BLE001
                    self.final_err[root] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:]

            pr = sim.spawn("final", obs, start=sim.now)
            pr.spec = {"name": "final"}
            sim.run()
