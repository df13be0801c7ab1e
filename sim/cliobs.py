"""The command line as an observer: runs the package's real entry points inside a simulated
process and parses what they print."""
from __future__ import annotations

import os
import sys
import traceback

from . import seams


def _print(*a, sep=" ", end="\n", **_):
    """Stands in for print() in the modules that talk to a terminal: each simulated process
    has its own standard output."""
    s = seams.SIM
    if s is None or s.cur is None:
        return
    out = getattr(s.cur, "out", None)
    if out is not None:
        out.append(sep.join(str(x) for x in a) + ("" if end is None else end))


def install():
    import importlib

    importlib.import_module("neps.status.status").print = _print
    try:
        from neps.utils import cli
    except ImportError:
        return
    cli.print = _print
    if hasattr(cli, "generate_markdown_from_parser"):
        # writes the documentation page of the command line into the current directory
        cli.generate_markdown_from_parser = lambda *a, **k: None


def _val(line):
    return line.split(":", 1)[1].strip()


def parse_status(lines):
    r = {"counts": {}, "rows": [], "best_id": None, "nostate": False}
    table = False
    best = False
    for ln in lines:
        if ln.startswith("No NePS state found"):
            r["nostate"] = True
        if ln.startswith("Sampled Time"):
            table = True
            continue
        if table:
            if not ln.strip():
                table = False
            else:
                t = ln.split()
                r["rows"].append({"id": t[-4], "worker": t[-3], "state": t[-2].lower(), "loss": t[-1]})
                continue
        for k, key in (("Succeeded Trials", "succ"), ("Failed Trials", "fail"), ("Active Trials", "active"),
                       ("Pending Trials with Worker", "run"), ("Pending Trials:", "pend"),
                       ("Best Loss Achieved", "best")):
            if ln.startswith(k):
                r["counts"][key] = _val(ln)
                break
        if ln.startswith("Best Trial:"):
            best = True
        if best and ln.startswith("ID:"):
            r["best_id"] = _val(ln)
        if best and ln.startswith("Loss:"):
            r["best_loss"] = _val(ln)
    return r


def parse_results(lines):
    rows = []
    table = False
    for ln in lines:
        if ln.startswith("ID ") and "Loss" in ln:
            table = True
            continue
        if table and set(ln.strip()) == {"-"}:
            continue
        if table and ln.strip() and not ln.startswith("No Incumbent"):
            t = ln.split()
            rows.append({"id": t[0], "loss": t[1], "text": " ".join(t)})
    return {"rows": rows, "nostate": any(x.startswith("No NePS state") for x in lines)}


def parse_errors(lines):
    out = []
    for ln in lines:
        if ln.startswith("Error in Trial ID:"):
            out.append({"id": _val(ln)})
        elif out and ln.startswith("  Worker ID:"):
            out[-1].setdefault("worker", _val(ln))
        elif out and ln.startswith("  Error Type:"):
            out[-1].setdefault("type", _val(ln))
        elif out and ln.startswith("  Error Message:"):
            out[-1].setdefault("msg", _val(ln))
    return {"errs": out, "none": any(x.startswith("No errors found") for x in lines),
            "nostate": any(x.startswith("No NePS state") for x in lines)}


def parse_info(lines):
    r = {"cfg": [], "notfound": any(x.startswith("No trial found") for x in lines),
         "nostate": any(x.startswith("No NePS state") for x in lines)}
    conf = False
    for ln in lines:
        if ln.startswith("  Configurations:"):
            conf = True
            continue
        if conf and ln.startswith("    "):
            r["cfg"].append(ln.strip())
            continue
        conf = False
        for k, key in (("  Trial ID", "id"), ("  State", "state"), ("  Previous Trial ID", "prev"),
                       ("  Evaluating Worker ID", "worker"), ("  Loss", "loss"), ("  Cost", "cost"),
                       ("  Reported As", "as")):
            if ln.startswith(k + ":"):
                r[key] = _val(ln)
    if "state" in r:
        r["state"] = r["state"].split(".")[-1].lower()
    r["cfg"].sort()
    return r


def parse_py(lines):
    r = {}
    for ln in lines:
        for k, key in (("#Evaluated configs", "n_eval"), ("#Pending configs with worker", "n_run"),
                       ("#Pending configs", "n_pend"), ("#Crashed configs", "n_err"), ("Best loss:", "best"),
                       ("Best config id", "best_id")):
            if ln.startswith(k):
                r[key] = _val(ln)
                break
    return r


PARSE = {"status": parse_status, "results": parse_results, "errors": parse_errors, "info-config": parse_info}


def run(w, op, p):
    import time

    sim = w.sim
    root = op["root"]
    rp = w.root_path(root)
    for i, cmd in enumerate(op["cmds"]):
        if i or op.get("gap0"):
            time.sleep(op.get("gap", 1.0))
        if not os.path.isdir(rp):
            continue
        cmd = list(cmd)
        if cmd[0] == "info-config":
            known = [e["tid"] for e in sim.history if e["ev"] == "eval_start" and e["root"] == root]
            k = int(cmd[1])
            # also trials nobody has started yet (the next number), and one that does not exist
            cand = list(dict.fromkeys([*known, str(len(known) + 1), "998"]))
            cmd[1] = cand[-1 - k % len(cand)]
        a = sim.log("cli_call", root=root, cmd=cmd)["seq"]
        ready = w.is_established(root)
        p.out = []
        err = tb = None
        ret = None
        try:
            if cmd[0] == "py":
                from neps.status.status import status

                d, pend = status(rp, **{k: True for k in cmd[1:]})
                ret = {"done": sorted(d), "pend": sorted(pend)}
            else:
                from neps.utils import cli

                old = sys.argv
                sys.argv = ["neps", *cmd, "--root-directory", rp]
                try:
                    cli.main()
                finally:
                    sys.argv = old
        except (Exception, SystemExit) as e:  # noqa: BLE001
            err = f"{type(e).__name__}: {e}"[:300]
            tb = traceback.format_exc()[-1500:]
        lines = "".join(p.out).split("\n")
        p.out = None
        try:
            got = (parse_py if cmd[0] == "py" else PARSE[cmd[0]])(lines)
        except (IndexError, ValueError) as e:
            got = {"unparsable": repr(e), "lines": lines[:40]}
        if cmd[0] == "py":
            got["text"] = [x for x in lines if x.strip()]
            got["ret"] = ret
        sim.log("cli_ret", root=root, call=a, cmd=cmd, exc=err, tb=tb, ready=ready, got=got)
