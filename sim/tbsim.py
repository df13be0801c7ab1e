"""TensorBoard event files: stands in for the third-party event writer (an asynchronous thread
and a binary format) with a synchronous one that keeps what is not flushed in memory only."""
from __future__ import annotations

import json
import os
import random

from . import seams
from .core import h64


class SimEventFileWriter:
    def __init__(self, logdir, max_queue_size=10, flush_secs=120, filename_suffix=""):
        self._logdir = str(logdir)
        os.makedirs(self._logdir, exist_ok=True)
        s = seams.SIM
        n = s.tb_files = getattr(s, "tb_files", 0) + 1
        self._path = os.path.join(self._logdir, f"events.sim.{n}.jsonl")
        self._buf = []
        self._closed = False
        with open(self._path, "w"):
            pass

    def get_logdir(self):
        return self._logdir

    def add_event(self, event):
        if self._closed:
            return  # as the original: dropped
        s = seams.SIM
        for v in event.summary.value:
            if v.HasField("simple_value"):
                rec = {"dir": os.path.relpath(self._logdir, os.path.join(s.root)), "tag": v.tag,
                       "value": float(v.simple_value), "step": int(event.step)}
            elif v.tag.startswith("_hparams_/session_start_info"):
                rec = {"dir": os.path.relpath(self._logdir, s.root), "tag": "hparams", "value": 0.0, "step": 0}
            else:
                continue
            e = s.log("tb_rec", **rec)
            self._buf.append({**rec, "seq": e["seq"]})

    def flush(self):
        if not self._buf:
            return
        buf, self._buf = self._buf, []
        if not os.path.isdir(self._logdir):
            return  # the original goes on writing to a file that was unlinked
        with open(self._path, "a") as f:
            for r in buf:
                f.write(json.dumps(r) + "\n")

    def close(self):
        self.flush()
        self._closed = True

    def reopen(self):
        self._closed = False


def install():
    try:
        import torch.utils.tensorboard.writer as tw
    except ImportError:
        return
    tw.EventFileWriter = SimEventFileWriter


def use(w, root, tid, pspec):
    """What a pipeline that logs does in one epoch-wise evaluation (before its result)."""
    import time

    from neps.plot.tensorboard_eval import tblogger

    tb = pspec["tb"]
    sim = w.sim
    base = (w.seed, pspec.get("salt", 0), root, tid)
    for ep in range(tb.get("epochs", 2)):
        v = (h64(base, "tb", ep) % 10000) / 64.0
        kw = {"writer_config_hparam": bool(tb.get("hparam", True)), "write_summary_incumbent": bool(tb.get("inc"))}
        extra = None
        if tb.get("extra") and ep % 2 == 0:
            extra = {"acc": tblogger.scalar_logging(v / 2)}
        on = tblogger.get_status()
        rec = sim.log("tb_log", root=root, tid=tid, value=v, step=ep, hparam=kw["writer_config_hparam"],
                      inc=kw["write_summary_incumbent"], extra=None if extra is None else v / 2, on=on, done=False)
        tblogger.log(loss=v, current_epoch=ep, extra_data=extra, **kw)
        rec["done"] = True
        if tb.get("gap"):
            time.sleep(tb["gap"])


def read(root_path):
    """All records that reached the disk under a run directory."""
    out = []
    for d, _, fs in os.walk(root_path):
        for f in sorted(fs):
            if f.startswith("events.sim.") and f.endswith(".jsonl"):
                with open(os.path.join(d, f)) as fh:
                    for ln in fh:
                        out.append(json.loads(ln))
    return out
