"""The simulator: one OS process, many simulated processes (threads released one
at a time), virtual time, seeded scheduling, fault injection, recorded history.
"""
from __future__ import annotations

import ctypes
import dataclasses
import errno
import fcntl
import hashlib
import os
import random
import sys
import threading
from _thread import allocate_lock, get_ident

from . import seams
from .seams import R, SimCrash

EPOCH = 1_700_000_000.0


def h64(*parts) -> int:
    m = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(m.digest(), "big")


class Proc:
    """A simulated OS process."""

    def __init__(self, sim, name, fn, start, faults=(), speed=1.0, skew=0.0, rng_seed=None):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.pid = 4000 + len(sim.procs) * 7
        self.wake = start
        self.runnable_since = start
        self.blocked = None  # lock key
        self.done = False
        self.dead = False
        self.crashed = None
        self.outcome = None
        self.value = None
        self.exc = None
        self.tb = None
        self.ops = 0
        self.mops = 0
        self.ent = 0
        self.files = {}
        self.speed = speed
        self.skew = skew
        self.prio = 0
        self.lock = allocate_lock()
        self.lock.acquire()
        self.ident = None
        self.ctx = None
        self.started = False
        self.lock_wait = self.lock_since = None
        self.rng_seed = rng_seed if rng_seed is not None else h64(sim.seed, "rng", name) % (2**32)
        # faults: list of dicts {at: "mop"/"op"/"time"/"eval", n:, kind:, x:}
        self.faults = [dict(f) for f in faults]
        self.f_op = {}
        self.f_mop = {}
        self.f_kind = {}
        for f in self.faults:
            if f["at"] == "op":
                self.f_op.setdefault(f["n"], []).append(f)
            elif f["at"] == "mop":
                self.f_mop.setdefault(f["n"], []).append(f)
            elif f["at"] == "match":
                self.f_kind.setdefault(f["op"], []).append(f)
        self.match_counts = {}
        self.held = set()
        self.in_eval = False

    def __repr__(self):
        return f"<{self.name}>"


PATIENCE = 10.0  # seconds of waiting for a lock after which the scheduler becomes fair


class Simulation:
    def __init__(self, seed, root, sched=None, dt=0.0005, max_steps=150_000, replay=None,
                 fair=4.0):
        self.seed = seed
        self.root = root
        self.cwd = "/"
        self.rng = random.Random(h64(seed, "sched"))
        self.sched = sched or {"kind": "walk", "p": 0.2}
        self.dt = dt
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.fair = fair
        self.procs: list[Proc] = []
        self.cur: Proc | None = None
        self.bypass = 0
        self.fd_by_num = {}
        self.locks = {}  # key -> {owner: (mode, rec)}
        self.lock_hist = {}
        self.history = []
        self.fault_counts = {}
        self.switches = 0
        self.preempts = []  # (decision index, pid) recorded
        self.decisions = 0
        self.replay = dict(replay) if replay is not None else None
        self.main = allocate_lock()
        self.main.acquire()
        self.aborted = None
        self.trace = hashlib.blake2b(digest_size=12)
        self.ilv = hashlib.blake2b(digest_size=12)
        self.trace_log = None
        self.context = None
        self.on_crash = None
        self.on_step = None
        self.timed = []  # [(time, seq, fn)]
        self._tseq = 0
        self.op_kinds = {}
        self.base_random = None
        self.pct_changes = set()
        self.jumps = 0.0
        self.mtimes = {}
        self.mtime0 = int(EPOCH * 1e9)
        self.harness_error = None
        if self.sched["kind"] == "pct":
            r = random.Random(h64(seed, "pct"))
            span = self.sched.get("span", 4000)
            self.pct_changes = {r.randrange(1, span) for _ in range(self.sched.get("d", 3))}
            self._pct = r

    # ------------------------------------------------------------------ history
    def log(self, ev, **kw):
        e = {"seq": len(self.history), "t": round(self.now, 6), "step": self.steps,
             "p": self.cur.name if self.cur is not None else None, "ev": ev}
        e.update(kw)
        self.history.append(e)
        self.trace.update(repr((ev, e["p"], sorted((k, _short(v, self.root)) for k, v in kw.items()))).encode())
        if self.trace_log is not None:
            self.trace_log.append(("EV", ev, e["p"], repr(kw)[:300]))
        return e

    def fired(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    # ------------------------------------------------------------------ spawn / run
    def spawn(self, name, fn, start=0.0, **kw):
        p = Proc(self, name, fn, max(start, self.now), **kw)
        self.procs.append(p)
        if self.sched["kind"] == "pct":
            p.prio = 10 + self._pct.random()
        t = threading.Thread(target=self._thread_main, args=(p,), daemon=True)
        p.thread = t
        t.start()
        return p

    def at(self, when, fn):
        self._tseq += 1
        self.timed.append((when, self._tseq, fn))
        self.timed.sort(key=lambda x: x[:2])

    def _thread_main(self, p):
        p.ident = get_ident()
        p.lock.acquire()
        try:
            p.started = True
            if self.context is not None:
                self.context.enter(p)
            try:
                if p.dead:
                    raise SimCrash("killed before start")
                p.value = p.fn()
                if p.dead:
                    raise SimCrash("died while returning")
                p.outcome = "ok"
            except SimCrash as e:
                p.outcome = "crash"
                p.exc = str(e)
            except BaseException as e:  # noqa: BLE001
                if p.dead:
                    p.outcome = "crash"
                else:
                    p.outcome = "exc"
                    p.exc = e
                    import traceback

                    self.bypass += 1
                    p.tb = traceback.format_exc()
                    self.bypass -= 1
            self._exit(p)
        except BaseException as e:  # noqa: BLE001
            import traceback

            self.harness_error = traceback.format_exc()
            self.aborted = self.aborted or "harness"
            p.done = True
            self.main.release()

    def _exit(self, p):
        """Process exit: the kernel closes its descriptors and drops its locks."""
        self.cur = p
        if not p.dead:
            for rec in list(p.files.values()):
                rec.kill()
            self.log("exit", outcome=p.outcome,
                     exc=(type(p.exc).__name__ if p.outcome == "exc" else None))
        p.done = True
        if self.context is not None:
            self.context.leave(p)
        nxt = self._pick(None)
        if nxt is None:
            self.cur = None
            self.main.release()
        else:
            self._give(nxt)

    def run(self):
        seams.SIM = self
        try:
            with_first = self._pick(None)
            if with_first is None:
                return
            self._give(with_first)
            self.main.acquire()
        finally:
            seams.SIM = None

    # ------------------------------------------------------------------ scheduling
    def _give(self, p):
        self.cur = p
        p.lock.release()

    def _fire_timed(self):
        while self.timed and self.timed[0][0] <= self.now:
            _, _, fn = self.timed.pop(0)
            fn()

    def _pick(self, me):
        """Choose who runs next. `me` is the yielding process if it could go on."""
        while True:
            if self.timed:
                self._fire_timed()
            ready = [p for p in self.procs
                     if not p.done and p.blocked is None and p.wake <= self.now]
            if ready:
                break
            wakes = [p.wake for p in self.procs if not p.done and p.blocked is None]
            if self.timed:
                wakes.append(self.timed[0][0])
            if not wakes:
                live = [p for p in self.procs if not p.done]
                if live and self.aborted is None:
                    # deadlock among blocking locks
                    self.log("deadlock", procs=[p.name for p in live])
                    self.abort("deadlock")
                    for p in live:
                        p.blocked = None
                        p.wake = self.now
                    continue
                if live:
                    for p in live:
                        p.blocked = None
                        p.wake = self.now
                    continue
                return None
            self.now = max(self.now, min(wakes))
        for p in ready:
            if p.dead:  # unwind the dead at once
                return p
        me_ready = me is not None and me in ready
        if len(ready) == 1:
            return ready[0]
        self.decisions += 1
        default = me if me_ready else min(ready, key=lambda p: (p.wake, p.pid))
        # bounded unfairness: nobody stays runnable-but-unscheduled for too long
        # (the holder of a lock included, once somebody has waited for one that long)
        fair = 0.05 if any(p.lock_since is not None and not p.done and self.now - p.lock_since > PATIENCE
                           for p in self.procs) else self.fair
        starving = [p for p in ready if self.now - max(p.runnable_since, p.wake) > fair]
        if starving:
            return min(starving, key=lambda p: (p.runnable_since, p.pid))
        if self.replay is not None:
            c = self.replay.get(self.decisions)
            choice = None
            if c is not None:
                for p in ready:
                    if p.pid == c:
                        choice = p
            choice = choice or default
        else:
            choice = self._choose(me if me_ready else None, ready, default)
        if choice is not default:
            self.preempts.append((self.decisions, choice.pid))
        return choice

    def _choose(self, me, ready, default):
        k = self.sched
        kind = k["kind"]
        rng = self.rng
        if kind == "walk":
            if me is not None and rng.random() >= k["p"]:
                return me
            return ready[int(rng.random() * len(ready))]
        if kind == "pct":
            if self.decisions in self.pct_changes:
                tgt = me or default
                tgt.prio = self._pct.random()
            return max(ready, key=lambda p: (p.prio, p.pid))
        if kind == "sticky":  # run bursts of random length
            if me is not None:
                if self.decisions < getattr(self, "_burst", 0):
                    return me
            self._burst = self.decisions + int(rng.expovariate(1.0 / k.get("len", 40)))
            return ready[int(rng.random() * len(ready))]
        if kind == "mut":  # switch mostly at mutating operations
            pr = k["p"] if self._last_mut else k["p"] * 0.05
            if me is not None and rng.random() >= pr:
                return me
            return ready[int(rng.random() * len(ready))]
        return default

    _last_mut = False

    def _switch(self, me):
        nxt = self._pick(me)
        if nxt is me:
            return
        self.switches += 1
        self.ilv.update(f"{me.pid}>{nxt.pid}@{self._last_kind}".encode())
        me.runnable_since = max(self.now, me.wake)
        if self.context is not None:
            self.context.leave(me)
        self._give(nxt)
        me.lock.acquire()
        if self.context is not None:
            self.context.enter(me)
        me.runnable_since = self.now

    _last_kind = ""

    def abort(self, why):
        """Stop the whole run: every process unwinds at its next operation."""
        if self.aborted is None:
            self.aborted = why
        for p in self.procs:
            if not p.done:
                self._kill(p, "aborted:" + why, count=False)

    # ------------------------------------------------------------------ the seam
    def point(self, kind, path=None, mut=False):
        """A scheduling and fault point, before the operation takes effect."""
        p = self.cur
        if p.dead:
            raise SimCrash(p.crashed)
        self.steps += 1
        p.ops += 1
        self.now += self.dt * p.speed
        self._last_kind = kind
        self._last_mut = mut
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        rel = path[len(self.root):] if isinstance(path, str) and path.startswith(self.root) else path
        self.trace.update(f"{p.pid}{kind}{rel}".encode())
        self.op_kinds[kind] = self.op_kinds.get(kind, 0) + 1
        if self.trace_log is not None:
            self.trace_log.append((self.steps, p.name, kind, rel))
        if self.steps > self.max_steps:
            self.abort("step-limit")
            raise SimCrash("step-limit")
        act = None
        if p.faults:
            fs = p.f_op.pop(p.ops, None) if p.f_op else None
            if mut:
                p.mops += 1
                fs2 = p.f_mop.pop(p.mops, None) if p.f_mop else None
                fs = (fs or []) + (fs2 or [])
            if p.f_kind:
                for key in sorted({kind, kind.split(":")[0], "*mut" if mut else "*"}):
                    for f in list(p.f_kind.get(key, ())):
                        if f.get("path") and f["path"] not in str(rel):
                            continue
                        c = p.match_counts[id(f)] = p.match_counts.get(id(f), 0) + 1
                        if c == f["n"]:
                            p.f_kind[key].remove(f)
                            fs = (fs or []) + [f]
            for f in fs or ():
                a = self._fault(p, f, kind, mut)
                act = a or act
        elif mut:
            p.mops += 1
        self._switch(p)
        if p.dead:
            raise SimCrash(p.crashed)
        return act

    def _fault(self, p, f, kind, mut):
        k = f["kind"]
        if k == "crash":
            self.fired("crash")
            self._kill(p, "crash")
            raise SimCrash("crash")
        if k == "torn":
            if kind in ("write", "close"):
                return ("torn", f.get("x", 0.5))
            self.fired("crash")
            self._kill(p, "crash")
            raise SimCrash("crash")
        if k in ("ENOSPC", "EIO", "EMFILE", "short"):
            ok = (kind in ("write", "mkdir", "replace", "rename", "os.open", "read") or kind.startswith("open")
                  or (k == "EIO" and kind in ("stat", "lstat", "unlink", "utime"))
                  or (k in ("EIO", "EMFILE") and kind in ("listdir", "scandir")))
            if not ok or (k == "short" and kind != "write"):
                return None
            if k == "EMFILE" and not (kind.startswith("open") or kind in ("os.open", "listdir", "scandir")):
                return None
            if k == "ENOSPC" and kind in ("read", "open:r", "open:rb"):
                return None
            if kind == "read" and k != "EIO":
                return None
            self.fired(k)
            self.log("io_fault", kind=k, op=kind)
            p.io_faults = getattr(p, "io_faults", 0) + 1
            return (k, f.get("x", 0.0))
            return None
        if k == "stall":
            self.fired("stall")
            p.wake = self.now + f["x"]
            return None
        if k == "clock":
            self.fired("clock_jump")
            p.skew += f["x"]
            self.log("clock_jump", delta=f["x"])
            return None
        if k == "interrupt":
            if kind in ("close", "unlock") or not getattr(p, "started_call", False) or getattr(p, "interrupted", False):
                return None
            self.fired("interrupt")
            p.interrupted = True
            self.log("interrupt", at=kind, in_eval=p.in_eval)
            raise KeyboardInterrupt("simulated SIGINT")
        return None

    # ------------------------------------------------------------------ crash
    def _kill(self, p, why, count=True):
        if p.dead or p.done:
            return
        p.dead = True
        p.crashed = why
        p.wake = min(p.wake, self.now)
        p.blocked = None
        held = sorted({self._keyname(k) for k in p.held})
        for rec in list(p.files.values()):
            rec.kill()
        for key in list(p.held):
            self._release_key(key, p)
        if count:
            cur, self.cur = self.cur, p
            self.log("crash", why=why, held=held, in_eval=p.in_eval)
            self.cur = cur
            if self.on_crash is not None:
                self.on_crash(p)

    def crash_current(self, why):
        self.fired("torn_write_crash")
        self._kill(self.cur, why)
        raise SimCrash(why)

    def kill_external(self, p, why="killed"):
        if not p.dead and not p.done:
            self.fired("kill")
            self._kill(p, why)

    # ------------------------------------------------------------------ files and locks
    def register_file(self, rec):
        fd = rec.fileno()
        self.fd_by_num[fd] = rec
        rec._proc = self.cur
        rec._fd = fd
        self.cur.files[id(rec)] = rec

    def unregister_file(self, rec):
        if self.fd_by_num.get(rec._fd) is rec:
            del self.fd_by_num[rec._fd]
        rec._proc.files.pop(id(rec), None)
        self._release_owner(("f", id(rec)), rec._proc)
        lk = getattr(rec, "_lkey", None)
        if lk is not None:
            self._release_one(lk, ("p", rec._proc.pid), rec._proc)

    def _keyname(self, key):
        return self.lock_hist.get(key, str(key))

    def flock(self, rec, op, owner):
        kind = "unlock" if op & fcntl.LOCK_UN else "flock"
        act = self.point(kind, rec._path, mut=False)
        p = self.cur
        st = os.fstat(rec.fileno())
        key = (st.st_dev, st.st_ino)
        rel = rec._path[len(self.root):] if rec._path.startswith(self.root) else rec._path
        self.lock_hist[key] = rel
        if op & fcntl.LOCK_UN:
            self._release_one(key, owner, p)
            return None
        excl = bool(op & fcntl.LOCK_EX)
        nb = bool(op & fcntl.LOCK_NB)
        while True:
            tab = self.locks.setdefault(key, {})
            others = [o for o, (m, _r) in tab.items() if o != owner]
            conflict = [o for o in others if excl or tab[o][0]]
            if not conflict:
                break
            if nb:
                self.probe("lock_contended")
                if p.lock_wait != key:
                    p.lock_wait, p.lock_since = key, self.now
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            p.blocked = key
            self.probe("lock_blocked")
            self._switch(p)
            if p.dead:
                raise SimCrash(p.crashed)
        tab[owner] = (excl, p)
        p.held.add(key)
        if p.lock_wait == key:
            self.max_lock_wait = max(self.max_lock_wait, self.now - p.lock_since)
            p.lock_wait = p.lock_since = None
        if owner[0] == "p":
            rec._lkey = key
        if self.on_lock is not None:
            self.on_lock(p, key, True)
        return None

    on_lock = None
    max_lock_wait = 0.0

    def _release_one(self, key, owner, p):
        tab = self.locks.get(key)
        if tab and owner in tab:
            del tab[owner]
            if not any(q is p for (_m, q) in tab.values()):
                p.held.discard(key)
            self._wake_waiters(key)
            # Polling locks promise no fairness, but timeouts of minutes are no issue in practice: one that
            # has waited for long finds the lock free at its next poll, because the releaser pauses until then.
            for q in self.procs:
                if (q.lock_wait == key and q is not p and not (p.dead or q.dead or q.done)
                        and self.now - q.lock_since > PATIENCE and q.wake - self.now < 1.5):
                    p.wake = max(p.wake, q.wake + 0.3)

    def _release_owner(self, owner, p):
        for key in list(p.held):
            self._release_one(key, owner, p)

    def _release_key(self, key, p):
        tab = self.locks.get(key)
        if tab:
            for o in [o for o, (_m, q) in tab.items() if q is p]:
                del tab[o]
        p.held.discard(key)
        self._wake_waiters(key)

    def _wake_waiters(self, key):
        for q in self.procs:
            if q.blocked == key:
                q.blocked = None
                q.wake = self.now

    probes = None

    def probe(self, name, n=1):
        if self.probes is None:
            self.probes = {}
        self.probes[name] = self.probes.get(name, 0) + n

    def shuffle_names(self, names):
        salt = h64(self.seed, "ls", self.cur.pid, self.cur.ops)
        r = random.Random(salt)
        names = sorted(names)
        r.shuffle(names)
        return names

    # ------------------------------------------------------------------ time, entropy
    def read_clock(self, which):
        p = self.cur
        if p.dead:
            raise SimCrash(p.crashed)
        self.now += 1e-6
        if which == "wall":
            return EPOCH + self.now + p.skew
        return 1000.0 + self.now

    def sleep(self, sec):
        p = self.cur
        if p.dead:
            raise SimCrash(p.crashed)
        p.wake = self.now + max(float(sec), 0.0)
        self.point("sleep", None)

    def mtime_now(self):
        """The kernel stamps files with its coarse clock: 4 ms ticks."""
        return int(EPOCH * 1e9) + int(self.now / 0.004) * 4_000_000

    def entropy(self, n):
        p = self.cur
        p.ent += 1
        out = b""
        i = 0
        while len(out) < n:
            out += hashlib.blake2b(repr((self.seed, p.name, p.pid, p.ent, i)).encode(), digest_size=32).digest()
            i += 1
        return out[:n]


def _short(v, root):
    s = repr(v).replace(root, "$")
    return s if len(s) < 400 else s[:400]


# --------------------------------------------------------------------------- process-private globals
class Context:
    """Gives every simulated process its own copy of what a real process would own:
    module- and class-level mutable globals of the package under test, and the three
    global random number generators.
    """

    PRIMS = (int, float, str, bytes, bool, tuple, frozenset, type(None))

    def __init__(self, modules, use_torch=True):
        import types

        import numpy as np

        self.np = np
        self.torch = None
        if use_torch:
            import torch

            self.torch = torch
        self.slots = []  # (holder, name)
        self.baseline = []
        skip = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type)
        import typing

        const = (typing.TypeVar, types.UnionType)
        seen_cls = set()
        import enum
        import logging

        for m in modules:
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                if isinstance(v, type):
                    if v.__module__ == m.__name__ and v not in seen_cls and not issubclass(v, enum.Enum):
                        seen_cls.add(v)
                        for ck, cv in list(vars(v).items()):
                            if ck.startswith("__") or ck.startswith("_abc"):
                                continue
                            if type(cv) in (dict, list, set) or (type(cv) in (int, float, str, bool, type(None))
                                                                 and not dataclasses.is_dataclass(v)):
                                self.slots.append((v, ck))
                                self.baseline.append(cv)
                    continue
                if isinstance(v, skip) or callable(v) or isinstance(v, const) or isinstance(v, logging.Logger):
                    continue
                if type(v).__name__ == "_Feature":  # from __future__ import
                    continue
                self.slots.append((m, k))
                self.baseline.append(v)
        self.modules = modules
        self.by_holder = {}
        for holder, name in self.slots:
            self.by_holder.setdefault(holder, []).append(name)
        self.dicts = [(holder.__dict__, name) for holder, name in self.slots]
        self.is_cls = [isinstance(holder, type) for holder, _ in self.slots]
        self.current = None

    def fresh(self, p):
        memo = {}
        vals = []
        for v in self.baseline:
            if type(v) in (dict, list, set):
                if id(v) not in memo:
                    memo[id(v)] = v.copy()
                vals.append(memo[id(v)])
            else:
                vals.append(v)
        r = random.Random(p.rng_seed)
        rst = self.np.random.RandomState(p.rng_seed % (2**32))
        st = (ctypes.string_at(rst._bit_generator.ctypes.state_address, self.MT), rst.get_state())
        ts = None
        if self.torch is not None:
            g = self.torch.Generator()
            g.manual_seed(p.rng_seed)
            ts = g.get_state()
        p.ctx = (vals, r.getstate(), st, ts)

    # numpy's get_state/set_state are slow; copy the Mersenne twister's memory (624 words and a
    # position) unless a cached normal deviate is part of the state.
    MT = 625 * 4

    def _np_addr(self):
        return self.np.random.mtrand._rand._bit_generator.ctypes.state_address

    def np_get(self, old):
        raw = ctypes.string_at(self._np_addr(), self.MT)
        if old is not None and old[0] == raw and not old[1][3]:
            return old
        return (raw, self.np.random.get_state())

    def np_set(self, st):
        if st[1][3] or self.np_gauss:
            self.np.random.set_state(st[1])
            self.np_gauss = st[1][3]
        else:
            ctypes.memmove(self._np_addr(), st[0], self.MT)

    np_gauss = 1

    def enter(self, p):
        if p.ctx is None:
            self.fresh(p)
        vals, rs, ns, ts = p.ctx
        for (d, name), v, slot, c in zip(self.dicts, vals, self.slots, self.is_cls):
            if d.get(name) is not v:
                if c:
                    type.__setattr__(slot[0], name, v)
                else:
                    d[name] = v
        random.setstate(rs)
        self.np_set(ns)
        if ts is not None:
            self.torch.random.set_rng_state(ts)

    def leave(self, p):
        vals = [d.get(name) for d, name in self.dicts]
        ts = self.torch.random.get_rng_state() if self.torch is not None else None
        ns = self.np_get(p.ctx[2])
        self.np_gauss = ns[1][3]
        p.ctx = (vals, random.getstate(), ns, ts)
