"""Seams: every source of nondeterminism the code under test can reach is
replaced by a dispatcher that consults the active simulation when (and only
when) it is called from a simulated process, and falls through to the real
implementation otherwise.

Import this module BEFORE importing neps / portalocker / anything that binds
these functions by value (`from time import monotonic`, `LOCKER = fcntl.flock`).
"""
from __future__ import annotations

import _io
import builtins
import datetime as _dt
import errno
import fcntl
import functools
import io
import os
import random
import stat as _stat
import sys
import threading
import time
import uuid
from _thread import get_ident

SIM = None  # the active Simulation (one per OS process at a time)


class SimCrash(BaseException):
    """The simulated process has been killed (SIGKILL semantics)."""


class R:
    """The real implementations."""

    pass


R.open = io.open
R.time = time.time
R.monotonic = time.monotonic
R.perf_counter = time.perf_counter
R.sleep = time.sleep
R.urandom = os.urandom
R.getpid = os.getpid
R.flock = fcntl.flock
R.lockf = fcntl.lockf
R.os = {
    n: getattr(os, n)
    for n in (
        "stat", "lstat", "mkdir", "rmdir", "listdir", "scandir", "unlink", "remove", "rename",
        "replace", "link", "symlink", "utime", "open", "close", "write", "read", "fsync",
        "fdatasync", "truncate", "access", "fstat",
    )
}


def active():
    """The simulation, if the calling thread is the simulated process that holds the baton."""
    s = SIM
    if s is not None and s.bypass == 0:
        c = s.cur
        if c is not None and c.ident == get_ident():
            return s
    return None


# --------------------------------------------------------------------------- files
class SimFileIO(io.FileIO):
    """A raw file whose every system call is a scheduling and fault point."""

    _sim = None
    _proc = None
    _did_read = False
    _dead = False

    def __init__(self, path, mode, sim, opener=None):
        super().__init__(path, mode, opener=opener)
        self._sim = sim
        self._proc = sim.cur
        self._path = os.fspath(path) if not isinstance(path, int) else sim.fd_by_num[path]._path
        self._w = any(c in mode for c in "wax+")
        sim.register_file(self)

    def _inactive(self):
        return self._dead or active() is not self._sim

    def write(self, b):
        if self._dead:
            return len(memoryview(b).cast("B"))
        if self._inactive():
            return super().write(b)
        data = bytes(b)
        act = self._sim.point("write", self._path, mut=True)
        if act is not None:
            kind = act[0]
            cut = int(act[1] * len(data))
            if kind == "torn":
                if cut:
                    super().write(data[:cut])
                self._sim.crash_current("torn write")
            elif kind in ("ENOSPC", "EIO"):
                if cut:
                    super().write(data[:cut])
                raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)), self._path)
            elif kind == "short":
                cut = max(1, cut)
                return super().write(data[:cut])
        n = super().write(data)
        _touched(self._sim, self.fileno())
        return n

    def _rd(self):
        if not self._did_read and not self._inactive():
            self._did_read = True
            act = self._sim.point("read", self._path)
            if act is not None and act[0] in ("EIO",):
                raise OSError(errno.EIO, os.strerror(errno.EIO), self._path)

    def readinto(self, b):
        self._rd()
        return super().readinto(b)

    def readall(self):
        self._rd()
        return super().readall()

    def read(self, n=-1):
        self._rd()
        return super().read(n)

    def truncate(self, size=None):
        if self._dead:
            return 0
        if not self._inactive():
            self._sim.point("truncate", self._path, mut=True)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        if not self._inactive():
            act = None
            try:
                act = self._sim.point("close", self._path, mut=self._w)
            except SimCrash:
                self._real_close()
                raise
            if act is not None and self._w:
                kind = act[0]
                if kind == "torn":
                    # bytes written behind our back (C stdio) by this process may be partial
                    try:
                        n = os.fstat(self.fileno()).st_size
                        os.ftruncate(self.fileno(), int(n * act[1]))
                    except OSError:
                        pass
                    self._sim.crash_current("torn close")
        self._real_close()

    def _real_close(self):
        s = self._sim
        if s is not None and not self.closed:
            s.unregister_file(self)
        super().close()

    def kill(self):
        """The owning process died: drop everything, for real."""
        self._dead = True
        if not self.closed:
            if self._sim is not None:
                self._sim.unregister_file(self)
            io.FileIO.close(self)


def _in_root(s, p):
    if isinstance(p, int):
        return p in s.fd_by_num
    try:
        p = os.fspath(p)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        p = os.path.join(s.cwd, p)
    return p.startswith(s.root)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    s = active()
    if s is None or not _in_root(s, file):
        return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    mut = any(c in rawmode for c in "wax+")
    if not isinstance(file, int):
        act = s.point("open:" + rawmode, os.fspath(file), mut=mut)
        if act is not None and act[0] in ("ENOSPC", "EIO", "EMFILE", "EACCES"):
            e = act[0]
            if e != "ENOSPC" or mut:
                raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)), os.fspath(file))
    raw = SimFileIO(file, rawmode, s, opener)
    if mut and not isinstance(file, int):
        k = _mkey(raw.fileno())
        if "a" not in rawmode and "r" not in rawmode or k not in s.mtimes:
            s.mtimes[k] = s.mtime_now()
            _touched(s, os.path.dirname(os.fspath(file)))
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line_buffering = buffering == 1
        bs = io.DEFAULT_BUFFER_SIZE if buffering < 0 or buffering == 1 else buffering
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, bs)
        elif "r" in rawmode:
            buf = io.BufferedReader(raw, bs)
        else:
            buf = io.BufferedWriter(raw, bs)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


# --------------------------------------------------------------------------- modification times
def _mkey(path_or_fd):
    try:
        st = R.os["fstat"](path_or_fd) if isinstance(path_or_fd, int) else R.os["stat"](path_or_fd)
    except OSError:
        return None
    return (st.st_dev, st.st_ino)


def _touched(s, path_or_fd, parent=False):
    k = _mkey(path_or_fd)
    if k is not None:
        s.mtimes[k] = s.mtime_now()
    if parent and not isinstance(path_or_fd, int):
        k = _mkey(os.path.dirname(os.fspath(path_or_fd)))
        if k is not None:
            s.mtimes[k] = s.mtime_now()


def _virtual_stat(s, st):
    """File times come from the virtual clock, with the granularity of a real kernel's tick."""
    ns = s.mtimes.get((st.st_dev, st.st_ino), s.mtime0)
    sec = ns // 1_000_000_000
    f = ns / 1e9
    return os.stat_result(
        (st.st_mode, st.st_ino, st.st_dev, st.st_nlink, st.st_uid, st.st_gid, st.st_size, sec, sec, sec),
        {"st_atime": f, "st_mtime": f, "st_ctime": f, "st_atime_ns": ns, "st_mtime_ns": ns, "st_ctime_ns": ns,
         "st_blksize": st.st_blksize, "st_blocks": st.st_blocks, "st_rdev": st.st_rdev})


def _os_fstat(fd):
    s = active()
    st = R.os["fstat"](fd)
    if s is None or fd not in s.fd_by_num:
        return st
    return _virtual_stat(s, st)


# --------------------------------------------------------------------------- os.*
_MUT = {"mkdir", "rmdir", "unlink", "remove", "rename", "replace", "link", "symlink", "utime",
        "truncate", "chmod"}
_ERR_OK = {"mkdir", "rename", "replace", "link", "symlink", "stat", "lstat", "listdir", "unlink", "utime"}


def _wrap_path(name):
    real = R.os[name]
    mut = name in _MUT

    def f(path, *a, **kw):
        s = active()
        if s is None:
            return real(path, *a, **kw)
        dirfd = kw.get("dir_fd")
        if not (_in_root(s, path) or (dirfd is not None and dirfd in s.fd_by_num)):
            if not (name in ("rename", "replace", "link") and a and _in_root(s, a[0])):
                return real(path, *a, **kw)
        act = s.point(name, path if isinstance(path, int) else os.fspath(path), mut=mut)
        if act is not None and act[0] in ("ENOSPC", "EIO", "EMFILE") and name in _ERR_OK:
            e = getattr(errno, act[0])
            raise OSError(e, os.strerror(e), os.fspath(path))
        if mut and dirfd is None:
            gone = None
            if name in ("unlink", "remove", "rmdir"):
                gone = _mkey(path)
            elif name in ("replace", "rename") and a:
                gone = _mkey(a[0])
            r = real(path, *a, **kw)
            s.mtimes.pop(gone, None)
            if name == "mkdir" or name == "truncate":
                _touched(s, path, parent=name == "mkdir")
            elif name == "utime":
                times = a[0] if a else kw.get("times")
                ns = kw.get("ns")
                k = _mkey(path)
                if k is not None:
                    s.mtimes[k] = int(ns[1]) if ns else (int(times[1] * 1e9) if times else s.mtime_now())
            else:
                _touched(s, os.path.dirname(os.fspath(path)))
                if name in ("replace", "rename", "link", "symlink") and a:
                    _touched(s, os.path.dirname(os.fspath(a[0])))
            return r
        r = real(path, *a, **kw)
        if name == "listdir":
            r = s.shuffle_names(r)
        elif name == "stat":
            r = _virtual_stat(s, r)
        return r

    f.__name__ = name
    return f


class _Scan:
    def __init__(self, entries):
        self._e = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._e)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _scandir(path="."):
    s = active()
    if s is None or not _in_root(s, path):
        return R.os["scandir"](path)
    act = s.point("scandir", path if isinstance(path, int) else os.fspath(path))
    if act is not None and act[0] in ("EIO", "EMFILE"):
        e = getattr(errno, act[0])
        raise OSError(e, os.strerror(e), os.fspath(path))
    with R.os["scandir"](path) as it:
        ents = list(it)
    names = s.shuffle_names([e.name for e in ents])
    by = {e.name: e for e in ents}
    return _Scan([by[n] for n in names])


class _FdRec:
    """A descriptor obtained with os.open by a simulated process."""

    def __init__(self, fd, path, proc):
        self.fd, self._path, self._proc = fd, path, proc
        self.is_raw = True

    def kill(self):
        s = SIM
        if s is not None and s.fd_by_num.get(self.fd) is self:
            s.unregister_file(self)
            R.os["close"](self.fd)

    def fileno(self):
        return self.fd


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = active()
    if s is None or not (_in_root(s, path) or (dir_fd is not None and dir_fd in s.fd_by_num)):
        return R.os["open"](path, flags, mode, dir_fd=dir_fd)
    mut = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    act = s.point("os.open", os.fspath(path), mut=mut)
    if act is not None and act[0] in ("ENOSPC", "EIO", "EMFILE") and mut:
        e = getattr(errno, act[0])
        raise OSError(e, os.strerror(e), os.fspath(path))
    fd = R.os["open"](path, flags, mode, dir_fd=dir_fd)
    if mut and (flags & os.O_TRUNC or _mkey(fd) not in s.mtimes):
        _touched(s, fd)
    s.register_file(_FdRec(fd, os.fspath(path), s.cur))
    return fd


def _os_close(fd):
    s = active()
    if s is not None:
        rec = s.fd_by_num.get(fd)
        if rec is not None and getattr(rec, "is_raw", False):
            s.unregister_file(rec)
    return R.os["close"](fd)


def _os_write(fd, data):
    s = active()
    if s is not None:
        rec = s.fd_by_num.get(fd)
        if rec is not None:
            act = s.point("write", rec._path, mut=True)
            if act is not None:
                b = bytes(data)
                cut = int(act[1] * len(b))
                if act[0] == "torn":
                    if cut:
                        R.os["write"](fd, b[:cut])
                    s.crash_current("torn write")
                elif act[0] in ("ENOSPC", "EIO"):
                    if cut:
                        R.os["write"](fd, b[:cut])
                    e = getattr(errno, act[0])
                    raise OSError(e, os.strerror(e), rec._path)
                elif act[0] == "short":
                    return R.os["write"](fd, b[: max(1, cut)])
            n = R.os["write"](fd, data)
            _touched(s, fd)
            return n
    return R.os["write"](fd, data)


def _os_sync(name):
    real = R.os[name]

    def f(fd):
        s = active()
        if s is not None:
            n = fd if isinstance(fd, int) else fd.fileno()
            rec = s.fd_by_num.get(n)
            if rec is not None:
                s.point(name, rec._path, mut=True)
        return real(fd)

    return f


def _flock(fd, op):
    s = active()
    if s is not None:
        n = fd if isinstance(fd, int) else fd.fileno()
        rec = s.fd_by_num.get(n)
        if rec is not None:
            return s.flock(rec, op, owner=("f", id(rec)))
    return R.flock(fd, op)


def _lockf(fd, cmd, len=0, start=0, whence=0):
    s = active()
    if s is not None:
        n = fd if isinstance(fd, int) else fd.fileno()
        rec = s.fd_by_num.get(n)
        if rec is not None:
            return s.flock(rec, cmd, owner=("p", s.cur.pid))
    return R.lockf(fd, cmd, len, start, whence)


# --------------------------------------------------------------------------- time, entropy
def _mk_clock(name, ns):
    real = getattr(time, name)

    def f():
        s = active()
        if s is None:
            return real()
        v = s.read_clock("wall" if name.startswith("time") else "mono")
        return int(v * 1e9) if ns else v

    f.__name__ = name
    return f


def _sleep(sec):
    s = active()
    if s is None:
        return R.sleep(sec)
    if sec < 0:
        raise ValueError("sleep length must be non-negative")
    s.sleep(sec)


def _urandom(n):
    s = active()
    return R.urandom(n) if s is None else s.entropy(n)


def _getpid():
    s = active()
    return R.getpid() if s is None else s.cur.pid


class _SimDTMeta(type(_dt.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDateTime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _RealDateTime)


_RealDateTime = _dt.datetime


class SimDateTime(_RealDateTime, metaclass=_SimDTMeta):
    @classmethod
    def now(cls, tz=None):
        s = active()
        if s is None:
            return _RealDateTime.now(tz)
        return _RealDateTime.fromtimestamp(s.read_clock("wall"), tz)

    @classmethod
    def utcnow(cls):
        s = active()
        if s is None:
            return _RealDateTime.utcnow()
        return _RealDateTime.utcfromtimestamp(s.read_clock("wall"))

    @classmethod
    def today(cls):
        return cls.now()


_real_random_seed = random.Random.seed


def _random_seed(self, a=None, version=2):
    if a is None:
        s = active()
        if s is not None:
            a = int.from_bytes(s.entropy(32), "big")
    return _real_random_seed(self, a, version)


# --------------------------------------------------------------------------- what a process owns
class SimMutex:
    """threading.Lock / RLock created by the code under test: a real process has its own, so
    two simulated processes must neither exclude nor deadlock each other through it."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._n = {}

    def _key(self):
        s = active()
        return None if s is None else s.cur.pid

    def acquire(self, blocking=True, timeout=-1):
        k = self._key()
        n = self._n.get(k, 0)
        if n and not self._re:
            if not blocking:
                return False
            s = active()
            if s is not None:
                if timeout is not None and timeout >= 0:
                    s.sleep(timeout)
                    return False
                s.log("deadlock", procs=[s.cur.name])
                s.abort("deadlock")
                raise SimCrash("deadlock")
            raise RuntimeError("deadlock")
        self._n[k] = n + 1
        return True

    def release(self):
        k = self._key()
        if not self._n.get(k):
            raise RuntimeError("release unlocked lock")
        self._n[k] -= 1

    def locked(self):
        return bool(self._n.get(self._key()))

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _from_package(depth=2):
    return sys._getframe(depth).f_globals.get("__name__", "").partition(".")[0] == "neps"


def _mk_lock(real, reentrant):
    def factory(*a, **kw):
        return SimMutex(reentrant) if _from_package() else real(*a, **kw)

    return factory


_real_lru_cache = functools.lru_cache


def _lru_cache(maxsize=128, typed=False):
    """functools.lru_cache of the code under test keeps one cache per simulated process."""
    def deco(fn):
        caches = {}

        def mine():
            s = active()
            k = None if s is None else (id(s), s.cur.pid)
            c = caches.get(k)
            if c is None:
                c = caches[k] = _real_lru_cache(maxsize, typed)(fn)
            return c

        @functools.wraps(fn)
        def wrapper(*a, **kw):
            return mine()(*a, **kw)

        wrapper.cache_info = lambda: mine().cache_info()
        wrapper.cache_clear = lambda: mine().cache_clear()
        wrapper.cache_parameters = lambda: mine().cache_parameters()
        return wrapper

    if callable(maxsize) and isinstance(typed, bool):
        fn = maxsize
        if getattr(fn, "__module__", "") and fn.__module__.partition(".")[0] == "neps":
            maxsize = 128
            return deco(fn)
        return _real_lru_cache(fn, typed)

    def choose(fn):
        if getattr(fn, "__module__", "") and fn.__module__.partition(".")[0] == "neps":
            return deco(fn)
        return _real_lru_cache(maxsize, typed)(fn)

    return choose


def _cache(fn):
    return _lru_cache(maxsize=None)(fn)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open  # tempfile
    for n in ("stat", "mkdir", "rmdir", "listdir", "unlink", "remove", "rename", "replace", "link",
              "symlink", "utime", "truncate", "access"):
        setattr(os, n, _wrap_path(n))
    for setname in ("supports_dir_fd", "supports_fd", "supports_follow_symlinks", "supports_effective_ids"):
        ss = getattr(os, setname)
        for n, real in R.os.items():
            if real in ss:
                ss.add(getattr(os, n))
    os.fstat = _os_fstat
    os.scandir = _scandir
    os.open = _os_open
    os.close = _os_close
    os.write = _os_write
    os.fsync = _os_sync("fsync")
    os.fdatasync = _os_sync("fdatasync")
    os.urandom = _urandom
    os.getpid = _getpid
    fcntl.flock = _flock
    fcntl.lockf = _lockf
    for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(time, n, _mk_clock(n, n.endswith("_ns")))
    time.sleep = _sleep
    random.Random.seed = _random_seed
    random._urandom = _urandom
    uuid._generate_time_safe = None
    uuid._UuidCreate = None
    # scandir() of a descriptor entry's stat() etc. are real and not scheduling points


def install_late():
    """After the heavy third-party imports, before neps: replace the datetime class (C
    extensions check its size at import) and torch.save (writes from C++ when handed a path).
    """
    import torch

    _dt.datetime = SimDateTime

    real_save = torch.save

    def save(obj, f, *a, **kw):
        s = active()
        if s is None or not isinstance(f, (str, os.PathLike)):
            return real_save(obj, f, *a, **kw)
        buf = io.BytesIO()
        real_save(obj, buf, *a, **kw)
        with sim_open(f, "wb") as fh:
            fh.write(buf.getbuffer())

    # created by the package itself only (see _from_package); third-party code keeps the real ones
    threading.Lock = _mk_lock(threading.Lock, False)
    threading.RLock = _mk_lock(threading.RLock, True)
    functools.lru_cache = _lru_cache
    functools.cache = _cache

    torch.save = save
    import torch.serialization

    torch.serialization.save = save

    import yaml

    _memo_yaml(yaml)


def _memo_yaml(yaml):
    """Parsing the same text twice gives equal results; the pure Python parser is slow. The
    text is still read from the stream (all seams pass), only the parse is remembered."""
    import pickle

    memo = {}
    real = yaml.load

    def load(stream, Loader):  # noqa: N803
        if active() is None:
            return real(stream, Loader)
        text = stream if isinstance(stream, (str, bytes)) else stream.read()
        key = (Loader, text)
        got = memo.get(key)
        if got is None:
            obj = real(text, Loader)
            try:
                got = pickle.dumps(obj)
            except Exception:  # noqa: BLE001
                return obj
            memo[key] = got
            return obj
        return pickle.loads(got)

    yaml.load = load
