"""Simulated disk and clock.

Files live in a real scratch directory, but every Python-level operation on
them goes through this layer, which counts it, may delay it (simulated clock),
may make it fail, may split or tear a write, or may kill the process at it.
"""
import builtins
import datetime as _dt
import errno
import io
import os
import stat
import time as _time

from . import proc
from . import world as W

real = {}
for _n in ("open", "write", "close", "mkdir", "rename", "replace", "unlink", "remove",
           "rmdir", "fsync", "fdatasync", "truncate", "ftruncate", "link", "symlink",
           "utime", "chmod", "pwrite", "writev", "sendfile", "copy_file_range"):
    if hasattr(os, _n):
        real["os." + _n] = getattr(os, _n)
real["open"] = builtins.open
_getcwd = os.getcwd
_lstat = os.lstat

ERRNOS = {
    "open": [errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EIO, errno.EROFS],
    "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT],
    "close": [errno.EIO, errno.ENOSPC],
    "mkdir": [errno.ENOSPC, errno.EACCES, errno.EROFS],
    "rename": [errno.EIO, errno.ENOSPC],
    "fsync": [errno.EIO],
    "unlink": [errno.EIO],
}


class Fault:
    """Fires at operation number ``at`` (counted from arming) of the disk.

    kind: error | crash | short | stall
    when: before | mid | after   (position relative to the operation's effect)
    persist: number of following operations that fail as well
    """

    def __init__(self, at, kind, when="before", eno=0, frac=0.5, persist=0, jump=0.0):
        self.at, self.kind, self.when, self.eno = at, kind, when, eno
        self.frac, self.persist, self.jump = frac, persist, jump

    def __repr__(self):
        d = {"error": f"{errno.errorcode.get(self.eno, self.eno)} when={self.when} persist={self.persist}",
             "crash": f"when={self.when} frac={self.frac:.2f}",
             "short": f"frac={self.frac:.2f}", "stall": f"jump={self.jump:.0f}s"}[self.kind]
        return f"op#{self.at}:{self.kind} {d}"


class FS:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.n = 0
        self.faults = []
        self.trace = []  # (kind, relpath) of every operation since arming
        self.escapes = []  # writes outside the scratch directory
        self.fired = []  # (kind, op kind, path)
        self.failing = 0
        self.fail_eno = 0
        self.fds = {}
        self.open_files = {}  # descriptors of Python file objects
        self.on_op = None

    def arm(self, faults=()):
        self.n = 0
        self.trace = []
        self.fired = []
        self.failing = 0
        self.faults = list(faults)

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def inside(self, path):
        return path == self.root or path.startswith(self.root + os.sep)

    # -- one disk operation -------------------------------------------------
    def op(self, kind, path, size=0):
        """Returns (frac or None): None = do it; frac = perform only that
        fraction (write) ; raises for an error; never returns for a crash
        before the operation.  Second value: fault to apply afterwards."""
        k = self.n
        self.n += 1
        self.trace.append((kind, self.rel(path)))
        w = W.cur()
        w.ev("io", k, kind, self.rel(path), size)
        w.hit("io_ops")
        if self.on_op is not None:
            self.on_op(kind, path)
        if w.clock is not None:
            w.clock.tick(0.0005)
        if w.sched is not None:
            w.sched.point()
        if self.failing > 0 and kind not in ("unlink",):
            self.failing -= 1
            self._fire("error", kind, path)
            raise OSError(self.fail_eno, os.strerror(self.fail_eno), path)
        for f in self.faults:
            if f.at != k:
                continue
            if f.kind == "stall":
                self._fire("stall", kind, path)
                if w.clock is not None:
                    w.clock.jump(f.jump)
            elif f.kind == "crash":
                if f.when == "before":
                    self._fire("crash", kind, path)
                    proc.crash_here()
                return f
            elif f.kind == "short":
                if kind == "write" and size > 1:
                    self._fire("short", kind, path)
                    return f
            elif f.kind == "error":
                self._fire("error", kind, path)
                self.failing, self.fail_eno = f.persist, f.eno
                if f.when == "before" or kind not in ("write", "close"):
                    raise OSError(f.eno, os.strerror(f.eno), path)
                return f
        return None

    def _fire(self, fault, kind, path):
        W.cur().hit(f"fault:{fault}@{kind}")
        W.cur().ev("fault", fault, kind, self.rel(path))
        self.fired.append((fault, kind, self.rel(path)))

    def after(self, f, kind, path):
        if f is not None and f.kind == "crash":
            self._fire("crash", kind, path)
            proc.crash_here()

    # -- raw writes ---------------------------------------------------------
    def write(self, path, data, do):
        """do(bytes) -> number written to the real file."""
        data = bytes(data)
        f = self.op("write", path, len(data))
        if f is None:
            return do(data)
        cut = min(len(data) - 1, int(len(data) * f.frac)) if len(data) > 0 else 0
        cut = max(0, cut)
        if f.kind == "short":
            return do(data[:max(1, cut)])
        if f.kind == "crash":
            part = data[:cut] if f.when == "mid" else data
            while part:
                part = part[do(part):]
            self.after(f, "write", path)
        # error in the middle: a prefix reached the disk, the rest did not
        part = data[:cut]
        while part:
            part = part[do(part):]
        raise OSError(f.eno, os.strerror(f.eno), path)


class SimFile(io.FileIO):
    def __init__(self, path, mode, fs, opener=None, closefd=True, fd=None):
        self._sim_path, self._sim_fs = path, fs
        self._sim_writable = any(c in mode for c in "wax+")
        super().__init__(path if fd is None else fd, mode, closefd, opener)
        fs.open_files[self.fileno()] = path

    def write(self, b):
        if W.cur().fs is not self._sim_fs:
            return super().write(b)
        return self._sim_fs.write(self._sim_path, memoryview(b).cast("B"), super().write)

    def truncate(self, size=None):
        if W.cur().fs is self._sim_fs:
            self._sim_fs.op("truncate", self._sim_path)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        self._sim_fs.open_files.pop(self.fileno(), None)
        if not self._sim_writable or W.cur().fs is not self._sim_fs:
            return super().close()
        fs, path = self._sim_fs, self._sim_path
        try:
            f = fs.op("close", path)
        except OSError:
            self._lose_tail()
            super().close()
            raise
        if f is not None and f.kind == "error":
            self._lose_tail()
            super().close()
            raise OSError(f.eno, os.strerror(f.eno), path)
        super().close()
        fs.after(f, "close", path)

    def _lose_tail(self):
        # a close that fails is a write-back that failed: the tail is lost
        try:
            end = os.fstat(self.fileno()).st_size
            if end:
                real["os.ftruncate"](self.fileno(), end - max(1, end // 3))
        except OSError:
            pass


def _target(path):
    """Absolute path if this process simulates a disk and path names a file."""
    w = W.cur()
    if w.fs is None or isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    # as the system resolves it: "link/.." is not the directory of the link
    d, b = os.path.split(os.path.join(_getcwd(), p))
    if b in ("", ".", ".."):
        return os.path.realpath(os.path.join(d, b))
    return os.path.join(os.path.realpath(d), b)


def _guard(kind, path):
    """Path to simulate, or None to pass through; refuses outside writes."""
    p = _target(path)
    if p is None or p.startswith(("/dev/", "/proc/")):
        return None
    fs = W.cur().fs
    if fs.inside(p):
        return p
    fs.escapes.append((kind, p))
    W.cur().ev("escape", kind)
    raise PermissionError(errno.EACCES, "simulated disk: outside the scratch directory", p)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    w = W.cur()
    if w.fs is None:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    fd = None
    if opener is not None:
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[next(c for c in mode if c in "rwax")]
        if "+" in mode:
            flags = flags & ~(os.O_WRONLY) | os.O_RDWR
        fd = opener(file, flags | os.O_CLOEXEC)
        p = w.fs.fds.get(fd)
        if p is None:
            return real["open"](fd, mode, buffering, encoding, errors, newline, closefd)
    elif isinstance(file, int):
        p = w.fs.fds.get(file)
        if p is None:
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd = file
    else:
        if not any(c in mode for c in "wax+"):
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = _guard("open", file)
        if p is None:
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    if fd is None:
        f = w.fs.op("open", p)
        raw = SimFile(p, rawmode, w.fs)
        w.fs.after(f, "open", p)
    else:
        raw = SimFile(p, rawmode, w.fs, fd=fd, closefd=closefd)
        w.fs.fds.pop(fd, None)
    if buffering == 0:
        if "b" not in mode:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line = False
    if buffering == 1 and "b" not in mode:
        buffering, line = -1, True
    size = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in mode for c in "wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line)
    t.mode = mode
    return t


def _simple(osname, kind):
    fn = real["os." + osname]

    def op(path, *a, **k):
        if W.cur().fs is None:
            return fn(path, *a, **k)
        p = _guard(kind, path)
        if p is None:
            return fn(path, *a, **k)
        f = W.cur().fs.op(kind, p)
        r = fn(path, *a, **k)
        W.cur().fs.after(f, kind, p)
        return r

    op.__name__ = osname
    return op


def _two(osname, kind):
    fn = real["os." + osname]

    def op(src, dst, *a, **k):
        if W.cur().fs is None:
            return fn(src, dst, *a, **k)
        p = _guard(kind, src)
        q = _guard(kind, dst)
        if p is None or q is None:
            return fn(src, dst, *a, **k)
        f = W.cur().fs.op(kind, q)
        r = fn(src, dst, *a, **k)
        W.cur().fs.after(f, kind, q)
        return r

    op.__name__ = osname
    return op


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = W.cur()
    if w.fs is None or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
        return real["os.open"](path, flags, mode, dir_fd=dir_fd)
    p = _guard("open", path)
    if p is None:
        return real["os.open"](path, flags, mode, dir_fd=dir_fd)
    f = w.fs.op("open", p)
    fd = real["os.open"](path, flags, mode, dir_fd=dir_fd)
    w.fs.fds[fd] = p
    w.fs.after(f, "open", p)
    return fd


def _os_write(fd, data):
    w = W.cur()
    p = w.fs.fds.get(fd) or w.fs.open_files.get(fd) if w.fs is not None else None
    if p is None:
        return real["os.write"](fd, data)
    return w.fs.write(p, memoryview(data).cast("B"), lambda b: real["os.write"](fd, b))


def _os_close(fd):
    w = W.cur()
    p = w.fs.fds.pop(fd, None) if w.fs is not None else None
    if p is None:
        return real["os.close"](fd)
    try:
        f = w.fs.op("close", p)
    finally:
        real["os.close"](fd)
    if f is not None and f.kind == "error":
        raise OSError(f.eno, os.strerror(f.eno), p)
    w.fs.after(f, "close", p)


def _os_fsync(fd):
    w = W.cur()
    n = fd if isinstance(fd, int) else fd.fileno()
    if w.fs is not None:
        try:
            p = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            p = w.fs.root
        if w.fs.inside(p):
            f = w.fs.op("fsync", p)
            w.fs.after(f, "fsync", p)
    return real["os.fsync"](n)


# -- clock ------------------------------------------------------------------
class Clock:
    """Wall clock and monotonic clock of the simulated run."""

    def __init__(self, start=1_700_000_000.0, plan=(), step=0.013):
        self.wall, self.step = start, step
        self.mono = 1000.0
        self.reads = []
        self.count = 0
        self.plan = {int(i): d for i, d in plan}  # read number -> jump of the wall clock

    def tick(self, d):
        self.wall += d
        self.mono += d
        W.cur().sim_seconds += d

    def jump(self, d):
        """Elapsed time (forward) or a step of the wall clock (backward)."""
        if d > 0:
            self.tick(d)
        else:
            self.wall += d
        W.cur().hit("fault:clock_forward" if d > 0 else "fault:clock_back")

    def read(self):
        self.count += 1
        if self.count - 1 in self.plan:
            self.jump(self.plan[self.count - 1])
        self.tick(self.step)
        return self.mono

    def now(self):
        self.read()
        self.reads.append(self.wall)
        return self.wall


_real_dt = _dt.datetime
_real_date = _dt.date


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_dt)

    def __subclasscheck__(cls, o):
        return issubclass(o, _real_dt)


class SimDatetime(_real_dt, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        c = W.cur().clock
        if c is None:
            return _real_dt.now(tz)
        return _real_dt.fromtimestamp(c.now(), tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        c = W.cur().clock
        return _real_dt.utcnow() if c is None else _real_dt.utcfromtimestamp(c.now())


def _timefn(name, wall, scale=1):
    fn = getattr(_time, name)

    def f():
        c = W.cur().clock
        if c is None:
            return fn()
        v = c.now() if wall else c.read()
        return int(v * 1e9) if scale == 9 else v

    f.__name__ = name
    return f


def _timeconv(name):
    fn = getattr(_time, name)

    def f(secs=None):
        c = W.cur().clock
        if secs is None and c is not None:
            secs = c.now()
        return fn(secs) if secs is not None else fn()

    f.__name__ = name
    return f


def install():
    import torch

    builtins.open = sim_open
    io.open = sim_open
    os.open, os.write, os.close, os.fsync = _os_open, _os_write, _os_close, _os_fsync
    if hasattr(os, "fdatasync"):
        os.fdatasync = _os_fsync
    for n, k in (("mkdir", "mkdir"), ("unlink", "unlink"), ("remove", "unlink"),
                 ("rmdir", "unlink"), ("truncate", "truncate")):
        setattr(os, n, _simple(n, k))
    for n in ("rename", "replace"):
        setattr(os, n, _two(n, "rename"))

    real_save = torch.save

    def save(obj, f, *a, **k):
        if W.cur().fs is None or not isinstance(f, (str, os.PathLike)):
            return real_save(obj, f, *a, **k)
        # the container writer is C++ and would bypass the simulated disk:
        # let it write to memory, then write that through the simulated disk
        b = io.BytesIO()
        try:
            with sim_open(f, "wb") as h:
                real_save(obj, b, *a, **k)
                data = b.getvalue()
                step = max(1, len(data) // 3)
                for i in range(0, len(data), step):
                    h.write(data[i:i + step])
                    h.flush()
        except OSError as e:
            if not os.fspath(f).isascii():  # torch opens such a file in Python
                raise
            raise RuntimeError(f"[enforce fail at inline_container.cc] . {e.strerror}: {f}") from None

    save.__name__ = "save"
    torch.save = save

    _dt.datetime = SimDatetime
    real_sleep = _time.sleep
    real_strftime = _time.strftime

    def sleep(s):
        c = W.cur().clock
        if c is None:
            return real_sleep(s)
        c.tick(s)
        if W.cur().sched is not None:
            W.cur().sched.point()

    def strftime(fmt, t=None):
        return real_strftime(fmt, _time.localtime() if t is None else t)

    _time.sleep, _time.strftime = sleep, strftime
    for n, wall, sc in (("time", 1, 1), ("time_ns", 1, 9), ("monotonic", 0, 1),
                        ("monotonic_ns", 0, 9), ("perf_counter", 0, 1), ("perf_counter_ns", 0, 9),
                        ("process_time", 0, 1), ("process_time_ns", 0, 9), ("thread_time", 0, 1),
                        ("thread_time_ns", 0, 9)):
        setattr(_time, n, _timefn(n, wall, sc))
    for n in ("localtime", "gmtime", "ctime"):
        setattr(_time, n, _timeconv(n))
