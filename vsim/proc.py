"""Forked processes: simulated crashes, pristine solo runs, hang detection."""
import ctypes
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

from . import world as W

_real_time = time.monotonic
_os_write, _os_read, _os_exit, _os_close = os.write, os.read, os._exit, os.close
_fork, _pipe = os.fork, os.pipe

_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)


PIPE = None  # write end towards the parent of this process, if any
CHILD_TIMEOUT = 120.0


def medil_frame(e):
    """Innermost place in medil an exception came through, or None."""
    from . import tsim

    out = None
    while e is not None and out is None:
        for f in traceback.extract_tb(e.__traceback__):
            if f.filename.startswith(tsim.PREFIX):
                out = f"{os.path.basename(f.filename)}:{f.name}"
        e = e.__cause__ or e.__context__
    return out


class Outcome:
    """kind: ok | crash | violation | harness | hang | died"""

    def __init__(self, kind, value=None, events=(), stats=None, text=""):
        self.kind, self.value, self.events = kind, value, events
        self.stats, self.text = stats or {}, text


def _send(kind, value, text=""):
    w = W.cur()
    data = pickle.dumps((kind, value, w.events, dict(w.stats), w.sim_seconds, text,
                         w.keys, w.findings, w.nontrivial), 5)
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = _os_write(PIPE, view[:65536])
        view = view[n:]


def crash_here():
    """The current process dies now; nothing buffered in it survives."""
    if PIPE is None:
        raise W.HarnessError("crash outside a forked process")
    W.cur().hit("fault:crash")
    _send("crash", getattr(W.cur(), "crash_info", None))
    _os_exit(77)


def run_child(fn, *args, timeout=None, fresh_world=True):
    """Run ``fn(*args)`` in a forked process; wait for it.

    The process is ended with _exit right after fn returns, so data buffered
    in it never reaches the disk.
    """
    global PIPE
    timeout = timeout or CHILD_TIMEOUT
    r, wr = _pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    W.cur().children += 1
    pid = _fork()
    if pid == 0:
        code = 1
        try:
            _die_with_parent()
            _os_close(r)
            PIPE = wr
            parent = W.cur()
            if fresh_world:
                w = W.World(parent.ch, parent.root, parent.seed)
                w.clock, w.fs, w.pools = parent.clock, parent.fs, parent.pools
                w.entropy = random.Random(f"entropy {parent.seed} {parent.children}")
                W.set_world(w)
            try:
                v = fn(*args)
                _send("ok", v)
            except W.Violation as e:
                _send("violation", (e.kind, e.msg))
            except W.SimDeadlock as e:
                _send("deadlock", str(e))
            except W.HarnessError as e:
                _send("harness", repr(e), traceback.format_exc())
            except BaseException as e:
                where = medil_frame(e)
                if where:
                    _send("violation", ("raised", f"{type(e).__name__}: {e} at {where}"))
                else:
                    _send("harness", repr(e), traceback.format_exc())
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            _os_exit(code)
    _os_close(wr)
    buf = bytearray()
    deadline = _real_time() + timeout
    hang = False
    while True:
        left = deadline - _real_time()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = _os_read(r, 1 << 20)
        if not b:
            break
        buf += b
        if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
            break
    if hang:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    os.waitpid(pid, 0)
    if hang:
        return Outcome("hang", text=f"no answer in {timeout} s of real time")
    if len(buf) < 8:
        return Outcome("died", text="process ended without a report")
    n = struct.unpack("<Q", buf[:8])[0]
    try:
        kind, value, events, stats, secs, text, keys, finds, nontriv = pickle.loads(
            bytes(buf[8:8 + n]))
    except Exception as e:
        return Outcome("died", text=f"unreadable report: {e!r}")
    if fresh_world:
        w = W.cur()
        w.events.extend(("  ",) + tuple(e) for e in events)
        w.stats.update(stats)
        w.sim_seconds += secs
        w.keys |= keys
        w.findings.extend(finds)
        w.nontrivial |= nontriv
    return Outcome(kind, value, events, stats, text)


def unwrap(o, allow=("ok",)):
    """Value of a child that has to end in one of the allowed ways."""
    if o.kind in allow:
        return o.value
    if o.kind == "violation":
        raise W.Violation(*o.value)
    if o.kind == "deadlock":
        raise W.Violation("hang", f"waits forever: {o.value}")
    if o.kind == "hang":
        raise W.Violation("no-progress", o.text)
    raise W.HarnessError(f"child {o.kind}: {o.value} {o.text}")
