"""Deterministic threads and interrupts, at source-line granularity of medil."""
import dis
import os
import sys
import threading

from . import world as W

_Lock, _RLock = threading.Lock, threading.RLock
PREFIX = None  # set by seam: directory of the package, with trailing slash


def _mine(frame):
    return frame.f_code.co_filename.startswith(PREFIX)


_exits = {}


def _leaving_with(frame):
    """Is the frame between the body of a with statement and its __exit__?

    The interpreter does not look for signals there, and an exception at that
    point would skip __exit__ whatever the code does."""
    code = frame.f_code
    if code not in _exits:
        ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "EXTENDED_ARG")]
        out = set()
        for k, i in enumerate(ins):
            nxt = ins[k:k + 4]
            if [x.opname for x in nxt] == ["LOAD_CONST"] * 3 + ["CALL"] and nxt[3].arg == 2 and \
                    all(x.argval is None for x in nxt[:3]):
                out.add(i.offset)
            if i.opname in ("PUSH_EXC_INFO", "WITH_EXCEPT_START"):
                out.add(i.offset)
        _exits[code] = out
    return frame.f_lasti in _exits[code]


class Interrupt:
    """Raise an exception at the n-th line event in medil code (0-based), or
    right after it if a with statement is just being left.
    With n None just count the lines."""

    def __init__(self, n, make):
        self.n, self.make, self.count, self.fired, self.where = n, make, 0, False, None

    def _line(self, frame, event, arg):
        if event == "line":
            k = self.count
            self.count += 1
            if self.n is not None and k >= self.n and not _leaving_with(frame):
                self.fired = True
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                sys.settrace(None)
                W.cur().hit("fault:interrupt")
                raise self.make()
        return self._line

    def _call(self, frame, event, arg):
        return self._line if _mine(frame) else None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def draw_plan(ch, span=9, most=14):
    """When to switch threads: a few times at any distance or at a chosen source
    line, often, or in strict turns."""
    how = ch.weighted([("mixed", 3), ("few", 2), ("lines", 3), ("turns", 1)])
    if how == "lines":
        return [(1 + ch.draw(ch.pick([12, 40, 100])), ch.draw(8), "new") for _ in ch.many(1, 4, 0.5)]
    if how == "few":
        return [(ch.gap(ch.pick([3, 5, span, span + 3])), ch.draw(8)) for _ in ch.many(1, 4, 0.5)]
    if how == "turns":
        g = 1 + ch.draw(6)
        return [(g, ch.draw(8)) for _ in range(ch.int(10, 80))]
    return [(ch.gap(span), ch.draw(8)) for _ in ch.many(1, most, 0.85)]


class Sched:
    """Runs callables on real threads, one at a time.

    ``plan`` is a list of (gap, pick): after ``gap`` further preemption points
    the baton passes to the pick-th other runnable thread.  (gap, pick, "new")
    counts only source lines the running thread had not reached before.  When the plan is
    used up, threads run to completion in order.
    """

    def __init__(self, plan):
        self.plan = list(plan)
        self.pos = 0
        self.left = self.plan[0][0] if self.plan else None
        self.alive = []
        self.blocked = {}
        self.me = None
        self.sems = {}
        self.switches = []
        self.done = _Lock()
        self.done.acquire()
        self.points = 0
        self.seen = {}
        self.fatal = None

    def run(self, fns):
        self.results = [None] * len(fns)
        self.alive = list(range(len(fns)))
        threads = []
        for i, fn in enumerate(fns):
            s = _Lock()
            s.acquire()
            self.sems[i] = s
            t = threading.Thread(target=self._body, args=(i, fn), daemon=True, name="client")
            t.start()
            threads.append(t)
        W.cur().sched = self
        first = self.alive[0]
        self.me = first
        self.sems[first].release()
        self.done.acquire()
        W.cur().sched = None
        if self.fatal is not None:
            raise self.fatal
        for t in threads:
            t.join()
        return self.results

    def _body(self, i, fn):
        self.sems[i].acquire()
        sys.settrace(self._call)
        try:
            try:
                self.results[i] = ("ok", fn())
            except W.HarnessError as e:
                self.fatal = e
            except W.Violation as e:
                self.fatal = e
            except BaseException as e:
                self.results[i] = ("exc", e)
        finally:
            sys.settrace(None)
        self.alive.remove(i)
        if self.fatal is not None or not self.alive:
            self.done.release()
            return
        runnable = [x for x in self.alive if x not in self.blocked]
        if not runnable:
            self.fatal = W.Violation("deadlock", "all remaining threads are blocked")
            self.done.release()
            return
        self.me = runnable[0]
        self.sems[self.me].release()

    def _call(self, frame, event, arg):
        return self._line if _mine(frame) else None

    def _line(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self._line

    def point(self, frame=None):
        if self.me is None or self.left is None:
            return
        self.points += 1
        entry = self.plan[self.pos]
        if len(entry) == 3:
            seen = self.seen.setdefault(self.me, set())
            at = None if frame is None else (frame.f_code, frame.f_lineno)
            if at in seen:
                return
            seen.add(at)
        self.left -= 1
        if self.left > 0:
            return
        pick = entry[1]
        self.pos += 1
        self.left = self.plan[self.pos][0] if self.pos < len(self.plan) else None
        self.switch(pick)

    def switch(self, pick=0):
        me = self.me
        others = [x for x in self.alive if x != me and x not in self.blocked]
        if not others:
            return False
        nxt = others[pick % len(others)]
        W.cur().hit("preemptions")
        self.switches.append((self.points, me, nxt))
        self.me = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()
        return True


class Recorder:
    """Stands in for Sched: notes the preemption points of a program run alone."""

    me = None

    def __init__(self):
        self.where = []

    def point(self, frame=None):
        self.where.append(None if frame is None else (frame.f_code.co_name, frame.f_lineno))

    def switch(self, pick=0):
        return False

    def _line(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self._line

    def _call(self, frame, event, arg):
        return self._line if _mine(frame) else None

    def __enter__(self):
        W.cur().sched = self
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        W.cur().sched = None


def draw_point(ch, where):
    """Number of a preemption point: first a source line, then an occurrence."""
    locs = {}
    for i, x in enumerate(where):
        locs.setdefault(x, []).append(i)
    if not locs:
        return 0
    occ = locs[sorted(locs, key=repr)[ch.draw(len(locs))]]
    return occ[ch.weighted([(0, 2), (len(occ) - 1, 1), (ch.draw(len(occ)), 2)])]


class SimLock:
    """Lock created by medil code: blocks in simulated time."""

    def __init__(self, re=False):
        self.re, self.owner, self.n = re, None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = W.cur().sched
        me = s.me if s is not None else "main"
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking:
                return False
            if s is None or not s.switch():
                raise W.SimDeadlock("lock")
        self.owner, self.n = me, self.n + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def install():
    def mk(real, re):
        def make(*a, **k):
            if str(sys._getframe(1).f_globals.get("__name__", "")).startswith("medil"):
                return SimLock(re)
            return real(*a, **k)

        return make

    threading.Lock = mk(_Lock, False)
    threading.RLock = mk(_RLock, True)
