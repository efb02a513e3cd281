"""C02: a failed or dying test worker never yields a graph, and never hangs."""
import numpy as np

from vsim import util
from vsim import world as W
from vsim.props import c01

QUICK, THOROUGH = 900, 30000
NONTRIVIAL = "at least one fault fired inside a pool while it had work"
SITUATION = "(fault kind, exception, position of the fault, number of chunks, workers, outcome)"
REAL = c01.REAL
STUB = c01.STUB + ["worker death: the process goes away and its chunk is never reported, as "
                   "multiprocessing.Pool behaves"]
ASSUME = ["multiprocessing.Pool replaces a dead worker but loses its task (checked against CPython "
          "3.12 with a real killed worker)"]
EXC = ["ValueError", "MemoryError", "FloatingPointError", "OSError", "LinAlgError",
       "ZeroDivisionError", "RuntimeError", "StopIteration"]


def draw_fault(ch, pairs):
    kind = ch.weighted([("raise", 6), ("raise_at_line", 4), ("interrupt", 3), ("create", 2),
                        ("die", 2)])
    if kind in ("raise", "raise_at_line", "die"):
        at = ch.weighted([("any", 4), ("first", 1), ("last", 2), ("edge", 2)])
        at = {"any": lambda: ch.draw(pairs), "first": lambda: 0, "last": lambda: pairs - 1,
              "edge": lambda: min(pairs - 1, 99 + ch.draw(3))}[at]()
    if kind == "raise":
        return {"kind": kind, "at": at, "exc": ch.pick(EXC)}
    if kind == "raise_at_line":
        return {"kind": kind, "at": at, "exc": ch.pick(EXC), "line": ch.draw(40)}
    if kind == "interrupt":
        return {"kind": kind, "at": ch.draw(4 + pairs // 10)}
    if kind == "create":
        return {"kind": kind, "at": 0, "eno": ch.pick([11, 12, 24])}
    return {"kind": kind, "at": at}


def simulate(ch, w):
    from medil.independence_testing import estimate_UDG

    for k in ch.many(1, 3, 0.5):
        method, x, text = c01.draw_input(ch)
        x, form = util.dressed(ch, x)
        ref = c01.reference(x, method)
        pairs = max(1, x.shape[1] * (x.shape[1] - 1) // 2)
        pool = c01.draw_pool(ch, w)
        ps = w.pools
        for _ in ch.many(1, 2, 0.2):
            ps.faults.append(draw_fault(ch, pairs))
        w.say(f"{text} {form}, {pool}, faults {ps.faults}")
        g = util.Guarded(dataset=x)
        died = False
        with np.errstate(all="ignore"):
            try:
                r = ("ok", estimate_UDG(x, method, 0.05))
            except (W.Violation, W.HarnessError):
                raise
            except W.SimDeadlock as e:
                r = ("hang", e)
            except BaseException as e:
                r = ("exc", e)
        fired = [f for f in ps.fired if f not in ("worker_exception_swallowed",
                                                "wait_timed_out")]
        if fired:
            w.nontrivial = True
        died = "worker_death" in fired
        w.mark(method, pairs, ps.cpus, [(f["kind"], f.get("exc"), f.get("at")) for f in ps.faults],
               r[0], fired)
        w.hit("outcome:" + r[0])
        if r[0] == "hang":
            if not died:
                raise W.Violation("hang", f"{text}, {pool}: waits forever: {r[1]}")
            w.findings.append(("worker-death-hangs", f"waits forever after a worker died: {text}, "
                               f"{pool}, {ps.faults}"))
            # the caller gives up (kills the wait); what follows must still be normal
            for p in ps.leaked():
                p.terminate()
        elif fired and r[0] == "ok":
            raise W.Violation("result-despite-failure", f"{text}, {pool}: {fired} and yet a graph "
                              f"was returned; faults {ps.faults}")
        elif not fired and r[0] == "exc":
            raise W.Violation("raised", f"{text}, {pool}: {util.brief(r[1])} without a fault")
        if ps.leaked():
            raise W.Violation("pool-not-released", f"{text}, {pool}: {len(ps.leaked())} pool(s) of "
                              f"{len(ps.pools)} still running after the call ({r[0]}), {fired}")
        g.check("by the failed call")
        if r[0] == "ok":
            c01.judge(x, 0.05, *r[1], ref, f"{text}, {pool}")
        del r
        # workers are healthy again
        if ch.bool(0.5):
            method, x, text = c01.draw_input(ch, small=True)
            ref = c01.reference(x, method)
        pool = c01.draw_pool(ch, w)
        with np.errstate(all="ignore"):
            r = util.attempt(estimate_UDG, x, method, 0.05)
        if r[0] == "exc":
            raise W.Violation("later-call", f"after {fired}: {text}, {pool}: {util.brief(r[1])}")
        c01.judge(x, 0.05, *r[1], ref, f"after {fired}: {text}, {pool}")
        if w.pools.leaked():
            raise W.Violation("pool-not-released", f"{text}, {pool}: pool left after success")
        w.pools = None
