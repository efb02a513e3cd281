"""C24: a call leaves the process as it found it, however it ends."""
import builtins
import decimal
import faulthandler
import gc
import locale
import logging
import multiprocessing
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import warnings

import numpy as np
from sklearn import get_config

from vsim import fsim, msim, ncfa, psim, tsim, util
from vsim import world as W
from vsim.props import c15
from vsim.props.c16 import EXC

QUICK, THOROUGH = 900, 36000
NONTRIVIAL = "the call was interrupted or failed, or the process was in an unusual state before it"
SITUATION = "(call, how it ended and where, unusual state of the process)"
REAL = ["medil.*", "NumPy, SciPy, scikit-learn, dcor, torch", "process-wide state of Python, NumPy and "
        "torch"]
STUB = ["the instant of interrupts", "disk faults", "outcome of optimiser runs", "pool scheduling",
        "clock"]
ASSUME = ["training seeds the global generators of NumPy and torch, by design: these two are not "
          "compared for it"]
SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGCHLD, signal.SIGUSR1,
        signal.SIGPIPE]
LIMITS = [resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CORE,
          resource.RLIMIT_FSIZE, resource.RLIMIT_CPU, resource.RLIMIT_NPROC]
PATCHED = [(builtins, "print"), (builtins, "open"), (np, "cov"), (np, "array"), (np, "load"),
           (warnings, "warn"), (os, "open"), (time, "time"), (np.linalg, "inv")]

ENV = ["OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS",
       "MPLBACKEND", "COLUMNS", "PYTHONHASHSEED", "PYTHONDONTWRITEBYTECODE"]
HOOKS = ["_global_forward_hooks", "_global_forward_pre_hooks", "_global_backward_hooks"]


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def handles(root):
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if t.startswith(root):
            out.append(os.path.relpath(t, root))
        elif t.startswith(("pipe:", "socket:")) or os.path.isdir(t):
            out.append(t.split(":")[0])
    return sorted(out)


def settings():
    m = sys.modules.get("matplotlib")
    return {k: repr(v) for k, v in dict.items(m.rcParams) if k != "backend"} if m else None


def snapshot(root, training):
    import torch

    s = {
        "working directory": os.getcwd(), "umask": umask(), "environment": dict(os.environ),
        "sys.path": list(sys.path), "warning filters": [repr(f) for f in warnings.filters],
        "warnings.showwarning": id(warnings.showwarning), "NumPy error handling": np.geterr(),
        "NumPy error callback": id(np.geterrcall()),
        "NumPy print options": repr(np.get_printoptions()),
        "torch default dtype": repr(torch.get_default_dtype()),
        "torch gradient mode": torch.is_grad_enabled(),
        "torch inference mode": torch.is_inference_mode_enabled(),
        "torch anomaly mode": torch.is_anomaly_enabled(),
        "torch determinism": (torch.are_deterministic_algorithms_enabled(),
                              torch.is_deterministic_algorithms_warn_only_enabled()),
        "torch threads": torch.get_num_threads(),
        "torch denormals": torch.tensor([1e-40]).mul(1.0).item() == 0.0,
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "exception hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook)),
        "signal handlers": [repr(signal.getsignal(x)) for x in SIGS],
        "signal mask": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "timers": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "locale": locale.setlocale(locale.LC_ALL), "time zone": (time.tzname, time.timezone),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled,
                    logging.root.manager.disable),
        "Python generator": random.getstate(),
        "open files": handles(root),
        "start method": multiprocessing.get_start_method(allow_none=True) or "fork",
        "priority": os.nice(0), "resource limits": [resource.getrlimit(r) for r in LIMITS],
        "stack size": threading.stack_size(), "trace functions": (sys.getprofile(), threading.gettrace()),
        "CPU affinity": sorted(os.sched_getaffinity.real(0)), "socket timeout": socket.getdefaulttimeout(),
        "decimal context": repr(decimal.getcontext()), "import hooks": [id(f) for f in sys.meta_path],
        "torch print options": repr(torch._tensor_str.PRINT_OPTS),
        "torch back ends": (torch.backends.cudnn.deterministic, torch.backends.cudnn.benchmark,
                            torch.backends.mkldnn.enabled, torch.get_float32_matmul_precision()),
        "torch default device": str(torch.get_default_device()),
        "patched functions": [id(getattr(m, n)) for m, n in PATCHED],
        "threads": sorted(t.name for t in threading.enumerate()),
        "names": (threading.current_thread().name, multiprocessing.current_process().name),
        "scikit-learn settings": get_config(),
        "traceback on faults": faulthandler.is_enabled(), "memory tracing": tracemalloc.is_tracing(),
        "writing of byte code": sys.dont_write_bytecode, "arguments": list(sys.argv),
        "longest integer": sys.get_int_max_str_digits(), "display hook": id(sys.displayhook),
        "built-in names": len(vars(builtins)), "NumPy buffer size": np.getbufsize(),
        "torch precision": (torch.is_autocast_enabled("cpu"), torch.get_autocast_dtype("cpu")),
        "torch module hooks": [len(getattr(torch.nn.modules.module, n)) for n in HOOKS],
        "matplotlib settings": settings(),
    }
    if not training:
        st = np.random.get_state()
        s["NumPy generator"] = (st[1].tobytes(), st[2:])
        s["torch generator"] = torch.get_rng_state().numpy().tobytes()
    return s


def unusual(ch):
    """The user's program runs in some state of its own. Returns names."""
    import torch

    out = []
    if ch.bool():  # what the simulator itself was started with
        for v in ENV:
            os.environ.pop(v, None)
    for _ in ch.many(0, 3, 0.45):
        k = ch.pick(["seterr", "filters", "umask", "cwd", "printoptions", "env",
                     "recursion", "gc", "seed", "threads", "torch threads", "no gradients",
                     "deterministic", "double"])
        if k == "seterr":
            np.seterr(all=ch.pick(["ignore", "warn"]))
        elif k == "filters":
            warnings.simplefilter(ch.pick(["ignore", "always", "default"]))
        elif k == "umask":
            os.umask(ch.pick([0o077, 0o002]))
        elif k == "cwd":
            os.makedirs("work", exist_ok=True)
            os.chdir("work")
        elif k == "printoptions":
            np.set_printoptions(precision=3 + ch.draw(3))
        elif k == "env":
            os.environ["VSIM_USER"] = str(ch.draw(9))
            for v in ch.many(1, 3, 0.5):
                os.environ[ch.pick(ENV)] = str(ch.int(2, 9))
        elif k == "recursion":
            sys.setrecursionlimit(1500 + ch.draw(2000))
        elif k == "gc":
            gc.disable() if ch.bool() else gc.enable()
        elif k == "seed":
            random.seed(ch.seed())
            np.random.seed(ch.seed())
            torch.manual_seed(ch.seed())
        elif k == "threads":
            sys.setswitchinterval(0.01)
        elif k == "torch threads":
            torch.set_num_threads(2 + ch.draw(3))
        elif k == "no gradients":
            torch.set_grad_enabled(False)
        elif k == "deterministic":
            torch.use_deterministic_algorithms(True, warn_only=True)
        elif k == "double":
            torch.set_default_dtype(torch.float64)
        out.append(k)
    return out


def simulate(ch, w):
    w.clock = fsim.Clock()
    w.pools = psim.PoolSim(ch.pick([4, 1, 2]), ch.seed(), "fork")
    w.fs = fsim.FS(w.root)
    mine = unusual(ch)
    gc.freeze()
    with util.quiet():
        (concurrent if ch.bool(0.2) else history)(ch, w, mine)


def settle(w):
    """Garbage is collected; pools nobody refers to go away with it."""
    gc.collect()
    for p in w.pools.pools:
        if not p.released:
            p.terminate()


def draw_construction(ch):
    """Constructing a model of any kind, and nothing else."""
    from medil.models import DevMedil, GaussianMCM

    k = ch.weighted([("ncfa", 3), ("gaussian", 1), ("dev", 1)])
    if k == "ncfa":
        cfg = ncfa.draw_cfg(ch, 1, small=True)
        name = ch.pick(["vae/", "vae2"])
        return c15.Call("NeuroCausalFactorAnalysis()", {}, lambda o, v: ncfa.make(cfg, name))
    cls = GaussianMCM if k == "gaussian" else DevMedil
    return c15.Call(cls.__name__ + "()", {}, lambda o, v: cls(rng=o[1]))


def concurrent(ch, w, mine):
    """Calls of several threads overlap; afterwards the process is as it was."""
    n = ch.weighted([(2, 4), (3, 1)])
    calls = []
    for _ in range(n):
        mine_ = [draw_construction(ch) if ch.bool(0.5) else c15.draw_call(ch)
                 for _ in ch.many(1, 2, 0.3)]
        calls.append([(c, util.rng(ch.seed())) for c in mine_])
    training = any(c.name.endswith("Analysis.fit") for p in calls for c, _ in p)
    span = ch.weighted([(4, 3), (7, 3), (9, 1)])
    plan = tsim.draw_plan(ch, span, 20)
    before = snapshot(w.root, training)

    def client(prog):
        for c, gen in prog:
            util.attempt(lambda: c.call((c.make(gen, c.arrays) if c.make else None, gen), c.arrays))

    sch = tsim.Sched(plan)
    sch.run([lambda p=p: client(p) for p in calls])
    settle(w)
    after = snapshot(w.root, training)
    names = [[c.name for c, _ in p] for p in calls]
    w.say(f"{mine} threads {names} switches {sch.switches}")
    w.mark("threads", names, mine, sch.switches[:3])
    w.nontrivial |= bool(sch.switches)
    for k in before:
        if before[k] != after[k]:
            raise W.Violation("left-behind", f"threads calling {names} at the same time: {k} was "
                              f"{short(before[k])}, is {short(after[k])} (state of the program: "
                              f"{mine})")


def history(ch, w, mine):
    keep, done = [], []
    for _ in ch.many(1, 4, 0.6):
        c = c15.draw_call(ch)
        training = c.name.startswith("Neuro")
        gen = util.rng(ch.seed())
        how = ch.weighted([("interrupt", 4), ("plain", 3), ("disk", 2), ("optimiser", 2)])
        if how == "optimiser" and not ("fit" in c.name or "DevMedil" in c.name):
            how = "interrupt"
        if how == "disk" and c.name not in ("NeuroCausalFactorAnalysis.fit", "convert_to_nde"):
            how = "interrupt"
        before = snapshot(w.root, training)
        w.fs.arm([fsim.Fault(ch.draw(30), "error", ch.pick(["before", "mid"]), 28, ch.unit(),
                             ch.pick([0, 0, 3]))] if how == "disk" else [])
        if how == "optimiser":
            w.optim = msim.Optim({0: {"kind": ch.pick(["raise", "raise_inside", "cut"]), "at": ch.int(1, 40),
                                      "exc": ch.pick(EXC)}})
        it = tsim.Interrupt(ch.gap(10) - 1 if how == "interrupt" else None,
                            lambda: psim.exc_of("KeyboardInterrupt"))
        with it:
            r = util.attempt(lambda: c.call((c.make(gen, c.arrays) if c.make else None, gen), c.arrays))
        w.optim = None
        w.fs.arm()
        end = f"{how} {it.where}" if it.fired else how
        what = f"{c.name} ({end}: {r[0]}{' ' + type(r[1]).__name__ if r[0] == 'exc' else ''})"
        # an exception handled by the caller is dropped, with everything it refers to
        keep.append(r[1] if r[0] == "ok" else None)
        ended = r[0]
        r = None
        settle(w)
        after = snapshot(w.root, training)
        for k in before:
            if before[k] != after[k]:
                raise W.Violation("left-behind", f"{what} after {done}: {k} was {short(before[k])}, is "
                                  f"{short(after[k])} (state of the program: {mine})")
        done.append(what)
        w.mark(c.name, end, mine)
        w.hit("ended:" + ended)
        if it.fired or ended == "exc" or mine:
            w.nontrivial = True
    w.say(f"{mine} {done}")


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:80] + " ... " + s[-70:]
