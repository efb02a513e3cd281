"""C08: training is a function of seed, data and settings only."""
import random

import numpy as np

from vsim import fsim, ncfa, proc, util
from vsim import world as W

QUICK, THOROUGH = 480, 20000
NONTRIVIAL = "something happened in the process before the fit, or global state was disturbed"
SITUATION = "(settings, kinds of earlier events, path form, verbosity, clock)"
REAL = ["medil.models, medil.vae, medil.sample", "torch, NumPy, scikit-learn", "process-wide random "
        "generators of Python, NumPy and torch", "files in a scratch directory"]
STUB = ["disk operations (some made to fail in earlier fits)", "clock", "entropy of the operating "
        "system (different in every simulated process)"]
ASSUME = ["same machine, one torch thread: floating point results are reproducible to 1e-5"]

SAME = ("C", "F", "ro", "view")  # forms of a dataset that hold the same numbers


def disturb(ch, w, objs):
    """One earlier event. Returns its name."""
    import torch

    from medil import sample
    from medil.models import GaussianMCM, DevMedil

    k = ch.pick(["torch_seed", "torch_draw", "np_seed", "np_draw", "py_seed", "construct", "fit",
                 "failed_fit", "sample", "gaussian", "interrupted_fit", "devmedil", "vae", "spoilt_fit"])
    if k == "torch_seed":
        torch.manual_seed(ch.seed())
    elif k == "torch_draw":
        torch.randn(1 + ch.draw(50))
    elif k == "np_seed":
        np.random.seed(ch.seed())
    elif k == "np_draw":
        np.random.random(1 + ch.draw(50))
    elif k == "py_seed":
        random.seed(ch.seed())
    elif k == "construct":
        objs.append(ncfa.make(ncfa.draw_cfg(ch, 2), "other/"))
    elif k in ("fit", "failed_fit", "interrupted_fit", "spoilt_fit"):
        if objs and ch.bool(0.6):
            m = objs[ch.draw(len(objs))]
        else:
            m = ncfa.make(ncfa.draw_cfg(ch, 2), ch.pick(["other/", "other2"]))
            objs.append(m)
        c = ncfa.draw_cfg(ch, 2, small=True)
        ncfa.apply(m, c)
        if k == "failed_fit":
            w.fs.arm([fsim.Fault(ch.draw(40), "error", "before", 28, 0.5, ch.pick([0, 0, 5]))])
        if k == "spoilt_fit":
            k = ch.pick(ncfa.SPOILT)
            r, ok = ncfa.spoilt_fit(m, c, k), True
        elif k == "interrupted_fit":
            from vsim import tsim

            with util.quiet(), tsim.Interrupt(ch.draw(200), lambda: KeyboardInterrupt("sim")) as it:
                r = util.attempt(ncfa.fit, m, c)
            ok = it.fired
        else:
            with util.quiet():
                r = util.attempt(ncfa.fit, m, c)
            ok = bool(w.fs.fired)
        w.fs.arm()
        if r[0] == "exc" and not ok:
            raise W.Violation("raised", f"{c}: {util.brief(r[1])}")
        if r[0] == "exc":
            k += "!"
    elif k == "sample":
        sample.mcm(num_meas=4).sample(5)
    elif k == "gaussian":
        GaussianMCM().fit(util.make_data(ch.seed(), 30, 3, "shared"))
    elif k == "devmedil":
        DevMedil(rng=util.rng(3)).fit(util.make_data(1, 30, 2, "mixed")).sample(3)
    elif k == "vae":
        from medil.vae import VariationalAutoencoder

        VariationalAutoencoder(2, 2, 1, 1)
    return k


def simulate(ch, w):
    cfg = ncfa.draw_cfg(ch, 3, small=ch.bool(0.6), long=0.03)
    ref, _ = ncfa.reference(cfg, w.root)
    other = None
    if ch.bool(0.5):
        low = (cfg.seed + (1 << ch.pick([8, 10, 16, 20, 24, 30]))) % 2 ** 32  # differ in one bit
        s2 = ch.pick([s for s in (0, 1, 2, 3, 5, 7, 99, 123456, 123457, low, low) + ncfa.SEEDS
                      if s != cfg.seed])
        other = cfg.with_(seed=s2)
        oref, _ = ncfa.reference(other, w.root)
        for k in ("vae",) + (("loss",) if cfg.epochs else ()):
            if util.same(ref["state"][k], oref["state"][k], 1e-9):
                raise W.Violation("seed-ignored", f"{cfg} and seed {s2}: same {k}")
        if util.same(ref["state"]["weights"], oref["state"]["weights"], 1e-9):
            raise W.Violation("seed-ignored", f"{cfg} and seed {s2}: same weights")
    w.clock = fsim.Clock(ch.weighted([(ncfa.START + ch.draw(10 ** 8), 3),
                                    (float(ch.int(10 ** 5, 4 * 10 ** 9)), 1)]), ncfa.draw_clock(ch))
    w.fs = fsim.FS(w.root)
    objs, done = [], []
    arg, d, form = ncfa.draw_path(ch, "out")
    m = None
    verbose = ch.bool(0.3)
    for rep in ch.many(1, 3, 0.45):
        for _ in ch.many(0, 4, 0.6):
            done.append(disturb(ch, w, objs))
        how = ch.weighted([("new", 3), ("same", 2), ("used", 2)])
        if how == "new" or (how == "same" and m is None) or (how == "used" and not objs):
            m = ncfa.make(cfg, arg, verbose)
            how = "new"
        elif how == "used":
            m = objs[ch.draw(len(objs))]
        if how != "same" or m in objs or ch.bool():  # else: settings stay as they were made
            ncfa.apply(m, cfg)
        m.verbose = verbose
        for _ in ch.many(0, 2, 0.4):
            done.append(disturb(ch, w, [o for o in objs if o is not m]))
        if ch.bool(0.3):  # other datasets first, with the same settings
            for _ in ch.many(1, 2, 0.3):
                c = cfg.with_(dseed=ch.seed(), rows=ch.int(8, 60), cols=ch.int(2, 4),
                              explicit=ch.bool())
                with util.quiet():
                    ncfa.fit(m, c)
                done.append(f"fit {c.rows}x{c.cols}")
        same = cfg
        if cfg.dform in SAME and ch.bool(0.25):  # equal data, held in memory in another way
            same = cfg.with_(dform=ch.pick([f for f in SAME if f != cfg.dform]))
            done.append("data in form " + same.dform)
        with util.quiet():
            if ch.bool(0.15):
                done.append("in another thread")
                util.in_thread(ncfa.fit, m, same)
            else:
                ncfa.fit(m, same)
        got = ncfa.state(m)
        w.say(f"{cfg} after {done} on a {how} object")
        w.mark(cfg.key(), [d.split()[0] for d in done], how, form, verbose)
        if done or rep or w.clock.plan:
            w.nontrivial = True
        for k in ("weights", "vae", "loss"):
            if not util.same(got[k], ref["state"][k], 1e-5):
                raise W.Violation("depends-on-history", f"{cfg} on a {how} object after {done}: {k} "
                                  f"differ from a fresh process: {util.diff(got[k], ref['state'][k])}")
