"""C22: every epoch uses every row exactly once and records what it did."""
import itertools
from collections import Counter

import numpy as np

from vsim import fsim, ncfa, tsim, util
from vsim import world as W
from vsim.props import c09

QUICK, THOROUGH = 1000, 36000
NONTRIVIAL = "two or more epochs, several fits, or several trainings at the same time"
SITUATION = "(settings, kind of history, number of batches and epochs)"
REAL = ["medil.models, medil.vae", "torch (data loading, training), scikit-learn"]
STUB = ["disk operations", "clock", "thread scheduling (source lines of medil)", "the instant of "
        "failures of earlier fits"]
ASSUME = ["a forward pass on rows of the training split is a training step, one on rows of the "
          "validation split is validation", "an epoch is a run of training steps followed by a run "
          "of validation passes", "rows are recognised by their values (all values differ)"]


class Probe(c09.Probe):
    """Keeps what is needed to recompute the histories."""

    def __init__(self, cfgs):
        super().__init__(cfgs[0])
        self.sets = [[Counter(r.tobytes() for r in part) for part in c.splits()] for c in cfgs]

    def where(self, x):
        rows = {r.tobytes() for r in x.detach().numpy()}
        for i, (a, b) in enumerate(self.sets):
            if rows <= set(a):
                return i, "train"
            if rows <= set(b):
                return i, "valid"
        return None, "?"

    def extra(self, rec, net, x, out):
        rec["x"] = x.detach().numpy().copy()
        rec["out"] = [t.detach().numpy().astype(float) for t in out]
        wt = getattr(net.decoder, "cov_linear_fulcon", None)
        rec["w"] = None if wt is None else wt.weight.detach().numpy().astype(float)


def loss_of(rec, cfg, lam, mu, penal):
    """(loss, error) per row of one pass, in float64."""
    x = rec["x"].astype(float)
    r, logcov, m, logvar = rec["out"]
    kl = -0.5 * (1 + logvar - m ** 2 - np.exp(logvar)).sum()
    cov = np.exp(logcov).mean(0)
    d = x - r
    loss = cfg.beta * kl + 0.5 * (len(x) * np.prod(cov) + (d * d / cov).sum())
    if penal:
        if rec["w"] is None:
            loss = None
        else:
            loss += lam * np.linalg.norm(rec["w"], "nuc") + mu * np.abs(rec["w"]).sum()
    return (None if loss is None else loss / len(x)), np.linalg.norm(d, 2) / len(x)


def judge(passes, sets, cfg, loss, lam, mu, what):
    """passes: of one training, in order."""
    groups = [(k, list(g)) for k, g in itertools.groupby(passes, key=lambda r: r["kind"][1])]
    seq = " ".join(f"{k[0]}{len(g)}" for k, g in groups)
    if [k for k, _ in groups] != ["train", "valid"] * cfg.epochs:
        raise W.Violation("epochs", f"{what}: passes {seq or 'none'} for {cfg.epochs} epochs")
    for j, (kind, g) in enumerate(groups):
        e = j // 2
        part = 0 if kind == "train" else 1
        used = Counter()
        for r in g:
            if len(r["x"]) > cfg.batch:
                raise W.Violation("batch", f"{what}: a {kind} batch of {len(r['x'])} rows, batch size "
                                  f"{cfg.batch}")
            used.update(row.tobytes() for row in r["x"])
        if used != sets[part]:
            miss = sum((sets[part] - used).values())
            more = sum((used - sets[part]).values())
            raise W.Violation("rows", f"{what}: epoch {e}: {kind} leaves out {miss} of "
                              f"{sum(sets[part].values())} rows and repeats {more}")
        pairs = [loss_of(r, cfg, lam, mu, kind == "train") for r in g]
        for name, vals in (("elbo", [p[0] for p in pairs]), ("recon", [p[1] for p in pairs])):
            got = loss[f"{name}_{kind}"][e]
            if vals[0] is None or not np.isfinite(vals).all() or np.abs(vals).max() > 1e30:
                continue
            want = float(np.mean(vals))
            if not np.isclose(got, want, rtol=5e-3, atol=1e-3):
                raise W.Violation("history", f"{what}: epoch {e}: {name} {kind} history has {got!r}, "
                                  f"the passes made average {want!r}")
    flat = [r for _, g in groups for r in g]
    for i, r in enumerate(flat[:-1]):
        changed = flat[i + 1]["before"] != r["before"]
        if r["kind"][1] == "train" and not changed:
            raise W.Violation("no-update", f"{what}: training step {i} ({seq}) leaves the network as "
                              "it was")
    return seq


def simulate(ch, w):
    w.clock = fsim.Clock(ncfa.START, ncfa.draw_clock(ch))
    w.fs = fsim.FS(w.root)
    if ch.bool(0.3):
        return together(ch, w)
    m = None
    for k in ch.many(1, 3, 0.45):
        cfg = ncfa.draw_cfg(ch, 4, small=ch.bool(), long=0.06, big=0.15)
        if m is None or ch.bool(0.4):
            m = ncfa.make(cfg, "out/", ch.bool(0.2))
        ncfa.apply(m, cfg)
        lam, mu = ch.pick([0.01, 0.0, 0.5]), ch.pick([0.01, 0.0, 0.3])
        m.hyperparams.update({"lambda": lam, "mu": mu})
        failed = ch.weighted([("no", 6), ("disk", 2), ("interrupt", 2), ("spoilt", 1)])
        if failed == "spoilt":
            if ncfa.spoilt_fit(m, cfg, ch.pick(ncfa.SPOILT))[0] == "exc":
                w.hit("fault:spoilt_fit")
        elif failed != "no":
            w.fs.arm([fsim.Fault(ch.draw(40), "error", "before", 28)] if failed == "disk" else [])
            it = tsim.Interrupt(ch.draw(900) if failed == "interrupt" else None,
                                lambda: KeyboardInterrupt("sim"))
            with util.quiet(), it:
                r = util.attempt(ncfa.fit, m, cfg)
            if r[0] == "exc" and not w.fs.fired and not it.fired and cfg.scale <= 1:
                raise W.Violation("raised", f"{cfg}: {util.brief(r[1])}")
            w.nontrivial = True
        w.fs.arm(ncfa.draw_benign(ch, 60))
        with util.quiet(), Probe([cfg]) as p:
            r = util.attempt(ncfa.fit, m, cfg)
        w.fs.arm()
        if r[0] == "exc":
            if c09.diverged(p, cfg):
                w.hit("diverged")
                continue
            raise r[1]
        what = f"fit {k} {cfg} (earlier: {failed})"
        bad = [i for i, r in enumerate(p.passes) if r["kind"][0] is None]
        if bad:
            raise W.Violation("foreign-rows", f"{what}: pass {bad[0]} mixes or invents rows")
        seq = judge(p.passes, p.sets[0], cfg, ncfa.state(m)["loss"], lam, mu, what)
        w.say(f"{what}: {seq}")
        w.mark(cfg.key(), k, failed)
        w.hit("epochs", cfg.epochs)
        w.hit("passes", len(p.passes))
        if k or cfg.epochs > 1:
            w.nontrivial = True


def together(ch, w):
    n = ch.weighted([(2, 3), (3, 1)])
    base = ch.seed()
    cfgs = [ncfa.draw_cfg(ch, 3, 1, small=True).with_(dseed=base * 4 + i) for i in range(n)]
    ms = [ncfa.make(c, "out/" if ch.bool() else f"out{i}/") for i, c in enumerate(cfgs)]
    plan = tsim.draw_plan(ch)
    sch = tsim.Sched(plan)
    with util.quiet(), Probe(cfgs) as p:
        res = sch.run([lambda m=m, c=c: ncfa.fit(m, c) for m, c in zip(ms, cfgs)])
    for i, (m, c, r) in enumerate(zip(ms, cfgs, res)):
        what = f"{c} while {n - 1} other(s) train ({len(sch.switches)} switches)"
        if r[0] == "exc":
            raise W.Violation("raised", f"{what}: {util.brief(r[1])}")
        if any(q["kind"][0] is None for q in p.passes):
            raise W.Violation("foreign-rows", f"{what}: a pass mixes or invents rows")
        seq = judge([q for q in p.passes if q["kind"][0] == i], p.sets[i], c,
                    ncfa.state(m)["loss"], 0.01, 0.01, what)
        w.mark("together", c.key(), sch.switches)
        w.say(f"{what}: {seq}")
    w.nontrivial = True
    w.hit("trainings_at_the_same_time", n)
