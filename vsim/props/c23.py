"""C23: validation scores of penalised models are those of the latest fit."""
import numpy as np

from vsim import msim, tsim, util
from vsim import world as W
from vsim.props.c16 import EXC
from vsim.props.c17 import draw_data

QUICK, THOROUGH = 1000, 40000
NONTRIVIAL = "a score was judged after another fit, method, model, sample or failure had intervened"
SITUATION = "(last operations before the judged score, method of the score, penalties)"
REAL = ["medil.models", "SciPy optimisers", "NumPy generators"]
STUB = ["outcome of chosen optimiser runs", "the instant of interrupts"]
ASSUME = ["the latest fit is the latest one that returned, of either method; after a fit interrupted "
          "past its optimiser run the model is not judged until the next fit",
          "losses are compared to 1e-6 (relative)"]


def score(kind, wt, d, x, lam, mu):
    """Reference: penalised loss of (W, D) on a dataset."""
    s_hat = np.cov(x, rowvar=False)
    s = wt.T @ wt + d
    pen = lam * np.linalg.svd(wt, compute_uv=False).sum() + mu * np.abs(wt).sum()
    if kind == "lse":
        return ((s_hat - s) ** 2).sum() + pen
    inv = np.linalg.inv(s)
    sign, logdet = np.linalg.slogdet(inv)
    if sign <= 0:
        return np.inf
    return np.trace(s_hat @ inv) - logdet + pen


def public(m):
    return {k: np.array(v, copy=True) for k, v in vars(m).items() if isinstance(v, np.ndarray)}


def simulate(ch, w):
    from medil.models import DevMedil

    models, latest, log, last = [], [], [], {}
    for _ in ch.many(2, 12, 0.92):
        op = "new" if not models else ch.weighted(
            [("score", 7), ("fit", 4), ("fail", 3), ("sample", 2), ("new", 1)])
        if op == "new":
            models.append(DevMedil(rng=util.rng(ch.seed())))
            latest.append(None)
            log.append("new")
            continue
        j = ch.draw(len(models))
        m = models[j]
        if latest[j] is None and op in ("score", "sample"):
            op = "fit"
        method = ch.pick(["mle", "lse"])
        what = f"model {j} after {log[-8:]}"
        if op in ("fit", "fail"):
            again = last.get(j) if op == "fit" and ch.bool(0.4) else None
            x = draw_data(ch) if again is None else again[1]
            lam, mu = ch.pick([0.1, 0.01, 0.4]), ch.pick([0.1, 0.0])
            fault, it = None, None
            if again is not None:  # everything alike but the starting point
                method, x, lam, mu, fault = again
            elif op == "fit":
                fault = {"kind": "cut", "at": ch.weighted([(ch.int(1, 8), 3), (0, 2)])} if ch.bool(0.7) \
                    else None
            else:
                fault = ch.weighted([({"kind": "raise", "exc": ch.pick(EXC)}, 2),
                                     ({"kind": "raise_inside", "exc": ch.pick(EXC), "at": ch.draw(80)}, 2),
                                     ({"kind": "interrupt", "at": ch.gap(9)}, 2)])
                if fault["kind"] == "interrupt":
                    it = tsim.Interrupt(fault["at"], lambda: KeyboardInterrupt("simulated"))
            o = w.optim = msim.Optim({0: fault} if fault and it is None else {})
            with util.warned(), np.errstate(all="ignore"):
                if it is not None:
                    with it:
                        r = util.attempt(m.fit, x, method, lam, mu)
                else:
                    r = util.attempt(m.fit, x, method, lam, mu)
            w.optim = None
            if r[0] == "ok":
                if op == "fit":
                    last[j] = (method, x, lam, mu, fault)
                latest[j] = (np.array(getattr(m, f"W_hat_{method}")),
                             np.array(getattr(m, f"D_hat_{method}")))
                log.append(f"{method} of {j} ({x.shape[1]})")
            else:
                if not (it and it.fired) and not (fault and fault["kind"].startswith("raise")):
                    raise W.Violation("raised", f"{what}: {method} fit: {util.brief(r[1])}")
                if any(c is not None for c in o.calls):
                    latest[j] = None
                log.append(f"failed {method} of {j}")
                w.hit("failed_fits")
            continue
        wt, d = latest[j]
        if op == "sample":
            have = [q for q in ("mle", "lse") if hasattr(m, f"W_hat_{q}")]
            with np.errstate(all="ignore"):
                util.attempt(m.sample, ch.pick([3, 1, 0]), ch.pick(have))
            log.append(f"sample of {j}")
            continue
        cols = wt.shape[1]
        rows = ch.weighted([(ch.int(cols + 2, 60), 6), (ch.int(61, 900), 1), (ch.int(901, 6000), 1)])
        x = util.make_data(ch.seed(), rows, cols, ch.pick(["mixed", "indep", "shared"]))
        x, form = util.dressed(ch, x * ch.pick([1.0, 2.0]))
        lam, mu = ch.pick([0.1, 0.0, 3.0]), ch.pick([0.1, 0.0, 2.0])
        g = util.Guarded(dataset=x)
        before, gen = public(m), repr(m.rng.bit_generator.state)
        with np.errstate(all="ignore"):
            r = util.attempt(getattr(m, f"validation_{method}"), lam, mu, x)
            ref = util.attempt(score, method, wt, d, x, lam, mu)
        g.check(f"by validation_{method} ({form})")
        if r[0] == "exc":
            if ref[0] == "exc":
                continue
            raise W.Violation("raised", f"{what}: validation_{method}: {util.brief(r[1])}")
        if not util.same(public(m), before) or repr(m.rng.bit_generator.state) != gen:
            raise W.Violation("model-changed", f"{what}: validation_{method} changed the model: "
                              f"{util.diff(public(m), before)}")
        if ref[0] == "ok" and np.linalg.cond(wt.T @ wt + d) < 1e9:
            a, b = float(r[1]), float(ref[1])
            if np.isfinite(b) and abs(b) < 1e8 and not np.isclose(a, b, rtol=1e-6, atol=1e-7) \
                    or np.isinf(b) != np.isinf(a):
                raise W.Violation("score", f"{what}: validation_{method}({lam}, {mu}, {x.shape} {form})"
                                  f" is {a!r}, the latest fit has {b!r}")
            w.hit("scores_judged")
        w.mark(log[-3:], method, lam, mu, form)
        if len(log) > 2:
            w.nontrivial = True
        log.append(f"{method} score of {j}")
    w.say(str(log))
