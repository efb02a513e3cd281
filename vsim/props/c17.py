"""C17: penalised models sample from the latest fit of the method asked for."""
import copy
import pickle

import numpy as np

from vsim import msim, psim, tsim, util
from vsim import world as W
from vsim.props.c16 import EXC

QUICK, THOROUGH = 900, 40000
NONTRIVIAL = "a method was sampled after the other method, another model or a failed fit intervened"
SITUATION = "(last operations before the judged sample, method, number of measurements)"
REAL = ["medil.models", "NumPy generators", "SciPy optimisers"]
STUB = ["outcome of chosen optimiser runs", "the instant of interrupts during fits"]
ASSUME = ["a fit that returns is a successful fit, converged or not",
          "a fit interrupted after its optimiser run is not judged until the next fit",
          "covariances are compared on 4000 rows at 7.5 standard errors, means at 6.5, where the "
          "fitted error variances are positive"]
ROWS = 4000


def cov_of(wt, d):
    return np.asarray(wt).T @ np.asarray(wt) + np.asarray(d)


def judge(x, wt, d, what):
    n = wt.shape[1]
    if x.shape[0] < ROWS or (np.diag(d) <= 0).any():
        return False
    cov = cov_of(wt, d)
    sd = np.sqrt(np.diag(cov))
    z = np.abs(x.mean(0) / sd) * np.sqrt(len(x))
    c = np.cov(x, rowvar=False).reshape(n, n)
    dev = np.abs(c - cov) / np.sqrt((np.outer(sd, sd) ** 2 + cov ** 2) / len(x))
    if not (z < 6.5).all() or not (dev < 7.5).all():
        raise W.Violation("wrong-parameters", f"{what}: covariance\n{c.round(3)}\nof the sample, "
                          f"the latest fit has\n{cov.round(3)} ({np.nanmax(dev):.1f} standard errors)")
    return True


def draw_data(ch, cols=None):
    cols = cols or ch.weighted([(2, 3), (3, 3), (4, 1)])
    x = util.make_data(ch.seed(), ch.int(25, 50), cols, ch.pick(["mixed", "indep", "shared"]))
    return x * ch.pick([1.0, 3.0, 0.4])


def expect_value_error(f, what):
    r = util.attempt(f)
    if r[0] != "exc":
        raise W.Violation("no-error", f"{what}: returned {np.shape(r[1])} instead of raising ValueError")
    if not isinstance(r[1], ValueError):
        raise W.Violation("wrong-error", f"{what}: {util.brief(r[1])} instead of ValueError")


def simulate(ch, w):
    from medil.models import DevMedil

    models, fitted, log, pure = [], [], [], []
    shared = util.rng(ch.seed())
    for _ in ch.many(2, 12, 0.92):
        op = "new" if not models else ch.weighted(
            [("fit", 5), ("sample", 6), ("small", 2), ("fail", 3), ("bad", 1), ("new", 1), ("copy", 1)])
        if op == "new":
            kw = {"one_pure_child": False} if ch.bool(0.15) else {}
            models.append(DevMedil(rng=shared if ch.bool() else util.rng(ch.seed() + (1 << 20)), **kw))
            fitted.append({})
            pure.append("one_pure_child" not in kw)
            log.append("new")
            continue
        j = ch.draw(len(models))
        if op in ("sample", "small") and not fitted[j]:
            op = ch.weighted([("fit", 3), (op, 1)])
        m, f = models[j], fitted[j]
        if op == "copy":  # or saved and loaded
            models.append(copy.deepcopy(m) if ch.bool() else pickle.loads(pickle.dumps(m)))
            fitted.append(dict(f))
            pure.append(pure[j])
            log.append(f"copy of {j}")
            continue
        method = ch.pick(["mle", "lse"])
        what = f"model {j} after {log[-8:]}"
        if op in ("fit", "fail"):
            wide = not pure[j] and ch.bool(0.5)  # more latents than measurements
            x = draw_data(ch, 5 if wide else None)
            lam = ch.pick([0.1, 0.01, 0.4])
            fault, it = None, None
            if wide:
                op, fault = "fit", {"kind": "cut", "at": ch.int(1, 2)}
            elif op == "fit" and ch.bool(0.4):
                fault = {"kind": "cut", "at": ch.int(1, 8)}
            elif op == "fail":
                fault = ch.weighted([({"kind": "raise", "exc": ch.pick(EXC)}, 2),
                                     ({"kind": "raise_inside", "exc": ch.pick(EXC), "at": ch.draw(80)}, 2),
                                     ({"kind": "interrupt", "at": ch.gap(9)}, 2)])
                if fault["kind"] == "interrupt":
                    it = tsim.Interrupt(fault["at"], lambda: KeyboardInterrupt("simulated"))
            o = w.optim = msim.Optim({0: fault} if fault and it is None else {})
            direct = ch.bool()
            call = (lambda: getattr(m, f"fit_penalized_{method}")(x, lam, 0.1)) if direct else \
                (lambda: m.fit(x, method, lam, 0.1))
            with util.warned(), np.errstate(all="ignore"):
                if it is not None:
                    with it:
                        r = util.attempt(call)
                else:
                    r = util.attempt(call)
            w.optim = None
            if r[0] == "ok":
                f[method] = (np.array(m.W_hat), np.array(m.D_hat))
                log.append(f"{method} of {j} ({x.shape[1]})")
            else:
                if not (it and it.fired) and not (fault and fault["kind"].startswith("raise")):
                    raise W.Violation("raised", f"{what}: {method} fit: {util.brief(r[1])}")
                if any(c is not None for c in o.calls):
                    f[method] = "unknown"  # interrupted after the optimiser had finished
                log.append(f"failed {method} of {j}")
                w.hit("failed_fits")
            continue
        if op == "bad":
            name = ch.pick(["MLE", "ml", "", "ls", None])
            which = ch.pick(["sample", "fit"])
            w.optim = None
            if which == "sample":
                expect_value_error(lambda: m.sample(5, name), f"{what}: sample({name!r})")
            else:
                x = draw_data(ch)
                expect_value_error(lambda: m.fit(x, name), f"{what}: fit({name!r})")
            log.append(f"{which} with {name!r} of {j}")
            continue
        if f and ch.bool(0.85):
            method = ch.pick(sorted(f))
        size = ROWS if op == "sample" else ch.weighted([(1, 2), (0, 1), (5, 1)])
        want = f.get(method)
        if want is None:
            expect_value_error(lambda: m.sample(size, method), f"{what}: {method} never fitted")
            log.append(f"no {method} of {j}")
            w.hit("sample_before_fit")
            continue
        if want == "unknown":
            continue
        with np.errstate(all="ignore"):
            x = m.sample(size, method) if method == "lse" or ch.bool() else m.sample(size)
        n = want[0].shape[1]
        if np.shape(x) != (size, n):
            raise W.Violation("shape", f"{what}: sample({size}, {method}) has shape {np.shape(x)}, "
                              f"{n} measurements")
        if judge(x, *want, f"{what}: sample of {method}"):
            w.hit("samples_judged")
            w.mark(log[-4:], method, n)
            if len(log) > 2:
                w.nontrivial = True
        log.append(f"sample {method} of {j}")
    w.say(str(log))
