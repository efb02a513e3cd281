"""C16: an optimiser that does not converge is always reported."""
import numpy as np

from vsim import msim, psim, tsim, util
from vsim import world as W

QUICK, THOROUGH = 900, 40000
NONTRIVIAL = "an optimiser run was cut short, reported failure or raised"
SITUATION = "(kind of fit, fault, outcome reported, position in the history)"
REAL = ["medil.models", "SciPy optimisers (real runs, also when cut short)"]
STUB = ["outcome of chosen optimiser runs: iteration limit, forced failure, exception before or "
        "inside the run"]
ASSUME = ["fits go through scipy.optimize.minimize; with several runs in one fit the last one counts"]
EXC = ["MemoryError", "FloatingPointError", "LinAlgError", "ValueError", "KeyboardInterrupt",
       "RuntimeError", "ZeroDivisionError"]


def draw_fault(ch):
    k = ch.weighted([("none", 4), ("cut", 4), ("flag", 3), ("raise", 2), ("raise_inside", 2)])
    if k == "none":
        return None
    if k == "cut":
        return {"kind": k, "at": ch.weighted([(0, 1), (1, 2), (ch.int(2, 6), 2)])}
    if k == "flag":
        return {"kind": k, "msg": ch.pick(["simulated precision loss", "no 100% luck: {x} %s",
                                           "Maximum number of function evaluations has been exceeded.", ""])}
    return {"kind": k, "exc": ch.pick(EXC), "at": ch.draw(60)}


def arm(fault):
    W.cur().optim = msim.Optim({0: fault} if fault else {})
    return W.cur().optim


def outcome(r, o, fault, what):
    """("raised", None) or ("done", last optimiser run) of a fit; exceptions are judged here."""
    fired = fault and fault["kind"].startswith("raise") and any(c is None for c in o.calls)
    if r[0] == "exc":
        e = r[1]
        if fired:
            if type(e) is not type(psim.exc_of(fault["exc"])):
                raise W.Violation("exception", f"{what}: the optimiser raised {fault['exc']}, the "
                                  f"caller got {util.brief(e)}")
            return "raised", None
        raise W.Violation("raised", f"{what}: {util.brief(e)}")
    if fired:
        raise W.Violation("exception", f"{what}: the optimiser raised {fault['exc']}, the fit "
                          "returned normally")
    done = [c for c in o.calls if c is not None]
    if not done:
        W.cur().hit("unobserved_fits")
        return "unobserved", None
    return "done", done[-1]


def iterate(x, stored, what):
    a, b = np.sort(np.abs(x)), np.sort(np.abs(stored))
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12):
        raise W.Violation("not-the-iterate", f"{what}: stored parameters {stored} are not the final "
                          f"iterate {x}")


def objective(stored, fun, what):
    if np.isfinite(fun) and not np.isclose(stored, fun, rtol=1e-6, atol=1e-8):
        raise W.Violation("not-the-iterate", f"{what}: the stored parameters have loss {stored:g}, "
                          f"the final iterate has {fun:g}")


def gaussian(ch, w, m, fault, what):
    cols = m._sim_cols
    x = util.make_data(ch.seed(), ch.int(15, 60), cols, ch.pick(["mixed", "shared", "indep"]))
    o = arm(fault)
    with util.warned() as rec:
        r = util.attempt(m.fit, x)
    w.optim = None
    texts = [str(v.message) for v in rec]
    kind, last = outcome(r, o, fault, what)
    if kind != "done":
        return kind
    ok, msg, xs, _, fun = last
    if not ok and not any(msg in t and (msg or "fail" in t) for t in texts):
        raise W.Violation("silent-failure", f"{what}: the optimiser reported {msg!r}, warnings: {texts}")
    if ok and any(msg and msg in t or "ptimization failed" in t for t in texts):
        raise W.Violation("false-warning", f"{what}: the optimiser succeeded, warnings: {texts}")
    p = m.parameters
    b = np.asarray(m.biadj).astype(bool)
    iterate(xs, np.r_[np.asarray(p.biadj_weights)[b], np.asarray(p.error_variances)], what)
    wt = np.asarray(p.biadj_weights)
    objective(((np.cov(x, rowvar=False) - wt.T @ wt - np.diagflat(p.error_variances)) ** 2).sum(),
              fun, what)
    return "ok" if ok else "failed"


def flags(d, m):
    return [repr(getattr(d, f"convergence_{a}_{m}", "unset")) for a in ("success", "message")]


def penalised(ch, w, d, method, fault, what):
    x = util.make_data(ch.seed(), ch.int(25, 60), d._sim_cols, ch.pick(["mixed", "indep"]))
    lam, mu = ch.pick([0.1, 0.0, 0.5]), ch.pick([0.1, 0.0, 0.02])
    other = "lse" if method == "mle" else "mle"
    before = flags(d, other)
    o = arm(fault)
    how = ch.draw(2)
    with util.warned(), np.errstate(all="ignore"):
        r = util.attempt(d.fit, x, method, lam, mu) if how else \
            util.attempt(getattr(d, f"fit_penalized_{method}"), x, lam, mu)
    w.optim = None
    if flags(d, other) != before:
        raise W.Violation("wrong-method", f"{what}: the {other} outcome changed from {before} to "
                          f"{flags(d, other)}")
    kind, last = outcome(r, o, fault, what)
    if kind != "done":
        return kind
    ok, msg, xs, _, fun = last
    got = getattr(d, f"convergence_success_{method}", None)
    if got is None or bool(got) != ok:
        raise W.Violation("flag", f"{what}: the optimiser reported success={ok}, recorded {got}")
    if str(getattr(d, f"convergence_message_{method}", None)) != msg:
        raise W.Violation("flag", f"{what}: the optimiser reported {msg!r}, recorded "
                          f"{getattr(d, f'convergence_message_{method}', None)!r}")
    wt, dd = getattr(d, f"W_hat_{method}"), np.diag(getattr(d, f"D_hat_{method}"))
    iterate(xs, np.r_[np.ravel(wt), dd], what)
    if util.same(d.W_hat, wt) and (method == "mle" or (xs[wt.size:] >= 0).all()):
        with np.errstate(all="ignore"):
            objective(getattr(d, f"validation_{method}")(lam, mu, x), fun, what)
    return "ok" if ok else "failed"


def concurrent(ch, w):
    """Gaussian fits of several threads, one of which may be constructing other models."""
    from medil import sample
    from medil.models import DevMedil, GaussianMCM, NeuroCausalFactorAnalysis

    n = ch.weighted([(2, 3), (3, 1)])
    fails = ch.pick([0.5, 1.0, 0.0, 1.0])
    plan = {i: {"kind": "flag", "msg": f"simulated failure number {i}."}
            for i in range(12) if ch.bool(fails)}
    progs, what = [], []
    for t in range(n):
        prog = []
        for _ in ch.many(1, 3, 0.5):
            k = ch.weighted([("given", 4), ("fit", 1), ("ncfa", 2), ("dev", 1)]) if t else \
                ch.weighted([("given", 4), ("fit", 1)])
            x = util.make_data(ch.seed(), ch.int(15, 40), ch.int(2, 3), "mixed")
            b = sample.biadj(x.shape[1], rng=util.rng(ch.seed()))
            prog.append({"fit": lambda x=x: GaussianMCM().fit(x),
                         "given": lambda x=x, b=b: GaussianMCM(biadj=b).fit(x),
                         "ncfa": lambda: NeuroCausalFactorAnalysis(path="vae/"),
                         "dev": lambda: DevMedil()}[k])
            what.append((t, k))
        progs.append(prog)
    w.say(f"threads {what}")
    w.hit("concurrent_runs")
    for _ in ch.many(1, 9, 0.85):  # schedules
        w.optim = o = msim.Optim(plan)
        sch = tsim.Sched(tsim.draw_plan(ch, ch.pick([4, 7]), 16))
        with util.warned() as rec:
            res = sch.run([lambda p=p: [f() for f in p] for p in progs])
        w.optim = None
        w.say(f"switches {sch.switches}")
        w.mark("threads", what, sch.switches[:3])
        w.nontrivial |= bool(sch.switches)
        for r in res:
            if r[0] == "exc":
                raise W.Violation("raised", f"{what}: {util.brief(r[1])}")
        texts = [str(v.message) for v in rec]
        for c in o.calls:
            if c is not None and not c[0] and not any(c[1] in t for t in texts):
                raise W.Violation("silent-failure", f"threads {what}: the optimiser reported {c[1]!r}, "
                                  f"warnings: {texts}")
            if c is not None and c[0] and any(c[1] in t for t in texts):
                raise W.Violation("false-warning", f"threads {what}: the optimiser succeeded, "
                                  f"warnings: {texts}")


def simulate(ch, w):
    from medil import sample
    from medil.models import DevMedil, GaussianMCM

    if ch.bool(0.2):
        return concurrent(ch, w)
    objs, log = [], []
    for i in ch.many(1, 6, 0.8):
        if not objs or ch.bool(0.25):
            cols = ch.weighted([(ch.int(2, 4), 8), (ch.int(5, 8), 1)])
            kind = ch.weighted([("learned", 2), ("given", 2), ("dev", 3)])
            kw = {"rng": util.rng(ch.seed())}
            if kind == "given":
                kw["biadj"] = sample.biadj(cols, rng=util.rng(ch.seed()))
            if kind == "dev":
                cols = min(cols, 3)
                kw["one_pure_child"] = ch.bool(0.8)
            m = (DevMedil if kind == "dev" else GaussianMCM)(**kw)
            m._sim_cols = cols
            objs.append((kind, m))
        kind, m = objs[ch.draw(len(objs))]
        fault = draw_fault(ch)
        label = kind
        method = None
        if kind == "dev":
            method = label = ch.pick(["mle", "lse"])
        what = f"{label} fit with {fault} after {log}"
        if kind == "dev":
            res = penalised(ch, w, m, method, fault, what)
        else:
            res = gaussian(ch, w, m, fault, what)
        log.append((label, fault["kind"] if fault else None, res))
        w.mark(label, fault["kind"] if fault else None, res, i)
        w.hit(f"outcome:{res}")
        if fault:
            w.nontrivial = True
    w.say(str(log))
