"""C18: a supplied structure is authoritative in every Gaussian fit."""
import numpy as np

from vsim import msim, psim, tsim, util
from vsim import world as W
from vsim.props.c16 import EXC

QUICK, THOROUGH = 900, 40000
NONTRIVIAL = "a fit was judged after another fit, a failed or interrupted fit, or samples"
SITUATION = "(kind of structure, shape, type, last operations before the judged fit)"
REAL = ["medil.models, medil.ecc_algorithms", "SciPy optimiser"]
STUB = ["outcome of chosen optimiser runs", "the instant of interrupts during fits"]
ASSUME = ["structures hold 0/1 values of type bool, int or float",
          "the cover of a supplied graph is find_heuristic_1pc of it in a fresh process"]


def draw_structure(ch, n):
    from medil import sample

    kind = ch.weighted([("1pc", 3), ("random", 3), ("full", 1), ("empty-latent", 1)])
    if kind == "1pc":
        b = sample.biadj(n, rng=util.rng(ch.seed()), density=0.5)
    elif kind == "random":
        b = util.rng(ch.seed()).random((ch.int(1, 4), n)) < 0.5
    elif kind == "full":
        b = np.ones((ch.int(1, 2), n), bool)
    else:
        b = np.ones((2, n), bool)
        b[1] = False
    return np.asarray(b).astype(ch.weighted([(bool, 6), (int, 2), (float, 1)])), kind


def draw_graph(ch, n):
    from vsim import ops

    g = ops.graph_of(ch.seed(), n, ch.pick([0.5, 0.2, 0.9]))
    if ch.bool():
        g = g & ~np.eye(n, dtype=bool)
    return g, "graph"


def cover(g):
    from medil.ecc_algorithms import find_heuristic_1pc

    return np.array(find_heuristic_1pc(g))


def unchanged(m, kind, given, guard, what):
    guard.check(what)
    if kind == "graph":
        if not util.same(np.asarray(m.udg), given):
            raise W.Violation("graph-replaced", f"{what}: the model's graph is now\n{np.asarray(m.udg)}")
    elif not util.same(np.asarray(m.biadj).astype(float), given.astype(float)):
        raise W.Violation("structure-replaced", f"{what}: the model's structure is now\n"
                          f"{np.asarray(m.biadj).astype(int)}\ngiven\n{given.astype(int)}")


def judge(m, b, x, what):
    p = m.parameters
    wt, v, mu = (np.asarray(a, float) for a in (p.biadj_weights, p.error_variances, p.error_means))
    if wt.shape != b.shape or v.shape != (b.shape[1],):
        raise W.Violation("shape", f"{what}: weights {wt.shape}, variances {v.shape} for {b.shape}")
    if wt[~b.astype(bool)].any():
        raise W.Violation("off-structure", f"{what}: weights\n{wt}\non structure\n{b.astype(int)}")
    if mu.shape != v.shape or not np.allclose(mu, x.mean(0), rtol=1e-9, atol=1e-12):
        raise W.Violation("means", f"{what}: error means {mu}, column means {x.mean(0)}")
    if not (np.isfinite(wt).all() and np.isfinite(v).all()):
        raise W.Violation("not-finite", f"{what}: {wt} {v}")


def simulate(ch, w):
    from medil.models import GaussianMCM

    models, log = [], []
    for i in ch.many(2, 10, 0.88):
        op = "new" if not models else ch.weighted(
            [("fit", 5), ("sample", 2), ("cut", 2), ("fail", 3), ("wrong", 1), ("new", 1)])
        if op == "new":
            n = ch.weighted([(ch.int(2, 5), 7), (ch.int(6, 9), 1)])
            graph = ch.bool(0.4)
            given, kind = draw_graph(ch, n) if graph else draw_structure(ch, n)
            given, form = util.dressed(ch, given)
            kw = {"udg": given} if graph else {"biadj": given}
            if not graph and ch.bool(0.15):
                kw["udg"] = draw_graph(ch, n)[0]  # the structure wins
            if ch.bool(0.3):
                kw["rng"] = util.rng(ch.seed())
            want = given
            if graph:
                r = util.solo(cover, np.array(given))
                if r[0] != "ok":
                    raise W.Violation("raised", f"cover of {given.astype(int)}: {r}")
                want = r[1]
            models.append([GaussianMCM(**kw), kind, np.array(given), np.array(want), form,
                           util.Guarded(**kw), False])
            log.append(f"new {kind} {want.shape} {given.dtype}")
            continue
        j = ch.draw(len(models))
        m, kind, given, want, form, guard, fitted = models[j]
        n = given.shape[1]
        what = f"{op} of model {j} ({kind} {given.dtype} {form}) after {log[-8:]}"
        if op == "sample":
            if fitted and (m.parameters.error_variances > 0).all():
                m.sample(ch.pick([3, 0, 20]))
                log.append(f"sample {j}")
            unchanged(m, kind, given, guard, what)
            continue
        x = util.make_data(ch.seed(), ch.int(6, 60), n, ch.pick(["mixed", "shared", "indep", "ties"]))
        x = x * ch.pick([1.0, 5.0]) + ch.pick([0.0, 10.0])
        if op == "wrong":
            x = x[:, :-1] if ch.bool() else np.where(np.arange(n) == 0, np.nan, x)
        x, xf = util.dressed(ch, x)
        gd = util.Guarded(dataset=x)
        fault, it = None, None
        if op == "cut":
            fault = ch.weighted([({"kind": "cut", "at": ch.int(0, 4)}, 2),
                                 ({"kind": "flag", "msg": "simulated"}, 1)])
        elif op == "fail":
            fault = ch.weighted([({"kind": "raise", "exc": ch.pick(EXC)}, 2),
                                 ({"kind": "raise_inside", "exc": ch.pick(EXC), "at": ch.draw(60)}, 2),
                                 ({"kind": "interrupt", "at": ch.gap(9)}, 3)])
            if fault["kind"] == "interrupt":
                it = tsim.Interrupt(fault["at"], lambda: KeyboardInterrupt("simulated"))
        w.optim = msim.Optim({0: fault} if fault and it is None else {})
        with util.warned(), np.errstate(all="ignore"):
            if it is not None:
                with it:
                    r = util.attempt(m.fit, x)
            else:
                r = util.attempt(m.fit, x)
        w.optim = None
        gd.check(what)
        unchanged(m, kind, given, guard, what)
        if r[0] == "exc":
            if op in ("fit", "cut") or (op == "fail" and it is not None and not it.fired):
                raise W.Violation("raised", f"{what}: {util.brief(r[1])}")
            w.hit("failed_fits")
            log.append(f"{op} {j}")
            models[j][6] = False
            continue
        log.append(f"{op} {j}")
        if op == "wrong":
            models[j][6] = False
            continue  # not a fit one can judge (missing values)
        models[j][6] = True
        if kind == "graph" and not util.same(np.asarray(m.biadj).astype(bool), want.astype(bool)):
            raise W.Violation("wrong-cover", f"{what}: structure\n{np.asarray(m.biadj).astype(int)}\n"
                              f"the cover of the given graph is\n{want.astype(int)}")
        judge(m, want, np.asarray(x), what)
        w.hit("fits_judged")
        w.mark(kind, want.shape, given.dtype.kind, form, log[-3:])
        if len(log) > 2:
            w.nontrivial = True
    w.say(str(log))
