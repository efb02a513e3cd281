"""C15: an interrupted call leaves inputs intact and can simply be retried."""
import numpy as np

from vsim import fsim, ncfa, ops, proc, psim, tsim, util
from vsim import world as W

QUICK, THOROUGH = 700, 30000
NONTRIVIAL = "an exception was raised inside the package and the call was then retried"
SITUATION = "(call, source line interrupted, exception, memory form of the inputs)"
REAL = ["medil.*", "NumPy, SciPy, dcor, torch", "worker processes (real fork)"]
STUB = ["the instant of the interrupt (n-th source line of medil executed by the call)",
        "pool scheduling", "clock"]
ASSUME = ["interrupts arrive between source lines of medil, not inside third-party calls",
          "fits through an optimiser are compared to 1e-5, everything else to 1e-9"]


class Call:
    """A public call: caller's arrays, the object it is made on, the call itself."""

    def __init__(self, name, arrays, call, make=None, tol=1e-9, look=None):
        self.name, self.arrays, self.call, self.make, self.tol = name, arrays, call, make, tol
        self.look = look
        self.prior = None  # earlier use of the same object, with other data


def draw_call(ch):
    from medil import evaluate, independence_testing as it, sample
    from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc
    from medil.graph import UndirectedDependenceGraph
    from medil.models import DevMedil, GaussianMCM

    forms = []

    def dress(x):
        y, form = util.dressed(ch, x)
        forms.append(form)
        return y

    def data(lo=2, hi=5, rows=(8, 40), kinds=("mixed", "shared", "ties", "indep")):
        return dress(util.make_data(ch.seed(), ch.int(*rows), ch.int(lo, hi), ch.pick(kinds)))

    k = ch.weighted([("dependence", 4), ("given_p", 1), ("dcov", 2), ("xicorr", 2), ("cover", 3),
                     ("heuristic", 3), ("measures", 3), ("perm", 3), ("biadj", 2), ("mcm", 3),
                     ("sample", 2), ("gaussian", 5), ("dev", 3), ("dev_sample", 1), ("ncfa", 2),
                     ("export", 1), ("reduce", 1)])
    if k == "dependence":
        m, a = ch.pick(["xicor", "dcov_fast", "dcov_big"]), ch.pick([0.05, 0.4])
        x = data(2, 14 if m == "xicor" else 5)
        c = Call(f"estimate_UDG({m})", {"dataset": x},
                 lambda o, v: it.estimate_UDG(v["dataset"], method=m, significance_level=a))
    elif k == "given_p":
        n = ch.int(2, 6)
        u = np.triu(util.rng(ch.seed()).random((n, n)), ch.draw(2))
        c = Call("estimate_UDG(p-values)", {"dataset": data(n, n), "p_values": dress(u + u.T)},
                 lambda o, v: it.estimate_UDG(v["dataset"], v["p_values"], 0.3))
    elif k == "dcov":
        c = Call("dcov", {"samples": data(1, 5)}, lambda o, v: it.dcov(v["samples"]))
    elif k == "xicorr":
        x, t = data(2, 2), ch.bool()
        c = Call("xicorr", {"x": x[:, 0], "y": x[:, 1]},
                 lambda o, v: list(it.xicorr(v["x"], v["y"], ties=t)))
    elif k in ("cover", "heuristic", "export", "reduce"):
        g = ops.graph_of(ch.seed(), ch.int(2, 6), ch.pick([0.3, 0.5, 0.8]))
        g = dress(g.astype(int) if k != "heuristic" and ch.bool(0.7) else g)
        if k == "export":
            c = Call("convert_to_nde", {"graph": g},
                     lambda o, v: UndirectedDependenceGraph(v["graph"]).convert_to_nde("g") or
                     ncfa.read("g.nde"))
        elif k == "reduce":
            def reduce(o, v):
                u = UndirectedDependenceGraph(v["graph"])
                u.make_aux()
                r = u.reducible_copy()
                r.reduzieren(len(v["graph"]))
                return [r.adj_matrix, u.adj_matrix, r.k_num_cliques]

            c = Call("reduzieren", {"graph": g}, reduce)
        else:
            f = find_clique_min_cover if k == "cover" else find_heuristic_1pc
            c = Call(f.__name__, {"graph": g}, lambda o, v: np.array(f(v["graph"])))
    elif k == "measures":
        n = ch.int(2, 6)
        a, b = (dress(sample.biadj(n, rng=util.rng(ch.seed()))) for _ in range(2))
        c = ch.weighted([(Call("sfd", {"predicted": a, "true": b},
                               lambda o, v: list(evaluate.sfd(v["predicted"], v["true"]))), 2),
                         (Call("recover_ug", {"biadj": a},
                               lambda o, v: evaluate.recover_ug(v["biadj"])), 1)])
    elif k == "perm":
        n, p, t = ch.int(1, 5), ch.int(1, 4), ch.draw(3)
        r = util.rng(ch.seed())
        a, b = dress(r.standard_normal((p, n))), dress(r.standard_normal((max(1, p - t), n)))
        f = ch.pick([evaluate.min_perm_squared_l2_dist, evaluate.min_perm_squared_l2_dist_abs])
        c = Call(f.__name__, {"predicted": a, "true": b},
                 lambda o, v: list(f(v["predicted"], v["true"])))
    elif k == "biadj":
        n, one = ch.int(2, 6), ch.bool(0.7)
        c = Call("biadj", {}, lambda o, v: sample.biadj(n, density=0.5, one_pure_child=one, rng=o[1]))
    elif k in ("mcm", "sample"):
        n, size, given = ch.int(2, 6), ch.pick([3, 1, 30]), ch.bool(0.7)
        b = {"structure": dress(sample.biadj(n, rng=util.rng(ch.seed())))} if given else {}
        make = lambda gen, v: sample.mcm(rng=gen, num_meas=n, biadj=v.get("structure", np.array([])))
        if k == "mcm":
            c = Call("mcm", b, lambda o, v: ops.describe(make(o[1], v)))
        else:
            c = Call("sample", b, lambda o, v: o[0].sample(size), make, look=ops.describe)
    elif k == "gaussian":
        x = data(2, 4, (10, 50), ("mixed", "shared", "indep"))
        s = ch.weighted([("none", 2), ("biadj", 2), ("udg", 2)])
        v = {"dataset": x}
        if s == "biadj":
            v["biadj"] = dress(sample.biadj(x.shape[1], rng=util.rng(ch.seed())))
        elif s == "udg":
            v["udg"] = dress(ops.graph_of(ch.seed(), x.shape[1], 0.5) & ~np.eye(x.shape[1], dtype=bool))
        c = Call(f"GaussianMCM.fit({s})", v,
                 lambda o, v: ops.describe(o[0].fit(v["dataset"])),
                 lambda gen, v: GaussianMCM(rng=gen, **{q: v[q] for q in v if q != "dataset"}), 1e-5)
        other = util.make_data(ch.seed(), ch.int(10, 50), x.shape[1], "mixed") * 2
        c.prior = lambda o: o[0].fit(other)
    elif k in ("dev", "dev_sample"):
        x = data(2, 3, (20, 40), ("mixed", "indep"))
        m, one = ch.pick(["mle", "lse"]), ch.bool(0.8)

        def fit(o, v):
            d = o[0].fit(v["dataset"], m, 0.1, 0.05)
            return [np.array(d.W_hat), np.array(d.D_hat)]

        make = lambda gen, v: DevMedil(rng=gen, one_pure_child=one)
        c = Call(f"DevMedil.fit({m})", {"dataset": x}, fit, make, 1e-5)
        other, before = util.make_data(ch.seed(), 25, ch.int(2, 3), "mixed"), ch.pick(["mle", "lse"])
        c.prior = lambda o: o[0].fit(other, before, 0.1, 0.05)
        if k == "dev_sample":
            c = Call(f"DevMedil.sample({m})", {"dataset": x}, lambda o, v: o[0].sample(4, m),
                     lambda gen, v: DevMedil(rng=gen).fit(v["dataset"], m), 1e-5)
    else:
        cfg = ncfa.draw_cfg(ch, 2, 1, small=True)
        v = {"dataset": dress(cfg.data())}
        if cfg.explicit:
            v["train_rows"], v["valid_rows"] = cfg.split()

        def fit(o, v):
            if "train_rows" in v:
                o[0].fit(v["dataset"], (v["train_rows"], v["valid_rows"]))
            else:
                o[0].fit(v["dataset"])
            return ncfa.state(o[0])

        c = Call("NeuroCausalFactorAnalysis.fit", v, fit,
                 lambda gen, v: ncfa.make(cfg, "vae/", rng=gen), 1e-5)
        other = ncfa.draw_cfg(ch, 2, 0, small=True)

        def use(o):
            ncfa.apply(o[0], other)
            ncfa.fit(o[0], other)
            ncfa.apply(o[0], cfg)

        c.prior = use
    c.forms = forms
    if c.prior and not ch.bool(0.4):
        c.prior = None
    return c


class Trace:
    """Source locations of medil executed, in order."""

    def __init__(self):
        self.lines = []

    def _line(self, frame, event, arg):
        if event == "line":
            self.lines.append((frame.f_code.co_name, frame.f_lineno))
        return self._line

    def _call(self, frame, event, arg):
        return self._line if tsim._mine(frame) else None

    def __enter__(self):
        import sys

        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        import sys

        sys.settrace(None)


def plain(c, gseed, traced):
    """The call, never interrupted, in a process of its own."""
    gen = util.rng(gseed)
    with util.quiet(), np.errstate(all="ignore"):
        obj = c.make(gen, c.arrays) if c.make else None
        if c.prior:
            c.prior((obj, gen))
        if traced:
            with Trace() as t:
                r = util.attempt(c.call, (obj, gen), c.arrays)
        else:
            r = util.attempt(c.call, (obj, gen), c.arrays)
    r = ("exc", type(r[1]).__name__) if r[0] == "exc" else ("ok", util.freeze(r[1]))
    return r, repr(gen.bit_generator.state), (t.lines if traced else None)


def simulate(ch, w):
    w.clock = fsim.Clock()
    w.pools = psim.PoolSim(ch.pick([4, 1, 2]), ch.seed(), "fork")
    c = draw_call(ch)
    gseed = ch.seed()
    ref, ref_gen, lines = proc.unwrap(proc.run_child(plain, c, gseed, True))
    where = {}
    for i, loc in enumerate(lines):
        where.setdefault(loc, []).append(i)
    locs = sorted(where)
    guard = util.Guarded(**c.arrays)
    gen = util.rng(gseed)
    with util.quiet(), np.errstate(all="ignore"):
        obj = c.make(gen, c.arrays) if c.make else None
        if c.prior:
            c.prior((obj, gen))
            w.hit("objects_used_before")
        state = gen.bit_generator.state
        seen = []
        for _ in ch.many(1, 4, 0.4):
            gen.bit_generator.state = state
            exc = ch.pick(["KeyboardInterrupt", "MemoryError"])
            loc = locs[ch.draw(len(locs))] if locs else None
            n = where[loc][ch.weighted([(0, 2), (len(where[loc]) - 1, 1),
                                        (ch.draw(len(where[loc])), 2)])] if loc else 0
            with tsim.Interrupt(n, lambda: psim.exc_of(exc)) as it:
                r = util.attempt(c.call, (obj, gen), c.arrays)
            seen.append((it.where, exc) if it.fired else "no interrupt")
            guard.check(f"by {c.name} interrupted at {it.where} ({exc})" if it.fired
                        else f"by {c.name}")
            if it.fired:
                w.nontrivial = True
                w.mark(c.name, it.where, exc, c.forms, bool(c.prior))
            w.hit("interrupted" if r[0] == "exc" else "completed")
        gen.bit_generator.state = state
        r = util.attempt(c.call, (obj, gen), c.arrays)
    what = f"{c.name} {c.forms} {'on a used object ' * bool(c.prior)}retried after {seen}"
    guard.check("by " + what)
    w.say(what)
    w.hit("call:" + c.name)
    if ref[0] == "exc":
        if r[0] != "exc" or type(r[1]).__name__ != ref[1]:
            raise W.Violation("retry-differs", f"{what}: {r[0]} where a call never interrupted "
                              f"raises {ref[1]}")
        return
    if r[0] == "exc":
        raise W.Violation("retry-fails", f"{what}: {util.brief(r[1])}")
    if not util.same(util.freeze(r[1]), ref[1], c.tol):
        raise W.Violation("retry-differs", f"{what}: differs from a call never interrupted: "
                          f"{util.diff(util.freeze(r[1]), ref[1])}")
    if repr(gen.bit_generator.state) != ref_gen:
        raise W.Violation("retry-stream", f"{what}: leaves the generator in another state than a "
                          "call never interrupted")
