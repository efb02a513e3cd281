"""C25: results, once returned, never change and never leak into later results."""
import numpy as np

from vsim import fsim, ncfa, ops, proc, psim, tsim, util
from vsim import world as W

QUICK, THOROUGH = 700, 30000
NONTRIVIAL = "results of several calls were held, or overwritten by the caller, while later calls ran"
SITUATION = "(calls made, results overwritten, interrupts)"
REAL = ["medil.*", "NumPy, SciPy, dcor, torch"]
STUB = ["the sequence of calls and of the caller's writes", "the instant of interrupts", "pool "
        "scheduling", "disk operations", "clock"]
ASSUME = ["writing into an array returned by a function is the caller's right; writing into the "
          "attributes of a model changes that model, so those are only read",
          "a p-value matrix passed in and a structure passed to a model stay shared with the caller"]


def leaves(x, out):
    """All arrays inside a value."""
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            leaves(v, out)
    elif isinstance(x, dict):
        for v in x.values():
            leaves(v, out)
    return out


def raw_call(ch):
    """(name, maker of inputs, call) where call returns what the package returns, uncopied."""
    from medil import evaluate, independence_testing as it, sample
    from medil.ecc_algorithms import find_clique_min_cover, find_heuristic_1pc
    from medil.graph import UndirectedDependenceGraph

    k = ch.weighted([("biadj", 3), ("er", 1), ("dependence", 3), ("fast", 2), ("dcov", 2), ("cover", 2),
                     ("heuristic", 3), ("ug", 2), ("sfd", 1), ("perm", 3), ("xi", 1), ("aux", 1)])
    s = ch.seed()
    if k == "biadj":
        n, d = ch.int(2, 6), ch.pick([0.3, 0.8, 1.0])
        f = lambda v: sample.biadj(n, density=d, rng=util.rng(s))
        return k, (n, d, s), lambda: {}, f
    if k == "er":
        n = ch.int(2, 4)
        return k, (n, s), lambda: {}, lambda v: sample.biadj(n, density=0.6, one_pure_child=False,
                                                           rng=util.rng(s))
    if k in ("dependence", "fast"):
        m = "dcov_fast" if k == "fast" else ch.pick(["xicor", "dcov_big"])
        r, n = ch.int(8, 20), ch.int(2, 4)
        return f"{k} {m}", (s, r, n), lambda: {"x": util.make_data(s, r, n, "mixed")}, \
            lambda v: it.estimate_UDG(v["x"], method=m)
    if k == "dcov":
        r, n = ch.int(5, 15), ch.int(1, 4)
        return k, (s, r, n), lambda: {"x": util.make_data(s, r, n, "mixed")}, lambda v: it.dcov(v["x"])
    if k == "xi":
        return k, (s,), lambda: {"x": util.make_data(s, 20, 2, "mixed")}, \
            lambda v: it._xicorr(v["x"][:, 0], v["x"][:, 1])
    if k in ("cover", "heuristic", "aux"):
        n, p = ch.int(2, 6), ch.pick([0.3, 0.6])
        make = lambda: {"g": ops.graph_of(s, n, p).astype(int if k != "heuristic" else bool)}

        def aux(v):
            u = UndirectedDependenceGraph(v["g"])
            u.make_aux()
            r = u.reducible_copy()
            r.reduzieren(n)
            return [r.adj_matrix]

        f = {"cover": find_clique_min_cover, "heuristic": find_heuristic_1pc}.get(k)
        return k, (s, n, p), make, aux if k == "aux" else (lambda v: f(v["g"]))
    n = ch.int(2, 5)
    if k in ("ug", "sfd"):
        make = lambda: {"a": sample.biadj(n, rng=util.rng(s)), "b": sample.biadj(n, rng=util.rng(s + 1))}
        return k, (s, n), make, (lambda v: evaluate.recover_ug(v["a"])) if k == "ug" else \
            (lambda v: evaluate.sfd(v["a"], v["b"]))
    q = ch.int(1, 4)
    make = lambda: {"p": util.rng(s).standard_normal((q, n)), "t": util.rng(s + 1).standard_normal((q, n))}
    f = ch.pick([evaluate.min_perm_squared_l2_dist, evaluate.min_perm_squared_l2_dist_abs])
    return f.__name__, (s, n, q), make, lambda v: f(v["p"], v["t"])


def once(make, f):
    with util.quiet(), np.errstate(all="ignore"):
        r = util.attempt(f, make())
    return ("ok", util.freeze(r[1])) if r[0] == "ok" else ("exc", type(r[1]).__name__)


class Held:
    """Arrays handed out, with copies of what they held then."""

    def __init__(self):
        self.items = []  # [label, array, copy, owner]
        self.boxes = []  # [label, list or dictionary, what it held]

    def add(self, label, value, owner=None):
        if isinstance(value, (list, dict)):
            self.boxes.append([label, value, value.copy()])
        for i, a in enumerate(leaves(value, [])):
            self.items.append([f"{label}[{i}]", a, a.copy(), owner])

    def check(self, when):
        for label, box, c in self.boxes:
            keys = list(box) if isinstance(box, dict) else range(len(box))
            if len(box) != len(c) or any(box[k] is not (c.get(k) if isinstance(c, dict) else c[k])
                                         for k in keys):
                raise W.Violation("result-changed", f"{label} was given other contents by {when}")
        for label, a, c, _ in self.items:
            if a.shape != c.shape or a.tobytes() != c.tobytes():
                raise W.Violation("result-changed", f"{label} was changed by {when}: {util.diff(a, c)}")

    def scribble(self, ch):
        """The caller overwrites a result that is its own. Returns its label."""
        mine = [x for x in self.items if x[3] is None and x[1].size and x[1].flags.writeable]
        if not mine:
            return None
        x = mine[ch.draw(len(mine))]
        if x[1].dtype.kind == "b":
            np.logical_not(x[1], out=x[1])
        else:
            x[1][...] = x[1] * 3 + 7
        for y in self.items:  # results of one call may share memory with each other
            if np.shares_memory(y[1], x[1]):
                if y is not x and y[3] != x[3]:
                    raise W.Violation("shared-result", f"{y[0]} and {x[0]} share memory")
                y[2] = y[1].copy()
        return x[0]


def spoil(x):
    """The caller reuses the memory of an array it passed in."""
    if isinstance(x, list):
        x.clear()
    elif x.flags.writeable:
        x[...] = np.nan if x.dtype.kind == "f" else 0


def draw_dataset(ch, rows, cols):
    """Also balanced data, whose mean is one of its rows, and constant columns."""
    x = util.make_data(ch.seed(), rows, cols, "mixed")
    k = ch.weighted([("plain", 4), ("balanced", 2), ("constant", 1), ("columns", 1)])
    if k == "balanced":
        x = x[:rows // 2]
        x = np.vstack([x, -x, np.zeros((1, cols))])
    elif k == "constant":
        x[:, ch.draw(cols)] = 1.0
    elif k == "columns":
        x = np.asfortranarray(x)
    return x


def model_arrays(m):
    p = m.parameters
    return [p.error_means, p.error_variances, p.biadj_weights, np.asarray(m.biadj)]


def net_arrays(m):
    out = [m.parameters.weights]
    if m.loss is not None:
        out += [np.asarray(v) for v in m.loss.values()]
    return out + [t.detach().numpy() for t in m.parameters.vae.state_dict().values()]


def simulate(ch, w):
    from medil import sample
    from medil.models import DevMedil, GaussianMCM

    w.clock = fsim.Clock()
    w.fs = fsim.FS(w.root)
    w.pools = psim.PoolSim(ch.pick([4, 1]), ch.seed(), "fork")
    held, log = Held(), []
    made, models, nets, devs = [], [], [], []
    refs = {}

    def ref(key, make, f):
        if key not in refs:
            refs[key] = proc.unwrap(proc.run_child(once, make, f))
        return refs[key]

    for i in ch.many(2, 12, 0.9):
        op = ch.weighted([("call", 6), ("again", 4), ("scribble", 4), ("interrupt", 1), ("model", 2),
                          ("sample", 3), ("gaussian", 1), ("dev", 1), ("net", 1)])
        if op in ("again", "interrupt") and not made:
            op = "call"
        if op == "sample" and not models:
            op = "model"
        label = f"{i}:{op}"
        when = f"{label} after {log[-6:]}"
        with util.quiet(), np.errstate(all="ignore"):
            if op in ("call", "again", "interrupt"):
                if op == "call":
                    made.append(raw_call(ch))
                name, args, make, f = made[ch.draw(len(made))] if op != "call" else made[-1]
                label = f"{i}:{op} {name}{args}"
                when = f"{label} after {log[-6:]}"
                want = ref((name, args), make, f)
                v = make()
                if op == "interrupt":
                    with tsim.Interrupt(ch.gap(7), lambda: KeyboardInterrupt("sim")):
                        util.attempt(f, v)
                else:
                    r = util.attempt(f, v)
                    got = ("ok", util.freeze(r[1])) if r[0] == "ok" else ("exc", type(r[1]).__name__)
                    if got[0] != want[0] or not util.same(got[1], want[1], 1e-9):
                        raise W.Violation("leaked", f"{when}: result differs from the same call in a "
                                          f"fresh process: {util.diff(got[1], want[1])}")
                    if r[0] == "ok":
                        held.add(label, r[1])
                    # the inputs are the caller's: it may reuse their memory
                    if ch.bool(0.5):
                        for a in v.values():
                            if a.dtype.kind == "b":
                                np.logical_not(a, out=a)
                            else:
                                a[...] = 0
                        when += ", whose inputs were then overwritten"
            elif op == "scribble":
                label = f"{i}:overwrote {held.scribble(ch)}"
            elif op == "model":
                m = sample.mcm(num_meas=ch.int(2, 5), rng=util.rng(ch.seed()))
                models.append(m)
                held.add(label, model_arrays(m), "model")
            elif op == "sample":
                k = ch.draw(len(models))
                held.add(f"{label} of model {k}", models[k].sample(ch.pick([3, 1, 8])))
            elif op == "gaussian":
                same = models and ch.bool(0.3)
                cols = ch.int(2, 3)
                m = models[ch.draw(len(models))] if same else GaussianMCM(rng=util.rng(1))
                cols = m.biadj.shape[1] if same else cols
                x = draw_dataset(ch, 30, cols)
                m.fit(x)
                held.add(label, model_arrays(m), "model")
                spoil(x)
                if not (m.parameters.error_variances <= 0).any() and not same:
                    models.append(m)
                elif same and (m.parameters.error_variances <= 0).any():
                    models.remove(m)
            elif op == "dev":
                d = devs[ch.draw(len(devs))] if devs and ch.bool(0.6) else DevMedil(rng=util.rng(2))
                if d not in devs:
                    devs.append(d)
                x = util.make_data(ch.seed(), 30, 2, "mixed")
                d.fit(x, ch.pick(["lse", "mle"]))
                held.add(label, [d.W_hat, d.D_hat], "dev")
                spoil(x)
                ms = [q for q in ("mle", "lse") if hasattr(d, f"W_hat_{q}")]
                held.add(label + " sample", d.sample(3, ms[ch.draw(len(ms))]))
            elif op == "net":
                m = nets[ch.draw(len(nets))] if nets and ch.bool(0.6) else None
                cfg = ncfa.draw_cfg(ch, 2, 1, small=True)
                if m is None:
                    m = ncfa.make(cfg, ch.pick(["a/", "b/"]))
                    nets.append(m)
                ncfa.apply(m, cfg)
                x, split = cfg.data(), cfg.split()
                m.fit(x) if split is None else m.fit(x, split)
                held.add(label, net_arrays(m), "net")
                held.add(label + " loss", m.loss, "net")
                for a in (x, *(split or ())):
                    spoil(a)
        held.check(when)
        log.append(label)
        if i and len(held.items) > 1:
            w.nontrivial = True
        w.hit("op:" + op)
        w.mark([x.split("[")[0].split("(")[0].split(":")[1] for x in log[-3:]])
    w.hit("arrays_held", len(held.items))
    w.say(str(log))
