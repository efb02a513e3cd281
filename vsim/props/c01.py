"""C01: parallel pairwise tests do not depend on worker count or scheduling."""
import numpy as np
from scipy.stats import norm, rankdata

from vsim import fsim, psim, util
from vsim import world as W

QUICK, THOROUGH = 700, 30000
NONTRIVIAL = ("a pool executed at least two chunks, or ran on one CPU, or saw a one-column or tied "
              "dataset, or was called repeatedly in one process")
SITUATION = ("(test, shape, reported CPUs, scheduling policy, worker kind, order in which chunks "
             "arrived)")
REAL = ["medil.independence_testing", "dcor", "scipy", "worker processes in fork mode (real fork, "
        "pickled tasks and results)"]
STUB = ["multiprocessing.Pool / concurrent.futures scheduling (simulated, seeded)", "CPU count"]
ASSUME = ["a worker sees only what is pickled to it or was inherited at fork",
          "the p-value of one pair on its own is computed by an independent implementation "
          "(xi coefficient; dcor for distance correlation), and by the package's own test function "
          "in a fresh process where columns have ties"]


def xi_p(x, y):
    """Chatterjee's xi, p-value by the asymptotic theory with ties in y allowed; x without ties."""
    n = len(x)
    o = np.argsort(rankdata(x))
    r = rankdata(y) / n
    l = rankdata(-np.asarray(y)) / n
    cu = np.mean(l * (1 - l))
    with np.errstate(all="ignore"):
        xi = 1 - np.abs(np.diff(r[o])).sum() / (2 * n) / cu
        q = np.sort(r)
        i = np.arange(1, n + 1)
        a = np.mean((2 * n - 2 * i + 1) * q * q) / n
        c = np.mean((2 * n - 2 * i + 1) * q) / n
        m = (np.cumsum(q) + (n - i) * q) / n
        v = (a - 2 * np.mean(m ** 2) + c * c) / cu ** 2
        return 1 - norm.cdf(np.sqrt(n) * xi / np.sqrt(v))


def _own_tests(x, method, pairs):
    from medil import independence_testing as it

    f = it.xicor_test if method == "xicor" else it.dcor_test
    with np.errstate(all="ignore"):
        return [float(f(x[:, [i, j]].T)) for i, j in pairs]


def reference(x, method):
    """p-value of every pair on its own (nan where it cannot be determined)."""
    n = x.shape[1]
    p = np.zeros((n, n))
    left = []
    for i in range(n):
        for j in range(i + 1, n):
            if method == "xicor" and len(np.unique(x[:, i])) == len(x):
                p[i, j] = p[j, i] = xi_p(x[:, i], x[:, j])
            elif method == "dcov_big":
                from dcor.independence import distance_correlation_t_test

                with np.errstate(all="ignore"):
                    a, b = x[:, [i, j]].T
                    p[i, j] = p[j, i] = distance_correlation_t_test(a, b).pvalue
            else:
                left.append((i, j))
    if left:
        r = util.solo(_own_tests, np.array(x), method, left)
        if r[0] != "ok":
            raise W.HarnessError(f"pairwise test fails on its own: {r}")
        for (i, j), v in zip(left, r[1]):
            p[i, j] = p[j, i] = v
    return p


def draw_input(ch, small=False):
    method = ch.weighted([("xicor", 6), ("dcov_big", 2)])
    cols = ch.weighted([("few", 5), ("one", 1), ("two", 1)] + ([] if small else
                       [("chunk", 3), ("chunks", 3)]))
    cols = {"few": lambda: ch.int(3, 6), "one": lambda: 1, "two": lambda: 2,
            "chunk": lambda: ch.int(13, 16), "chunks": lambda: ch.int(20, 25)}[cols]()
    rows = ch.int(6, 40)
    if not small:
        size = ch.weighted([("usual", 24), ("long", 2), ("wide", 1)])
        if size == "long":
            rows = ch.weighted([(ch.int(41, 300), 3), (ch.int(301, 1300), 1)])
            cols = min(cols, 6 if rows > 300 else 14)
        elif size == "wide":
            cols = ch.int(26, 48)
    if method == "dcov_big" and cols > 16:
        cols = 15
    if method == "dcov_big" and rows > 300:
        rows, cols = 301, min(cols, 3)
    kind = ch.weighted([("mixed", 5), ("shared", 2), ("indep", 2), ("nonlin", 2), ("ties", 2),
                        ("const", 1)])
    x = util.make_data(ch.seed(), rows, cols, kind)
    if cols > 1 and ch.bool(0.15):  # one column is another one again
        i, j = ch.draw(cols), ch.draw(cols)
        x[:, i] = ch.pick([1, -1, 3, 1]) * x[:, j] + ch.pick([0, 0, 1])
        kind += " repeated"
    dt = ch.weighted([("float64", 6), ("float32", 1), ("int64", 1)])
    if dt == "float32":
        x = x.astype(np.float32)
    elif dt == "int64":
        x = np.round(x * 10).astype(np.int64)
    return method, x, f"{method} {rows}x{cols} {kind} {dt}"


def draw_pool(ch, w):
    cpus = ch.weighted([(4, 4), (1, 3), (2, 2), (3, 2), (8, 2), (64, 1)])
    policy = ch.weighted([("random", 5), ("fifo", 1), ("lifo", 2), ("starve", 2)])
    mode = ch.weighted([("inline", 3), ("fork", 1)])
    w.clock = w.clock or fsim.Clock()
    w.pools = psim.PoolSim(cpus, ch.seed(), mode, policy=policy)
    w.pools.slow = ch.weighted([(0, 6), (20, 1), (900, 1), (20000, 1)])
    return f"{cpus} CPUs {policy} {mode}, {w.pools.slow} s"


def judge(x, alpha, udg, p, ref, what):
    n = x.shape[1]
    if p is None or np.shape(p) != (n, n) or np.shape(udg) != (n, n):
        raise W.Violation("shape", f"{what}: shapes {np.shape(udg)}, {np.shape(p)} for {n} columns")
    p = np.asarray(p, float)
    udg = np.asarray(udg)
    if udg.dtype != bool:
        raise W.Violation("shape", f"{what}: graph of type {udg.dtype}")
    if np.diag(p).any():
        raise W.Violation("diagonal", f"{what}: nonzero diagonal of p-values")
    if not np.allclose(p, ref, rtol=1e-7, atol=1e-9, equal_nan=True):
        i, j = np.argwhere(~np.isclose(p, ref, rtol=1e-7, atol=1e-9, equal_nan=True))[0]
        raise W.Violation("p-value", f"{what}: p-value of columns ({i}, {j}) is {p[i, j]!r}, "
                          f"on its own the test gives {ref[i, j]!r}")
    with np.errstate(invalid="ignore"):
        want = p < alpha
    np.fill_diagonal(want, False)
    if not np.array_equal(udg, want):
        i, j = np.argwhere(udg != want)[0]
        raise W.Violation("graph", f"{what}: graph has {udg[i, j]} at ({i}, {j}) where the "
                          f"p-value is {p[i, j]!r}, level {alpha!r}")


def simulate(ch, w):
    from medil.independence_testing import estimate_UDG

    x = None
    for k in ch.many(1, 4, 0.6):
        if x is not None and ch.bool(0.2) and x.flags.writeable:
            # the same array object again, with new content
            x[...] = x[::-1, ::-1].copy() if ch.bool() else np.roll(x, 1, axis=1)
            text = "same array, new content"
        else:
            method, x, text = draw_input(ch, small=k > 1)
            x, form = util.dressed(ch, x)
            text += " " + form
        ref = reference(x, method)
        off = ref[np.triu_indices(len(ref), 1)]
        a = ch.weighted([("0.05", 3), ("mid", 3), ("exact", 3), ("one", 1), ("tiny", 1), ("zero", 1)])
        fin = np.sort(off[np.isfinite(off)])
        alpha = {"0.05": 0.05, "one": 1.0, "tiny": 1e-12, "zero": 0.0}.get(a)
        if alpha is None:
            if len(fin) == 0:
                alpha = 0.05
            elif a == "exact":
                alpha = float(fin[ch.draw(len(fin))])
            else:
                alpha = float(np.median(fin)) * 1.0001 + 1e-300
        pool = draw_pool(ch, w)
        w.say(f"{text}, level {a}, {pool}")
        g = util.Guarded(dataset=x)
        with np.errstate(all="ignore"):
            r = util.attempt(estimate_UDG, x, method, alpha) if ch.bool() else \
                util.attempt(lambda: estimate_UDG(x, method=method, significance_level=alpha))
        if r[0] == "exc":
            raise W.Violation("raised", f"{text}, {pool}: {util.brief(r[1])}")
        orders = [tuple(o) for o in w.pools.orders]
        w.mark(method, x.shape, w.pools.cpus, w.pools.policy, w.pools.mode, orders)
        if w.pools.cpus == 1 or k or x.shape[1] == 1 or any(len(o) > 1 for o in orders) \
                or "ties" in text:
            w.nontrivial = True
        w.pools = None
        judge(x, alpha, r[1][0], r[1][1], ref, f"{text}, {pool}")
        g.check("by estimate_UDG")
