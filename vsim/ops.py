"""Calls of the public API as data: (name, arguments) -> comparable result.

A program is a list of steps executed against a context that holds one random
generator and the objects made so far, so the same program can be run alone,
interrupted, concurrently, or in another process.
"""
import numpy as np

from . import msim, util
from . import world as W

PENAL_DATA = (30, 3)


class Ctx:
    def __init__(self, gen):
        self.gen = gen  # None: the package's default generators
        self.models = []  # GaussianMCM, with structure and parameters
        self.devs = []  # DevMedil fitted
        self.kw = {} if gen is None else {"rng": gen}


def describe(m):
    """Everything public about a Gaussian model."""
    p = m.parameters
    return {"biadj": np.array(m.biadj), "W": np.array(p.biadj_weights, float),
            "means": np.array(p.error_means, float), "vars": np.array(p.error_variances, float)}


# -- steps that use a generator -----------------------------------------------------
def biadj(c, n, latent, density):
    from medil import sample

    return sample.biadj(n, density=density, num_latent=latent, **c.kw)


def biadj_er(c, n, density):
    from medil import sample

    with util.quiet():
        return np.asarray(sample.biadj(n, density=density, one_pure_child=False, **c.kw))


def mcm(c, n, latent, density):
    from medil import sample

    m = sample.mcm(num_meas=n, num_latent=latent, density=density, **c.kw)
    c.models.append(m)
    return describe(m)


def mcm_given(c, bseed, n):
    from medil import sample

    b = sample.biadj(n, rng=util.rng(bseed))
    m = sample.mcm(biadj=b, **c.kw)
    c.models.append(m)
    return describe(m)


def draw_sample(c, k, size):
    if not c.models:
        return "no model"
    m = c.models[k % len(c.models)]
    return np.asarray(m.sample(size))


def gaussian(c, dseed, rows, cols, kind, bseed):
    """Fit a Gaussian model (its generator only matters for sampling)."""
    from medil import sample
    from medil.models import GaussianMCM

    kw = dict(c.kw)
    if bseed >= 0:
        kw["biadj"] = sample.biadj(cols, rng=util.rng(bseed))
    m = GaussianMCM(**kw).fit(util.make_data(dseed, rows, cols, kind))
    if not (m.parameters.error_variances < 0).any():
        c.models.append(m)
    return describe(m)


def dev_fit(c, method, dseed, cols, lam, mu, new, k, cap, one=True):
    from medil.models import DevMedil

    if new or not c.devs:
        d = DevMedil(one_pure_child=one, **c.kw)
        c.devs.append(d)
    else:
        d = c.devs[k % len(c.devs)]
    msim.last.x0, msim.last.cap = None, cap
    try:
        d.fit(util.make_data(dseed, 30, cols, "mixed"), method, lam, mu)
    finally:
        msim.last.cap = None
    return {"W": np.array(d.W_hat), "D": np.array(d.D_hat), "start": msim.last.x0}


def dev_sample(c, k, method, size):
    if not c.devs:
        return "no model"
    d = c.devs[k % len(c.devs)]
    if not hasattr(d, f"W_hat_{method}"):
        return "not fitted"
    return np.asarray(d.sample(size, method))


# -- steps that are functions of their input only ----------------------------------------
def graph_of(gseed, n, p):
    """p < 0: a random graph between a cycle and its neighbours, where no
    independent set covers every edge.  p > 1: a circulant graph with shuffled
    vertices, where the exact search has to branch."""
    g = util.rng(gseed)
    if p > 1:
        step = np.abs(np.subtract.outer(np.arange(n), np.arange(n)))
        step = np.minimum(step, n - step)
        k = n // 2
        js = g.choice(k, min(k, int(p)), replace=False) + 1
        o = g.permutation(n)
        return (np.isin(step, js) | (step == 0))[o][:, o]
    u = np.triu(g.random((n, n)) < abs(p), 1)
    if p < 0:
        o = g.permutation(n)
        for a, b in zip(o, np.roll(o, 1)):
            u[min(a, b), max(a, b)] = a != b
    return u | u.T | np.eye(n, dtype=bool)


def cover(c, gseed, n, p):
    from medil.ecc_algorithms import find_clique_min_cover

    g = graph_of(gseed, n, p)
    with util.quiet():
        return [np.asarray(find_clique_min_cover(g.astype(int))), g]


def heuristic(c, gseed, n, p):
    from medil.ecc_algorithms import find_heuristic_1pc

    return np.asarray(find_heuristic_1pc(graph_of(gseed, n, p)))


def measures(c, s1, s2, n):
    from medil import evaluate, sample

    a, b = sample.biadj(n, rng=util.rng(s1)), sample.biadj(n, rng=util.rng(s2))
    k = min(4, n)
    w1, w2 = util.rng(s1).standard_normal((k, n)), util.rng(s2).standard_normal((max(1, k - 1), n))
    return [evaluate.sfd(a, b), evaluate.recover_ug(a.copy()),
            evaluate.min_perm_squared_l2_dist(w1, w2), evaluate.min_perm_squared_l2_dist_abs(w1, w2)]


def dependence(c, dseed, rows, cols, kind, method, alpha):
    from medil.independence_testing import estimate_UDG

    with np.errstate(all="ignore"):
        u, p = estimate_UDG(util.make_data(dseed, rows, cols, kind), method=method,
                            significance_level=alpha)
    return [np.asarray(u), p if p is None else np.asarray(p)]


def distance_cov(c, dseed, rows, cols):
    from medil.independence_testing import dcov

    return [np.asarray(v) for v in dcov(util.make_data(dseed, rows, cols, "mixed"))]


def xi(c, dseed, rows):
    from medil.independence_testing import xicorr

    x = util.make_data(dseed, rows, 2, "mixed")
    return list(xicorr(x[:, 0], x[:, 1])) + list(xicorr(x[:, 0], x[:, 1], ties=False))


def ncfa(c, cfg, path):
    from . import ncfa as N

    with util.quiet():
        m = N.make(cfg, path)
        N.fit(m, cfg)
    return N.state(m)


GEN = {"biadj": biadj, "biadj_er": biadj_er, "mcm": mcm, "mcm_given": mcm_given,
       "sample": draw_sample, "gaussian": gaussian, "dev_fit": dev_fit, "dev_sample": dev_sample}
PURE = {"cover": cover, "heuristic": heuristic, "measures": measures, "dependence": dependence,
        "distance_cov": distance_cov, "xi": xi}
ALL = {**GEN, **PURE, "ncfa": ncfa}
TOL = {"gaussian": 1e-5, "dev_fit": 1e-5, "ncfa": 1e-5}


def draw_step(ch, gen=True, pure=False, slow=True, pool=True, big=0.0):
    names = []
    if gen:
        names += [("mcm", 3), ("biadj", 3), ("sample", 5), ("mcm_given", 2), ("biadj_er", 1),
                  ("gaussian", 2)]
        if slow:
            names += [("dev_fit", 2), ("dev_sample", 3)]
    if pure:
        names += [("cover", 2), ("heuristic", 3), ("measures", 2), ("distance_cov", 1), ("xi", 1)]
        if pool:
            names += [("dependence", 3)]
        if not gen:
            names += [("gaussian", 2)]
    n = ch.weighted(names)
    if n == "biadj" or n == "mcm":
        k = ch.int(2, 7)
        return (n, k, ch.weighted([(0, 3), (1, 1), (min(k, 2), 1), (k, 1)]),
                ch.weighted([(0.2, 2), (0.7, 1), (1.0, 1), (0.0, 1), (None, 2)]))
    if n == "biadj_er":
        return (n, ch.int(2, 5), ch.pick([0.3, 0.6, 0.9]))
    if n == "mcm_given":
        return (n, ch.seed(), ch.int(2, 6))
    if n == "sample":
        if big and ch.bool(big):
            return (n, ch.draw(4), ch.pick([3000, 20_000, 130_000]))
        return (n, ch.draw(4), ch.weighted([(5, 2), (1, 1), (40, 1)]))
    if n == "gaussian":
        return (n, ch.seed(), ch.int(10, 60), ch.int(2, 4),
                ch.pick(["mixed", "shared", "indep"]), ch.weighted([(-1, 1), (ch.seed(), 1)]))
    if n == "dev_fit":
        return (n, ch.pick(["mle", "lse"]), ch.seed(), ch.int(2, 3), 0.1, 0.1, ch.bool(0.6),
                ch.draw(3), ch.weighted([(3, 5), (12, 3), (0, 1)]), not ch.bool(0.2))
    if n == "dev_sample":
        return (n, ch.draw(3), ch.pick(["mle", "lse"]), ch.pick([3, 1, 20]))
    if n in ("cover", "heuristic"):
        big = n == "heuristic" and ch.bool(0.5)
        if ch.bool(0.35):
            return (n, ch.seed(), ch.int(5, 9), ch.pick([2, 3]))
        return (n, ch.seed(), ch.int(5, 9) if big else ch.int(2, 6),
                ch.pick([0.3, 0.5, 0.8] + [-0.1] * big))
    if n == "measures":
        return (n, ch.seed(), ch.seed(), ch.int(2, 5))
    if n == "dependence":
        return (n, ch.seed(), ch.int(8, 30), ch.int(2, 5), ch.pick(["mixed", "shared"]),
                ch.pick(["xicor", "dcov_fast", "dcov_big"]), ch.pick([0.05, 0.3]))
    if n == "distance_cov":
        return (n, ch.seed(), ch.int(5, 20), ch.int(1, 4))
    return (n, ch.seed(), ch.int(5, 40))


def maker(ch, s):
    """A step that makes the object a sampling step needs."""
    if s[0] == "sample":
        return ("mcm", ch.int(2, 7), 0, 0.5)
    return ("dev_fit", s[2], ch.seed(), 2, 0.1, 0.1, True, 0, 3)


def step(c, s):
    """Result of one step: ("ok", value) or ("exc", type name)."""
    r = util.attempt(ALL[s[0]], c, *s[1:])
    if r[0] == "exc":
        return ("exc", type(r[1]).__name__)
    return ("ok", util.freeze(r[1]))


def run(prog, seed):
    """A program alone. seed None: default generators."""
    c = Ctx(None if seed is None else util.user_rng(seed))
    out = [step(c, s) for s in prog]
    st = None if seed is None else repr(c.gen.bit_generator.state)
    return out, st


def equal(s, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "exc":
        return a[1] == b[1]
    return util.same(a[1], b[1], TOL.get(s[0], 1e-9))


def differ(s, a, b):
    if a[0] != b[0] or a[0] == "exc":
        return f"{a[0]} {a[1] if a[0] == 'exc' else ''} and {b[0]} {b[1] if b[0] == 'exc' else ''}"
    return util.diff(a[1], b[1])
