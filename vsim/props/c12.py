"""C12: random model parameters respect structure and ranges for every random stream."""
import numpy as np

from vsim import msim, util
from vsim import world as W

QUICK, THOROUGH = 4000, 160000
NONTRIVIAL = "extreme draws fired, or a structure was passed in, or several models from one stream"
SITUATION = "(structure shape, number of edges, passed in or generated, mood of the generator)"
REAL = ["medil.sample"]
STUB = ["random generator (seeded; biased to legal but extreme draws in three of four moods)"]
ASSUME = ["independence of signs and magnitudes is tested at 6.5 standard errors"]


def valid(m, b, what, mood):
    p = m.parameters
    if not util.same(np.asarray(m.biadj), b):
        raise W.Violation("structure", f"{what}: the model's structure is not the one asked for")
    k, n = b.shape
    wts, v, mu = (np.asarray(a, float) for a in (p.biadj_weights, p.error_variances, p.error_means))
    if wts.shape != (k, n) or v.shape != (n,) or mu.shape != (n,):
        raise W.Violation("shape", f"{what}: {wts.shape} {v.shape} {mu.shape} for {b.shape}")
    if ((wts != 0) != b.astype(bool)).any():
        raise W.Violation("edges", f"{what}: weights\n{wts}\non structure\n{b.astype(int)}")
    a = np.abs(wts[b.astype(bool)])
    if (a < 0.5).any() or (a >= 2).any():
        raise W.Violation("weights", f"{what}: weight magnitudes {a}")
    if (v < 0.5).any() or (v >= 2).any():
        raise W.Violation("variances", f"{what}: {v}")
    if mood == 0:  # draws of a continuous distribution do not repeat
        for name, x in (("weights", a), ("variances", v), ("means", np.abs(mu))):
            if len(x) - len(np.unique(x)) > 2:
                raise W.Violation("repeated", f"{what}: {len(np.unique(x))} values for {len(x)} "
                                  f"{name}")
    if (np.abs(mu) >= 2).any() or not np.isfinite(mu).all():
        raise W.Violation("means", f"{what}: {mu}")


def indep(sign, mag, what):
    """Signs are fair, both occur, and do not go with the magnitude."""
    n = len(sign)
    s = np.sign(sign)
    if abs(s.sum()) > 6.5 * np.sqrt(n):
        raise W.Violation("signs", f"{what}: {int((s > 0).sum())} of {n} are positive")
    c = ((s - s.mean()) * (mag - mag.mean())).sum() / (s.std() * mag.std() * n)
    if abs(c) > 6.5 / np.sqrt(n):
        raise W.Violation("signs", f"{what}: correlation {c:.3f} of sign and magnitude over {n}")


def simulate(ch, w):
    from medil import sample

    mood = ch.weighted([(0, 2), (3, 2), (1, 1), (2, 1)])
    g = msim.AdvGenerator(ch.seed(), mood, ch.pick([0.5, 1.0, 0.15]))
    for i in ch.many(1, 6, 0.75):
        given = ch.bool(0.6)
        if given:
            kind = ch.weighted([("1pc", 3), ("random", 3), ("full", 1), ("single", 1)])
            n = ch.weighted([(ch.int(1 if kind != "1pc" else 2, 8), 8), (ch.int(9, 90), 1)])
            k = ch.weighted([(ch.int(1, 5), 8), (ch.int(6, 20), 1)])
            b = {"1pc": lambda: sample.biadj(n, rng=util.rng(ch.seed())),
                 "random": lambda: util.rng(ch.seed()).random((k, n)) < 0.5,
                 "full": lambda: np.ones((k, n), bool),
                 "single": lambda: np.ones((1, 1), bool)}[kind]()
            if ch.bool(0.2):
                b = np.asfortranarray(b)
            b = b.astype(ch.weighted([(bool, 6), (int, 2), (float, 1)]))
            if b.dtype != bool and ch.bool(0.4):  # edges are the entries other than zero
                b *= util.rng(ch.seed()).choice([1, 2, 5, -1], size=b.shape).astype(b.dtype)
            gd = util.Guarded(structure=b)
            m = sample.mcm(rng=g, biadj=b) if ch.bool() else \
                sample.mcm(rng=g, parameterization="Gaussian", biadj=b)
            gd.check("by sample.mcm")
            want, what = b, f"mcm(given {kind} {b.shape}, mood {mood})"
        else:
            n = ch.weighted([(ch.int(2, 8), 8), (ch.int(9, 60), 1)])
            kw = {"num_meas": n, "density": ch.pick([0.2, 0.0, 1.0, 0.5, None]),
                  "num_latent": ch.weighted([(0, 2), (n, 1), (1, 1)])}
            m = sample.mcm(rng=g, **kw)
            want, what = np.array(m.biadj), f"mcm({kw}, mood {mood})"
        valid(m, want, what, mood)
        w.mark(want.shape, int(want.sum()), want.dtype.kind, given, mood)
        w.hit(f"mood{mood}")
        if i or mood or given:
            w.nontrivial = True
    w.say(f"mood {mood}: {what}")
    if ch.bool(0.05):
        b = np.ones((ch.int(1, 6), 400), bool)
        m = sample.mcm(rng=util.rng(ch.seed()), biadj=b)
        wt, mu = m.parameters.biadj_weights.ravel(), m.parameters.error_means
        indep(wt, np.abs(wt), "weights")
        indep(mu, np.abs(mu), "means")
        w.hit("independence_tests")
        # magnitudes fill their range
        for name, a, lo, hi in (("weights", np.abs(wt), 0.5, 2), ("means", np.abs(mu), 0, 2),
                                ("variances", m.parameters.error_variances, 0.5, 2)):
            u = (a - lo) / (hi - lo)
            if u.min() > 0.1 or u.max() < 0.9:
                raise W.Violation("ranges", f"{name} of 400 measurements lie in "
                                  f"[{a.min():.2f}, {a.max():.2f}]")
