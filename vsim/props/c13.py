"""C13: datasets sampled from a Gaussian model follow that model, for every stream."""
import copy
import math
import pickle

import numpy as np

from vsim import tsim, util
from vsim import world as W

QUICK, THOROUGH = 1500, 60000
NONTRIVIAL = "a sample was judged after other samples, parameter changes, fits or interrupts"
SITUATION = "(structure shape, number of edges, bit generator, operations before the judged sample)"
REAL = ["medil.models, medil.sample", "NumPy generators", "SciPy optimiser"]
STUB = ["none: the simulator owns the operation sequence, the streams and the interrupts"]
ASSUME = ["error variances are positive (a fit can return negative ones; such models are not sampled)",
          "moments are tested on 4000 (rarely 200000) rows: means at 6.5, covariances at 7.5, serial "
          "and cross correlations at every lag and tail frequencies at 8, kurtosis at 10 standard errors"]
ROWS = 4000
TAILS = [(t, math.erfc(t / math.sqrt(2))) for t in (0.5, 1.0, 2.0, 2.5, 3.0, 3.5)]


def model_state(m):
    p = m.parameters
    return {"biadj": np.array(m.biadj), "weights": np.array(p.biadj_weights),
            "means": np.array(p.error_means), "variances": np.array(p.error_variances)}


def draw_model(ch, w, g):
    from medil import sample
    from medil.models import GaussianMCM

    kind = ch.weighted([("mcm", 4), ("structure", 3), ("hand", 3), ("fit", 2)])
    if kind == "mcm":
        n = ch.int(2, 7)
        return sample.mcm(rng=g, num_meas=n, density=ch.pick([0.2, 0.0, 1.0, 0.6]),
                          num_latent=ch.weighted([(0, 2), (n, 1), (1, 1)])), kind
    if kind == "fit":
        cols = ch.int(2, 4)
        m = GaussianMCM(rng=g).fit(util.make_data(ch.seed(), 80, cols, ch.pick(["mixed", "indep"])))
        if (m.parameters.error_variances > 1e-9).all():
            return m, kind
        w.hit("negative_variance_fits")
    k, n = ch.weighted([((ch.int(1, 5), ch.int(1, 6)), 9), ((ch.int(6, 14), ch.int(3, 16)), 1)])
    b = util.rng(ch.seed()).random((k, n)) < ch.pick([0.5, 1.0, 0.2])
    if kind == "structure" and b.any():
        return sample.mcm(rng=g, biadj=b), kind
    m = GaussianMCM(biadj=b, rng=g)
    change(ch, m, "all", replace=True)
    return m, "hand"


def change(ch, m, which, replace):
    """New values for parameters, in place or as new arrays."""
    b = np.asarray(m.biadj)
    r = util.rng(ch.seed())
    scale = ch.weighted([(1.0, 3), (0.01, 1), (30.0, 1)])
    whole = ch.bool(0.12)  # parameters given as integers

    def put(p, name, v, replace):
        if whole:
            v = np.ceil(v).astype(int)
        old = getattr(p, name)
        if replace or np.shape(old) != v.shape:
            setattr(p, name, v)
        else:
            old[...] = v if old.dtype.kind == "f" else np.ceil(v)

    p = m.parameters
    if which in ("means", "all"):
        v = r.standard_normal(b.shape[1]) * 3 * scale
        put(p, "error_means", v, replace)
    if which in ("variances", "all"):
        put(p, "error_variances", (0.1 + r.random(b.shape[1]) * 4) * scale, replace)
    if which in ("weights", "all"):
        v = np.zeros(b.shape)
        v[b] = r.standard_normal(int(b.sum())) * 2 * scale
        put(p, "biadj_weights", v, replace)


def strongest(a, b, first=0):
    """Largest correlation of a with b shifted by any lag: (standard errors, lag)."""
    n = len(a)
    size = 1 << (2 * n - 1).bit_length()
    c = np.fft.irfft(np.fft.rfft(b, size) * np.conj(np.fft.rfft(a, size)), size)
    lags = np.arange(first, n - 200)
    fwd = np.abs(c[lags]) / np.sqrt(n - lags)
    k = int(np.argmax(fwd))
    best = (float(fwd[k]), int(lags[k]))
    if a is not b:
        neg = np.abs(c[-lags[1:]]) / np.sqrt(n - lags[1:])
        k = int(np.argmax(neg))
        best = max(best, (float(neg[k]), -int(lags[1:][k])))
    return best


def judge(x, st, what):
    """Moments of a large sample against the parameters at the time of the call."""
    n = len(x)
    mu, wts = st["means"], st["weights"]
    cov = wts.T @ wts + np.diag(st["variances"])
    sd = np.sqrt(np.diag(cov))
    z = (x.mean(0) - mu) / sd * np.sqrt(n)
    if not (np.abs(z) < 6.5).all():
        raise W.Violation("mean", f"{what}: column means {x.mean(0)} for error means {mu} "
                          f"({np.abs(z).max():.1f} standard errors)")
    c = np.cov(x, rowvar=False).reshape(cov.shape)
    se = np.sqrt((np.outer(sd, sd) ** 2 + cov ** 2) / n)
    d = np.abs(c - cov) / se
    if not (d < 7.5).all():
        i, j = np.unravel_index(np.nanargmax(d), d.shape)
        raise W.Violation("covariance", f"{what}: covariance of columns ({i}, {j}) is {c[i, j]:.4g}, "
                          f"the model's is {cov[i, j]:.4g} ({d[i, j]:.1f} standard errors)")
    y = (x - mu) / sd
    for j in range(y.shape[1]):
        a, lag = strongest(y[:, j], y[:, j], first=1)
        if not a < 8:
            raise W.Violation("rows-dependent", f"{what}: rows {lag} apart are correlated "
                              f"({a:.1f} standard errors)")
    k = np.abs((y ** 4).mean(0) - 3) / np.sqrt(96 / n)
    if not (k < 10).all():
        raise W.Violation("not-normal", f"{what}: fourth moments {(y ** 4).mean(0)} of standardised "
                          "columns, 3 expected")
    # the latent variables show through: combinations of columns that isolate them
    z = np.hstack([y, combined(x - mu, wts, cov)])
    for t, p in TAILS:
        if n * p < 20:
            continue
        d = ((np.abs(z) > t).sum(0) - n * p) / np.sqrt(n * p)
        if not (np.abs(d) < 8).all():
            raise W.Violation("not-normal", f"{what}: {(np.abs(z) > t).sum(0)} of {n} rows are beyond "
                              f"{t} standard deviations, {n * p:.0f} expected")
    return y


def combined(x, wts, cov):
    """Standardised linear combinations of the columns, one for each latent variable."""
    out = []
    for v in np.linalg.lstsq(wts.T, np.eye(wts.shape[1]), rcond=1e-6)[0] if wts.size else ():
        s = v @ cov @ v
        if s > 1e-12 and np.isfinite(s):
            out.append(x @ v / np.sqrt(s))
    return np.array(out).T.reshape(len(x), len(out))


def simulate(ch, w):
    g = np.random.Generator({"PCG64": np.random.PCG64, "MT19937": np.random.MT19937,
                             "Philox": np.random.Philox, "SFC64": np.random.SFC64}
                            [bg := ch.weighted([("PCG64", 3), ("MT19937", 1), ("Philox", 1),
                                                ("SFC64", 1)])](ch.seed()))
    models = []
    log, last, copies = [], None, set()
    for i in ch.many(2, 9, 0.85):
        op = "new" if not models else ch.weighted(
            [("judge", 6), ("small", 4), ("change", 3), ("new", 1), ("interrupt", 2), ("junk", 1),
             ("copy", 1)])
        if op == "new":
            gen = g if ch.bool(0.7) else util.rng(ch.seed() + (1 << 20))
            m, kind = draw_model(ch, w, gen)
            models.append(m)
            log.append("new " + kind)
            continue
        j = ch.draw(len(models))
        m = models[j]
        st = model_state(m)
        b = st["biadj"]
        others = [model_state(o) for o in models]
        what = f"model {j} {b.shape} ({bg}) after {log[-8:]}"
        if op == "copy":  # or saved and loaded
            c = copy.deepcopy(m) if ch.bool() else pickle.loads(pickle.dumps(m))
            if not util.same(model_state(c), st):
                raise W.Violation("model-changed", f"{what}: its copy has other parameters: "
                                  f"{util.diff(model_state(c), st)}")
            copies.add(len(models))
            models.append(c)
            log.append(f"copy of {j}")
            continue
        if op == "change":
            part, rep = ch.pick(["means", "variances", "weights", "all", "structure"]), ch.bool()
            if part == "structure":  # another one, with parameters to match
                m.biadj = util.rng(ch.seed()).random((ch.int(1, 6), ch.int(1, 6))) < ch.pick([0.6, 1.0])
                part, rep = "all", True
                log.append(f"structure of {j} is {m.biadj.shape}")
                last = None
            change(ch, m, part, rep)
            log.append(f"{'replace' if rep else 'edit'} {part} of {j}")
            continue
        if op == "interrupt":
            it = tsim.Interrupt(ch.draw(12), lambda: KeyboardInterrupt("simulated"))
            with it:
                util.attempt(m.sample, 3)
            log.append(f"interrupted sample of {j}" if it.fired else f"sample of {j}")
        elif op in ("small", "junk"):
            size = ch.weighted([(1, 2), (0, 2), (2, 1), (7, 1)])
            x = m.sample(size)
            if not isinstance(x, np.ndarray) or x.shape != (size, b.shape[1]):
                raise W.Violation("shape", f"{what}: {np.shape(x)} for {size} rows and {b.shape[1]} "
                                  "measurements")
            if op == "junk":
                x[...] = 1e9
            log.append(f"sample({size}) of {j}")
        else:
            rows = ch.weighted([(ROWS, 54), (200_000, 1), (ch.int(4001, 30_000), 6)])
            size = rows if rows > ROWS else ch.weighted(
                [(rows, 8), (1, 1), (2, 1), (3, 1), (5, 1), (20, 1), (99, 1), (400, 1), (1000, 1)])
            # one call, or many small ones put together
            x = np.vstack([m.sample(min(size, rows - k)) for k in range(0, rows, size)])
            if np.shape(x) != (rows, b.shape[1]):
                raise W.Violation("shape", f"{what}: {np.shape(x)} for {rows} rows and {b.shape[1]} "
                                  "measurements")
            what += f", {rows // size} calls of {size} rows"
            y = judge(x, st, what)
            if last is not None and j not in copies:  # a copy repeats the sequence
                k = min(len(y), len(last))
                a = max(strongest(y[:k, i], last[:k, j]) for i in range(y.shape[1])
                        for j in range(last.shape[1]))
                if not a[0] < 8:
                    raise W.Violation("samples-dependent", f"{what}: correlated with the sample "
                                      f"before ({a[0]:.1f} standard errors at lag {a[1]})")
            last = y if m.rng is g else last
            if len(log) > 1:
                w.nontrivial = True
            w.mark(b.shape, int(b.sum()), bg, log[-4:])
            w.hit("samples_judged")
            if size < rows:
                w.hit("samples_pooled_from_small_calls")
            log.append(f"sample({size}){' pooled' * (size < rows)} of {j}")
            x[...] = np.nan
        for a, s in zip(models, others):
            now = model_state(a)
            if not util.same(now, s):
                raise W.Violation("model-changed", f"{what}: {op} changed the model: "
                                  f"{util.diff(now, s)}")
    w.say(f"{bg}: {log}")
