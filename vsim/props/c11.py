"""C11: random one-pure-child structures are valid for every random stream."""
import numpy as np

from vsim import msim, util
from vsim import world as W

QUICK, THOROUGH = 2400, 80000
NONTRIVIAL = "extreme draws fired, or extreme arguments, or several structures from one stream"
SITUATION = "(measurements, latents, density, mood of the generator)"
REAL = ["medil.sample"]
STUB = ["random generator (seeded; biased to legal but extreme draws in three of four moods)"]
ASSUME = ["density None is not covered by the edge count"]


def valid(b, n, latent, density, what):
    if not isinstance(b, np.ndarray) or b.dtype != bool or b.ndim != 2:
        raise W.Violation("type", f"{what}: {type(b).__name__} {getattr(b, 'dtype', '')}")
    if b.shape[1] != n:
        raise W.Violation("measurements", f"{what}: shape {b.shape}")
    if latent and b.shape[0] != latent:
        raise W.Violation("latents", f"{what}: {b.shape[0]} latents")
    if not latent and not 1 <= b.shape[0] <= n - 1:
        raise W.Violation("latents", f"{what}: {b.shape[0]} latents")
    k = b.shape[0]
    alone = b[:, b.sum(0) == 1]
    if not alone.any(1).all():
        raise W.Violation("pure-child", f"{what}: latent {int(np.argmin(alone.any(1)))} of {k} has no "
                          f"child of its own:\n{b.astype(int)}")
    if not b.any(0).all():
        raise W.Violation("orphan", f"{what}: measurement without a parent:\n{b.astype(int)}")
    if density is not None:
        exact = n + density * (n - k) * (k - 1)
        if abs(b.sum() - exact) > 0.5 + 1e-9:
            raise W.Violation("edges", f"{what}: {b.sum()} edges, {exact:g} expected")


def simulate(ch, w):
    from medil import sample

    mood = ch.weighted([(0, 2), (3, 2), (1, 1), (2, 1)])
    g = msim.AdvGenerator(ch.seed(), mood, ch.pick([0.5, 1.0, 0.15]))
    for i in ch.many(1, 12, 0.85):
        n = ch.weighted([(ch.int(2, 8), 5), (2, 1), (3, 1), (ch.int(9, 25), 2),
                         (ch.int(26, 150), 1)])
        latent = ch.weighted([(0, 4), (1, 1), (n, 1), (n - 1, 1), (ch.int(1, n), 3)])
        density = ch.weighted([(0.2, 3), (0.0, 1), (1.0, 1), (ch.unit(), 3), (None, 1)])
        before = repr(g.bit_generator.state)
        via = ch.weighted([("biadj", 4), ("mcm", 1)])
        if via == "mcm":
            b = sample.mcm(rng=g, num_meas=n, density=density, num_latent=latent).biadj
        else:
            b = sample.biadj(n, density=density, num_latent=latent, rng=g)
        what = f"{via}({n}, latents {latent}, density {density}, mood {mood})"
        w.mark(n, latent, density if density in (None, 0.0, 1.0, 0.2) else "x", mood, via)
        w.hit(f"mood{mood}")
        valid(np.asarray(b) if via == "mcm" else b, n, latent, density, what)
        if i or mood or density in (0.0, 1.0) or latent in (n, n - 1):
            w.nontrivial = True
        del before
    w.say(f"mood {mood}, {i + 1} structures, last {what}")
    if ch.bool(0.06):
        # unrequested number of latents: every legal number turns up
        n = ch.int(2, 5)
        seen = {len(sample.biadj(n, rng=util.rng(ch.seed()))) for _ in range(250)}
        if seen != set(range(1, n)):
            raise W.Violation("latents", f"over 250 streams, {n} measurements: latents {sorted(seen)}")
    if ch.bool(0.06):
        # every child column can take every parent, and every order of children occurs
        n, k = 5, 3
        tot = np.zeros((k, n))
        for _ in range(300):
            tot += sample.biadj(n, density=0.5, num_latent=k, rng=util.rng(ch.seed()))
        if (tot == 0).any() or (tot == 300).any():
            raise W.Violation("edges", f"over 300 streams some edge is never or always there: {tot}")
