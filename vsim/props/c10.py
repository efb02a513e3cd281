"""C10: an explicit random generator fully determines what is generated and sampled."""
import copy
import random

import numpy as np

from vsim import fsim, ops, proc, util
from vsim import world as W

QUICK, THOROUGH = 640, 25000
NONTRIVIAL = "other calls (default generators, other generators, global draws) came in between"
SITUATION = "(program on the generator, kinds of calls in between)"
REAL = ["medil.sample, medil.models", "NumPy generators", "SciPy optimisers"]
STUB = ["entropy of the operating system (different in every simulated process)"]
ASSUME = ["the order of a generator's stream is an implementation detail: runs of the same code are "
          "compared with each other, never with recorded values",
          "fits through an optimiser are compared to 1e-5"]
DEFAULT_PROBE = [("biadj", 5, 0, 0.5), ("mcm", 4, 0, 0.5), ("sample", 0, 3)]


def globals_state():
    import torch

    s = np.random.get_state()
    return (s[1].tobytes(), s[2], random.getstate(), torch.get_rng_state().numpy().tobytes())


def noise(ch, w, c_default, others):
    """A call that has nothing to do with the generator under test."""
    import torch

    k = ch.pick(["default", "other", "np", "py", "torch", "default", "other"])
    if k == "default":
        ops.step(c_default, ops.draw_step(ch, slow=ch.bool(0.2)))
    elif k == "other":
        ops.step(others[ch.draw(len(others))], ops.draw_step(ch, slow=ch.bool(0.2)))
    elif k == "np":
        np.random.seed(ch.seed()) if ch.bool() else np.random.random(1 + ch.draw(9))
    elif k == "py":
        random.seed(ch.seed()) if ch.bool() else random.random()
    else:
        torch.manual_seed(ch.seed()) if ch.bool() else torch.randn(3)
    return k


def random_step(s, r):
    """Whether the result of this step depends on chance."""
    if s[0] in ("biadj", "biadj_er", "mcm", "mcm_given"):
        return any(not ops.equal(s, ops.step(ops.Ctx(util.rng(k)), s), r) for k in range(6))
    return s[0] in ("sample", "dev_sample") and isinstance(r[1], np.ndarray) and r[1].size > 0


def sources(m, size, what):
    """Without error variances a sample shows the latent variables, without
    weights the errors: each has to come from the generator."""
    p = m.parameters
    for name in ("error_variances", "biadj_weights"):
        q = copy.deepcopy(m)
        setattr(q.parameters, name, np.zeros(np.shape(getattr(p, name))))
        rest = p.biadj_weights if name == "error_variances" else p.error_variances
        if not np.abs(rest).max(initial=0) > 1e-9:
            continue
        xs = []
        for seed in (5, 6, 5):
            u = copy.deepcopy(q)
            u.rng = util.rng(seed)
            xs.append(np.asarray(u.sample(size)))
        if not util.same(xs[0], xs[2], 1e-12):
            raise W.Violation("stream", f"{what}: with {name} zero, generators with the same seed "
                              f"give different rows")
        if util.same(xs[0], xs[1], 1e-12):
            raise W.Violation("not-drawn", f"{what}: with {name} zero, generators with different "
                              f"seeds give the same {size} rows")


def simulate(ch, w):
    prog = [ops.draw_step(ch, big=0.06) for _ in ch.many(1, 7, 0.85)]
    seed = ch.seed()
    ref, ref_state = proc.unwrap(proc.run_child(ops.run, prog, seed))
    # what the default generators give in a process that never did anything else
    dflt, _ = proc.unwrap(proc.run_child(ops.run, DEFAULT_PROBE, None))
    quiet_default = ch.bool(0.4)
    gen = util.user_rng(seed)
    if ch.bool(0.4):  # another generator in the same state: only the stream counts
        bits = type(gen.bit_generator)(ch.seed())
        bits.state = gen.bit_generator.state
        gen = np.random.Generator(bits)
    c = ops.Ctx(gen)
    h = util.user_rng(seed + 8 if ch.bool() else seed + 1)
    idle = util.user_rng(seed + 16)
    others = [ops.Ctx(h), ops.Ctx(util.rng(ch.seed()))]
    cd = ops.Ctx(None)
    between = []
    idle0 = repr(idle.bit_generator.state)
    for i, s in enumerate(prog):
        for _ in ch.many(0, 4, 0.6):
            if quiet_default:
                between.append("np")
                np.random.seed(ch.seed())
            else:
                between.append(noise(ch, w, cd, others))
        h0, g0 = repr(h.bit_generator.state), globals_state()
        own0 = repr(gen.bit_generator.state)
        r = ops.step(c, s)
        if r[0] == "ok" and repr(gen.bit_generator.state) == own0 and random_step(s, r):
            raise W.Violation("not-drawn", f"step {i} {s} of {prog}: random result, but nothing was "
                              "drawn from the given generator, so the next result is the same")
        if s[0] == "sample" and r[0] == "ok" and isinstance(r[1], np.ndarray) and r[1].size \
                and (s[2] > 100 or ch.bool(0.3)):
            sources(c.models[s[1] % len(c.models)], s[2], f"step {i} {s} of {prog}")
        if globals_state() != g0:
            raise W.Violation("global-draws", f"{s} with its own generator changed the state of a "
                              "global generator")
        if repr(h.bit_generator.state) != h0 or repr(idle.bit_generator.state) != idle0:
            raise W.Violation("other-generator", f"{s} changed another caller's generator")
        if not ops.equal(s, r, ref[i]):
            raise W.Violation("stream", f"step {i} {s} of {prog} after {between}: result differs from "
                              f"the same program alone: {ops.differ(s, r, ref[i])}")
        if r[0] == "ok" and s[0] in ("sample", "dev_sample") and isinstance(r[1], np.ndarray) \
                and r[1].size:
            again = ops.step(c, s) if i == len(prog) - 1 and ch.bool(0.7) else None
            if again is not None:
                if again[0] != "ok" or util.same(again[1], r[1], 1e-12):
                    raise W.Violation("repeated-draw", f"two successive {s} returned the same data")
                ref_state = None
    if ref_state is not None and repr(c.gen.bit_generator.state) != ref_state:
        raise W.Violation("stream", f"{prog}: the generator ends in another state than when the "
                          f"program runs alone, after {between}")
    if quiet_default:
        got = [ops.step(cd, s) for s in DEFAULT_PROBE]
        for s, a, b in zip(DEFAULT_PROBE, got, dflt):
            if not ops.equal(s, a, b):
                raise W.Violation("default-generator", f"{prog} with its own generator changed what "
                                  f"the default generator gives next: {s}: {ops.differ(s, a, b)}")
    w.say(f"{prog} seed {seed} between {between}")
    w.mark(prog, between)
    w.nontrivial = bool(between)
    for s in prog:
        w.hit("step:" + s[0])
