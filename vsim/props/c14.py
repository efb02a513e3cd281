"""C14: concurrent callers do not interfere."""
from vsim import fsim, ops, proc, psim, tsim, util
from vsim import world as W

QUICK, THOROUGH = 420, 20000
NONTRIVIAL = "at least one preemption inside the package while another caller was in the middle of a call"
SITUATION = "(steps of every thread, positions of the first preemptions)"
REAL = ["medil.*, on real threads", "NumPy, SciPy, dcor", "worker processes (real fork)"]
STUB = ["thread scheduler (one baton, handed over at chosen source lines of medil)",
        "pool scheduling", "locks created by medil", "clock"]
ASSUME = ["preemption happens between source lines of medil; third-party calls run to completion",
          "at most one caller trains a VAE (its random stream is the process-wide one of torch)"]


def draw_programs(ch):
    n = ch.weighted([(2, 5), (3, 2), (4, 1)])
    twin = ch.bool(0.6)  # the same kind of call in every thread: shared caches and buffers
    base = []
    for _ in ch.many(1, 3, 0.6):
        s = ops.draw_step(ch, gen=True, pure=not ch.bool(0.35), slow=True) if ch.bool(0.5) else \
            ops.draw_step(ch, gen=False, pure=True)
        if s[0] in ("sample", "dev_sample"):
            base.append(ops.maker(ch, s))
        base.append(s)
    progs = []
    for t in range(n):
        if t == 0:
            prog = base
        elif twin:
            # same call, other data
            prog = [reseeded(s, ch) for s in base]
        else:
            prog = [ops.draw_step(ch, gen=True, pure=True) for _ in ch.many(1, 4, 0.7)]
        progs.append((prog, ch.seed()))
    return progs


SEEDED = {"mcm_given": 1, "gaussian": 1, "dev_fit": 2, "cover": 1, "heuristic": 1, "measures": 1,
          "dependence": 1, "distance_cov": 1, "xi": 1}


# position of a size, and its range
SIZED = {"dev_fit": (3, 2, 4), "cover": (2, 2, 6), "heuristic": (2, 2, 8), "measures": (3, 2, 5),
         "dependence": (3, 2, 5), "distance_cov": (3, 1, 4), "gaussian": (3, 2, 4),
         "mcm_given": (2, 2, 6), "biadj_er": (1, 2, 5)}


def reseeded(s, ch):
    s = list(s)
    if s[0] in SIZED and ch.bool(0.4):
        k, lo, hi = SIZED[s[0]]
        s[k] = ch.int(lo, hi)
    if s[0] in SEEDED:
        s[SEEDED[s[0]]] = ch.seed()
    return tuple(s)


def alone(prog, seed):
    with tsim.Recorder() as r:
        out, st = ops.run(prog, seed)
    return out, st, r.where


def threads(progs, plan, pool_seed, cpus):
    w = W.cur()
    w.clock = fsim.Clock()
    w.pools = psim.PoolSim(cpus, pool_seed, "fork", policy="random")
    sched = tsim.Sched(plan)
    with util.quiet():
        res = sched.run([lambda p=p: ops.run(*p) for p in progs])
    w.pools = None
    out = []
    for r in res:
        if r[0] == "exc":
            raise W.Violation("raised", f"{progs}: thread ended with {util.brief(r[1])}")
        out.append(r[1])
    return out, list(sched.switches)


def simulate(ch, w):
    progs = draw_programs(ch)
    ncfa_cfg = None
    if ch.bool(0.06):
        from vsim import ncfa

        ncfa_cfg = ncfa.draw_cfg(ch, 2, 1, small=True)
        t = ch.draw(len(progs))
        progs[t] = (progs[t][0][:1] + [("ncfa", ncfa_cfg, "vae")], progs[t][1])
    pool_seed, cpus = ch.seed(), ch.pick([4, 1, 2, 8])
    w.pools = psim.PoolSim(cpus, pool_seed)
    w.clock = fsim.Clock()
    with util.quiet():
        refs = [proc.unwrap(proc.run_child(alone, *p)) for p in progs]
    w.pools = None
    w.say(f"{len(progs)} threads {[[s[0] for s in p[0]] for p in progs]}")
    for _ in ch.many(1, 12, 0.85):
        if ch.bool(0.7):
            # few switches at chosen source lines: the others run to the end, or
            # up to a chosen line of theirs, in the middle of the first
            at = [1 + tsim.draw_point(ch, r[2]) for r in refs]
            plan = [(at[t], ch.draw(8)) for t in range(ch.weighted([(1, 4), (2, 2), (len(at), 1)]))]
        elif ch.bool(0.3):
            plan = tsim.draw_plan(ch)
        else:
            span = ch.weighted([(5, 3), (7, 2), (3, 3), (10, 1)])
            plan = [(ch.gap(span), ch.draw(8)) for _ in ch.many(1, 60, 0.93)]
        one(w, progs, refs, plan, pool_seed, cpus)


def one(w, progs, refs, plan, pool_seed, cpus):
    """One interleaving, in a process of its own."""
    got, switches = proc.unwrap(proc.run_child(threads, progs, plan, pool_seed, cpus))
    for t, (g, r) in enumerate(zip(got, refs)):
        prog = progs[t][0]
        for i, s in enumerate(prog):
            if not ops.equal(s, g[0][i], r[0][i]):
                raise W.Violation("interference", f"thread {t} of {[p[0] for p in progs]}: {s} differs "
                                  f"from the thread alone: {ops.differ(s, g[0][i], r[0][i])}")
        if g[1] != r[1]:
            raise W.Violation("stream", f"thread {t} of {[p[0] for p in progs]}: its generator ends "
                              "in another state than alone")
    w.ev("switches", switches)
    w.hit("interleavings")
    w.mark([[s[0] for s in p[0]] for p in progs], switches[:4])
    w.nontrivial |= len(switches) > 0
    for p in progs:
        for s in p[0]:
            w.hit("step:" + s[0])
