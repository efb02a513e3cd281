"""C19: the same program gives the same results in every fresh process."""
import os

from vsim import ops, proc, util, zygote
from vsim import world as W

QUICK, THOROUGH = 450, 20000
NONTRIVIAL = "the program ran in at least two interpreters with different hash seeds"
SITUATION = "(steps, kind of generator, surroundings)"
REAL = ["medil.*", "interpreters started with different hash seeds; every program runs in a fresh "
        "fork of one of them", "NumPy, SciPy, dcor, torch"]
STUB = ["clock, reported CPUs, pool scheduling, entropy of the operating system"]
ASSUME = ["fits through an optimiser are compared to 1e-5, everything else to 1e-9",
          "hash seeds tried: 0, " + ", ".join(zygote.HASH_SEEDS)]
FARM = None


def setup(scratch):
    global FARM
    FARM = zygote.Farm(scratch)


def teardown():
    if FARM is not None:
        FARM.stop()


def surroundings(ch, root, i, varied=True):
    if not varied:
        return {"cwd": os.path.join(root, "base"), "tz": "UTC", "clock": 1.7e9, "entropy": 1,
                "cpus": 4, "pool_seed": 1, "mode": "inline", "policy": "fifo"}
    return {"cwd": os.path.join(root, f"p{i}", ch.pick(["", "a b", "deep/er/dir", "\u00e9"])),
            "tz": ch.pick(["UTC", "Asia/Tokyo", "America/New_York", "XYZ-14"]),
            "clock": ch.pick([1.7e9, 0.0, 951782400.0, 4e9]) + ch.draw(10 ** 6),
            "entropy": ch.seed(), "cpus": ch.pick([4, 1, 2, 3, 64]), "pool_seed": ch.seed(),
            "mode": ch.weighted([("inline", 3), ("fork", 1)]),
            "stalls": [(ch.draw(12), float(ch.gap(20))) for _ in ch.many(0, 3, 0.5)],
            "step": ch.weighted([(0.013, 3), (0.0, 1), (7.0, 1), (900.0, 1), (1e6, 1)]),
            "policy": ch.pick(["random", "fifo", "lifo", "starve"])}


def draw_program(ch):
    prog = [ops.draw_step(ch, gen=True, pure=True) for _ in ch.many(1, 6, 0.85)]
    if ch.bool(0.1):
        from vsim import ncfa

        prog.insert(ch.draw(len(prog) + 1), ("ncfa", ncfa.draw_cfg(ch, 2, 1, small=True), "vae/"))
    return prog


def simulate(ch, w):
    prog = draw_program(ch)
    seed = ch.weighted([(None, 3), (ch.seed(), 2)])
    base = {"prog": prog, "seed": seed, **surroundings(ch, w.root, 0, False)}
    ref = proc.unwrap(proc.run_child(zygote.execute, base))
    envs = []
    for i in ch.many(1, 4, 0.6):
        z = ch.draw(len(zygote.HASH_SEEDS) + 1)
        env = surroundings(ch, w.root, i)
        req = {"prog": prog, "seed": seed, **env}
        if z == 0:
            got = proc.unwrap(proc.run_child(zygote.execute, req))
        else:
            kind, got = FARM.ask(z - 1, req)
            if kind != "ok":
                raise W.HarnessError(got)
            w.nontrivial = True
        h = (["0"] + zygote.HASH_SEEDS)[z]
        what = (f"{prog} with {'default generators' if seed is None else f'generator {seed}'}, "
                f"hash seed {h}, {env['tz']}, clock {env['clock']:.0f}, {env['cpus']} CPUs")
        for s, a, b in zip(prog, got[0], ref[0]):
            if not ops.equal(s, a, b):
                raise W.Violation("differs", f"{what}: {s} differs from the same program in another "
                                  f"process: {ops.differ(s, a, b)}")
        if got[1] != ref[1]:
            raise W.Violation("stream", f"{what}: the generator ends in another state")
        envs.append((h, env["tz"], env["cpus"], env["policy"]))
        w.hit(f"hash_seed:{h}")
    w.say(f"{[s[0] for s in prog]} {'default' if seed is None else 'given'} {envs}")
    w.mark([s[0] for s in prog], seed is None, envs)
    for s in prog:
        w.hit("step:" + s[0])
