"""C03: when training returns, the saved artifacts are complete and are the model."""
import os

from vsim import ncfa, proc
from vsim import world as W

QUICK, THOROUGH = 420, 15000
NONTRIVIAL = ("an artifact was overwritten, or an object was fitted again, or a benign I/O fault or "
              "clock jump happened, or several directories were in use")
SITUATION = "(settings, form of the path, leftover or overwritten artifacts, faults that fired)"
REAL = ["medil.models, medil.vae", "torch, scikit-learn, pickle", "process death (forked process "
        "ended with _exit right after fit returned)", "files in a scratch directory"]
STUB = ["disk operations (counted, split, delayed; torch.save's C++ writer is replaced by the same "
        "bytes written through the simulated disk)", "clock"]
ASSUME = ["durability means surviving the death of the process, not of the machine: data handed to "
          "the operating system is kept"]


def simulate(ch, w):
    used = {}
    last = {}
    for p in ch.many(1, 2, 0.4):
        fits = []
        for i in ch.many(1, 3, 0.35):
            name = ch.weighted([("out", 3), ("out2", 1), ("out er", 1), (".", 1), ("out ", 1),
                                ("link/../out", 1)])
            if "/" in name and not os.path.exists("link"):
                os.makedirs("nested/deep")
                os.symlink("nested/deep", "link")
            arg, d, form = ncfa.draw_path(ch, name)
            if d not in used and ch.bool(0.25):
                ncfa.leftovers(ch, d, w)
                w.nontrivial = True
            new = not (fits and ch.bool(0.5))
            if not new:
                arg, d, form = fits[-1].arg, fits[-1].dir, fits[-1].form
            cfg = ncfa.draw_cfg(ch, long=0.05)
            if not new and ch.bool(0.4):
                cfg = fits[-1].cfg.with_(epochs=ch.int(0, 4), seed=ch.pick([0, 1, 3]))
            if d in used or not new:
                w.nontrivial = True
            used[d] = used.get(d, 0) + 1
            fits.append(ncfa.Fit(cfg, arg, d, new, ch.bool(0.2), form))
            if ch.bool(0.12):
                fits[-1].spoil = ch.pick(ncfa.SPOILT)
        faults = ncfa.draw_benign(ch, 160)
        plan = ncfa.draw_clock(ch)
        w.say(f"process {p}: {fits} benign {faults} clock {plan}")
        o = proc.run_child(ncfa.process, fits, w.root, faults, plan)
        reps = proc.unwrap(o)
        if reps[-1]["fired"] or plan or len(used) > 1:
            w.nontrivial = True
        for f, r in zip(fits, reps):
            last[f.dir] = (f, r)
            w.mark(f.cfg.epochs, f.cfg.batch, f.cfg.explicit, f.cfg.hidden, f.cfg.width, f.form,
                   used[f.dir], f.new, r["fired"])
        # the process is gone; look at what it left
        for d, (f, r) in last.items():
            ncfa.check_complete(f.cfg, d, r, f"{f}")
        extra = {"escapes": [e for r in reps for e in r["escapes"]]}
        if extra["escapes"]:
            raise W.Violation("escape", f"writes outside: {extra['escapes'][:3]}")
    os.chdir(w.root)
