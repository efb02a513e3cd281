"""C05: a crash during training never leaves a wrong artifact, never blocks restart."""
import os
import shutil

from vsim import fsim, ncfa, proc, util
from vsim import world as W

QUICK, THOROUGH = 380, 15000
NONTRIVIAL = "the process was killed during construction or fit at least once"
SITUATION = "(operation, file, occurrence, before/torn/after, prior artifacts, number of crashes)"
REAL = ["medil.models, medil.vae", "torch, scikit-learn, pickle", "process death (_exit in a forked "
        "process at the chosen operation; buffered data is lost) and restart in a new process",
        "files in a scratch directory"]
STUB = ["disk operations (counted, torn, cut; torch.save's C++ writer is replaced by the same "
        "bytes written through the simulated disk in several writes)", "clock"]
ASSUME = ["crash of the process, not of the machine: bytes handed to the operating system survive"]


def known_runs(refs):
    """Every artifact a completed run may have left, by name."""
    out = {n: [] for n in ncfa.ARTIFACTS}
    for r in refs:
        st = r["state"]
        out["model_recon.pt"].append((st["vae"], r["cfg"]))
        for n, q in (("loss_recon.pkl", "elbo"), ("error_recon.pkl", "recon")):
            out[n].append(([st["loss"][q + "_train"], st["loss"][q + "_valid"]], r["cfg"]))
    return out


def simulate(ch, w):
    arg, d, form = ncfa.draw_path(ch, "out")
    prior = None
    if ch.bool(0.5):
        prior = ncfa.Fit(ncfa.draw_cfg(ch, 3, small=True), arg, d, True, False, form)
    if prior and ch.bool(0.5):
        cfg = prior.cfg.with_(seed=ch.pick([0, 5]))
        if ch.bool():
            cfg = cfg.with_(epochs=ch.int(0, 3))
    else:
        cfg = ncfa.draw_cfg(ch, 3, small=ch.bool(0.5), long=0.1)
    target = ncfa.Fit(cfg, arg, d, True, False, form)
    refs = []
    rd = os.path.join(w.root, "ref")
    if prior:
        o = proc.unwrap(proc.run_child(ncfa.process, [prior], w.root))[0]
        o["cfg"] = prior.cfg
        refs.append(o)
        shutil.copytree(d, rd)
    # the same run without a crash, in another directory that looks alike
    ref = proc.unwrap(proc.run_child(ncfa.process, [ncfa.Fit(cfg, rd + os.sep, rd)], w.root))[0]
    ref["cfg"] = cfg
    refs.append(ref)
    stages = ["prior"] if prior else []
    crashes = []
    for _ in ch.many(1, 3, 0.3):
        name = ch.pick(ncfa.ARTIFACTS)
        writes = [i for i, (k, p) in enumerate(ref["trace"])
                  if k == "write" and os.path.basename(p) == name]
        if writes and ch.bool(0.5 if prior else 0.2):  # in the middle of an artifact
            at = writes[ch.draw(len(writes))]
            crashes.append((fsim.Fault(at, "crash", "mid", frac=ch.unit()), "write", name))
        else:
            crashes.append(ncfa.draw_crash(ch, ref["trace"]))
    w.say(f"prior {prior} target {target} crashes {crashes}")
    n_crashed = 0
    for k, (f, kind, name) in enumerate(crashes):
        log0 = ncfa.log_bytes(d)
        o = proc.run_child(ncfa.process, [target], w.root, [f])
        if o.kind != "crash":
            proc.unwrap(o)
        else:
            n_crashed += 1
            w.nontrivial = True
        what = f"{target}, crash {k} at {kind} {name} ({f})"
        if o.kind == "ok":  # the fault point was not reached
            stages.append("completed")
        art = proc.unwrap(proc.run_child(load_raw, d))
        known = known_runs(refs)
        for n in ncfa.ARTIFACTS:
            if art[n][0] != "ok":
                w.hit("after crash: " + n + " " + art[n][0])
                continue
            w.hit("after crash: " + n + " loads")
            if n in ("loss_recon.pkl", "error_recon.pkl") or True:
                ok = [c for v, c in known[n] if util.same(v, art[n][1], 1e-5)]
                if not ok:
                    raise W.Violation("wrong-artifact", f"{what}: {n} loads but is of no completed "
                                      f"run: {str(art[n][1])[:120]}")
        log1 = ncfa.log_bytes(d)
        if log1[:len(log0)] != log0:
            raise W.Violation("log-lost", f"{what}: earlier log entries were lost or changed")
        new = log1[len(log0):]
        lines = new.split(b"\n")
        want = ncfa.expected(cfg.epochs, ref["state"]["loss"])
        full = lines[:-1]
        for i, s in enumerate(full):
            if i >= len(want) or not ncfa.fits_line(ncfa.parse_line(s.decode()), want[i]):
                raise W.Violation("log-order", f"{what}: log entry {i} is {s!r}")
        w.mark(kind, name, f.at, f.when, bool(prior), k)
    # restart in a new process: nothing may stand in the way
    log0 = ncfa.log_bytes(d)
    r = proc.unwrap(proc.run_child(ncfa.process, [target], w.root))[0]
    what = f"{target} restarted after {n_crashed} crashes {[c[:3] for c in crashes]}"
    ncfa.check_complete(cfg, d, r, what)
    ncfa.same_result(r, ref, what, "restart-differs")
    if r["log_after"][:len(log0)] != log0:
        raise W.Violation("log-lost", f"{what}: earlier log entries were lost or changed")
    ncfa.check_log_tail(r["log_after"][len(log0):], cfg.epochs, r["state"]["loss"], what)


def load_raw(d):
    out = {}
    for n in ncfa.ARTIFACTS:
        r = ncfa.load(d, n)
        if r[0] == "ok":
            try:
                if n.endswith(".pt"):
                    r = ("ok", {k: v.detach().numpy().copy() for k, v in r[1].state_dict().items()})
                else:
                    r = ("ok", [a.copy() for a in r[1]])
            except Exception as e:
                r = ("ok", f"something else: {util.brief(e)}")
        out[n] = r
    return out
