"""C04: a disk error is never swallowed and never publishes a half-saved result."""
from vsim import fsim, ncfa, proc, util
from vsim import world as W

QUICK, THOROUGH = 420, 15000
NONTRIVIAL = "a disk error fired during construction or fit"
SITUATION = "(operation, file, occurrence, errno, before/torn, persistence, prior history, outcome)"
REAL = ["medil.models, medil.vae", "torch, scikit-learn, pickle", "files in a scratch directory"]
STUB = ["disk operations (counted, failing, torn, split, delayed; torch.save's C++ writer is "
        "replaced by the same bytes written through the simulated disk)", "clock"]
ASSUME = ["a failing close loses the tail of the file (write-back error)",
          "errors of standard output are not disk errors"]


def faulty(prior, target, rounds, root):
    w = W.cur()
    w.clock = fsim.Clock(ncfa.START)
    w.fs = fs = fsim.FS(root)
    m = None
    for f in prior:
        if f.new or m is None:
            m = ncfa.make(f.cfg, f.arg, f.verbose)
        else:
            ncfa.apply(m, f.cfg)
        with util.quiet():
            ncfa.fit(m, f.cfg)
    if target.new:
        m = None
    elif m is not None:
        ncfa.apply(m, target.cfg)
    out = []
    probe = ncfa.probe_for(target.cfg)
    for faults in list(rounds) + [()]:
        before = ncfa.log_bytes(target.dir)
        fs.arm(faults)
        s0 = None if m is None else ncfa.state(m)
        if isinstance(faults, str):  # the fit fails on a healthy disk
            fs.arm()
            if m is None:
                m = ncfa.make(target.cfg, target.arg, target.verbose)
                s0 = ncfa.state(m)
            r = ncfa.spoilt_fit(m, target.cfg, faults)
            if r[0] == "exc":
                W.cur().hit("fault:" + faults)
                s1 = ncfa.state(m)
                if not util.same(s0, s1):
                    raise W.Violation("published-on-failure", f"{target}: {util.brief(r[1])} because "
                                      f"of {faults}, but the model changed: {util.diff(s0, s1)}")
            now = ncfa.log_bytes(target.dir)
            if now[:len(before)] != before:
                raise W.Violation("log-rewritten", f"{target}, {faults}: earlier log content changed")
            continue
        stage = "construct"
        try:
            if m is None:
                m = ncfa.make(target.cfg, target.arg, target.verbose)
                s0 = ncfa.state(m)
            stage = "fit"
            with util.quiet():
                ncfa.fit(m, target.cfg)
            r = "ok"
        except (W.Violation, W.HarnessError, W.SimDeadlock):
            raise
        except BaseException as e:
            r = util.brief(e)
        fired = list(fs.fired)
        fs.arm()
        rec = {"result": r, "stage": stage, "fired": fired, "log_before": before,
               "log_after": ncfa.log_bytes(target.dir)}
        if r != "ok" and m is not None:
            s1 = ncfa.state(m)
            if not util.same(s0, s1):
                raise W.Violation("published-on-failure", f"{target}: {r} after {fired}, but the "
                                  f"model changed: {util.diff(s0, s1)}")
        if r == "ok":
            rec.update(ncfa.report(m, target.cfg, probe))
            if fired:
                # complete although something failed? judged from the disk, in
                # this process, before the retry overwrites it
                art = ncfa.load_all(target.dir, probe)
                rec["art_now"] = {k: v[0] for k, v in art.items()}
                W.cur().hit("returned_despite_error")
                fs_ok = fs
                w.fs = None
                try:
                    ncfa.check_complete(target.cfg, target.dir, rec, f"{target} after {fired}")
                finally:
                    w.fs = fs_ok
        out.append(rec)
        if r == "ok" and not faults:
            break
    return out


def simulate(ch, w):
    arg, d, form = ncfa.draw_path(ch, "out")
    prior = []
    for _ in ch.many(0, 2, 0.45):
        prior.append(ncfa.Fit(ncfa.draw_cfg(ch, 2, small=True), arg, d, not prior, False, form))
    if prior and ch.bool(0.3):
        cfg = prior[-1].cfg.with_(seed=ch.pick([0, 5]), epochs=ch.int(0, 3))
    else:
        cfg = ncfa.draw_cfg(ch, 3, small=ch.bool(0.5), long=0.04)
    new = not prior or ch.bool(0.4)
    target = ncfa.Fit(cfg, arg, d, new, ch.bool(0.15), form)
    reps = proc.unwrap(proc.run_child(ncfa.process, prior + [target], w.root, (), (), ncfa.START,
                                      len(prior)))
    ref = reps[-1]
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    rounds = []
    marks = []
    for _ in ch.many(1, 3, 0.3):
        f, kind, name = ncfa.draw_error(ch, ref["trace"])
        faults = [f]
        kind_of = ch.weighted([("error", 6), ("both", 2), ("benign", 1)])
        if kind_of == "benign":
            faults = []
        if kind_of != "error":
            faults += ncfa.draw_benign(ch, len(ref["trace"]))
        if ch.bool(0.15):
            rounds.append(ch.pick(ncfa.SPOILT))
            marks.append((rounds[-1], ""))
        rounds.append(faults)
        marks.append((kind, name, f.at, f.eno, f.when, f.persist))
    w.say(f"prior {prior} target {target} faults {rounds} {[m[:2] for m in marks]}")
    recs = proc.unwrap(proc.run_child(faulty, prior, target, rounds, w.root))
    for k, rec in enumerate(recs):
        what = f"{target}, attempt {k} ({rec['fired']})"
        last = k == len(recs) - 1
        if rec["fired"] and any(x[0] == "error" for x in rec["fired"]):
            w.nontrivial = True
        w.hit("attempt:" + ("ok" if rec["result"] == "ok" else "raised"))
        if rec["result"] == "ok":
            if rec["log_after"][:len(rec["log_before"])] != rec["log_before"]:
                raise W.Violation("log-rewritten", f"{what}: earlier log content changed")
            ncfa.check_log_tail(rec["log_after"][len(rec["log_before"]):], cfg.epochs,
                                rec["state"]["loss"], what)
            ncfa.same_result(rec, ref, what)
        elif not rec["fired"]:
            raise W.Violation("retry-fails", f"{what}: on a healthy disk {rec['stage']} raises "
                              f"{rec['result']}")
        if last:
            ncfa.check_complete(cfg, d, rec, what)
    w.mark(marks, len(prior), new, [r["result"][:12] for r in recs])
