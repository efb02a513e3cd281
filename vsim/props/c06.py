"""C06: the training log is a complete, ordered, append-only record of training."""
import itertools
import os
import time
from collections import Counter

from vsim import fsim, ncfa, tsim, util
from vsim import world as W

QUICK, THOROUGH = 520, 20000
NONTRIVIAL = ("the clock jumped, several fits or models shared a log, threads were preempted, or "
              "verbose was on")
SITUATION = "(mode, number of fits, epochs, verbose flags, thread switches, faults that fired)"
REAL = ["medil.models, medil.vae", "torch, scikit-learn", "caller threads (real threads, one at a "
        "time)", "files in a scratch directory"]
STUB = ["clock", "disk operations (counted, delayed, split)", "thread scheduling (baton passed at "
        "source lines of medil and at disk operations)", "standard output (captured)"]
ASSUME = ["two appends of one full line each do not mix (O_APPEND)"]


def fmt(t):
    return fsim._real_dt.fromtimestamp(t).strftime("%Y-%m-%d %H:%M:%S")


class Watch:
    """Observes a log file at every disk operation."""

    def __init__(self, w, path):
        self.w, self.path = w, path
        self.start = ncfa.log_bytes(path)
        self.obs = [(len(self.start), len(w.clock.reads))]

    def __call__(self):
        now = ncfa.log_bytes(self.path)
        if now[:len(self.start)] != self.start:
            raise W.Violation("log-rewritten", "earlier content of training.log changed")
        self.obs.append((len(now), len(self.w.clock.reads)))

    def finish(self, what):
        self()
        new = ncfa.log_bytes(self.path)[len(self.start):]
        return new

    def check_stamps(self, got, new, what):
        reads = self.w.clock.reads
        end = len(self.start)
        prev_t, prev_reads = -1, self.obs[0][1]
        lo = prev_reads
        for g, line in zip(got, new.decode().split("\n")):
            end += len(line.encode()) + 1
            t = next(i for i, (s, _) in enumerate(self.obs) if s >= end)
            if t != prev_t:
                lo = prev_reads
                prev_t, prev_reads = t, self.obs[t][1]
            window = reads[lo:self.obs[t][1]]
            if g[0] not in {fmt(r) for r in window}:
                raise W.Violation("stamp", f"{what}: entry {line!r} was made when the clock said "
                                  f"{[fmt(r) for r in window]}")


def sequential(ch, w):
    fits = []
    for i in ch.many(1, 3, 0.5):
        name = ch.weighted([("out", 3), ("out2", 1)])
        arg, d, form = ncfa.draw_path(ch, name)
        new = not (fits and ch.bool(0.4))
        if not new:
            arg, d, form = fits[-1].arg, fits[-1].dir, fits[-1].form
        cfg = ncfa.draw_cfg(ch, 5, small=ch.bool(), long=0.05, big=0.08)
        fits.append(ncfa.Fit(cfg, arg, d, new, ch.bool(0.35), form))
    w.clock.plan = dict(ncfa.draw_clock(ch))
    w.fs.arm([f for f in ncfa.draw_benign(ch, 120)])
    if ch.bool(0.2):
        ncfa.leftovers(ch, fits[0].dir, w)
    w.say(f"{fits} verbose {[f.verbose for f in fits]} clock {w.clock.plan}")
    m = None
    for i, f in enumerate(fits):
        before = ncfa.log_bytes(f.dir)
        with util.quiet() as out:
            if f.new or m is None:
                m = ncfa.make(f.cfg, f.arg, f.verbose)
            else:
                ncfa.apply(m, f.cfg)
                m.verbose = f.verbose
            if ncfa.log_bytes(f.dir) != before:
                raise W.Violation("log-rewritten", f"{f}: constructing changed the log")
            if ch.bool(0.15):
                before = ncfa.log_bytes(f.dir)
                how = ch.pick(ncfa.SPOILT)
                if ncfa.spoilt_fit(m, f.cfg, how)[0] == "exc":
                    w.hit("fault:spoilt_fit")
                if ncfa.log_bytes(f.dir)[:len(before)] != before:
                    raise W.Violation("log-rewritten", f"{f}, {how}: earlier content of training.log "
                                      "changed")
            out.truncate(0), out.seek(0)
            watch = Watch(w, f.dir)
            w.fs.on_op = lambda k, p: watch()
            r = util.attempt(ncfa.fit, m, f.cfg)
            w.fs.on_op = None
        if r[0] == "exc":
            if f.cfg.scale > 1 and "LinAlgError" in type(r[1]).__name__:
                w.hit("diverged")  # data in large units threw the training off
                continue
            raise r[1]
        new = watch.finish(f)
        loss = ncfa.state(m)["loss"]
        got = ncfa.check_log_tail(new, f.cfg.epochs, loss, f"{f}")
        watch.check_stamps(got, new, f"{f}")
        text = out.getvalue()
        if not f.verbose and text:
            raise W.Violation("stdout", f"{f}: verbose is off, standard output got {text[:80]!r}")
        if f.verbose and text != new.decode():
            a, b = text.split("\n"), new.decode().split("\n")
            k = next((i for i, (x, y) in enumerate(itertools.zip_longest(a, b)) if x != y), 0)
            raise W.Violation("stdout", f"{f}: verbose is on, line {k} of standard output is "
                              f"{a[k:k + 1]}, of the log {b[k:k + 1]}")
        w.mark("seq", i, f.cfg.epochs, f.verbose, f.new, list(w.fs.fired), f.form)
        if i or f.verbose or w.clock.plan or w.fs.fired:
            w.nontrivial = True


def concurrent(ch, w):
    n = ch.weighted([(2, 4), (3, 1)])
    share = ch.bool(0.8)
    ms, cfgs, dirs = [], [], []
    for i in range(n):
        arg, d, form = ncfa.draw_path(ch, "out" if share else f"out{i}")
        cfg = ncfa.draw_cfg(ch, 3, 1, small=True)
        ms.append(ncfa.make(cfg, arg, ch.bool(0.3)))
        cfgs.append(cfg)
        dirs.append(d)
    plan = tsim.draw_plan(ch)
    w.clock.plan = dict(ncfa.draw_clock(ch))
    w.say(f"concurrent {cfgs} in {[os.path.basename(d) for d in dirs]} plan {plan}")
    starts = {d: ncfa.log_bytes(d) for d in dirs}
    sch = tsim.Sched(plan)

    def observe(k, p):
        for d, s in starts.items():
            if ncfa.log_bytes(d)[:len(s)] != s:
                raise W.Violation("log-rewritten", "earlier content of training.log changed")

    w.fs.on_op = observe
    with util.quiet() as out:
        res = sch.run([lambda m=m, c=c: ncfa.fit(m, c) for m, c in zip(ms, cfgs)])
    w.fs.on_op = None
    # what is promised is the record of the fits that return
    returned = [r[0] != "exc" for r in res]
    if not share and not all(returned):
        raise W.Violation("raised", f"{cfgs} while others train: "
                          f"{[util.brief(r[1]) for r in res if r[0] == 'exc']}")
    w.mark("thr", n, share, sch.switches)
    w.nontrivial = w.nontrivial or bool(sch.switches)
    stamps = {fmt(r) for r in w.clock.reads}
    printed = Counter(out.getvalue().split("\n")[:-1])
    logged = Counter()
    for d in dict.fromkeys(dirs):
        mine = [i for i in range(n) if dirs[i] == d]
        new = ncfa.log_bytes(d)[len(starts[d]):]
        if not new.endswith(b"\n"):
            raise W.Violation("log-incomplete", "training.log does not end with a full line")
        lines = new.decode().split("\n")[:-1]
        logged.update(lines)
        got = [ncfa.parse_line(s) for s in lines]
        for s, g in zip(lines, got):
            if g is None or g[0] not in stamps:
                raise W.Violation("stamp", f"entry {s!r} is not stamped with a clock reading")
        seqs = [ncfa.expected(cfgs[i].epochs, ncfa.state(ms[i])["loss"] if returned[i] else None)
                for i in mine]
        reach = {tuple(0 for _ in mine)}
        for k, g in enumerate(got):
            nxt = set()
            for st in reach:
                for j, q in enumerate(seqs):
                    if st[j] < len(q) and ncfa.fits_line(g, q[st[j]]):
                        nxt.add(st[:j] + (st[j] + 1,) + st[j + 1:])
            if not nxt:
                raise W.Violation("log-incomplete", f"entry {k} {lines[k]!r} does not continue the "
                                  f"record of any of the {len(mine)} trainings")
            reach = nxt
        if not any(all(n == len(q) or not returned[i] for n, q, i in zip(st, seqs, mine))
                   for st in reach):
            raise W.Violation("log-incomplete", f"{len(got)} entries for trainings with "
                              f"{[len(q) for q in seqs]}")
    want = sum(1 + 3 * c.epochs for m, c in zip(ms, cfgs) if m.verbose)
    if printed - logged or sum(printed.values()) != want and all(returned):
        raise W.Violation("stdout", f"{sum(printed.values())} lines on standard output, {want} "
                          f"expected; not in the log: {list(printed - logged)[:2]}")


ZONES = ("UTC0", "IST-5:30", "PST8PDT,M3.2.0,M11.1.0", "NPT-5:45", "<+14>-14", "<-11>11")


def simulate(ch, w):
    w.clock = fsim.Clock(ncfa.START + ch.draw(4 * 10 ** 7))
    w.fs = fsim.FS(w.root)
    zone, old = ch.pick(ZONES), os.environ.get("TZ")
    w.say(f"time zone {zone}")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        (sequential if ch.weighted([(True, 3), (False, 2)]) else concurrent)(ch, w)
    finally:
        os.environ.pop("TZ") if old is None else os.environ.__setitem__("TZ", old)
        time.tzset()
