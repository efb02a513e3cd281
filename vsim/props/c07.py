"""C07: a model writes only inside its own output directory."""
import os
import pathlib

from vsim import fsim, ncfa, tsim, util
from vsim import world as W

QUICK, THOROUGH = 520, 20000
NONTRIVIAL = ("several models were active, or a disk error fired, or threads were preempted, or the "
              "path was not given as 'name/'")
SITUATION = "(forms and names of the paths, order of calls, faults that fired, thread switches)"
REAL = ["medil.models, medil.vae", "torch, scikit-learn", "caller threads (real threads, one at a "
        "time)", "files in a scratch directory"]
STUB = ["disk operations (recorded, failing; writes outside the scratch directory are refused and "
        "reported)", "clock", "thread scheduling"]
ASSUME = ["the parent of the output directory exists", "the working directory does not change "
          "between construction and fit of a model with a relative path"]
NAMES = ["out", "out2", "o", "out er", "run.1", "nested/out", "t\u00e4st", "outtraining.log",
         "out ", " out", ".out", "OUT", "out\n", "link", "link/../out", "%d{x}", "~", "~/out", "$HOME", "a,b"]
HERE = (".", "./", "././", pathlib.Path("."))


class Owner:
    """Attributes every disk operation to the model whose call is running."""

    def __init__(self, w, root):
        self.w, self.root, self.dirs, self.now = w, root, {}, {}
        self.bad = None

    def __call__(self, kind, path):
        s = self.w.sched
        who = self.now.get(s.me if s is not None else "main")
        if who is None or self.bad:
            return
        d = self.dirs[who]
        path = os.path.realpath(path)
        if not (path == d or path.startswith(d + os.sep)):
            self.bad = (f"model {who} with output path {os.path.relpath(d, self.root)!r} does "
                        f"{kind} on {os.path.relpath(path, self.root)!r}")


def simulate(ch, w):
    w.clock = fsim.Clock(ncfa.START)
    cwd, home = os.getcwd(), os.environ.get("HOME")
    os.makedirs(os.path.join(w.root, "home"), exist_ok=True)
    os.environ["HOME"] = os.path.join(w.root, "home")
    try:
        go(ch, w)
    finally:
        os.chdir(cwd)
        os.environ.pop("HOME") if home is None else os.environ.__setitem__("HOME", home)


def go(ch, w):
    w.fs = fs = fsim.FS(w.root)
    os.makedirs("other", exist_ok=True)
    os.makedirs("nested/deep", exist_ok=True)
    os.symlink("nested/deep", "link")
    here = ch.bool(0.15)  # the program works in the directory it writes to
    if here:
        os.makedirs("work", exist_ok=True)
        os.symlink("../nested/deep", "work/link")
        os.chdir("work")
        os.makedirs("nested", exist_ok=True)
        os.makedirs("other", exist_ok=True)
    os.makedirs("~", exist_ok=True)
    for n in ("training.log", "model_recon.pt", "other/keep.txt"):
        with fsim.real["open"](n, "w") as f:
            f.write("not yours")
    own = Owner(w, w.root)
    n = ch.weighted([(1, 2), (2, 3), (3, 2)])
    ms = []
    for i in range(n):
        if ms and ch.bool(0.25):
            name = ms[0][0]
        else:
            name = ch.pick(NAMES)
        if here and (not i or ch.bool(0.3)):
            name = "."
            arg, d, form = ch.pick(HERE), os.getcwd(), "here"
        else:
            arg, d, form = ncfa.draw_path(ch, name)
        if ch.bool(0.2):
            ncfa.leftovers(ch, d, w)
        own.dirs[i] = d
        ms.append((name, arg, d, form, ncfa.draw_cfg(ch, 2, small=True)))
    before = ncfa.tree(w.root)
    fs.on_op = own
    threads = n > 1 and ch.bool(0.5)
    w.say(f"{[(m[0], m[3]) for m in ms]} {'threads' if threads else 'one after the other'}")
    faults = []
    if not threads:
        for _ in ch.many(0, 2, 0.4):
            kind = ch.pick(["write", "open", "close"])
            faults.append(fsim.Fault(ch.draw(60), "error",
                                     ch.pick(["before", "mid"]) if kind == "write" else "before",
                                     ch.pick([28, 5, 13, 24]), ch.unit(), ch.pick([0, 0, 3])))
    fs.arm(faults)
    objs = {}
    active = set()

    def construct(i, key):
        own.now[key] = i
        # a model must be constructible any number of times
        for _ in range(reps[i]):
            objs[i] = ncfa.make(ms[i][4], ms[i][1])
        own.now[key] = None

    def train(i, key):
        own.now[key] = i
        try:
            with util.quiet():
                ncfa.fit(objs[i], ms[i][4])
        finally:
            own.now[key] = None

    reps = {i: 1 + ch.bool(0.3) for i in range(n)}
    do_fit = {i: ch.bool(0.6) for i in range(n)}

    def client(i):
        construct(i, i)
        if do_fit[i]:
            train(i, i)

    if threads:
        plan = tsim.draw_plan(ch, 8)
        sch = tsim.Sched(plan)
        with util.quiet():
            res = sch.run([lambda i=i: client(i) for i in range(n)])
        for i, r in enumerate(res):
            if r[0] == "exc":
                raise W.Violation("raised", f"model {i} {ms[i][0]!r} ({ms[i][3]}): "
                                  f"{util.brief(r[1])} while other models are at work")
        w.mark("thr", [(m[0], m[3]) for m in ms], sch.switches)
        active = set(range(n))
    else:
        for i in range(n):
            fired0 = len(fs.fired)
            r = util.attempt(construct, i, "main")
            own.now["main"] = None
            if r[0] == "exc" and len(fs.fired) == fired0:
                raise W.Violation("raised", f"constructing for {ms[i][1]!r}: {util.brief(r[1])}")
            active.add(i)
        for k in ch.many(0, 2 * n, 0.75):
            i = ch.draw(n)
            if i not in objs:
                continue
            fired0 = len(fs.fired)
            r = util.attempt(train, i, "main")
            if r[0] == "exc" and len(fs.fired) == fired0:
                raise W.Violation("raised", f"fit for {ms[i][1]!r}: {util.brief(r[1])}")
        w.mark("seq", [(m[0], m[3]) for m in ms], list(fs.fired))
    fs.on_op = None
    if n > 1 or fs.fired or ms[0][3] != "slash":
        w.nontrivial = True
    if own.bad:
        raise W.Violation("outside", own.bad)
    if fs.escapes:
        raise W.Violation("outside", f"write outside the scratch directory: {fs.escapes[0]}")
    after = ncfa.tree(w.root)
    dirs = [os.path.relpath(own.dirs[i], w.root) for i in active]
    for p in sorted(set(before) | set(after)):
        if any(p == d + os.sep or p.startswith(d + os.sep) for d in dirs):
            continue
        if before.get(p, 0) != after.get(p, 0):
            raise W.Violation("outside", f"{p!r} was {'changed' if p in before else 'created'}; "
                              f"output directories are {dirs}")
