"""Workload, reference computations and artifact readers for the VAE model."""
import io
import os
import pathlib
import pickle
import re

import numpy as np

from . import fsim, proc, util
from . import world as W

ARTIFACTS = ("model_recon.pt", "loss_recon.pkl", "error_recon.pkl")
LOG = "training.log"
# equal in their low bits, or close to the limits of a seed
SEEDS = (123456, 65536, 65537, 2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1)
START = 1_700_000_000.0


class Cfg:
    """Everything a fit is a function of."""

    scale = 1  # of the data; only an explicit split keeps it
    dform = "C"  # memory form and type of the dataset
    sform = "idx"  # form of an explicit split

    def __init__(self, **k):
        self.__dict__.update(k)

    def data(self):
        x = util.make_data(self.dseed, self.rows, self.cols, self.kind)
        if self.scale != 1:
            x = x * self.scale
        if self.dform == "int" and not self.explicit:
            return np.round(x * 1e4).astype(int)
        if self.dform == "ro":
            x.setflags(write=False)
        return {"f4": lambda: x.astype(np.float32), "F": lambda: np.asfortranarray(x),
                "view": lambda: np.repeat(x, 2, axis=0)[::2]}.get(self.dform, lambda: x)()

    def split(self):
        if not self.explicit:
            return None
        n = self.rows
        idx = util.rng(self.dseed + 1).permutation(n)
        k = max(1, min(n - 1, int(n * 0.6)))
        a, b = idx[:k], idx[k:]
        if self.sform == "mask":
            m = np.zeros(n, bool)
            m[a] = True
            return m, ~m
        if self.sform == "twice":  # rows that count twice
            return np.concatenate([a, a[:3], a[:1]]), b
        if self.sform == "some":  # rows that belong to neither
            return a[:max(1, k - 3)], b[:max(1, n - k - 2)]
        return {"list": lambda: (a.tolist(), b.tolist()), "neg": lambda: (a - n, b - n),
                "u2": lambda: (a.astype(np.uint16), b.astype(np.uint16))
                }.get(self.sform, lambda: (a, b))()

    def splits(self):
        """(training rows, validation rows) as the network sees them."""
        x = self.data()
        if self.explicit:
            a, b = self.split()
            return x[a].astype(np.float32), x[b].astype(np.float32)
        from sklearn.model_selection import train_test_split
        from sklearn.preprocessing import StandardScaler

        a, b = train_test_split(StandardScaler().fit_transform(x), train_size=0.7,
                                random_state=self.seed)
        return a.astype(np.float32), b.astype(np.float32)

    def __repr__(self):
        return (f"fit(seed={self.seed} {self.rows}x{self.cols} {self.kind}#{self.dseed} "
                f"{'' if self.scale == 1 else f'x{self.scale} '}{'' if self.dform == 'C' else self.dform + ' '}"
                f"{'idcs' if self.explicit else 'auto'}{'' if self.sform == 'idx' else ':' + self.sform} "
                f"ep={self.epochs} b={self.batch} "
                f"w={self.width} h={self.hidden} beta={self.beta} lr={self.lr})")

    def with_(self, **k):
        return Cfg(**{**self.__dict__, **k})

    def key(self):
        return tuple(sorted(self.__dict__.items()))


def draw_cfg(ch, max_epochs=4, min_epochs=0, small=False, long=0.0, big=0.0):
    if big and ch.bool(big):  # data in units of its own
        c = draw_cfg(ch, max_epochs, min_epochs, small)
        return c.with_(scale=ch.pick([30, 100, 300, 0.01]), explicit=True)
    if long and ch.bool(long):  # many epochs of very little work
        return Cfg(
            seed=ch.weighted([(0, 3), (1, 3)]), dseed=ch.seed(), rows=ch.int(8, 12), cols=2,
            kind="mixed", explicit=ch.bool(0.4), epochs=ch.weighted(
                [(ch.int(5, 16), 2), (ch.int(17, 60), 3), (ch.int(61, 130), 2), (ch.int(131, 260), 2)]),
            batch=128, width=1, hidden=1, beta=1, lr=0.005)
    if not small and ch.bool(0.008):  # more rows than any limit or default in the package
        return Cfg(
            seed=ch.pick(SEEDS), dseed=ch.seed(), rows=ch.int(2600, 3500), cols=ch.int(2, 3),
            kind="mixed", explicit=True, epochs=max(min_epochs, 1), batch=ch.pick([1000, 4000]),
            width=1, hidden=1, beta=1, lr=0.005)
    if not small and ch.bool(0.03):  # a dataset of several full batches
        return Cfg(
            seed=ch.pick(SEEDS), dseed=ch.seed(), rows=ch.int(150, 400), cols=ch.int(3, 16),
            kind=ch.pick(["mixed", "shared", "indep"]), explicit=ch.bool(0.4),
            epochs=ch.int(min_epochs, 2), batch=ch.pick([128, 64, 100, 1000]), width=ch.int(1, 4),
            hidden=ch.int(0, 3), beta=1, lr=0.005)
    c = Cfg(
        seed=ch.weighted([(0, 3), (1, 3), (7, 2), (ch.pick(SEEDS), 2)]),
        dseed=ch.seed(), rows=ch.int(8, 24 if small else 60), cols=ch.int(2, 3 if small else 5),
        kind=ch.weighted([("mixed", 3), ("shared", 1), ("indep", 1)]),
        explicit=ch.bool(0.4), epochs=ch.int(min_epochs, max_epochs),
        batch=ch.weighted([(8, 3), (5, 2), (128, 3), (16, 2), (1, 1) if small else (3, 1)]),
        width=ch.weighted([(1, 3), (2, 2)]), hidden=ch.weighted([(1, 3), (0, 1), (2, 1)]),
        beta=ch.weighted([(1, 3), (0.5, 1)]), lr=ch.weighted([(0.005, 3), (0.05, 2)]))
    if ch.bool(0.25):
        c.dform = ch.pick(["f4", "F", "ro", "view"] if c.explicit else ["f4", "F", "ro", "int"])
    if c.explicit and ch.bool(0.4):
        c.sform = ch.pick(["list", "mask", "neg", "twice", "some", "u2"])
    return c


def make(cfg, path, verbose=False, **kw):
    from medil.models import NeuroCausalFactorAnalysis

    m = NeuroCausalFactorAnalysis(seed=cfg.seed, path=path, verbose=verbose, **kw)
    apply(m, cfg)
    return m


def apply(m, cfg):
    m.seed = cfg.seed
    m.hyperparams.update(batch_size=cfg.batch, num_epochs=cfg.epochs, lr=cfg.lr, beta=cfg.beta,
                         width_per_meas=cfg.width, num_hidden_layers=cfg.hidden)


def fit(m, cfg):
    s = cfg.split()
    return m.fit(cfg.data()) if s is None else m.fit(cfg.data(), s)


SPOILT = ("diverges", "diverges slowly", "missing values", "one-dimensional", "rows that do not exist", "text")


def spoilt_fit(m, cfg, how):
    """A fit that fails for reasons of its own: bad settings or a bad dataset.
    Returns ("ok", ...) or ("exc", exception); settings are as before afterwards."""
    x, s = cfg.data(), cfg.split()
    if how.startswith("diverges"):
        apply(m, cfg.with_(lr=30.0 if "slowly" in how else 1e4, epochs=5))
    elif how == "missing values":
        x = np.where(np.arange(x.shape[1]) == 0, np.nan, x)
        apply(m, cfg.with_(epochs=max(1, cfg.epochs)))
    elif how == "one-dimensional":
        x = x[:, 0]
    elif how == "rows that do not exist":
        s = (np.arange(5), np.array([len(x) + 3]))
    else:
        x = x.astype(str).astype(object)
        x[-1, -1] = "n/a"
    try:
        n = m.hyperparams["num_epochs"]
        with util.quiet(), np.errstate(all="ignore"):
            r = util.attempt(m.fit, x) if s is None else util.attempt(m.fit, x, s)
        if r[0] == "ok":
            short = {k: len(v) for k, v in m.loss.items() if len(v) != n}
            if short:
                raise W.Violation("history-length", f"{cfg}, {how}: returned histories of {short} for "
                                  f"{n} epochs")
        return r
    finally:
        apply(m, cfg)


def state(m):
    """What the object publishes."""
    vae = m.parameters.vae
    return {
        "weights": np.array(m.parameters.weights, copy=True),
        "vae": {k: v.detach().numpy().copy() for k, v in vae.state_dict().items()},
        "loss": None if m.loss is None else {k: np.array(v, copy=True) for k, v in m.loss.items()},
    }


def recon(vae, x):
    """Reconstruction in evaluation mode; leaves the mode as it was."""
    import torch

    mode = vae.training
    vae.eval()
    with torch.no_grad():
        out = [t.numpy().copy() for t in vae(torch.tensor(x))]
    vae.train(mode)
    return out


def load(path, name):
    """("absent",) | ("bad", why) | ("ok", object)"""
    p = os.path.join(path, name)
    if not os.path.exists(p):
        return ("absent",)
    try:
        with fsim.real["open"](p, "rb") as f:
            data = f.read()
        if name.endswith(".pt"):
            import torch

            return ("ok", torch.load(io.BytesIO(data), weights_only=False))
        return ("ok", pickle.loads(data))
    except Exception as e:
        return ("bad", util.brief(e))


def load_all(path, probe):
    """Artifacts of a directory, read by a process that never ran medil's fit."""
    out = {}
    for n in ARTIFACTS:
        r = load(path, n)
        if r[0] == "ok" and n.endswith(".pt"):
            v = r[1]
            try:
                fc = getattr(v.decoder, "cov_linear_fulcon", None)
                r = ("ok", {"state": {k: t.detach().numpy().copy() for k, t in v.state_dict().items()},
                            "recon": recon(v, probe),
                            "fc": None if fc is None else fc.weight.detach().numpy().copy()})
            except Exception as e:
                r = ("bad", "not a working model: " + util.brief(e))
        elif r[0] == "ok":
            try:
                r = ("ok", [np.array(a, dtype=float) for a in r[1]])
            except Exception as e:
                r = ("bad", "not histories: " + util.brief(e))
        out[n] = r
    return out


def disk_artifacts(path, probe):
    return proc.unwrap(proc.run_child(load_all, path, probe))


def valid_loss(cfg, rec, vrows):
    """Loss and error of the validation split, from reconstructions (float64)."""
    tot, err, nb = 0.0, 0.0, 0
    for a in range(0, len(vrows), cfg.batch):
        x = vrows[a:a + cfg.batch].astype(float)
        r, logcov, mu, logvar = [t[a:a + cfg.batch].astype(float) for t in rec]
        kl = -0.5 * (1 + logvar - mu ** 2 - np.exp(logvar)).sum()
        cov = np.exp(logcov).mean(0)
        d = x - r
        nll = 0.5 * (len(x) * np.prod(cov) + (d * d / cov).sum())
        tot += (cfg.beta * kl + nll) / len(x)
        err += np.linalg.norm(d, 2) / len(x)
        nb += 1
    return tot / nb, err / nb


def check_complete(cfg, path, obj, what):
    """obj: what the returned object held (see job). Raises a Violation."""
    probe = obj["probe"]
    art = disk_artifacts(path, probe)
    for n in ARTIFACTS:
        if art[n][0] != "ok":
            raise W.Violation("artifact-missing", f"{what}: {n} after fit returned: {art[n]}")
    m = art["model_recon.pt"][1]
    if not util.same(m["state"], obj["state"]["vae"]):
        raise W.Violation("artifact-differs", f"{what}: saved model and parameters.vae: "
                          f"{util.diff(m['state'], obj['state']['vae'])}")
    if not util.same(m["recon"], obj["recon"], 1e-6):
        raise W.Violation("artifact-differs", f"{what}: the saved model reconstructs differently: "
                          f"{util.diff(m['recon'], obj['recon'])}")
    w = obj["state"]["weights"]
    if m["fc"] is not None and not util.same(w.T, m["fc"]):
        raise W.Violation("artifact-differs", f"{what}: parameters.weights and the saved decoder: "
                          f"{util.diff(w.T, m['fc'])}")
    loss = obj["state"]["loss"]
    files = {"elbo": art["loss_recon.pkl"][1], "recon": art["error_recon.pkl"][1]}
    for q, f in files.items():
        if len(f) != 2:
            raise W.Violation("artifact-differs", f"{what}: {q} history file has {len(f)} parts")
        for part, a in zip(("train", "valid"), f):
            h = None if loss is None else loss.get(f"{q}_{part}")
            if h is None or not util.same(np.asarray(h, float), a):
                raise W.Violation("artifact-differs", f"{what}: saved {q} {part} history {a} and "
                                  f"returned {h}")
            if a.shape != (cfg.epochs,):
                raise W.Violation("history-length", f"{what}: {q} {part} history has shape "
                                  f"{a.shape} for {cfg.epochs} epochs")
    if cfg.epochs:
        _, v = cfg.splits()
        l, e = valid_loss(cfg, m["recon_valid"] if "recon_valid" in m else obj["recon_valid"], v)
        for name, mine, theirs in (("loss", l, files["elbo"][1][-1]),
                                   ("error", e, files["recon"][1][-1])):
            if np.isfinite(mine) and not np.isclose(mine, theirs, rtol=2e-3, atol=1e-4):
                raise W.Violation("stale-validation", f"{what}: last validation {name} {theirs!r}, "
                                  f"the saved model has {mine!r}")


def report(m, cfg, probe):
    """Taken in the fitting process right after fit returned."""
    _, v = cfg.splits()
    return {"state": state(m), "probe": probe, "recon": recon(m.parameters.vae, probe),
            "recon_valid": recon(m.parameters.vae, v)}


def probe_for(cfg):
    return util.rng(5).standard_normal((4, cfg.cols)).astype(np.float32)


def _clean(cfg, path):
    m = make(cfg, path)
    fit(m, cfg)
    return report(m, cfg, probe_for(cfg))


def _clean_io(cfg, path, root, calls):
    """The reference run, on a healthy simulated disk, to count its operations."""
    w = W.cur()
    w.clock = fsim.Clock(START)
    w.fs = fsim.FS(root)
    w.fs.arm()
    r = None
    for c in calls:
        m = make(c, path) if r is None else m
        apply(m, c)
        w.fs.trace and w.fs.trace.append(("next-fit", ""))
        r = fit(m, c)
    t = w.fs.trace
    w.fs = w.clock = None
    return report(m, calls[-1], probe_for(calls[-1])), t


_cache = {}


def reference(cfg, root):
    """Result of the fit in a fresh process on a healthy machine."""
    k = cfg.key()
    if k not in _cache:
        d = os.path.join(root, f"ref{len(_cache)}")
        o = proc.run_child(_clean, cfg, d + os.sep, fresh_world=False)
        _cache[k] = (proc.unwrap(o), d)
    return _cache[k]


LINE = re.compile(r"^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) (.*)$")
PATTERNS = [
    ("params", re.compile(r"^Number of parameters: (\d+)$")),
    ("start", re.compile(r"^Training on epoch (\d+)\.\.\.$")),
    ("train", re.compile(r"^Finish training epoch (\d+) with loss (\S+)$")),
    ("valid", re.compile(r"^Finish validation with loss (\S+)$")),
]


def parse_line(s):
    """(stamp, kind, values) or None."""
    m = LINE.match(s)
    if not m:
        return None
    for k, p in PATTERNS:
        q = p.match(m.group(2))
        if q:
            return m.group(1), k, q.groups()
    return m.group(1), "other", (m.group(2),)


def expected(epochs, loss):
    """Sequence of (kind, epoch, loss or None) of one fit; loss None: any losses."""
    out = [("params", None, None)]
    for e in range(epochs):
        out += [("start", e, None), ("train", e, loss and loss["elbo_train"][e]),
                ("valid", None, loss and loss["elbo_valid"][e])]
    return out


def fits_line(line, want):
    """Does a parsed line record the expected entry?"""
    if line is None or line[1] != want[0]:
        return False
    v = line[2]
    if want[0] == "start":
        return int(v[0]) == want[1]
    if want[0] == "train" and int(v[0]) != want[1]:
        return False
    if want[0] in ("train", "valid"):
        try:
            x = float(v[-1])
        except ValueError:
            return False
        return want[2] is None or bool(np.isclose(x, want[2], rtol=1e-9, atol=0, equal_nan=True))
    return True


def check_log_tail(new, epochs, loss, what):
    """``new``: bytes appended by a fit that returned."""
    if not new.endswith(b"\n"):
        raise W.Violation("log-incomplete", f"{what}: training.log does not end with a full line")
    lines = new.decode().split("\n")[:-1]
    want = expected(epochs, loss)
    got = [parse_line(s) for s in lines]
    if len(got) != len(want) or not all(fits_line(g, x) for g, x in zip(got, want)):
        for i in range(max(len(got), len(want))):
            g = got[i] if i < len(got) else None
            x = want[i] if i < len(want) else None
            if g is None or x is None or not fits_line(g, x):
                raise W.Violation("log-incomplete", f"{what}: entry {i} of {len(want)} should be "
                                  f"{x}, training.log has {lines[i] if i < len(lines) else None!r}")
    return got


def read(path):
    try:
        with fsim.real["open"](path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return b""


def log_bytes(path):
    return read(os.path.join(path, LOG))


# -- forms of the output path ------------------------------------------------------
def draw_path(ch, name):
    """(argument given to the constructor, absolute directory)."""
    d = os.path.join(os.getcwd(), name)
    form = ch.weighted([("slash", 4), ("plain", 3), ("rel", 2), ("rels", 2), ("path", 2),
                        ("dotted", 1), ("slashes", 1), ("relpath", 1), ("long", 1)])
    if form == "long":  # far from the length of ordinary paths
        name = os.path.join("d" * 220, *["e" * 200] * ch.draw(4), name)
        d = os.path.join(os.getcwd(), name)
        os.makedirs(os.path.dirname(d), exist_ok=True)
    arg = {"slash": d + os.sep, "plain": d, "rel": name, "rels": name + os.sep,
           "path": pathlib.Path(d), "dotted": os.path.join(".", "x", "..", name),
           "slashes": d + os.sep * 2, "long": d, "relpath": pathlib.Path(name)}[form]
    if form == "dotted":
        os.makedirs("x", exist_ok=True)
    return arg, os.path.realpath(arg), form


def tree(root, skip=()):
    """{relative path: bytes} of all files below root."""
    out = {}
    for dp, dn, fn in os.walk(root):
        if any(dp == s or dp.startswith(s + os.sep) for s in skip):
            dn[:] = []
            continue
        out[os.path.relpath(dp, root) + os.sep] = None
        for f in fn:
            out[os.path.relpath(os.path.join(dp, f), root)] = read(os.path.join(dp, f))
    return out


# -- fits in a process of their own --------------------------------------------------
class Fit:
    """One fit of a process: which object, which directory, what settings."""

    def __init__(self, cfg, arg, d, new=True, verbose=False, form=""):
        self.cfg, self.arg, self.dir, self.new, self.verbose = cfg, arg, d, new, verbose
        self.form = form
        self.spoil = None  # way in which a fit fails just before this one

    def __repr__(self):
        return (f"{'new ' if self.new else 'same '}{self.cfg} in {os.path.basename(self.dir)}"
                f"[{self.form}]{' after a fit that fails: ' + self.spoil if self.spoil else ''}")


def process(fits, root, faults=(), plan=(), start=START, arm_at=0):
    """Run fits one after the other on a simulated disk; report after each.

    faults are counted from the start of fit number ``arm_at`` (its
    construction included)."""
    w = W.cur()
    w.clock = fsim.Clock(start, plan)
    w.fs = fsim.FS(root)
    w.fs.arm()
    out = []
    m = None
    w.keep = []  # the process is killed while it still holds its models
    for i, f in enumerate(fits):
        if i == arm_at:
            w.fs.arm(faults)
        before = log_bytes(f.dir)
        if f.new or m is None:
            m = make(f.cfg, f.arg, f.verbose)
        else:
            apply(m, f.cfg)
        if f.spoil:
            if spoilt_fit(m, f.cfg, f.spoil)[0] == "exc":
                w.hit("fault:spoilt_fit")
            before = log_bytes(f.dir)
        with util.quiet():
            r = fit(m, f.cfg)
        w.keep.append(m)
        if r is not m:
            raise W.Violation("return", "fit does not return the model")
        out.append({**report(m, f.cfg, probe_for(f.cfg)), "log_before": before,
                    "log_after": log_bytes(f.dir), "trace": list(w.fs.trace),
                    "fired": list(w.fs.fired), "escapes": list(w.fs.escapes)})
    return out


def draw_benign(ch, ops):
    """Short writes and stalls: legal behaviour of a healthy disk."""
    out = []
    for _ in ch.many(0, 4, 0.5):
        at = ch.draw(ops)
        if ch.bool(0.6):
            out.append(fsim.Fault(at, "short", frac=ch.unit()))
        else:
            out.append(fsim.Fault(at, "stall", jump=float(ch.gap(14))))
    return out


def draw_clock(ch):
    return [(ch.draw(20), ch.pick([-86400.0, 3600.0, 1e6, -1.0, -3600.0, 9e5]))
            for _ in ch.many(0, 3, 0.4)]


def leftovers(ch, d, w):
    """Files an earlier program left in the directory."""
    os.makedirs(d, exist_ok=True)
    for n in ch.many(1, 3, 0.5):
        f = ch.pick(ARTIFACTS + (LOG, "notes.txt", "model_recon.pt.tmp", "loss_recon.pkl.tmp"))
        data = util.rng(ch.seed()).bytes(ch.pick([0, 10, 3000, 40000]))
        if f == LOG:
            data = b"2023-01-01 00:00:00 an older entry\n" * (len(data) // 30)
        with fsim.real["open"](os.path.join(d, f), "wb") as h:
            h.write(data)
        w.say(f"leftover {f} ({len(data)} bytes)")


# -- choosing a fault point from the trace of a healthy run -----------------------------
def draw_point(ch, trace, w=None):
    """Operation number, stratified: first the kind of operation and the file,
    then which of its occurrences."""
    groups = {}
    for i, (k, p) in enumerate(trace):
        groups.setdefault((k, os.path.basename(p)), []).append(i)
    names = sorted(groups)
    # artifacts and log get equal shares, whatever the number of log entries
    g = names[ch.draw(len(names))]
    occ = groups[g]
    i = ch.weighted([("any", 4), ("first", 1), ("last", 2)])
    return {"any": lambda: occ[ch.draw(len(occ))], "first": lambda: occ[0],
            "last": lambda: occ[-1]}[i](), g


def draw_error(ch, trace):
    at, (kind, name) = draw_point(ch, trace)
    eno = ch.pick(fsim.ERRNOS.get(kind, [5]))
    when = ch.pick(["before", "mid"]) if kind in ("write", "close") else "before"
    persist = ch.weighted([(0, 5), (1, 2), (4, 1), (10 ** 6, 2)])
    return fsim.Fault(at, "error", when, eno, ch.unit(), persist), kind, name


def draw_crash(ch, trace):
    at, (kind, name) = draw_point(ch, trace)
    when = ch.pick(["before", "mid", "after"] if kind == "write" else ["before", "after"])
    return fsim.Fault(at, "crash", when, frac=ch.unit()), kind, name


def same_result(got, ref, what, kind="retry-differs"):
    for k in ("weights", "vae", "loss"):
        if not util.same(got["state"][k], ref["state"][k], 1e-5):
            raise W.Violation(kind, f"{what}: {k} differ from a run that never failed: "
                              f"{util.diff(got['state'][k], ref['state'][k])}")
