"""C21: measurement blocks of the decoder stay separate in every state of the network."""
import copy
import io
import os
import pickle

import numpy as np

from vsim import fsim, ncfa, proc, tsim, util
from vsim import world as W

QUICK, THOROUGH = 420, 16000
NONTRIVIAL = "the network was trained, copied, saved and loaded, or its training failed or was killed"
SITUATION = "(sizes, history of the network, state in which it was examined)"
REAL = ["medil.models, medil.vae", "torch (training, copying, saving, loading)", "process death "
        "and loading in a fresh process"]
STUB = ["disk operations", "clock", "the instant of crashes and interrupts"]
ASSUME = ["the two parts of the decoder start with the layers mean_linear_fulcon and "
          "cov_linear_fulcon, whose units belong to the measurements in consecutive blocks"]


def depth(ch):
    return ch.weighted([(ch.int(0, 3), 6), (ch.int(4, 7), 1)])


def examine(vae, seed, what):
    """Perturb the hidden units of one measurement; only its own output may move."""
    import torch

    d = vae.decoder
    r = util.rng(seed)
    mode, out = vae.training, 0
    lat = d.latent_dim
    dt = next(vae.parameters()).dtype
    z = torch.tensor(r.standard_normal((3, lat)), dtype=dt)
    vae.eval()
    with torch.no_grad():
        base = [t.detach().numpy().copy() for t in d(z)]
        n = base[0].shape[1]
        for part, name in enumerate(("mean_linear_fulcon", "cov_linear_fulcon")):
            layer = getattr(d, name, None)
            if layer is None:
                W.cur().hit("layer_not_found")
                continue
            for j in range(n):
                def push(m, i, o, j=j):
                    k = o.shape[1] // n
                    o = o.clone()
                    o[:, j * k:(j + 1) * k] += torch.tensor(r.standard_normal((3, k)) * 3, dtype=o.dtype)
                    return o

                h = layer.register_forward_hook(push)
                try:
                    got = [t.detach().numpy() for t in d(z)]
                finally:
                    h.remove()
                for q in range(2):
                    for c in range(n):
                        if (q, c) != (part, j) and not util.same(got[q][:, c], base[q][:, c], 1e-6):
                            raise W.Violation("blocks-mixed", f"{what}: the hidden units of measurement "
                                              f"{j} ({name}) reach the {'mean' if q == 0 else 'variance'}"
                                              f" of measurement {c} (of {n})")
                out += not util.same(got[part][:, j], base[part][:, j], 1e-7)
        W.cur().hit("blocks_examined", 2 * n)
    vae.train(mode)
    return out


def loaded(path, seed, what):
    """In a fresh process: examine a saved network."""
    r = ncfa.load(path, "model_recon.pt")
    if r[0] == "ok":
        examine(r[1], seed, what + ", loaded by a new process")
    return r[0]


def by_hand(ch, w):
    """Networks built, trained, copied and stored by the user."""
    import torch
    from medil.vae import VariationalAutoencoder

    torch.manual_seed(ch.seed())
    nets = []
    for i in ch.many(2, 9, 0.85):
        op = "new" if not nets else ch.weighted(
            [("train", 4), ("new", 2), ("pickle", 2), ("save", 2), ("deepcopy", 1), ("state", 2),
             ("double", 1), ("eval", 1), ("reset", 1), ("noise", 1)])
        if op == "new":
            n, width, hidden = ch.weighted([(ch.int(1, 5), 12), (ch.int(6, 20), 1)]), ch.int(1, 3), depth(ch)
            lat = ch.weighted([(n, 3), (ch.int(1, 6), 1)])
            nets.append([VariationalAutoencoder(lat, n, hidden, width), (lat, n, hidden, width), []])
        k = ch.draw(len(nets)) if op != "new" else len(nets) - 1
        v, dims, log = nets[k]
        dt = next(v.parameters()).dtype
        if op == "train":
            x = torch.randn(6, dims[1], dtype=dt)
            opt = {"adam": lambda p: torch.optim.AdamW(p, 0.1), "sgd": lambda p: torch.optim.SGD(p, 0.1)}[
                ch.pick(["adam", "sgd"])](v.parameters())
            v.train()
            for _ in range(ch.int(1, 3)):
                r, c, mu, lv = v(x)
                loss = ((x - r) ** 2).sum() + (c ** 2).sum() + (mu ** 2).sum() + lv.exp().sum()
                opt.zero_grad()
                loss.backward()
                opt.step()
        elif op == "pickle":
            nets[k][0] = pickle.loads(pickle.dumps(v))
        elif op == "deepcopy":
            nets.append([copy.deepcopy(v), dims, log + ["copied"]])
        elif op == "save":
            b = io.BytesIO()
            torch.save(v, b)
            b.seek(0)
            nets[k][0] = torch.load(b, weights_only=False)
        elif op == "state":
            same = [q for q in nets if q[1] == dims]
            v.load_state_dict(same[ch.draw(len(same))][0].state_dict())
        elif op == "double" and dims[2] == 0:
            v.double()
        elif op == "eval":
            v.eval()
        elif op == "reset":
            for m in v.modules():
                if m is not v and hasattr(m, "reset_parameters"):
                    m.reset_parameters()
        elif op == "noise":
            with torch.no_grad():
                for p in v.parameters():
                    p.add_(torch.randn_like(p))
        log.append(op)
        if len(log) > 1:
            w.nontrivial = True
        q = nets[ch.draw(len(nets))] if ch.bool(0.3) else nets[k]
        moved = examine(q[0], ch.seed(), f"network {q[1]} after {q[2]}")
        w.hit("own_output_moved", moved)
        w.mark(q[1], q[2][-3:])
    w.say(str([(q[1], q[2]) for q in nets]))


def fitted(ch, w):
    """Networks trained by fits, examined on the way, after failures and after death."""
    from vsim.props import c09

    w.clock = fsim.Clock(ncfa.START, ncfa.draw_clock(ch))
    w.fs = fsim.FS(w.root)
    m = None
    for k in ch.many(1, 3, 0.4):
        cfg = ncfa.draw_cfg(ch, 3, small=ch.bool()).with_(width=ch.int(1, 3), hidden=depth(ch))
        if m is None or ch.bool(0.3):
            m = ncfa.make(cfg, "out/")
        ncfa.apply(m, cfg)
        every, seed = ch.pick([1, 2, 5]), ch.seed()

        class Look(c09.Probe):
            def extra(self, rec, net, x, out):
                if len(self.passes) % every == 0:
                    examine(net, seed, f"{cfg}, fit {k}, during training after {len(self.passes)} "
                            "passes")
                    W.cur().hit("examined_during_training")
                rec.clear()

        end = ch.weighted([("return", 4), ("disk", 1), ("interrupt", 1)])
        w.fs.arm([fsim.Fault(ch.draw(40), "error", "before", 28)] if end == "disk" else [])
        it = tsim.Interrupt(ch.draw(600), lambda: KeyboardInterrupt("sim")) if end == "interrupt" \
            else None
        old = m.parameters.vae if k else None
        with util.quiet(), Look(cfg):
            if it:
                with it:
                    r = util.attempt(ncfa.fit, m, cfg)
            else:
                r = util.attempt(ncfa.fit, m, cfg)
        if r[0] == "exc" and not w.fs.fired and not (it and it.fired):
            raise W.Violation("raised", f"{cfg}: {util.brief(r[1])}")
        w.fs.arm()
        what = f"{cfg}, fit {k} ({end}: {r[0]})"
        if r[0] == "ok":
            examine(m.parameters.vae, seed, what + ", returned network")
            if ch.bool(0.5):
                proc.unwrap(proc.run_child(loaded, "out", seed, what))
        if old is not None:
            examine(old, seed, what + ", network of the fit before")
        w.mark(cfg.cols, cfg.width, cfg.hidden, cfg.epochs, k, end, r[0])
        w.nontrivial = True
        w.say(what)


def killed(ch, w):
    """A fit killed at some operation; what it saved is examined by a new process."""
    w.clock = fsim.Clock(ncfa.START)
    cfg = ncfa.draw_cfg(ch, 2, small=True).with_(width=ch.int(1, 3), hidden=depth(ch))
    d = os.path.abspath("out")
    n = 8 + 15 * cfg.epochs
    fault = fsim.Fault(n - 1 - ch.draw(12) if ch.bool(0.6) else ch.draw(n), "crash",
                       ch.pick(["before", "after"]))
    fit = ncfa.Fit(cfg, d, d)
    o = proc.run_child(ncfa.process, [fit, fit] if ch.bool() else [fit], w.root, [fault])
    proc.unwrap(o, ("ok", "crash"))
    r = proc.unwrap(proc.run_child(loaded, d, 5, f"{cfg} ({o.kind})"))
    w.say(f"{cfg} {o.kind} at {fault}: saved network {r}")
    w.mark(cfg.cols, cfg.width, cfg.hidden, o.kind, r)
    w.nontrivial = r == "ok"


def simulate(ch, w):
    {"hand": by_hand, "fit": fitted, "kill": killed}[
        ch.weighted([("hand", 3), ("fit", 3), ("kill", 1)])](ch, w)
