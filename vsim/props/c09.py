"""C09: latent noise in every training step, none in validation."""
import numpy as np

from vsim import fsim, ncfa, util
from vsim import world as W

QUICK, THOROUGH = 480, 20000
NONTRIVIAL = "at least one fit of two or more epochs, or a second fit, or a failed fit before"
SITUATION = "(settings, number of fits, sequence of passes seen)"
REAL = ["medil.models, medil.vae", "torch random generator (observed at every forward pass)"]
STUB = ["disk operations", "clock"]
ASSUME = ["a forward pass on rows of the training split is a training step, one on rows of the "
          "validation split is validation"]


class Probe:
    """Observes every forward pass of the network and of its decoder."""

    def __init__(self, cfg):
        from medil import vae

        a, b = cfg.splits()
        self.train = {r.tobytes() for r in a}
        self.valid = {r.tobytes() for r in b}
        self.vae = vae
        self.f, self.d = vae.VariationalAutoencoder.forward, vae.Decoder.forward
        self.passes = []
        self.z = None
        self.params = None

    def where(self, x):
        rows = {r.tobytes() for r in x.detach().numpy()}
        if rows <= self.train:
            return "train"
        return "valid" if rows <= self.valid else "?"

    def extra(self, rec, net, x, out):
        pass

    @staticmethod
    def hash(module):
        return tuple(p.detach().numpy().tobytes() for p in module.state_dict().values())

    def __enter__(self):
        import torch

        probe = self

        def forward(net, x, *a, **k):
            kind = probe.where(x)
            s0 = torch.get_rng_state().numpy().tobytes()
            h0 = probe.hash(net)
            probe.z = None
            out = probe.f(net, x, *a, **k)
            s1 = torch.get_rng_state().numpy().tobytes()
            rec = {"kind": kind, "drew": s0 != s1, "before": h0, "after": probe.hash(net),
                   "z": None if probe.z is None else probe.z.detach().numpy().copy(),
                   "mu": out[2].detach().numpy().copy(),
                   "std": np.exp(0.5 * out[3].detach().numpy()),
                   "last": out[0].detach().numpy().copy()}
            probe.extra(rec, net, x, out)
            probe.passes.append(rec)
            return out

        def dec(net, z, *a, **k):
            probe.z = z
            return probe.d(net, z, *a, **k)

        self.vae.VariationalAutoencoder.forward = forward
        self.vae.Decoder.forward = dec
        return self

    def __exit__(self, *a):
        self.vae.VariationalAutoencoder.forward = self.f
        self.vae.Decoder.forward = self.d


def diverged(p, cfg):
    """Data in large units can throw the training off; it may then fail."""
    return cfg.scale > 1 and any(not all(np.isfinite(r[k]).all() for k in ("mu", "std", "last"))
                                 for r in p.passes)


def repeated(a):
    """Two rows of a that are the same, or None."""
    o = np.argsort(a[:, 0])
    for u, v in zip(o[:-1], o[1:]):
        if np.abs(a[u] - a[v]).max() < 1e-4:
            return int(u), int(v)


def judge(p, cfg, what):
    seen = []
    noises, clear = [], []
    for i, r in enumerate(p.passes):
        seen.append(r["kind"])
        if r["kind"] == "?":
            raise W.Violation("foreign-rows", f"{what}: pass {i} uses rows of neither split")
        if r["z"] is None:
            raise W.HarnessError("decoder not reached")
        eps = (r["z"] - r["mu"]) / np.maximum(r["std"], 1e-30)
        if r["kind"] == "train":
            if not r["drew"] or np.abs(eps).max() < 1e-6:
                raise W.Violation("no-noise", f"{what}: training step (pass {i}, sequence "
                                  f"{''.join(s[0] for s in seen)}) reconstructs without latent noise")
            if eps.size > 1 and len(np.unique(np.round(eps, 4))) == 1:
                raise W.Violation("stale-noise", f"{what}: pass {i} uses one noise value for all")
            if eps.ndim == 2 and eps.shape[0] > 1 and eps.size > 2 and \
                    np.abs(eps - eps[:1]).max() < 1e-4:
                raise W.Violation("stale-noise", f"{what}: pass {i} uses the same noise for every "
                                  "row")
            if eps.ndim == 2 and eps.shape[1] > 1 and eps.shape[0] > 1 and \
                    np.abs(eps - eps[:, :1]).max() < 1e-4:
                raise W.Violation("stale-noise", f"{what}: pass {i} uses the same noise for every "
                                  "latent")
            n = eps.shape[0] if eps.ndim == 2 else 0
            if 3 <= n <= 400 and np.isfinite(eps).all():
                rows, lat = repeated(eps), repeated(eps.T)
                if eps.shape[1] > 2 and rows or lat:
                    raise W.Violation("stale-noise", f"{what}: pass {i} uses the same noise for "
                                      + (f"latents {lat}" if lat else f"rows {rows}"))
            noises.append(eps)
            clear.append(eps[(r["std"] > 1e-3) & np.isfinite(eps)])
        else:
            if r["drew"]:
                raise W.Violation("validation-draws", f"{what}: validation (pass {i}) draws from "
                                  "the random generator")
            if np.abs(r["z"] - r["mu"]).max() > 1e-6:
                raise W.Violation("validation-noise", f"{what}: validation (pass {i}) does not use "
                                  "the posterior mean")
            nxt = p.passes[i + 1] if i + 1 < len(p.passes) else None
            if r["after"] != r["before"] or (nxt and nxt["before"] != r["after"]):
                raise W.Violation("validation-trains", f"{what}: parameters changed during or after "
                                  f"validation pass {i}")
    for a in range(len(noises)):
        for b in range(a):
            k = min(len(noises[a]), len(noises[b]))  # the last batch may be smaller
            u, v = noises[a][:k], noises[b][:k]
            if u.shape == v.shape and u.size > 2 and np.allclose(u, v, atol=1e-4):
                raise W.Violation("stale-noise", f"{what}: training steps {b} and {a} use the same "
                                  "noise")
    if len(noises) > 2 and noises[0].size <= 2 and all(
            x.shape == noises[0].shape and np.allclose(x, noises[0], atol=1e-4) for x in noises):
        raise W.Violation("stale-noise", f"{what}: all training steps use the same noise")
    e = np.concatenate([c.ravel() for c in clear]) if clear else np.zeros(0)
    if len(e) > 20:  # the noise of the posterior is standard normal
        n = len(e)
        for name, got, sd in (("mean", e.mean(), 1), ("variance", (e ** 2).mean() - 1, 2 ** 0.5)):
            if abs(got) > 7 * sd / n ** 0.5 + (0 if name == "mean" else 20 / n):
                raise W.Violation("noise-law", f"{what}: {n} noise values of the posterior, {name} "
                                  f"off by {got:.3g}")
    nt, nv = seen.count("train"), seen.count("valid")
    if nt < cfg.epochs or nv < cfg.epochs:
        raise W.Violation("missing-pass", f"{what}: {nt} training and {nv} validation passes in "
                          f"{cfg.epochs} epochs")
    # every row of the training split is used in every epoch, between validations
    return "".join(s[0] for s in seen)


def simulate(ch, w):
    import torch

    w.clock = fsim.Clock(ncfa.START)
    w.fs = fsim.FS(w.root)
    m = None
    for k in ch.many(1, 3, 0.45):
        cfg = ncfa.draw_cfg(ch, 5, 1, small=ch.bool(), long=0.04, big=0.15)
        if m is None or ch.bool(0.4):
            m = ncfa.make(cfg, "out/")
        ncfa.apply(m, cfg)
        if ch.bool(0.25):  # the object was left behind by a failed fit
            w.fs.arm([fsim.Fault(ch.draw(40), "error", "before", 28)])
            with util.quiet():
                r = util.attempt(ncfa.fit, m, cfg)
            if r[0] == "exc" and not w.fs.fired and cfg.scale <= 1:
                raise W.Violation("raised", f"{cfg}: {util.brief(r[1])}")
            w.fs.arm()
            w.nontrivial = True
        if ch.bool(0.1):  # or by a fit on bad data or settings
            if ncfa.spoilt_fit(m, cfg, ch.pick(ncfa.SPOILT))[0] == "exc":
                w.hit("fault:spoilt_fit")
                w.nontrivial = True
        if k and ch.bool(0.5):  # the user played with the trained network
            m.parameters.vae.train() if ch.bool() else m.parameters.vae.eval()
        with util.quiet(), Probe(cfg) as p:
            r = util.attempt(ncfa.fit, m, cfg)
        if r[0] == "exc":
            if diverged(p, cfg):
                w.hit("diverged")
                continue
            raise r[1]
        s = judge(p, cfg, f"fit {k} {cfg}")
        w.say(f"{cfg}: passes {s}")
        w.mark(cfg.key(), k, s)
        w.hit("training_steps", s.count("t"))
        w.hit("validation_passes", s.count("v"))
        if k or cfg.epochs > 1:
            w.nontrivial = True
        # the network handed over
        x = torch.tensor(ncfa.probe_for(cfg))
        vae = m.parameters.vae
        vae.eval()
        grad = ch.pick([torch.no_grad, torch.enable_grad, torch.inference_mode])
        with grad():
            a = [t.detach().numpy().copy() for t in vae(x)]
            torch.randn(3) if ch.bool() else None
            if ch.bool(0.3):  # trained a little further by hand, then evaluated again
                vae.train()
                vae(x)
                vae.eval()
            b = [t.detach().numpy().copy() for t in vae(x)]
        if not util.same(a, b):
            raise W.Violation("random-recon", f"{cfg}: the network reconstructs at random in "
                              f"evaluation mode ({grad.__name__}): {util.diff(a, b)}")
