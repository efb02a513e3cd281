"""Put the simulator behind every seam, then import medil from the repository."""
import os
import sys

REPO = os.path.realpath(os.environ.get("VSIM_REPO", "/repo"))
os.environ.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                  CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", NUMBA_NUM_THREADS="1", NUMBA_THREADING_LAYER="workqueue")
sys.dont_write_bytecode = True
os.environ["TZ"] = "UTC"


def boot(warm=True):
    """Import heavy dependencies for real, install the seams, import medil."""
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np
    import scipy.optimize
    import scipy.spatial.distance
    import scipy.stats
    import torch
    import pandas, seaborn, networkx, matplotlib.pyplot  # noqa
    import sklearn.model_selection
    import sklearn.preprocessing
    import dcor
    from dcor.independence import distance_correlation_t_test

    torch.set_num_threads(1)
    if warm:  # compile / lazily import third-party code once, before forking
        x = np.random.default_rng(0).random(12)
        distance_correlation_t_test(x, x[::-1].copy())
        net = torch.nn.Linear(3, 3)
        opt = torch.optim.AdamW(net.parameters())
        sch = torch.optim.lr_scheduler.StepLR(opt, 50)
        ds = torch.utils.data.TensorDataset(torch.ones(4, 3), torch.ones(4, 0))
        for a, _ in torch.utils.data.DataLoader(ds, batch_size=2):
            net(a).sum().backward()
            opt.step()
        sch.step()
        torch.inverse(torch.eye(2)); torch.det(torch.eye(2)); torch.eye(2).norm("nuc")
        import io
        b = io.BytesIO(); torch.save(net, b); b.seek(0); torch.load(b, weights_only=False)
        sklearn.model_selection.train_test_split(np.ones((6, 2)), train_size=0.7, random_state=0)
        sklearn.preprocessing.StandardScaler().fit_transform(np.ones((6, 2)))
        scipy.optimize.minimize(lambda v: (v ** 2).sum(), np.ones(2))
    from . import fsim, msim, psim, tsim

    tsim.PREFIX = os.path.join(REPO, "medil") + os.sep
    fsim.install()
    psim.install()
    msim.install()
    tsim.install()
    _entropy()
    sys.path.insert(0, REPO)
    import medil
    import medil.ecc_algorithms, medil.evaluate, medil.examples, medil.graph  # noqa
    import medil.independence_testing, medil.models, medil.sample, medil.vae  # noqa

    if not os.path.realpath(medil.__file__).startswith(REPO + os.sep):
        raise SystemExit(f"medil imported from {medil.__file__}, not {REPO}")
    import random

    random.seed(12345)
    np.random.seed(12345)
    torch.manual_seed(12345)
    return medil


def _entropy():
    """Operating-system entropy as a simulated component."""
    import secrets

    import numpy.random.bit_generator as bg

    from . import world as W

    real_bits, real_urandom = secrets.randbits, os.urandom

    def randbits(k):
        e = W.cur().entropy
        return real_bits(k) if e is None else e.getrandbits(k)

    def urandom(n):
        e = W.cur().entropy
        return real_urandom(n) if e is None else e.randbytes(n)

    bg.randbits = randbits
    secrets.randbits = randbits
    os.urandom = urandom
