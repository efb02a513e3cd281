"""Numerical optimiser and random generators as simulated components."""
import threading

import numpy as np
import scipy.optimize

from . import world as W


last = threading.local()  # x0: starting point of this thread's latest optimisation
# cap: limit on the iterations of this thread's optimisations


class Optim:
    """Plan: run number -> fault for calls of scipy.optimize.minimize made by medil."""

    def __init__(self, plan=()):
        self.plan = dict(plan)
        self.calls = []


def install():
    real = scipy.optimize.minimize

    def minimize(*a, **k):
        x0 = a[1] if len(a) > 1 else k.get("x0")
        last.x0 = None if x0 is None else np.array(x0, float)
        o = getattr(W.cur(), "optim", None)
        if getattr(last, "cap", None):
            k["options"] = {**(k.get("options") or {}), "maxiter": last.cap}
        if o is None:
            return real(*a, **k)
        n = len(o.calls)
        f = o.plan.get(n)
        o.calls.append(None)
        if f and f["kind"] == "raise":
            W.cur().hit("fault:optimizer_raise")
            from .psim import exc_of

            raise exc_of(f["exc"])
        if f and f["kind"] == "raise_inside":
            fun = a[0] if a else k["fun"]
            left = [f["at"]]

            def bad(x, *args):
                left[0] -= 1
                if left[0] < 0:
                    W.cur().hit("fault:optimizer_raise")
                    from .psim import exc_of

                    raise exc_of(f["exc"])
                return fun(x, *args)

            if a:
                a = (bad,) + tuple(a[1:])
            else:
                k["fun"] = bad
        if f and f["kind"] == "cut":
            W.cur().hit("fault:optimizer_cut")
            opts = dict(k.get("options") or {})
            opts["maxiter"] = f["at"]
            k["options"] = opts
        r = real(*a, **k)
        if f and f["kind"] == "flag":
            W.cur().hit("fault:optimizer_flag")
            r.success = False
            r.status = 2
            r.message = f["msg"]
        o.calls[n] = (bool(r.success), str(r.message), np.array(r.x, copy=True), f, float(r.fun))
        return r

    scipy.optimize.minimize = minimize


class AdvGenerator(np.random.Generator):
    """A random generator whose draws are legal but biased to extremes.

    ``mood`` 0 is the ordinary generator.  Every draw it returns is a possible
    outcome of the distribution asked for.
    """

    def __init__(self, seed, mood, rate=0.5):
        super().__init__(np.random.PCG64(seed))
        self.mood, self.rate = mood, rate
        self.aux = np.random.Generator(np.random.PCG64(seed + 77))
        self.count = 0

    def _ext(self):
        self.count += 1
        if self.mood == 0:
            return None
        if self.aux.random() > self.rate:
            return None
        W.cur().hit("fault:extreme_draw")
        return {1: 0, 2: 1, 3: int(self.aux.integers(2))}[self.mood]

    def random(self, size=None, *a, **k):
        e = self._ext()
        r = super().random(size, *a, **k)
        if e is None:
            return r
        v = 0.0 if e == 0 else 1.0 - 2.0 ** -53
        if size is None:
            return v
        if self.mood == 3:
            m = self.aux.random(np.shape(r)) < 0.5
            r = np.where(m, 0.0, 1.0 - 2.0 ** -53)
        else:
            r = np.full_like(r, v)
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(np.broadcast(np.asarray(low), np.asarray(high)).shape or None if size is None else size)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        r = super().integers(low, high, size, dtype, endpoint)
        e = self._ext()
        if e is None or size is not None:
            return r
        lo, hi = (0, low) if high is None else (low, high)
        hi = hi if endpoint else hi - 1
        return type(r)(lo if e == 0 else hi) if not isinstance(r, np.ndarray) else r

    def permutation(self, x, axis=0):
        r = super().permutation(x, axis)
        e = self._ext()
        if e is None:
            return r
        base = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
        return base.copy() if e == 0 else np.flip(base, axis=axis).copy()

    def permuted(self, x, *, axis=None, out=None):
        if out is not None:
            return super().permuted(x, axis=axis, out=out)
        r = super().permuted(x, axis=axis)
        e = self._ext()
        if e is None:
            return r
        x = np.asarray(x)
        return x.copy() if e == 0 else np.flip(x, axis=axis).copy()

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        r = super().choice(a, size, replace, p, axis, shuffle)
        e = self._ext()
        if e is None or not replace or p is not None or np.ndim(a) > 1:
            return r
        seq = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        v = seq[0] if e == 0 else seq[-1]
        return v if size is None else np.full_like(r, v)
