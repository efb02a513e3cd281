"""Workload pieces shared by the properties."""
import contextlib
import copy
import io
import sys
import threading
import warnings

import numpy as np

from . import proc
from . import world as W


def rng(seed):
    return np.random.Generator(np.random.PCG64(seed))


def user_rng(seed):
    """A caller's generator: any kind of bit generator."""
    bg = (np.random.PCG64, np.random.PCG64, np.random.PCG64, np.random.MT19937, np.random.PCG64,
          np.random.Philox, np.random.PCG64DXSM, np.random.SFC64)[seed % 8]
    return np.random.Generator(bg(seed))


def make_data(seed, rows, cols, kind):
    """Deterministic dataset; kinds: mixed shared indep ties const nonlin."""
    g = rng(seed)
    x = g.standard_normal((rows, cols))
    if kind == "shared":
        x += 1.5 * g.standard_normal((rows, 1))
    elif kind == "mixed":
        k = max(1, cols // 2)
        w = g.standard_normal((k, cols)) * (g.random((k, cols)) < 0.6)
        x = 0.7 * x + g.standard_normal((rows, k)) @ w
    elif kind == "ties":
        x = np.round(x + g.standard_normal((rows, 1))).astype(float)
    elif kind == "nonlin":
        z = g.standard_normal((rows, 1))
        x = 0.3 * x + np.where(np.arange(cols) % 2, z ** 2, np.sin(2 * z))
    elif kind == "const" and cols:
        x[:, int(g.integers(cols))] = 1.25
    return x


def dressed(ch, x):
    """The same values in another memory form; returns (array, name)."""
    form = ch.weighted([("C", 5), ("F", 2), ("view", 2), ("ro", 1)])
    if form == "F":
        return np.asfortranarray(x), form
    if form == "view":
        big = np.full((2 * x.shape[0], x.shape[1] + 1), 7.5 if x.dtype.kind == "f" else 1, x.dtype)
        big[::2, 1:] = x
        return big[::2, 1:], form
    if form == "ro":
        y = x.copy()
        y.setflags(write=False)
        return y, form
    return x.copy(), form


def freeze(x):
    """Comparable, picklable copy of a value."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    return copy.deepcopy(x)


def same(a, b, tol=0.0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or (a.dtype == bool) != (b.dtype == bool):
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            if tol == 0:
                return bool(np.array_equal(a, b, equal_nan=True))
            return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return same(np.asarray(a), np.asarray(b), tol)
    return type(a) is type(b) and a == b


def diff(a, b):
    """Short description of how two values differ."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f"shapes {a.shape} and {b.shape}"
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub" and a.size:
            d = np.abs(a.astype(float) - b.astype(float))
            return f"{int((~(d <= 0)).sum())} of {a.size} entries differ, max {np.nanmax(d):.3g}"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"lengths {len(a)} and {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return f"item {i}: {diff(x, y)}"
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return f"{k}: {diff(a.get(k), b.get(k))}"
    return f"{str(a)[:80]!r} and {str(b)[:80]!r}"


class Guarded:
    """Arrays of a caller; ``check`` verifies they are bit-for-bit unchanged."""

    def __init__(self, **arrays):
        self.a = {k: v for k, v in arrays.items() if isinstance(v, np.ndarray)}
        self.copy = {k: (v.copy(), v.dtype, v.shape, v.strides) for k, v in self.a.items()}

    def check(self, when, kind="input-modified"):
        for k, v in self.a.items():
            c, dt, sh, st = self.copy[k]
            if v.dtype != dt or v.shape != sh or v.strides != st or \
                    v.tobytes() != c.tobytes():
                raise W.Violation(kind, f"the caller's {k} was changed {when}: {diff(v, c)}")


class _Quiet(io.StringIO):
    pass


@contextlib.contextmanager
def quiet():
    """Capture standard output (find_clique_min_cover prints).  Nested uses do
    nothing, so that threads can overlap inside one outer use."""
    if isinstance(sys.stdout, _Quiet):
        yield sys.stdout
        return
    old, sys.stdout = sys.stdout, _Quiet()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


@contextlib.contextmanager
def warned():
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        yield rec


def attempt(fn, *args, **kw):
    """("ok", value) or ("exc", exception). Simulator signals pass through."""
    try:
        return ("ok", fn(*args, **kw))
    except (W.Violation, W.HarnessError, W.SimDeadlock):
        raise
    except BaseException as e:
        return ("exc", e)


def in_thread(fn, *args):
    """The call, made by a thread of its own that is waited for."""
    out = []
    t = threading.Thread(target=lambda: out.append(attempt(fn, *args)))
    t.start()
    t.join()
    if not out:
        raise W.HarnessError("a thread ended without an outcome")
    if out[0][0] == "exc":
        raise out[0][1]
    return out[0][1]


def _solo(fn, args):
    r = attempt(fn, *args)
    if r[0] == "exc":
        return ("exc", type(r[1]).__name__, str(r[1])[:300])
    return ("ok", freeze(r[1]))


def solo(fn, *args):
    """What the call does in a fresh process: ("ok", v) or ("exc", type, text)."""
    return proc.unwrap(proc.run_child(_solo, fn, args))


def brief(e):
    return f"{type(e).__name__}: {str(e)[:160]}"
