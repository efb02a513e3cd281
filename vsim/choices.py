"""The single source of decisions of a simulated run.

Every decision (operations, data seeds, schedules, fault points) is one call of
``Choices.draw``.  A run is therefore a pure function of the list of drawn
integers and the code under test: recording the list is recording the run, and
shrinking the list is shrinking the run.  0 always means the simplest choice.
"""
import contextlib
import random


class Choices:
    def __init__(self, seed=None, replay=None):
        self.rng = None if replay is not None else random.Random(seed)
        self.replay = replay
        self.rec = []
        self.spans = []

    def draw(self, n):
        """Integer in [0, n)."""
        assert n >= 1
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.rec)
            v = min(self.replay[i], n - 1) if i < len(self.replay) else 0
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, p=0.5):
        return self.draw(1000) >= 1000 - int(round(1000 * p))

    def unit(self):
        return self.draw(1 << 16) / (1 << 16)

    def pick(self, seq):
        seq = list(seq)
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(value, integer weight), ...]; the first is the simplest."""
        t = self.draw(sum(w for _, w in pairs))
        for v, w in pairs:
            if t < w:
                return v
            t -= w
        raise AssertionError

    def seed(self):
        return self.draw(1 << 16)

    def gap(self, maxlog=10):
        """Heavy-tailed positive integer (log-uniform)."""
        e = self.draw(maxlog + 1)
        return (1 << e) + self.draw(1 << e) if e else 1

    def perm(self, n):
        idx = list(range(n))
        out = []
        while idx:
            out.append(idx.pop(self.draw(len(idx))))
        return out

    @contextlib.contextmanager
    def span(self):
        a = len(self.rec)
        yield
        self.spans.append((a, len(self.rec)))

    def many(self, lo, hi, p=0.8):
        """Iterate lo..hi times; each iteration is a deletable span."""
        n = 0
        while n < hi:
            a = len(self.rec)
            if n >= lo and not self.bool(p):
                return
            yield n
            self.spans.append((a, len(self.rec)))
            n += 1


def shrink(rec, spans, fails, budget):
    """Greedy minimisation. ``fails(list) -> (bool, used_list, spans)``."""
    best, spans = list(rec), list(spans)
    used = 0

    def attempt(cand):
        nonlocal best, spans, used
        if used >= budget or cand == best:
            return False
        used += 1
        ok, rec2, spans2 = fails(cand)
        if ok:
            rec2 = list(rec2)
            while rec2 and rec2[-1] == 0:
                rec2.pop()
            if (len(rec2), sum(rec2)) < (len(best), sum(best)):
                best, spans = rec2, list(spans2)
                return True
        return False

    improved = True
    while improved and used < budget:
        improved = False
        # drop whole operations / faults
        for a, b in sorted(set(spans), key=lambda s: s[0] - s[1]):
            if b <= len(best) and attempt(best[:a] + best[b:]):
                improved = True
                break
        if improved:
            continue
        # drop or zero chunks
        size = max(1, len(best) // 2)
        while size >= 1 and used < budget:
            i = 0
            while i < len(best) and used < budget:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                elif any(best[i:i + size]) and attempt(
                    best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                ):
                    improved = True
                    i += size
                else:
                    i += size
            size //= 2
        # lower single values
        for i in range(len(best)):
            if used >= budget or i >= len(best):
                break
            lo, hi = 0, best[i]
            while lo < hi and used < budget and i < len(best):
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    hi = min(mid, best[i])
                else:
                    lo = mid + 1
    return best, used
