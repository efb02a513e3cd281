"""State of the simulated run that is current in this process."""
import collections
import hashlib
import threading


class Violation(Exception):
    """The property is broken. ``kind`` is the class kept during minimisation."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The machinery (not medil) did something it should not."""


class SimDeadlock(BaseException):
    """No event can ever wake the caller again."""


class World:
    def __init__(self, ch=None, root=None, seed=0):
        self.ch = ch
        self.root = root
        self.seed = seed
        self.children = 0
        self.events = []
        self.stats = collections.Counter()
        self.fs = None
        self.clock = None
        self.pools = None
        self.sched = None
        self.optim = None
        self.findings = []  # (signature, text) of defects listed as known
        self.keys = set()  # digests of the distinct situations reached
        self.nontrivial = False
        self.title = []  # readable summary of the run
        self.entropy = None  # stands in for the entropy of the operating system
        self.sim_seconds = 0.0

    # logging never draws from the choices and never reads a real clock
    def ev(self, *what):
        self.events.append(what)

    def hit(self, name, n=1):
        self.stats[name] += n

    def mark(self, *what):
        """A distinct situation reached (measure of coverage)."""
        self.keys.add(hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    def say(self, text):
        self.title.append(text)
        self.events.append(("say", text))

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
            h.update(b"\n")
        return h.hexdigest()


CURRENT = World()


def set_world(w):
    global CURRENT
    CURRENT = w
    return w


def cur():
    return CURRENT


real_lock = threading.Lock
