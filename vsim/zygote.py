"""Other interpreters (own hash seed, own address space), booted once; every
request is answered by a fresh fork of one of them."""
import os
import pickle
import random
import signal
import socket
import struct
import subprocess
import sys
import time

HASH_SEEDS = ["1", "7777", "2147483648", "31337"]
LANGS = ["C", "C.UTF-8", "POSIX", "C"]
_real_mono = time.monotonic


class Farm:
    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "zygotes")
        os.makedirs(self.dir)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.procs = []
        for i, h in enumerate(HASH_SEEDS):
            env = dict(os.environ, PYTHONHASHSEED=h, LC_ALL=LANGS[i], PYTHONPATH=here)
            self.procs.append(subprocess.Popen(
                [sys.executable, "-m", "vsim.zygote", self.path(i)], env=env, cwd=self.dir,
                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                stderr=open(self.path(i) + ".err", "w")))
        end = _real_mono() + 180
        for i, p in enumerate(self.procs):
            while not os.path.exists(self.path(i) + ".up"):
                if p.poll() is not None or _real_mono() > end:
                    raise RuntimeError("interpreter did not start: " +
                                       open(self.path(i) + ".err").read()[-2000:])
                time.sleep(0.05)

    def path(self, i):
        return os.path.join(self.dir, f"z{i}")

    def ask(self, i, request, timeout=120):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        s.connect(self.path(i))
        d = pickle.dumps(request, 5)
        s.sendall(struct.pack("<Q", len(d)) + d)
        n = struct.unpack("<Q", _exact(s, 8))[0]
        r = pickle.loads(_exact(s, n))
        s.close()
        return r

    def stop(self):
        for p in self.procs:
            p.kill()
            p.wait()


def _exact(s, n):
    b = bytearray()
    while len(b) < n:
        c = s.recv(min(1 << 20, n - len(b)))
        if not c:
            raise EOFError("no answer")
        b += c
    return bytes(b)


def execute(req):
    """In a fresh process: set up its surroundings, run the program."""
    from . import fsim, ops, psim, util
    from . import world as W

    w = W.set_world(W.World())
    os.makedirs(req["cwd"], exist_ok=True)
    os.chdir(req["cwd"])
    os.environ["TZ"] = req["tz"]
    time.tzset()
    w.clock = fsim.Clock(req["clock"], req.get("stalls", ()), req.get("step", 0.013))
    w.entropy = random.Random(req["entropy"])
    w.pools = psim.PoolSim(req["cpus"], req["pool_seed"], req["mode"], policy=req["policy"])
    with util.quiet():
        return ops.run(req["prog"], req["seed"])


def main(path):
    from . import proc, seam

    proc._die_with_parent()
    seam.boot()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    with open(path + ".up", "w") as f:
        f.write("up\n")
    while True:
        c, _ = srv.accept()
        if os.fork():
            c.close()
            continue
        srv.close()
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        try:
            try:
                n = struct.unpack("<Q", _exact(c, 8))[0]
                out = ("ok", execute(pickle.loads(_exact(c, n))))
            except BaseException as e:
                import traceback

                out = ("failed", f"{e!r}\n{traceback.format_exc()}")
            d = pickle.dumps(out, 5)
            c.sendall(struct.pack("<Q", len(d)) + d)
        finally:
            os._exit(0)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main(sys.argv[1])
