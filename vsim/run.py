"""Run the simulations of one property, or replay one of them."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

real_time = time.monotonic

from vsim import choices, proc, seam  # noqa: E402
from vsim import world as W  # noqa: E402

WORKERS = int(os.environ.get("VSIM_WORKERS", "8"))
SCRATCH = None


# -- one simulated run ----------------------------------------------------------
def sim_seed(prop, seed, i):
    return f"{prop}/{seed}/{i}"


def sim_main(mod, src, root):
    """In a pristine forked process: one run. Returns a plain dict."""
    ch = choices.Choices(**src)
    w = W.cur()
    w.ch, w.root = ch, root
    os.makedirs(root)
    os.chdir(root)
    vio = None
    try:
        mod.simulate(ch, w)
    except W.Violation as e:
        vio = (e.kind, e.msg)
    except W.SimDeadlock as e:
        vio = ("hang", f"waits forever: {e}")
    except W.HarnessError:
        raise
    except BaseException as e:
        where = proc.medil_frame(e)
        if not where:
            raise
        vio = ("raised", f"{type(e).__name__}: {e} at {where}")
    w.fs = w.clock = w.pools = w.sched = w.optim = None
    return {"rec": ch.rec, "spans": ch.spans, "vio": vio, "title": "; ".join(map(str, w.title)),
            "digest": w.digest(), "n_events": len(w.events)}


_no = [0]


def run_one(mod, src, timeout=None):
    """Fork, run, clean up. Returns (Outcome, dict)."""
    _no[0] += 1
    root = os.path.join(SCRATCH, f"{os.getpid()}-{_no[0]}")
    parent = W.set_world(W.World(seed=0))
    try:
        o = proc.run_child(sim_main, mod, src, root, timeout=timeout or mod.TIMEOUT)
    finally:
        os.chdir(SCRATCH)
        shutil.rmtree(root, ignore_errors=True)
    if o.kind == "ok":
        r = o.value
    elif o.kind == "hang":
        r = {"rec": None, "spans": [], "vio": ("no-progress", o.text), "title": "", "digest": "",
             "n_events": 0}
    else:
        r = {"rec": None, "spans": [], "vio": None, "title": "", "digest": "", "n_events": 0,
             "harness": f"{o.kind}: {o.value} {o.text}"}
    r["events"] = [e[1:] if e and e[0] == "  " else e for e in parent.events]
    r["stats"] = dict(parent.stats)
    r["keys"] = parent.keys
    r["findings"] = parent.findings
    r["nontrivial"] = parent.nontrivial
    r["secs"] = parent.sim_seconds
    return r


# -- many runs over worker processes ----------------------------------------------
def worker(mod, prop, seed, k, total, deadline, wr):
    import pickle
    import struct

    for i in range(k, total, WORKERS):
        if real_time() > deadline:
            break
        r = run_one(mod, {"seed": sim_seed(prop, seed, i)})
        if r["vio"] is None and "harness" not in r:
            r["events"] = r["events"][:40] if i < 3 else []
            r["rec"] = r["rec"][:60] if i < 3 else []
        r["i"] = i
        d = pickle.dumps(r, 5)
        d = struct.pack("<Q", len(d)) + d
        while d:
            d = d[os.write(wr, d[:65536]):]


def run_many(mod, prop, seed, total, deadline):
    """Yields results as they come."""
    import pickle
    import select
    import struct

    bufs, pids = {}, []
    for k in range(min(WORKERS, total)):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                proc._die_with_parent()
                os.close(r)
                _no[0] = k * 10_000_000
                worker(mod, prop, seed, k, total, deadline, wr)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        pids.append(pid)
        bufs[r] = bytearray()
    try:
        while bufs:
            for fd in select.select(list(bufs), [], [])[0]:
                b = os.read(fd, 1 << 20)
                if not b:
                    os.close(fd)
                    del bufs[fd]
                    continue
                buf = bufs[fd]
                buf += b
                while len(buf) >= 8:
                    n = struct.unpack("<Q", buf[:8])[0]
                    if len(buf) < 8 + n:
                        break
                    r = pickle.loads(bytes(buf[8:8 + n]))
                    del buf[:8 + n]
                    yield r
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for p in pids:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass


# -- known findings ---------------------------------------------------------------
def known_findings(prop):
    out = {}
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            for e in json.load(f)["findings"]:
                if e.get("property") == prop and e.get("status") == "known":
                    out[e["signature"]] = e["what"]
    except FileNotFoundError:
        pass
    return out


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def minimise(mod, r, budget, secs):
    end = real_time() + secs
    kind = r["vio"][0]

    def fails(cand):
        if real_time() > end:
            return False, cand, []
        q = run_one(mod, {"replay": list(cand)}, timeout=20)
        return bool(q["vio"] and q["vio"][0] == kind and q["rec"] is not None), q["rec"], q["spans"]

    best, used = choices.shrink(r["rec"], r["spans"], fails, budget)
    return best, used


def report_violation(mod, prop, seed, tier, r):
    rep_dir = os.path.join(HERE, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    used = 0
    if r["rec"] is not None:
        best, used = minimise(mod, r, 250, 75 if tier == "quick" else 240)
        q = run_one(mod, {"replay": best})
        if not (q["vio"] and q["vio"][0] == r["vio"][0]):
            best, q = r["rec"], run_one(mod, {"replay": r["rec"]})
        src = {"replay": best}
    else:
        src = {"seed": sim_seed(prop, seed, r["i"])}
        q = run_one(mod, src, timeout=2 * mod.TIMEOUT)
    reproduced = bool(q["vio"] and q["vio"][0] == r["vio"][0])
    for _ in range(4):
        if reproduced:
            break
        src = {"seed": sim_seed(prop, seed, r["i"])}
        q = run_one(mod, src)
        reproduced = bool(q["vio"] and q["vio"][0] == r["vio"][0])
    if not reproduced:
        return None
    name = hashlib.sha256(json.dumps([prop, src, q["vio"][0]]).encode()).hexdigest()[:12]
    path = os.path.join(rep_dir, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump({
            "property": prop, "violation": {"kind": q["vio"][0], "what": q["vio"][1]},
            "source": src, "found_at": {"VERIF_SEED": seed, "run": r["i"]},
            "first_seen": {"what": r["vio"][1], "choices": r["rec"]},
            "minimisation_runs": used, "summary": q["title"],
            "event_digest": q["digest"], "trace": plain(q["events"][-400:]),
            "replay_with": f"./check.sh --replay {path}"}, f, indent=1)
        f.write("\n")
    return path, q


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d["property"])
    setup(mod)
    r = run_one(mod, d["source"])
    for e in r["events"]:
        print("  ", *e)
    if r["vio"]:
        print("summary:", r["title"])
        print("violation:", r["vio"][0], "-", r["vio"][1])
        same = r["digest"] == d.get("event_digest")
        print("event log identical to the recorded one:", same)
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("no violation", r.get("harness", ""))
    return 2 if "harness" in r else 0


def load(prop):
    mod = importlib.import_module(f"vsim.props.{prop.lower()}")
    for k, v in (("TIMEOUT", 60.0), ("QUICK", 400), ("THOROUGH", 8000), ("ASSUME", [])):
        if not hasattr(mod, k):
            setattr(mod, k, v)
    return mod


def setup(mod):
    if hasattr(mod, "setup"):
        mod.setup(SCRATCH)


def check(prop, tier, seed, total):
    t0 = real_time()
    mod = load(prop)
    setup(mod)
    total = total or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    cap = float(os.environ.get("VSIM_CAP", "330" if tier == "quick" else "5400"))
    known = known_findings(prop)
    stats, keys, secs = collections.Counter(), set(), 0.0
    digests, nontriv_digests, runs = {}, set(), 0
    samples, harness, vio, found = [], [], None, {}
    tb = real_time()
    for r in run_many(mod, prop, seed, total, tb + cap):
        runs += 1
        stats.update(r["stats"])
        keys |= r["keys"]
        secs += r["secs"]
        if "harness" in r:
            harness.append(f"run {r['i']}: {r['harness']}")
            continue
        digests[r["i"]] = r["digest"]
        if r["nontrivial"]:
            nontriv_digests.add(r["digest"])
        if r["i"] < 3:
            samples.append({"run": r["i"], "summary": r["title"], "first_choices": r["rec"],
                            "first_events": plain(r["events"][:25])})
        new = False
        for sig, text in r["findings"]:
            if sig in known:
                found.setdefault(sig, text)
            else:
                new = True
                r["vio"] = r["vio"] or (sig, text)
        if r["vio"] and vio is None:
            vio = r
            break
        del new
    batch = real_time() - tb
    # the same seeds again, in this process and in another order
    redo, mism = 0, []
    if vio is None and not harness:
        for i in sorted(digests, reverse=True)[-(6 if tier == "quick" else 60):]:
            q = run_one(mod, {"seed": sim_seed(prop, seed, i)})
            redo += 1
            if q["digest"] != digests[i]:
                mism.append(i)
    out = None
    rc = 0
    if vio is not None:
        out = report_violation(mod, prop, seed, tier, vio)
        if out is None:
            harness.append(f"violation of run {vio['i']} did not reproduce: {vio['vio']}")
            rc = 2
        else:
            path, q = out
            print(f"{prop}: {q['vio'][0]}: {q['vio'][1]}")
            print(f"  run: {q['title']}")
            print(f"VIOLATION property={prop} replay={path}")
            rc = 1
    elif harness:
        rc = 2
    for sig in sorted(found):
        print(f"KNOWN-FINDING: property={prop} {known[sig]}")
    for h in harness[:5]:
        print("harness error:", h, file=sys.stderr)
    if mism:
        print(f"warning: runs {mism} were not repeated identically", file=sys.stderr)
    wall = real_time() - t0
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontriv_digests),
            "rule": "one evaluation = one seeded simulated run; distinct = different event log; "
                    "non-trivial = " + mod.NONTRIVIAL,
            "samples": samples,
            "planned_runs": total,
            "simulated_runs_per_hour": round(runs / max(batch, 1e-9) * 3600),
            "seeds_per_hour": round(len(digests) / max(batch, 1e-9) * 3600),
            "simulated_seconds": round(secs, 3),
            "faults_fired": faults,
            "counters": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
            "distinct_situations": len(keys),
            "situation_measure": mod.SITUATION,
            "rerun_for_determinism": redo,
            "rerun_differences": mism,
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
            "known_findings_seen": sorted(found),
            "harness_errors": len(harness),
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(wall, 2),
        "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)
    if rc == 0:
        print(f"{prop}: held on {runs} simulated runs ({len(nontriv_digests)} distinct and "
              f"non-trivial, {len(keys)} situations), {wall:.0f} s")
    return rc


def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--one", help="seed string or run number: run once and print the events")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--digests", help="write the event digests of the runs to this file")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix="vsim-"))
    me = os.getpid()
    rc = 2
    try:
        seam.boot()
        if a.selftest:
            print("simulator ready, medil imported from", seam.REPO)
            rc = 0
        elif a.replay:
            rc = replay(os.path.abspath(a.replay))
        elif a.one is not None:
            mod = load(a.property)
            setup(mod)
            r = run_one(mod, {"seed": sim_seed(a.property, seed, int(a.one))})
            for e in r["events"]:
                print("  ", *e)
            print(r["title"], r["vio"], r.get("harness"), r["digest"], r["findings"])
            rc = 0
        elif a.digests:
            mod = load(a.property)
            setup(mod)
            res = {r["i"]: (r["digest"], str(r["vio"]), r.get("harness")) for r in
                   run_many(mod, a.property, seed, a.runs, real_time() + 3600)}
            with open(a.digests, "w") as f:
                json.dump(sorted(res.items()), f)
            rc = 0
        else:
            rc = check(a.property, tier, seed, a.runs)
    except SystemExit as e:
        print(e, file=sys.stderr)
    except BaseException:
        traceback.print_exc()
    finally:
        if os.getpid() == me:
            mod = sys.modules.get("vsim.props." + (a.property or "").lower())
            if mod is not None and hasattr(mod, "teardown"):
                mod.teardown()
            os.chdir("/")
            shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
