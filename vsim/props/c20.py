"""C20: a graph export is complete whenever it returns."""
import collections
import os

import numpy as np

from vsim import fsim, ncfa, proc, util
from vsim import world as W

QUICK, THOROUGH = 1800, 80000
NONTRIVIAL = "a disk fault fired, or an older file was replaced, or the graph changed between exports"
SITUATION = "(graph size and kind, older file, operation and fault, outcome)"
REAL = ["medil.graph", "process end without cleanup (_exit right after the export returns; buffered "
        "data is lost)", "files in a scratch directory"]
STUB = ["disk operations (failing, short, torn, slow)"]
ASSUME = ["the end of the process, not of the machine: bytes handed to the operating system survive",
          "the order of vertex lines and of edge lines is not fixed"]


def content(a):
    """(number of vertices, vertex lines, edge lines) the file has to hold."""
    n = len(a)
    deg = collections.Counter((i, float(np.sum(a[i]))) for i in range(n))
    edges = collections.Counter((i, j) for i in range(n) for j in range(i, n) if a[i, j])
    return n, deg, edges


def check_file(path, a, what):
    data = ncfa.read(path)
    n, deg, edges = content(a)
    try:
        lines = data.decode().splitlines()
        head = lines[0].split()
        if len(head) != 1 or int(head[0]) != n:
            raise ValueError(f"first line {lines[0]!r}")
        v = [s.split() for s in lines[1:n + 1]]
        got = collections.Counter((int(s[0]), float({"True": 1, "False": 0}.get(s[1], s[1])))
                                  for s in v if len(s) == 2 or [][0])
        e = [s.split() for s in lines[n + 1:]]
        ge = collections.Counter((int(s[0]), int(s[1])) for s in e if len(s) == 2 or [][0])
    except (ValueError, IndexError, UnicodeDecodeError) as x:
        raise W.Violation("malformed", f"{what}: {len(data)} bytes, {x}: {data[-60:]!r}")
    if got != deg:
        d = sorted((got - deg) + (deg - got))[:4]
        raise W.Violation("vertices", f"{what}: vertex lines differ from the graph at {d}")
    if ge != edges:
        d = sorted((ge - edges) + (edges - ge))[:4]
        raise W.Violation("edges", f"{what}: edge lines differ from the graph at {d} "
                          f"({sum(ge.values())} lines, {sum(edges.values())} edges)")


def draw_graph(ch):
    n = ch.weighted([(ch.int(1, 8), 10), (ch.int(20, 45), 4), (90, 2), (0, 2),
                     (ch.int(100, 180), 2), (ch.int(260, 300), 1)])
    p = ch.pick([0.5, 0.1, 1.0, 0.0] if n < 100 else [0.02, 0.0, 0.005, 0.2])
    g = util.rng(ch.seed())
    u = np.triu(g.random((n, n)) < p, 1)
    u = u | u.T
    diag = ch.weighted([("ones", 4), ("zero", 2), ("mixed", 2)])
    if n and ch.bool(0.2):  # one vertex has all the others as neighbours
        u[0] = u[:, 0] = True
        u[0, 0] = False
    u |= np.diag({"ones": np.ones(n, bool), "zero": np.zeros(n, bool),
                  "mixed": g.random(n) < 0.5}[diag])
    u = u.astype(ch.weighted([(int, 4), (bool, 2), (np.uint8, 1)]))
    if u.dtype == int and ch.bool(0.25):  # numbers of shared sources, say
        f = g.integers(1, 5, (n, n))
        u *= np.triu(f) + np.triu(f, 1).T
        diag += " weighted"
    return u, f"{n} vertices {p} {diag}"


def session(jobs, root, faults):
    """One process: exports one after the other on a simulated disk; ends abruptly."""
    from medil.graph import UndirectedDependenceGraph

    w = W.cur()
    w.clock = fsim.Clock()
    w.fs = fsim.FS(root)
    out = []
    for k, (a, name, edit) in enumerate(jobs):
        u = UndirectedDependenceGraph(a.copy())
        if edit == "aux":
            u.make_aux()
        elif edit == "add":
            u.add_edges(np.array([[0, len(a) - 1]]))
        elif edit == "rm":
            u.rm_edges(np.array([[0, len(a) - 1], [0, 1]]))
        elif edit == "copy":
            u.make_aux()
            u = u.reducible_copy()
            u.max_num_verts = len(a)
        before = (u.adj_matrix.copy(), u.num_edges, u.num_vertices)
        last = k == len(jobs) - 1
        w.fs.arm(faults if last else ())
        r = util.attempt(u.convert_to_nde, name) if name is not None else \
            util.attempt(u.convert_to_nde)
        if not util.same(list(before), [u.adj_matrix, u.num_edges, u.num_vertices]):
            raise W.Violation("graph-changed", f"exporting changed the graph {a.shape}")
        out.append({"adj": before[0], "exc": util.brief(r[1]) if r[0] == "exc" else None,
                    "trace": list(w.fs.trace), "fired": list(w.fs.fired)})
    return out


def simulate(ch, w):
    jobs = []
    names = ["g", os.path.join(w.root, "abs"), os.path.join("sub", "x.y"), "with space", None]
    os.makedirs("sub")
    for k in ch.many(1, 3, 0.4):
        a, text = draw_graph(ch)
        n = len(a)
        edit = ch.weighted([(None, 4)] + ([("aux", 1), ("add", 1), ("rm", 1), ("copy", 1)]
                                          if n > 2 and a.any() and np.triu(a, 1).any() else []))
        if jobs and ch.bool(0.6):
            name = jobs[-1][1]
        else:
            name = ch.pick(names)
        jobs.append((a, name, edit))
    paths = [os.path.abspath(("temp" if j[1] is None else j[1]) + ".nde") for j in jobs]
    old = ch.bool(0.4)
    if old:
        data = b"7\n" * ch.pick([1, 50, 30000])
        with fsim.real["open"](paths[-1], "wb") as f:
            f.write(data)
    ref = proc.unwrap(proc.run_child(session, jobs, w.root, []))
    for r, p, j in zip(ref, paths, jobs):
        if r["exc"]:
            raise W.Violation("raised", f"exporting {j[0].shape} {j[2]}: {r['exc']}")
    # the last export to each file counts
    for p in set(paths):
        k = max(i for i, q in enumerate(paths) if q == p)
        check_file(p, ref[k]["adj"], f"{text} {jobs[k][2]} as {os.path.basename(p)}, "
                   f"{'older file, ' if old else ''}process ended right after")
    w.nontrivial = old or len(jobs) > 1
    marks = []
    for _ in ch.many(0, 3, 0.75):
        trace = ref[-1]["trace"]
        if not trace:
            break
        if ch.bool(0.75):
            f, kind, name = ncfa.draw_error(ch, trace)
            faults = [f]
            if ch.bool(0.3):
                faults += ncfa.draw_benign(ch, len(trace))
        else:
            kind, faults = "benign", ncfa.draw_benign(ch, len(trace))
        o = proc.run_child(session, jobs[-1:], w.root, faults)
        r = proc.unwrap(o)[0]
        marks.append((kind, faults[0].eno if faults else None, bool(r["exc"])))
        what = f"{text} with {faults} ({r['fired']})"
        hard = any(x[0] == "error" for x in r["fired"])
        w.hit("fault_raised" if r["exc"] else "fault_survived")
        if r["fired"]:
            w.nontrivial = True
        if r["exc"] is None:
            check_file(paths[-1], r["adj"], what)
        elif not hard:
            raise W.Violation("raised", f"{what}: {r['exc']}")
    # once the disk is healthy again
    if marks:
        r = proc.unwrap(proc.run_child(session, jobs[-1:], w.root, []))[0]
        if r["exc"]:
            raise W.Violation("raised", f"{text} on a healthy disk: {r['exc']}")
        check_file(paths[-1], r["adj"], f"{text} again after {marks}")
    w.mark(text, jobs[-1][2], old, marks)
    w.say(f"{text} {[j[2] for j in jobs]} older file {old} faults {marks}")
