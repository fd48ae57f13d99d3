"""C27: what Python calls return is a value of its own, arguments are left alone, and nothing accumulates."""
import os
import sys

if os.environ.get("PYTHONMALLOC") != "malloc":
    # every Python object is then a heap block the sanitizer accounts for
    os.environ["PYTHONMALLOC"] = "malloc"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import copy
import ctypes
import gc
import warnings

import networkx as nx
import numpy as np
import pymatching
import rustworkx as rx
import scipy.sparse as sp
import stim
from pymatching import Matching

from pyvh import count, evaluated, fail, nontrivial, note, run_cases, sample

warnings.simplefilter("ignore")
try:
    _live = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    _live.restype = ctypes.c_size_t
except AttributeError:
    _live = None


def live():
    gc.collect()
    sys._clear_type_cache()  # it keeps strong references to attribute names
    return _live()


def plain(x):
    """A deep, comparable copy of a returned value."""
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    if isinstance(x, dict):
        return ("d",) + tuple(sorted(((repr(k), plain(v)) for k, v in x.items())))
    if isinstance(x, (set, frozenset)):
        return ("s",) + tuple(sorted(map(repr, x)))
    if isinstance(x, nx.Graph):
        return ("nx", plain(dict(x.nodes(data=True))), tuple((min(u, v), max(u, v), plain(d)) for u, v, d in x.edges(data=True)))
    if isinstance(x, Matching):
        return ("m", plain(x.edges()), plain(x.boundary), x.num_fault_ids, x.num_nodes)
    return repr(x)


def scribble(x, r):
    """Changes a returned value as far as it can be changed."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x += 1
    elif isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, r)
        x.clear()
    elif isinstance(x, set):
        x.add(10 ** 6)
    elif isinstance(x, list):
        for v in x:
            scribble(v, r)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scribble(v, r)
    elif isinstance(x, nx.Graph):
        for u, v, d in x.edges(data=True):
            scribble(d, r)
        x.clear()


def make(r):
    """Returns (function building a Matching, description, what it was built from)."""
    kind = r.randrange(5)
    n = r.randint(2, 9)
    if kind == 0:
        es = []
        for i in range(n - 1):
            es.append((i, i + 1, {i} if r.random() < 0.8 else set(), r.choice([1, 2.5, 3, -1 if r.random() < 0.1 else 4]), r.choice([0.1, 0.2, None]) if r.random() < 0.3 else 0.1))
        for i in range(n):
            if i == 0 or r.random() < 0.3:
                es.append((i, None, {n + i}, r.uniform(1, 3), 0.05))
        big = r.choice([0, 0, 70, 3000])
        bnd = {n + 1} if r.random() < 0.3 else set()

        def f():
            m = Matching()
            for u, v, ids, w, p in es:
                kw = dict(fault_ids=ids, weight=w)
                if p is not None:
                    kw["error_probability"] = p
                if v is None:
                    m.add_boundary_edge(u, **kw)
                else:
                    m.add_edge(u, v, **kw)
            if bnd:
                m.add_edge(0, n + 1, weight=2, error_probability=0.1)
                m.set_boundary_nodes(bnd)
            m.ensure_num_fault_ids(big)
            return m
        return f, ("edges", es, bnd, big), {}
    if kind == 1:
        H = np.zeros((n, n + 1), dtype=np.uint8)
        for k in range(n + 1):
            if k < n:
                H[k, k] = 1
            if k > 0:
                H[k - 1, k] = 1
        c = sp.csc_matrix(H)
        if r.random() < 0.3:
            c = zeros_in(c, r)
        form = r.randrange(4)
        if form == 1:
            c = c.tocsr()
        elif form == 2:
            c = np.asarray(c.toarray())
        elif form == 3 and hasattr(sp, "csc_array"):
            c = sp.csc_array(c)
        reps = r.choice([None, None, 2, 4])
        kw = {}
        if reps:
            kw["repetitions"] = reps
        w = np.array([r.uniform(0.5, 3) for _ in range(n + 1)])
        if r.random() < 0.5:
            kw["error_probabilities"] = np.full(n + 1, 0.1)
        if r.random() < 0.4:
            kw["faults_matrix"] = sp.csc_matrix(np.ones((2, n + 1), dtype=np.uint8))
        if r.random() < 0.3:
            w = list(w)
        if reps and r.random() < 0.5:
            kw["timelike_weights"] = np.full(n, 2.0)
            kw["measurement_error_probabilities"] = np.full(n, 0.1)
        return (lambda: Matching(c, weights=w, **kw)), ("matrix", n, reps, form), dict(kw, H=c, weights=w)
    if kind == 2:
        corr = r.random() < 0.5
        text = "".join(f"error({r.uniform(0.01, 0.2):.4f}) D{i} D{i + 1} L{i % 3}\n" for i in range(n - 1)) + "error(0.1) D0 L0\n"
        if n > 3:
            text += f"error(0.02) D0 D1 L0 ^ D2 D3 L{2 % 3}\n"
        d = stim.DetectorErrorModel(text)
        return (lambda: Matching(d, enable_correlations=corr)), ("dem", text, corr), {}
    g = nx.path_graph(n) if kind == 3 else None
    if g is not None:
        for u, v, d in g.edges(data=True):
            d.update(fault_ids={u} if r.random() < 0.7 else u, weight=r.uniform(1, 2), error_probability=0.1)
        g.nodes[n - 1]["is_boundary"] = True
        return (lambda: Matching(g)), ("networkx", n), dict(graph=g)
    g = rx.PyGraph()
    g.add_nodes_from([{} for _ in range(n)])
    g.extend_from_weighted_edge_list([(i, i + 1, dict(fault_ids={i}, weight=r.uniform(1, 2), error_probability=0.1)) for i in range(n - 1)])
    g[0]["is_boundary"] = True
    return (lambda: Matching(g)), ("rustworkx", n), dict(graph=g)


class Args:
    """Arguments of one scripted call, kept so that they can be compared with what they were."""

    def __init__(self, **kw):
        self.kw = kw
        self.was = copy.deepcopy(kw)

    def check(self, what):
        for k in self.kw:
            if plain_arg(self.kw[k]) != plain_arg(self.was[k]):
                fail("argument", f"{what} changed its argument {k} from {self.was[k]} to {self.kw[k]}")


def plain_arg(x):
    if sp.issparse(x):
        # the matrix it stands for: explicit zeros may be dropped
        return (x.shape, plain(np.asarray(x.toarray())), str(x.dtype), x.format)
    if isinstance(x, rx.PyGraph):
        return (plain([x[i] for i in x.node_indices()]), plain(list(x.weighted_edge_list())))
    return plain(x)


def zeros_in(M, r):
    """The same sparse matrix with some zeros stored explicitly."""
    M = M.tocoo()
    k = r.randint(1, 4)
    rows = np.concatenate([M.row, [r.randrange(M.shape[0]) for _ in range(k)]])
    cols = np.concatenate([M.col, [r.randrange(M.shape[1]) for _ in range(k)]])
    out = sp.csc_matrix(M.shape, dtype=np.uint8)
    data = np.concatenate([M.data, np.zeros(k, dtype=np.uint8)]).astype(np.uint8)
    seen = set()
    keep = []
    for i, (a, b) in enumerate(zip(rows, cols)):
        if (a, b) not in seen:
            seen.add((a, b))
            keep.append(i)
    out = sp.coo_matrix((data[keep], (rows[keep], cols[keep])), shape=M.shape).tocsc()
    return out


SCRATCH = os.environ.get("VH_SCRATCH", ".")
GOOD_DEM, BAD_DEM, GOOD_CIRCUIT, BAD_CIRCUIT = (os.path.join(SCRATCH, "c27_" + x) for x in ("good.dem", "bad.dem", "good.stim", "bad.stim"))
MODEL = "error(0.1) D0 L0\nerror(0.2) D0 D1\nerror(0.1) D1 ^ D0 L0\n"
for path, text in ((GOOD_DEM, MODEL), (BAD_DEM, MODEL + "no_such_instruction(0.1) D0\n"),
                   (GOOD_CIRCUIT, str(stim.Circuit(MODEL, ""))), (BAD_CIRCUIT, "#gauge\n" + str(stim.Circuit(MODEL, "")))):
    with open(path, "w") as f:
        f.write(text)


def files_open():
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            n += "c27_" in os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return n


def quiet_cli(args):
    keep = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        return pymatching.cli(command_line_args=args)
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.close(null)


def script(r, m):
    """A list of (name, call taking a Matching and its Args, Args)."""
    n, nd = m.num_nodes, m.num_detectors
    ops = []

    def syn(extra=0):
        k = r.randrange(4)
        z = np.array([r.random() < 0.4 for _ in range(nd)], dtype=np.uint8)
        if k == 1:
            return list(map(int, z))
        if k == 2:
            return z.astype(r.choice([bool, np.int64, np.float64, np.int8]))
        return z

    for _ in range(r.randint(3, 9)):
        k = r.randrange(15)
        corr = r.random() < 0.25
        if k == 0:
            ops.append(("decode", lambda m, a, c=corr, w=r.random() < 0.5: m.decode(a["z"], return_weight=w, enable_correlations=c), Args(z=syn())))
        elif k == 1:
            b = np.array([[r.random() < 0.4 for _ in range(nd)] for _ in range(r.choice([0, 1, 3, 30]))], dtype=np.uint8).reshape(-1, nd)
            pk = r.random() < 0.5
            if pk:
                b = np.packbits(b, axis=1, bitorder="little")
            ops.append(("decode_batch", lambda m, a, p=pk, q=r.random() < 0.5, c=corr, w=r.random() < 0.5: m.decode_batch(
                a["shots"], bit_packed_shots=p, bit_packed_predictions=q, return_weights=w, enable_correlations=c), Args(shots=b)))
        elif k == 2:
            ops.append(("decode_to_edges_array", lambda m, a, c=corr: m.decode_to_edges_array(a["z"], enable_correlations=c), Args(z=syn())))
        elif k == 3:
            ops.append(("decode_to_matched_dets_array", lambda m, a: m.decode_to_matched_dets_array(a["z"]), Args(z=syn())))
        elif k == 4:
            ops.append(("decode_to_matched_dets_dict", lambda m, a: m.decode_to_matched_dets_dict(a["z"]), Args(z=syn())))
        elif k == 5:
            ops.append(("add_noise", lambda m, a: (pymatching.set_seed(7), m.add_noise())[1], Args()))
        elif k == 6:
            ops.append(("edges", lambda m, a: m.edges(), Args()))
        elif k == 7:
            ops.append(("boundary", lambda m, a: m.boundary, Args()))
        elif k == 8:
            u = r.randrange(n)
            ops.append(("edge data", lambda m, a, u=u: [m.get_edge_data(u, u + 1) if m.has_edge(u, u + 1) else None,
                                                       m.get_boundary_edge_data(u) if m.has_boundary_edge(u) else None], Args()))
        elif k == 9:
            ops.append(("to_networkx", lambda m, a: m.to_networkx(), Args()))
        elif k == 10:
            ops.append(("to_rustworkx", lambda m, a: (lambda g: [len(g)] + [dict(g[i]) for i in g.node_indices()] + [plain(list(g.weighted_edge_list()))])(m.to_rustworkx()), Args()))
        elif k == 11:
            # refused calls
            bad = r.choice([
                lambda m: m.decode(np.ones(m.num_nodes + 3, dtype=np.uint8)),
                lambda m: m.decode_batch(np.zeros((2, m.num_nodes + 9), dtype=np.uint8)),
                lambda m: m.decode_batch(np.zeros(3, dtype=np.uint8)),
                lambda m: m.get_edge_data(0, 10 ** 6),
                lambda m: m.get_boundary_edge_data(10 ** 6),
                lambda m: m.add_edge(0, 1, merge_strategy="no such"),
                lambda m: m.add_edge(0, 1, weight=1, merge_strategy="disallow"),
                lambda m: m.add_edge(0, 1, error_probability=1.5),
                lambda m: Matching(np.ones((3, 2), dtype=np.uint8)),
                lambda m: Matching.from_check_matrix(sp.csc_matrix(np.eye(3, dtype=np.uint8)), weights=[1.0, 2.0]),
                lambda m: Matching.from_detector_error_model_file("/nonexistent/x.dem"),
                lambda m: Matching.from_detector_error_model_file(BAD_DEM),
                lambda m: Matching.from_stim_circuit_file(BAD_CIRCUIT),
                lambda m: quiet_cli(["predict", "--dem", BAD_DEM, "--in", GOOD_DEM, "--out", os.devnull]),
                lambda m: quiet_cli(["count_mistakes", "--dem", GOOD_DEM, "--in", GOOD_DEM, "--out", os.devnull]),
            ])
            ops.append(("refused", lambda m, a, f=bad: f(m), Args()))
        elif k == 12:
            ops.append(("edit", lambda m, a, w=r.uniform(1, 2), s=r.choice(["replace", "smallest-weight", "independent", "keep-original"]): m.add_edge(
                0, 1, fault_ids=a["ids"], weight=w, error_probability=0.1, merge_strategy=s), Args(ids={0, 1})))
        elif k == 13:
            good = r.choice([
                lambda: Matching.from_detector_error_model_file(GOOD_DEM),
                lambda: Matching.from_stim_circuit_file(GOOD_CIRCUIT, enable_correlations=True),
            ])
            ops.append(("from file", lambda m, a, f=good: f(), Args()))
        else:
            H = sp.csc_matrix(np.array([[1, 1, 0], [0, 1, 1]], dtype=np.uint8))
            ops.append(("load_from_check_matrix", lambda m, a: Matching(a["H"], weights=a["w"], faults_matrix=a["F"]),
                        Args(H=H, w=np.array([1.0, 2.0, 1.5]), F=sp.csc_matrix(np.array([[1, 0, 1]], dtype=np.uint8)))))
    return ops


def run(op, m):
    name, f, a = op
    try:
        return f(m, a.kw)
    except (ValueError, TypeError, IndexError) as e:
        return ("raised", type(e).__name__)


def case(r, idx):
    build, desc, given = make(r)
    was = {k: plain_arg(v) for k, v in given.items()}
    m = build()
    ops = script(r, m)
    note((desc, [(o[0], o[2].was) for o in ops]))
    if idx % 4:
        # Values: kept results must not change, changing results must not change the graph, arguments stay as they were.
        kept = []
        shadow = build()  # whose results are never kept or changed
        for op in ops * 2:
            x = run(op, m)
            y = run(op, shadow)
            op[2].check(op[0])
            evaluated()
            if plain(x) != plain(y):
                fail("history", f"{op[0]} returned {plain(x)} after its earlier results had been kept or changed, otherwise {plain(y)}; {desc}")
            count(op[0] + ("-refused" if isinstance(x, tuple) and len(x) and isinstance(x[0], str) and x[0] == "raised" else ""))
            for name, v, p in kept:
                if plain(v) != p:
                    fail("result", f"the result of {name} became {plain(v)} instead of {p} when {op[0]} was called; {desc}")
            if r.random() < 0.4:
                scribble(x, r)
                del x
            elif x is not None:
                kept.append((op[0], x, plain(x)))
            del y
        for k, v in given.items():
            if plain_arg(v) != was[k]:
                fail("argument", f"building the graph or using it changed the given {k} to {plain_arg(v)} from {was[k]}; {desc}")
        if plain(m) != plain(shadow):
            fail("graph", f"the graph changed when results were modified: {plain(m)} instead of {plain(shadow)}; {desc}")
        del m, shadow
        gc.collect()
        junk = [bytearray(64) for _ in range(50)]
        for name, v, p in kept:
            if plain(v) != p:
                fail("outlive", f"the result of {name} became {plain(v)} instead of {p} when the Matching was deleted; {desc}")
        evaluated()
        nontrivial("values", repr(desc), repr([o[0] for o in ops]))
        del junk
        return
    if _live is None:
        count("no-allocation-counter")
        return
    # Memory: repetitions of the same calls must not accumulate.
    whole = r.random() < 0.5  # a new Matching each time, or the same one

    def once():
        x = build() if whole else m
        for op in ops:
            run(op, x)

    edits = any(o[0] == "edit" for o in ops)
    if edits:
        whole = True  # an edit changes what later repetitions do
    for _ in range(6):
        once()
    files = files_open()
    reps = 15
    marks = [live()]
    for _ in range(4):
        for _ in range(reps):
            once()
        marks.append(live())
    grow = [b - a for a, b in zip(marks, marks[1:])]
    evaluated()
    count("memory-scripts")
    if files_open() > files:
        fail("files", f"{files_open() - files} files are left open after {4 * reps} repetitions of {[o[0] for o in ops]} on {desc}")
    if min(grow) >= 16 * reps:
        # confirm: a leak grows with the number of repetitions
        a = live()
        for _ in range(8 * reps):
            once()
        b = live()
        if b - a >= 8 * 16 * reps:
            per = {}
            for op in ops:
                for _ in range(3):
                    run(op, build())
                a = live()
                for _ in range(20):
                    run(op, build())
                per[op[0]] = per.get(op[0], 0) + (live() - a) // 20
            fail("leak", f"{min(grow) // reps} bytes are kept by each repetition of {[o[0] for o in ops]} on {desc}; per call about {per}")
    nontrivial("memory", repr(desc), repr([o[0] for o in ops]))
    if idx % 96 == 0:
        sample(f"{[o[0] for o in ops]} repeated: live bytes grow by {grow}")


gc.collect()
gc.freeze()  # what the imports created need not be scanned again and again
run_cases("C27", case)
