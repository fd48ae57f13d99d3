"""C20: the Python loaders build exactly the graph their input describes, and refuse invalid input."""
import math
import os
import pathlib
import warnings

import networkx as nx
import numpy as np
import pymatching
import rustworkx as rx
import scipy.sparse as sp
import stim
from pymatching import Matching

from pyvh import count, evaluated, fail, nontrivial, note, run_cases, sample

warnings.simplefilter("ignore")
MAXW = 2 ** 24 - 1


def merge_w(a, b):
    s = math.copysign(1, a) * math.copysign(1, b)
    return s * min(abs(a), abs(b)) + math.log(1 + math.exp(-abs(a + b))) - math.log(1 + math.exp(-abs(a - b)))


class Refused(Exception):
    pass


class Ref:
    def __init__(self, n=0, nids=0):
        self.n, self.nids, self.boundary = n, nids, set()
        self.e = {}

    def add(self, u, v, ids, w, p, strat):
        self.n = max(self.n, u + 1, 0 if v is None else v + 1)
        k = (u, None) if v is None else (min(u, v), max(u, v))
        ids = frozenset(ids)
        if k not in self.e:
            self.e[k] = (ids, w, p)
        else:
            i0, w0, p0 = self.e[k]
            if strat == "disallow":
                raise Refused()
            if strat == "keep-original":
                return
            if strat == "smallest-weight":
                if w >= w0:
                    return
                self.e[k] = (ids, w, p)
            elif strat == "replace":
                self.e[k] = (ids, w, p)
            else:
                q = p * (1 - p0) + p0 * (1 - p) if 0 <= p <= 1 and 0 <= p0 <= 1 else -1
                self.e[k] = (i0, merge_w(w, w0), q)
                return
        if ids:
            self.nids = max(self.nids, max(ids) + 1)

    def set_boundary(self, b):
        self.boundary = set(b)
        if b:
            self.n = max(self.n, max(b) + 1)

    def copy(self):
        r = Ref(self.n, self.nids)
        r.boundary = set(self.boundary)
        r.e = dict(self.e)
        return r

    def __repr__(self):
        return f"n={self.n} ids={self.nids} boundary={sorted(self.boundary)} edges={self.e}"


def same(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def graph_of(m):
    out = {}
    for t in m.edges():
        if len(t) != 3:
            fail("edges", f"edges() entry {t}")
        u, v, d = t
        k = (u, None) if v is None else (min(u, v), max(u, v))
        if k in out:
            fail("edges", f"edge {k} is listed twice")
        if set(d) != {"fault_ids", "weight", "error_probability"} or not isinstance(d["fault_ids"], set):
            fail("edges", f"edge attributes {d}")
        out[k] = (frozenset(d["fault_ids"]), d["weight"], d["error_probability"])
    return out


def compare(m, ref, what):
    evaluated()
    if m.num_nodes != ref.n or m.num_fault_ids != ref.nids or m.boundary != ref.boundary or \
            m.num_detectors != ref.n - len(ref.boundary) or m.num_edges != len(ref.e):
        fail("sizes", f"{what}: nodes {m.num_nodes} ids {m.num_fault_ids} boundary {m.boundary} detectors "
                      f"{m.num_detectors} edges {m.num_edges}, expected {ref}")
    got = graph_of(m)
    if set(got) != set(ref.e):
        fail("edges", f"{what}: edges {sorted(got, key=str)}, expected {sorted(ref.e, key=str)}")
    for k, (ids, w, p) in ref.e.items():
        gi, gw, gp = got[k]
        if gi != ids or not same(gw, w) or not same(gp, p):
            fail("attributes", f"{what}: edge {k} has {got[k]}, expected {(set(ids), w, p)}")


def queries(r, m, ref, what):
    ks = list(ref.e)
    for _ in range(4):
        if ks and r.random() < 0.6:
            u, v = r.choice(ks)
        else:
            u = r.randrange(ref.n + 3)
            v = None if r.random() < 0.3 else r.randrange(ref.n + 3)
        k = (u, None) if v is None else (min(u, v), max(u, v))
        a, b = (u, v) if r.random() < 0.5 or v is None else (v, u)
        has = m.has_boundary_edge(a) if v is None else m.has_edge(a, b)
        if bool(has) != (k in ref.e):
            fail("query", f"{what}: has_edge{(a, b)} is {has}, edges {ks}")
        try:
            d = m.get_boundary_edge_data(a) if v is None else m.get_edge_data(a, b)
        except ValueError:
            d = None
        evaluated()
        if (d is None) != (k not in ref.e):
            fail("query", f"{what}: edge data of {(a, b)} is {d}, edges {ks}")
        if d is not None:
            ids, w, p = ref.e[k]
            if d["fault_ids"] != set(ids) or not same(d["weight"], w) or not same(d["error_probability"], p):
                fail("query", f"{what}: edge data of {(a, b)} is {d}, expected {ref.e[k]}")
    nd, nb, ne = ref.n - len(ref.boundary), len(ref.boundary), len(ref.e)
    want = f"<pymatching.Matching object with {nd} detector{'s' * (nd != 1)}, {nb} boundary node{'s' * (nb != 1)}, " \
           f"and {ne} edge{'s' * (ne != 1)}>"
    if repr(m) != want:
        fail("repr", f"{what}: {m!r}, expected {want}")


def refuse(what, fn, m=None, ref=None, kinds=(ValueError, TypeError)):
    try:
        out = fn()
    except Exception as e:
        count("refused:" + type(e).__name__)
    else:
        fail("accepted", f"{what} was accepted (returned {out!r})")
    evaluated()
    if m is not None:
        compare(m, ref, f"after a refused call ({what})")


def rw(r):
    c = r.random()
    if c < 0.4:
        return r.randint(0, 9)
    if c < 0.9:
        return r.uniform(0.01, 7)
    return -r.uniform(0.1, 4)


def rp(r):
    return r.choice([0.0, 1.0]) if r.random() < 0.1 else r.uniform(0, 1)


def listlike(r, xs, ints_ok=True):
    c = r.randrange(5)
    if c == 0:
        return list(xs)
    if c == 1:
        return np.array(xs, dtype=float)
    if c == 2:
        big = np.zeros(3 * len(xs))
        big[1::3] = xs
        return big[1::3]
    if c == 3 and ints_ok and all(float(x).is_integer() for x in xs):
        return np.array([int(x) for x in xs], dtype=r.choice([np.int64, np.int32, np.int8]))
    return np.array(xs, dtype=float)[::-1].copy()[::-1]


def matlike(r, a):
    """The same 0/1 matrix in one of the accepted forms."""
    c = r.randrange(12)
    dt = r.choice([np.uint8, np.int64, np.int32, bool, np.float64])
    a = np.array(a, dtype=np.uint8)
    if c == 0 and a.size and a.shape[0]:
        return a.tolist()
    if c == 1:
        return sp.csr_matrix(a.astype(dt))
    if c == 2:
        return sp.coo_matrix(a.astype(dt))
    if c == 3:
        return sp.lil_matrix(a.astype(dt))
    if c == 4:
        return np.asfortranarray(a.astype(dt))
    if c == 5:
        return sp.csc_matrix(a.astype(dt))
    if c == 6:
        return sp.csc_array(a.astype(dt)) if r.random() < 0.5 else sp.csr_array(a.astype(dt))
    if c == 7 and a.size:
        # row indices in decreasing order within the columns
        m = sp.csc_matrix(a.astype(dt))
        for j in range(m.shape[1]):
            s, e = m.indptr[j], m.indptr[j + 1]
            m.indices[s:e] = m.indices[s:e][::-1].copy()
        m.has_sorted_indices = False
        return m
    if c == 8:
        big = np.zeros((2 * a.shape[0], 2 * a.shape[1]), dtype=dt)
        big[::2, ::2] = a
        return big[::2, ::2]
    if c == 9:
        m = sp.csc_matrix(a.astype(dt))
        m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
        return m
    return a.astype(dt)


def with_explicit_zeros(r, a):
    m = sp.csc_matrix(np.array(a, dtype=np.uint8))
    ones = [(i, j) for i in range(m.shape[0]) for j in range(m.shape[1]) if a[i][j]]
    zeros = [(i, j) for i in range(m.shape[0]) for j in range(m.shape[1]) if not a[i][j]]
    z = r.sample(zeros, min(len(zeros), r.randint(1, 4)))
    ij = ones + z
    return sp.csc_matrix((np.array([1] * len(ones) + [0] * len(z), dtype=np.uint8),
                          (np.array([x[0] for x in ij], dtype=int), np.array([x[1] for x in ij], dtype=int))), shape=m.shape)


STRATS = ["smallest-weight", "independent", "keep-original", "replace", "disallow"]


def case_check_matrix(r, idx):
    rows, cols = r.randint(1, 7), r.randint(0, 9)
    a = np.zeros((rows, cols), dtype=np.uint8)
    for j in range(cols):
        k = r.choice([0, 1, 1, 2, 2, 2, 2, 2])
        for i in r.sample(range(rows), min(k, rows)):
            a[i, j] = 1
    if r.random() < 0.2 and cols > 1:
        a[:, r.randrange(cols)] = a[:, r.randrange(cols)]
    reps = r.choice([None, 1, 1, 2, 3, 5])
    kw = {}
    R = reps or 1
    wk = r.randrange(5)
    if wk == 0:
        wl = [1.0] * cols
    elif wk == 1:
        s = rw(r)
        if r.random() < 0.3:
            s = np.float64(s) if r.random() < 0.5 else np.int64(round(s))
        wl = [float(s)] * cols
        kw[r.choice(["weights", "spacelike_weights"])] = s
    else:
        wl = [float(rw(r)) for _ in range(cols)]
        kw[r.choice(["weights", "weights", "spacelike_weights"])] = listlike(r, wl)
    pk = r.randrange(3)
    if pk == 0:
        pl = [-1.0] * cols
    elif pk == 1:
        s = rp(r)
        pl = [s] * cols
        kw["error_probabilities"] = s
    else:
        pl = [rp(r) for _ in range(cols)]
        kw["error_probabilities"] = listlike(r, pl)
    if reps is not None:
        kw["repetitions"] = reps
    tl, ml = [1.0] * rows, [-1.0] * rows
    tk = r.randrange(3)
    if tk == 1:
        s = rw(r)
        kw["timelike_weights"] = s
        tl = [float(s)] * rows
    elif tk == 2:
        tl = [float(rw(r)) for _ in range(rows)]
        kw["timelike_weights"] = listlike(r, tl) if R > 1 else np.array(tl)
    mk = r.randrange(3)
    if mk == 1:
        s = rp(r)
        kw[r.choice(["measurement_error_probabilities", "measurement_error_probability"])] = s
        ml = [s] * rows
    elif mk == 2:
        ml = [rp(r) for _ in range(rows)]
        kw[r.choice(["measurement_error_probabilities", "measurement_error_probabilities",
                     "measurement_error_probability"])] = listlike(r, ml)
    f = None
    if r.random() < 0.4:
        fr = r.choice([0, 1, 2, 5, 9, 70])
        f = np.array([[int(r.random() < 0.4) for _ in range(cols)] for _ in range(fr)], dtype=np.uint8).reshape(fr, cols)
        kw["faults_matrix"] = matlike(r, f) if f.size else sp.csc_matrix(f)
    strat = r.choice(STRATS)
    if r.random() < 0.4:
        strat = "smallest-weight"
    else:
        kw["merge_strategy"] = strat
    virt = r.random() < 0.5
    if virt or r.random() < 0.3:
        kw["use_virtual_boundary_node"] = virt
    desc = f"H={a.tolist()} {kw} faults={None if f is None else f.tolist()}"
    note(desc)
    ref = Ref(rows * R, cols if f is None else f.shape[0])
    bad = False
    try:
        for rep in range(R):
            for j in range(cols):
                nz = [i + rep * rows for i in range(rows) if a[i, j]]
                ids = {j} if f is None else {i for i in range(f.shape[0]) if f[i, j]}
                if len(nz) == 2:
                    ref.add(nz[0], nz[1], ids, wl[j], pl[j], strat)
                elif len(nz) == 1:
                    if virt:
                        ref.add(nz[0], None, ids, wl[j], pl[j], strat)
                    else:
                        ref.add(nz[0], rows * R, ids, wl[j], pl[j], strat)
                        ref.set_boundary({rows * R})
        for rep in range(R - 1):
            for i in range(rows):
                ref.add(i + rep * rows, i + (rep + 1) * rows, set(), tl[i], ml[i], strat)
    except Refused:
        bad = True

    def load():
        h = with_explicit_zeros(r, a) if r.random() < 0.15 and a.size else matlike(r, a)
        c = r.randrange(5)
        if c == 0:
            return Matching(h, **kw)
        if c == 1:
            return Matching.from_check_matrix(h, **kw)
        if c == 2:
            return Matching(H=h, **kw)
        m = Matching()
        m.add_edge(0, 5, fault_ids=11)
        if c == 3:
            m.load_from_check_matrix(h, **kw)
        else:
            m.load_from_check_matrix(H=h, **kw)
        return m

    if bad:
        refuse("check matrix with parallel edges under 'disallow': " + desc, load)
        return
    m = load()
    compare(m, ref, desc)
    queries(r, m, ref, desc)
    count(f"check-matrix strategy={strat}")
    count("check-matrix-with-repetitions" if R > 1 else "check-matrix-single")
    if cols >= 2:
        nontrivial("h", desc)
    # The answer explains the syndrome when every edge carries the id of its column.
    if f is None and all(w >= 0 for w in wl + tl):
        for _ in range(3):
            sub = np.array([int(r.random() < 0.4) for _ in range(cols)], dtype=np.uint8)
            if R == 1:
                z = (a @ sub) % 2
                c = m.decode(z)
                if not np.array_equal((a @ c) % 2, z):
                    fail("explain", f"correction {c.tolist()} does not explain {z.tolist()}: {desc}")
            else:
                z = np.zeros((rows, R), dtype=np.uint8)
                for t in range(R):
                    z[:, t] ^= ((a @ np.array([int(r.random() < 0.3) for _ in range(cols)], dtype=np.uint8)) % 2).astype(np.uint8)
                for t in range(R - 1):
                    e = np.array([int(r.random() < 0.3) for _ in range(rows)], dtype=np.uint8)
                    z[:, t] ^= e
                    z[:, t + 1] ^= e
                c = m.decode(z)
                if not np.array_equal((a @ c) % 2, z.sum(axis=1) % 2):
                    fail("explain", f"correction {c.tolist()} does not explain {z.tolist()}: {desc}")
            evaluated()
            count("explained-syndromes")
    if r.random() < 0.3:
        bad_check_matrix(r, m, ref, a, kw, desc)
    if idx < 4:
        sample(desc)


def bad_check_matrix(r, m, ref, a, kw, desc):
    rows, cols = a.shape
    if cols == 0:
        return
    R = kw.get("repetitions") or 1
    kw = dict(kw)
    h = a.copy()
    c = r.randrange(13)
    if c == 0 and rows >= 3:
        j = r.randrange(cols)
        for i in r.sample(range(rows), 3):
            h[i, j] = 1
        what = "a column with three ones"
    elif c == 1 and h.any():
        i, j = r.choice(list(zip(*h.nonzero())))
        h[i, j] = r.choice([2, 3, 200])
        what = "an entry other than 0 and 1"
    elif c == 2:
        kw.pop("spacelike_weights", None)
        kw["weights"] = np.ones(cols + r.choice([-1, 1, 2]))
        what = "weights of wrong length"
    elif c == 3:
        kw["error_probabilities"] = np.ones(cols + r.choice([-1, 1, 2])) * 0.1
        what = "error probabilities of wrong length"
    elif c == 4:
        kw["faults_matrix"] = np.ones((2, cols + r.choice([-1, 1])), dtype=np.uint8)
        what = "faults matrix with wrong number of columns"
    elif c == 5 and R > 1:
        kw["timelike_weights"] = np.ones(rows + r.choice([-1, 1]))
        what = "time-like weights of wrong length"
    elif c == 6 and R > 1:
        kw.pop("measurement_error_probability", None)
        kw["measurement_error_probabilities"] = np.ones(rows + r.choice([-1, 1])) * 0.1
        what = "measurement error probabilities of wrong length"
    elif c == 7:
        kw["weights"] = np.ones(cols)
        kw["spacelike_weights"] = np.ones(cols)
        what = "weights given twice"
    elif c == 8:
        kw["merge_strategy"] = r.choice(["Replace", "smallest_weight", "", "none"])
        what = "an unknown merge strategy"
    elif c == 9 and R > 1:
        kw["timelike_weights"] = r.choice(["1", {1.0: 2}, (1.0,)])
        what = "time-like weights that are neither a number nor an array"
    elif c == 10 and R > 1:
        kw.pop("measurement_error_probability", None)
        kw["measurement_error_probabilities"] = r.choice(["0.1", {0.1}, (0.1,)])
        what = "measurement error probabilities that are neither a number nor an array"
    elif c == 11 and R > 1:
        kw["measurement_error_probability"] = kw["measurement_error_probabilities"] = 0.1
        what = "measurement error probabilities given twice"
    elif c == 12:
        count("invalid-check-matrix")
        for bad in (None, "graph", object()):
            if bad is not None:
                refuse(f"a {type(bad).__name__} as graph", lambda: Matching(bad))
            refuse(f"a {type(bad).__name__} as check matrix", lambda: m.load_from_check_matrix(bad, **kw), m, ref)
        return
    else:
        return
    count("invalid-check-matrix")
    refuse(f"{what}: H={h.tolist()} {kw}", lambda: m.load_from_check_matrix(matlike(r, h) if c != 1 else h, **kw), m, ref)


def id_form(r, ids):
    ids = set(ids)
    c = r.randrange(6)
    if not ids and c < 3:
        return r.choice([-1, None, set()])
    if len(ids) == 1 and c < 3:
        x = next(iter(ids))
        return r.choice([x, np.int64(x), np.int32(x)])
    return ids


def case_edges(r, idx):
    """Histories of edge calls."""
    m = Matching()
    ref = Ref()
    hist = []
    n = r.randint(1, 7)
    for _ in range(r.randint(1, 14)):
        u, v = r.randrange(n), r.randrange(n)
        while v == u and r.random() < 0.8 and n > 1:
            v = r.randrange(n)
        if r.random() < 0.3:
            v = None
        ids = {r.choice([0, 1, 2, 5, 63, 64, 80]) for _ in range(r.choice([0, 1, 1, 2, 3]))}
        w = rw(r)
        p = rp(r) if r.random() < 0.6 else None
        strat = r.choice(STRATS + ["disallow", None])
        kw = {}
        if strat is not None:
            kw["merge_strategy"] = strat
        else:
            strat = "disallow"
        form = id_form(r, ids)
        if v is not None and r.random() < 0.15:
            kw["qubit_id"] = form
        elif form is not None or r.random() < 0.5:
            kw["fault_ids"] = form
        if r.random() < 0.9:
            kw["weight"] = r.choice([w, np.float64(w)])
        else:
            w = 1.0
        if p is not None:
            kw["error_probability"] = p
        hist.append((u, v, kw))
        note(hist)
        new = ref.copy()
        try:
            new.add(u, v, ids, float(w), -1.0 if p is None else p, strat)
        except Refused:
            refuse(f"parallel edge under 'disallow' {hist}",
                   lambda: m.add_boundary_edge(u, **kw) if v is None else m.add_edge(u, v, **kw), m, ref)
            continue
        if v is None:
            m.add_boundary_edge(u, **kw)
        else:
            m.add_edge(u, v, **kw)
        ref = new
        c = r.random()
        if c < 0.1:
            b = set(r.sample(range(n + 1), r.randint(0, min(2, n))))
            hist.append(("boundary", b))
            note(hist)
            m.set_boundary_nodes(b)
            ref.set_boundary(b)
        elif c < 0.15:
            k = r.choice([0, 3, 70])
            hist.append(("ids", k))
            m.ensure_num_fault_ids(k)
            ref.nids = max(ref.nids, k)
        elif c < 0.25:
            d = r.randrange(7)
            big = r.choice([1, -1]) * (MAXW + r.choice([1, 1000, 1e20]))
            if d == 0:
                refuse("negative node", lambda: m.add_edge(-1, u), m, ref)
            elif d == 1:
                refuse("negative node", lambda: m.add_boundary_edge(-1 - u), m, ref)
            elif d == 2:
                refuse("unknown strategy on an existing edge",
                       lambda: m.add_edge(u, v, merge_strategy="x") if v is not None else
                       m.add_boundary_edge(u, merge_strategy="x"), m, ref)
            elif d == 3:
                refuse("ids that are not ints", lambda: m.add_edge(n + 1, n + 2, fault_ids={1.5}))
            elif d == 4:
                refuse("ids given twice", lambda: m.add_edge(n + 1, n + 2, fault_ids=1, qubit_id=2), m, ref)
            elif d == 5:
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    if r.random() < 0.5:
                        m.add_edge(n + 1, n + 2, weight=big)
                    else:
                        m.add_boundary_edge(n + 1, weight=big)
                if not rec:
                    fail("warning", f"no warning for weight {big}")
                compare(m, ref, f"after an edge of weight {big} that must not be added")
                count("too-heavy-edges")
            elif d == 6:  # the heaviest weight that is accepted
                top = r.choice([1, -1]) * float(MAXW)
                x = r.randrange(n)
                hist.append(("heaviest", x, top))
                if r.random() < 0.5:
                    m.add_edge(x, n + 1, weight=top, merge_strategy="replace")
                    ref.add(x, n + 1, set(), top, -1, "replace")
                else:
                    m.add_boundary_edge(x, weight=top, merge_strategy="replace")
                    ref.add(x, None, set(), top, -1, "replace")
                count("heaviest-edges")
            compare(m, ref, f"history {hist}")
        if r.random() < 0.25:
            compare(m, ref, f"history {hist}")
        if r.random() < 0.3:
            # use between edits must not change the graph
            try:
                m.decode([0] * m.num_nodes)
            except ValueError:
                pass
    compare(m, ref, f"history {hist}")
    queries(r, m, ref, f"history {hist}")
    if len(hist) >= 3:
        nontrivial("e", repr(hist))
    count("edge-histories")
    round_trip(r, m, ref, hist)


def round_trip(r, m, ref, hist):
    """Export and reload; isolated nodes are not exported, the virtual boundary becomes a node."""
    used = {x for k in ref.e for x in k if x is not None}
    virt = any(k[1] is None for k in ref.e)
    exp = Ref(0, 0)
    for (u, v), (ids, w, p) in ref.e.items():
        exp.add(u, ref.n if v is None else v, ids, w, p, "disallow")
    which = r.randrange(4)
    if r.random() < 0.1 and ref.e and max(w for _, w, _ in ref.e.values()) > 0:
        drawing(m, ref, exp, virt, hist)
    if which < 2:
        g = m.to_networkx()
        nodes = set(g.nodes)
        if nodes != used | ({ref.n} if virt else set()):
            fail("export", f"exported nodes {nodes} of {ref}")
        bd = {i for i in g.nodes if g.nodes[i]["is_boundary"]}
        if bd != (ref.boundary & used) | ({ref.n} if virt else set()):
            fail("export", f"exported boundary {bd} of {ref}")
        got = {}
        for (u, v, d) in g.edges(data=True):
            got[(min(u, v), max(u, v))] = (frozenset(d["fault_ids"]), d["weight"], d["error_probability"])
        if set(got) != set(exp.e) or any(got[k][0] != exp.e[k][0] or not same(got[k][1], exp.e[k][1]) or
                                         not same(got[k][2], exp.e[k][2]) for k in got):
            fail("export", f"exported edges {got} of {ref}")
        m2 = Matching(g) if which == 0 else Matching.from_networkx(g)
        exp.n = max(len(nodes), max(nodes) + 1) if nodes else 0
        exp.set_boundary(bd)
    else:
        g = m.to_rustworkx() if which == 2 else m.to_retworkx()
        if len(g) != ref.n + virt:
            fail("export", f"exported {len(g)} nodes of {ref}")
        bd = {i for i in g.node_indices() if g[i]["is_boundary"]}
        if bd != ref.boundary | ({ref.n} if virt else set()):
            fail("export", f"exported boundary {bd} of {ref}")
        m2 = Matching(g)
        exp.n = ref.n + virt
        exp.set_boundary(bd)
    evaluated()
    compare(m2, exp, f"reloaded export of {hist}")
    count("round-trips")


def drawing(m, ref, exp, virt, hist):
    """draw() shows every connected node and edge, labelled, and leaves the matching as it is."""
    import networkx as nx
    import pymatching.matching as mod
    calls = {}
    names = ["draw_networkx_nodes", "draw_networkx_labels", "draw_networkx_edges", "draw_networkx_edge_labels"]
    old = {k: getattr(nx, k) for k in names}
    try:
        for k in names:
            setattr(nx, k, lambda G, pos=None, _k=k, **kw: calls.__setitem__(_k, (G, pos, kw)))
        if mod.nx is not nx:
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.draw()
    finally:
        for k in names:
            setattr(nx, k, old[k])
    if set(calls) != set(names):
        fail("drawing", f"draw() did not draw {sorted(set(names) - set(calls))} of {ref}")
    G, pos, kw = calls["draw_networkx_nodes"]
    used = {x for k in ref.e for x in k if x is not None} | ({ref.n} if virt else set())
    if set(G.nodes) != used or set(pos) != used:
        fail("drawing", f"draw() places nodes {sorted(pos)} of {ref}")
    white = {i for i, c in zip(G.nodes, kw["node_color"]) if c == "w"}
    if white != (ref.boundary & used) | ({ref.n} if virt else set()):
        fail("drawing", f"draw() shows boundary nodes {sorted(white)} of {ref}")
    G, pos, kw = calls["draw_networkx_edges"]
    top = max(e[1] for e in exp.e.values())
    for (u, v), x in zip(G.edges, kw["width"]):
        w = exp.e[(min(u, v), max(u, v))][1]
        if abs(x - (0.2 + 2 * w / top)) > 1e-9 * (1 + abs(x)):
            fail("drawing", f"draw() gives edge {u}-{v} of weight {w} the width {x} (largest weight {top}) of {ref}")
    want = {k: "" if not e[0] else str(next(iter(e[0]))) if len(e[0]) == 1 else frozenset(e[0]) for k, e in exp.e.items()}
    got = {}
    for (u, v), t in calls["draw_networkx_edge_labels"][2]["edge_labels"].items():
        got[(min(u, v), max(u, v))] = frozenset(eval(t)) if t.startswith(("{", "frozenset")) else t
    if got != want:
        fail("drawing", f"draw() labels the edges {got} of {ref}")
    evaluated()
    compare(m, ref, f"after draw() of {hist}")
    count("drawings")


def case_networkx(r, idx):
    use_rx = r.random() < 0.35
    n = r.randint(1, 7)
    labels = list(range(n))
    if not use_rx and r.random() < 0.3:
        labels = sorted(r.sample(range(n + 4), n))
    order = labels[:]
    r.shuffle(order)
    g = rx.PyGraph(multigraph=r.random() < 0.5) if use_rx else nx.Graph()
    bnd = {x for x in labels if r.random() < r.choice([0, 0.2, 0.5])}
    attr = {x: ({"is_boundary": r.choice([True, True, np.bool_(True), 1])} if x in bnd else r.choice([{}, {"is_boundary": r.choice([False, np.bool_(False)])}])) for x in labels}
    if use_rx:
        g.add_nodes_from([dict(attr[x]) for x in labels])
    else:
        for x in order:
            g.add_node(x if r.random() < 0.8 else np.int64(x), **attr[x])
    ref = Ref(n, 0)
    ref.set_boundary(bnd)
    pairs = [(x, y) for x in labels for y in labels if x < y or (x == y and r.random() < 0.05)]
    r.shuffle(pairs)
    hist = [("nodes", labels, bnd)]
    for (x, y) in pairs[:r.randint(0, 10)]:
        if r.random() < 0.5:
            x, y = y, x
        ids = {r.choice([0, 1, 2, 7, 64, 90]) for _ in range(r.choice([0, 1, 1, 2, 3]))}
        d = {}
        w, p = 1.0, -1.0
        if r.random() < 0.8:
            w = rw(r)
            d["weight"] = r.choice([w, np.float64(w)])
        if r.random() < 0.6:
            p = rp(r)
            d["error_probability"] = p
        form = id_form(r, ids)
        if form is None:
            form = set()
        if isinstance(form, set) and r.random() < 0.5:
            form = r.choice([list(form), tuple(form), np.array(sorted(form), dtype=int), frozenset(form)])
        name = r.choice(["fault_ids", "fault_ids", "qubit_id"])
        if len(ids) or r.random() < 0.6:
            d[name] = form
        hist.append((x, y, d))
        g.add_edge(x, y, d) if use_rx else g.add_edge(x, y, **d)
        ref.add(x, y, ids, float(w), p, "smallest-weight")
    note(hist)
    kw = {}
    k = r.choice([None, None, 0, 3, 77])
    c = r.randrange(3)
    m = Matching()
    if c == 0 and k is None:
        m = Matching(g)
    elif c == 1 and not use_rx:
        m = Matching.from_networkx(g, **({} if k is None else {"min_num_fault_ids": k}))
        ref.nids = max(ref.nids, k or 0)
    elif use_rx:
        f = m.load_from_rustworkx if r.random() < 0.7 else m.load_from_retworkx
        f(g, **({} if k is None else {"min_num_fault_ids": k}))
        ref.nids = max(ref.nids, k or 0)
    else:
        m.load_from_networkx(g, **({} if k is None else {"min_num_fault_ids": k}))
        ref.nids = max(ref.nids, k or 0)
    compare(m, ref, f"{'rustworkx' if use_rx else 'networkx'} {hist}")
    queries(r, m, ref, hist)
    count("rustworkx-loads" if use_rx else "networkx-loads")
    if len(hist) > 3:
        nontrivial("n", repr(hist), use_rx)
    if r.random() < 0.3:
        c = r.randrange(5)
        b = rx.PyGraph() if use_rx else nx.Graph()
        if use_rx:
            b.add_nodes_from([{}, {}])
        d = [{"fault_ids": "test"}, {"fault_ids": {1.5}}, {"fault_ids": [[1]]}, {"fault_ids": 1, "qubit_id": 1},
             {"fault_ids": 1.5}][c]
        b.add_edge(0, 1, d) if use_rx else b.add_edge(0, 1, **d)
        refuse(f"edge attributes {d}", lambda: m.load_from_rustworkx(b) if use_rx else m.load_from_networkx(b), m, ref)
        refuse("a graph of another type", lambda: m.load_from_networkx("x") if not use_rx else m.load_from_rustworkx("x"), m, ref)
        count("invalid-graphs")
    if idx < 4:
        sample(hist)


def case_dem(r, idx):
    """Detector error models through every Python way in."""
    n = r.randint(1, 8)
    no = r.choice([0, 1, 2, 9, 70])
    ref = Ref(n, no)
    lines = []
    ids_of = {}
    corr = r.random() < 0.4
    for _ in range(r.randint(1, 10)):
        parts = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if n == 1 or r.random() < 0.3:
                k = (r.randrange(n), None)
            else:
                x = r.sample(range(n), 2)
                k = (min(x), max(x))
            if k not in [q[0] for q in parts]:
                ids_of.setdefault(k, {r.randrange(no) for _ in range(r.choice([0, 1, 2]))} if no else set())
                ds = [x for x in k if x is not None]
                r.shuffle(ds)
                parts.append((k, ds))
        p = float(f"{r.uniform(0.001, 0.45):.6f}")
        lines.append(f"error({p!r}) " + " ^ ".join(
            " ".join([f"D{x}" for x in ds] + [f"L{i}" for i in sorted(ids_of[k])]) for k, ds in parts))
        for k, _ in parts:
            ref.add(k[0], k[1], ids_of[k], math.log((1 - p) / p), p, "independent")
    lines.append(f"detector D{n - 1}")
    if no:
        lines.append(f"logical_observable L{no - 1}")
    text = "\n".join(lines) + "\n"
    note(text)
    c = r.randrange(6)
    wrong = "error(0.1) D0 L77"
    path = os.path.join(os.environ.get("VH_SCRATCH", "."), "x.dem")
    if c == 0:
        m = Matching(stim.DetectorErrorModel(text), enable_correlations=corr)
    elif c == 1:
        m = Matching.from_detector_error_model(stim.DetectorErrorModel(text), enable_correlations=corr)
    elif c == 2:
        m = Matching(stim.Circuit(text, wrong), enable_correlations=corr)
    elif c == 3:
        m = Matching.from_stim_circuit(stim.Circuit(text, wrong), enable_correlations=corr)
    elif c == 4:
        with open(path, "w") as f:
            f.write(str(stim.Circuit(text, wrong)))
        m = Matching.from_stim_circuit_file(path if r.random() < 0.5 else pathlib.Path(path), enable_correlations=corr)
        os.unlink(path)
        count("circuit-files")
    else:
        with open(path, "w") as f:
            f.write(text)
        m = Matching.from_detector_error_model_file(path if r.random() < 0.5 else pathlib.Path(path), enable_correlations=corr)
        os.unlink(path)
    compare(m, ref, f"model correlations={corr}\n{text}")
    queries(r, m, ref, text)
    count("models-correlated" if corr else "models-plain")
    nontrivial("d", text, corr, c)
    z = [0] * n
    if corr:
        m.decode(z, enable_correlations=True)
    else:
        refuse("correlated decoding of a model loaded without", lambda: m.decode(z, enable_correlations=True), m, ref)
    if r.random() < 0.3:
        refuse("a missing file", lambda: Matching.from_detector_error_model_file(path + ".none"))
        refuse("a missing circuit file", lambda: Matching.from_stim_circuit_file(path + ".none"))
        for what, mark in (("non-deterministic detectors", "#gauge"), ("errors that cannot be decomposed", "#undecomposable"),
                           ("disjoint errors", "#disjoint 0.3"), ("an unreadable circuit", "nonsense")):
            with open(path, "w") as f:
                f.write(mark + "\n" + str(stim.Circuit(text, wrong)))
            refuse(f"a circuit file with {what}", lambda: Matching.from_stim_circuit_file(path))
        with open(path, "w") as f:
            f.write(text + "no_such_instruction D0\n")
        refuse("an unreadable model file", lambda: Matching.from_detector_error_model_file(path))
        os.unlink(path)
        refuse("not a model", lambda: Matching.from_detector_error_model("error(0.1) D0"))
        refuse("not a circuit", lambda: Matching.from_stim_circuit("H 0"))


def case(r, idx):
    [case_check_matrix, case_check_matrix, case_edges, case_networkx, case_dem][idx % 5](r, idx)


run_cases("C20", case)
