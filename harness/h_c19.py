"""C19: the Python decoding entry points agree with each other and with the brute-force optimum."""
import math
import os
import pathlib
import warnings

import numpy as np
import pymatching
import stim

from pyvh import S as _state
from pyvh import count, evaluated, fail, nontrivial, note, run_cases, sample

warnings.simplefilter("ignore")
NDW = 1 << 23  # weights are kept to better than this many steps


class G:
    """Reference graph: edges (u, v or None, weight, ids); boundary: set of nodes."""

    def __init__(self, n, edges, boundary, nids):
        self.n, self.edges, self.boundary, self.nids = n, edges, boundary, nids

    def __repr__(self):
        return f"n={self.n} boundary={sorted(self.boundary)} ids={self.nids} edges={self.edges}"

    def nd(self):
        return self.n - len(self.boundary)


class Table:
    """All 2^E edge subsets: syndrome, weight and flipped ids of each."""

    def __init__(self, g):
        self.g = g
        act = sorted({x for e in g.edges for x in e[:2] if x is not None and x not in g.boundary})
        self.act = act
        bit = {x: i for i, x in enumerate(act)}
        syn = np.zeros(1, dtype=np.int64)
        w = np.zeros(1, dtype=float)
        for (u, v, wt, ids) in g.edges:
            m = 0
            for x in (u, v):
                if x in bit:
                    m ^= 1 << bit[x]
            syn = np.concatenate([syn, syn ^ m])
            w = np.concatenate([w, w + wt])
        self.syn, self.w = syn, w
        self.by = {}
        order = np.argsort(syn, kind="stable")
        s = syn[order]
        cut = np.flatnonzero(np.diff(s)) + 1
        for grp in np.split(order, cut):
            self.by[int(syn[grp[0]])] = grp

    def ids_of(self, sub):
        out = 0
        for k, (_, _, _, ids) in enumerate(self.g.edges):
            if sub >> k & 1:
                for i in ids:
                    out ^= 1 << i
        return out

    def full(self, k):
        """Syndrome of subset k, one bit per node."""
        return sum(1 << x for i, x in enumerate(self.act) if int(self.syn[k]) >> i & 1)

    def best(self, s, tol=0.0):
        key = 0
        for i, x in enumerate(self.act):
            if s >> x & 1:
                key |= 1 << i
                s ^= 1 << x
        grp = self.by.get(key) if s == 0 else None
        if grp is None:
            return None
        w = self.w[grp]
        m = float(w.min())
        return m, {self.ids_of(int(x)) for x in grp[w <= m + tol]}


def gen(r):
    n = r.randint(1, 8) if r.random() < 0.5 else r.randint(7, 26)
    if r.random() < 0.04:
        n = r.choice([64, 65, 127, 129, 255, 256, 257, 264, 300, 513, 700])
    used = n if n <= 8 else r.randint(5, 10)  # how many of the nodes carry edges
    kind = r.random()
    neg = r.random() < 0.3
    fl = r.random() < 0.2
    nb = 0 if kind < 0.4 else r.randint(1, min(r.choice([3, 3, 3, 12]), n))
    if r.random() < 0.6:
        boundary = set(range(n - nb, n))
    else:
        boundary = set(r.sample(range(n), nb))
    virt = kind < 0.4 and r.random() < 0.8 or r.random() < 0.3
    act = sorted(r.sample(range(n), min(n, used)))
    pairs = [(a, b) for a in act for b in act if a < b]
    if virt:
        pairs += [(a, None) for a in act]
    r.shuffle(pairs)
    maxw = r.choice([1, 2, 5, 12, 1000])
    nids = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 33, 63, 64, 65, 66, 72, 130])
    edges = []
    has_b = set()
    target = r.randint(0, 11)
    for (a, b) in pairs:
        if len(edges) >= target:
            break
        w = r.randint(0 if r.random() < 0.3 else 1, maxw)
        if fl:
            w = r.random() * maxw
        if neg and r.random() < 0.35:
            w = -w
        if neg:
            # The decoder documents no answer for several negative edges from one node to the boundary, nor for
            # negative edges between boundary nodes.
            ab = a in boundary
            bb = b is None or b in boundary
            if ab and bb:
                continue
            if ab or bb:
                d = b if ab else a
                if d in has_b:
                    continue
                has_b.add(d)
        if r.random() < 0.5 and b is not None:
            a, b = b, a
        ids = set()
        if nids:
            ids = {r.randrange(nids) for _ in range(r.choice([0, 1, 1, 2, 3]))}
        edges.append((a, b, w, ids))
    return G(n, edges, boundary, nids), fl


def build(r, g):
    m = pymatching.Matching()
    for (u, v, w, ids) in g.edges:
        f = set(ids)
        if len(ids) == 1 and r.random() < 0.5:
            f = next(iter(ids))
        if not ids and r.random() < 0.5:
            f = r.choice([None, -1])
        if v is None:
            m.add_boundary_edge(u, fault_ids=f, weight=w)
        else:
            m.add_edge(u, v, fault_ids=f, weight=w)
    if m.num_nodes < g.n and g.n - 1 not in g.boundary:
        m.set_boundary_nodes({g.n - 1})  # makes the node exist; undone just below
    m.set_boundary_nodes(set(g.boundary))
    m.ensure_num_fault_ids(g.nids)
    if m.num_nodes != g.n or m.num_detectors != g.nd() or m.num_fault_ids != g.nids or m.boundary != g.boundary:
        fail("size", f"graph sizes {m.num_nodes} {m.num_detectors} {m.num_fault_ids} {m.boundary} for {g}")
    return m


def to_int(bits):
    x = 0
    for i, b in enumerate(bits):
        if int(b) not in (0, 1):
            fail("shape", f"prediction entry {b} is not a bit")
        x |= int(b) << i
    return x


def unpack_int(row, nids):
    x = 0
    for k, b in enumerate(row):
        x |= int(b) << (8 * k)
    if x >> nids:
        fail("packing", f"padding bits set in packed prediction {list(row)} of {nids} ids")
    return x


def check_answer(g, what, s, got_ids, got_w, best, wtol):
    m, idset = best
    if got_ids not in idset:
        fail("prediction", f"{what}: prediction {got_ids:b} of syndrome {s:b} belongs to no minimum-weight solution of {g}")
    if got_w is not None and not abs(got_w - m) <= wtol:
        fail("weight", f"{what}: weight {got_w} of syndrome {s:b}, minimum {m} of {g}")


def dists(g):
    """Shortest paths that do not pass through the boundary; index n is the boundary."""
    n = g.n
    d = [[math.inf] * (n + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        d[i][i] = 0
    tobd = [math.inf] * n
    for (u, v, w, _) in g.edges:
        ub, vb = u in g.boundary, v is None or v in g.boundary
        if ub and vb:
            continue
        if ub:
            tobd[v] = min(tobd[v], w)
        elif vb:
            tobd[u] = min(tobd[u], w)
        else:
            d[u][v] = d[v][u] = min(d[u][v], w)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if d[i][k] + d[k][j] < d[i][j]:
                    d[i][j] = d[i][k] + d[k][j]
    for i in range(n):
        d[i][n] = min(d[i][j] + tobd[j] for j in range(n))
    return d


def one_input(r, row):
    """The same 0/1 row in one of the accepted forms."""
    c = r.randrange(7)
    if c == 0:
        return [int(x) for x in row]
    if c == 1:
        return [bool(x) for x in row]
    if c == 2:
        return np.array(row, dtype=bool)
    if c == 3:
        return np.array(row, dtype=r.choice([np.int64, np.int32, np.uint64, np.int8, np.float64]))
    if c == 4:
        big = np.zeros(2 * len(row), dtype=np.uint8)
        big[::2] = row
        return big[::2]
    if c == 5:
        return np.array(row, dtype=np.uint8)[::-1][::-1]
    return np.array(row, dtype=np.uint8)


def batch_input(r, rows):
    a = np.array(rows, dtype=np.uint8)
    c = r.randrange(7)
    if c == 0:
        return np.asfortranarray(a)
    if c == 1:
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 3), dtype=np.uint8)
        b[::2, ::3] = a
        b[1::2] = 1
        return b[::2, ::3]
    if c == 2:
        return a.astype(bool)
    if c == 3:
        return a.astype(r.choice([np.int64, np.int32, np.float64, np.int8]))
    if c == 4:
        return np.ascontiguousarray(a[::-1])[::-1]
    if c == 5:
        return [list(map(int, x)) for x in rows] if len(rows) else a
    return a


def expect_error(what, fn, g):
    try:
        out = fn()
    except ValueError:
        evaluated()
        return
    except Exception as e:  # any error is an error; crashes are what must not happen
        count("other-error:" + type(e).__name__)
        evaluated()
        return
    fail("accepted", f"{what} was accepted (returned {out!r}) on {g}")


def case_graph(r, idx):
    g, fl = gen(r)
    note(g)
    m = build(r, g)
    t = Table(g)
    neg = any(e[2] < 0 for e in g.edges)
    count("graphs-negative" if neg else "graphs-nonnegative")
    count("graphs-float" if fl else "graphs-integer")
    count("graphs-of-more-than-8-detectors", int(g.nd() > 8))
    count("graphs-over-64-ids" if g.nids > 64 else "graphs-up-to-64-ids")
    wtol, tol = 1e-9, 1e-9
    if fl and g.edges:
        step = max(abs(e[2]) for e in g.edges) / (NDW - 1)
        wtol = step * (len(g.edges) + 1)
        tol = 2 * wtol
    free = [i for i in range(g.n) if i not in g.boundary]
    # Shortest accepted length that still reaches every detector.
    need = max(free) + 1 if free else 0
    lo, hi = max(g.nd(), need), g.n
    D = None
    shots, wants, ints = [], [], []
    for _ in range(r.randint(1, 10)):
        s = 0
        if r.random() < 0.7 and g.edges:
            s = t.full(r.randrange(len(t.syn)))
        else:
            dens = r.choice([0.5, 0.5, 0.1]) if g.n < 60 else 2 / g.n
            for i in free:
                if r.random() < dens:
                    s |= 1 << i
        best = t.best(s, tol)
        row = [s >> i & 1 for i in range(g.n)]
        shown = list(row)
        for b in g.boundary:  # values at boundary nodes are ignored
            if r.random() < 0.3:
                shown[b] = 1
                count("boundary-bits-set")
        length = r.randint(lo, hi)
        if best is None:
            count("infeasible")
            for what, fn in (("decode", lambda z: m.decode(z)),
                             ("decode_batch", lambda z: m.decode_batch(np.array([[0] * len(z), z], dtype=np.uint8))),
                             ("decode_to_edges_array", lambda z: m.decode_to_edges_array(z))):
                if r.random() < 0.6:
                    expect_error(f"{what} of unexplainable syndrome {s:b}", lambda: fn(shown[:length]), g)
            continue
        z = one_input(r, shown[:length])
        ret = r.random() < 0.7
        out = m.decode(z, return_weight=True) if ret else (m.decode(z), None)
        evaluated()
        if out[0].dtype != np.uint8 or out[0].shape != (g.nids,):
            fail("shape", f"decode returned {out[0].dtype} {out[0].shape} for {g}")
        a = to_int(out[0])
        check_answer(g, "decode", s, a, out[1], best, wtol)
        shots.append(shown)
        wants.append(best)
        ints.append((s, a))
        nontrivial("d", repr(g), s) if bin(s).count("1") >= 2 else None

        if r.random() < 0.5:
            e = m.decode_to_edges_array(one_input(r, shown[:length]))
            evaluated()
            if e.ndim != 2 or e.shape[1] != 2 or not np.issubdtype(e.dtype, np.signedinteger):
                fail("shape", f"edges array {e.dtype} {e.shape}")
            acc = {}
            syn = 0
            for (u, v) in e.tolist():
                k = (min(u, v), max(u, v)) if v >= 0 else (u, -1)
                if u < 0 or u in g.boundary or v in g.boundary:
                    fail("edges", f"edge ({u},{v}) is not in the documented form for {g}")
                acc[k] = acc.get(k, 0) ^ 1
                syn ^= 1 << u
                if v >= 0:
                    syn ^= 1 << v
            if syn != s:
                fail("edges", f"edges {e.tolist()} have syndrome {syn:b}, not {s:b}, in {g}")
            w = 0.0
            for (k, on) in acc.items():
                if not on:
                    continue
                cand = []
                for (u, v, wt, _) in g.edges:
                    ub, vb = u in g.boundary, v is None or v in g.boundary
                    if ub and vb:
                        continue
                    kk = (v, -1) if ub else (u, -1) if vb else (min(u, v), max(u, v))
                    if kk == k:
                        cand.append(wt)
                if not cand:
                    fail("edges", f"edge {k} is not in {g}")
                w += min(cand)
            if not abs(w - best[0]) <= wtol:
                fail("edges", f"edges {e.tolist()} weigh {w}, minimum {best[0]}, in {g}")
            count("edge-lists")
        if r.random() < 0.5 and g.n < 60:
            for which in ("array", "dict"):
                z2 = one_input(r, shown[:length])
                if neg:
                    expect_error("matched pairs with negative weights",
                                 lambda: m.decode_to_matched_dets_array(z2) if which == "array" else
                                 m.decode_to_matched_dets_dict(z2), g)
                    continue
                if D is None:
                    D = dists(g)
                if which == "array":
                    p = m.decode_to_matched_dets_array(z2)
                    if p.ndim != 2 or p.shape[1] != 2:
                        fail("shape", f"pairs array {p.shape}")
                    pairs = [tuple(x) for x in p.tolist()]
                else:
                    d = m.decode_to_matched_dets_dict(z2)
                    pairs = []
                    for k, v in d.items():
                        if v is None:
                            pairs.append((k, -1))
                        elif d.get(v, "absent") != k:
                            fail("pairs", f"mate dictionary {d} is not symmetric for {g}")
                        elif k < v:
                            pairs.append((k, v))
                evaluated()
                seen = sorted(x for q in pairs for x in q if x >= 0)
                if any(q[0] < 0 for q in pairs) or seen != [i for i in range(g.n) if s >> i & 1]:
                    fail("pairs", f"pairs {pairs} do not partition syndrome {s:b} of {g}")
                w = sum(D[a_][b_ if b_ >= 0 else g.n] for a_, b_ in pairs)
                if not abs(w - best[0]) <= wtol:
                    fail("pairs", f"pairs {pairs} weigh {w}, minimum {best[0]}, in {g}")
                count("pair-lists")
        nd = g.nd()
        if free == list(range(nd)) and nd > 0 and r.random() < 0.4:
            rows_ = r.choice([d_ for d_ in range(1, nd + 1) if nd % d_ == 0])
            z2 = np.zeros((rows_, nd // rows_), dtype=r.choice([np.uint8, bool, np.int64]))
            for i in range(nd):
                z2[i % rows_, i // rows_] = s >> i & 1
            if r.random() < 0.3:
                z2 = np.asfortranarray(z2)
            out2, w2 = m.decode(z2, return_weight=True)
            evaluated()
            check_answer(g, "decode 2D", s, to_int(out2), w2, best, wtol)
            count("two-dimensional")
    # Batches
    for _ in range(3):
        k = r.randint(0, len(shots))
        if r.random() < 0.01 and shots:
            k = r.choice([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1025, 2050])
            count("batches-over-60-shots")
        pick = [r.randrange(len(shots)) for _ in range(k)] if shots else []
        length = r.randint(lo, hi)
        rows = [shots[i][:length] for i in pick]
        a = np.array(rows, dtype=np.uint8).reshape(len(rows), length)
        ps, pp, rw = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
        if ps:
            inp = np.packbits(a, bitorder="little", axis=1) if length else np.zeros((len(rows), 0), dtype=np.uint8)
            if r.random() < 0.3:
                inp = np.asfortranarray(inp)
        else:
            inp = batch_input(r, rows) if len(rows) and length else a
        before = np.array(inp, copy=True)
        out = m.decode_batch(inp, return_weights=rw, bit_packed_shots=ps, bit_packed_predictions=pp)
        evaluated()
        if not np.array_equal(before, np.array(inp)):
            fail("modified", "decode_batch modified its input")
        pred, ws = out if rw else (out, None)
        width = (g.nids + 7) // 8 if pp else g.nids
        if pred.shape != (k, width) or pred.dtype != np.uint8 or (rw and ws.shape != (k,)):
            fail("shape", f"decode_batch returned {pred.dtype} {pred.shape}, expected {(k, width)} for {g}")
        for j, i in enumerate(pick):
            got = unpack_int(pred[j], g.nids) if pp else to_int(pred[j])
            check_answer(g, f"decode_batch packed={ps},{pp} shot {j} of {k}", ints[i][0], got,
                         float(ws[j]) if rw else None, wants[i], wtol)
            if got != ints[i][1]:
                fail("disagree", f"decode_batch predicts {got:b}, decode {ints[i][1]:b} for syndrome {ints[i][0]:b} of {g}")
        count(f"batch packed_shots={int(ps)} packed_predictions={int(pp)} weights={int(rw)}")
        if k >= 2:
            nontrivial("b", repr(g), tuple(pick), ps, pp, length)
    # Refused inputs
    c = r.randrange(8)
    nd = g.nd()
    if c == 0:
        expect_error("too long syndrome", lambda: m.decode([0] * (g.n + 1)), g)
    elif c == 1 and nd > 0:
        expect_error("too short syndrome", lambda: m.decode([0] * (nd - 1)), g)
    elif c == 2:
        expect_error("2D syndrome of wrong size", lambda: m.decode(np.zeros((nd + 1, 1), dtype=np.uint8)), g)
    elif c == 3:
        expect_error("3D syndrome", lambda: m.decode(np.zeros((1, 1, nd), dtype=np.uint8)), g)
    elif c == 4:
        expect_error("1D batch", lambda: m.decode_batch(np.zeros(nd, dtype=np.uint8)), g)
    elif c == 5:
        expect_error("too wide batch", lambda: m.decode_batch(np.zeros((2, g.n + 1), dtype=np.uint8)), g)
    elif c == 6 and nd > 0:
        expect_error("too narrow batch", lambda: m.decode_batch(np.zeros((2, nd - 1), dtype=np.uint8)), g)
    elif c == 7:
        w = (g.n + 7) // 8 + 1
        expect_error("too wide packed batch", lambda: m.decode_batch(np.zeros((2, w), dtype=np.uint8), bit_packed_shots=True), g)
        if (nd + 7) // 8 > 0:
            expect_error("too narrow packed batch", lambda: m.decode_batch(
                np.zeros((2, (nd + 7) // 8 - 1), dtype=np.uint8), bit_packed_shots=True), g)
    if shots:  # still usable
        i = r.randrange(len(shots))
        got = to_int(m.decode(shots[i]))
        if got != ints[i][1]:
            fail("state", f"after refused inputs decode predicts {got:b} instead of {ints[i][1]:b} for {g}")
    if idx < 3:
        sample(g)


def xorp(a, b):
    return a * (1 - b) + b * (1 - a)


class DemRef:
    """Marginal and joint probabilities of the components of a decomposed model, and what they imply."""

    def __init__(self, r):
        self.n = n = r.randint(2, 6)
        self.no = no = r.choice([1, 2, 3, 9, 66])
        self.comps, self.p, self.joint, self.lines = [], [], {}, []
        self.ids = []
        for i in range(n - 1):
            if r.random() < 0.85:
                self.error(r, [self.comp((i, i + 1), r)])
        self.error(r, [self.comp((0,), r)])
        for _ in range(r.randint(1, 4)):
            if len(self.comps) > 9:
                break
            ks = []
            for _ in range(r.choice([2, 2, 2, 3])):
                if r.random() < 0.3:
                    k = (r.randrange(n),)
                else:
                    x = r.sample(range(n), 2)
                    k = (min(x), max(x))
                if k not in ks:
                    ks.append(k)
            if len(self.comps) + len(ks) > 13:
                break
            ks = [self.comp(k, r) for k in ks]
            if r.random() < 0.7:
                for k in ks:
                    self.error(r, [k])
            self.error(r, ks)
        self.lines.append(f"detector D{n - 1}")
        self.lines.append(f"logical_observable L{no - 1}")
        self.text = "\n".join(self.lines) + "\n"
        self.edges = [(k[0], k[1] if len(k) == 2 else None) for k in self.comps]
        self.w = [math.log((1 - q) / q) for q in self.p]
        syn = np.zeros(1, dtype=np.int64)
        for k in self.comps:
            m = 0
            for x in k:
                m ^= 1 << x
            syn = np.concatenate([syn, syn ^ m])
        self.syn = syn

    def comp(self, k, r):
        if k not in self.comps:
            self.comps.append(k)
            self.p.append(0.0)
            self.ids.append({r.randrange(self.no)} if r.random() < 0.5 else set())
        return self.comps.index(k)

    def error(self, r, ks):
        p = float(f"{r.uniform(0.005, 0.12):.6f}")
        self.lines.append(f"error({p!r}) " + " ^ ".join(
            " ".join(f"D{x}" for x in self.comps[k]) + "".join(f" L{i}" for i in sorted(self.ids[k])) for k in ks))
        for k in ks:
            self.p[k] = xorp(self.p[k], p)
        for a in ks:
            for b in ks:
                if a != b:
                    self.joint[a, b] = xorp(self.joint.get((a, b), 0.0), p)

    def solve(self, s, w, tol):
        """Minimum weight and the id sets of the near-optimal subsets."""
        tot = np.zeros(1)
        for x in w:
            tot = np.concatenate([tot, tot + x])
        grp = np.flatnonzero(self.syn == s)
        if not len(grp):
            return None
        t = tot[grp]
        m = float(t.min())
        out = set()
        for sub in grp[t <= m + tol]:
            acc = 0
            for k in range(len(self.comps)):
                if int(sub) >> k & 1:
                    for i in self.ids[k]:
                        acc ^= 1 << i
            out.add(acc)
        return m, out

    def reweighted(self, first):
        w = list(self.w)
        for a in first:
            for (x, b), q in self.joint.items():
                if x == a:
                    c = min(0.5, q / self.p[a])
                    w[b] = min(w[b], math.log((1 - c) / c))
        return w


def case_dem(r, idx):
    ref = DemRef(r)
    text, n, no = ref.text, ref.n, ref.no
    note(text)
    corr = r.random() < 0.7
    c = r.randrange(6)
    if c == 5:
        path = os.path.join(os.environ.get("VH_SCRATCH", "."), "m.stim")
        with open(path, "w") as f:
            f.write(str(stim.Circuit(text, "error(0.1) D0 D1 D2")))
        m = pymatching.Matching.from_stim_circuit_file(
            path if r.random() < 0.5 else pathlib.Path(path), enable_correlations=corr)
        os.unlink(path)
        count("circuit-files")
    elif c == 0:
        path = os.path.join(os.environ.get("VH_SCRATCH", "."), "m.dem")
        with open(path, "w") as f:
            f.write(text)
        m = pymatching.Matching.from_detector_error_model_file(
            path if r.random() < 0.5 else pathlib.Path(path), enable_correlations=corr)
        os.unlink(path)
    elif c == 1:
        m = pymatching.Matching.from_detector_error_model(stim.DetectorErrorModel(text), enable_correlations=corr)
    elif c == 2:
        m = pymatching.Matching(stim.DetectorErrorModel(text), enable_correlations=corr)
    elif c == 3:
        m = pymatching.Matching.from_stim_circuit(stim.Circuit(text, "error(0.1) D0 D1 D2"), enable_correlations=corr)
    else:
        m = pymatching.Matching(stim.Circuit(text, "error(0.1) D0 D1 D2"), enable_correlations=corr)
    if m.num_detectors != n or m.num_fault_ids != no or m.num_edges != len(ref.comps):
        fail("size", f"model has {m.num_detectors} detectors, {m.num_fault_ids} ids, {m.num_edges} edges:\n{text}")
    count("models-with-correlations" if corr else "models-without-correlations")
    if not corr:
        z = np.zeros(n, dtype=np.uint8)
        for what, fn in (("decode", lambda: m.decode(z, enable_correlations=True)),
                         ("decode_batch", lambda: m.decode_batch(z.reshape(1, n), enable_correlations=True)),
                         ("decode_to_edges_array", lambda: m.decode_to_edges_array(z, enable_correlations=True))):
            expect_error(f"{what} with correlations on a model loaded without", fn, text)
    tol = 2 * 16.0 * (len(ref.comps) + 2) / (NDW - 1)
    shots, res = [], []

    def edge_list(s, use):
        e = m.decode_to_edges_array(s, enable_correlations=use).tolist()
        syn, acc, ks = [0] * n, 0, []
        for (u, v) in e:
            syn[u] ^= 1
            if v >= 0:
                syn[v] ^= 1
            k = (u,) if v < 0 else (min(u, v), max(u, v))
            if k not in ref.comps:
                fail("edges", f"edge {k} is not in the model\n{text}")
            ks.append(ref.comps.index(k))
            for i in ref.ids[ks[-1]]:
                acc ^= 1 << i
        evaluated()
        if syn != s:
            fail("edges", f"edges {e} do not have syndrome {s} (correlations {use})\n{text}")
        return e, ks, acc

    for _ in range(r.randint(2, 6)):
        sub = r.randrange(len(ref.syn))
        si = int(ref.syn[sub])
        s = [si >> i & 1 for i in range(n)]
        use = corr and r.random() < 0.8
        p, w = m.decode(one_input(r, s), return_weight=True, enable_correlations=use)
        evaluated()
        shots.append((s, use))
        res.append((p, w))
        e1, first, _ = edge_list(s, False)
        w2 = ref.reweighted(first) if use else ref.w
        best, idsets = ref.solve(si, w2, tol)
        if not abs(w - best) <= tol or to_int(p) not in idsets:
            fail("prediction", f"decode of {s} (correlations {use}) gives {to_int(p):b} weight {w}; the minimum is {best} "
                               f"with ids {idsets}, first pass {e1}\n{text}")
        e, ks, acc = edge_list(s, use)
        we = sum(w2[k] for k in ks)
        if not abs(we - best) <= tol or acc not in idsets:
            fail("edges", f"edges {e} of {s} (correlations {use}) weigh {we}; the minimum is {best}, first pass {e1}\n{text}")
        if use and sum(a != b for a, b in zip(w2, ref.w)):
            count("correlated-shots-with-changed-weights")
            nontrivial("m", text, tuple(s), use)
    for use in (False, True):
        sel = [i for i in range(len(shots)) if shots[i][1] == use]
        if not sel:
            continue
        sel = [r.choice(sel) for _ in range(r.randint(1, 8))]
        a = np.array([shots[i][0] for i in sel], dtype=np.uint8)
        ps, pp = r.random() < 0.5, r.random() < 0.5
        inp = np.packbits(a, bitorder="little", axis=1) if ps else a
        pred, ws = m.decode_batch(inp, return_weights=True, bit_packed_shots=ps, bit_packed_predictions=pp,
                                  enable_correlations=use)
        evaluated()
        for j, i in enumerate(sel):
            got = unpack_int(pred[j], no) if pp else to_int(pred[j])
            if got != to_int(res[i][0]) or abs(ws[j] - res[i][1]) > 1e-9:
                fail("disagree", f"decode_batch gives {got:b} weight {ws[j]}, decode {to_int(res[i][0]):b} weight "
                                 f"{res[i][1]} for {shots[i][0]} correlations {use}\n{text}")
        count(f"batches correlations={int(use)}")


def case_giant(r, idx):
    """Node numbers, fault ids or numbers of shots beyond 16 bits: a small graph whose nodes and ids are spread out."""
    while True:
        g, fl = gen(r)
        if g.n <= 8 and not fl and len(g.edges) >= 2 and g.nids <= 9:
            break
    neg = any(e[2] < 0 for e in g.edges)
    t = Table(g)
    many = r.random() < 0.3
    if many:
        f, idmap, N, NI = list(range(g.n)), list(range(g.nids)), g.n, g.nids
    else:
        f = []
        while len(f) < g.n:
            c = r.random()
            x = r.randrange(65536, 68000) if c < 0.4 or not f else r.randrange(40) if c < 0.6 else r.choice(f) ^ 256 \
                if c < 0.8 else (lambda y: y - 65536 if y >= 65536 else y ^ 512)(r.choice(f))
            if x not in f:
                f.append(x)
        r.shuffle(f)
        N = max(f) + 1 + r.randrange(2)
        idmap = []
        big = r.random() < 0.5
        while len(idmap) < g.nids:
            x = r.randrange(65536, 66000) if big and r.random() < 0.6 else idmap[-1] ^ 256 if idmap and r.random() < 0.5 \
                else r.randrange(300)
            if x not in idmap:
                idmap.append(x)
        NI = max(idmap) + 1 + r.randrange(3) if idmap else 0
    back = {x: i for i, x in enumerate(f)}
    note(f"nodes {f} of {N}, ids {idmap} of {NI}, {g}")
    m = pymatching.Matching()
    for (u, v, w, ids) in g.edges:
        k = {idmap[i] for i in ids}
        if v is None:
            m.add_boundary_edge(f[u], fault_ids=k, weight=w)
        else:
            m.add_edge(f[u], f[v], fault_ids=k, weight=w)
    if m.num_nodes < N:
        m.set_boundary_nodes({N - 1})
    bset = {f[b] for b in g.boundary}
    m.set_boundary_nodes(bset)
    m.ensure_num_fault_ids(NI)
    if m.num_nodes != N or m.num_fault_ids != NI or m.num_detectors != N - len(bset) or m.num_edges != len(
            {(min(u, v), max(u, v)) if v is not None else (u, -1) for u, v, _, _ in g.edges}):
        fail("size", f"sizes {m.num_nodes} {m.num_detectors} {m.num_fault_ids} {m.num_edges} for nodes {f} of {N}, ids {idmap} of {NI}, {g}")
    ctx = f"(nodes at {f}, ids at {idmap})"
    syns, rows, answers = [], [], []

    def small(row):
        nz = np.flatnonzero(row)
        out = 0
        for x in nz.tolist():
            if x not in idmap:
                fail("prediction", f"id {x} is flipped by no edge {ctx} {g}")
            out |= 1 << idmap.index(x)
        return out

    for _ in range(8 if many else 4):
        s = t.full(r.randrange(len(t.syn)))
        best = t.best(s)
        row = np.zeros(N, dtype=np.uint8)
        for i in range(g.n):
            row[f[i]] = s >> i & 1
        out, w = m.decode(row, return_weight=True)
        evaluated()
        if out.shape != (NI,):
            fail("shape", f"decode returned {out.shape} {ctx} {g}")
        got = small(out)
        check_answer(g, "decode " + ctx, s, got, w, best, 1e-9)
        syns.append(s)
        rows.append(row)
        answers.append((got, best))
        e = m.decode_to_edges_array(row).tolist()
        evaluated()
        acc = {}
        for u, v in e:
            if u not in back or (v >= 0 and v not in back):
                fail("edges", f"edges {e} name other nodes {ctx} {g}")
            for x in (u, v):
                if x >= 0:
                    acc[x] = acc.get(x, 0) ^ 1
        if sorted(x for x, b in acc.items() if b) != np.flatnonzero(row).tolist():
            fail("edges", f"edges {e} do not have syndrome {np.flatnonzero(row).tolist()} {ctx} {g}")
        if not neg:
            p = m.decode_to_matched_dets_array(row).tolist()
            d = m.decode_to_matched_dets_dict(row)
            evaluated()
            want = np.flatnonzero(row).tolist()
            if sorted(x for q in p for x in q if x >= 0) != want or sorted(d) != want:
                fail("pairs", f"pairs {p} / {d} do not cover syndrome {want} {ctx} {g}")
        if bin(s).count("1") >= 2:
            nontrivial("g", repr(g), s, tuple(f))
    shots = r.randint(65500, 66500) if many else r.randint(1, 6)
    pick = [r.randrange(len(rows)) for _ in range(shots)]
    a = np.array(rows, dtype=np.uint8)[pick]
    ps, pp = r.random() < 0.5, r.random() < 0.5
    pred, ws = m.decode_batch(np.packbits(a, bitorder="little", axis=1) if ps else a, return_weights=True,
                              bit_packed_shots=ps, bit_packed_predictions=pp)
    evaluated()
    if pred.shape != (shots, (NI + 7) // 8 if pp else NI) or ws.shape != (shots,):
        fail("shape", f"decode_batch returned {pred.shape} {ws.shape} for {shots} shots {ctx} {g}")
    if pp:
        pred = np.unpackbits(pred, axis=1, bitorder="little")[:, :NI]
    want = np.zeros((len(rows), NI), dtype=np.uint8)
    for j, (got, _) in enumerate(answers):
        for i, x in enumerate(idmap):
            want[j, x] = got >> i & 1
    want = want[pick]
    if not np.array_equal(pred, want):
        j = int(np.flatnonzero((pred != want).any(axis=1))[0])
        fail("disagree", f"decode_batch (packed {ps},{pp}) shot {j} of {shots} differs from decode {ctx} {g}")
    if not np.allclose(ws, np.array([b[0] for _, b in answers])[pick], atol=1e-9):
        fail("weight", f"decode_batch weights differ from the minima {ctx} {g}")
    count("batches of more than 65535 shots" if many else "graphs with nodes beyond 16 bits")
    count("graphs with fault ids beyond 16 bits", int(NI > 65536))


def S_note():
    return _state.note_text[:3000]


def case_forest(r, idx):
    """Hundreds of detection events at once on graphs where the minimum is unique and known: a forest whose trees reach the
    boundary at most at their roots (and, with positive weights, edges too heavy to be used)."""
    n = r.choice([r.randint(2, 30), r.randint(30, 120), r.randint(100, 500), r.choice([63, 64, 65, 127, 128, 255, 256, 257])])
    shape = r.randrange(4)
    par = [None] * n
    for k in range(1, n):
        if r.random() < 0.02:
            continue
        par[k] = k - 1 if shape == 0 else r.randrange(k) if shape == 1 else max(0, k - 1 - r.randrange(4)) if shape == 2 else r.randrange(min(k, 5))
    wm = r.randrange(4)
    neg = wm == 3
    wt = [[lambda: r.randint(1, 1000), lambda: r.choice([0, 1, 2]), lambda: r.uniform(0.01, 10), lambda: r.uniform(-5, 5)][wm]() for _ in range(n)]
    nids = r.choice([n, n, r.randint(1, 70), r.randint(65, 300)])
    own = nids == n  # each edge its own id: predictions name the edges
    ids = [{k} if own else {r.randrange(nids) for _ in range(r.randrange(3))} for k in range(n)]
    with_b = [par[k] is None and r.random() < 0.8 for k in range(n)]
    perm = list(range(n))
    r.shuffle(perm)
    how = r.randrange(4)
    declared = how in (1, 3)  # boundary edges lead to one ordinary node
    extra = []
    if not neg and n > 2 and r.random() < 0.5:
        heavy = sum(wt) + 1
        have = {(min(k, par[k]), max(k, par[k])) for k in range(n) if par[k] is not None}
        comp = [k for k in range(n)]
        for k in range(1, n):
            if par[k] is not None:
                comp[k] = comp[par[k]]
        for _ in range(r.randint(1, n)):
            a, b = sorted(r.sample(range(n), 2))
            if (a, b) not in have and comp[a] == comp[b]:
                have.add((a, b))
                extra.append((a, b, heavy * r.uniform(1, 3) if wm == 2 else heavy + r.randrange(9), {r.randrange(nids)}))
    cols = [(perm[k], perm[par[k]] if par[k] is not None else None, wt[k], ids[k], k) for k in range(n) if par[k] is not None or with_b[k]]
    cols += [(perm[a], perm[b], w, i, None) for a, b, w, i in extra]
    r.shuffle(cols)
    note(f"forest n={n} par={par} perm={perm} how={how} cols={cols}")
    N = n
    if how < 2:
        m = pymatching.Matching()
        for u, v, w, i, _ in cols:
            if v is None and not declared:
                m.add_boundary_edge(u, fault_ids=i, weight=w)
            else:
                u, v = (u, n) if v is None else (u, v) if r.random() < 0.5 else (v, u)
                m.add_edge(u, v, fault_ids=i, weight=w)
        if declared:
            if m.num_nodes == n + 1:
                m.set_boundary_nodes({n})
                N = n + 1
        if m.num_nodes < N:
            m.set_boundary_nodes({N - 1})
            m.set_boundary_nodes({n} if N > n else set())
        m.ensure_num_fault_ids(nids)
    else:
        import scipy.sparse as sp
        H = np.zeros((n, len(cols)), dtype=np.uint8)
        F = np.zeros((nids, len(cols)), dtype=np.uint8)
        for c, (u, v, w, i, _) in enumerate(cols):
            H[u, c] = 1
            if v is not None:
                H[v, c] = 1
            for q in i:
                F[q, c] = 1
        m = pymatching.Matching.from_check_matrix(
            sp.csc_matrix(H), weights=np.array([c[2] for c in cols]), faults_matrix=sp.csr_matrix(F),
            use_virtual_boundary_node=not declared)
        if declared and any(c[1] is None for c in cols):
            N = n + 1
    if m.num_nodes != N or m.num_detectors != n or m.num_edges != len(cols) or m.num_fault_ids != nids:
        fail("size", f"{m} with {m.num_fault_ids} ids from {S_note()}")
    top = max([abs(c[2]) for c in cols], default=1)
    exact = wm < 2
    tol = 1e-6 if exact else (len(cols) + 2) * top / (NDW - 1)
    bnode = n if N > n else -1
    node = {}
    for k in range(n):
        if par[k] is not None:
            node[frozenset((perm[k], perm[par[k]]))] = k
        elif with_b[k]:
            node[frozenset((perm[k], bnode))] = k
            node[frozenset((perm[k], -1))] = k
    rows, want_ids, want_w = [], [], []
    for shot in range(4):
        dens = r.choice([0.05, 0.3, 0.5, 0.9, 1.0])
        bits = [int(r.random() < dens) for _ in range(n)]
        acc = bits[:]
        use = []
        ok = True
        for k in range(n - 1, -1, -1):
            if not acc[k]:
                continue
            if par[k] is not None:
                acc[par[k]] ^= 1
                use.append(k)
            elif with_b[k]:
                use.append(k)
            elif r.random() < 0.95:
                bits[k] ^= 1
            else:
                ok = False
        z = np.zeros(r.choice([n, N]), dtype=r.choice([np.uint8, bool, np.int64]))
        for k in range(n):
            z[perm[k]] = bits[k]
        ctx = f"syndrome {np.flatnonzero(z).tolist()}"
        if not ok:
            for what, fn in (("decode", m.decode), ("decode_to_edges_array", m.decode_to_edges_array),
                             ("decode_to_matched_dets_array", m.decode_to_matched_dets_array),
                             ("decode_to_matched_dets_dict", m.decode_to_matched_dets_dict),
                             ("decode_batch", lambda z: m.decode_batch(z.reshape(1, -1)))):
                expect_error(f"{what} of a syndrome that cannot be matched ({ctx})", lambda: fn(z), S_note())
            count("forest-unmatchable")
            continue
        w0 = sum(wt[k] for k in use)
        w1 = np.zeros(nids, dtype=np.uint8)
        for k in use:
            for i in ids[k]:
                w1[i] ^= 1
        got, w = m.decode(z, return_weight=True)
        evaluated()
        if abs(w - w0) > tol:
            fail("weight", f"decode gives weight {w}, the only solution weighs {w0}; {ctx} {S_note()}")
        if not np.array_equal(got, w1):
            fail("prediction", f"decode predicts {np.flatnonzero(got).tolist()}, the only solution flips {np.flatnonzero(w1).tolist()}; {ctx} {S_note()}")
        e = [tuple(x) for x in m.decode_to_edges_array(z).tolist()]
        evaluated()
        named = sorted(node.get(frozenset(x), -9) for x in e)
        if named != sorted(use):
            fail("edges", f"decode_to_edges_array gives {e}, other than the edges {sorted(use)} of the only solution; {ctx} {S_note()}")
        if not neg:
            a = [tuple(x) for x in m.decode_to_matched_dets_array(z).tolist()]
            d = m.decode_to_matched_dets_dict(z)
            evaluated(2)
            dd = []
            for k, v in d.items():
                if v is not None and d.get(v, "absent") != k:
                    fail("pairs", f"mate dictionary {d} is not symmetric; {ctx} {S_note()}")
                if v is None or k < v:
                    dd.append((k, -1 if v is None else v))
            where = {perm[k]: k for k in range(n)}
            for what, pairs in (("array", a), ("dict", dd)):
                if sorted(x for q in pairs for x in q if x >= 0) != np.flatnonzero(z).tolist() or any(q[0] < 0 for q in pairs):
                    fail("pairs", f"pairs ({what}) {pairs} do not partition the detection events; {ctx} {S_note()}")
                odd, tot = {}, 0
                for q in pairs:
                    up = []
                    for x in q:
                        if x >= 0:
                            k = where[x]
                            while k is not None:
                                up.append(k)
                                k = par[k]
                    # the path between the two: what only one of the two ways up uses
                    path = [k for k in set(up) if up.count(k) % 2]
                    if any(par[k] is None and (q[1] >= 0 or not with_b[k]) for k in path):
                        fail("pairs", f"pair {q} ({what}) is not connected; {ctx} {S_note()}")
                    for k in path:
                        odd[k] = odd.get(k, 0) ^ 1
                        tot += wt[k]
                if abs(tot - w0) > tol or (wm in (0, 2) and sorted(k for k, b in odd.items() if b) != sorted(use)):
                    fail("pairs", f"pairs ({what}) {pairs} are {tot} apart in total, minimum {w0}; {ctx} {S_note()}")
        rows.append(np.array([z[i] if i < len(z) else 0 for i in range(N)], dtype=np.uint8))
        want_ids.append(w1)
        want_w.append(w0)
        count("forest-shots")
        if len(use) > 1:
            nontrivial("f", repr(par), tuple(np.flatnonzero(z).tolist()), how)
    if rows:
        ps, pp = r.random() < 0.5, r.random() < 0.5
        pick = [r.randrange(len(rows)) for _ in range(r.randint(1, 12))]
        a = np.array(rows)[pick]
        pred, ws = m.decode_batch(np.packbits(a, axis=1, bitorder="little") if ps else a, return_weights=True, bit_packed_shots=ps, bit_packed_predictions=pp)
        want = np.array(want_ids)[pick]
        if pp:
            want = np.packbits(want, axis=1, bitorder="little")
        evaluated(len(pick))
        if not np.array_equal(pred, want) or not np.allclose(ws, np.array(want_w)[pick], atol=tol, rtol=0):
            fail("disagree", f"decode_batch (packed {ps},{pp}) gives other results than the only solutions for {[np.flatnonzero(x).tolist() for x in a]}; {S_note()}")


def case(r, idx):
    if idx % 401 == 17:
        return case_giant(r, idx)
    if idx % 13 == 6:
        return case_forest(r, idx)
    if idx % 5 == 4:
        case_dem(r, idx)
    else:
        case_graph(r, idx)


run_cases("C19", case)
