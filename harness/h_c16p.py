"""C16 from Python: add_noise, set_seed and rand_float."""
import math
import warnings

import numpy as np
import pymatching
from pymatching import Matching

from pyvh import count, evaluated, fail, nontrivial, note, run_cases, sample

warnings.simplefilter("ignore")


def case(r, idx):
    n = r.randint(1, 8)
    nb = r.randint(0, min(2, n))
    boundary = set(r.sample(range(n), nb))
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)] + [(a, None) for a in range(n)]
    r.shuffle(pairs)
    edges = []
    style = r.randrange(3)
    for k, (u, v) in enumerate(pairs[:r.randint(1, 12)]):
        p = r.choice([0.0, 1.0]) if style == 0 or r.random() < 0.2 else r.uniform(0, 1)
        edges.append((u, v, p))
    missing = r.random() < 0.2
    lost = r.randrange(len(edges)) if missing else -1
    shift = r.choice([0, 0, 60])
    m = Matching()
    for k, (u, v, p) in enumerate(edges):
        kw = {"fault_ids": {k + shift}}
        if k != lost:
            kw["error_probability"] = p
        if v is None:
            m.add_boundary_edge(u, **kw)
        else:
            m.add_edge(u, v, **kw)
    m.set_boundary_nodes(boundary)
    note((edges, boundary, lost))
    if missing:
        for _ in range(3):
            if m.add_noise() is not None:
                fail("none", f"add_noise returned a sample although edge {edges[lost]} has no probability")
            evaluated()
        count("graphs-without-all-probabilities")
        return
    shots = 60
    hits = np.zeros(len(edges), dtype=int)
    seed = r.choice([0, 1, 2 ** 31, 2 ** 32 - 1]) if r.random() < 0.15 else r.randrange(1 << 32)
    runs = []
    for rep in range(2):
        pymatching.set_seed(seed)
        log = []
        for _ in range(shots if rep == 0 else 10):
            noise, syn = m.add_noise()
            evaluated()
            if noise.shape != (m.num_fault_ids,) or syn.shape != (m.num_nodes,) or \
                    not np.issubdtype(noise.dtype, np.integer) or not np.issubdtype(syn.dtype, np.integer):
                fail("shape", f"noise {noise.dtype}{noise.shape} syndrome {syn.dtype}{syn.shape}")
            if any(int(x) not in (0, 1) for x in noise) or any(int(x) not in (0, 1) for x in syn):
                fail("bits", f"noise {noise} syndrome {syn}")
            if noise[:shift].any():
                fail("noise", f"ids of no edge were flipped: {noise}")
            want = [0] * m.num_nodes
            for k, (u, v, p) in enumerate(edges):
                f = int(noise[k + shift])
                if (p == 0.0 and f) or (p == 1.0 and not f):
                    fail("probability", f"edge {edges[k]} flipped={f}")
                if f:
                    want[u] ^= 1
                    if v is not None:
                        want[v] ^= 1
                if rep == 0:
                    hits[k] += f
            for b in boundary:
                want[b] = 0
            if want != [int(x) for x in syn]:
                fail("syndrome", f"noise {noise.tolist()} has syndrome {want}, reported {syn.tolist()} edges {edges} "
                                 f"boundary {boundary}")
            log.append((tuple(noise.tolist()), tuple(syn.tolist())))
        runs.append(log)
    if runs[0][:10] != runs[1]:
        fail("seed", "the same seed gave different samples")
    for k, (u, v, p) in enumerate(edges):
        sd = math.sqrt(max(p * (1 - p), 1e-12) * shots)
        if abs(hits[k] - p * shots) > 6.5 * sd + 6:
            fail("frequency", f"edge {edges[k]} flipped {hits[k]} times of {shots}")
    if len(edges) >= 2:
        nontrivial(repr(edges), seed)
    count("sampled-graphs")
    lo = r.uniform(-5, 5)
    hi = lo + r.choice([1e-3, 1.0, 100.0])
    xs = [pymatching.rand_float(lo, hi) for _ in range(20)]
    if not all(lo <= x <= hi for x in xs) or len(set(xs)) < 5:
        fail("rand_float", f"{xs} for [{lo}, {hi})")
    evaluated()
    if idx < 3:
        sample((edges, boundary))


run_cases("C16", case)
