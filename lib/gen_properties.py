"""Writes properties.jsonl (kept as code so the text is reviewable in one place)."""
import json, os
S = "src/pymatching/sparse_blossom/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, **anch):
    a = {"files": files, "mechanism": mechanism}
    a.update(anch)
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Decoding returns the minimum total weight",
     "For every matching graph (weights of any sign, zero weights, ties, self-loops, any boundary edges, disconnected parts) and every "
     "syndrome that some set of edges reproduces, decoding succeeds and the reported solution weight equals the minimum total "
     "weight over all edge sets whose flipped detectors are exactly the syndrome (modulo the boundary). Weights are compared in the "
     "integer units the decoder works in, so equality is exact.",
     ["inputs"], "all weighted graphs x all syndromes, detection events listed in any order",
     "Blossom formation, shattering and tie handling depend on global coincidences of weights; a handful of graphs cannot cover them.",
     [S + "matcher/mwpm.cc", S + "flooder/graph_flooder.cc", S + "driver/mwpm_decoding.cc", S + "flooder/graph.cc"],
     "event-driven flooding plus alternating trees and blossoms; negative weights handled by pre-flipping")
prop("C02", "Predicted observables belong to a minimum-weight solution",
     "Whenever a decode returns a set of flipped observables together with a weight, there is an edge set that reproduces the "
     "syndrome, has exactly the reported (minimum) weight and flips exactly the predicted observables. This holds for every "
     "assignment of observables to edges, including edges that flip several observables and negative-weight edges, up to and including 64 observables.",
     ["inputs"], "all graphs with observables x all syndromes",
     "Observable masks are carried through regions, blossoms, tree edges and pre-flipped negative edges; losing one bit only shows "
     "for particular structures and observable placements.",
     [S + "matcher/mwpm.cc", S + "matcher/alternating_tree.cc", S + "flooder_matcher_interop/compressed_edge.cc", S + "flooder/graph_flooder.cc"],
     "compressed edges accumulate the observables crossed between detection events")
prop("C03", "Decoding to edges yields a minimum-weight correction",
     "Decoding a syndrome to a list of edges returns edges of the graph, each at most once, whose combined effect is exactly the "
     "syndrome and whose total signed weight is the minimum, and hence equals the weight the ordinary decode reports. "
     "Boundary edges are listed with -1 as the second endpoint, and repeated calls leave no marks behind.",
     ["inputs", "histories"], "all graphs (no self-loops) x all syndromes x preceding calls",
     "Cancelling shared edges between paths and re-flipping negative edges only matters when shortest paths overlap.",
     [S + "driver/mwpm_decoding.cc", S + "search/search_flooder.cc", S + "search/search_graph.cc"],
     "shortest-path search between matched detection events, edges toggled so that repeats cancel")
prop("C04", "Matched-pair decoding is a minimum-weight perfect pairing",
     "Decoding to matched detection events returns a pairing in which every detection event of the syndrome appears exactly once, "
     "paired with another detection event or with the boundary, and the sum of shortest-path lengths over the pairs is the minimum "
     "solution weight. Each returned pair also carries the observables of a shortest path between its two ends; "
     "graphs with negative total weight offset are refused.",
     ["inputs"], "all graphs with non-negative weights x all explainable syndromes",
     "Unpacking nested blossoms into pairs is recursive; wrong rotations appear only for particular nestings.",
     [S + "matcher/mwpm.cc", S + "driver/mwpm_decoding.cc"],
     "recursive shattering of blossoms into match edges")
prop("C05", "Each decode is independent of what the decoder did before",
     "Decoding a syndrome on a decoder that has already performed any sequence of decodes, in any mixture of modes (observables, "
     "64-bit mask, edges, matched pairs, correlated) and including decodes that failed, gives the same weight, observables, edges and pairs as on a "
     "freshly built decoder. After each decode no in-progress search state remains.",
     ["histories", "inputs"], "all finite sequences of decode calls on one decoder",
     "Leftover state is only visible to later, differently shaped syndromes; tests decode few shots per decoder.",
     [S + "driver/mwpm_decoding.cc", S + "matcher/mwpm.cc", S + "flooder/detector_node.cc", S + "search/search_flooder.h", S + "arena.h"],
     "cleanup while shattering, arena recycling, queue and search resets")
prop("C06", "Bad syndromes are rejected and leave the decoder usable",
     "A syndrome with odd parity on a connected part without a boundary, or naming a detector that does not exist, is reported "
     "as an invalid-argument error in every decoding mode, never answered, crashed on or looped on. After such an error the same decoder "
     "decodes every later syndrome correctly.",
     ["inputs", "histories", "fault_sequences"], "all unexplainable or out-of-range syndromes at any position in a history",
     "Error paths are entered mid-way with partial state; which state leaks depends on the syndrome.",
     [S + "driver/mwpm_decoding.cc", S + "matcher/mwpm.cc"],
     "completion check after the timeline and a full reset before the error is raised")
prop("C07", "Correlated decoding re-decodes with the implied weights and restores them",
     "With correlations enabled, the result is a minimum-weight solution of the graph in which every edge implied by a "
     "first-pass minimum-weight correction has its weight lowered to log((1-q)/q) with q=min(1/2, joint/marginal probability), and the "
     "reported weight is measured with those weights. Afterwards all edge weights are exactly what they were, and decoding with "
     "correlations on a model loaded without them is refused.",
     ["inputs", "histories"], "all decomposed error models x syndromes x interleavings of correlated and plain decodes",
     "Two passes over two mirrored graphs must agree; a missed mirror update or restore only shows for certain corrections.",
     [S + "driver/user_graph.cc", S + "driver/user_graph.h", S + "driver/mwpm_decoding.cc", S + "flooder/graph.cc", S + "flooder/graph.h", S + "search/search_graph.cc"],
     "implied-weight tables per edge, lowered before the second pass and undone afterwards")
prop("C08", "No memory error or undefined behaviour under any API history",
     "No sequence of graph edits, decodes in any mode, failing calls, path queries, noise sampling, moves and resets of decoders causes an "
     "out-of-bounds access, use of freed or uninitialised memory, a leak of decoder objects, integer overflow or other undefined behaviour.",
     ["histories", "inputs"], "all API call sequences on graphs within documented limits",
     "Pointers are recycled through arenas and intrusive structures; tests sample few histories and do not run the driver at all here.",
     [S + "arena.h", S + "matcher/mwpm.cc", S + "flooder/graph_fill_region.cc", S + "driver/user_graph.cc", S + "driver/mwpm_decoding.cc"],
     "object arenas, intrusive region/tree pointers, raw output buffers")
prop("C09", "The event queue delivers every event once, in time order",
     "For any interleaving of pushes and pops that never schedules into the past, the queue returns every pushed event exactly once, in "
     "non-decreasing time order, reports its size and emptiness correctly, and keeps its clock equal to the time of the last event delivered. "
     "This holds when the 32-bit event times wrap around, for any gap below half the cycle, and after the queue is cleared or reset.",
     ["histories"], "all push/pop/clear sequences with times up to half a cycle ahead, across wrap-around",
     "Bucket redistribution depends on bit patterns of time differences; wrap-around needs long histories.",
     [S + "tracker/radix_heap_queue.h", S + "tracker/cyclic.h"],
     "radix heap over cyclic times")
prop("C10", "A tracked entity is always woken exactly at its desired time",
     "However an entity changes its mind (sooner, later, cancel, re-request, across time wrap-around), it receives a wake-up that is accepted at exactly its "
     "currently desired time, no wake-up is accepted at any other time, accepted at most once per request, and every stale queue entry is swallowed.",
     ["histories"], "all sequences of request / cancel / time-advance operations for any number of entities",
     "Correctness depends on the relation between the queued and the desired time over a whole history.",
     [S + "tracker/queued_event_tracker.h", S + "tracker/radix_heap_queue.h"],
     "lazy re-queueing: desired time and queued time tracked separately")
prop("C11", "Path queries return shortest paths",
     "For any two distinct connected detectors, or a detector and the boundary, the path query returns an actual path of the graph between them, "
     "ordered from source to target when requested so, whose length is the shortest distance under absolute edge weights. Queries do not affect later "
     "queries, and a query naming a node that is not in the graph or has no path is refused rather than crashing.",
     ["inputs", "histories"], "all graphs x all source/target pairs x preceding queries",
     "Bidirectional search meets in the middle; ties, zero weights and heavy edges decide the meeting point.",
     [S + "search/search_flooder.cc", S + "search/search_flooder.h", S + "driver/user_graph.cc"],
     "bidirectional flooding with trace-back from the collision edge")
prop("C12", "Time and growth arithmetic is exact, including wrap-around",
     "Widening a wrapped time back to an absolute time returns the original whenever it lies within half a cycle of the reference, ordering and "
     "differences of wrapped times agree with the true ones in that range, and a value that grows, freezes or shrinks over time keeps its value at every "
     "switch and evaluates to base plus slope times elapsed time for all times.",
     ["inputs"], "all time values, including negative and beyond 32 bits, and all sequences of growth changes",
     "Boundary values around wrap and sign changes are too many to list.",
     [S + "tracker/cyclic.h", S + "flooder_matcher_interop/varying.h", S + "flooder_matcher_interop/varying.inl"],
     "modular comparison; slope packed into the low bits")
prop("C13", "Weight discretisation is exact for integers and tightly bounded otherwise",
     "If all weights are integers no larger than 2^24-1 in magnitude, the reported solution weight is exactly the true minimum; otherwise the solution "
     "returned has true weight within (number of edges of the graph) x half a step of the true minimum and the reported weight is within (number of edges in the solution) x half a step of its true weight, "
     "where a step is max |weight| / (2^24-1), i.e. every weight is rounded to the nearest step. "
     "Weights above the limit in magnitude, infinite or NaN are refused, and scaling all weights by a constant does not change this.",
     ["inputs"], "all real-weighted graphs x syndromes, any overall weight scale",
     "Rounding effects depend on the ratio of weights and the overall scale.",
     [S + "driver/user_graph.h", S + "driver/user_graph.cc"],
     "normalising constant, rounding to even integers, rescaling of the result")
prop("C14", "Graph building follows the documented merge rules",
     "After any sequence of edge and boundary-edge insertions with any merge strategy (disallow, independent, smallest-weight, keep-original, replace), "
     "boundary changes and observable-count requests, the graph's nodes, edges, weights, error probabilities, observables, boundary set and counts are exactly what a "
     "straightforward reference model gives, in either endpoint order. Failed insertions change nothing but possibly the number of nodes.",
     ["histories"], "all sequences of graph-building calls",
     "State depends on the order and orientation of many insertions; tests use one or two merges.",
     [S + "driver/user_graph.cc", S + "driver/user_graph.h"],
     "adjacency lists sharing edge records, merge on parallel insertion")
prop("C15", "Detector error models load to the graph they describe",
     "Loading any detector error model gives one edge per distinct detector pair or single detector that appears as a component of an error with non-zero probability, with the independent combination of all "
     "contributing probabilities, the corresponding log-likelihood weight and the observables of the first contributing component. Repeat blocks, detector shifts, separators, "
     "zero-probability errors, observable-only errors and components with more than two detectors are handled as documented, with or without correlations.",
     ["inputs"], "all detector error models with probabilities in [0,1] (at most 1/2 with correlations)",
     "Only whole families of models exercise merging, decomposition and shifting together; the driver is not even compiled by the stable tests here.",
     [S + "driver/user_graph.cc", S + "driver/user_graph.h"],
     "flattened instruction iteration, per-component insertion with independent merging")
prop("C16", "Sampled noise is consistent, reproducible and correctly distributed",
     "Each noise sample flips exactly the detectors and observables caused by one random subset of edges in which every edge appears independently with its error probability, "
     "with boundary nodes always zero. The same seed reproduces the same samples, edges with probability 0 never and with probability 1 always occur, and nothing is sampled unless every edge currently has a "
     "probability in [0,1].",
     ["inputs", "histories"], "all graphs with error probabilities x seeds",
     "Consistency must hold for every sample and the distribution is a statistical statement.",
     [S + "driver/user_graph.cc", "src/pymatching/rand/rand_gen.cc"],
     "one uniform draw per edge from a global seeded generator")
prop("C17", "Decoding terminates correctly at any time and distance scale",
     "Decoding gives the exact minimum and terminates on graphs whose distances are arbitrarily large multiples of the largest edge weight (long chains, "
     "large rings, big grids and trees, with weights up to the maximum, alternating trees of any depth), even though internal event times wrap around many times. Results at such scales agree with those computed with exact 64-bit arithmetic.",
     ["inputs"], "all graphs within node-count limits, weights up to 2^24-1 per edge, path lengths far beyond 2^32",
     "Needs long paths with heavy weights, far beyond test sizes; overflow shows up only past specific thresholds.",
     [S + "flooder/detector_node.cc", S + "flooder/graph_flooder.cc", S + "tracker/radix_heap_queue.h", S + "search/search_flooder.cc"],
     "64-bit cumulative times, 32-bit cyclic event times")
prop("C18", "More than 64 observables decode as correctly as few",
     "With any number of observables above 64 the decode returns the minimum weight and a prediction that belongs to a minimum-weight solution, with the output of "
     "exactly one entry per observable, including observables flipped by negative-weight edges. Reported weights agree with those obtained for the same graph with few observables.",
     ["inputs"], "all graphs with more than 64 observables x syndromes",
     "A separate code path re-traces paths with a second graph; tests reach it with few structures.",
     [S + "driver/mwpm_decoding.cc", S + "matcher/mwpm.cc", S + "search/search_graph.cc"],
     "match edges re-expanded into paths by the search graph")
prop("C19", "Python decoding entry points agree with each other",
     "For every graph and batch of syndromes, single-shot decode, batch decode (plain or bit-packed shots, plain or bit-packed predictions, with or without weights, dense or integer dtypes), "
     "edge decoding and matched-pair decoding from Python all describe the same minimum-weight answer, with bit k of packed data in bit k mod 8 of byte k div 8. Wrongly shaped or sized inputs raise errors.",
     ["inputs"], "all graphs x batches x packing options x accepted syndrome lengths",
     "The bindings are not compiled by the stable tests here; packing errors appear only for particular counts modulo 8.",
     ["src/pymatching/matching.py", S + "driver/user_graph.pybind.cc"],
     "array conversion and bit packing in the bindings; argument handling in Python")
prop("C20", "Python loaders build the graph their input describes",
     "Building from a check matrix (any sparse or dense form, weights, error probabilities, repetitions, time-like weights, faults matrix, virtual or explicit boundary), from a networkx or rustworkx graph, from a detector error model or from edge calls gives "
     "exactly the described nodes, edges, weights, probabilities and fault ids, and exporting to networkx or rustworkx and loading back preserves every edge with its attributes and the boundary (a virtual boundary becomes a boundary node; networkx leaves out nodes without edges). Drawing shows every connected node and edge with its labels and changes nothing. Invalid inputs are refused and leave the graph as it was.",
     ["inputs"], "all check matrices with columns of weight at most 2, all annotated networkx graphs, all parameter combinations",
     "Many optional parameters interact (repetitions with scalars or arrays, boundaries, merge strategies).",
     ["src/pymatching/matching.py", S + "driver/user_graph.pybind.cc"],
     "sparse column iteration, attribute normalisation")
prop("C21", "The command line tools report exactly what the decoder predicts",
     "For every error model and shot file, the predict command writes, for each shot in order, one record with one bit per observable equal to the library's prediction, and count_mistakes reports the number of shots whose "
     "prediction differs from the recorded observables over the number of shots. This holds for all combinations of input and output formats and of appended or separate observables, and shots do not influence each other; a run, finished or refused, has closed every file it opened. The same holds when the tool is called from Python (pymatching.cli or the console script). Unknown commands, options or formats, unreadable models, undecodable shots, and counting without any recorded observables to compare with, are refused.",
     ["inputs"], "all error models x shot streams x format options",
     "The command line driver is not built by the stable tests here; state carried between shots needs particular sequences.",
     [S + "driver/namespaced_main.cc", S + "driver/mwpm_decoding.h"],
     "streaming loop over shots with a reused result buffer")
prop("C22", "The flooding state is a feasible, consistent picture at every step",
     "At every event of every decode, no edge between differently owned detectors is over-covered by the territories growing from its ends, territories only overlap inside one cluster, each detector's recorded owner, arrival "
     "distance, source and observables agree with the region that holds it, and simulated time never goes backwards. Consequently no event that should happen is missed or late.",
     ["histories", "inputs"], "every event of every decode on all graphs",
     "Intermediate states are invisible to result-level tests, and an inconsistency often cancels out on small inputs.",
     [S + "flooder/graph_flooder.cc", S + "flooder/graph_fill_region.cc", S + "flooder/detector_node.h"],
     "local radii computed from region radii and cached wrapped radii",
     state="detector ownership, region radii, queue clock", observe_at="between events of the decode loop")
prop("C23", "Matching structure stays well formed through every tree and blossom step",
     "After each processed event, every detection event's outermost cluster is either in exactly one alternating tree (growing outer, shrinking inner, one root per tree) or matched symmetrically and frozen; every blossom is an odd "
     "cycle of clusters closed by edges that really join them; and the observables on every recorded edge are those of a real path between its two ends whose length equals the distance covered. When decoding ends no tree remains.",
     ["histories", "inputs"], "every matcher event of every decode on all graphs",
     "Structural damage is usually repaired or hidden before the end result; only rare later events expose it.",
     [S + "matcher/mwpm.cc", S + "matcher/alternating_tree.cc", S + "flooder_matcher_interop/region_edge.h"],
     "tree grafting, rotation, blossom formation and shattering",
     state="alternating trees, matches, blossom cycles", observe_at="after each processed event")
prop("C24", "Edits made after decoding take effect on the next call",
     "Changing a graph after it has been used (adding or merging edges, changing the boundary, adding nodes, requesting more observables) makes every later decode, path query and noise sample behave exactly as on a graph built from scratch "
     "with the final contents, in every interleaving of edits and calls and across decoding modes. Inserting nothing, or a merge that keeps the original, changes nothing.",
     ["histories"], "all interleavings of graph edits with decodes, edge decodes, correlated decodes and path queries",
     "Staleness of a cached decoder needs a specific sequence of call, edit, call.",
     [S + "driver/user_graph.cc", S + "driver/user_graph.h"],
     "cached decoder with an invalidation flag, optional second graph")
prop("C25", "Independent decoders can run concurrently without interference",
     "Decoders and graphs that are separate objects share no mutable state: used simultaneously from different threads, or interleaved in one thread, each produces exactly the results it produces alone, with no data race.",
     ["schedules", "histories"], "all interleavings of operations on distinct decoder objects",
     "Single-threaded tests cannot observe hidden shared state or races.",
     [S + "matcher/mwpm.cc", S + "flooder/graph_flooder.cc", S + "driver/mwpm_decoding.cc", S + "driver/user_graph.cc"],
     "no globals outside the random generator")
prop("C26", "Animation frames show the decode that really happens",
     "For every matching graph with non-negative weights and every set of detection events that can be matched, the animation ends and writes complete SVG files numbered consecutively from frame_00000: the requested held frames of the "
     "initial state, the requested number of frames highlighting each matching event, growth frames exactly max_growth time units apart in between, and the requested held frames of the finished matching. Every frame draws each edge, "
     "boundary edge and detector once at its place (detection events in red), each cluster in the colour of its state and reaching as far along every edge as it has grown at that moment, and the trees, blossom cycles and matched pairs "
     "of that moment; the animated decode ends in a minimum-weight matching. Shots that cannot be matched and incomplete command lines are refused, and no input file stays open.",
     ["inputs", "histories"], "all graphs x detection events x frame options",
     "The drawing code is not built by the stable tests and has no tests of its own; whether a picture is right depends on every step before it.",
     [S + "diagram/mwpm_diagram.cc", S + "diagram/animation_main.cc", S + "flooder/detector_node.cc"],
     "stepwise drive of the decoder with pictures of intermediate times")

prop("C27", "Python results are independent values, arguments stay as given, nothing leaks",
     "For every sequence of Python calls, each array, list, set or dictionary that a call returns stays as it is whatever is done with the Matching object afterwards (further decodes, edits, deletion), and changing it changes neither "
     "the Matching object nor later results; no call modifies the arrays, matrices, graphs, sets or models it was given. Repeating any sequence of calls, including calls that are refused, does not accumulate memory or open files, and deleting a "
     "Matching object releases what it held.",
     ["histories", "inputs"], "all sequences of Python calls, refused ones included",
     "The bindings are not compiled by the stable tests here; shared buffers and leaks on error paths give right answers in any single test.",
     ["src/pymatching/matching.py", S + "driver/user_graph.pybind.cc", S + "driver/user_graph.pybind.h"],
     "heap vectors handed to NumPy through capsules; error paths between allocation and hand-over")

prop("C28", "Decoding work follows the detection events, not graph size or history",
     "For every matching graph and every set of detection events that can be matched, the work a decode takes (steps executed, bytes moved and allocated; to observables, edges or matched pairs, plain or correlated) is set by the events and what lies around them: "
     "the same events in a graph that is part of an arbitrarily larger one, connected to it by edges too heavy to be used, cost the same; the same events in each of k separate copies of a graph cost k times as much; noise of a given rate on a larger lattice costs in proportion to its size; "
     "and a call costs the same after any number of earlier calls on the same object. Making a decoder, loading a model, adding edges and sampling noise take time linear in the size of the graph (apart from logarithmic factors).",
     ["inputs", "histories"], "all graphs x embeddings x detection events x histories",
     "The documentation promises a runtime roughly linear in the number of nodes and cost that follows the detection events; a decoder that visits every node for each shot, or slows down with use, gives right answers in every test.",
     ["README.md", S + "driver/mwpm_decoding.cc", S + "driver/user_graph.cc", S + "flooder/graph_flooder.cc", S + "search/search_flooder.cc", S + "tracker/radix_heap_queue.h", S + "arena.h"],
     "reset of only the nodes that were reached; cached decoder; reused buffers and arenas")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
