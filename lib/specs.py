"""What each property's check runs, how much of it, and how its coverage is counted."""


def cxx(name, harness, quick, thorough, **kw):
    return dict(name=name, kind="cxx", harness=harness, cases={"quick": quick, "thorough": thorough}, **kw)


def py(name, harness, quick, thorough, **kw):
    return dict(name=name, kind="py", harness=harness, cases={"quick": quick, "thorough": thorough}, **kw)


PYB = ("pybind11 and Stim are not installed: the repository's binding sources are compiled against a small stand-in for "
       "pybind11 (shim/pybind11, written for this task), which runs the repository's own Python tests successfully")
STIM = "Stim is not installed; a stand-in header (shim/stim.h) parses detector error models and shot files"
TECH = ("runtime monitoring: the real code, compiled with AddressSanitizer and UndefinedBehaviorSanitizer from /repo's "
        "working tree, is driven by generated workloads while ")

SPECS = {
    "C01": dict(
        runs=[cxx("c01", "h_c01", 20000, 600000)],
        technique=TECH + "an online oracle compares every reported weight with an exact independent minimum",
        rule="distinct (graph, syndrome with >= 3 detection events, minimum weight) triples whose reported weight was "
             "compared with an independent exact minimum",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C02": dict(
        runs=[cxx("c02", "h_c02", 16000, 500000)],
        technique=TECH + "an online oracle checks each predicted observable set against the exact table of (syndrome, "
                         "observables) minimum weights",
        rule="distinct (graph, syndrome, predicted observables) with a non-empty prediction or several optimal classes",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C03": dict(
        runs=[cxx("c03", "h_c03", 20000, 500000)],
        technique=TECH + "an online checker verifies edge membership, boundary effect, weight and absence of leftover marks "
                         "for every returned correction",
        rule="distinct (graph, syndrome, returned edge set) with at least two edges",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C04": dict(
        runs=[cxx("c04", "h_c04", 20000, 500000)],
        technique=TECH + "an online checker verifies that the returned pairs are a perfect pairing of minimum total distance "
                         "with the observables of a shortest path",
        rule="distinct (graph, syndrome, pairing) with at least two pairs",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C05": dict(
        runs=[cxx("c05", "h_c05", 8000, 250000, fallback_flags=("-DVH_NO_INTERNALS",))],
        technique=TECH + "an offline checker replays each step of a recorded call history on a fresh decoder and compares "
                         "the answers, and a monitor inspects the decoder for leftover state after each step",
        rule="distinct (graph, history prefix) pairs of length >= 2 whose last answer was compared with a fresh decoder",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C06": dict(
        runs=[cxx("c06", "h_c06", 16000, 400000)],
        technique=TECH + "an online checker verifies that undecodable syndromes are refused in every mode and that the next "
                         "answers on the same decoder are exact",
        rule="distinct (graph, syndrome, mode) with a bad syndrome whose refusal and follow-up answers were judged",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C07": dict(
        runs=[cxx("c07", "h_c07", 16000, 400000)],
        technique=TECH + "an online oracle recomputes the two-pass correlated decode with exact minimum solutions of the "
                         "reweighted graph, and a monitor compares all edge weights before and after",
        rule="distinct (model, syndrome) whose first pass implied at least one changed weight",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C08": dict(
        runs=[cxx("c08", "h_c08", 10000, 300000),
              cxx("c08v", "h_c08", 48, 1600, flavour="plain", env={"VH_SMALL": "1"},
                  wrapper=["valgrind", "-q", "--error-exitcode=96", "--exit-on-first-error=yes"])],
        technique=TECH + "random API histories run under AddressSanitizer, UndefinedBehaviorSanitizer and (a smaller sample) "
                         "valgrind memcheck, with a live-allocation balance taken over each history",
        rule="distinct API histories containing at least two decodes",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C09": dict(
        runs=[cxx("c09", "h_c09", 60000, 2000000)],
        technique=TECH + "an online checker of the queue's trace specification (multiset, order, clock) watches every call",
        rule="distinct queue histories with at least one wrap or bucket redistribution",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C10": dict(
        runs=[cxx("c10", "h_c10", 100000, 3000000)],
        technique=TECH + "an online checker of the wake-up trace specification watches every request and delivery",
        rule="distinct request/delivery histories with at least one change of mind",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C12": dict(
        runs=[cxx("c12", "h_c12", 12000, 400000)],
        technique=TECH + "every result of the time arithmetic is compared with 128-bit integer arithmetic",
        rule="distinct (operation, operands) evaluated, boundary values included",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C11": dict(
        runs=[cxx("c11", "h_c11", 24000, 800000)],
        technique=TECH + "an online checker verifies every returned path against an independent Dijkstra search and every "
                         "refusal against reachability",
        rule="distinct (graph, source, target) whose returned path had at least three nodes",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C13": dict(
        runs=[cxx("c13", "h_c13", 30000, 1000000)],
        technique=TECH + "an online checker compares reported and true solution weights with an exact minimum over "
                         "high-precision weights",
        rule="distinct (real-weighted graph, syndrome with >= 2 events) decoded and compared with the exact minimum",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C14": dict(
        runs=[cxx("c14", "h_c14", 60000, 2000000)],
        technique=TECH + "a reference model of the graph is compared with the real one after every call",
        rule="distinct call-history prefixes that include at least one merge with an existing edge",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C15": dict(
        runs=[cxx("c15", "h_c15", 60000, 2000000)],
        technique=TECH + "each loaded graph is compared with an independent interpretation of the error model",
        rule="distinct error models in which several errors contribute to one edge",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C16": dict(
        runs=[cxx("c16", "h_c16", 8000, 200000), py("c16p", "h_c16p", 8000, 200000, optional=True)],
        technique=TECH + "an online checker recovers the edge subset behind every sample and an offline checker tests the "
                         "recorded frequencies against a Chernoff bound",
        rule="distinct (seed, graph) sampling sessions of 400 samples (60 from Python) on graphs with at least two edges",
        assumptions=[STIM, PYB, "frequencies are judged at a false-alarm probability below 1e-13 per test"],
        min_evaluations=1000,
    ),
    "C17": dict(
        runs=[cxx("c17", "h_c17", 1600, 50000)],
        technique=TECH + "an online oracle compares every result on long-distance graphs with exact 64-bit shortest paths and "
                         "matching; a CPU-time watchdog judges termination",
        rule="distinct (graph, syndrome) whose minimum weight exceeds one full cycle of the 32-bit event clock",
        assumptions=[STIM],
        min_evaluations=500,
    ),
    "C18": dict(
        runs=[cxx("c18", "h_c18", 24000, 700000)],
        technique=TECH + "an online checker identifies the edge set behind every prediction from per-edge observables and "
                         "verifies syndrome, weight, minimum and output bounds",
        rule="distinct (graph, syndrome, prediction) with a solution of at least two edges",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C19": dict(
        runs=[py("c19", "h_c19", 40000, 1200000)],
        technique=TECH + "the Python package runs on the repository's own bindings and an online oracle compares every entry "
                         "point (single, batch, packed, edges, pairs, correlated) with a brute-force table over all edge "
                         "subsets and with the other entry points",
        rule="distinct (graph, syndrome of >= 2 events), (graph, batch of >= 2 shots, packing) and (model, syndrome with "
             "changed weights) answers compared",
        assumptions=[PYB],
        min_evaluations=1000,
    ),
    "C20": dict(
        runs=[py("c20", "h_c20", 60000, 1500000)],
        technique=TECH + "the Python package runs on the repository's own bindings and an online checker compares the loaded "
                         "graph, edge by edge, with a reference model of the documented meaning of each input",
        rule="distinct inputs of at least two columns, edges or errors whose loaded graph was compared edge by edge",
        assumptions=[PYB, "rustworkx and the stim Python package are replaced by stand-ins with the methods pymatching calls"],
        min_evaluations=1000,
    ),
    "C21": dict(
        runs=[cxx("c21", "h_c21", 24000, 600000, include_cli=True), py("c21p", "h_c21p", 12000, 300000, optional=True)],
        technique=TECH + "the command line entry points run on generated model and shot files and every output file is "
                         "compared byte for byte with records computed shot by shot on decoders of their own",
        rule="distinct (command, model, shot data, formats) runs of at least two shots whose whole output was compared",
        assumptions=[STIM, PYB, "readers and writers of shot files are those of the stand-in, not Stim's"],
        min_evaluations=1000,
    ),
    "C22": dict(
        runs=[cxx("c22", "h_c22", 12000, 300000, fallback_flags=("-DVH_NO_INTERNALS",))],
        technique=TECH + "the event loop is single-stepped and a monitor checks the dual variables (edge slackness, no "
                         "overlap, tightness of matched edges) after every event, and the dual objective against the weight "
                         "at the end",
        rule="distinct (graph, sequence of event kinds and times) of decodes of >= 3 detection events, inspected after every step",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C23": dict(
        runs=[cxx("c23", "h_c22", 16000, 400000, cxxflags=("-DVH_STRUCTURE",), fallback_flags=("-DVH_NO_INTERNALS",))],
        technique=TECH + "the event loop is single-stepped and a monitor checks the forest, blossom and area structure "
                         "after every event",
        rule="distinct (graph, sequence of event kinds and times) of decodes of >= 3 detection events, inspected after every step",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C24": dict(
        runs=[cxx("c24", "h_c24", 24000, 700000)],
        technique=TECH + "an offline checker rebuilds the edited graph from scratch after each call of a history and compares "
                         "the two answers",
        rule="distinct (history, call) comparisons made after an edit that followed an earlier use",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C25": dict(
        runs=[cxx("c25t", "h_c25", 1600, 40000, flavour="tsan", workers=4),
              cxx("c25i", "h_c25", 6000, 150000, cxxflags=("-DVH_INTERLEAVE",))],
        technique="runtime monitoring: scripts on separate decoders run on several threads under ThreadSanitizer, with random "
                  "delays, and step by step interleaved in one thread under AddressSanitizer; every answer is compared with "
                  "the same script run alone",
        rule="distinct interleavings (order in which the steps of all scripts started) observed",
        assumptions=[STIM, "the global random number generator is outside the property (documented as shared)"],
        min_evaluations=1000,
    ),
    "C26": dict(
        runs=[cxx("c26", "h_c26", 12000, 300000, include_cli=True, include_diagram=True,
                  fallback_flags=("-DVH_NO_INTERNALS",))],
        technique=TECH + "every frame file an animation writes is parsed and compared, in order, with the state of a second "
                         "decoder that is stepped alongside one flooding event at a time",
        rule="distinct (graph, detection events, frame options) animations of at least two detection events and one frame, "
             "every frame compared",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
    "C27": dict(
        runs=[py("c27", "h_c27", 8000, 240000)],
        technique=TECH + "kept results and arguments are compared with copies made when they were returned, while a second "
                         "Matching whose results are dropped makes the same calls; the sanitizer's count of live heap bytes is "
                         "recorded around repetitions of whole call sequences",
        rule="distinct (graph, sequence of calls) whose results were watched through later calls and deletion, or whose "
             "repetition was measured",
        assumptions=[STIM, PYB, "a leak is reported when at least 16 bytes stay behind in every one of 180 repetitions"],
        min_evaluations=1000,
    ),
    "C28": dict(
        runs=[cxx("c28", "h_c28", 3000, 90000, flavour="count")],
        technique="runtime monitoring: the real code, compiled from /repo's working tree with coverage instrumentation, is driven "
                  "by generated workloads while a counter records the basic blocks each call executes and the bytes it moves and allocates; "
                  "an online checker compares the counts of calls that have to cost the same",
        rule="distinct (graph, call, detection events) compared between graphs of different size, numbers of copies, and "
             "points of a history",
        assumptions=[STIM],
        min_evaluations=1000,
    ),
}
