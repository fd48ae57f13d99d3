// C03: decoding to edges yields a minimum-weight correction.
#include "declared.h"
#include "pmh.h"
using namespace vh;

static std::string estr(const std::vector<int64_t> &e) {
    return vstr(e);
}

// Validates an edge list; returns its weight.
static i64 check_edges(const Graph &g, const std::vector<u64> &syn, const std::vector<int64_t> &edges) {
    std::map<std::pair<int, int>, i64> w;
    for (auto &e : g.edges)
        w[{std::min(e.u, e.v < 0 ? -1 : e.v), std::max(e.u, e.v)}] = 2 * e.w;
    if (edges.size() % 2)
        fail("edges", "odd number of endpoints");
    std::set<std::pair<int, int>> seen;
    std::vector<uint8_t> par(g.n, 0);
    i64 tot = 0;
    for (size_t i = 0; i + 1 < edges.size(); i += 2) {
        int64_t u = edges[i], v = edges[i + 1];
        if (u < 0 || u >= g.n || v < -1 || v >= g.n)
            fail("edges", "endpoint out of range in " + estr(edges) + " " + g.str());
        auto k = std::make_pair((int)std::min(u, v), (int)std::max(u, v));
        auto it = w.find(k);
        if (it == w.end())
            fail("edges", "edge list contains a non-edge: " + estr(edges) + " " + g.str());
        if (!seen.insert(k).second)
            fail("edges", "edge listed twice: " + estr(edges) + " " + g.str());
        par[u] ^= 1;
        if (v >= 0)
            par[v] ^= 1;
        tot += it->second;
    }
    std::vector<u64> got, want = syn;
    for (int i = 0; i < g.n; i++)
        if (par[i])
            got.push_back(i);
    std::sort(want.begin(), want.end());
    if (got != want)
        fail("edges", "edges " + estr(edges) + " have syndrome " + vstr(got) + " instead of " + vstr(want) + " " + g.str());
    return tot;
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C03", [](Rng &r, u64 idx) {
        if (idx % 2503 == 13) {  // more nodes, neighbours or detection events than fit in 16 bits
            Giant G = gen_giant(r, 1, true);
            note(G.str());
            pm::Mwpm m = build_mwpm(G.g, true);
            giant_shots(r, G, 3, [&](const std::vector<u64> &syn, i64 e) {
                std::vector<uint64_t> d(syn.begin(), syn.end());
                std::vector<int64_t> edges;
                bool ok = true;
                try {
                    pm::decode_detection_events_to_edges(m, d, edges);
                } catch (const std::invalid_argument &) {
                    ok = false;
                }
                evaluated();
                if (ok != (e < INF))
                    fail("rejected", std::string(ok ? "answered" : "refused") + " wrongly " + giant_ctx(G, syn));
                if (!ok)
                    return;
                i64 w = check_edges(G.g, syn, edges);
                if (w != e)
                    fail("weight", "edge list weighs " + std::to_string(w) + " but the minimum is " + std::to_string(e) + " " +
                                       giant_ctx(G, syn));
                if (edges.size() >= 4)
                    nontrivial(mix(G.g.n, mix(edges.size(), (u64)w)));
            });
            return;
        }
        GenOpts o;
        bool small = r.chance(0.7);
        o.n_lo = 1;
        o.n_hi = small ? 9 : 60;
        o.max_edges = small ? 48 : 500;
        o.nobs = small ? (int)r.below(3) : (r.chance(0.5) ? 1 : -1);
        Graph g = gen_graph(r, o);
        bool far = r.chance(0.015);
        if (far) {
            g = stretch(r, g);
            small = false;
        }
        note(g.str());
        count((small ? "small:" : "large:") + g.family);
        bool neg = false;
        for (auto &e : g.edges)
            neg |= e.w < 0;
        if (neg)
            count("graphs-with-negative-weights");
        pm::UserGraph ug;
        pm::Mwpm own;
        pm::Mwpm *m;
        bool decl = !far && r.chance(0.1);
        Declared D;
        if (decl) {
            declare_boundary(r, g, true, D);
            note(D.desc);
            m = &D.ug.get_mwpm_with_search_graph();
        } else if (r.chance(0.4)) {
            ug = build_user_graph(g);
            m = &ug.get_mwpm_with_search_graph();
        } else {
            own = build_mwpm(g, true);
            m = &own;
        }
        MatchOracle orc(g);
        std::vector<i64> best;
        if (small) {
            Graph g0 = g;
            g0.nobs = 0;
            for (auto &e : g0.edges)
                e.obs.clear();
            best = SubsetOracle(g0).best;
        }
        int shots = small ? 40 : 8;
        for (int t = 0; t < shots; t++) {
            std::vector<u64> syn;
            if (small && g.n <= 5)
                syn = bits_to_list(t % ((u64)1 << g.n));
            else if (far) {
                std::set<u64> pick;
                for (int k = (int)r.range(1, 6); k > 0; k--)
                    pick.insert(r.below(g.n));
                syn.assign(pick.begin(), pick.end());
            } else
                syn = r.chance(0.6) ? gen_error_syndrome(r, g, r.unit() * 0.6) : gen_syndrome(r, g);
            i64 e;
            if (small) {
                u64 s = 0;
                for (auto x : syn)
                    s |= (u64)1 << x;
                e = best[s];
            } else {
                e = orc.min_weight(syn);
            }
            std::vector<u64> in = decl ? D.map(r, syn) : syn;
            std::vector<uint64_t> d(in.begin(), in.end());
            std::vector<int64_t> edges;
            bool ok = true;
            try {
                pm::decode_detection_events_to_edges(*m, d, edges);
            } catch (const std::invalid_argument &) {
                ok = false;
            }
            evaluated();
            if (!ok) {
                if (e < INF)
                    fail("rejected", "explainable syndrome rejected " + vstr(syn) + " " + g.str());
                continue;
            }
            if (e >= INF)
                fail("edges", "edges returned for an unexplainable syndrome " + vstr(syn) + " " + g.str());
            if (decl)
                D.unmap(edges);
            i64 w = check_edges(g, syn, edges);
            if (w != e)
                fail("weight", "edge list weighs " + std::to_string(w) + " but the minimum is " + std::to_string(e) +
                                   " syndrome " + vstr(syn) + " edges " + estr(edges) + " " + g.str());
            for (auto &n : m->search_flooder.graph.nodes) {
                if (n.reached_from_source)
                    fail("leftover", "search state left behind after decoding to edges");
                for (auto mk : n.neighbor_markers)
                    if (mk & pm::FLIPPED)
                        fail("leftover", "an edge is still marked as flipped after decoding to edges");
            }
            if (edges.size() >= 4)
                nontrivial(mix(g.hash(), mix(edges.size(), (u64)w) ^ (syn.empty() ? 0 : syn[0] * 131 + syn.back())));
            if (r.chance(0.3)) {
                Outcome out = decode(*m, in, g.nobs);
                if (!out.ok || out.weight != w)
                    fail("weight", "ordinary decode reports a different weight than the edge list " + g.str());
            }
        }
        if (idx < 3)
            sample(g.str());
    });
}
