// C11: path queries return shortest paths, and refuse queries that have no answer.
#include "giant.h"
#include "pmh.h"
using namespace vh;

struct World {
    Graph g;                      // all nodes, boundary nodes included; v == -1: virtual boundary
    std::set<size_t> bnd;         // nodes marked as boundary
    // effective detector graph
    std::vector<std::vector<std::pair<int, i64>>> adj;
    std::vector<i64> bw;
    void finish() {
        adj.assign(g.n, {});
        bw.assign(g.n, INF);
        for (auto &e : g.edges) {
            bool b1 = bnd.count(e.u), b2 = e.v < 0 || bnd.count(e.v);
            if (b1 && b2)
                continue;
            i64 w = std::abs(e.w);
            if (b2)
                bw[e.u] = std::min(bw[e.u], w);
            else if (b1)
                bw[e.v] = std::min(bw[e.v], w);
            else if (e.u != e.v) {
                adj[e.u].push_back({e.v, w});
                adj[e.v].push_back({e.u, w});
            }
        }
    }
    std::vector<i64> dij(int s) const {
        std::vector<i64> d(g.n, INF);
        typedef std::pair<i64, int> P;
        std::priority_queue<P, std::vector<P>, std::greater<P>> q;
        d[s] = 0;
        q.push({0, s});
        while (!q.empty()) {
            auto [x, u] = q.top();
            q.pop();
            if (x > d[u])
                continue;
            for (auto &a : adj[u])
                if (x + a.second < d[a.first]) {
                    d[a.first] = x + a.second;
                    q.push({d[a.first], a.first});
                }
        }
        return d;
    }
    i64 edge(size_t a, size_t b) const {
        i64 m = INF;
        for (auto &x : adj[a])
            if ((size_t)x.first == b)
                m = std::min(m, x.second);
        return m;
    }
};

static std::string show(const std::vector<size_t> &v) {
    std::ostringstream o;
    for (auto x : v)
        o << (o.tellp() > 0 ? "-" : "") << x;
    return o.str();
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C11", [](Rng &r, u64 idx) {
        World w;
        GenOpts o;
        o.nobs = r.chance(0.1) ? 70 : 2;
        int big = (int)r.below(20);
        if (big == 0) {
            o.n_lo = 60;
            o.n_hi = 300;
            o.max_edges = 900;
            static const int fams[] = {2, 3, 4, 8, 9};
            o.family = fams[r.below(5)];
        } else if (big <= 5) {
            o.n_lo = 10;
            o.n_hi = 40;
            o.max_edges = 200;
        } else {
            o.n_hi = 9;
        }
        w.g = gen_graph(r, o);
        Graph &g = w.g;
        // Node numbers beyond 16 bits: a small graph spread out, or a large one.
        std::vector<u64> pick;  // nodes to ask about
        bool spread = idx % 211 == 6, giant = idx % 2003 == 17;
        if (spread) {
            auto sc = gen_scatter(r, g.n, r.chance(0.3) ? 256 : 65536);
            g = scatter_graph(g, sc);
            pick = sc.f;
            count("graphs with scattered node indices");
        } else if (giant) {
            auto G = gen_giant(r, 1, true, r.chance(0.4));
            g = G.g;
            count("giant:" + g.family);
            for (auto c : G.centres)
                pick.push_back(c);
            for (auto c : G.light)
                pick.push_back(c);
            pick.push_back(0);
            pick.push_back(g.n - 1);
            pick.push_back(65535);
            pick.push_back(65536);
            std::sort(pick.begin(), pick.end());
            pick.erase(std::unique(pick.begin(), pick.end()), pick.end());
        }
        auto any = [&]() -> size_t {
            return pick.empty() ? r.below(g.n) : pick[r.below(pick.size())];
        };
        // Self loops sometimes.
        if (r.chance(0.15))
            g.edges.push_back({(int)any(), -2, 0, {}});
        if (!g.edges.empty() && g.edges.back().v == -2) {
            g.edges.back().v = g.edges.back().u;
            g.edges.back().w = r.range(0, 5);
        }
        if (r.chance(0.5)) {
            int k = (int)r.range(1, 3);
            for (int i = 0; i < k; i++)
                w.bnd.insert(any());
        }
        // Edges into the boundary are non-negative here, because of several parallel negative ones only the least is kept.
        for (auto &e : g.edges)
            if (e.v < 0 || w.bnd.count(e.u) || w.bnd.count(e.v))
                e.w = std::abs(e.w);
        w.finish();
        auto ug = build_user_graph(g);
        ug.set_boundary(w.bnd);
        note(g.str() + " boundary=" + std::to_string(w.bnd.size()) + (w.bnd.empty() ? "" : " first " + std::to_string(*w.bnd.begin())));
        int q = giant ? 5 : big == 0 ? 12 : 8;
        std::string hist;
        bool refused_before = false;
        for (int k = 0; k < q; k++) {
            if (r.chance(0.25)) {
                // Other uses of the same object in between.
                auto &m = r.chance(0.5) ? ug.get_mwpm() : ug.get_mwpm_with_search_graph();
                std::vector<u64> syn;
                if (pick.empty()) {
                    for (int i = 0; i < g.n; i++)
                        if (!w.bnd.count(i) && r.chance(0.3))
                            syn.push_back(i);
                } else {
                    for (auto x : pick)
                        if (!giant && !w.bnd.count(x) && r.chance(0.3))
                            syn.push_back(x);
                }
                try {
                    if (r.chance(0.5)) {
                        std::vector<int64_t> e;
                        pm::decode_detection_events_to_edges(m, syn, e);
                    } else {
                        std::vector<uint8_t> ob(std::max<size_t>(1, ug.get_num_observables()));
                        pm::total_weight_int wt = 0;
                        pm::decode_detection_events(m, syn, ob.data(), wt, false);
                    }
                } catch (const std::invalid_argument &) {
                }
                count("decodes between queries");
            }
            size_t src = any(), dst = any();
            if (r.chance(0.15))
                (r.chance(0.5) ? src : dst) = SIZE_MAX;
            if (!w.bnd.empty() && r.chance(0.2))
                (r.chance(0.5) ? src : dst) = *w.bnd.begin();
            if (r.chance(0.04))
                (r.chance(0.5) ? src : dst) = g.n + r.below(3);
            if (src == dst)
                continue;
            auto is_b = [&](size_t x) {
                return x == SIZE_MAX || w.bnd.count(x);
            };
            auto valid = [&](size_t x) {
                return x == SIZE_MAX || x < (size_t)g.n;
            };
            std::string qs = "path " + std::to_string((i64)src) + "->" + std::to_string((i64)dst);
            note(g.str() + " boundary=" + vstr(std::vector<size_t>(w.bnd.begin(), w.bnd.end())) + " history: " + hist + " now " + qs);
            hist += qs + "; ";
            std::vector<size_t> out;
            bool refused = false;
            try {
                ug.get_nodes_on_shortest_path_from_source(src, dst, out);
            } catch (const std::invalid_argument &e) {
                refused = true;
            }
            evaluated();
            if (!valid(src) || !valid(dst) || (is_b(src) && is_b(dst))) {
                if (!refused)
                    fail("not-refused", qs + " has no answer but was answered with " + show(out) + " on " + g.str());
                count("invalid queries refused");
                refused_before = true;
                continue;
            }
            bool rev = is_b(src);
            size_t a = rev ? dst : src, b = rev ? src : dst;
            auto d = w.dij((int)a);
            i64 want = INF;
            if (is_b(b)) {
                for (int i = 0; i < g.n; i++)
                    if (d[i] < INF && w.bw[i] < INF)
                        want = std::min(want, d[i] + w.bw[i]);
            } else {
                want = d[b];
            }
            if (want >= INF) {
                if (!refused)
                    fail("not-refused", qs + " is not connected but was answered with " + show(out) + " on " + g.str());
                count("disconnected queries refused");
                refused_before = true;
                continue;
            }
            if (refused)
                fail("refused", qs + " has a path of length " + std::to_string(want) + " but was refused on " + g.str() + " after " + hist);
            if (rev)
                std::reverse(out.begin(), out.end());
            std::string ctx = qs + " -> " + (out.size() > 200 ? std::to_string(out.size()) + " nodes" : show(out)) + " on " + g.str() + " after " + hist;
            if (out.empty() || out[0] != a)
                fail("path-end", "path does not start at the source: " + ctx);
            i64 len = 0;
            for (size_t i = 0; i + 1 < out.size(); i++) {
                i64 x = (out[i] < (size_t)g.n && out[i + 1] < (size_t)g.n) ? w.edge(out[i], out[i + 1]) : INF;
                if (x >= INF)
                    fail("not-a-path", "consecutive nodes are not joined by an edge: " + ctx);
                len += x;
            }
            if (is_b(b)) {
                if (w.bw[out.back()] >= INF)
                    fail("path-end", "path to the boundary ends at a node with no boundary edge: " + ctx);
                len += w.bw[out.back()];
                count("paths to the boundary");
            } else if (out.back() != b) {
                fail("path-end", "path does not end at the target: " + ctx);
            }
            if (len != want)
                fail("not-shortest", "path of length " + std::to_string(len) + ", shortest is " + std::to_string(want) + ": " + ctx);
            count("paths judged");
            if (refused_before)
                count("paths judged after a refusal");
            if (out.size() >= 3)
                nontrivial(mix(g.hash(), mix(src + 1, dst + 1)));
            if (idx < 4)
                sample(qs + " -> " + std::to_string(out.size()) + " nodes, length " + std::to_string(len));
            // The unordered iteration used by decoding, on the same search structure.
            if (!rev) {
                auto &m = ug.get_mwpm_with_search_graph();
                std::map<std::pair<size_t, size_t>, int> uses;
                std::vector<uint8_t> par(g.n + 1, 0);
                i64 tot = 0;
                size_t bd = is_b(b) ? SIZE_MAX : b;
                auto visit = [&](const pm::SearchGraphEdge &e) {
                    size_t x = e.detector_node - &m.search_flooder.graph.nodes[0];
                    auto *np = e.detector_node->neighbors[e.neighbor_index];
                    size_t y = np ? np - &m.search_flooder.graph.nodes[0] : SIZE_MAX;
                    par[x] ^= 1;
                    i64 ew;
                    if (y == SIZE_MAX)
                        ew = w.bw[x];
                    else {
                        par[y] ^= 1;
                        ew = w.edge(x, y);
                    }
                    if (ew >= INF)
                        fail("not-a-path", "edge iteration visited an edge that does not exist: " + qs);
                    tot += ew;
                    if (e.detector_node->neighbor_weights[e.neighbor_index] != 2 * ew)
                        fail("edge-weight", "edge iteration visited an edge carrying a wrong weight: " + qs);
                };
                m.search_flooder.iter_edges_on_shortest_path_from_middle(a, bd, visit);
                par[a] ^= 1;
                if (bd != SIZE_MAX)
                    par[bd] ^= 1;
                for (auto p : par)
                    if (p)
                        fail("not-a-path", "edges visited do not join the two ends: " + ctx);
                if (tot != want)
                    fail("not-shortest", "edges visited have total length " + std::to_string(tot) + ", shortest is " +
                                             std::to_string(want) + ": " + ctx);
                evaluated();
            }
        }
    });
}
