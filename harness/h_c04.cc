// C04: matched-pair decoding is a minimum-weight perfect pairing of the detection events.
#include "giant.h"
#include "pmh.h"
using namespace vh;

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C04", [](Rng &r, u64 idx) {
        if (idx % 2503 == 14) {  // more nodes, neighbours or detection events than fit in 16 bits
            Giant G = gen_giant(r, (int)r.range(1, 64), false);
            note(G.str());
            pm::Mwpm m = build_mwpm(G.g, r.chance(0.5));
            giant_shots(r, G, 3, [&](const std::vector<u64> &syn, i64 e) {
                if (e >= INF)
                    return;
                std::vector<uint64_t> d(syn.begin(), syn.end());
                try {
                    pm::decode_detection_events_to_match_edges(m, d);
                } catch (const std::invalid_argument &ex) {
                    fail("rejected", "explainable syndrome rejected " + giant_ctx(G, syn));
                }
                evaluated();
                std::vector<int> seen(G.g.n, 0);
                for (auto x : syn)
                    seen[x]--;
                u64 got = 0, want = 0;
                auto o = G.obs(syn);
                for (int k = 0; k < G.g.nobs; k++)
                    want |= (u64)o[k] << k;
                i64 tot = 0;
                MatchOracle orc(G.g);
                for (auto &me : m.flooder.match_edges) {
                    size_t a = me.loc_from - &m.flooder.graph.nodes[0];
                    size_t b = me.loc_to ? me.loc_to - &m.flooder.graph.nodes[0] : SIZE_MAX;
                    if (a >= (size_t)G.g.n || (me.loc_to && b >= (size_t)G.g.n))
                        fail("pairs", "pair endpoint is not a node of the graph");
                    seen[a]++;
                    if (me.loc_to)
                        seen[b]++;
                    got ^= me.obs_mask;
                    if (syn.size() < 100) {
                        auto dd = orc.dijkstra((int)a);
                        tot += me.loc_to ? dd[b] : orc.dist_to_boundary(dd);
                    }
                }
                for (auto x : seen)
                    if (x)
                        fail("pairs", "detection events are not covered exactly once: " + giant_ctx(G, syn));
                if (got != want)
                    fail("pair-obs", "observables of the pairs do not add up to those of every explanation: " + giant_ctx(G, syn));
                if (syn.size() < 100 && tot != e)
                    fail("weight", "pairs have total distance " + std::to_string(tot) + " but the minimum is " +
                                       std::to_string(e) + " " + giant_ctx(G, syn));
                if (m.flooder.match_edges.size() >= 2)
                    nontrivial(mix(G.g.n, mix(syn.size(), (u64)e)));
            });
            return;
        }
        GenOpts o;
        bool small = r.chance(0.75);
        bool neg = r.chance(0.05);
        o.n_lo = 1;
        o.n_hi = small ? 11 : 70;
        o.max_edges = small ? 66 : 600;
        o.nobs = (int)r.below(3);
        o.allow_negative = neg;
        Graph g = gen_graph(r, o);
        bool far = r.chance(0.01);
        if (far) {
            g = stretch(r, g, 220);
            small = false;
        }
        // Potential-type observables make the observables of every path between two nodes equal.
        bool cut = r.chance(0.5);
        std::vector<u64> phi(g.n + 1);
        if (cut) {
            g.nobs = (int)r.range(1, 64);
            u64 keep = g.nobs == 64 ? ~(u64)0 : (((u64)1 << g.nobs) - 1);
            for (auto &x : phi)
                x = r.next() & keep;
            for (auto &e : g.edges) {
                u64 mk = phi[e.u] ^ phi[e.v < 0 ? g.n : e.v];
                e.obs.clear();
                for (int k = 0; k < g.nobs; k++)
                    if ((mk >> k) & 1)
                        e.obs.push_back(k);
            }
        }
        note(g.str());
        count((small ? "small:" : "large:") + g.family);
        pm::UserGraph ug;
        pm::Mwpm own;
        pm::Mwpm *m;
        if (r.chance(0.3)) {
            ug = build_user_graph(g);
            m = &ug.get_mwpm();
        } else {
            own = build_mwpm(g, r.chance(0.5));
            m = &own;
        }
        MatchOracle orc(g);
        if (orc.neg_sum != 0) {
            count("negative-refused");
            bool threw = false;
            try {
                pm::decode_detection_events_to_match_edges(*m, {});
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            evaluated();
            if (!threw)
                fail("negative", "matched-pair decoding accepted a graph with negative weights");
            return;
        }
        std::vector<std::vector<i64>> dist(g.n);
        std::vector<i64> bd(g.n);
        for (int i = 0; i < g.n; i++) {
            dist[i] = orc.dijkstra(i);
            bd[i] = orc.dist_to_boundary(dist[i]);
        }
        // (distance, observables) reachable exactly at the shortest distance, small graphs only
        int shots = small ? 40 : 8;
        for (int t = 0; t < shots; t++) {
            std::vector<u64> syn;
            if (far) {
                std::set<u64> pick;
                for (int k = (int)r.range(1, 6); k > 0; k--)
                    pick.insert(r.below(g.n));
                syn.assign(pick.begin(), pick.end());
            } else
                syn = r.chance(0.4) ? gen_error_syndrome(r, g, r.unit() * 0.6) : gen_syndrome(r, g, r.chance(0.4) ? 1.0 : -1);
            if (!orc.feasible(syn))
                continue;
            i64 e = orc.min_weight(syn);
            std::vector<uint64_t> d(syn.begin(), syn.end());
            try {
                pm::decode_detection_events_to_match_edges(*m, d);
            } catch (const std::invalid_argument &ex) {
                fail("rejected", std::string("explainable syndrome rejected ") + vstr(syn) + " " + g.str());
            }
            evaluated();
            std::vector<int> seen(g.n, 0);
            i64 tot = 0;
            std::ostringstream ps;
            for (auto &me : m->flooder.match_edges) {
                size_t a = me.loc_from - &m->flooder.graph.nodes[0];
                ps << "(" << a << ",";
                if (a >= (size_t)g.n)
                    fail("pairs", "pair endpoint is not a node of the graph");
                seen[a]++;
                i64 dd;
                u64 want;
                if (me.loc_to) {
                    size_t b = me.loc_to - &m->flooder.graph.nodes[0];
                    if (b >= (size_t)g.n)
                        fail("pairs", "pair endpoint is not a node of the graph");
                    ps << b << ")";
                    seen[b]++;
                    dd = dist[a][b];
                    want = phi[a] ^ phi[b];
                } else {
                    ps << "-1)";
                    dd = bd[a];
                    want = phi[a] ^ phi[g.n];
                }
                if (dd >= INF)
                    fail("pairs", "pair joins nodes with no path between them " + ps.str() + " " + g.str());
                if (cut && me.obs_mask != want)
                    fail("pair-obs", "observables of a pair are not those of a path between its ends " + ps.str() + " got " +
                                         std::to_string(me.obs_mask) + " want " + std::to_string(want) + " " + g.str());
                tot += dd;
            }
            for (auto s : syn)
                seen[s] -= 1;
            for (int i = 0; i < g.n; i++)
                if (seen[i])
                    fail("pairs", "detection events are not covered exactly once: pairs " + ps.str() + " syndrome " +
                                      vstr(syn) + " " + g.str());
            if (tot != e)
                fail("weight", "pairs " + ps.str() + " have total distance " + std::to_string(tot) +
                                   " but the minimum is " + std::to_string(e) + " syndrome " + vstr(syn) + " " + g.str());
            if (m->flooder.match_edges.size() >= 2)
                nontrivial(mix(g.hash(), mix((u64)tot, syn.size() * 1000 + (syn.empty() ? 0 : syn[0]))));
        }
        if (idx < 3)
            sample(g.str());
    });
}
