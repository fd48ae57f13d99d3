// C01: every decode returns the minimum total weight over all edge sets reproducing the syndrome.
#include "declared.h"
#include "pmh.h"
using namespace vh;

static void check(const Graph &g, const Outcome &o, i64 expect, const std::vector<u64> &syn, const char *how) {
    evaluated();
    if (expect >= INF) {
        count("infeasible");
        if (o.ok)
            fail("weight", std::string(how) + ": decoder returned weight " + std::to_string(o.weight) +
                               " for a syndrome no edge set reproduces; syndrome " + vstr(syn) + " " + g.str());
        return;
    }
    if (!o.ok)
        fail("rejected", std::string(how) + ": decoder rejected an explainable syndrome " + vstr(syn) + " (" + o.err +
                             ") " + g.str());
    if (o.weight != expect)
        fail("weight", std::string(how) + ": weight " + std::to_string(o.weight) + " but minimum is " +
                           std::to_string(expect) + " for syndrome " + vstr(syn) + " " + g.str());
    if (syn.size() >= 3)
        nontrivial(mix(g.hash(), mix(syn.size(), syn[0] * 1000 + syn.back())) ^ (u64)expect);
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C01", [](Rng &r, u64 idx) {
        if (idx % 2503 == 11) {  // more nodes, neighbours or detection events than fit in 16 bits
            Giant G = gen_giant(r, 2, true);
            note(G.str());
            pm::Mwpm m = build_mwpm(G.g, false);
            giant_shots(r, G, 4, [&](const std::vector<u64> &syn, i64 e) {
                Outcome out = r.chance(0.5) ? decode(m, syn, G.g.nobs) : decode64(m, syn, G.g.nobs);
                evaluated();
                if (out.ok != (e < INF))
                    fail("rejected", std::string("giant: ") + (out.ok ? "answered" : "rejected") + " wrongly " + giant_ctx(G, syn));
                if (out.ok && out.weight != e)
                    fail("weight", "giant: weight " + std::to_string(out.weight) + " but minimum is " + std::to_string(e) +
                                       " for " + giant_ctx(G, syn));
                nontrivial(mix(G.g.n, mix(syn.size(), (u64)e)));
            });
            return;
        }
        GenOpts o;
        int kind = (int)r.below(8);
        if (kind < 5) {  // exhaustive small graphs
            o.n_lo = 1;
            o.n_hi = kind == 4 ? 12 : 8;
            o.nobs = (int)r.below(3);
            Graph g = gen_graph(r, o);
            if (r.chance(0.05)) {  // a self loop
                int u = (int)r.below(g.n);
                g.edges.push_back({u, u, (i64)r.range(-5, 5), {}});
            }
            bool far = r.chance(0.02);
            Graph real = far ? stretch(r, g) : g;
            // The same graph at node indices spread beyond 16 bits.
            bool spread = idx % 211 == 7;
            Scatter sc;
            if (spread) {
                sc = gen_scatter(r, real.n, r.chance(0.3) ? 256 : 65536);
                real = scatter_graph(real, sc);
                count("graphs with scattered node indices");
            }
            note(real.str());
            SubsetOracle orc(g);
            count("graphs:" + g.family);
            bool user = r.chance(spread ? 0.6 : 0.25);
            pm::UserGraph ug;
            std::set<u64> idle;
            pm::Mwpm own;
            pm::Mwpm *m;
            bool decl = !spread && !far && r.chance(0.1);
            Declared D;
            std::vector<i64> full;
            if (decl) {
                // Boundary edges lead to declared boundary nodes, with heavier ones next to them. Where a negative one is
                // among several, both readings are accepted: only the lightest exists, or all of them do.
                declare_boundary(r, g, r.chance(0.5), D);
                note(D.desc);
                auto h = D.full;
                h.nobs = 0;
                for (auto &e : h.edges)
                    e.obs.clear();
                full = SubsetOracle(h).best;
                m = r.chance(0.5) ? &D.ug.get_mwpm() : &D.ug.get_mwpm_with_search_graph();
                if (m->flooder.graph.normalising_constant != 2.0)
                    fail("scale", "integer weights were not kept exactly");
            } else if (user) {
                ug = build_user_graph(real);
                if (spread && r.chance(0.7)) {
                    // Declared boundary nodes without edges, at indices that agree with those of detectors modulo 2^16 or 2^8
                    for (int k = (int)r.range(1, 6); k > 0; k--) {
                        u64 x = sc.f[r.below(sc.f.size())];
                        u64 y = r.chance(0.7) ? (x >= 65536 ? x - 65536 : x + 65536) : x ^ 256;
                        if (std::find(sc.f.begin(), sc.f.end(), y) == sc.f.end())
                            idle.insert(y);
                    }
                    ug.set_boundary(std::set<size_t>(idle.begin(), idle.end()));
                    count("graphs with idle boundary nodes at aliased indices", !idle.empty());
                }
                m = &ug.get_mwpm();
                if (m->flooder.graph.normalising_constant != 2.0)
                    fail("scale", "integer weights were not kept exactly");
            } else {
                own = build_mwpm(real, r.chance(0.5));
                m = &own;
            }
            u64 total = (u64)1 << g.n;
            bool all = g.n <= 7 && !far && !spread;
            u64 lim = all ? total : far || spread ? 16 : 96;
            for (u64 t = 0; t < lim; t++) {
                u64 s = all ? t : r.below(total);
                auto syn = bits_to_list(s);
                if (t % 3 == 1)
                    std::reverse(syn.begin(), syn.end());
                auto in = decl ? D.map(r, syn) : spread ? sc.map(syn) : syn;
                for (auto x : idle)
                    if (r.chance(0.2))
                        in.insert(in.begin() + r.below(in.size() + 1), x);
                Outcome out = (t & 1) ? decode(*m, in, g.nobs) : decode64(*m, in, g.nobs);
                if (decl && out.ok && out.weight == full[s]) {
                    evaluated();
                    continue;
                }
                check(g, out, orc.best[s], syn, decl ? D.desc.c_str() : user ? "user-graph" : "core");
            }
            if (idx < 3)
                sample(g.str() + " all syndromes");
        } else {  // larger graphs, independent weighted-blossom oracle
            o.n_lo = 10;
            o.n_hi = kind == 7 ? (r.chance(0.2) ? 200 : 90) : 40;
            o.max_edges = 600;
            o.nobs = 1;
            if (kind == 7 && r.chance(0.04)) {
                o.n_lo = 260;  // more neighbours, detection events and nodes than fit in a byte
                o.n_hi = 520;
                o.max_edges = 2500;
                static const int fams[] = {3, 5, 5, 8, 9, 2};
                o.family = fams[r.below(6)];
            }
            Graph g = gen_graph(r, o);
            note(g.str());
            count("large:" + g.family);
            pm::Mwpm m = build_mwpm(g, false);
            MatchOracle orc(g);
            int shots = g.n > 50 ? 3 : 10;
            for (int t = 0; t < shots; t++) {
                std::vector<u64> syn;
                if (r.chance(0.6))
                    syn = gen_error_syndrome(r, g, r.unit() * 0.5);
                else
                    syn = gen_syndrome(r, g);
                i64 e = orc.min_weight(syn);
                check(g, decode(m, syn, g.nobs), e, syn, "core-large");
            }
        }
    });
}
