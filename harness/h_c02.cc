// C02: predicted observables belong to a minimum-weight solution with the reported weight.
#include "declared.h"
#include "pmh.h"
using namespace vh;

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C02", [](Rng &r, u64 idx) {
        if (idx % 2003 == 12) {  // more nodes, neighbours or detection events than fit in 16 bits
            Giant G = gen_giant(r, (int)r.range(1, 64), true);
            note(G.str());
            pm::Mwpm m = build_mwpm(G.g, false);
            giant_shots(r, G, 4, [&](const std::vector<u64> &syn, i64 e) {
                if (e >= INF)
                    return;
                Outcome out = r.chance(0.5) ? decode(m, syn, G.g.nobs) : decode64(m, syn, G.g.nobs);
                evaluated();
                if (!out.ok)
                    fail("rejected", "explainable syndrome rejected " + giant_ctx(G, syn));
                auto want = G.obs(syn);
                if (out.obs != want)
                    fail("obs", "observables that every explanation of the syndrome shares were mispredicted: got " +
                                    vstr(out.obs) + " want " + vstr(want) + " " + giant_ctx(G, syn));
                nontrivial(mix(G.g.n, mix(syn.size(), (u64)e)));
            });
            return;
        }
        GenOpts o;
        int kind = (int)r.below(8);
        if (kind < 4) {
            // Exact (syndrome, observables) -> weight table for small graphs.
            o.n_lo = 1;
            o.n_hi = 8;
            o.nobs = (int)r.range(1, 5);
            Graph g = gen_graph(r, o);
            if (r.chance(0.05)) {
                int u = (int)r.below(g.n);
                g.edges.push_back({u, u, (i64)r.range(-5, 5), {0}});
            }
            bool far = r.chance(0.02);
            Graph real = far ? stretch(r, g) : g;
            bool spread = idx % 211 == 7;  // the same graph at node indices spread beyond 16 bits
            Scatter sc;
            if (spread) {
                sc = gen_scatter(r, real.n, r.chance(0.3) ? 256 : 65536);
                real = scatter_graph(real, sc);
                count("graphs with scattered node indices");
            }
            note(real.str());
            count("exact-table:" + g.family);
            SubsetOracle orc(g);
            pm::UserGraph ug;
            pm::Mwpm own;
            pm::Mwpm *m;
            bool decl = !spread && !far && r.chance(0.1);
            Declared D;
            if (decl) {
                declare_boundary(r, g, true, D);
                note(D.desc);
                m = r.chance(0.5) ? &D.ug.get_mwpm() : &D.ug.get_mwpm_with_search_graph();
            } else if (r.chance(0.3)) {
                ug = build_user_graph(real);
                m = &ug.get_mwpm();
            } else {
                own = build_mwpm(real, false);
                m = &own;
            }
            u64 total = (u64)1 << g.n;
            bool all = g.n <= 7 && !far && !spread;
            u64 lim = all ? total : far || spread ? 16 : 96;
            for (u64 t = 0; t < lim; t++) {
                u64 s = all ? t : r.below(total);
                if (orc.best[s] >= INF)
                    continue;
                auto syn = bits_to_list(s);
                auto in = decl ? D.map(r, syn) : spread ? sc.map(syn) : syn;
                Outcome out = (t & 1) ? decode(*m, in, g.nobs) : decode64(*m, in, g.nobs);
                evaluated();
                if (!out.ok)
                    fail("rejected", "explainable syndrome rejected " + vstr(syn) + " " + g.str());
                for (auto b : out.obs)
                    if (b > 1)
                        fail("not-a-bit", "prediction entry is neither 0 nor 1: " + vstr(out.obs) + " " + g.str());
                i64 w = orc.weight_with_obs(s, out.mask());
                if (w != out.weight || w != orc.best[s])
                    fail("obs", "prediction " + vstr(out.obs) + " weight " + std::to_string(out.weight) +
                                    " but the lightest edge set with this syndrome and these observables weighs " +
                                    (w >= INF ? "inf" : std::to_string(w)) + ", minimum " +
                                    std::to_string(orc.best[s]) + "; syndrome " + vstr(syn) + " " + g.str());
                if (syn.size() >= 2)
                    nontrivial(mix(g.hash(), s));
            }
            if (idx < 3)
                sample(g.str() + " all syndromes");
        } else if (kind < 6) {
            // One observable per edge (<= 64 edges): the prediction names the edge set itself.
            o.n_lo = 4;
            o.n_hi = 26;
            o.max_edges = 40;
            o.nobs = -1;
            Graph g = gen_graph(r, o);
            while (g.edges.size() > 64)
                g.edges.pop_back();
            g.nobs = (int)g.edges.size();
            // random labels
            std::vector<size_t> perm(g.nobs);
            for (size_t i = 0; i < perm.size(); i++)
                perm[i] = i;
            if (r.chance(0.5)) {
                g.nobs = 64;
                perm.resize(64);
                for (size_t i = 0; i < 64; i++)
                    perm[i] = i;
            }
            for (size_t i = perm.size(); i > 1; i--)
                std::swap(perm[i - 1], perm[r.below(i)]);
            for (size_t i = 0; i < g.edges.size(); i++)
                g.edges[i].obs = {perm[i]};
            note(g.str());
            count("edge-labelled:" + g.family);
            pm::Mwpm m = build_mwpm(g, false);
            MatchOracle orc(g);
            for (int t = 0; t < 12; t++) {
                auto syn = r.chance(0.6) ? gen_error_syndrome(r, g, r.unit() * 0.6) : gen_syndrome(r, g);
                i64 e = orc.min_weight(syn);
                if (e >= INF)
                    continue;
                Outcome out = (t & 1) ? decode(m, syn, g.nobs) : decode64(m, syn, g.nobs);
                evaluated();
                if (!out.ok)
                    fail("rejected", "explainable syndrome rejected " + vstr(syn) + " " + g.str());
                std::vector<uint8_t> par(g.n, 0);
                i64 w = 0;
                u64 mask = out.mask(), seen = 0;
                for (auto &ed : g.edges)
                    if ((mask >> ed.obs[0]) & 1) {
                        seen |= (u64)1 << ed.obs[0];
                        par[ed.u] ^= 1;
                        if (ed.v >= 0)
                            par[ed.v] ^= 1;
                        w += 2 * ed.w;
                    }
                if (seen != mask)
                    fail("obs", "prediction names an observable no edge carries");
                std::vector<u64> got;
                for (int i = 0; i < g.n; i++)
                    if (par[i])
                        got.push_back(i);
                std::vector<u64> want = syn;
                std::sort(want.begin(), want.end());
                if (got != want)
                    fail("obs", "predicted edge set has syndrome " + vstr(got) + " instead of " + vstr(want) + " " + g.str());
                if (w != out.weight || w != e)
                    fail("obs", "predicted edge set weighs " + std::to_string(w) + ", reported " +
                                    std::to_string(out.weight) + ", minimum " + std::to_string(e) + " syndrome " +
                                    vstr(want) + " " + g.str());
                if (syn.size() >= 2)
                    nontrivial(mix(g.hash(), mask));
            }
        } else {
            // Cut observables: their value is a function of the syndrome alone, at any size.
            o.n_lo = 8;
            o.n_hi = r.chance(0.15) ? 400 : 60;
            o.max_edges = 900;
            o.nobs = 0;
            Graph g = gen_graph(r, o);
            g.nobs = (int)r.range(1, 64);
            u64 keep = g.nobs == 64 ? ~(u64)0 : (((u64)1 << g.nobs) - 1);
            std::vector<u64> phi(g.n + 1);
            for (auto &x : phi)
                x = r.next() & keep;
            for (auto &e : g.edges) {
                u64 mk = phi[e.u] ^ phi[e.v < 0 ? g.n : e.v];
                e.obs.clear();
                for (int k = 0; k < g.nobs; k++)
                    if ((mk >> k) & 1)
                        e.obs.push_back(k);
            }
            note("cut observables, " + std::to_string(g.nobs) + " " + g.str());
            count("cut:" + g.family);
            pm::Mwpm m = build_mwpm(g, false);
            MatchOracle orc(g);
            for (int t = 0; t < 10; t++) {
                auto syn = r.chance(0.7) ? gen_error_syndrome(r, g, r.unit() * 0.5) : gen_syndrome(r, g);
                if (!orc.feasible(syn))
                    continue;
                Outcome out = (t & 1) ? decode(m, syn, g.nobs) : decode64(m, syn, g.nobs);
                evaluated();
                if (!out.ok)
                    fail("rejected", "explainable syndrome rejected " + vstr(syn));
                u64 want = 0;
                for (auto s : syn)
                    want ^= phi[s];
                if (syn.size() & 1)
                    want ^= phi[g.n];
                if (out.mask() != want)
                    fail("obs", "observables that every explanation of the syndrome shares were mispredicted: got " +
                                    std::to_string(out.mask()) + " want " + std::to_string(want) + " syndrome " +
                                    vstr(syn) + " " + g.str());
                if (syn.size() >= 2)
                    nontrivial(mix(g.hash(), mix(want, syn.size())));
            }
        }
    });
}
