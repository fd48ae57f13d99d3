// C18: more than 64 observables.
#include "declared.h"
#include "pmh.h"
using namespace vh;

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C18", [](Rng &r, u64 idx) {
        if (idx % 3001 == 17) {  // node indices, degrees or numbers of events beyond 16 bits
            size_t nobs = 65 + r.below(r.chance(0.3) ? 66000 : 200);  // sometimes observables too
            Giant G = gen_giant(r, (int)nobs, true, true);
            note(G.str());
            if (nobs > 65536)
                count("giant: more than 65536 observables");
            bool user = r.chance(0.5);
            pm::UserGraph ug;
            pm::Mwpm own;
            if (user)
                ug = build_user_graph(G.g);
            else
                own = build_mwpm(G.g);
            pm::Mwpm &m = user ? ug.get_mwpm_with_search_graph() : own;
            giant_shots(r, G, 3, [&](const std::vector<u64> &syn, i64 e) {
                auto out = decode(m, syn, nobs);
                evaluated();
                if (out.ok != (e < INF))
                    fail("refusal", std::string(out.ok ? "answered" : "refused") + " wrongly: " + giant_ctx(G, syn));
                if (!out.ok)
                    return;
                if (out.weight != e)
                    fail("weight", "weight " + std::to_string(out.weight) + ", minimum " + std::to_string(e) + ": " + giant_ctx(G, syn));
                auto want = G.obs(syn);
                for (size_t i = 0; i < nobs; i++)
                    if (out.obs[i] != want[i])
                        fail("prediction", "observable " + std::to_string(i) + " is the same in every explanation and was mispredicted: " + giant_ctx(G, syn));
                nontrivial(mix(G.g.n, mix(syn.size(), (u64)e)));
            });
            return;
        }
        GenOpts o;
        bool large = r.chance(0.1);
        bool small = !large && r.chance(0.6);
        o.n_hi = small ? 6 : 9;
        o.max_edges = small ? 12 : 48;
        if (large) {
            o.n_lo = 15;
            o.n_hi = 60;
            o.max_edges = 150;
        }
        o.nobs = 0;
        Graph g = gen_graph(r, o);
        int extra = (int)r.below(3);
        size_t nobs = 65 + r.below(r.chance(0.2) ? 400 : 20);
        // Give each edge one observable of its own (spread over the whole range), plus some shared ones.
        std::vector<size_t> uniq;
        bool identify = g.edges.size() <= nobs;
        {
            std::vector<size_t> pool(nobs);
            for (size_t i = 0; i < nobs; i++)
                pool[i] = i;
            for (size_t i = nobs; i > 1; i--)
                std::swap(pool[i - 1], pool[r.below(i)]);
            // the number of observables is implied by the largest index used
            for (size_t i = 0; i < g.edges.size(); i++) {
                if (identify) {
                    uniq.push_back(pool[i]);
                    g.edges[i].obs = {pool[i]};
                } else {
                    g.edges[i].obs = {r.below(nobs)};
                }
            }
            if (identify && extra)
                for (auto &e : g.edges)
                    for (size_t k = g.edges.size(); k < std::min<size_t>(nobs, g.edges.size() + extra); k++)
                        if (r.chance(0.4))
                            e.obs.push_back(pool[k]);
        }
        g.nobs = (int)nobs;
        Graph real = r.chance(0.02) ? stretch(r, g) : g;
        // The same graph at node indices spread beyond 16 bits.
        bool spread = idx % 211 == 9;
        Scatter sc;
        if (spread) {
            sc = gen_scatter(r, real.n, r.chance(0.3) ? 256 : 65536);
            real = scatter_graph(real, sc);
            count("graphs with scattered node indices");
        }
        note(real.str());
        count("graphs:" + g.family);
        // Built three ways.
        bool via_user = r.chance(0.5);
        pm::UserGraph ug;
        pm::Mwpm own;
        pm::Mwpm *m;
        bool decl = !spread && real.n == g.n && r.chance(0.12);
        Declared D;
        if (decl) {
            declare_boundary(r, real, true, D);
            note(D.desc);
            m = r.chance(0.5) ? &D.ug.get_mwpm() : &D.ug.get_mwpm_with_search_graph();
        } else if (via_user) {
            ug = build_user_graph(real);
            m = r.chance(0.5) ? &ug.get_mwpm() : &ug.get_mwpm_with_search_graph();
        } else {
            own = build_mwpm(real);
            m = &own;
        }
        Graph few = real;
        few.nobs = 1;
        for (auto &e : few.edges)
            e.obs.clear();
        auto mf = build_mwpm(few);
        MatchOracle mo(g);
        int shots = 6;
        for (int k = 0; k < shots; k++) {
            auto syn = r.chance(0.8) ? gen_error_syndrome(r, g, r.unit() * 0.7) : gen_syndrome(r, g);
            std::string ctx = g.str() + " syndrome=" + vstr(syn);
            note(ctx);
            const size_t PAD = 16;
            std::vector<uint8_t> out(nobs + 2 * PAD, 0xA5);
            std::fill(out.begin() + PAD, out.begin() + PAD + nobs, 0);
            pm::total_weight_int w = 0;
            bool ok = true;
            try {
                pm::decode_detection_events(*m, decl ? D.map(r, syn) : spread ? sc.map(syn) : syn, out.data() + PAD, w, false);
            } catch (const std::invalid_argument &) {
                ok = false;
            }
            i64 best = mo.min_weight(syn);
            evaluated();
            if (ok != (best < INF))
                fail("refusal", std::string(ok ? "answered" : "refused") + " wrongly: " + ctx);
            for (size_t i = 0; i < PAD; i++)
                if (out[i] != 0xA5 || out[PAD + nobs + i] != 0xA5)
                    fail("output-size", "wrote outside one entry per observable: " + ctx);
            if (!ok) {
                count("infeasible refused");
                continue;
            }
            if (w != best)
                fail("weight", "weight " + std::to_string(w) + ", minimum " + std::to_string(best) + ": " + ctx);
            auto f = decode(mf, spread ? sc.map(syn) : syn, 1);
            if (!f.ok || f.weight != w)
                fail("weight-few", "weight differs from the one with few observables: " + ctx);
            std::vector<uint8_t> pred(out.begin() + PAD, out.begin() + PAD + nobs);
            for (auto b : pred)
                if (b > 1)
                    fail("value", "a predicted entry is neither 0 nor 1: " + ctx);
            if (identify) {
                // The prediction names the edges: check that edge set.
                std::vector<uint8_t> par(g.n, 0), ob(nobs, 0);
                i64 tot = 0;
                int used = 0, neg = 0;
                for (size_t i = 0; i < g.edges.size(); i++)
                    if (pred[uniq[i]]) {
                        auto &e = g.edges[i];
                        used++;
                        neg += e.w < 0;
                        tot += 2 * e.w;
                        if (e.u != e.v) {
                            par[e.u] ^= 1;
                            if (e.v >= 0)
                                par[e.v] ^= 1;
                        }
                        for (auto x : e.obs)
                            ob[x] ^= 1;
                    }
                for (auto x : syn)
                    par[x] ^= 1;
                for (auto p : par)
                    if (p)
                        fail("prediction", "the edges named by the prediction do not reproduce the syndrome: " + ctx + " prediction edges " + std::to_string(used));
                if (tot != w)
                    fail("prediction", "the edges named by the prediction weigh " + std::to_string(tot) + ", reported " + std::to_string(w) + ": " + ctx);
                if (ob != pred)
                    fail("prediction", "the prediction is not what its edges flip: " + ctx);
                count("predictions identified");
                if (neg)
                    count("predictions with negative edges");
                if (used >= 2)
                    nontrivial(mix(g.hash(), mix((u64)w, syn.size() * 100 + used)));
                if (idx < 4)
                    sample(std::to_string(nobs) + " observables, " + std::to_string(syn.size()) + " events, solution of " + std::to_string(used) + " edges, weight " + std::to_string(w));
            }
        }
    });
}
