// C24: a graph that is edited between uses behaves exactly like one built from scratch with the same contents.
#include <cmath>
#include "pmh.h"
#include "pymatching/rand/rand_gen.h"
using namespace vh;

static pm::UserGraph rebuild(pm::UserGraph &g) {
    pm::UserGraph f(g.get_num_nodes(), g.get_num_observables());
    for (auto &e : g.edges) {
        if (e.node2 == SIZE_MAX)
            f.add_or_merge_boundary_edge(e.node1, e.observable_indices, e.weight, e.error_probability);
        else
            f.add_or_merge_edge(e.node1, e.node2, e.observable_indices, e.weight, e.error_probability);
    }
    f.set_boundary(g.get_boundary());
    return f;
}

struct Ans {
    int status = 0;
    i64 w = 0;
    double norm = 0;
    std::vector<uint8_t> obs;
    std::vector<i64> list;
    std::string err;
};

// mode 0 observables, 1 mask, 2 edges, 3 pairs, 4 path, 5 noise; plain: whether the search graph is asked for
static Ans ask(pm::UserGraph &g, int mode, const std::vector<u64> &syn, size_t a, size_t b, unsigned seed, bool search) {
    Ans o;
    try {
        if (mode == 4) {
            std::vector<size_t> out;
            g.get_nodes_on_shortest_path_from_source(a, b, out);
            o.list.assign(out.begin(), out.end());
        } else if (mode == 5) {
            o.obs.assign(g.get_num_observables(), 0);
            std::vector<uint8_t> y(g.get_num_nodes(), 0);
            pm::set_seed(seed);
            g.add_noise(o.obs.data(), y.data());
            o.list.assign(y.begin(), y.end());
            o.w = g.all_edges_have_error_probabilities();
        } else {
            auto &m = (mode == 2 || search) ? g.get_mwpm_with_search_graph() : g.get_mwpm();
            o.norm = m.flooder.graph.normalising_constant;
            if (mode == 0 || (mode == 1 && g.get_num_observables() > 64)) {
                o.obs.assign(g.get_num_observables(), 0);
                pm::total_weight_int w = 0;
                pm::decode_detection_events(m, syn, o.obs.data(), w, false);
                o.w = w;
            } else if (mode == 1) {
                auto x = pm::decode_detection_events_for_up_to_64_observables(m, syn, false);
                o.w = x.weight;
                o.list = {(i64)x.obs_mask};
            } else if (mode == 2) {
                std::vector<int64_t> e;
                pm::decode_detection_events_to_edges(m, syn, e);
                std::vector<std::pair<i64, i64>> ps;
                for (size_t i = 0; i + 1 < e.size(); i += 2)
                    ps.push_back({e[i], e[i + 1]});
                std::sort(ps.begin(), ps.end());
                for (auto &p : ps) {
                    o.list.push_back(p.first);
                    o.list.push_back(p.second);
                }
            } else {
                pm::decode_detection_events_to_match_edges(m, syn);
                auto *base = &m.flooder.graph.nodes[0];
                std::vector<std::pair<i64, i64>> ps;
                for (auto &e : m.flooder.match_edges)
                    ps.push_back({e.loc_from - base, e.loc_to ? e.loc_to - base : -1});
                std::sort(ps.begin(), ps.end());
                for (auto &p : ps) {
                    o.list.push_back(p.first);
                    o.list.push_back(p.second);
                }
            }
        }
    } catch (const std::invalid_argument &e) {
        o = Ans();
        o.status = 1;
        o.err = e.what();
    }
    return o;
}
static std::string show(const Ans &a) {
    std::ostringstream o;
    if (a.status)
        o << "refused(" << a.err << ")";
    else
        o << "weight=" << a.w << " obs=" << vstr(a.obs) << " list=" << vstr(a.list) << " norm=" << a.norm;
    return o.str();
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C24", [](Rng &r, u64 idx) {
        size_t nmax = (size_t)r.range(2, r.chance(0.1) ? 24 : 8);
        pm::UserGraph g(r.below(nmax + 1), r.below(3));
        int wmode = (int)r.below(3);
        double pneg = r.chance(0.35) ? 0.3 : 0;
        bool probs = r.chance(0.5);
        size_t obs_lim = r.chance(0.15) ? 90 : 4;
        std::string hist = "n=" + std::to_string(g.get_num_nodes());
        u64 hh = r.s;
        auto edit = [&]() {
            char buf[300];
            int what = (int)r.below(14);
            if (what == 0) {
                std::set<size_t> b;
                for (int k = (int)r.below(3); k > 0; k--)
                    b.insert(r.below(nmax + (r.chance(0.2) ? 2 : 0)));
                g.set_boundary(b);
                hist += "; set_boundary(" + vstr(std::vector<size_t>(b.begin(), b.end())) + ")";
                return;
            }
            if (what == 1) {
                size_t k = r.below(obs_lim + 3);
                g.set_min_num_observables(k);
                hist += "; set_min_num_observables(" + std::to_string(k) + ")";
                return;
            }
            bool bd = r.chance(0.3);
            size_t a = r.below(nmax), b = bd ? SIZE_MAX : r.below(nmax);
            if (a == b)
                b = (a + 1) % nmax;
            std::vector<size_t> obs;
            for (int k = (int)r.below(3); k > 0; k--) {
                size_t x = r.below(obs_lim);
                if (std::find(obs.begin(), obs.end(), x) == obs.end())
                    obs.push_back(x);
            }
            double w = wmode == 0 ? (double)r.range(0, 9) : wmode == 1 ? r.unit() * 7 : (double)r.range(1, 16777215);
            if (r.chance(pneg))
                w = -w;
            if (r.chance(0.02))
                w = 3e7;
            double p = probs || r.chance(0.5) ? r.unit() : -1;
            int strat = (int)r.below(5);
            if (r.chance(0.5))
                strat = pm::REPLACE;
            snprintf(buf, sizeof buf, "; add(%zd,%zd,%s,%.17g,%.3g,%d)", (ssize_t)a, (ssize_t)b, vstr(obs).c_str(), w, p, strat);
            hist += buf;
            try {
                if (bd)
                    g.add_or_merge_boundary_edge(a, obs, w, p, (pm::MERGE_STRATEGY)strat);
                else
                    g.add_or_merge_edge(a, b, obs, w, p, (pm::MERGE_STRATEGY)strat);
            } catch (const std::invalid_argument &) {
                count("refused edits");
            }
            count("edits");
        };
        for (int k = (int)r.range(0, 2 * (i64)nmax); k > 0; k--)
            edit();
        int rounds = (int)r.range(2, r.chance(0.01) ? 80 : 8);
        bool asked = false;
        for (int k = 0; k < rounds; k++) {
            int ne = (int)r.below(4);
            for (int j = 0; j < ne; j++)
                edit();
            if (r.chance(0.05)) {
                pm::UserGraph t = std::move(g);
                g = std::move(t);
                hist += "; move";
            }
            size_t n = g.get_num_nodes();
            if (!n)
                continue;
            int asks = (int)r.range(1, 3);
            for (int q = 0; q < asks; q++) {
                int mode = (int)r.below(6);
                bool search = r.chance(0.3);
                std::vector<u64> syn;
                double d = r.unit();
                for (size_t i = 0; i < n; i++)
                    if (r.chance(d * 0.8))
                        syn.push_back(i);
                if (syn.size() % 2 && r.chance(0.7))
                    syn.pop_back();
                size_t a = r.below(n), b = r.chance(0.2) ? SIZE_MAX : r.below(n);
                if (a == b)
                    mode = 0;
                unsigned seed = (unsigned)r.next();
                static const char *mn[] = {"observables", "mask", "edges", "pairs", "path", "noise"};
                hist += std::string("; ") + mn[mode] + (search ? "+s" : "") +
                        (mode == 4 ? "(" + std::to_string(a) + "," + std::to_string((ssize_t)b) + ")" : mode == 5 ? "()" : vstr(syn));
                note(hist);
                auto x = ask(g, mode, syn, a, b, seed, search);
                auto f = rebuild(g);
                auto y = ask(f, mode, syn, a, b, seed, mode != 1 && mode != 3 ? search : search);
                evaluated();
                count(std::string("compared ") + mn[mode]);
                bool same = x.status == y.status && x.w == y.w && x.norm == y.norm && x.obs == y.obs;
                // Which of several equally good paths, pairings or edge sets comes out may depend on neighbour order, and
                // the rebuilt graph has the same edge order, so these have to agree as well.
                same = same && x.list == y.list;
                if (!same)
                    fail("stale", "edited graph: " + show(x) + "; built from scratch: " + show(y) + "; history " + hist);
                if (asked && ne)
                    nontrivial(mix(hh, (u64)k * 8 + q));
                asked = true;
                if (x.status)
                    count("refusals compared");
            }
        }
        if (idx < 3)
            sample(hist.substr(0, 500));
    });
}
