// C08: no memory error, undefined behaviour or leak under any history of API calls.
// The oracle is the sanitizer (or valgrind) the process runs under, plus a live-allocation balance over each history.
#include <atomic>
#include <cmath>
#include "demgen.h"
#include "pmh.h"
#include "pymatching/rand/rand_gen.h"
using namespace vh;

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
static volatile bool tracking = false;
static std::atomic<i64> live{0};
static void on_malloc(const volatile void *, size_t) {
    live++;
}
static void on_free(const volatile void *p) {
    if (p)
        live--;
}
#define HAVE_HOOKS 1
#else
#define HAVE_HOOKS 0
#endif

struct Counts {
    u64 edit = 0, refused_edit = 0, decode = 0, refused = 0, path = 0, refused_path = 0, noise = 0, moved = 0, reset = 0,
        standalone = 0, big_obs = 0, masks = 0, dem = 0;
};

static std::vector<uint64_t> rand_syndrome(Rng &r, size_t n, bool hostile) {
    std::vector<uint64_t> s;
    double d = r.chance(0.3) ? 0.9 : r.unit() * 0.6;
    for (size_t i = 0; i < n; i++)
        if (r.chance(d))
            s.push_back(i);
    if (s.size() % 2 && !r.chance(0.3))
        s.pop_back();
    for (size_t i = s.size(); i > 1; i--)
        std::swap(s[i - 1], s[r.below(i)]);
    if (hostile) {
        static const uint64_t bad[] = {0, 1, 7, 1000, (uint64_t)1 << 32, UINT64_MAX, UINT64_MAX - 1};
        uint64_t b = bad[r.below(7)];
        uint64_t v = b > 100000 ? b : n + b;
        s.insert(s.begin() + r.below(s.size() + 1), v);
    }
    return s;
}

static void use_mwpm(Rng &r, pm::Mwpm &m, Counts &c) {
    size_t n = m.flooder.graph.nodes.size();
    size_t nobs = m.flooder.graph.num_observables;
    auto syn = rand_syndrome(r, n, r.chance(0.07));
    c.decode++;
    if (nobs > 64)
        c.big_obs++;
    try {
        switch (r.below(6)) {
            case 0: {
                std::vector<uint8_t> o(nobs, 0);
                pm::total_weight_int w = 0;
                pm::decode_detection_events(m, syn, o.data(), w, false);
                break;
            }
            case 1:
                if (nobs <= 64)
                    pm::decode_detection_events_for_up_to_64_observables(m, syn, false);
                break;
            case 2: {
                std::vector<int64_t> e;
                pm::decode_detection_events_to_edges(m, syn, e);
                break;
            }
            case 3:
                pm::decode_detection_events_to_match_edges(m, syn);
                break;
            case 4: {
                std::vector<uint8_t> o(nobs, 0);
                pm::total_weight_int w = 0;
                pm::decode_detection_events(m, syn, o.data(), w, true);
                break;
            }
            default: {
                std::vector<int64_t> e;
                pm::decode_detection_events_to_edges_with_edge_correlations(m, syn, e);
                break;
            }
        }
    } catch (const std::invalid_argument &) {
        c.refused++;
    }
}

static std::vector<size_t> rand_obs(Rng &r, size_t lim) {
    std::vector<size_t> o;
    int k = (int)r.below(4);
    for (int i = 0; i < k; i++) {
        size_t x = r.chance(0.2) ? lim - 1 : r.below(lim);
        if (std::find(o.begin(), o.end(), x) == o.end())
            o.push_back(x);
    }
    return o;
}

static pm::UserGraph fresh(Rng &r, Counts &c, int nmax) {
    int kind = (int)r.below(4);
    if (kind <= 1) {
        c.dem++;
        DemGenOpts o;
        o.n_lo = 1;
        o.n_hi = nmax;
        o.nobs = r.chance(0.3) ? 70 : (int)r.below(4);
        o.errors_hi = 2 * nmax;
        o.half = kind == 0 || r.chance(0.5);
        o.allow_hyper = r.chance(0.2);
        int n = (int)r.range(o.n_lo, o.n_hi);
        auto es = gen_dem_errors(r, o, n);
        if (kind == 0 && r.chance(0.7))
            es.erase(
                std::remove_if(
                    es.begin(),
                    es.end(),
                    [](const DemError &e) {
                        for (auto &x : e.comps)
                            if (x.dets.empty() || x.dets.size() > 2)
                                return true;
                        return false;
                    }),
                es.end());
        try {
            stim::DetectorErrorModel dem(dem_text(es, n, o.nobs).c_str());
            return pm::detector_error_model_to_user_graph(dem, kind == 0, pm::NUM_DISTINCT_WEIGHTS);
        } catch (const std::invalid_argument &) {
            c.refused_edit++;
        }
    }
    if (kind == 2)
        return pm::UserGraph();
    return pm::UserGraph(r.below(nmax + 1), r.chance(0.2) ? 65 + r.below(60) : r.below(4));
}

static void history(Rng &r, Counts &c, int steps, int nmax) {
    std::vector<pm::UserGraph> gs;
    std::vector<pm::Mwpm> ms;
    gs.push_back(fresh(r, c, nmax));
    size_t obs_lim = r.chance(0.25) ? 130 : (r.chance(0.3) ? 64 : 4);
    bool integral = r.chance(0.5);
    double pneg = r.chance(0.5) ? 0 : 0.4;
    for (int s = 0; s < steps; s++) {
        auto &g = gs[r.below(gs.size())];
        int what = (int)r.below(20);
        if (g.get_num_nodes() == 0 && what >= 5 && what < 17)
            what = 0;
        if (what <= 4) {
            c.edit++;
            double w = integral ? (double)r.range(0, r.chance(0.05) ? 1 << 24 : 12) : r.unit() * 10;
            if (r.chance(0.02))
                w = 16777215.0;
            if (r.chance(pneg))
                w = -w;
            double p = r.chance(0.8) ? r.unit() : -1;
            auto strat = (pm::MERGE_STRATEGY)r.below(5);
            try {
                if (r.chance(0.25))
                    g.add_or_merge_boundary_edge(r.below(nmax), rand_obs(r, obs_lim), w, p, strat);
                else
                    g.add_or_merge_edge(r.below(nmax), r.below(nmax), rand_obs(r, obs_lim), w, p, strat);
            } catch (const std::invalid_argument &) {
                c.refused_edit++;
            }
        } else if (what == 5) {
            std::set<size_t> b;
            int k = (int)r.below(3);
            for (int i = 0; i < k; i++)
                b.insert(r.below(nmax + 2));
            g.set_boundary(b);
        } else if (what == 6) {
            g.set_min_num_observables(r.below(obs_lim + 10));
            (void)g.get_boundary();
            (void)g.get_num_detectors();
            (void)g.max_abs_weight();
            (void)g.has_edge(r.below(nmax + 3), r.below(nmax + 3));
            (void)g.has_boundary_edge(r.below(nmax + 3));
            double w;
            (void)g.get_edge_or_boundary_edge_weight(r.below(nmax + 3), r.chance(0.3) ? SIZE_MAX : r.below(nmax + 3), w);
        } else if (what <= 11) {
            try {
                auto &m = r.chance(0.5) ? g.get_mwpm() : g.get_mwpm_with_search_graph();
                use_mwpm(r, m, c);
            } catch (const std::invalid_argument &) {
                c.refused++;
            }
        } else if (what <= 13) {
            c.path++;
            std::vector<size_t> out;
            try {
                size_t n = g.get_num_nodes();
                auto pick = [&]() -> size_t {
                    if (r.chance(0.15))
                        return SIZE_MAX;
                    if (r.chance(0.05))
                        return n + r.below(3);
                    return r.below(n);
                };
                g.get_nodes_on_shortest_path_from_source(pick(), pick(), out);
            } catch (const std::invalid_argument &) {
                c.refused_path++;
            }
        } else if (what == 14) {
            c.noise++;
            std::vector<uint8_t> e(g.get_num_observables(), 0), y(g.get_num_nodes(), 0);
            g.add_noise(e.data(), y.data());
        } else if (what == 15) {
            c.moved++;
            pm::UserGraph t = std::move(g);
            if (r.chance(0.5) && t.get_num_nodes()) {
                try {
                    use_mwpm(r, t.get_mwpm_with_search_graph(), c);
                } catch (const std::invalid_argument &) {
                    c.refused++;
                }
            }
            g = std::move(t);
        } else if (what == 16) {
            c.standalone++;
            try {
                ms.push_back(g.to_mwpm(r.chance(0.8) ? pm::NUM_DISTINCT_WEIGHTS : 1000, r.chance(0.5)));
            } catch (const std::invalid_argument &) {
                c.refused++;
            }
        } else if (what == 17) {
            if (!ms.empty()) {
                auto &m = ms[r.below(ms.size())];
                switch (r.below(4)) {
                    case 0: {
                        pm::Mwpm t(std::move(m));
                        if (t.flooder.graph.nodes.size())
                            use_mwpm(r, t, c);
                        m = std::move(t);
                        c.moved++;
                        break;
                    }
                    case 1:
                        m.reset();
                        c.reset++;
                        break;
                    case 2:
                        m = pm::Mwpm();
                        c.moved++;
                        break;
                    default:
                        std::swap(m, ms[r.below(ms.size())]);
                        c.moved++;
                }
            }
        } else if (what == 18) {
            if (!ms.empty()) {
                auto &m = ms[r.below(ms.size())];
                if (m.flooder.graph.nodes.size())
                    use_mwpm(r, m, c);
            }
        } else {
            c.masks++;
            size_t k = r.below(68);
            std::vector<uint8_t> v(k);
            for (auto &x : v)
                x = r.chance(0.5);
            try {
                auto mask = pm::bit_vector_to_obs_mask(v);
                std::vector<uint8_t> back(k, 0);
                pm::fill_bit_vector_from_obs_mask(mask, back.data(), k);
                pm::ExtendedMatchingResult a(k), b(v, 3);
                a += b;
                (void)(a == b);
            } catch (const std::invalid_argument &) {
                c.refused++;
            }
            if (gs.size() < 3)
                gs.push_back(fresh(r, c, nmax));
            else if (r.chance(0.5))
                gs.erase(gs.begin() + r.below(gs.size() - 1));
        }
    }
}

int main(int argc, char **argv) {
    bool small = getenv("VH_SMALL") != nullptr;
    {
        Rng w(3);
        Counts c;
        history(w, c, 200, 8);  // touches every static before counting starts
    }
#if HAVE_HOOKS
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    return run_cases(argc, argv, "C08", [small](Rng &r, u64 idx) {
        u64 start = r.s;
        note("history seed " + std::to_string(start));
        Counts c;
        int steps = (int)r.range(5, small ? 60 : 150);
        int nmax = r.chance(0.15) ? (int)r.range(10, small ? 16 : 40) : (int)r.range(1, 9);
#if HAVE_HOOKS
        i64 before = live;
#endif
        history(r, c, steps, nmax);
#if HAVE_HOOKS
        i64 after = live;
        if (after != before)
            fail("leak", std::to_string(after - before) + " heap blocks still allocated after every decoder and graph was destroyed (history seed " +
                             std::to_string(start) + ", " + std::to_string(steps) + " steps)");
        count("histories with allocation balance checked");
#endif
        evaluated(steps);
        count("edits", c.edit);
        count("refused edits", c.refused_edit);
        count("decodes", c.decode);
        count("refused decodes", c.refused);
        count("decodes with >64 observables", c.big_obs);
        count("path queries", c.path);
        count("refused path queries", c.refused_path);
        count("noise samples", c.noise);
        count("moves", c.moved);
        count("resets", c.reset);
        count("models loaded", c.dem);
        if (c.decode >= 2)
            nontrivial(mix(start, steps));
        if (idx < 3)
            sample("history of " + std::to_string(steps) + " calls: " + std::to_string(c.edit) + " edits, " +
                   std::to_string(c.decode) + " decodes (" + std::to_string(c.refused) + " refused), " +
                   std::to_string(c.path) + " path queries, " + std::to_string(c.moved) + " moves");
    });
}
