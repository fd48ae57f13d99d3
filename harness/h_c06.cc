// C06: syndromes that cannot be decoded are refused with an invalid-argument error in every mode, and the decoder
// remains correct afterwards.
#include "demgen.h"
#include "pmh.h"
using namespace vh;

enum Mode { OBS, MASK, EDGES, PAIRS, CORR_OBS, CORR_MASK, CORR_EDGES, NMODES };
static const char *mode_name[] = {"obs", "mask", "edges", "pairs", "corr-obs", "corr-mask", "corr-edges"};

struct Result {
    int status = 0;  // 0 answered, 1 invalid_argument, 2 other exception
    std::string err;
    i64 weight = 0;
    bool has_weight = false;
    std::vector<std::pair<i64, i64>> edges;
};

static Result ask(pm::Mwpm &m, int mode, const std::vector<u64> &syn, size_t nobs) {
    Result a;
    std::vector<uint64_t> d(syn.begin(), syn.end());
    try {
        switch (mode) {
            case OBS:
            case CORR_OBS: {
                std::vector<uint8_t> o(nobs, 0);
                pm::total_weight_int w = 0;
                pm::decode_detection_events(m, d, o.data(), w, mode == CORR_OBS);
                a.weight = w;
                a.has_weight = true;
                break;
            }
            case MASK:
            case CORR_MASK: {
                auto r = pm::decode_detection_events_for_up_to_64_observables(m, d, mode == CORR_MASK);
                a.weight = r.weight;
                a.has_weight = true;
                break;
            }
            case EDGES:
            case CORR_EDGES: {
                std::vector<int64_t> e;
                if (mode == EDGES)
                    pm::decode_detection_events_to_edges(m, d, e);
                else
                    pm::decode_detection_events_to_edges_with_edge_correlations(m, d, e);
                for (size_t i = 0; i + 1 < e.size(); i += 2)
                    a.edges.push_back({e[i], e[i + 1]});
                break;
            }
            default: {
                pm::decode_detection_events_to_match_edges(m, d);
                for (auto &e : m.flooder.match_edges)
                    a.edges.push_back(
                        {e.loc_from - &m.flooder.graph.nodes[0], e.loc_to ? e.loc_to - &m.flooder.graph.nodes[0] : -1});
            }
        }
    } catch (const std::invalid_argument &e) {
        a.status = 1;
        a.err = e.what();
    } catch (const std::exception &e) {
        a.status = 2;
        a.err = e.what();
    }
    return a;
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C06", [](Rng &r, u64 idx) {
        bool dem = r.chance(0.35);
        Graph g;
        pm::Mwpm own;
        pm::UserGraph ug;
        pm::Mwpm *m;
        std::string desc;
        std::set<u64> boundary_nodes;
        bool weights_known = true;
        if (dem) {
            DemGenOpts o;
            o.n_lo = 1;
            o.n_hi = 10;
            o.errors_hi = 16;
            o.half = true;
            o.allow_zero = false;
            o.allow_undetectable = false;
            o.nobs = 2;
            int n = (int)r.range(o.n_lo, o.n_hi);
            auto es = gen_dem_errors(r, o, n);
            desc = dem_text(es, n, o.nobs);
            g.n = n;
            g.nobs = 2;
            RefDem ref(es);
            for (auto &e : ref.edges)
                g.edges.push_back({e.u, e.v, 1, {}});
            weights_known = false;
            stim::DetectorErrorModel d(desc.c_str());
            own = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, true, true);
            m = &own;
            count("error-model-decoders");
        } else {
            GenOpts o;
            o.n_lo = 1;
            o.n_hi = r.chance(0.2) ? 40 : 12;
            o.max_edges = 120;
            o.nobs = r.chance(0.15) ? 70 : 2;
            if (r.chance(0.5))
                o.family = 6;  // several components
            g = gen_graph(r, o);
            if (r.chance(0.3))  // remove all boundary edges: many odd components
                g.edges.erase(
                    std::remove_if(g.edges.begin(), g.edges.end(), [](const Edge &e) { return e.v < 0; }), g.edges.end());
            if (r.chance(0.3)) {
                ug = build_user_graph(g);
                m = &ug.get_mwpm_with_search_graph();
                count("user-graph-decoders");
            } else {
                own = build_mwpm(g, true);
                m = &own;
                count("core-decoders");
            }
            desc = g.str();
        }
        note(desc);
        MatchOracle orc(g);
        bool neg = orc.neg_sum != 0;
        int steps = (int)r.range(4, 16);
        std::ostringstream hist;
        bool after_error = false;
        u64 hh = g.hash();
        for (int t = 0; t < steps; t++) {
            int mode = dem ? (int)r.below(NMODES) : (int)r.below(4);
            if ((mode == MASK || mode == CORR_MASK) && g.nobs > 64)
                mode = OBS;
            std::vector<u64> syn = r.chance(0.4) ? gen_error_syndrome(r, g, r.unit() * 0.6) : gen_syndrome(r, g);
            bool out_of_range = r.chance(0.25);
            if (out_of_range) {
                u64 bad;
                switch (r.below(4)) {
                    case 0:
                        bad = g.n;
                        break;
                    case 1:
                        bad = (u64)g.n + 1 + r.below(100);
                        break;
                    case 2:
                        bad = ~(u64)0 - r.below(3);
                        break;
                    default:
                        bad = (u64)1 << r.range(32, 63);
                }
                syn.insert(syn.begin() + r.below(syn.size() + 1), bad);
            }
            hist << " " << mode_name[mode] << vstr(syn);
            std::string ctx = " history:" + hist.str() + " on " + desc;
            note(desc + " history:" + hist.str());
            Result got = ask(*m, mode, syn, g.nobs);
            evaluated();
            hh = mix(hh, syn.size() * 131 + mode + (syn.empty() ? 0 : syn.front() * 7 + syn.back()));
            bool pairs_refused = mode == PAIRS && neg;
            if (got.status == 2)
                fail("exception", "an exception other than invalid_argument was raised: " + got.err + ctx);
            if (out_of_range) {
                count("out-of-range");
                if (got.status != 1)
                    fail("accepted", "a syndrome naming a detector that does not exist was answered" + ctx);
                after_error = true;
                nontrivial(hh);
                continue;
            }
            if (pairs_refused) {
                if (got.status != 1)
                    fail("accepted", "matched pairs were returned for a graph with negative weights" + ctx);
                count("pairs-refused");
                after_error = true;
                continue;
            }
            bool feas = orc.feasible(syn);
            if (!feas) {
                count("odd-component");
                if (got.status != 1)
                    fail("accepted", "a syndrome that no edge set reproduces was answered" + ctx);
                after_error = true;
                nontrivial(hh);
                continue;
            }
            if (got.status != 0)
                fail("rejected", "an explainable syndrome was rejected: " + got.err + ctx);
            if (after_error) {
                count("correct-decodes-after-an-error");
                nontrivial(hh ^ 1);
            }
            if (got.has_weight && weights_known) {
                i64 w = orc.min_weight(syn);
                if (got.weight != w)
                    fail("after-error", "weight " + std::to_string(got.weight) + " but minimum is " + std::to_string(w) + ctx);
            }
            if (mode == EDGES || mode == CORR_EDGES || mode == PAIRS) {
                std::vector<int> par(g.n, 0);
                for (auto &e : got.edges) {
                    if (e.first >= 0 && e.first < g.n)
                        par[e.first] ^= 1;
                    if (e.second >= 0 && e.second < g.n)
                        par[e.second] ^= 1;
                }
                for (auto s : syn)
                    par[s] ^= 1;
                for (int i = 0; i < g.n; i++)
                    if (par[i])
                        fail("after-error", "the returned correction does not reproduce the syndrome" + ctx);
            }
        }
        if (idx < 3)
            sample(desc + " history:" + hist.str());
    });
}
