// C05: each decode is independent of the decoder's history.
#include "pmh.h"
#include "demgen.h"
using namespace vh;

struct Answer {
    bool ok = false;
    i64 weight = 0;
    std::vector<uint8_t> obs;
    std::vector<std::pair<i64, i64>> list;  // edges or pairs, canonical order
    bool operator==(const Answer &o) const {
        return ok == o.ok && weight == o.weight && obs == o.obs && list == o.list;
    }
    std::string str() const {
        std::ostringstream s;
        s << (ok ? "ok" : "error") << " weight=" << weight << " obs=" << vstr(obs) << " list=";
        for (auto &p : list)
            s << "(" << p.first << "," << p.second << ")";
        return s.str();
    }
};
enum Mode { OBS, MASK, EDGES, PAIRS, CORR, CORR_MASK, CORR_EDGES, NMODES };
static const char *mode_name[] = {"obs", "mask", "edges", "pairs", "corr", "corr-mask", "corr-edges"};

static Answer ask(pm::Mwpm &m, int mode, const std::vector<u64> &syn, size_t nobs) {
    Answer a;
    std::vector<uint64_t> d(syn.begin(), syn.end());
    try {
        switch (mode) {
            case OBS:
            case CORR: {
                a.obs.assign(nobs, 0);
                pm::total_weight_int w = 0;
                pm::decode_detection_events(m, d, a.obs.data(), w, mode == CORR);
                a.weight = w;
                break;
            }
            case MASK:
            case CORR_MASK: {
                auto r = pm::decode_detection_events_for_up_to_64_observables(m, d, mode == CORR_MASK);
                a.weight = r.weight;
                for (size_t i = 0; i < nobs && i < 64; i++)
                    a.obs.push_back((r.obs_mask >> i) & 1);
                break;
            }
            case EDGES:
            case CORR_EDGES: {
                std::vector<int64_t> e;
                if (mode == EDGES)
                    pm::decode_detection_events_to_edges(m, d, e);
                else
                    pm::decode_detection_events_to_edges_with_edge_correlations(m, d, e);
                for (size_t i = 0; i + 1 < e.size(); i += 2)
                    a.list.push_back({std::min(e[i], e[i + 1]), std::max(e[i], e[i + 1])});
                break;
            }
            case PAIRS: {
                pm::decode_detection_events_to_match_edges(m, d);
                for (auto &e : m.flooder.match_edges) {
                    i64 x = e.loc_from - &m.flooder.graph.nodes[0];
                    i64 y = e.loc_to ? e.loc_to - &m.flooder.graph.nodes[0] : -1;
                    a.list.push_back({std::min(x, y), std::max(x, y)});
                }
                break;
            }
        }
        a.ok = true;
    } catch (const std::invalid_argument &) {
        a = Answer();
    }
    std::sort(a.list.begin(), a.list.end());
    return a;
}

static void check_clean(pm::Mwpm &m, const std::string &what) {
#ifndef VH_NO_INTERNALS
    for (auto &n : m.flooder.graph.nodes)
        if (n.region_that_arrived || n.region_that_arrived_top)
            fail("leftover", "detector state left behind " + what);
    if (!m.flooder.queue.empty())
        fail("leftover", "events left in the queue " + what);
    if (m.node_arena.allocated.size() != m.node_arena.available.size())
        fail("leftover", "alternating-tree nodes still allocated " + what);
    if (m.flooder.region_arena.allocated.size() != m.flooder.region_arena.available.size())
        fail("leftover", "regions still allocated " + what);
    for (auto &n : m.search_flooder.graph.nodes)
        if (n.reached_from_source)
            fail("leftover", "path-search state left behind " + what);
#endif
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C05", [](Rng &r, u64 idx) {
        size_t nobs;
        int n;
        std::function<pm::Mwpm()> fresh;
        std::string desc;
        bool corr_ok = false;
        Graph g;
        bool dem = r.chance(0.4);
        bool far = r.chance(0.04);
        if (far) {  // event times beyond half a cycle of the 32-bit clock, and back to small ones
            const i64 W = (1 << 24) - 1;
            g.n = (int)r.range(70, 300);
            g.nobs = (int)r.range(1, 2);
            int legs = r.chance(0.3) ? 3 : 1;
            for (int i = 1; i < g.n; i++) {
                Edge e{i, i < legs ? 0 : i - legs, r.chance(0.9) ? W - (i64)r.below(4) : r.range(0, 9), {}};
                if (legs == 1)
                    e.v = i - 1;
                if (r.chance(0.2))
                    e.obs.push_back(0);
                g.edges.push_back(e);
            }
            if (r.chance(0.7))
                g.edges.push_back({0, -1, r.chance(0.5) ? W : 3, {}});
            if (r.chance(0.3))
                g.edges.push_back({g.n - 1, legs == 1 && r.chance(0.5) ? 0 : -1, W, {}});
            g.family = "far";
            desc = g.str();
            nobs = g.nobs;
            n = g.n;
            fresh = [g]() {
                return build_mwpm(g, true);
            };
            count("graph-histories:far");
        } else if (dem) {
            DemGenOpts o;
            o.n_lo = 2;
            o.n_hi = 12;
            o.errors_hi = 30;
            o.half = true;
            o.nobs = r.chance(0.15) ? 70 : (int)r.range(1, 3);
            n = (int)r.range(o.n_lo, o.n_hi);
            auto es = gen_dem_errors(r, o, n);
            for (auto &e : es)  // 1e-5 .. 1/2
                if (e.p == 0)
                    e.p = 0.01;
            es.erase(
                std::remove_if(
                    es.begin(), es.end(), [](const DemError &e) { return e.comps.size() > 1 && e.comps[0].dets.empty(); }),
                es.end());
            std::string text = dem_text(es, n, o.nobs);
            desc = text;
            nobs = o.nobs;
            corr_ok = true;
            fresh = [text]() {
                stim::DetectorErrorModel d(text.c_str());
                return pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, true, true);
            };
            g.n = n;
            for (auto &e : es)
                for (auto &c : e.comps)
                    if (c.dets.size() == 1)
                        g.edges.push_back({c.dets[0], -1, 1, {}});
                    else if (c.dets.size() == 2)
                        g.edges.push_back({c.dets[0], c.dets[1], 1, {}});
            count("dem-histories");
        } else {
            GenOpts o;
            o.n_lo = 1;
            o.n_hi = r.chance(0.1) ? 60 : 12;
            o.max_edges = 200;
            o.nobs = r.chance(0.15) ? 66 : (int)r.range(0, 3);
            g = gen_graph(r, o);
            desc = g.str();
            nobs = g.nobs;
            n = g.n;
            fresh = [g]() {
                return build_mwpm(g, true);
            };
            count("graph-histories:" + g.family);
        }
        note(desc);
        pm::Mwpm used = fresh();
        int steps = (int)r.range(3, 14);
        if (!far && n <= 12 && r.chance(0.015)) {
            steps = (int)r.range(120, 700);  // state that builds up slowly
            count("long histories");
        }
        std::ostringstream hist;
        u64 hh = 0;
        bool failed_before = false;
        for (int t = 0; t < steps; t++) {
            int mode = corr_ok ? (int)r.below(NMODES) : (int)r.below(PAIRS + 1);
            if ((mode == MASK || mode == CORR_MASK) && nobs > 64)
                mode = OBS;
            std::vector<u64> syn;
            if (far && r.chance(0.8)) {
                std::set<u64> pick;
                for (int k = (int)r.range(0, 3); k >= 0; k--)
                    pick.insert(r.chance(0.4) ? (u64)r.below(6) : r.below(n));
                if (r.chance(0.3) && pick.count(n - 2) == 0)
                    pick.insert(n - 1);
                syn.assign(pick.begin(), pick.end());
            } else
                syn = r.chance(0.55) ? gen_error_syndrome(r, g, r.unit() * 0.6) : gen_syndrome(r, g);
            bool bad = r.chance(0.06);
            if (bad)
                syn.insert(syn.begin() + r.below(syn.size() + 1), (u64)n + r.below(5));
            hist << " " << mode_name[mode] << vstr(syn);
            if (t < 20 || t % 16 == 0)
                note(desc + " history:" + hist.str());
            pm::Mwpm f = fresh();
            Answer want = ask(f, mode, syn, nobs);
            Answer got = ask(used, mode, syn, nobs);
            evaluated();
            if (!(want == got))
                fail("history", "answer depends on history: fresh decoder " + want.str() + ", used decoder " + got.str() +
                                    " after" + hist.str() + " on " + desc);
            check_clean(used, "after" + hist.str() + " on " + desc);
            count(std::string("mode:") + mode_name[mode]);
            if (!got.ok) {
                count("failed-decodes");
                failed_before = true;
            } else if (failed_before) {
                count("good-decodes-after-a-failure");
            }
            hh = mix(hh, mix(mode, syn.size() * 977 + (syn.empty() ? 0 : syn[0] * 31 + syn.back())));
            if (t >= 1)
                nontrivial(mix(hh, g.hash()));
            if (r.chance(0.1)) {
                pm::Mwpm moved(std::move(used));
                used = std::move(moved);
                hist << " move";
            }
        }
        if (idx < 3)
            sample(desc + " history:" + hist.str());
    });
}
