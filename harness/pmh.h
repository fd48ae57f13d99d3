// Glue between the workload model and PyMatching's public C++ interface.
#ifndef VERIF_PMH_H
#define VERIF_PMH_H
#include "vh.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"
#include "pymatching/sparse_blossom/matcher/mwpm.h"

namespace vh {

inline pm::Mwpm build_mwpm(const Graph &g, bool with_search = true) {
    pm::MatchingGraph mg(g.n, g.nobs);
    for (auto &e : g.edges) {
        if (e.v < 0)
            mg.add_boundary_edge(e.u, (pm::signed_weight_int)(2 * e.w), e.obs);
        else
            mg.add_edge(e.u, e.v, (pm::signed_weight_int)(2 * e.w), e.obs);
    }
    if (with_search) {
        pm::SearchGraph sg(g.n);
        for (auto &e : g.edges) {
            if (e.v < 0)
                sg.add_boundary_edge(e.u, (pm::signed_weight_int)(2 * e.w), e.obs, {});
            else
                sg.add_edge(e.u, e.v, (pm::signed_weight_int)(2 * e.w), e.obs, {});
        }
        pm::Mwpm m(pm::GraphFlooder(std::move(mg)), pm::SearchFlooder(std::move(sg)));
        m.flooder.sync_negative_weight_observables_and_detection_events();
        return m;
    }
    pm::Mwpm m{pm::GraphFlooder(std::move(mg))};
    m.flooder.sync_negative_weight_observables_and_detection_events();
    return m;
}

inline pm::UserGraph build_user_graph(const Graph &g, double scale = 1.0) {
    pm::UserGraph ug(g.n, g.nobs);
    for (auto &e : g.edges) {
        if (e.v < 0)
            ug.add_or_merge_boundary_edge(e.u, e.obs, (double)e.w * scale, -1);
        else
            ug.add_or_merge_edge(e.u, e.v, e.obs, (double)e.w * scale, -1);
    }
    return ug;
}

struct Outcome {
    bool ok = false;  // false: the decoder reported that no matching exists / input invalid
    i64 weight = 0;
    std::vector<uint8_t> obs;
    std::string err;
    u64 mask() const {
        u64 m = 0;
        for (size_t i = 0; i < obs.size() && i < 64; i++)
            m |= (u64)(obs[i] & 1) << i;
        return m;
    }
};
inline Outcome decode(pm::Mwpm &m, const std::vector<u64> &dets, size_t nobs, bool corr = false) {
    Outcome o;
    o.obs.assign(nobs, 0);
    pm::total_weight_int w = 0;
    std::vector<uint64_t> d(dets.begin(), dets.end());
    try {
        pm::decode_detection_events(m, d, o.obs.data(), w, corr);
        o.ok = true;
        o.weight = w;
    } catch (const std::invalid_argument &e) {
        o.err = e.what();
    }
    return o;
}
inline Outcome decode64(pm::Mwpm &m, const std::vector<u64> &dets, size_t nobs, bool corr = false) {
    Outcome o;
    std::vector<uint64_t> d(dets.begin(), dets.end());
    try {
        auto r = pm::decode_detection_events_for_up_to_64_observables(m, d, corr);
        o.ok = true;
        o.weight = r.weight;
        o.obs.assign(nobs, 0);
        for (size_t i = 0; i < nobs; i++)
            o.obs[i] = (r.obs_mask >> i) & 1;
        if (nobs < 64 && (r.obs_mask >> nobs))
            fail("obs-out-of-range", "predicted observable mask has bits beyond the number of observables");
    } catch (const std::invalid_argument &e) {
        o.err = e.what();
    }
    return o;
}
inline std::vector<u64> bits_to_list(u64 s) {
    std::vector<u64> v;
    for (int i = 0; i < 64; i++)
        if ((s >> i) & 1)
            v.push_back(i);
    return v;
}

}  // namespace vh
#endif
