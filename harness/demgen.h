// Detector error model workloads and an independent reference interpretation of them.
#ifndef VERIF_DEMGEN_H
#define VERIF_DEMGEN_H
#include "vh.h"
namespace vh {

struct DemComponent {
    std::vector<int> dets;
    std::vector<size_t> obs;
};
struct DemError {
    double p;
    std::vector<DemComponent> comps;
};
struct DemGenOpts {
    int n_lo = 1, n_hi = 8, nobs = 2, errors_lo = 0, errors_hi = 14;
    double p_multi = 0.4;   // chance an error is decomposed into several components
    bool half = false;      // only probabilities <= 1/2
    bool allow_zero = true;
    double p_certain = 0;           // chance an error has probability 1
    bool allow_hyper = false;       // components with >2 detectors
    bool allow_undetectable = true;  // observable-only errors
    int pmode = -1;
    int max_pairs = 1000;  // limit on distinct edges
};

inline double gen_p(Rng &r, int mode, bool half) {
    switch (mode) {
        case 0:
            return 0.01;
        case 1:
            return 0.001 * (double)r.range(1, 20);
        case 2:
            return half ? r.unit() * 0.4999 + 1e-9 : r.unit() * 0.999 + 1e-9;
        case 3:
            return std::pow(10.0, -(double)r.range(1, 9));
        case 4:
            return r.chance(0.3) ? 0.5 : 0.25;
        default:
            return half ? 0.1 + 0.3 * r.unit() : 0.05 + 0.9 * r.unit();
    }
}

inline std::vector<DemError> gen_dem_errors(Rng &r, const DemGenOpts &o, int n) {
    std::vector<DemError> out;
    int m = (int)r.range(o.errors_lo, o.errors_hi);
    int mode = o.pmode >= 0 ? o.pmode : (int)r.below(6);
    std::set<std::pair<int, int>> pairs;
    bool distinct_comps = true;
    for (int i = 0; i < m; i++) {
        DemError e;
        e.p = gen_p(r, mode, o.half);
        if (o.allow_zero && r.chance(0.05))
            e.p = 0;
        if (o.p_certain > 0 && r.chance(o.p_certain))
            e.p = 1;
        int k = r.chance(o.p_multi) ? (int)r.range(2, 3) : 1;
        if (o.allow_undetectable && r.chance(0.04)) {
            DemComponent c;
            for (int b = 0; b < o.nobs; b++)
                if (r.chance(0.5))
                    c.obs.push_back(b);
            e.comps.push_back(c);
            out.push_back(e);
            continue;
        }
        std::set<std::pair<int, int>> here;
        for (int j = 0; j < k; j++) {
            DemComponent c;
            int a = (int)r.below(n);
            int nd = (n >= 2 && r.chance(0.65)) ? 2 : 1;
            if (o.allow_hyper && n >= 3 && r.chance(0.1))
                nd = 3;
            c.dets.push_back(a);
            while ((int)c.dets.size() < nd) {
                int b = (int)r.below(n);
                if (std::find(c.dets.begin(), c.dets.end(), b) == c.dets.end())
                    c.dets.push_back(b);
            }
            for (int b = 0; b < o.nobs; b++)
                if (r.chance(0.25))
                    c.obs.push_back(b);
            if (nd <= 2) {
                std::pair<int, int> key = nd == 1 ? std::make_pair(-1, a) : std::make_pair(std::min(c.dets[0], c.dets[1]), std::max(c.dets[0], c.dets[1]));
                if (distinct_comps && !here.insert(key).second)
                    continue;
                if (!pairs.count(key) && (int)pairs.size() >= o.max_pairs)
                    continue;
                pairs.insert(key);
            }
            e.comps.push_back(c);
        }
        if (!e.comps.empty())
            out.push_back(e);
    }
    return out;
}

inline std::string dem_error_text(const DemError &e, int shift = 0) {
    std::ostringstream o;
    char b[64];
    snprintf(b, sizeof b, "error(%.17g)", e.p);
    o << b;
    bool first = true;
    for (auto &c : e.comps) {
        if (!first)
            o << " ^";
        first = false;
        for (auto d : c.dets)
            o << " D" << d - shift;
        for (auto x : c.obs)
            o << " L" << x;
    }
    return o.str();
}
inline std::string dem_text(const std::vector<DemError> &es, int n, int nobs) {
    std::ostringstream o;
    for (auto &e : es)
        o << dem_error_text(e) << "\n";
    if (n)
        o << "detector D" << n - 1 << "\n";
    if (nobs)
        o << "logical_observable L" << nobs - 1 << "\n";
    return o.str();
}

// Reference: edges in order of first appearance.
struct RefEdge {
    int u, v;  // v == -1 boundary; u < v otherwise (order as given kept separately)
    double p = 0;
    std::vector<size_t> obs;
};
struct RefDem {
    std::vector<RefEdge> edges;
    std::map<std::pair<int, int>, size_t> index;                                        // (min,max), boundary as (-1,u)
    std::map<std::pair<std::pair<int, int>, std::pair<int, int>>, double> joint;         // P(both) by xor combination
    static std::pair<int, int> key(const DemComponent &c) {
        if (c.dets.size() == 1)
            return {-1, c.dets[0]};
        return {std::min(c.dets[0], c.dets[1]), std::max(c.dets[0], c.dets[1])};
    }
    explicit RefDem(const std::vector<DemError> &es) {
        auto bx = [](double a, double b) {
            return a + b - 2 * a * b;
        };
        for (auto &e : es) {
            if (e.p == 0)
                continue;
            for (auto &c : e.comps) {
                if (c.dets.empty() || c.dets.size() > 2)
                    continue;
                auto k = key(c);
                auto it = index.find(k);
                if (it == index.end()) {
                    index[k] = edges.size();
                    RefEdge re;
                    re.u = k.first == -1 ? k.second : k.first;
                    re.v = k.first == -1 ? -1 : k.second;
                    re.p = e.p;
                    re.obs = c.obs;
                    edges.push_back(re);
                } else {
                    edges[it->second].p = bx(edges[it->second].p, e.p);
                }
            }
            for (size_t a = 0; a < e.comps.size(); a++)
                for (size_t b = 0; b < e.comps.size(); b++)
                    if (a != b && e.comps[a].dets.size() >= 1 && e.comps[a].dets.size() <= 2 &&
                        e.comps[b].dets.size() >= 1 && e.comps[b].dets.size() <= 2) {
                        auto k = std::make_pair(key(e.comps[a]), key(e.comps[b]));
                        auto it = joint.find(k);
                        if (it == joint.end())
                            joint[k] = e.p;
                        else
                            it->second = bx(it->second, e.p);
                    }
        }
    }
};

}  // namespace vh
#endif
