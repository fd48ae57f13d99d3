// A user graph whose boundary edges partly lead to declared boundary nodes, with heavier parallel ones and edges among
// the boundary nodes, that has to decode exactly like the given graph.
#pragma once
#include "giant.h"
#include "pmh.h"

namespace vh {

struct Declared {
    pm::UserGraph ug;
    Scatter sc;            // where the detectors went
    std::set<size_t> bnd;  // declared boundary nodes
    std::vector<i64> inv;  // index -> detector, -1 for boundary nodes
    Graph eff;             // the lightest boundary edge of each detector only
    Graph full;            // every edge, declared boundary nodes counted as the boundary
    std::string desc;
    // The same syndrome, with some of the declared boundary nodes (which make no difference) thrown in.
    std::vector<u64> map(Rng &r, const std::vector<u64> &syn) const {
        auto in = sc.map(syn);
        for (auto b : bnd)
            if (r.chance(0.15))
                in.insert(in.begin() + r.below(in.size() + 1), b);
        return in;
    }
    void unmap(std::vector<int64_t> &edges) const {
        for (auto &x : edges)
            if (x >= 0) {
                if (x >= (i64)inv.size() || inv[x] < 0)
                    fail("declared-boundary", "an edge list names node " + std::to_string(x) + ", which is a declared boundary node or absent, on " + desc);
                x = inv[x];
            }
    }
};

// safe: a heavier parallel boundary edge is also heavier than the gain of a negative one, so that no edge set with both helps.
inline void declare_boundary(Rng &r, const Graph &g, bool safe, Declared &D) {
    int k = (int)r.range(1, 4);
    int total = g.n + k + (int)r.below(2);
    std::vector<u64> idx(total);
    for (int i = 0; i < total; i++)
        idx[i] = i;
    if (r.chance(0.6))
        for (size_t i = idx.size(); i > 1; i--)
            std::swap(idx[i - 1], idx[r.below(i)]);
    D.sc.f.assign(idx.begin(), idx.begin() + g.n);
    D.sc.n = total;
    D.inv.assign(total, -1);
    for (int i = 0; i < g.n; i++)
        D.inv[D.sc.f[i]] = i;
    std::vector<i64> target;  // where a boundary edge may lead: -1 is the virtual boundary
    for (int i = 0; i < k; i++) {
        D.bnd.insert(idx[g.n + i]);
        target.push_back((i64)idx[g.n + i]);
    }
    target.push_back(-1);
    D.ug = pm::UserGraph(total, g.nobs);
    struct E {
        i64 u, v, w;
        std::vector<size_t> obs;
    };
    std::vector<E> es;
    D.eff = g;
    D.full = g;
    for (auto &e : g.edges) {
        i64 u = (i64)D.sc.f[e.u];
        std::vector<size_t> obs(e.obs.begin(), e.obs.end());
        if (e.v >= 0) {
            es.push_back({u, (i64)D.sc.f[e.v], (i64)e.w, obs});
            continue;
        }
        auto t = target;
        for (size_t i = t.size(); i > 1; i--)
            std::swap(t[i - 1], t[r.below(i)]);
        std::vector<E> par{{u, t[0], (i64)e.w, obs}};
        if (r.chance(0.5))
            for (size_t j = 1; j < t.size() && r.chance(0.7); j++) {
                i64 lo = e.w + 1;
                if (safe && e.w < 0)
                    lo = -e.w + 1;
                i64 w = lo + (i64)r.below(r.chance(0.5) ? 3 : 40);
                if (w > 16777215)
                    break;
                std::vector<size_t> o;
                for (int b = 0; b < g.nobs && b < 70; b++)
                    if (r.chance(0.3))
                        o.push_back(b);
                par.push_back({u, t[j], w, o});
                auto x = e;
                x.w = w;
                x.obs.assign(o.begin(), o.end());
                D.full.edges.push_back(x);
            }
        // heavier ones before and after the lightest
        for (size_t i = par.size(); i > 1; i--)
            std::swap(par[i - 1], par[r.below(i)]);
        for (auto &x : par)
            es.push_back(x);
    }
    for (int j = (int)r.below(3); j > 0 && k > 1; j--) {
        std::vector<size_t> o;
        if (g.nobs > 0)
            o.push_back(r.below(g.nobs));
        i64 a = target[r.below(k)], b = target[r.below(k)];
        if (a != b)
            es.push_back({a, r.chance(0.3) ? -1 : b, r.range(1, 9), o});
    }
    if (r.chance(0.3))
        for (size_t i = es.size(); i > 1; i--)
            std::swap(es[i - 1], es[r.below(i)]);
    int when = (int)r.below(3);
    if (when == 0)
        D.ug.set_boundary(D.bnd);
    for (size_t i = 0; i < es.size(); i++) {
        auto &e = es[i];
        i64 u = e.u, v = e.v;
        if (v >= 0 && r.chance(0.5))
            std::swap(u, v);
        if (v < 0)
            D.ug.add_or_merge_boundary_edge(u, e.obs, (double)e.w, -1, pm::SMALLEST_WEIGHT);
        else
            D.ug.add_or_merge_edge(u, v, e.obs, (double)e.w, -1, pm::SMALLEST_WEIGHT);
        if (D.desc.size() < 6000)
            D.desc += " " + std::to_string(u) + "-" + std::to_string(v) + ":" + std::to_string(e.w);
    }
    if (when)
        D.ug.set_boundary(D.bnd);
    std::string b;
    for (auto x : D.bnd)
        b += (b.empty() ? "" : ",") + std::to_string(x);
    D.desc = "user graph n=" + std::to_string(total) + " boundary nodes {" + b + "} edges" + D.desc;
    count("graphs with declared boundary nodes");
}

}  // namespace vh
