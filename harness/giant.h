// Very large graphs: node indices, vertex degrees and numbers of detection events beyond 16 bits.
//
// Two constructions, both with exact expectations:
//  * scatter(): a small graph whose nodes are moved to indices spread over more than 65536 positions, several of which
//    agree modulo 2^16 (or 2^8); every brute-force oracle for the small graph still applies.
//  * gen_giant(): a large chain, star, grid or chain of cliques with a few local errors (independent Dijkstra and subset
//    recurrence), or a chain in which most nodes fire (linear recurrence along the chain). Observables are cuts: their
//    value is a function of the syndrome alone.
#ifndef VERIF_GIANT_H
#define VERIF_GIANT_H
#include "vh.h"

namespace vh {

struct Scatter {
    std::vector<u64> f;  // new index of each node
    int n = 0;
    std::vector<u64> map(const std::vector<u64> &s) const {
        std::vector<u64> o;
        for (auto x : s)
            o.push_back(f[x]);
        return o;
    }
};

// Distinct indices for `k` nodes, with pairs that agree modulo 2^16 and modulo 2^8.
inline Scatter gen_scatter(Rng &r, int k, u64 span = 65536) {
    Scatter s;
    std::set<u64> used;
    while ((int)s.f.size() < k) {
        u64 x;
        int c = s.f.empty() ? 1 : (int)r.below(5);
        if (c == 0)
            x = r.below(span + 3000);
        else if (c == 1)
            x = span + r.below(3000);
        else if (c == 2)
            x = r.below(40);
        else {
            u64 y = s.f[r.below(s.f.size())];
            x = c == 3 ? y ^ (r.chance(0.5) ? 256 : 512) : (y >= span ? y - span : y < 3000 ? y + span : y ^ 1024);
        }
        if (used.insert(x).second)
            s.f.push_back(x);
    }
    for (size_t i = s.f.size(); i > 1; i--)
        std::swap(s.f[i - 1], s.f[r.below(i)]);
    for (auto x : s.f)
        s.n = std::max<int>(s.n, (int)x + 1);
    s.n += (int)r.below(3);
    return s;
}
inline Graph scatter_graph(const Graph &g, const Scatter &s) {
    Graph b;
    b.n = s.n;
    b.nobs = g.nobs;
    b.family = "scattered-" + g.family;
    for (auto &e : g.edges)
        b.edges.push_back({(int)s.f[e.u], e.v < 0 ? e.v : (int)s.f[e.v], e.w, e.obs});
    return b;
}

struct Giant {
    Graph g;
    bool chain = false;                  // edges i-(i+1) and boundary edges only
    std::vector<std::vector<int>> sets;  // observable k is crossed by the edges leaving sets[k] (n stands for the boundary)
    std::vector<std::vector<int>> inc;   // incident edges
    std::vector<int> centres;
    int hub = -1;
    std::vector<int> light;  // of the hub's neighbours
    // A random neighbour, -1 for the boundary.
    int step(Rng &r, int u) const {
        if (u == hub)
            return light[r.below(light.size())];
        auto &e = g.edges[inc[u][r.below(inc[u].size())]];
        return e.u == u ? e.v : e.u;
    }
    std::string str() const {
        std::ostringstream o;
        o << "giant{" << g.family << " n=" << g.n << " edges=" << g.edges.size() << " nobs=" << g.nobs << "}";
        return o.str();
    }
    // Expected observables of every explanation of the syndrome.
    std::vector<uint8_t> obs(const std::vector<u64> &syn) const {
        std::vector<uint8_t> fire(g.n + 1, 0), out(g.nobs, 0);
        for (auto x : syn)
            fire[x] ^= 1;
        fire[g.n] = syn.size() & 1;
        for (int k = 0; k < g.nobs; k++)
            for (auto v : sets[k])
                out[k] ^= fire[v];
        return out;
    }
};

inline Giant gen_giant(Rng &r, int nobs, bool neg, bool bounded_degree = false) {
    Giant G;
    Graph &g = G.g;
    int kind = (int)r.below(bounded_degree ? 4 : 6);
    const int H = 65536;
    g.nobs = nobs;
    int wm = kind == 0 ? (int)r.range(2, 3) : (int)r.below(4);
    auto W = [&]() -> i64 {
        i64 w = wm == 0 ? 1 : wm == 1 ? r.range(1, 9) : wm == 2 ? r.range(1, 1 << 12) : r.range(1 << 12, 1 << 16);
        return w;
    };
    double pb = kind == 0 ? (r.chance(0.5) ? 0.1 : 0.3) : r.chance(0.2) ? 0 : r.chance(0.5) ? 0.01 : 0.1;
    int n;
    if (kind <= 1 || kind == 3) {
        n = g.n = H + (kind == 0 ? 900 : 0) + (int)r.range(40, 3000);
        std::vector<int> pos(n);
        for (int i = 0; i < n; i++)
            pos[i] = i;
        if (kind == 3)
            for (int i = n; i > 1; i--)
                std::swap(pos[i - 1], pos[r.below(i)]);
        for (int i = 0; i + 1 < n; i++)
            g.edges.push_back({pos[i], pos[i + 1], W(), {}});
        if (kind != 0)
            for (int k = 2; k <= 4; k++)
                for (int i = 0; i + k < n; i++)
                    if (r.chance(0.15))
                        g.edges.push_back({pos[i], pos[i + k], W() * (k - 1), {}});
        G.chain = kind == 0;
        g.family = kind == 0 ? "chain" : kind == 1 ? "ladder" : "scrambled";
    } else if (kind == 2) {
        int a = (int)r.range(200, 330), b = H / a + 3;
        n = g.n = a * b;
        for (int i = 0; i < n; i++) {
            if (i % a != a - 1)
                g.edges.push_back({i, i + 1, W(), {}});
            if (i + a < n)
                g.edges.push_back({i, i + a, W(), {}});
        }
        g.family = "grid";
    } else {
        // A hub with more neighbours than fit in 16 bits.
        n = g.n = H + (int)r.range(40, 3000);
        int hub = r.chance(0.5) ? n - 1 : (int)r.below(n);
        // Light edges only to a few neighbours, some of whose positions agree modulo 2^16; the others are too long to matter.
        std::set<int> light;
        for (int k = (int)r.range(2, 7); k > 0; k--) {
            int p = (int)r.below(n - H - 2);
            light.insert(r.chance(0.8) ? p + H : (int)r.below(n));
            if (r.chance(0.5))
                light.insert(p);
        }
        light.erase(hub);
        for (int i = 0; i < n; i++)
            if (i != hub)
                g.edges.push_back({i, hub, light.count(i) ? W() : ((i64)1 << 20) + r.range(0, 99), {}});
        for (auto i : light)
            if (i + 1 < n && i + 1 != hub)
                g.edges.push_back({i, i + 1, W(), {}});
        for (auto i : light)
            if (r.chance(0.3) || i == *light.begin())
                g.edges.push_back({i, -1, W(), {}});
        G.hub = hub;
        G.light.assign(light.begin(), light.end());
        pb = 0;
        g.family = "star";
        for (int k = 0; k < 6; k++)
            G.centres.push_back(G.light[r.below(G.light.size())]);
        G.centres.push_back(hub);
    }
    for (int i = 0; i < n; i++)
        if (r.chance(pb))
            g.edges.push_back({i, -1, W(), {}});
    if (pb > 0 && r.chance(0.5)) {
        std::set<int> have;
        for (auto &e : g.edges)
            if (e.v < 0)
                have.insert(e.u);
        for (int k = 0; k < 3; k++) {
            int u = n - 1 - (int)r.below(20);
            if (have.insert(u).second)
                g.edges.push_back({u, -1, W(), {}});
        }
    }
    for (int k = 0; k < 4 && G.hub < 0; k++)
        G.centres.push_back(r.chance(0.6) ? H + (int)r.below(n - H) : r.chance(0.5) ? (int)r.below(20) : (int)r.below(n));
    G.inc.assign(n, {});
    for (size_t i = 0; i < g.edges.size(); i++) {
        G.inc[g.edges[i].u].push_back((int)i);
        if (g.edges[i].v >= 0)
            G.inc[g.edges[i].v].push_back((int)i);
    }
    if (neg && r.chance(0.5))
        for (int k = (int)r.range(1, 3); k > 0; k--) {
            int u = G.centres[r.below(G.centres.size())];
            auto &v = G.inc[u];
            if (!v.empty() && u != G.hub) {
                auto &e = g.edges[v[r.below(v.size())]];
                e.w = -std::abs(e.w);
            }
        }
    // Observables.
    G.sets.resize(nobs);
    std::map<int, std::vector<size_t>> of;
    for (int k = 0; k < nobs; k++) {
        std::set<int> s;
        if (r.chance(nobs > 500 ? 0.0002 : 0.15))
            s.insert(n);
        else if (nobs > 500 && r.chance(0.99))
            s.insert((int)r.below(n));
        else
            for (int t = (int)r.range(1, 4); t > 0; t--) {
                int u = G.centres[r.below(G.centres.size())];
                for (int q = (int)r.below(4); q > 0; q--) {
                    int v = G.step(r, u);
                    if (v >= 0)
                        u = v;
                }
                if (G.inc[u].size() < 100)
                    s.insert(u);
            }
        for (auto v : s) {
            G.sets[k].push_back(v);
            of[v].push_back(k);
        }
    }
    for (auto &e : g.edges) {
        auto a = of.find(e.u), b = of.find(e.v < 0 ? n : e.v);
        std::set<size_t> o;
        if (a != of.end())
            for (auto x : a->second)
                o.insert(x);
        if (b != of.end())
            for (auto x : b->second)
                if (!o.erase(x))
                    o.insert(x);
        e.obs.assign(o.begin(), o.end());
    }
    return G;
}

// At most `limit` detection events from a few short chains of errors; with `many`, most nodes fire.
inline std::vector<u64> giant_syndrome(Rng &r, const Giant &G, bool many = false, int limit = 9) {
    const Graph &g = G.g;
    std::vector<u64> s;
    if (many) {
        double p = r.chance(0.5) ? 1.0 : 0.99 + 0.01 * r.unit();
        for (int i = 0; i < g.n; i++)
            if (r.chance(p))
                s.push_back(i);
        return s;
    }
    std::set<u64> par;
    auto flip = [&](u64 x) {
        if (!par.erase(x))
            par.insert(x);
    };
    int chains = (int)r.range(1, 6);
    for (int c = 0; c < chains; c++) {
        auto keep = par;
        int u = G.centres[r.below(G.centres.size())];
        for (int q = (int)r.below(3); q > 0; q--) {
            int v = G.step(r, u);
            if (v >= 0)
                u = v;
        }
        flip(u);
        bool out = false;
        for (int q = (int)r.range(1, 4); q > 0 && !out; q--) {
            int v = G.step(r, u);
            if (v < 0)
                out = true;
            else
                u = v;
        }
        if (!out)
            flip(u);
        if ((int)par.size() > limit)
            par = keep;
    }
    s.assign(par.begin(), par.end());
    if (r.chance(0.3))
        std::reverse(s.begin(), s.end());
    return s;
}

// Minimum weight (doubled weights, as MatchOracle) over all explanations of a syndrome of a chain, or INF.
inline i64 chain_min(const Giant &G, const std::vector<u64> &syn) {
    const Graph &g = G.g;
    std::vector<i64> next(g.n, INF), bw(g.n, INF);
    for (auto &e : g.edges)
        (e.v < 0 ? bw : next)[e.u] = 2 * e.w;
    std::vector<uint8_t> fire(g.n, 0);
    for (auto x : syn)
        fire[x] ^= 1;
    i64 c[2] = {0, INF};  // by whether the edge into the node is used
    for (int i = 0; i < g.n; i++) {
        i64 d[2] = {INF, INF};
        for (int in = 0; in < 2; in++)
            for (int b = 0; b < 2; b++) {
                if (c[in] >= INF || (b && bw[i] >= INF))
                    continue;
                int out = in ^ b ^ fire[i];
                if (out && (i + 1 == g.n || next[i] >= INF))
                    continue;
                d[out] = std::min(d[out], c[in] + (b ? bw[i] : 0) + (out ? next[i] : 0));
            }
        c[0] = d[0];
        c[1] = d[1];
    }
    return c[0];
}

// Minimum weight of an explanation; distances are explored only as far as the answer needs.
inline i64 giant_min(const Giant &G, const MatchOracle &orc, const std::vector<u64> &syn) {
    const Graph &g = G.g;
    if (!orc.feasible(syn))
        return INF;
    std::set<u64> par;
    auto flip = [&](u64 x) {
        if (!par.erase(x))
            par.insert(x);
    };
    for (int i = 0; i < g.n; i++)
        if (orc.neg_parity[i])
            flip(i);
    for (auto x : syn)
        flip(x);
    std::vector<int> def(par.begin(), par.end());
    int k = (int)def.size();
    if (k == 0)
        return orc.neg_sum;
    std::vector<i64> d(g.n, INF);
    for (i64 R = 64;; R *= 4) {
        std::vector<std::vector<i64>> c(k, std::vector<i64>(k, INF));
        std::vector<i64> b(k, INF);
        for (int a = 0; a < k; a++) {
            std::vector<int> touched;
            std::priority_queue<std::pair<i64, int>, std::vector<std::pair<i64, int>>, std::greater<std::pair<i64, int>>> pq;
            d[def[a]] = 0;
            touched.push_back(def[a]);
            pq.push({0, def[a]});
            while (!pq.empty()) {
                auto [x, u] = pq.top();
                pq.pop();
                if (x > d[u])
                    continue;
                if (orc.bw[u] < INF)
                    b[a] = std::min(b[a], x + orc.bw[u]);
                for (auto &e : orc.adj[u]) {
                    i64 y = x + std::abs(g.edges[e.second].w) * orc.scale;
                    if (y > R || y >= d[e.first])
                        continue;
                    if (d[e.first] >= INF)
                        touched.push_back(e.first);
                    d[e.first] = y;
                    pq.push({y, e.first});
                }
            }
            for (int z = 0; z < k; z++)
                c[a][z] = d[def[z]];
            for (auto t : touched)
                d[t] = INF;
        }
        std::vector<i64> dp((size_t)1 << k, INF);
        dp[0] = 0;
        for (size_t m = 0; m + 1 < dp.size(); m++) {
            if (dp[m] >= INF)
                continue;
            int i = 0;
            while ((m >> i) & 1)
                i++;
            if (b[i] < INF) {
                auto &t = dp[m | (size_t)1 << i];
                t = std::min(t, dp[m] + b[i]);
            }
            for (int j = i + 1; j < k; j++)
                if (!((m >> j) & 1) && c[i][j] < INF) {
                    auto &t = dp[m | (size_t)1 << i | (size_t)1 << j];
                    t = std::min(t, dp[m] + c[i][j]);
                }
        }
        // Every pair of a lighter solution would be closer than R, so it would have been seen.
        if (dp.back() <= R)
            return dp.back() + orc.neg_sum;
    }
}

// Calls f(syndrome, minimum weight) for a few syndromes.
template <typename F>
inline void giant_shots(Rng &r, const Giant &G, int shots, F f) {
    MatchOracle orc(G.g);
    count("giant:" + G.g.family);
    for (int t = 0; t < shots; t++) {
        bool many = G.chain && r.chance(0.4);
        auto syn = giant_syndrome(r, G, many);
        i64 e = G.chain ? chain_min(G, syn) : giant_min(G, orc, syn);
        if (many)
            count("giant: more than 65536 detection events", syn.size() > 65536);
        note(G.str() + " events " + std::to_string(syn.size()) + (many ? "" : " " + vstr(syn)));
        f(syn, e);
    }
}
inline std::string giant_ctx(const Giant &G, const std::vector<u64> &syn) {
    std::ostringstream o;
    o << G.str() << " syndrome of " << syn.size() << " events";
    if (syn.size() <= 20) {
        o << " " << vstr(syn) << " edges at the events:";
        for (auto s : syn)
            if (G.inc[s].size() < 20)
                for (auto i : G.inc[s])
                    o << " " << G.g.edges[i].u << "-" << G.g.edges[i].v << ":" << G.g.edges[i].w;
    }
    return o.str();
}

}  // namespace vh
#endif
