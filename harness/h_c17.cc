// C17: exact results on graphs whose distances exceed the range of the wrapped event times many times over.
#include "giant.h"
#include "pmh.h"
using namespace vh;

// Chains on which the search for the minimum has to build alternating trees of great depth: pairs that match each other first,
// then a few single events whose trees swallow pair after pair before they reach each other or a boundary.
static void deep_case(Rng &r, u64 idx) {
    Giant G;
    Graph &g = G.g;
    G.chain = true;
    g.nobs = 2;
    const i64 P = r.range(1 << 22, 1 << 23) * 2;
    i64 left = r.chance(0.3) ? r.range(3000, 20000) : r.range(20000, st().thorough ? 100000 : 50000);
    std::vector<i64> w;  // weight of the edge from position i to i + 1
    std::vector<i64> singles;
    i64 step = r.range(1, 4), swallow = 0;
    auto link = [&]() { return P + 2 * r.range(1, step); };
    auto single = [&]() {
        if (!w.empty() || !singles.empty())
            w.push_back(link());
        singles.push_back((i64)w.size());
    };
    auto pairs = [&](i64 k) {
        for (i64 i = 0; i < k; i++) {
            if (!w.empty() || !singles.empty())
                w.push_back(link());
            w.push_back(P);
        }
        swallow = std::max(swallow, k);
    };
    int mode = (int)r.below(4);
    if (mode == 0) {  // one tree with one long branch
        single();
        pairs(left);
    } else if (mode == 1) {  // one tree with two long branches
        i64 k = r.range(left / 4, 3 * left / 4);
        pairs(k);
        single();
        pairs(left - k);
    } else {  // several trees that meet, far from their roots
        int k = (int)r.range(2, 5);
        if (r.chance(0.5))
            pairs(r.range(1, left / k));
        for (int i = 0; i < k; i++) {
            single();
            if (i + 1 < k || r.chance(0.5))
                pairs(left / k + r.range(0, 9));
        }
    }
    g.n = (int)w.size() + 1;
    for (int i = 0; i + 1 < g.n; i++) {
        Edge e{i, i + 1, w[i], {}};
        if (r.chance(0.3))
            e.obs.push_back(r.below(2));
        g.edges.push_back(e);
    }
    // A boundary is met when the branches are (almost) complete, at the end of a branch, at a root or somewhere between.
    int nb = 0;
    auto boundary = [&](i64 pos) {
        for (auto &e : g.edges)
            if (e.v < 0 && e.u == pos)
                return;
        i64 d = r.chance(0.7) ? 2 * step * (swallow + 5) : r.range(0, 2 * step * swallow);
        Edge e{(int)pos, -1, std::min<i64>((1 << 24) - 1, P / 2 + d), {}};
        if (r.chance(0.5))
            e.obs.push_back(r.below(2));
        g.edges.push_back(e);
        nb++;
    };
    if (singles.size() % 2 == 1) {
        // one of these ends the growth of the last tree (otherwise everything collapses into clusters nested thousands deep)
        if (singles.size() > 1 || r.chance(0.7))
            boundary(r.chance(0.5) ? 0 : g.n - 1);
        else
            boundary(singles[0]);
    }
    if (r.chance(0.3))
        boundary(singles[r.below(singles.size())]);
    if (r.chance(0.3))
        boundary((i64)r.below(g.n));
    std::vector<u64> syn(g.n);
    for (int i = 0; i < g.n; i++)
        syn[i] = i;
    std::ostringstream c;
    c << "deep trees mode=" << mode << " n=" << g.n << " P=" << P << " step=" << step << " boundaries=" << nb << " case=" << idx;
    std::string ctx = c.str();
    note(ctx);
    bool search = r.chance(0.3);
    auto m = build_mwpm(g, search);
    for (int k = r.chance(0.7); k < 2; k++) {
        if (k)
            for (size_t i = syn.size(); i > 1; i--)
                std::swap(syn[i - 1], syn[r.below(i)]);
        i64 best = chain_min(G, syn);
        auto o = decode(m, syn, 2);
        evaluated();
        if (best >= INF) {
            if (o.ok)
                fail("answered-infeasible", "infeasible syndrome answered: " + ctx);
            count("infeasible refused");
            continue;
        }
        if (!o.ok)
            fail("refused", "feasible syndrome refused (" + o.err + "): " + ctx);
        if (o.weight != best)
            fail("weight", "weight " + std::to_string(o.weight) + ", minimum " + std::to_string(best) + ": " + ctx);
        auto o2 = decode64(m, syn, 2);
        if (o2.weight != best || o2.obs != o.obs)
            fail("weight", "mask decode disagrees: " + ctx);
        count("decodes deep trees");
        nontrivial(mix(g.hash(), mix(k, 77) ^ (u64)best));
    }
}

static Graph big_graph(Rng &r, std::string &fam) {
    Graph g;
    g.nobs = 2;
    const i64 W = (1 << 24) - 1;
    int wm = (int)r.below(5);
    auto wt = [&]() -> i64 {
        switch (wm) {
            case 0:
                return W;
            case 1:
                return W - (i64)r.below(5);
            case 2:
                return r.range(W / 2, W);
            case 3:
                return r.chance(0.7) ? W : r.range(0, 3);
            default:
                return r.range(1, W);
        }
    };
    auto add = [&](int u, int v) {
        Edge e{u, v, wt(), {}};
        for (size_t k = 0; k < 2; k++)
            if (r.chance(0.2))
                e.obs.push_back(k);
        g.edges.push_back(e);
    };
    switch (r.below(6)) {
        case 0: {
            fam = "chain";
            g.n = r.chance(0.3) ? (int)r.range(2500, 7000) : (int)r.range(200, 1500);
            for (int i = 0; i + 1 < g.n; i++)
                add(i, i + 1);
            if (r.chance(0.5))
                add(0, -1);
            if (r.chance(0.5))
                add(g.n - 1, -1);
            break;
        }
        case 1: {
            fam = "ring";
            g.n = r.chance(0.2) ? (int)r.range(2500, 7000) : (int)r.range(200, 1500);
            for (int i = 0; i < g.n; i++)
                add(i, (i + 1) % g.n);
            for (int k = (int)r.below(3); k > 0; k--) {
                int a = (int)r.below(g.n), b = (int)r.below(g.n);
                if (std::abs(a - b) > 1 && std::abs(a - b) < g.n - 1) {
                    bool dup = false;
                    for (auto &e : g.edges)
                        dup = dup || (e.u == a && e.v == b) || (e.u == b && e.v == a);
                    if (!dup)
                        add(a, b);
                }
            }
            break;
        }
        case 2: {
            fam = "grid";
            int w = (int)r.range(3, 40), h = (int)r.range(3, 40);
            g.n = w * h;
            for (int y = 0; y < h; y++)
                for (int x = 0; x < w; x++) {
                    if (x + 1 < w)
                        add(y * w + x, y * w + x + 1);
                    if (y + 1 < h)
                        add(y * w + x, y * w + x + w);
                }
            if (r.chance(0.5))
                for (int y = 0; y < h; y++)
                    if (r.chance(0.3))
                        add(y * w, -1);
            break;
        }
        case 3: {
            fam = "tree";
            g.n = (int)r.range(50, 1200);
            int spread = (int)r.range(1, 8);
            for (int i = 1; i < g.n; i++)
                add(i, std::max(0, i - 1 - (int)r.below(spread)));
            if (r.chance(0.5))
                add((int)r.below(g.n), -1);
            break;
        }
        case 4: {
            fam = "spider";  // long legs meeting in one node: nested clusters at large radii
            int legs = (int)r.range(3, 9), len = (int)r.range(30, 250);
            g.n = 1 + legs * len;
            for (int l = 0; l < legs; l++)
                for (int i = 0; i < len; i++)
                    add(i == 0 ? 0 : 1 + l * len + i - 1, 1 + l * len + i);
            if (r.chance(0.5))
                add(len, -1);
            break;
        }
        default: {
            fam = "ladder";  // long odd cycles
            int len = (int)r.range(100, 600);
            g.n = 2 * len;
            for (int i = 0; i < len; i++) {
                if (i + 1 < len) {
                    add(2 * i, 2 * i + 2);
                    add(2 * i + 1, 2 * i + 3);
                }
                if (r.chance(0.2) || i == 0)
                    add(2 * i, 2 * i + 1);
            }
            if (r.chance(0.3))
                add(g.n - 1, -1);
        }
    }
    if (r.chance(0.2))
        for (auto &e : g.edges)
            if (r.chance(0.03))
                e.w = -e.w;
    g.family = fam;
    return g;
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C17", [](Rng &r, u64 idx) {
        if (idx % 199 == 7)
            return deep_case(r, idx);
        std::string fam;
        Graph g = big_graph(r, fam);
        note(fam + " " + g.str());
        bool search = r.chance(0.5);
        auto m = build_mwpm(g, search);
        MatchOracle mo(g);
        int shots = 4;
        for (int k = 0; k < shots; k++) {
            std::vector<u64> syn;
            // Few, far-apart events make large distances; sometimes the extremes.
            int want = (int)r.range(1, r.chance(0.2) ? 24 : 5);
            std::set<u64> s;
            if (r.chance(0.5)) {
                s.insert(0);
                s.insert(g.n - 1);
            }
            for (int i = 0; i < want; i++)
                s.insert(r.below(g.n));
            syn.assign(s.begin(), s.end());
            if (syn.size() % 2 && r.chance(0.8))
                syn.erase(syn.begin() + r.below(syn.size()));
            for (size_t i = syn.size(); i > 1; i--)
                std::swap(syn[i - 1], syn[r.below(i)]);
            std::string ctx = "family=" + fam + " n=" + std::to_string(g.n) + " syndrome=" + vstr(syn) + " seed-case=" + std::to_string(idx);
            note(ctx);
            i64 best = mo.min_weight(syn);
            auto o = decode(m, syn, 2);
            evaluated();
            if (best >= INF) {
                if (o.ok)
                    fail("answered-infeasible", "infeasible syndrome answered: " + ctx);
                count("infeasible refused");
                continue;
            }
            if (!o.ok)
                fail("refused", "feasible syndrome refused (" + o.err + "): " + ctx);
            if (o.weight != best)
                fail("weight", "weight " + std::to_string(o.weight) + ", minimum " + std::to_string(best) + ": " + ctx);
            auto o2 = decode64(m, syn, 2);
            if (o2.weight != best || o2.obs != o.obs)
                fail("weight", "mask decode disagrees: " + ctx);
            count("decodes " + fam);
            u64 wraps = (u64)(best / ((i64)1 << 32));
            count(wraps == 0 ? "minimum below one clock cycle" : wraps < 10 ? "minimum 1-9 clock cycles" : "minimum >= 10 clock cycles");
            if (wraps >= 1)
                nontrivial(mix(g.hash(), mix(syn[0], syn.size()) ^ (u64)best));
            if (idx < 4)
                sample(fam + " n=" + std::to_string(g.n) + " events=" + std::to_string(syn.size()) + " weight=" + std::to_string(best));
            if (search && r.chance(0.5)) {
                std::vector<int64_t> e;
                pm::decode_detection_events_to_edges(m, syn, e);
                std::map<std::pair<i64, i64>, i64> wt;
                for (auto &x : g.edges) {
                    wt[{x.u, x.v}] = x.w;
                    if (x.v >= 0)
                        wt[{x.v, x.u}] = x.w;
                }
                std::vector<uint8_t> par(g.n, 0);
                i64 tot = 0;
                for (size_t i = 0; i + 1 < e.size(); i += 2) {
                    auto it = wt.find({e[i], e[i + 1]});
                    if (it == wt.end())
                        fail("edge", "returned edge is not in the graph: " + ctx);
                    tot += 2 * it->second;
                    par[e[i]] ^= 1;
                    if (e[i + 1] >= 0)
                        par[e[i + 1]] ^= 1;
                }
                for (auto x : syn)
                    par[x] ^= 1;
                for (auto p : par)
                    if (p)
                        fail("edges-syndrome", "edges do not reproduce the syndrome: " + ctx);
                if (tot != best)
                    fail("weight", "edges weigh " + std::to_string(tot) + ", minimum " + std::to_string(best) + ": " + ctx);
                count("edge decodes");
                evaluated();
            }
        }
    });
}
