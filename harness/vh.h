// Shared runtime-monitoring support: PRNG, case loop, reporting, workload generators and oracles.
// Nothing in this file depends on PyMatching.
#ifndef VERIF_VH_H
#define VERIF_VH_H
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

typedef int64_t i64;
typedef uint64_t u64;

// ------------------------------------------------------------------------------------- PRNG
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {
    }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) {
        return n ? next() % n : 0;
    }
    i64 range(i64 lo, i64 hi) {  // inclusive
        return lo + (i64)below((u64)(hi - lo + 1));
    }
    double unit() {
        return (double)(next() >> 11) * (1.0 / 9007199254740992.0);
    }
    bool chance(double p) {
        return unit() < p;
    }
};
inline u64 mix(u64 a, u64 b) {
    Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6)));
    r.next();
    return r.next();
}

// ------------------------------------------------------------------------------------- reporting
struct Violation : std::runtime_error {
    std::string key;
    Violation(const std::string &key, const std::string &msg) : std::runtime_error(msg), key(key) {
    }
};
inline void fail(const std::string &key, const std::string &msg) {
    throw Violation(key, msg);
}

struct State {
    u64 seed = 0, idx = 0;
    bool thorough = false;
    bool verbose = false;
    char *status = nullptr;
    u64 evaluations = 0;
    std::map<std::string, u64> counters;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
};
inline State &st() {
    static State s;
    return s;
}
// One evaluation of the oracle on an observed execution.
inline void evaluated(u64 n = 1) {
    st().evaluations += n;
}
inline void count(const std::string &k, u64 n = 1) {
    st().counters[k] += n;
}
inline void nontrivial(u64 h) {
    if (st().distinct.size() < 400000)
        st().distinct.insert(h);
}
inline void sample(const std::string &s) {
    if (st().samples.size() < 3)
        st().samples.push_back(s);
}
// Text shown in the replay file when the process dies inside the current case.
inline void note(const std::string &s) {
    if (st().status) {
        size_t n = std::min<size_t>(s.size(), 7000);
        memcpy(st().status + 16, s.data(), n);
        st().status[16 + n] = 0;
    }
    if (st().verbose)
        fprintf(stderr, "note: %s\n", s.c_str());
}
inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o.push_back('\\');
            o.push_back((char)c);
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o.push_back((char)c);
        }
    }
    return o;
}

// argv: seed begin end stride statusfile outfile tier [verbose]
inline int run_cases(int argc, char **argv, const char *salt, const std::function<void(Rng &, u64)> &one_case) {
    if (argc < 8) {
        fprintf(stderr, "usage: %s seed begin end stride statusfile outfile tier\n", argv[0]);
        return 2;
    }
    State &s = st();
    s.seed = strtoull(argv[1], nullptr, 10);
    u64 begin = strtoull(argv[2], nullptr, 10), end = strtoull(argv[3], nullptr, 10),
        stride = strtoull(argv[4], nullptr, 10);
    s.thorough = std::string(argv[7]) == "thorough";
    s.verbose = argc > 8;
    int fd = open(argv[5], O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 8192) != 0)
        return 2;
    s.status = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (s.status == MAP_FAILED)
        return 2;
    u64 h = 1469598103934665603ull;
    for (const char *p = salt; *p; p++)
        h = (h ^ (unsigned char)*p) * 1099511628211ull;
    std::string viol;
    int rc = 0;
    u64 done = 0;
    for (u64 i = begin; i < end; i += stride) {
        s.idx = i;
        memcpy(s.status, &i, 8);
        s.status[16] = 0;
        Rng rng(mix(mix(h, s.seed), i));
        try {
            one_case(rng, i);
        } catch (const Violation &v) {
            viol = ",\"violation\":{\"case\":" + std::to_string(i) + ",\"key\":\"" + jesc(v.key) + "\",\"msg\":\"" +
                   jesc(v.what()) + "\",\"note\":\"" + jesc(std::string(s.status + 16)) + "\"}";
            rc = 3;
        } catch (const std::exception &e) {
            viol = ",\"violation\":{\"case\":" + std::to_string(i) +
                   ",\"key\":\"unexpected-exception\",\"msg\":\"unexpected exception: " + jesc(e.what()) +
                   "\",\"note\":\"" + jesc(std::string(s.status + 16)) + "\"}";
            rc = 3;
        }
        done++;
        memcpy(s.status + 8, &done, 8);
        if (rc)
            break;
    }
    FILE *f = fopen(argv[6], "w");
    if (!f)
        return 2;
    fprintf(f, "{\"cases\":%" PRIu64 ",\"evaluations\":%" PRIu64 ",\"counters\":{", done, s.evaluations);
    bool first = true;
    for (auto &c : s.counters) {
        fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc(c.first).c_str(), c.second);
        first = false;
    }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &x : s.samples) {
        fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str());
        first = false;
    }
    fprintf(f, "]%s}\n", viol.c_str());
    fclose(f);
    std::string bin = std::string(argv[6]) + ".bin";
    f = fopen(bin.c_str(), "wb");
    for (u64 x : s.distinct)
        fwrite(&x, 8, 1, f);
    fclose(f);
    if (rc && s.verbose)
        fprintf(stderr, "%s\n", viol.c_str());
    return rc;
}

// ------------------------------------------------------------------------------------- graph model
struct Edge {
    int u;
    int v;  // -1: boundary
    i64 w;  // in units of which the decoder sees twice the value (always even inside)
    std::vector<size_t> obs;
};
struct Graph {
    int n = 0;
    int nobs = 0;
    std::vector<Edge> edges;
    std::string family;
    u64 hash() const {
        u64 h = mix(n, nobs);
        for (auto &e : edges) {
            h = mix(h, (u64)e.u * 1000003 + (u64)(e.v + 1));
            h = mix(h, (u64)e.w);
            for (auto o : e.obs)
                h = mix(h, o + 77);
        }
        return h;
    }
    std::string str() const {
        std::ostringstream o;
        o << "graph{family=" << family << " n=" << n << " nobs=" << nobs << " edges=[";
        size_t k = 0;
        for (auto &e : edges) {
            if (k++)
                o << " ";
            if (k > 400) {
                o << "...";
                break;
            }
            o << e.u << "-" << e.v << ":" << e.w;
            if (!e.obs.empty()) {
                o << "/";
                for (size_t i = 0; i < e.obs.size(); i++)
                    o << (i ? "," : "") << e.obs[i];
            }
        }
        o << "]}";
        return o.str();
    }
};
template <typename T>
std::string vstr(const std::vector<T> &v) {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < v.size(); i++)
        o << (i ? "," : "") << +v[i];
    o << "]";
    return o.str();
}

// ------------------------------------------------------------------------------------- workloads
struct GenOpts {
    int n_lo = 1, n_hi = 9;
    int max_edges = 48;
    int nobs = 3;            // -1: unique observable per edge
    bool allow_negative = true;
    bool allow_zero = true;
    bool allow_boundary = true;
    i64 wmax = (1 << 24) - 1;
    int family = -1;
};

inline i64 gen_weight(Rng &r, int mode, const GenOpts &o) {
    switch (mode) {
        case 0:
            return 1;
        case 1:
            return r.range(o.allow_zero ? 0 : 1, 3);
        case 2:
            return r.range(1, 2);
        case 3:
            return r.range(o.allow_zero ? 0 : 1, 20);
        case 4:
            return r.range(1, o.wmax);
        case 5: {
            int b = 0;
            while ((i64)1 << (b + 1) <= o.wmax)
                b++;
            i64 w = (i64)1 << r.below(b + 1);
            return std::min(o.wmax, w + (r.chance(0.3) ? 1 : 0));
        }
        case 6:
            return r.chance(0.5) ? r.range(o.allow_zero ? 0 : 1, 2) : r.range(std::max<i64>(1, o.wmax - 2), o.wmax);
        default:
            return r.range(1, 1000);
    }
}

inline Graph gen_graph(Rng &r, const GenOpts &o) {
    Graph g;
    int fam = o.family >= 0 ? o.family : (int)r.below(10);
    int n = (int)r.range(o.n_lo, o.n_hi);
    g.n = n;
    std::set<std::pair<int, int>> used;
    std::vector<std::pair<int, int>> pairs;
    auto add = [&](int u, int v) {
        if (u == v || u < 0 || v < 0 || u >= n || v >= n)
            return;
        auto k = std::minmax(u, v);
        if (used.insert({k.first, k.second}).second)
            pairs.push_back({u, v});
    };
    double bprob = 0;
    std::vector<std::pair<double, double>> pts;
    switch (fam) {
        case 0: {  // sparse random
            g.family = "sparse";
            int m = (int)r.range(0, std::min(o.max_edges, 2 * n + 2));
            for (int i = 0; i < m; i++)
                add((int)r.below(n), (int)r.below(n));
            bprob = r.unit();
            break;
        }
        case 1: {
            g.family = "complete";
            for (int i = 0; i < n; i++)
                for (int j = i + 1; j < n; j++)
                    add(i, j);
            bprob = r.chance(0.5) ? 0 : r.unit() * 0.5;
            break;
        }
        case 2: {
            g.family = "cycle+chords";
            for (int i = 0; i < n; i++)
                add(i, (i + 1) % n);
            int c = (int)r.below(3);
            for (int i = 0; i < c; i++)
                add((int)r.below(n), (int)r.below(n));
            bprob = r.chance(0.5) ? 1.0 / std::max(1, n) : 0;
            break;
        }
        case 3: {
            g.family = "grid";
            int w = std::max(1, (int)std::round(std::sqrt((double)n)));
            for (int i = 0; i < n; i++) {
                if ((i + 1) % w)
                    add(i, i + 1);
                add(i, i + w);
            }
            bprob = -w;
            break;
        }
        case 4: {
            g.family = "path";
            for (int i = 0; i + 1 < n; i++)
                add(i, i + 1);
            bprob = -1;
            break;
        }
        case 5: {
            g.family = "wheel";
            for (int i = 1; i < n; i++) {
                add(0, i);
                if (r.chance(0.7))
                    add(i, i % (n - 1) + 1);
            }
            bprob = r.chance(0.5) ? 0.2 : 0;
            break;
        }
        case 6: {
            g.family = "components";
            int parts = (int)r.range(1, 3);
            for (int i = 0; i < n * 2; i++) {
                int u = (int)r.below(n), v = (int)r.below(n);
                if (u % parts == v % parts)
                    add(u, v);
            }
            bprob = r.chance(0.5) ? 0.15 : 0.4;
            break;
        }
        case 7: {  // clustered metric points: nested blossoms
            g.family = "clusters";
            double scale = std::pow(3.0, (double)r.range(1, 5));
            for (int i = 0; i < n; i++) {
                double x = 0, y = 0, s = scale;
                for (int l = 0; l < 3; l++) {
                    x += s * (double)r.below(3);
                    y += s * (double)r.below(3);
                    s /= 3;
                }
                pts.push_back({x + r.unit(), y + r.unit()});
            }
            double keep = r.chance(0.5) ? 1.0 : 0.6;
            for (int i = 0; i < n; i++)
                for (int j = i + 1; j < n; j++)
                    if (r.chance(keep))
                        add(i, j);
            bprob = r.chance(0.6) ? 0 : 0.3;
            break;
        }
        case 8: {
            g.family = "ladder";
            int h = std::max(1, n / 2);
            for (int i = 0; i < n; i++) {
                if ((i + 1) % h)
                    add(i, i + 1);
                add(i, i + h);
                if (r.chance(0.3))
                    add(i, i + h + 1);
            }
            bprob = -h;
            break;
        }
        default: {
            g.family = "tree";
            for (int i = 1; i < n; i++)
                add(i, (int)r.below(i));
            bprob = r.unit() * 0.5;
            break;
        }
    }
    // Random insertion order and orientation.
    if (r.chance(0.5))
        for (size_t i = pairs.size(); i > 1; i--)
            std::swap(pairs[i - 1], pairs[r.below(i)]);
    int mode = (int)r.below(8);
    double pneg = 0;
    if (o.allow_negative && r.chance(0.4))
        pneg = r.chance(0.15) ? 1.0 : r.unit() * 0.6;
    auto signed_w = [&](i64 w) {
        return r.chance(pneg) ? -w : w;
    };
    std::vector<Edge> bedges;
    if (o.allow_boundary) {
        for (int i = 0; i < n; i++) {
            bool b;
            if (bprob >= 0)
                b = r.chance(bprob);
            else if (bprob == -1)
                b = (i == 0 || i == n - 1);
            else
                b = (i % (int)(-bprob) == 0 || (i + 1) % (int)(-bprob) == 0) && r.chance(0.9);
            if (b)
                bedges.push_back({i, -1, signed_w(gen_weight(r, mode, o)), {}});
        }
    }
    for (auto &p : pairs) {
        if ((int)g.edges.size() >= o.max_edges)
            break;
        i64 w;
        if (fam == 7 && r.chance(0.9)) {
            double dx = pts[p.first].first - pts[p.second].first, dy = pts[p.first].second - pts[p.second].second;
            w = std::min<i64>(o.wmax, (i64)std::floor(std::sqrt(dx * dx + dy * dy) * 3) + (o.allow_zero ? 0 : 1));
        } else {
            w = gen_weight(r, mode, o);
        }
        w = signed_w(w);
        if (r.chance(0.5))
            g.edges.push_back({p.first, p.second, w, {}});
        else
            g.edges.push_back({p.second, p.first, w, {}});
    }
    // Boundary edges anywhere in the insertion order.
    for (auto &b : bedges) {
        size_t pos = r.below(g.edges.size() + 1);
        g.edges.insert(g.edges.begin() + pos, b);
    }
    if (o.nobs < 0) {
        g.nobs = (int)g.edges.size();
        for (size_t i = 0; i < g.edges.size(); i++)
            g.edges[i].obs = {i};
    } else {
        g.nobs = o.nobs;
        double po = r.chance(0.3) ? 0.15 : 0.4;
        for (auto &e : g.edges)
            for (int k = 0; k < g.nobs; k++)
                if (r.chance(po))
                    e.obs.push_back(k);
    }
    return g;
}

// ------------------------------------------------------------------------------------- oracles
constexpr i64 INF = std::numeric_limits<i64>::max() / 4;

// Exact: minimum total weight over every edge subset, for every (syndrome, observable mask).
struct SubsetOracle {
    int n, k;
    std::vector<i64> f;     // [obs << n | syndrome]
    std::vector<i64> best;  // [syndrome]
    explicit SubsetOracle(const Graph &g, i64 scale = 2) : n(g.n), k(g.nobs) {
        f.assign((size_t)1 << (n + k), INF);
        f[0] = 0;
        std::vector<i64> nf;
        for (auto &e : g.edges) {
            u64 t = 0;
            if (e.u != e.v) {
                t ^= (u64)1 << e.u;
                if (e.v >= 0)
                    t ^= (u64)1 << e.v;
            }
            for (auto ob : e.obs)
                t ^= (u64)1 << (n + ob);
            nf = f;
            for (size_t s = 0; s < f.size(); s++)
                if (f[s] < INF)
                    nf[s ^ t] = std::min(nf[s ^ t], f[s] + e.w * scale);
            f.swap(nf);
        }
        best.assign((size_t)1 << n, INF);
        for (size_t s = 0; s < f.size(); s++)
            best[s & (((size_t)1 << n) - 1)] = std::min(best[s & (((size_t)1 << n) - 1)], f[s]);
    }
    i64 weight_with_obs(u64 syndrome, u64 obs) const {
        if (k < 64 && (obs >> k))
            return INF;
        return f[(obs << n) | syndrome];
    }
};

// Replaces every edge by a path of heavy edges, so that distances exceed the range of the wrapped event clock. Nodes of g
// keep their numbers; g's weights become the path weights, so that answers about g are answers about the result.
inline Graph stretch(Rng &r, Graph &g, int budget = 450) {
    const i64 W = (1 << 24) - 1;
    Graph b;
    b.n = g.n;
    b.nobs = g.nobs;
    b.family = "far-" + g.family;
    g.family = b.family;
    int per = std::max(2, budget / std::max<int>(1, (int)g.edges.size()));
    int wm = (int)r.below(3);
    for (auto &e : g.edges) {
        if (e.u == e.v) {
            b.edges.push_back(e);
            continue;
        }
        i64 sign = e.w < 0 ? -1 : 1;
        int len = r.chance(0.2) ? (int)r.range(1, 2) : (int)r.range(1, 2 * per - 1);
        int at = e.u, mark = (int)r.below(len);
        i64 tot = 0;
        for (int i = 0; i < len; i++) {
            int to = i + 1 == len ? e.v : b.n++;
            i64 w = wm == 0 ? W : wm == 1 ? W - (i64)r.below(4) : (r.chance(0.8) ? r.range(W / 2, W) : r.range(0, 3));
            b.edges.push_back({at, to, sign * w, {}});
            if (i == mark)
                b.edges.back().obs = e.obs;
            tot += sign * w;
            at = to;
        }
        e.w = tot;
    }
    return b;
}

// O(n^3) maximum-weight general matching (primal-dual with blossoms), used as an independent oracle.
struct WeightedBlossom {
    struct E {
        int u, v;
        i64 w;
    };
    int n, nx;
    std::vector<std::vector<E>> g;
    std::vector<i64> lab;
    std::vector<int> match, slack, stt, pa, S, vis;
    std::vector<std::vector<int>> ff, flo;
    std::vector<int> q;
    explicit WeightedBlossom(int n_) : n(n_) {
        int N = 2 * n + 2;
        g.assign(N, std::vector<E>(N));
        lab.assign(N, 0);
        match.assign(N, 0);
        slack.assign(N, 0);
        stt.assign(N, 0);
        pa.assign(N, 0);
        S.assign(N, 0);
        vis.assign(N, 0);
        ff.assign(N, std::vector<int>(N, 0));
        flo.assign(N, {});
        for (int u = 1; u <= n; u++)
            for (int v = 1; v <= n; v++)
                g[u][v] = {u, v, 0};
    }
    i64 ed(const E &e) {
        return lab[e.u] + lab[e.v] - g[e.u][e.v].w * 2;
    }
    void upd(int u, int x) {
        if (!slack[x] || ed(g[u][x]) < ed(g[slack[x]][x]))
            slack[x] = u;
    }
    void set_slack(int x) {
        slack[x] = 0;
        for (int u = 1; u <= n; u++)
            if (g[u][x].w > 0 && stt[u] != x && S[stt[u]] == 0)
                upd(u, x);
    }
    void qpush(int x) {
        if (x <= n) {
            q.push_back(x);
            return;
        }
        for (int y : flo[x])
            qpush(y);
    }
    void set_st(int x, int b) {
        stt[x] = b;
        if (x <= n)
            return;
        for (int y : flo[x])
            set_st(y, b);
    }
    int get_pr(int b, int xr) {
        int pr = (int)(std::find(flo[b].begin(), flo[b].end(), xr) - flo[b].begin());
        if (pr % 2 == 1) {
            std::reverse(flo[b].begin() + 1, flo[b].end());
            return (int)flo[b].size() - pr;
        }
        return pr;
    }
    void set_match(int u, int v) {
        match[u] = g[u][v].v;
        if (u <= n)
            return;
        E e = g[u][v];
        int xr = ff[u][e.u], pr = get_pr(u, xr);
        for (int i = 0; i < pr; i++)
            set_match(flo[u][i], flo[u][i ^ 1]);
        set_match(xr, v);
        std::rotate(flo[u].begin(), flo[u].begin() + pr, flo[u].end());
    }
    void augment(int u, int v) {
        while (true) {
            int xnv = stt[match[u]];
            set_match(u, v);
            if (!xnv)
                return;
            set_match(xnv, stt[pa[xnv]]);
            u = stt[pa[xnv]];
            v = xnv;
        }
    }
    int lca_t = 0;
    int get_lca(int u, int v) {
        for (++lca_t; u || v; std::swap(u, v)) {
            if (u == 0)
                continue;
            if (vis[u] == lca_t)
                return u;
            vis[u] = lca_t;
            u = stt[match[u]];
            if (u)
                u = stt[pa[u]];
        }
        return 0;
    }
    void add_blossom(int u, int l, int v) {
        int b = n + 1;
        while (b <= nx && stt[b])
            b++;
        if (b > nx)
            nx++;
        lab[b] = 0;
        S[b] = 0;
        match[b] = match[l];
        flo[b].clear();
        flo[b].push_back(l);
        for (int x = u, y; x != l; x = stt[pa[y]]) {
            flo[b].push_back(x);
            flo[b].push_back(y = stt[match[x]]);
            qpush(y);
        }
        std::reverse(flo[b].begin() + 1, flo[b].end());
        for (int x = v, y; x != l; x = stt[pa[y]]) {
            flo[b].push_back(x);
            flo[b].push_back(y = stt[match[x]]);
            qpush(y);
        }
        set_st(b, b);
        for (int x = 1; x <= nx; x++)
            g[b][x].w = g[x][b].w = 0;
        for (int x = 1; x <= n; x++)
            ff[b][x] = 0;
        for (int xs : flo[b]) {
            for (int x = 1; x <= nx; x++)
                if (g[b][x].w == 0 || ed(g[xs][x]) < ed(g[b][x])) {
                    g[b][x] = g[xs][x];
                    g[x][b] = g[x][xs];
                }
            for (int x = 1; x <= n; x++)
                if (ff[xs][x])
                    ff[b][x] = xs;
        }
        set_slack(b);
    }
    void expand(int b) {
        for (int y : flo[b])
            set_st(y, y);
        int xr = ff[b][g[b][pa[b]].u], pr = get_pr(b, xr);
        for (int i = 0; i < pr; i += 2) {
            int xs = flo[b][i], xns = flo[b][i + 1];
            pa[xs] = g[xns][xs].u;
            S[xs] = 1;
            S[xns] = 0;
            slack[xs] = 0;
            set_slack(xns);
            qpush(xns);
        }
        S[xr] = 1;
        pa[xr] = pa[b];
        for (size_t i = pr + 1; i < flo[b].size(); i++) {
            int xs = flo[b][i];
            S[xs] = -1;
            set_slack(xs);
        }
        stt[b] = 0;
    }
    bool on_found(const E &e) {
        int u = stt[e.u], v = stt[e.v];
        if (S[v] == -1) {
            pa[v] = e.u;
            S[v] = 1;
            int nu = stt[match[v]];
            slack[v] = slack[nu] = 0;
            S[nu] = 0;
            qpush(nu);
        } else if (S[v] == 0) {
            int l = get_lca(u, v);
            if (!l) {
                augment(u, v);
                augment(v, u);
                return true;
            }
            add_blossom(u, l, v);
        }
        return false;
    }
    bool matching() {
        std::fill(S.begin(), S.begin() + nx + 1, -1);
        std::fill(slack.begin(), slack.begin() + nx + 1, 0);
        q.clear();
        for (int x = 1; x <= nx; x++)
            if (stt[x] == x && !match[x]) {
                pa[x] = 0;
                S[x] = 0;
                qpush(x);
            }
        if (q.empty())
            return false;
        size_t qh = 0;
        while (true) {
            while (qh < q.size()) {
                int u = q[qh++];
                if (S[stt[u]] == 1)
                    continue;
                for (int v = 1; v <= n; v++)
                    if (g[u][v].w > 0 && stt[u] != stt[v]) {
                        if (ed(g[u][v]) == 0) {
                            if (on_found(g[u][v]))
                                return true;
                        } else {
                            upd(u, stt[v]);
                        }
                    }
            }
            i64 d = std::numeric_limits<i64>::max();
            for (int b = n + 1; b <= nx; b++)
                if (stt[b] == b && S[b] == 1)
                    d = std::min(d, lab[b] / 2);
            for (int x = 1; x <= nx; x++)
                if (stt[x] == x && slack[x]) {
                    if (S[x] == -1)
                        d = std::min(d, ed(g[slack[x]][x]));
                    else if (S[x] == 0)
                        d = std::min(d, ed(g[slack[x]][x]) / 2);
                }
            for (int u = 1; u <= n; u++) {
                if (S[stt[u]] == 0) {
                    if (lab[u] <= d)
                        return false;
                    lab[u] -= d;
                } else if (S[stt[u]] == 1) {
                    lab[u] += d;
                }
            }
            for (int b = n + 1; b <= nx; b++)
                if (stt[b] == b) {
                    if (S[b] == 0)
                        lab[b] += d * 2;
                    else if (S[b] == 1)
                        lab[b] -= d * 2;
                }
            q.clear();
            qh = 0;
            for (int x = 1; x <= nx; x++)
                if (stt[x] == x && slack[x] && stt[slack[x]] != x && ed(g[slack[x]][x]) == 0)
                    if (on_found(g[slack[x]][x]))
                        return true;
            for (int b = n + 1; b <= nx; b++)
                if (stt[b] == b && S[b] == 1 && lab[b] == 0)
                    expand(b);
        }
        return false;
    }
    // Edge weights must be > 0 (0: no edge). Returns matching partner array (1-based, 0 unmatched).
    std::vector<int> solve() {
        nx = n;
        std::fill(match.begin(), match.end(), 0);
        for (int u = 0; u <= n; u++) {
            stt[u] = u;
            flo[u].clear();
        }
        i64 wmax = 0;
        for (int u = 1; u <= n; u++)
            for (int v = 1; v <= n; v++) {
                ff[u][v] = (u == v ? u : 0);
                wmax = std::max(wmax, g[u][v].w);
            }
        for (int u = 1; u <= n; u++)
            lab[u] = wmax;
        while (matching()) {
        }
        return std::vector<int>(match.begin(), match.begin() + n + 1);
    }
};

// Minimum-weight solution for graphs of any size: shortest paths + weighted blossom.
struct MatchOracle {
    const Graph &g;
    i64 scale;
    std::vector<std::vector<std::pair<int, int>>> adj;  // (neighbor, edge index)
    std::vector<i64> bw;                                // boundary |weight| per node
    i64 neg_sum = 0;
    std::vector<uint8_t> neg_parity;
    explicit MatchOracle(const Graph &g_, i64 scale_ = 2) : g(g_), scale(scale_) {
        adj.resize(g.n);
        bw.assign(g.n, INF);
        neg_parity.assign(g.n, 0);
        for (size_t i = 0; i < g.edges.size(); i++) {
            auto &e = g.edges[i];
            i64 w = std::abs(e.w) * scale;
            if (e.w < 0) {
                neg_sum += e.w * scale;
                neg_parity[e.u] ^= 1;
                if (e.v >= 0)
                    neg_parity[e.v] ^= 1;
            }
            if (e.v < 0) {
                bw[e.u] = std::min(bw[e.u], w);
            } else if (e.u != e.v) {
                adj[e.u].push_back({e.v, (int)i});
                adj[e.v].push_back({e.u, (int)i});
            }
        }
    }
    std::vector<i64> dijkstra(int src) const {
        std::vector<i64> d(g.n, INF);
        std::priority_queue<std::pair<i64, int>, std::vector<std::pair<i64, int>>, std::greater<std::pair<i64, int>>> pq;
        d[src] = 0;
        pq.push({0, src});
        while (!pq.empty()) {
            auto [x, u] = pq.top();
            pq.pop();
            if (x > d[u])
                continue;
            for (auto &a : adj[u]) {
                i64 y = x + std::abs(g.edges[a.second].w) * scale;
                if (y < d[a.first]) {
                    d[a.first] = y;
                    pq.push({y, a.first});
                }
            }
        }
        return d;
    }
    i64 dist_to_boundary(const std::vector<i64> &d) const {
        i64 b = INF;
        for (int i = 0; i < g.n; i++)
            if (d[i] < INF && bw[i] < INF)
                b = std::min(b, d[i] + bw[i]);
        return b;
    }
    // Returns INF when no solution exists.
    i64 min_weight(const std::vector<u64> &syndrome) const {
        std::vector<uint8_t> par = neg_parity;
        for (auto s : syndrome)
            par[s] ^= 1;
        std::vector<int> defects;
        for (int i = 0; i < g.n; i++)
            if (par[i])
                defects.push_back(i);
        int k = (int)defects.size();
        if (k == 0)
            return neg_sum;
        std::vector<std::vector<i64>> d(k);
        std::vector<i64> b(k);
        for (int i = 0; i < k; i++) {
            d[i] = dijkstra(defects[i]);
            b[i] = dist_to_boundary(d[i]);
        }
        bool odd = k & 1;
        int N = k + (odd ? 1 : 0);
        auto cost = [&](int i, int j) -> i64 {
            if (i == k)
                std::swap(i, j);
            if (j == k)
                return b[i];
            i64 c = d[i][defects[j]];
            if (b[i] < INF && b[j] < INF)
                c = std::min(c, b[i] + b[j]);
            return c;
        };
        if (N <= 12) {
            std::vector<i64> dp((size_t)1 << N, INF);
            dp[0] = 0;
            for (size_t m = 0; m + 1 < dp.size(); m++) {
                if (dp[m] >= INF)
                    continue;
                int i = 0;
                while ((m >> i) & 1)
                    i++;
                for (int j = i + 1; j < N; j++)
                    if (!((m >> j) & 1)) {
                        i64 c = cost(i, j);
                        if (c < INF) {
                            size_t t = m | ((size_t)1 << i) | ((size_t)1 << j);
                            dp[t] = std::min(dp[t], dp[m] + c);
                        }
                    }
            }
            return dp.back() >= INF ? INF : dp.back() + neg_sum;
        }
        i64 cmax = 0;
        for (int i = 0; i < N; i++)
            for (int j = i + 1; j < N; j++)
                if (cost(i, j) < INF)
                    cmax = std::max(cmax, cost(i, j));
        i64 C = (cmax + 1) * (i64)(N + 1);
        WeightedBlossom wb(N);
        for (int i = 0; i < N; i++)
            for (int j = i + 1; j < N; j++) {
                i64 c = cost(i, j);
                if (c < INF)
                    wb.g[i + 1][j + 1].w = wb.g[j + 1][i + 1].w = C - c;
            }
        auto m = wb.solve();
        i64 tot = 0;
        for (int i = 1; i <= N; i++) {
            if (!m[i])
                return INF;
            if (m[i] > i)
                tot += cost(i - 1, m[i] - 1);
        }
        return tot + neg_sum;
    }
    // True when some edge set reproduces the syndrome.
    bool feasible(const std::vector<u64> &syndrome) const {
        std::vector<int> comp(g.n, -1);
        int nc = 0;
        std::vector<uint8_t> hasb, parity;
        for (int i = 0; i < g.n; i++)
            if (comp[i] < 0) {
                std::vector<int> st{i};
                comp[i] = nc;
                hasb.push_back(0);
                parity.push_back(0);
                while (!st.empty()) {
                    int u = st.back();
                    st.pop_back();
                    if (bw[u] < INF)
                        hasb[nc] = 1;
                    for (auto &a : adj[u])
                        if (comp[a.first] < 0) {
                            comp[a.first] = nc;
                            st.push_back(a.first);
                        }
                }
                nc++;
            }
        for (auto s : syndrome)
            parity[comp[s]] ^= 1;
        for (int c = 0; c < nc; c++)
            if (parity[c] && !hasb[c])
                return false;
        return true;
    }
};

// Random syndrome as a set of distinct nodes in random order.
inline std::vector<u64> gen_syndrome(Rng &r, const Graph &g, double density = -1) {
    std::vector<u64> s;
    if (density < 0) {
        static const double ds[] = {0.05, 0.2, 0.5, 0.8, 1.0};
        density = ds[r.below(5)];
    }
    for (int i = 0; i < g.n; i++)
        if (r.chance(density))
            s.push_back(i);
    if (r.chance(0.3))
        for (size_t i = s.size(); i > 1; i--)
            std::swap(s[i - 1], s[r.below(i)]);
    return s;
}
// Makes a syndrome feasible by sampling random edges (so it is always explainable).
inline std::vector<u64> gen_error_syndrome(Rng &r, const Graph &g, double p) {
    std::vector<uint8_t> par(g.n, 0);
    for (auto &e : g.edges)
        if (e.u != e.v && r.chance(p)) {
            par[e.u] ^= 1;
            if (e.v >= 0)
                par[e.v] ^= 1;
        }
    std::vector<u64> s;
    for (int i = 0; i < g.n; i++)
        if (par[i])
            s.push_back(i);
    return s;
}

}  // namespace vh
#endif
