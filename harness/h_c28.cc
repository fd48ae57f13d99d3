// C28: the work of a decode follows the detection events, not the size of the graph nor what was decoded before; building is
// linear. Work is counted, not timed: basic blocks executed (-fsanitize-coverage=trace-pc), bytes moved and bytes allocated.
#include <cstring>

#include "demgen.h"
#include "pmh.h"
#include "stim.h"

#define NOCOV __attribute__((no_sanitize_coverage))

static unsigned long long g_work = 0;
static bool g_on = false;

extern "C" {
NOCOV void __sanitizer_cov_trace_pc() {
    if (g_on)
        g_work++;
}
// Bulk operations the compiler hands to the C library: one unit for 16 bytes.
NOCOV __attribute__((optimize("no-tree-loop-distribute-patterns"))) void *memset(void *p, int c, size_t n) {
    if (g_on)
        g_work += n / 16;
    auto *q = (volatile unsigned char *)p;
    for (size_t i = 0; i < n; i++)
        q[i] = (unsigned char)c;
    return p;
}
NOCOV __attribute__((optimize("no-tree-loop-distribute-patterns"))) void *memmove(void *d, const void *s, size_t n) {
    if (g_on)
        g_work += n / 16;
    auto *a = (volatile unsigned char *)d;
    auto *b = (const volatile unsigned char *)s;
    if (d < s) {
        for (size_t i = 0; i < n; i++)
            a[i] = b[i];
    } else {
        for (size_t i = n; i-- > 0;)
            a[i] = b[i];
    }
    return d;
}
NOCOV void *memcpy(void *d, const void *s, size_t n) {
    return memmove(d, s, n);
}
}
NOCOV void *operator new(size_t n) {
    if (g_on)
        g_work += 1 + n / 16;
    void *p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
NOCOV void operator delete(void *p) noexcept {
    free(p);
}
NOCOV void operator delete(void *p, size_t) noexcept {
    free(p);
}

using namespace vh;

template <typename F>
NOCOV static u64 measure(const F &f) {
    struct Off {
        NOCOV ~Off() {
            g_on = false;
        }
    } off;
    g_work = 0;
    g_on = true;
    f();
    g_on = false;
    return g_work;
}

static const char *MODES[] = {"decode", "decode to a mask", "decode to edges", "decode to matched pairs", "correlated decode", "correlated decode to edges", "path query"};

// A decoder as a user holds it. Everything the calls need is allocated beforehand.
struct Sys {
    std::unique_ptr<pm::UserGraph> ug;
    std::vector<uint8_t> obs;
    std::vector<int64_t> edges;
    std::vector<size_t> path;
    pm::total_weight_int w = 0;
    bool refused = false;

    void ready() {
        obs.assign(ug->get_num_observables() + 1, 0);
        edges.reserve(4096);
        path.reserve(4096);
    }
    void run(int mode, const std::vector<u64> &syn) {
        edges.clear();
        path.clear();
        refused = false;
        try {
            switch (mode) {
                case 0:
                    pm::decode_detection_events(ug->get_mwpm(), syn, obs.data(), w, false);
                    break;
                case 1:
                    pm::decode_detection_events_for_up_to_64_observables(ug->get_mwpm(), syn, false);
                    break;
                case 2:
                    pm::decode_detection_events_to_edges(ug->get_mwpm_with_search_graph(), syn, edges);
                    break;
                case 3:
                    pm::decode_detection_events_to_match_edges(ug->get_mwpm(), syn);
                    break;
                case 4:
                    pm::decode_detection_events(ug->get_mwpm_with_search_graph(), syn, obs.data(), w, true);
                    break;
                case 5:
                    pm::decode_detection_events_to_edges_with_edge_correlations(ug->get_mwpm_with_search_graph(), syn, edges);
                    break;
                default:
                    if (syn.size() >= 2)
                        ug->get_nodes_on_shortest_path_from_source(syn[0], syn[1], path);
            }
        } catch (const std::invalid_argument &) {
            refused = true;
        }
    }
    // The search graph is made on the first call that needs it, so a decoder that is used for both kinds has it from the start.
    void warm(const std::vector<u64> &syn, const std::vector<int> &modes) {
        for (int m : modes)
            run(m, syn);
        for (int m : modes)
            run(m, syn);
    }
    u64 cost(int mode, const std::vector<u64> &syn) {
        return measure([&] {
            run(mode, syn);
        });
    }
};

static Sys sys_of(const Graph &g) {
    Sys s;
    s.ug.reset(new pm::UserGraph(build_user_graph(g)));
    s.ready();
    return s;
}
static std::string err_line(double p, const std::vector<DemComponent> &cs) {
    std::ostringstream o;
    o.precision(17);
    o << "error(" << p << ")";
    for (size_t k = 0; k < cs.size(); k++) {
        o << (k ? " ^" : "");
        for (int d : cs[k].dets)
            o << " D" << d;
        for (auto b : cs[k].obs)
            o << " L" << b;
    }
    o << "\n";
    return o.str();
}
static Sys sys_of_dem(const std::string &text) {
    Sys s;
    s.ug.reset(new pm::UserGraph(pm::detector_error_model_to_user_graph(stim::DetectorErrorModel(text.c_str()), true, pm::NUM_DISTINCT_WEIGHTS)));
    s.ready();
    return s;
}

static bool has_negative(const Graph &g) {
    for (auto &e : g.edges)
        if (e.w < 0)
            return true;
    return false;
}
// g with its nodes moved up by off, followed by nothing.
static void put(Graph &to, const Graph &g, int off) {
    for (auto e : g.edges) {
        e.u += off;
        if (e.v >= 0)
            e.v += off;
        to.edges.push_back(e);
    }
}
static std::vector<u64> moved(const std::vector<u64> &s, u64 off) {
    std::vector<u64> o;
    for (auto x : s)
        o.push_back(x + off);
    return o;
}
static void worse(const std::string &what, int mode, u64 got, u64 base, double limit, const std::string &ctx) {
    fail("work", std::string(MODES[mode]) + ": " + what + " costs " + std::to_string(got) + " steps, expected at most " +
                     std::to_string((u64)limit) + " (reference " + std::to_string(base) + "): " + ctx);
}
static int idx_sample = 0;
static u64 max_ratio[8];  // per mille, reported in the evidence
static void track(int k, double ratio) {
    max_ratio[k] = std::max(max_ratio[k], (u64)(ratio * 1000));
}

// ---- a graph inside a much larger one ---------------------------------------------------------------
static void locality(Rng &r) {
    bool dem = r.chance(0.3);
    GenOpts o;
    o.n_lo = 2;
    o.n_hi = 12;
    o.max_edges = 30;
    o.nobs = r.chance(0.2) ? 70 : 2;
    o.wmax = 5000;
    o.allow_negative = r.chance(0.3);
    Sys small, big;
    Graph g;
    std::vector<int> modes;
    int N = 20000, off;
    bool tied = false;
    std::string ctx;
    if (!dem) {
        g = gen_graph(r, o);
        Graph b;
        off = (int)r.below(3) * N / 2;
        b.n = N + g.n;
        b.nobs = g.nobs;
        put(b, g, off);
        i64 mx = 1, sum = 1;
        for (auto &e : g.edges) {
            mx = std::max(mx, std::abs(e.w));
            sum += std::abs(e.w);
        }
        auto ext = [&](int k) {
            return k < off ? k : k + g.n;
        };
        bool net = r.chance(0.5);
        for (int k = 0; k + 1 < N; k++) {
            b.edges.push_back({ext(k), ext(k + 1), r.range(1, mx), {}});
            if (net && k + 141 < N)
                b.edges.push_back({ext(k), ext(k + 141), r.range(1, mx), {}});
        }
        if (r.chance(0.5))
            b.edges.push_back({ext(N - 1), -1, mx, {}});
        tied = r.chance(0.5);
        if (tied)
            for (int k = 0; k < 2; k++)
                b.edges.push_back({off + (int)r.below(g.n), ext((int)(k * N / 2 + r.below(N / 2))), 2 * sum, {}});
        small = sys_of(g);
        big = sys_of(b);
        if (r.chance(0.4))
            big.ug->set_boundary({(size_t)ext(N - 1)});
        modes = {0, 2, 6};
        if (g.nobs <= 64)
            modes.push_back(1);
        if (!has_negative(g))
            modes.push_back(3);
        ctx = g.str() + (tied ? " tied to" : " beside") + " 20000 other nodes, at " + std::to_string(off);
    } else {
        DemGenOpts d;
        d.errors_lo = 3;
        d.errors_hi = 20;
        d.half = true;
        d.allow_zero = false;
        d.allow_undetectable = false;
        d.nobs = 2;
        g.n = (int)r.range(2, 10);
        auto es = gen_dem_errors(r, d, g.n);
        off = (int)r.below(2) * N;
        std::string a, b;
        double lo = 0.5;
        for (auto &e : es)
            lo = std::min(lo, e.p);
        a = dem_text(es, g.n, 2);
        for (auto &e : es) {
            auto f = e;
            for (auto &c : f.comps)
                for (auto &x : c.dets)
                    x += off;
            b += err_line(f.p, f.comps);
        }
        int e0 = off ? 0 : g.n;
        for (int k = 0; k + 1 < N; k += 2)
            b += err_line(lo, {{{e0 + k, e0 + k + 1}, {}}, {{e0 + k + 1}, {1}}});
        b += "detector D" + std::to_string(N + g.n - 1) + "\nlogical_observable L1\n";
        small = sys_of_dem(a);
        big = sys_of_dem(b);
        for (auto &e : es)
            for (auto &c : e.comps)
                if (c.dets.size() == 1)
                    g.edges.push_back({c.dets[0], -1, 1, {}});
                else if (c.dets.size() == 2)
                    g.edges.push_back({c.dets[0], c.dets[1], 1, {}});
        modes = {0, 2, 3, 4, 5};
        ctx = a + " beside 20000 other detectors, at " + std::to_string(off);
        for (auto &e : es)
            if (e.p > 0.5)
                return;
    }
    if (r.chance(0.5))
        std::swap(modes[0], modes[r.below(modes.size())]);
    note(ctx);
    auto all = gen_error_syndrome(r, g, 0.5);
    small.warm(all, modes);
    big.warm(moved(all, off), modes);
    for (int k = 0; k < 4; k++) {
        auto syn = gen_error_syndrome(r, g, r.unit() * 0.8);
        for (int m : modes) {
            small.run(m, syn);
            big.run(m, moved(syn, off));
            // Ties may connect what the small graph leaves unconnected.
            if (small.refused != big.refused && !(tied && small.refused))
                fail("refused", std::string(MODES[m]) + ": refused only in one of the two graphs: " + ctx + " " + vstr(syn));
            if (small.refused)
                continue;
            u64 a = small.cost(m, syn), b = big.cost(m, moved(syn, off));
            evaluated();
            vh::count(std::string("size: ") + MODES[m]);
            track(0, (double)b / (double)(a + 500));
            double limit = 1.7 * (double)a + 2500;
            if ((double)b > limit)
                worse("the same events in the larger graph", m, b, a, limit, ctx + " events " + vstr(syn));
            if (syn.size() >= 2)
                nontrivial(mix(g.hash(), mix(m, syn.size() * 1000 + syn[0] * 31 + syn.back())));
        }
    }
}

// ---- many copies -------------------------------------------------------------------------------------
static void copies(Rng &r) {
    GenOpts o;
    o.n_lo = 2;
    o.n_hi = 12;
    o.max_edges = 30;
    o.nobs = 2;
    o.wmax = r.chance(0.5) ? 5000 : (1 << 24) - 1;
    o.allow_negative = r.chance(0.2);
    Graph g = gen_graph(r, o), b;
    int K = (int)r.range(20, 150);
    b.n = g.n * K;
    b.nobs = g.nobs;
    for (int k = 0; k < K; k++)
        put(b, g, k * g.n);
    Sys small = sys_of(g), big = sys_of(b);
    big.edges.reserve(200000);
    std::vector<int> modes = {0, 1, 2};
    if (!has_negative(g))
        modes.push_back(3);
    std::string ctx = std::to_string(K) + " copies of " + g.str();
    note(ctx);
    for (int k = 0; k < 3; k++) {
        auto syn = gen_error_syndrome(r, g, r.unit() * 0.8);
        std::vector<u64> many;
        for (int c = 0; c < K; c++)
            for (auto x : syn)
                many.push_back(x + (u64)c * g.n);
        if (r.chance(0.5))
            for (size_t i = many.size(); i > 1; i--)
                std::swap(many[i - 1], many[r.below(i)]);
        small.warm(syn, modes);
        big.warm(many, modes);
        for (int m : modes) {
            u64 a = small.cost(m, syn), c = big.cost(m, many);
            evaluated();
            vh::count(std::string("copies: ") + MODES[m]);
            track(1, (double)c / (double)((a + 500) * K));
            double limit = 2.2 * ((double)a + 300) * K + 2000;
            if ((double)c > limit)
                worse("the same events in every copy", m, c, a, limit, ctx + " events " + vstr(syn));
            if (syn.size() >= 2)
                nontrivial(mix(g.hash(), mix(m + 100, syn.size() * 1000 + K)));
        }
    }
}

// ---- long histories ----------------------------------------------------------------------------------
static void history(Rng &r) {
    bool correlated = false;
    GenOpts o;
    o.n_lo = 3;
    o.n_hi = 30;
    o.max_edges = 60;
    o.nobs = r.chance(0.2) ? 70 : 2;
    o.allow_negative = r.chance(0.3);
    Graph g;
    Sys s;
    std::vector<int> modes;
    std::string ctx;
    if (r.chance(0.6)) {
        g = gen_graph(r, o);
        s = sys_of(g);
        modes = {0, 2, 6};
        if (g.nobs <= 64)
            modes.push_back(1);
        if (!has_negative(g))
            modes.push_back(3);
        ctx = g.str();
    } else {
        DemGenOpts d;
        d.errors_lo = 3;
        d.errors_hi = 40;
        d.half = true;
        d.allow_zero = false;
        d.nobs = 2;
        g.n = (int)r.range(2, 14);
        auto es = gen_dem_errors(r, d, g.n);
        ctx = dem_text(es, g.n, 2);
        s = sys_of_dem(ctx);
        modes = {0, 1, 2, 3, 4, 5};
        correlated = r.chance(0.3);
        if (correlated)
            modes = {4, 5};
        for (auto &e : es)
            for (auto &c : e.comps)
                if (c.dets.size() == 1)
                    g.edges.push_back({c.dets[0], -1, 1, {}});
                else if (c.dets.size() == 2)
                    g.edges.push_back({c.dets[0], c.dets[1], 1, {}});
    }
    std::vector<std::pair<int, std::vector<u64>>> shots;
    int ns = (int)r.range(4, 14);
    for (int k = 0; k < ns; k++)
        shots.push_back({modes[r.below(modes.size())], r.chance(0.8) ? gen_error_syndrome(r, g, r.unit() * 0.7) : gen_syndrome(r, g)});
    note(ctx);
    int rounds = (int)r.range(60, 400) * (correlated ? 4 : 1);
    u64 early = 0, late = 0;
    for (int k = 0; k < rounds; k++) {
        u64 c = 0;
        for (auto &x : shots) {
            s.edges.clear();
            c += s.cost(x.first, x.second);
        }
        if (k >= 3 && k < 13)
            early = std::max(early, c);
        if (k >= rounds - 10)
            late = std::max(late, c);
    }
    evaluated(rounds);
    vh::count("histories");
    vh::count("repeated calls", (u64)rounds * ns);
    track(2, (double)late / (double)(early + 200));
    double limit = 1.25 * (double)early + 300;
    if ((double)late > limit)
        worse("a round of " + std::to_string(ns) + " calls after " + std::to_string(rounds - 10) + " such rounds", shots[0].first, late, early, limit, ctx);
    nontrivial(mix(g.hash(), mix(rounds, ns)));
}

// ---- sparse noise on lattices of two sizes --------------------------------------------------------
static Graph lattice(Rng &r, int L, int dim, int wmode) {
    Graph g;
    g.nobs = 1;
    g.n = 1;
    for (int d = 0; d < dim; d++)
        g.n *= L;
    int stride = 1;
    auto w = [&]() -> i64 {
        return wmode == 0 ? 1 : wmode == 1 ? r.range(1, 3) : r.range(800, 1200);
    };
    for (int d = 0; d < dim; d++) {
        for (int k = 0; k < g.n; k++) {
            int x = k / stride % L;
            if (x + 1 < L)
                g.edges.push_back({k, k + stride, w(), {}});
            else if (d == 0)
                g.edges.push_back({k, -1, w(), {0}});
            if (d == 0 && x == 0)
                g.edges.push_back({k, -1, w(), {}});
        }
        stride *= L;
    }
    // one boundary edge for each node
    std::set<int> seen;
    std::vector<Edge> keep;
    for (auto &e : g.edges)
        if (e.v >= 0 || seen.insert(e.u).second)
            keep.push_back(e);
    g.edges = keep;
    return g;
}
static std::string lattice_dem(const Graph &g) {
    // neighbouring edges fail together: correlated decoding has something to reweight
    std::string t;
    for (size_t k = 0; k < g.edges.size(); k++) {
        auto comp = [&](const Edge &e) {
            DemComponent c;
            c.dets = {e.u};
            if (e.v >= 0)
                c.dets.push_back(e.v);
            c.obs = e.obs;
            return c;
        };
        t += err_line(0.01, {comp(g.edges[k])});
        if (k % 3 == 0 && k + 1 < g.edges.size())
            t += err_line(0.004, {comp(g.edges[k]), comp(g.edges[k + 1])});
    }
    return t;
}
static void sizes(Rng &r) {
    int dim = (int)r.range(1, 3);
    int L1 = dim == 1 ? 600 : dim == 2 ? 24 : 9, L2 = dim == 1 ? 4800 : dim == 2 ? 68 : 18;
    int wmode = (int)r.below(3);
    bool dem = r.chance(0.3);
    Graph a = lattice(r, L1, dim, wmode), b = lattice(r, L2, dim, wmode);
    a.family = b.family = "lattice";
    double p = (dim == 3 ? 0.006 : 0.02) * (0.5 + r.unit());
    std::string ctx = std::to_string(dim) + "-dimensional lattices of side " + std::to_string(L1) + " and " + std::to_string(L2) + ", weights " +
                      std::to_string(wmode) + (dem ? " with correlations" : "") + ", error rate " + std::to_string(p);
    note(ctx);
    Sys s1 = dem ? sys_of_dem(lattice_dem(a)) : sys_of(a), s2 = dem ? sys_of_dem(lattice_dem(b)) : sys_of(b);
    std::vector<int> modes = dem ? std::vector<int>{0, 4, 5} : std::vector<int>{0, 1, 2, 3};
    for (auto *s : {&s1, &s2})
        s->edges.reserve(100000);
    for (int m : modes) {
        double c1 = 0, c2 = 0;
        int reps = 6;
        size_t events = 0;
        for (int k = 0; k < reps; k++) {
            // as many errors in total for both sizes
            for (int q = 0; q < b.n / a.n; q++) {
                auto syn = gen_error_syndrome(r, a, p);
                if (k == 0 && q == 0)
                    s1.warm(syn, modes);
                c1 += (double)s1.cost(m, syn);
            }
            auto syn = gen_error_syndrome(r, b, p);
            if (k == 0)
                s2.warm(syn, modes);
            c2 += (double)s2.cost(m, syn);
            events += syn.size();
        }
        evaluated();
        vh::count(std::string("lattices: ") + MODES[m]);
        track(3, c2 / (c1 + 1));
        double limit = 2.0 * c1 + 5000;
        if (c2 > limit)
            worse("noise of the same rate on the larger lattice", m, (u64)c2, (u64)c1, limit, ctx);
        if (idx_sample++ < 1)
            sample(ctx + ": " + std::to_string((u64)(c2 / (double)std::max<size_t>(1, events))) + " steps for each detection event, " +
                   std::to_string((u64)(c1 / (double)std::max<size_t>(1, events))) + " on the small one");
        nontrivial(mix(mix(dim, wmode), mix(m, (u64)(c2 + c1))));
    }
}

// ---- building ------------------------------------------------------------------------------------------
static void building(Rng &r) {
    int dim = (int)r.range(1, 3);
    int L1 = dim == 1 ? 400 : dim == 2 ? 20 : 7, L2 = dim == 1 ? 6400 : dim == 2 ? 80 : 18;
    Graph a = lattice(r, L1, dim, 2), b = lattice(r, L2, dim, 2);
    int how = (int)r.below(5);
    static const char *names[] = {"adding edges", "making a decoder", "making a decoder with a search graph", "loading a model", "sampling noise"};
    std::string ctx = std::string(names[how]) + " on " + std::to_string(dim) + "-dimensional lattices with " + std::to_string(a.edges.size()) + " and " +
                      std::to_string(b.edges.size()) + " edges";
    note(ctx);
    auto order = [&](Graph &g) {
        for (size_t i = g.edges.size(); i > 1; i--)
            std::swap(g.edges[i - 1], g.edges[r.below(i)]);
    };
    if (r.chance(0.5)) {
        order(a);
        order(b);
    }
    bool corr = r.chance(0.5);
    auto work = [&](const Graph &g) -> double {
        std::string text;
        std::unique_ptr<stim::DetectorErrorModel> model;
        std::unique_ptr<pm::UserGraph> ug;
        std::vector<uint8_t> e, s;
        if (how == 3)
            model.reset(new stim::DetectorErrorModel(lattice_dem(g).c_str()));
        else if (how) {
            ug.reset(new pm::UserGraph(g.n, g.nobs));
            for (auto &x : g.edges)
                if (x.v < 0)
                    ug->add_or_merge_boundary_edge(x.u, x.obs, (double)x.w, 0.1);
                else
                    ug->add_or_merge_edge(x.u, x.v, x.obs, (double)x.w, 0.1);
            e.assign(ug->get_num_observables(), 0);
            s.assign(ug->get_num_nodes(), 0);
        }
        return (double)measure([&] {
            switch (how) {
                case 0: {
                    pm::UserGraph u(corr ? 0 : g.n, corr ? 0 : g.nobs);
                    for (auto &x : g.edges)
                        if (x.v < 0)
                            u.add_or_merge_boundary_edge(x.u, x.obs, (double)x.w, 0.1);
                        else
                            u.add_or_merge_edge(x.u, x.v, x.obs, (double)x.w, 0.1);
                    break;
                }
                case 1:
                    ug->get_mwpm();
                    break;
                case 2:
                    ug->get_mwpm_with_search_graph();
                    break;
                case 3: {
                    auto u = pm::detector_error_model_to_user_graph(*model, corr, pm::NUM_DISTINCT_WEIGHTS);
                    u.get_mwpm_with_search_graph();
                    break;
                }
                default:
                    ug->add_noise(e.data(), s.data());
            }
        });
    };
    double c1 = work(a), c2 = work(b), k = (double)b.edges.size() / (double)a.edges.size();
    evaluated();
    vh::count(std::string("building: ") + names[how]);
    track(4, c2 / (k * (c1 + 1)));
    double limit = 2.2 * k * c1 + 5000;
    if (c2 > limit)
        fail("building", ctx + ": " + std::to_string((u64)c2) + " steps instead of at most " + std::to_string((u64)limit) + " (" + std::to_string((u64)c1) +
                             " for the smaller one)");
    nontrivial(mix(mix(how, dim), mix((u64)c1, (u64)c2)));
}

int main(int argc, char **argv) {
    int rc = run_cases(argc, argv, "C28", [](Rng &r, u64 idx) {
        switch (idx % 12) {
            case 0:
            case 1:
            case 2:
                return locality(r);
            case 3:
            case 4:
            case 5:
                return copies(r);
            case 6:
            case 7:
            case 8:
            case 9:
                return history(r);
            case 10:
                return sizes(r);
            default:
                return building(r);
        }
    });
    if (getenv("VH_RATIOS"))
        for (int k = 0; k < 5; k++)
            fprintf(stderr, "ratio %d: %llu\n", k, (unsigned long long)max_ratio[k]);
    return rc;
}
