// C14: graph building follows the documented merge rules (reference model compared after every call).
#include <cmath>
#include "pmh.h"
using namespace vh;

struct RefE {
    size_t a, b;  // b == SIZE_MAX: boundary
    std::vector<size_t> obs;
    double w, p;
};
struct Ref {
    size_t n = 0, nobs = 0;
    std::vector<RefE> es;
    std::set<size_t> bnd;
    RefE *find(size_t a, size_t b) {
        for (auto &e : es)
            if ((e.a == a && e.b == b) || (e.a == b && e.b == a))
                return &e;
        return nullptr;
    }
    static bool valid(double p) {
        return p >= 0 && p <= 1;
    }
    void see(const std::vector<size_t> &o) {
        for (auto x : o)
            nobs = std::max(nobs, x + 1);
    }
    // Returns true when the call must be refused.
    bool add(size_t a, size_t b, const std::vector<size_t> &obs, double w, double p, int strat) {
        n = std::max(n, a + 1);
        if (b != SIZE_MAX)
            n = std::max(n, b + 1);
        RefE *e = find(a, b);
        if (!e) {
            es.push_back({a, b, obs, w, p});
            see(obs);
            return false;
        }
        switch (strat) {
            case pm::DISALLOW:
                return true;
            case pm::KEEP_ORIGINAL:
                return false;
            case pm::SMALLEST_WEIGHT:
                if (w >= e->w)
                    return false;
                [[fallthrough]];
            case pm::REPLACE:
                e->w = w;
                e->p = p;
                e->obs = obs;
                see(obs);
                return false;
            default: {
                // log-likelihood of an odd number of the two independent mechanisms:
                // with t = tanh(x/2), t_merged = t_a * t_b  (in extended precision)
                long double x = w, y = e->w;
                long double s = (std::signbit(w) != std::signbit(e->w)) ? -1 : 1;
                long double m = s * std::min(std::fabs(x), std::fabs(y));
                e->w = (double)(m + log1pl(expl(-fabsl(x + y))) - log1pl(expl(-fabsl(x - y))));
                e->p = valid(e->p) && valid(p) ? p * (1 - e->p) + e->p * (1 - p) : -1;
                return false;
            }
        }
    }
};

static bool close(double a, double b, double scale) {
    return a == b || std::abs(a - b) <= 1e-12 * std::max(1.0, scale);
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C14", [](Rng &r, u64 idx) {
        size_t n0 = r.chance(0.3) ? 0 : r.below(5), o0 = r.chance(0.5) ? 0 : r.below(4);
        Ref ref;
        pm::UserGraph g;
        if (n0 == 0 && o0 == 0)
            g = pm::UserGraph();
        else if (o0 == 0)
            g = pm::UserGraph(n0);
        else
            g = pm::UserGraph(n0, o0);
        ref.n = n0;
        ref.nobs = (n0 == 0 && o0 == 0) ? 0 : o0;
        int steps = (int)r.range(1, 40);
        size_t nmax = (size_t)r.range(1, 7);
        size_t obs_lim = r.chance(0.15) ? 100 : 5;
        std::string hist = "UserGraph(" + std::to_string(n0) + "," + std::to_string(o0) + ")";
        u64 hh = mix(n0, o0);
        int wmode = (int)r.below(6);
        int merges = 0;
        for (int s = 0; s < steps; s++) {
            int what = (int)r.below(12);
            char buf[300];
            if (what < 9) {
                bool bd = r.chance(0.3);
                size_t a = r.below(nmax), b = bd ? SIZE_MAX : r.below(nmax);
                if (r.chance(0.03))
                    a = nmax + r.below(20);
                std::vector<size_t> obs;
                for (int k = (int)r.below(4); k > 0; k--)
                    obs.push_back(r.below(obs_lim));
                double w;
                switch (wmode) {
                    case 0:
                        w = (double)r.range(-3, 5);
                        break;
                    case 1:
                        w = (r.unit() - 0.3) * 10;
                        break;
                    case 2:
                        w = (double)r.range(-2, 2) * 500.0;
                        break;
                    case 3:
                        w = (r.unit() - 0.4) * 70;
                        break;
                    case 4:
                        w = r.chance(0.5) ? (double)r.range(-30, 40) : r.unit() * 1e-6;
                        break;
                    default: {
                        double q = 0.001 + 0.998 * r.unit();
                        w = std::log((1 - q) / q);
                    }
                }
                static const double ps[] = {-1, 0, 1, 0.5, 2, -0.25};
                double p = r.chance(0.5) ? r.unit() : ps[r.below(6)];
                int strat = (int)r.below(5);
                snprintf(buf, sizeof buf, "; %s(%zd,%zd,%s,%.17g,%.17g,%d)", bd ? "boundary_edge" : "edge", (ssize_t)a,
                         (ssize_t)b, vstr(obs).c_str(), w, p, strat);
                hist += buf;
                note(hist);
                bool existed = ref.find(a, b) != nullptr;
                bool want_refuse = ref.add(a, b, obs, w, p, strat), refused = false;
                try {
                    if (bd)
                        g.add_or_merge_boundary_edge(a, obs, w, p, (pm::MERGE_STRATEGY)strat);
                    else
                        g.add_or_merge_edge(a, b, obs, w, p, (pm::MERGE_STRATEGY)strat);
                } catch (const std::invalid_argument &) {
                    refused = true;
                }
                if (existed) {
                    merges++;
                    static const char *sn[] = {"disallow", "independent", "smallest-weight", "keep-original", "replace"};
                    count(std::string("merges with ") + sn[strat]);
                }
                if (refused != want_refuse)
                    fail("refusal", std::string(refused ? "refused" : "accepted") + " the last call of " + hist);
            } else if (what == 9) {
                std::set<size_t> b;
                for (int k = (int)r.below(4); k > 0; k--)
                    b.insert(r.below(nmax + 3));
                for (auto x : b)
                    ref.n = std::max(ref.n, x + 1);
                ref.bnd = b;
                g.set_boundary(b);
                hist += "; set_boundary(" + vstr(std::vector<size_t>(b.begin(), b.end())) + ")";
            } else if (what == 10) {
                size_t k = r.below(obs_lim + 4);
                ref.nobs = std::max(ref.nobs, k);
                g.set_min_num_observables(k);
                hist += "; set_min_num_observables(" + std::to_string(k) + ")";
            } else {
                pm::UserGraph t = std::move(g);
                g = std::move(t);
                hist += "; move";
            }
            note(hist);
            // ---- compare
            auto bad = [&](const std::string &m) {
                fail("model", m + " after " + hist);
            };
            evaluated();
            if (g.get_num_nodes() != ref.n)
                bad("number of nodes is " + std::to_string(g.get_num_nodes()) + ", expected " + std::to_string(ref.n));
            if (g.get_num_edges() != ref.es.size())
                bad("number of edges is " + std::to_string(g.get_num_edges()) + ", expected " + std::to_string(ref.es.size()));
            if (g.get_num_observables() != ref.nobs)
                bad("number of observables is " + std::to_string(g.get_num_observables()) + ", expected " + std::to_string(ref.nobs));
            if (g.get_boundary() != ref.bnd)
                bad("boundary set differs");
            if (g.get_num_detectors() != ref.n - ref.bnd.size())
                bad("number of detectors differs");
            for (size_t i = 0; i < ref.n; i++)
                if (g.is_boundary_node(i) != (ref.bnd.count(i) > 0))
                    bad("boundary flag of node " + std::to_string(i) + " is wrong");
            double mx = 0;
            bool allp = true;
            size_t k = 0;
            std::set<RefE *> seen;
            for (auto &e : g.edges) {
                RefE *xp = ref.find(e.node1, e.node2);
                k++;
                if (!xp || !seen.insert(xp).second)
                    bad("edge " + std::to_string(k - 1) + " joins the wrong nodes");
                auto &x = *xp;
                if (!close(e.weight, x.w, std::abs(x.w)))
                    bad("edge " + std::to_string(k - 1) + " weighs " + std::to_string(e.weight) + ", expected " + std::to_string(x.w));
                if (!close(e.error_probability, x.p, 1) &&
                    (Ref::valid(e.error_probability) || Ref::valid(x.p)))
                    bad("edge " + std::to_string(k - 1) + " has probability " + std::to_string(e.error_probability) +
                        ", expected " + std::to_string(x.p));
                auto have = e.observable_indices;
                auto want = x.obs;
                std::sort(have.begin(), have.end());
                std::sort(want.begin(), want.end());
                if (have != want)
                    bad("edge " + std::to_string(k - 1) + " flips " + vstr(e.observable_indices) + ", expected " + vstr(x.obs));
                mx = std::max(mx, std::abs(x.w));
                allp = allp && Ref::valid(x.p);
            }
            if (!close(g.max_abs_weight(), mx, mx))
                bad("maximum weight differs");
            if (g.all_edges_have_error_probabilities() != allp)
                bad("wrong answer on whether every edge has a probability");
            for (int q = 0; q < 6; q++) {
                size_t a = r.below(ref.n + 2), b = r.chance(0.3) ? SIZE_MAX : r.below(ref.n + 2);
                RefE *e = ref.find(a, b);
                if (b == SIZE_MAX ? g.has_boundary_edge(a) != (e != nullptr) : g.has_edge(a, b) != (e != nullptr))
                    bad("has_edge(" + std::to_string(a) + "," + std::to_string((ssize_t)b) + ") is wrong");
                double w = -12345;
                bool got = g.get_edge_or_boundary_edge_weight(a, b, w);
                if (got != (e != nullptr) || (got && !close(w, e->w, std::abs(e->w))))
                    bad("weight query (" + std::to_string(a) + "," + std::to_string((ssize_t)b) + ") is wrong");
            }
            // Continue from the values the graph holds, so that rounding does not accumulate.
            for (auto &e : g.edges) {
                RefE *x = ref.find(e.node1, e.node2);
                x->w = e.weight;
                if (Ref::valid(x->p))
                    x->p = e.error_probability;
            }
            hh = mix(hh, std::hash<std::string>()(hist));
            if (merges)
                nontrivial(hh);
        }
        if (idx < 3)
            sample(hist.substr(0, 400));
    });
}
