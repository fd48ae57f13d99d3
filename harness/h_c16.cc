// C16: sampled noise is one random edge subset, reproducible from the seed, with the stated distribution.
#include <cmath>
#include "pmh.h"
#include "pymatching/rand/rand_gen.h"
using namespace vh;

struct E {
    size_t a, b;
    double p;
    std::vector<size_t> obs;  // obs[0] is unique to the edge
};

// Chernoff: P(observed frequency at least this far out) <= exp(-n KL).
static double surprise(u64 k, u64 n, double p) {
    double q = (double)k / (double)n;
    double s = 0;
    if (q > 0) {
        if (p <= 0)
            return 1e9;
        s += q * std::log(q / p);
    }
    if (q < 1) {
        if (p >= 1)
            return 1e9;
        s += (1 - q) * std::log((1 - q) / (1 - p));
    }
    return s * (double)n;
}
static const double LIMIT = 32;  // exp(-32) ~ 1e-14 per test

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C16", [](Rng &r, u64 idx) {
        bool wide = r.chance(0.2);
        size_t n = (size_t)(wide ? r.range(8, 40) : r.range(1, 7));
        size_t m = (size_t)(wide ? r.range(5, 90) : r.range(0, 14));
        size_t shared = r.below(4);
        std::vector<E> es;
        std::set<std::pair<size_t, size_t>> used;
        int pmode = (int)r.below(5);
        auto gp = [&]() -> double {
            switch (pmode) {
                case 0:
                    return 0.5;
                case 1:
                    return r.unit();
                case 2:
                    return r.chance(0.5) ? 0.0 : 1.0;
                case 3:
                    return r.chance(0.2) ? (r.chance(0.5) ? 0.0 : 1.0) : 0.1 * r.unit();
                default:
                    return r.chance(0.5) ? 1 - 0.01 * r.unit() : 0.01 * r.unit();
            }
        };
        for (size_t i = 0; i < m; i++) {
            size_t a = r.below(n), b = r.chance(0.25) ? SIZE_MAX : r.below(n);
            if (!used.insert({std::min(a, b), std::max(a, b)}).second)
                continue;
            E e{a, b, gp(), {es.size()}};
            es.push_back(e);
        }
        m = es.size();
        for (auto &e : es)
            for (size_t k = 0; k < shared; k++)
                if (r.chance(0.3))
                    e.obs.push_back(m + k);
        size_t nobs = m + shared;
        pm::UserGraph g(n, nobs);
        std::string desc = "n=" + std::to_string(n) + " edges=[";
        for (auto &e : es)
            desc += std::to_string(e.a) + "-" + std::to_string((ssize_t)e.b) + ":p=" + std::to_string(e.p) + " ";
        std::set<size_t> bnd;
        if (r.chance(0.4))
            for (int k = (int)(r.chance(0.4) ? r.range(1, n) : r.range(1, 2)); k > 0; k--)
                bnd.insert(r.below(n));
        desc += "] boundary=" + vstr(std::vector<size_t>(bnd.begin(), bnd.end()));
        note(desc);
        auto put = [&](E &e, double p, pm::MERGE_STRATEGY s) {
            if (e.b == SIZE_MAX)
                g.add_or_merge_boundary_edge(e.a, e.obs, 1.0 + (double)e.obs[0], p, s);
            else
                g.add_or_merge_edge(e.a, e.b, e.obs, 1.0 + (double)e.obs[0], p, s);
        };
        static const double bad_p[] = {-1, 1.0000001, 2, -0.0001};
        std::vector<double> cur;
        for (auto &e : es) {
            double p = r.chance(0.05) ? bad_p[r.below(4)] : e.p;
            put(e, p, pm::DISALLOW);
            cur.push_back(p);
        }
        g.set_boundary(bnd);
        auto sample_once = [&](std::vector<uint8_t> &ob, std::vector<uint8_t> &y) {
            ob.assign(nobs, 0);
            y.assign(n, 0);
            g.add_noise(ob.data(), y.data());
        };
        std::vector<uint8_t> ob, y;
        auto judge = [&]() {
            std::vector<uint8_t> yy(n, 0), oo(nobs, 0);
            bool all = true;
            for (auto p : cur)
                all = all && p >= 0 && p <= 1;
            for (size_t i = 0; i < m; i++) {
                if (ob[i] > 1)
                    fail("value", "an output entry is neither 0 nor 1: " + desc);
                if (!ob[i])
                    continue;
                for (auto o : es[i].obs)
                    oo[o] ^= 1;
                yy[es[i].a] ^= 1;
                if (es[i].b != SIZE_MAX)
                    yy[es[i].b] ^= 1;
            }
            for (auto b : bnd)
                yy[b] = 0;
            evaluated();
            if (oo != ob || yy != y)
                fail("inconsistent", "observables " + vstr(ob) + " and syndrome " + vstr(y) + " do not come from one edge subset of " + desc);
            for (size_t i = 0; i < m; i++) {
                if (all && cur[i] == 0 && ob[i])
                    fail("p0", "an edge of probability 0 occurred in " + desc);
                if (all && cur[i] == 1 && !ob[i])
                    fail("p1", "an edge of probability 1 did not occur in " + desc);
                if (!all && ob[i])
                    fail("sampled-without-probabilities", "noise was sampled although an edge has no valid probability: " + desc);
            }
            if (!all)
                for (auto v : y)
                    if (v)
                        fail("sampled-without-probabilities", "a syndrome was sampled although an edge has no valid probability: " + desc);
            count(all ? "samples with all probabilities" : "calls without all probabilities");
            if (g.all_edges_have_error_probabilities() != all)
                fail("all-probabilities", "wrong answer on whether every edge has a probability: " + desc);
        };
        static const unsigned special[] = {0, 1, 5489, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu};
        unsigned seed = r.chance(0.15) ? special[r.below(6)] : (unsigned)r.next();
        pm::set_seed(seed);
        // Edits that take probabilities away and give them back.
        int flips = (int)r.below(6);
        for (int k = 0; k < flips && m; k++) {
            size_t i = r.below(m);
            double p = r.chance(0.5) ? bad_p[r.below(4)] : gp();
            int how = (int)r.below(3);
            auto st = how == 0 ? pm::REPLACE : how == 1 ? pm::KEEP_ORIGINAL : pm::INDEPENDENT;
            put(es[i], p, st);
            if (st == pm::REPLACE)
                cur[i] = p;
            else if (st == pm::INDEPENDENT)
                cur[i] = (p >= 0 && p <= 1 && cur[i] >= 0 && cur[i] <= 1) ? p * (1 - cur[i]) + cur[i] * (1 - p) : -1;
            desc += " edge" + std::to_string(i) + "<-" + std::to_string(p) + "/" + std::to_string(how);
            note(desc);
            sample_once(ob, y);
            judge();
        }
        for (size_t i = 0; i < m; i++)
            if (!(cur[i] >= 0 && cur[i] <= 1)) {
                put(es[i], es[i].p, pm::REPLACE);
                cur[i] = es[i].p;
            }
        // Distribution.
        u64 N = 400;
        std::vector<u64> cnt(m, 0), ser(m, 0);
        std::vector<std::vector<u64>> joint(m, std::vector<u64>(m, 0));
        std::vector<std::vector<uint8_t>> first;
        std::vector<uint8_t> prev;
        pm::set_seed(seed);
        for (u64 t = 0; t < N; t++) {
            sample_once(ob, y);
            judge();
            if (t < 25) {
                auto z = ob;
                z.insert(z.end(), y.begin(), y.end());
                first.push_back(z);
            }
            for (size_t i = 0; i < m; i++)
                if (ob[i]) {
                    cnt[i]++;
                    for (size_t j = i + 1; j < m; j++)
                        joint[i][j] += ob[j];
                    if (t % 2 == 1)
                        ser[i] += prev[i];
                }
            prev = ob;
        }
        for (size_t i = 0; i < m; i++) {
            auto chk = [&](u64 k, u64 nn, double p, const std::string &what) {
                if (surprise(k, nn, p) > LIMIT)
                    fail("distribution", what + " occurred " + std::to_string(k) + " times in " + std::to_string(nn) +
                                             " samples, probability " + std::to_string(p) + ": " + desc);
                evaluated();
                count("frequencies judged");
            };
            chk(cnt[i], N, cur[i], "edge " + std::to_string(i));
            chk(ser[i], N / 2, cur[i] * cur[i], "edge " + std::to_string(i) + " twice in a row");
            for (size_t j = i + 1; j < m; j++)
                chk(joint[i][j], N, cur[i] * cur[j], "edges " + std::to_string(i) + " and " + std::to_string(j) + " together");
        }
        // Reproducibility, with other calls in between.
        pm::set_seed(seed);
        for (auto &f : first) {
            if (r.chance(0.1)) {
                try {
                    auto &mw = g.get_mwpm();
                    if (n)
                        decode(mw, {}, nobs);
                } catch (const std::invalid_argument &) {
                }
            }
            sample_once(ob, y);
            auto z = ob;
            z.insert(z.end(), y.begin(), y.end());
            evaluated();
            if (z != f)
                fail("not-reproducible", "the same seed gave a different sample: " + desc);
            count("samples reproduced");
        }
        double entropy = 0;
        for (auto p : cur)
            if (p > 0.05 && p < 0.95)
                entropy += 1;
        if (entropy >= 4) {
            // 25 samples of >= 4 free edges agree for another seed with probability below 2^-28 * ...
            pm::set_seed(seed + 1);
            bool all_same = true;
            for (auto &f : first) {
                sample_once(ob, y);
                auto z = ob;
                z.insert(z.end(), y.begin(), y.end());
                all_same = all_same && z == f;
            }
            if (all_same)
                fail("seed-ignored", "another seed gave the same samples: " + desc);
            count("other seeds differ");
        }
        if (m >= 2)
            nontrivial(mix(seed, std::hash<std::string>()(desc)));
        if (idx < 3)
            sample(desc.substr(0, 400));
    });
}
