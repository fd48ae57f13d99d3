// C15: a detector error model loads to the graph it describes.
#include <cmath>
#include "demgen.h"
#include "pmh.h"
using namespace vh;

struct Gen {
    Rng &r;
    DemGenOpts o;
    std::string text;
    std::vector<DemError> flat;
    i64 max_det = -1, max_obs = -1;
    int budget = 60;
    explicit Gen(Rng &r) : r(r) {
    }
    struct Item {
        int kind;  // 0 error 1 shift 2 repeat 3 detector 4 observable
        DemError e;
        int k = 0;
        std::vector<Item> body;
    };
    std::vector<Item> block(int depth, int n) {
        std::vector<Item> out;
        int m = (int)r.range(1, depth == 0 ? 10 : 4);
        for (int i = 0; i < m; i++) {
            Item it;
            int w = (int)r.below(20);
            if (w < 13) {
                DemGenOpts q = o;
                q.errors_lo = q.errors_hi = 1;
                auto es = gen_dem_errors(r, q, n);
                if (es.empty())
                    continue;
                it.kind = 0;
                it.e = es[0];
                if (r.chance(undetectable_part) && it.e.comps.size() < 3) {
                    DemComponent c;
                    if (r.chance(0.7))
                        c.obs.push_back(r.below(2));
                    it.e.comps.insert(it.e.comps.begin() + r.below(it.e.comps.size() + 1), c);
                }
            } else if (w < 15) {
                it.kind = 1;
                it.k = (int)r.below(3);
            } else if (w < 17 && depth < 2) {
                it.kind = 2;
                it.k = (int)r.range(1, 3);
                it.body = block(depth + 1, n);
                if (it.body.empty())
                    continue;
            } else if (w < 19) {
                it.kind = 3;
                it.k = (int)r.below(n + 3);
            } else {
                it.kind = 4;
                it.k = (int)r.below(4);
            }
            out.push_back(it);
        }
        return out;
    }
    double undetectable_part = 0;
    // Detector numbers (and numbers of errors) beyond 16 bits.
    void make_huge(std::vector<Item> &b, int n) {
        static const int ks[] = {256, 65536, 65535, 65280, 32768};
        int done = 0, reps = 0;
        for (auto &it : b) {
            if (it.kind == 1 && done < 2) {
                it.k = ks[r.below(5)];
                done++;
            }
            if (it.kind == 2 && !reps) {
                bool nested = false;
                for (auto &x : it.body)
                    nested |= x.kind == 2;
                if (!nested) {
                    it.k = (int)r.range(20000, 40000);
                    reps = 1;
                }
            }
        }
        if (!done) {
            Item it;
            it.kind = 1;
            it.k = ks[r.below(5)];
            b.insert(b.begin() + r.below(b.size() + 1), it);
        }
        auto extra = block(2, n);
        b.insert(b.end(), extra.begin(), extra.end());
    }
    void render(const std::vector<Item> &b, int ind) {
        std::string pad(ind * 4, ' ');
        for (auto &it : b) {
            switch (it.kind) {
                case 0: {
                    std::string t = dem_error_text(it.e);
                    if (r.chance(0.1))
                        t = "ERROR" + t.substr(5);
                    text += pad + t + (r.chance(0.1) ? " # comment" : "") + "\n";
                    break;
                }
                case 1:
                    text += pad + "shift_detectors" + (r.chance(0.5) ? "(0, 1)" : "") + " " + std::to_string(it.k) + "\n";
                    break;
                case 2:
                    text += pad + "repeat " + std::to_string(it.k) + " {\n";
                    render(it.body, ind + 1);
                    text += pad + "}\n";
                    break;
                case 3:
                    text += pad + "detector" + (r.chance(0.5) ? "(1, 2)" : "") + " D" + std::to_string(it.k) + "\n";
                    break;
                default:
                    text += pad + "logical_observable L" + std::to_string(it.k) + "\n";
            }
        }
    }
    void flatten(const std::vector<Item> &b, int &shift) {
        for (auto &it : b) {
            switch (it.kind) {
                case 0: {
                    DemError e = it.e;
                    for (auto &c : e.comps) {
                        for (auto &d : c.dets) {
                            d += shift;
                            max_det = std::max<i64>(max_det, d);
                        }
                        for (auto x : c.obs)
                            max_obs = std::max<i64>(max_obs, (i64)x);
                    }
                    flat.push_back(e);
                    break;
                }
                case 1:
                    shift += it.k;
                    break;
                case 2:
                    for (int k = 0; k < it.k; k++)
                        flatten(it.body, shift);
                    break;
                case 3:
                    max_det = std::max<i64>(max_det, it.k + shift);
                    break;
                default:
                    max_obs = std::max<i64>(max_obs, it.k);
            }
        }
    }
};

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C15", [](Rng &r, u64 idx) {
        Gen g(r);
        g.o.n_lo = 1;
        g.o.n_hi = 6;
        g.o.nobs = r.chance(0.05) ? 70 : (int)r.below(4);
        g.o.half = r.chance(0.7);
        if (!g.o.half && r.chance(0.3))
            g.o.p_certain = r.unit() * 0.3;
        g.o.allow_hyper = r.chance(0.3);
        g.o.allow_undetectable = r.chance(0.5);
        g.undetectable_part = r.chance(0.2) ? 0.1 : 0;
        int n = (int)r.range(1, 6);
        g.o.pmode = (int)r.below(6);
        auto items = g.block(0, n);
        bool huge = idx % 601 == 3;
        if (huge)
            g.make_huge(items, n);
        g.render(items, 0);
        int shift = 0;
        g.flatten(items, shift);
        bool corr = r.chance(0.5);
        note((corr ? "correlations " : "plain ") + g.text);
        // What must be refused with correlations.
        bool want_refuse = false;
        if (corr)
            for (auto &e : g.flat) {
                if (e.p > 0.5)
                    want_refuse = true;
                if (e.p == 0)
                    continue;
                bool any_empty = false;
                for (auto &c : e.comps) {
                    if (c.dets.size() > 2)
                        want_refuse = true;
                    if (c.dets.empty())
                        any_empty = true;
                }
                if (any_empty && e.comps.size() > 1)
                    want_refuse = true;
            }
        pm::UserGraph ug;
        bool refused = false;
        stim::DetectorErrorModel dem(g.text.c_str());
        try {
            ug = pm::detector_error_model_to_user_graph(dem, corr, pm::NUM_DISTINCT_WEIGHTS);
        } catch (const std::invalid_argument &) {
            refused = true;
        }
        evaluated();
        if (refused != want_refuse)
            fail("refusal", std::string(refused ? "refused" : "accepted") + (corr ? " with" : " without") + " correlations: " + g.text);
        if (refused) {
            count("models refused");
            return;
        }
        RefDem ref(g.flat);
        auto bad = [&](const std::string &m) {
            fail("model", m + (corr ? " (with" : " (without") + " correlations) from:\n" + g.text);
        };
        if ((i64)ug.get_num_nodes() != g.max_det + 1)
            bad("number of nodes is " + std::to_string(ug.get_num_nodes()) + ", the model has " + std::to_string(g.max_det + 1) + " detectors");
        if ((i64)ug.get_num_observables() != g.max_obs + 1)
            bad("number of observables is " + std::to_string(ug.get_num_observables()) + ", the model has " + std::to_string(g.max_obs + 1));
        if (ug.get_num_edges() != ref.edges.size())
            bad("number of edges is " + std::to_string(ug.get_num_edges()) + ", expected " + std::to_string(ref.edges.size()));
        if (!ug.get_boundary().empty())
            bad("boundary nodes appeared");
        std::set<std::pair<int, int>> seen;
        bool merged = ref.edges.size() < g.flat.size();
        for (auto &e : ug.edges) {
            std::pair<int, int> k = e.node2 == SIZE_MAX
                                        ? std::make_pair(-1, (int)e.node1)
                                        : std::make_pair((int)std::min(e.node1, e.node2), (int)std::max(e.node1, e.node2));
            auto it = ref.index.find(k);
            if (it == ref.index.end())
                bad("edge " + std::to_string(k.first) + "-" + std::to_string(k.second) + " should not exist");
            if (!seen.insert(k).second)
                bad("edge " + std::to_string(k.first) + "-" + std::to_string(k.second) + " exists twice");
            auto &x = ref.edges[it->second];
            std::string nm = "edge " + std::to_string(k.first) + "-" + std::to_string(k.second);
            if (!(std::abs(e.error_probability - x.p) <= 1e-12))
                bad(nm + " has probability " + std::to_string(e.error_probability) + ", expected " + std::to_string(x.p));
            double w = std::log((1 - x.p) / x.p);
            // Next to probability 1 the reference itself loses digits.
            double tol = g.o.p_certain > 0 ? 1e-5 : 1e-9 * std::max(1.0, std::abs(w));
            if (std::isinf(w))
                count("edges of probability 0 or 1 after merging");
            if (std::isinf(w) ? e.weight != w : !(std::abs(e.weight - w) <= tol))
                bad(nm + " weighs " + std::to_string(e.weight) + ", expected " + std::to_string(w));
            auto a = e.observable_indices, b = x.obs;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            if (a != b)
                bad(nm + " flips " + vstr(a) + ", expected " + vstr(b));
            count("edges judged");
            evaluated();
        }
        count(corr ? "models with correlations" : "models without correlations");
        if (huge && g.max_det > 65536)
            count("models with more than 65536 detectors");
        if (huge && g.flat.size() > 65536)
            count("models with more than 65536 errors");
        if (merged)
            nontrivial(std::hash<std::string>()(g.text) ^ corr);
        // The decoder built directly from the model uses the same graph.
        if (ug.get_num_nodes() && r.chance(0.5)) {
            try {
                auto m = pm::detector_error_model_to_mwpm(dem, pm::NUM_DISTINCT_WEIGHTS, r.chance(0.5), corr);
                size_t nobs = ug.get_num_observables();
                for (int k = 0; k < 3; k++) {
                    std::vector<u64> syn;
                    for (size_t i = 0; i < ug.get_num_nodes(); i++)
                        if (r.chance(huge ? 0.0001 : 0.4))
                            syn.push_back(i);
                    auto a = decode(m, syn, nobs), b = decode(ug.get_mwpm(), syn, nobs);
                    if (a.ok != b.ok || a.weight != b.weight || a.obs != b.obs)
                        bad("the decoder loaded from the model and the graph loaded from it disagree on " + vstr(syn));
                    evaluated();
                    count("decodes compared");
                }
            } catch (const std::invalid_argument &e) {
                bool infinite = false;  // heavier than any limit
                for (auto &x : ref.edges)
                    infinite |= x.p == 0 || x.p == 1;
                if (infinite) {
                    count("models with infinite weights refused by the decoder");
                    return;
                }
                fail("refusal", std::string("decoder construction refused: ") + e.what() + " for " + g.text);
            }
        }
        if (idx < 3)
            sample(g.text.substr(0, 400));
    });
}
