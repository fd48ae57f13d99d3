// C07: correlated decoding = minimum-weight decoding with the weights implied by a first-pass minimum-weight correction;
// the weights are restored afterwards; models loaded without correlations refuse it.
#include "demgen.h"
#include "giant.h"
#include "pmh.h"
using namespace vh;

struct Ref {
    int n, m;
    std::vector<RefEdge> edges;
    std::vector<double> w;
    std::vector<u64> det, obs;
    std::vector<std::vector<std::pair<int, double>>> implied;
    double maxabs = 0;
};

static Ref make_ref(const std::vector<DemError> &es, int n) {
    RefDem d(es);
    Ref r;
    r.n = n;
    r.edges = d.edges;
    r.m = (int)d.edges.size();
    r.implied.resize(r.m);
    for (auto &e : d.edges) {
        r.w.push_back(std::log((1 - e.p) / e.p));
        r.maxabs = std::max(r.maxabs, std::abs(r.w.back()));
        u64 t = (u64)1 << e.u;
        if (e.v >= 0)
            t ^= (u64)1 << e.v;
        r.det.push_back(t);
        u64 ob = 0;
        for (auto x : e.obs)
            if (x < 64)
                ob ^= (u64)1 << x;
        r.obs.push_back(ob);
    }
    for (auto &j : d.joint) {
        int a = (int)d.index[j.first.first], b = (int)d.index[j.first.second];
        if (a == b)
            continue;
        double q = std::min(0.5, j.second / d.edges[a].p);
        double iw = std::log((1 - q) / q);
        r.maxabs = std::max(r.maxabs, std::abs(iw));
        r.implied[a].push_back({b, iw});
    }
    return r;
}

static std::vector<std::vector<pm::weight_int>> snapshot(pm::Mwpm &m) {
    std::vector<std::vector<pm::weight_int>> s;
    for (auto &n : m.flooder.graph.nodes)
        s.push_back(n.neighbor_weights);
    for (auto &n : m.search_flooder.graph.nodes)
        s.push_back(n.neighbor_weights);
    return s;
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C07", [](Rng &r, u64 idx) {
        DemGenOpts o;
        o.n_lo = 2;
        o.n_hi = 7;
        o.errors_lo = 2;
        o.errors_hi = 14;
        o.half = true;
        o.p_multi = 0.7;
        o.max_pairs = (int)r.range(4, 12);
        o.allow_undetectable = false;
        bool many = r.chance(0.15);
        o.nobs = many ? 3 : (int)r.range(1, 3);
        int n = (int)r.range(o.n_lo, o.n_hi);
        auto es = gen_dem_errors(r, o, n);
        if (r.chance(0.6))  // generic probabilities: unique optima
            for (auto &e : es)
                if (e.p > 0)
                    e.p = 0.001 + 0.4 * r.unit() * r.unit();
        // Sometimes the same model at detector indices spread beyond 16 bits.
        bool spread = idx % 211 == 5;
        Scatter sc;
        for (int i = 0; i < n; i++)
            sc.f.push_back(i);
        sc.n = n;
        if (spread) {
            sc = gen_scatter(r, n, r.chance(0.5) ? 256 : 65536);
            count("models with scattered detector indices");
        }
        auto placed = es;
        for (auto &e : placed)
            for (auto &c : e.comps)
                for (auto &x : c.dets)
                    x = (int)sc.f[x];
        std::map<i64, i64> back{{-1, -1}};
        for (int i = 0; i < n; i++)
            back[(i64)sc.f[i]] = i;
        std::string text = dem_text(placed, sc.n, many ? 70 : o.nobs);
        note(text);
        Ref ref = make_ref(es, n);
        size_t nobs = many ? 70 : o.nobs;
        stim::DetectorErrorModel d(text.c_str());
        pm::UserGraph ug;
        pm::Mwpm own;
        pm::Mwpm *m;
        if (r.chance(0.5)) {
            ug = pm::detector_error_model_to_user_graph(d, true, pm::NUM_DISTINCT_WEIGHTS);
            m = &ug.get_mwpm_with_search_graph();
        } else {
            own = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, true, true);
            m = &own;
        }
        double scale = m->flooder.graph.normalising_constant;  // integer units per unit of weight
        double unit = scale > 0 ? 1.0 / scale : 0;
        double tol = unit * 4 * (ref.m + 2) + 1e-9 * (1 + ref.maxabs) * (ref.m + 1);
        if (ref.m > 0 && ref.maxabs > 0 && unit > 0.51 && ref.maxabs > 0.6) {
            bool integral = true;
            for (double x : ref.w)
                integral &= (std::round(x) == x);
            if (!integral)
                fail("scale", "weights were discretised coarsely: " + text);
        }
        // Group all edge subsets by syndrome.
        std::vector<std::vector<int>> by((size_t)1 << n);
        std::vector<double> w1((size_t)1 << ref.m, 0);
        std::vector<u64> obsm((size_t)1 << ref.m, 0), detm((size_t)1 << ref.m, 0);
        for (size_t S = 0; S < w1.size(); S++) {
            if (S) {
                int b = __builtin_ctzll(S);
                size_t P = S & (S - 1);
                w1[S] = w1[P] + ref.w[b];
                obsm[S] = obsm[P] ^ ref.obs[b];
                detm[S] = detm[P] ^ ref.det[b];
            }
            by[detm[S]].push_back((int)S);
        }
        auto before = snapshot(*m);
        std::vector<u64> syns;
        for (u64 s = 0; s < ((u64)1 << n); s++)
            syns.push_back(s);
        for (size_t i = syns.size(); i > 1; i--)
            std::swap(syns[i - 1], syns[r.below(i)]);
        if (syns.size() > (spread ? 8 : 24))
            syns.resize(spread ? 8 : 24);
        std::vector<u64> done;
        bool any_changed = false;
        for (u64 s : syns) {
            auto &cand = by[s];
            std::vector<uint64_t> dets;
            for (int i = 0; i < n; i++)
                if ((s >> i) & 1)
                    dets.push_back(sc.f[i]);
            int mode = (int)r.below(3);
            if (mode == 1 && many)
                mode = 0;
            std::string ctx = " syndrome " + vstr(dets) + " model:\n" + text;
            note("mode " + std::to_string(mode) + ctx);
            bool ok = true;
            double weight = 0;
            u64 obs = 0;
            std::vector<int64_t> el;
            try {
                if (mode == 0) {
                    std::vector<uint8_t> ob(nobs, 0);
                    pm::total_weight_int w = 0;
                    pm::decode_detection_events(*m, dets, ob.data(), w, true);
                    weight = (double)w * unit;
                    for (size_t i = 0; i < nobs; i++)
                        if (ob[i]) {
                            if (i >= 64)
                                fail("obs", "an observable no edge flips was predicted" + ctx);
                            obs |= (u64)1 << i;
                        }
                } else if (mode == 1) {
                    auto res = pm::decode_detection_events_for_up_to_64_observables(*m, dets, true);
                    weight = (double)res.weight * unit;
                    obs = res.obs_mask;
                } else {
                    pm::decode_detection_events_to_edges_with_edge_correlations(*m, dets, el);
                }
            } catch (const std::invalid_argument &e) {
                ok = false;
            }
            if (snapshot(*m) != before)
                fail("restore", "edge weights differ after a correlated decode" + ctx);
            evaluated();
            if (cand.empty()) {
                count("infeasible");
                if (ok)
                    fail("accepted", "correlated decode answered a syndrome no edge set reproduces" + ctx);
                continue;
            }
            if (!ok)
                fail("rejected", "correlated decode rejected an explainable syndrome" + ctx);
            u64 chosen = 0;
            if (mode == 2) {
                u64 eff = 0;
                for (auto &x : el) {
                    if (!back.count(x))
                        fail("edges", "returned edge is not in the model" + ctx);
                    x = back[x];
                }
                for (size_t i = 0; i + 1 < el.size(); i += 2) {
                    i64 a = std::min(el[i], el[i + 1]), b = std::max(el[i], el[i + 1]);
                    int f = -1;
                    for (int k = 0; k < ref.m; k++) {
                        i64 ea = ref.edges[k].v < 0 ? -1 : std::min(ref.edges[k].u, ref.edges[k].v);
                        i64 eb = ref.edges[k].v < 0 ? ref.edges[k].u : std::max(ref.edges[k].u, ref.edges[k].v);
                        if (ea == a && eb == b)
                            f = k;
                    }
                    if (f < 0 || ((chosen >> f) & 1))
                        fail("edges", "returned edge is not in the model or repeated" + ctx);
                    chosen |= (u64)1 << f;
                    eff ^= ref.det[f];
                }
                if (eff != s)
                    fail("edges", "correlated correction does not reproduce the syndrome" + ctx);
            }
            double best1 = 1e300;
            for (int S : cand)
                best1 = std::min(best1, w1[S]);
            bool accepted = false;
            double seen_best2 = 0, plain = best1;
            int nfirst = 0;
            for (int S1 : cand) {
                if (w1[S1] > best1 + tol)
                    continue;
                nfirst++;
                std::vector<double> w2 = ref.w;
                for (int e = 0; e < ref.m; e++)
                    if ((S1 >> e) & 1)
                        for (auto &im : ref.implied[e])
                            w2[im.first] = std::min(w2[im.first], im.second);
                if (w2 != ref.w)
                    any_changed = true;
                double best2 = 1e300, with_obs = 1e300, of_chosen = 0;
                bool within_rounding = false;  // some solution's weight, each edge rounded to the nearest step
                for (int S : cand) {
                    double t = 0;
                    for (int x = S; x; x &= x - 1)
                        t += w2[__builtin_ctz(x)];
                    best2 = std::min(best2, t);
                    if (obsm[S] == obs) {
                        with_obs = std::min(with_obs, t);
                        if (std::abs(weight - t) <=
                            1.001 * unit * __builtin_popcount(S) + 1e-12 * (1 + ref.maxabs) * (ref.m + 1))
                            within_rounding = true;
                    }
                    if ((u64)S == chosen)
                        of_chosen = t;
                }
                seen_best2 = best2;
                if (mode == 2) {
                    if (of_chosen <= best2 + tol)
                        accepted = true;
                } else if (std::abs(weight - best2) <= tol && with_obs <= best2 + tol && within_rounding) {
                    accepted = true;
                }
                if (accepted)
                    break;
            }
            if (!accepted) {
                std::ostringstream msg;
                msg.precision(12);
                msg << "correlated result is not optimal for the weights implied by any minimum-weight first pass: ";
                if (mode == 2)
                    msg << "edges " << vstr(el);
                else
                    msg << "weight " << weight << " obs " << obs;
                msg << "; last candidate optimum " << seen_best2 << ", uncorrelated optimum " << plain << " (" << nfirst
                    << " first-pass solutions)";
                fail("correlated", msg.str() + ctx);
            }
            if (nfirst == 1)
                count("unique-first-pass");
            if (std::abs(seen_best2 - plain) > 1e-6) {
                count("reweighting-changed-the-optimum");
                nontrivial(mix(mix(s, idx), st().seed) ^ ((u64)mode << 60));
            }
            done.push_back(s);
        }
        // Uncorrelated decoding afterwards is exactly what a fresh decoder gives.
        pm::Mwpm fresh = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, true, true);
        for (u64 s : done) {
            std::vector<u64> dets;
            for (int i = 0; i < n; i++)
                if ((s >> i) & 1)
                    dets.push_back(sc.f[i]);
            auto a = decode(*m, dets, nobs), b = decode(fresh, dets, nobs);
            evaluated();
            if (a.ok != b.ok || a.weight != b.weight || a.obs != b.obs)
                fail("restore", "plain decode after correlated decodes differs from a fresh decoder, syndrome " +
                                    vstr(dets) + " model:\n" + text);
        }
        if (any_changed)
            count("models-with-reweighting");
        // Without correlations at load time it is refused and nothing is disturbed.
        if (r.chance(0.3)) {
            pm::Mwpm plain = pm::detector_error_model_to_mwpm(d, pm::NUM_DISTINCT_WEIGHTS, true, false);
            for (size_t i = 0; i < done.size() && i < 6; i++) {
                std::vector<uint64_t> dets;
                for (int k = 0; k < n; k++)
                    if ((done[i] >> k) & 1)
                        dets.push_back(sc.f[k]);
                bool refused = false;
                try {
                    int mode = (int)r.below(3);
                    if (mode == 1 && many)
                        mode = 0;
                    std::vector<uint8_t> ob(nobs, 0);
                    pm::total_weight_int w = 0;
                    std::vector<int64_t> e;
                    if (mode == 0)
                        pm::decode_detection_events(plain, dets, ob.data(), w, true);
                    else if (mode == 1)
                        pm::decode_detection_events_for_up_to_64_observables(plain, dets, true);
                    else
                        pm::decode_detection_events_to_edges_with_edge_correlations(plain, dets, e);
                } catch (const std::invalid_argument &) {
                    refused = true;
                }
                evaluated();
                count("refusals");
                if (!refused)
                    fail("not-refused", "correlated decoding of a model loaded without correlations was answered, syndrome " +
                                            vstr(dets) + " model:\n" + text);
                auto a = decode(plain, std::vector<u64>(dets.begin(), dets.end()), nobs);
                double best1 = 1e300;
                for (int S : by[done[i]])
                    best1 = std::min(best1, w1[S]);
                double sc = plain.flooder.graph.normalising_constant;
                if (!a.ok || std::abs((double)a.weight / sc - best1) > 4.0 * (ref.m + 2) / sc + 1e-9 * (1 + ref.maxabs))
                    fail("refusal-disturbs", "plain decode after a refused correlated decode is wrong, syndrome " +
                                                 vstr(dets) + " model:\n" + text);
            }
        }
        if (idx < 3)
            sample(text);
    });
}
