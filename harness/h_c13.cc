// C13: integer weights are handled exactly, other weights within half a discretisation step per edge; too large weights
// are refused.
#include "pmh.h"
using namespace vh;

static const double LIMIT = 16777215.0;

struct RealGraph {
    Graph g;  // topology; g.edges[i].w unused until quantised
    std::vector<double> w;
    std::string str() const {
        std::ostringstream o;
        o.precision(17);
        o << "n=" << g.n << " edges=[";
        for (size_t i = 0; i < w.size(); i++)
            o << (i ? " " : "") << g.edges[i].u << "-" << g.edges[i].v << ":" << w[i];
        o << "]";
        return o.str();
    }
};

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C13", [](Rng &r, u64 idx) {
        RealGraph rg;
        GenOpts o;
        o.nobs = 1;
        bool big = r.chance(0.1);
        if (big) {
            o.n_lo = 12;
            o.n_hi = 40;
            o.max_edges = 120;
        } else {
            o.n_hi = 9;
        }
        rg.g = gen_graph(r, o);
        Graph &g = rg.g;
        int mode = (int)r.below(9);
        double lambda = std::pow(10.0, (double)r.range(-8, 5)) * (0.5 + r.unit());
        double pneg = o.allow_negative && r.chance(0.35) ? 0.4 : 0;
        for (size_t i = 0; i < g.edges.size(); i++) {
            double x;
            switch (mode) {
                case 0:  // integers
                    x = (double)r.range(0, 30);
                    break;
                case 1:  // large integers
                    x = (double)r.range(16777215 - 40, 16777215);
                    break;
                case 2:  // any reals
                    x = r.unit() * lambda;
                    break;
                case 3: {  // log-likelihood weights
                    double p = std::pow(10.0, -r.unit() * 6) * 0.5;
                    x = std::log((1 - p) / p);
                    break;
                }
                case 4:  // near ties, a few steps apart
                    x = lambda * (1.0 - (double)r.range(0, 6) * 0.37 / LIMIT);
                    break;
                case 5:  // integers scaled by a constant
                    x = (double)r.range(0, 9) * lambda;
                    break;
                case 6:  // integers and one fraction
                    x = (double)r.range(0, 1000) + (i == 0 ? 0.5 : 0);
                    break;
                case 7:  // mixed integers, small and near the limit
                    x = r.chance(0.5) ? (double)r.range(0, 3) : (double)r.range(16777213, 16777215);
                    break;
                default:  // wide dynamic range
                    x = std::pow(2.0, -r.unit() * 22) * lambda;
            }
            if (std::abs(x) > LIMIT)
                x = LIMIT;
            rg.w.push_back(r.chance(pneg) ? -x : x);
        }
        double mx = 0;
        bool integral = true;
        for (auto x : rg.w) {
            mx = std::max(mx, std::abs(x));
            if (x != std::round(x))
                integral = false;
        }
        if (mx < 1e-290 && !integral)
            return;
        pm::weight_int nd = pm::NUM_DISTINCT_WEIGHTS;
        bool custom = r.chance(0.15);
        if (custom)
            nd = (pm::weight_int)r.range(2, 5000);
        double step = integral ? 0 : mx / (double)(nd - 1);
        // Quantised copy for the oracle: 2^36 units per max weight for reals, exact for integers.
        double unit = integral ? 1.0 : std::ldexp(1.0, 36) / mx;
        for (size_t i = 0; i < g.edges.size(); i++)
            g.edges[i].w = (i64)std::llround((long double)rg.w[i] * (long double)unit);
        double slack = integral ? 0 : ((double)g.edges.size() + 2) * 2.0 / unit + 1e-9 * step;
        pm::UserGraph ug(g.n, g.nobs);
        for (size_t i = 0; i < g.edges.size(); i++) {
            auto &e = g.edges[i];
            if (e.v < 0)
                ug.add_or_merge_boundary_edge(e.u, e.obs, rg.w[i], -1);
            else
                ug.add_or_merge_edge(e.u, e.v, e.obs, rg.w[i], -1);
        }
        note(rg.str());
        // Refusal of weights above the limit, on a copy of the topology.
        if (!g.edges.empty() && r.chance(0.3)) {
            size_t k = r.below(g.edges.size());
            static const double too[] = {16777215.5, 16777216.0, 16777215.0000001, 1e9, 1e300,
                                         std::numeric_limits<double>::infinity(), std::nan("")};
            double bad = too[r.below(7)];
            if (r.chance(0.3))
                bad = -bad;
            auto &e = g.edges[k];
            auto put = [&](double w) {
                if (e.v < 0)
                    ug.add_or_merge_boundary_edge(e.u, e.obs, w, -1, pm::REPLACE);
                else
                    ug.add_or_merge_edge(e.u, e.v, e.obs, w, -1, pm::REPLACE);
            };
            put(bad);
            for (int rep = 0; rep < 2; rep++) {
                bool refused = false;
                try {
                    if (r.chance(0.5))
                        ug.get_mwpm();
                    else
                        ug.get_mwpm_with_search_graph();
                } catch (const std::invalid_argument &) {
                    refused = true;
                }
                evaluated();
                if (!refused)
                    fail("too-large", "an edge weight of " + std::to_string(bad) + " was accepted in " + rg.str());
                count("too large weights refused");
            }
            put(rg.w[k]);
        }
        pm::Mwpm own;
        if (custom)
            own = ug.to_mwpm(nd, true);
        pm::Mwpm &m = custom ? own : ug.get_mwpm_with_search_graph();
        double c2 = m.flooder.graph.normalising_constant;
        MatchOracle mo(g, 1);
        int shots = big ? 3 : 6;
        for (int k = 0; k < shots; k++) {
            auto syn = gen_error_syndrome(r, g, k == 0 ? 0.5 : r.unit() * 0.6);
            std::string ctx = rg.str() + " syndrome=" + vstr(syn) + " distinct=" + std::to_string(nd);
            note(ctx);
            std::vector<uint8_t> ob(2, 0);
            pm::total_weight_int wi = 0;
            std::vector<int64_t> edges;
            pm::decode_detection_events(m, syn, ob.data(), wi, false);
            pm::decode_detection_events_to_edges(m, syn, edges);
            double reported = (double)wi / c2;
            i64 best = mo.min_weight(syn);
            if (best >= INF)
                fail("oracle", "infeasible");
            double opt = (double)best / unit;
            // True weight of the returned solution. Self-loops do not occur in this workload.
            long double truew = 0;
            std::map<std::pair<i64, i64>, double> wt;
            for (size_t i = 0; i < g.edges.size(); i++) {
                auto &e = g.edges[i];
                wt[{e.u, e.v}] = rg.w[i];
                if (e.v >= 0)
                    wt[{e.v, e.u}] = rg.w[i];
            }
            for (size_t i = 0; i + 1 < edges.size(); i += 2) {
                auto it = wt.find({edges[i], edges[i + 1]});
                if (it == wt.end())
                    it = wt.find({edges[i + 1], edges[i]});
                if (it == wt.end())
                    fail("edge", "returned edge is not in the graph: " + ctx);
                truew += it->second;
            }
            size_t ns = edges.size() / 2;
            evaluated();
            char buf[200];
            if (integral) {
                if (reported != opt || (double)truew != opt) {
                    snprintf(buf, sizeof buf, "integer weights: reported %.17g, solution weighs %.17g, minimum is %.17g; ", reported, (double)truew, opt);
                    fail("integer-exact", buf + ctx);
                }
                count("integer weight decodes exact");
            } else {
                double b_sol = 0.5 * step * (double)g.edges.size() + slack;
                double b_rep = 0.5 * step * (double)ns + slack;
                if ((double)truew - opt > b_sol || opt - (double)truew > slack) {
                    snprintf(buf, sizeof buf, "solution weighs %.17g, minimum %.17g, allowed difference %.3g; ", (double)truew, opt, b_sol);
                    fail("solution-bound", buf + ctx);
                }
                if (std::abs(reported - (double)truew) > b_rep + 1e-12 * std::abs((double)truew)) {
                    snprintf(buf, sizeof buf, "reported %.17g, solution weighs %.17g, allowed difference %.3g; ", reported, (double)truew, b_rep);
                    fail("report-bound", buf + ctx);
                }
                count("real weight decodes within bound");
            }
            count("weight mode " + std::to_string(mode));
            if (syn.size() >= 2)
                nontrivial(mix(g.hash(), mix(syn[0], syn.size() * 100 + syn.back())));
            if (idx < 4 && syn.size() >= 2) {
                snprintf(buf, sizeof buf, "reported %.12g true %.12g minimum %.12g step %.3g", reported, (double)truew, opt, step);
                sample(buf);
            }
        }
    });
}
