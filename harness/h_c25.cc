// C25: separate decoders used from several threads (ThreadSanitizer) or interleaved in one thread (-DVH_INTERLEAVE).
#include <atomic>
#include <memory>
#include <thread>

#include "demgen.h"
#include "pmh.h"
#include "stim.h"
using namespace vh;

// A deterministic script on objects of its own. Each step appends what it observed to the log.
struct Script {
    Rng r;
    std::vector<std::string> log;
    std::vector<pm::Mwpm> m;  // one decoder
    std::unique_ptr<pm::UserGraph> ug;
    Graph g;
    size_t nobs = 0;
    int n = 0, steps, kind;
    bool corr = false;

    explicit Script(u64 seed) : r(seed) {
        kind = (int)r.below(3);
        steps = (int)r.range(4, 14);
    }
    void build() {
        GenOpts o;
        o.n_lo = 2;
        o.n_hi = 12;
        o.nobs = r.chance(0.15) ? 70 : 2;
        if (kind == 0) {
            g = gen_graph(r, o);
            n = g.n;
            nobs = g.nobs;
            m.push_back(build_mwpm(g));
        } else if (kind == 1) {
            DemGenOpts d;
            d.errors_lo = 3;
            d.errors_hi = 24;
            d.half = true;
            d.allow_zero = false;
            n = (int)r.range(2, 10);
            d.nobs = 2;
            nobs = 2;
            auto es = gen_dem_errors(r, d, n);
            stim::DetectorErrorModel model(dem_text(es, n, 2).c_str());
            corr = true;
            m.push_back(pm::detector_error_model_to_mwpm(model, pm::NUM_DISTINCT_WEIGHTS, true, true));
        } else {
            g = gen_graph(r, o);
            n = g.n;
            nobs = g.nobs;
            ug.reset(new pm::UserGraph(build_user_graph(g)));
        }
    }
    std::vector<u64> syndrome() {
        std::vector<u64> s;
        double p = r.unit();
        for (int i = 0; i < n; i++)
            if (r.chance(p))
                s.push_back(i);
        return s;
    }
    void one() {
        std::ostringstream o;
        int what = (int)r.below(7);
        bool c = corr && r.chance(0.5);
        auto syn = syndrome();
        try {
            if (ug && r.chance(0.3)) {
                size_t a = r.below(n + 1), b = r.below(n + 1);
                if (a != b) {
                    double w = (double)r.range(1, 20), p = r.unit();
                    std::vector<size_t> obs;
                    if (r.chance(0.5))
                        obs.push_back(r.below(nobs + 1));
                    ug->add_or_merge_edge(a, b, obs, w, p, (pm::MERGE_STRATEGY)r.range(1, 4));
                    n = (int)ug->get_num_nodes();
                    nobs = ug->get_num_observables();
                }
                o << "edit " << ug->get_num_edges() << " ";
            }
            pm::Mwpm &d = ug ? (what == 3 || r.chance(0.5) ? ug->get_mwpm_with_search_graph() : ug->get_mwpm()) : m[0];
            if (what == 0 || what == 1 || (what == 2 && nobs > 64)) {
                std::vector<uint8_t> obs(nobs, 0);
                pm::total_weight_int w = 0;
                pm::decode_detection_events(d, syn, obs.data(), w, c);
                o << "decode " << w << " " << vstr(obs);
            } else if (what == 2) {
                auto x = pm::decode_detection_events_for_up_to_64_observables(d, syn, c);
                o << "mask " << x.weight << " " << x.obs_mask;
            } else if (what == 3 || what == 4) {
                std::vector<int64_t> e;
                pm::Mwpm &d2 = ug ? ug->get_mwpm_with_search_graph() : d;
                if (c)
                    pm::decode_detection_events_to_edges_with_edge_correlations(d2, syn, e);
                else
                    pm::decode_detection_events_to_edges(d2, syn, e);
                o << "edges " << vstr(e);
            } else if (what == 5) {
                pm::decode_detection_events_to_match_edges(d, syn);
                o << "pairs";
                for (auto &e : d.flooder.match_edges)
                    o << " " << e.loc_from - &d.flooder.graph.nodes[0] << "-"
                      << (e.loc_to ? e.loc_to - &d.flooder.graph.nodes[0] : -1);
            } else if (ug) {
                std::vector<size_t> out;
                ug->get_nodes_on_shortest_path_from_source(r.below(n), r.below(n), out);
                o << "path " << vstr(out);
            } else {
                m[0].reset();
                o << "reset";
            }
        } catch (const std::invalid_argument &e) {
            o << "refused";
        }
        log.push_back(o.str());
    }
    bool step() {
        if (log.empty() && !n)
            build();
        if ((int)log.size() >= steps)
            return false;
        one();
        return true;
    }
};

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C25", [](Rng &r, u64 idx) {
        int k = (int)r.range(2, 4);
        std::vector<u64> seeds;
        for (int i = 0; i < k; i++)
            seeds.push_back(r.next());
        if (r.chance(0.3))
            seeds[1] = seeds[0];
        std::vector<std::vector<std::string>> alone;
        for (auto s : seeds) {
            Script x(s);
            while (x.step()) {
            }
            alone.push_back(x.log);
        }
        note("scripts " + vstr(seeds));
        std::vector<Script> xs;
        for (auto s : seeds)
            xs.emplace_back(s);
        u64 order_hash = mix(idx, k);
#ifdef VH_INTERLEAVE
        std::vector<int> live;
        for (int i = 0; i < k; i++)
            live.push_back(i);
        while (!live.empty()) {
            size_t j = r.below(live.size());
            order_hash = mix(order_hash, live[j]);
            if (!xs[live[j]].step())
                live.erase(live.begin() + j);
        }
        count("interleaved runs");
#else
        // Relaxed tickets record the order of steps without ordering the threads.
        std::atomic<u64> ticket{0};
        std::atomic<int> ready{0};
        std::vector<std::vector<u64>> tickets(k);
        std::vector<std::string> died(k);
        std::vector<std::thread> ts;
        u64 dseed = r.next();
        for (int i = 0; i < k; i++)
            ts.emplace_back([&, i]() {
                Rng d(dseed + i);
                ready++;
                while (ready.load() < k) {
                }
                try {
                    while (true) {
                        tickets[i].push_back(ticket.fetch_add(1, std::memory_order_relaxed));
                        if (!xs[i].step())
                            break;
                        if (d.chance(0.2))
                            std::this_thread::yield();
                        if (d.chance(0.1))
                            usleep((useconds_t)d.below(80));
                    }
                } catch (const std::exception &e) {
                    died[i] = e.what();
                }
            });
        for (auto &t : ts)
            t.join();
        for (int i = 0; i < k; i++)
            if (!died[i].empty())
                fail("died", "script failed when run concurrently: " + died[i]);
        std::vector<std::pair<u64, int>> ord;
        u64 switches = 0;
        for (int i = 0; i < k; i++)
            for (auto t : tickets[i])
                ord.push_back({t, i});
        std::sort(ord.begin(), ord.end());
        for (size_t i = 0; i < ord.size(); i++) {
            order_hash = mix(order_hash, ord[i].second);
            switches += i && ord[i].second != ord[i - 1].second;
        }
        count("threads started", k);
        count("switches between threads observed", switches);
        if (switches >= (u64)k)
            count("runs in which threads really overlapped");
#endif
        for (int i = 0; i < k; i++) {
            evaluated(alone[i].size());
            if (xs[i].log != alone[i]) {
                std::string d;
                for (size_t j = 0; j < std::min(xs[i].log.size(), alone[i].size()); j++)
                    if (xs[i].log[j] != alone[i][j]) {
                        d = "step " + std::to_string(j) + " gave {" + xs[i].log[j] + "}, alone {" + alone[i][j] + "}";
                        break;
                    }
                fail("interference", "a script's results depend on other decoders: " + d + " scripts " + vstr(seeds) + " #" + std::to_string(i));
            }
        }
        nontrivial(order_hash);
        if (idx < 4)
            sample(std::to_string(k) + " scripts, " + std::to_string(alone[0].size()) + " steps in the first: " + alone[0][0].substr(0, 60));
    });
}
