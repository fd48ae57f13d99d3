// C22 / C23 (-DVH_STRUCTURE): monitors run after every step of every decode.
#ifdef VH_NO_INTERNALS
#include "pmh.h"
#else
#include "inv.h"
#endif
using namespace vh;

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C22", [](Rng &r, u64 idx) {
        GenOpts o;
        o.allow_negative = false;
        int big = (int)r.below(12);
        o.nobs = (int)r.range(1, 3);
        if (big == 0) {
            o.n_lo = 25;
            o.n_hi = 60;
            o.max_edges = 160;
            o.nobs = 1;
        } else if (big <= 4) {
            o.n_lo = 9;
            o.n_hi = 18;
            o.max_edges = 90;
            o.nobs = 2;
        } else {
            o.n_lo = 2;
            o.n_hi = 9;
        }
        if (r.chance(0.25))
            o.family = 7;
        Graph g = gen_graph(r, o);
        auto m = build_mwpm(g, false);
        MatchOracle mo(g);
        int shots = big == 0 ? 2 : 4;
        for (int k = 0; k < shots; k++) {
            std::vector<u64> syn = r.chance(0.3) ? gen_syndrome(r, g, 0.8) : r.chance(0.5) ? gen_syndrome(r, g) : gen_error_syndrome(r, g, 0.4);
            std::string ctx = g.str() + " events=" + vstr(syn);
            note(ctx);
            bool feas = mo.feasible(syn);
#ifdef VH_NO_INTERNALS
            auto out = decode(m, syn, g.nobs);
            evaluated();
            if (out.ok != feas || (feas && out.weight != mo.min_weight(syn)))
                fail("weight", "wrong answer: " + ctx);
            count("decodes judged from outside only");
            nontrivial(mix(g.hash(), syn.size() * 100 + k));
#else
            Monitor mon(g, m, syn, ctx);
            m.flooder.queue.cur_time = 0;
            for (auto e : syn)
                m.create_detection_event(&m.flooder.graph.nodes[e]);
            std::map<int, u64> kinds;
            u64 tentative = 0;
            auto look = [&](bool fin) {
#ifdef VH_STRUCTURE
                mon.structure(fin);
#else
                (void)fin;
                mon.flooding();
#endif
            };
            look(false);
            u64 guard = 0;
            u64 hh = g.hash();
            while (true) {
#ifdef VH_STRUCTURE
                auto ev = m.flooder.run_until_next_mwpm_notification();
                bool over = ev.event_type == pm::NO_EVENT;
#else
                // One flooding step at a time.
                auto t = m.flooder.dequeue_valid();
                bool over = t.tentative_event_type == pm::NO_FLOOD_CHECK_EVENT;
                pm::MwpmEvent ev = pm::MwpmEvent::no_event();
                if (!over) {
                    mon.flooding();
                    ev = m.flooder.process_tentative_event_returning_mwpm_event(t);
                    tentative++;
                }
#endif
                mon.steps++;
                if (over) {
                    look(feas);
                    break;
                }
                kinds[ev.event_type]++;
                hh = mix(hh, ev.event_type * 7919 + (u64)m.flooder.queue.cur_time);
                if (ev.event_type != pm::NO_EVENT)
                    m.process_event(ev);
                look(false);
                if (++guard > 200000)
                    fail("endless", "more than 200000 events: " + ctx);
            }
#ifdef VH_STRUCTURE
            if (!feas) {
                i64 live_nodes = (i64)m.node_arena.allocated.size() - (i64)m.node_arena.available.size();
                if (live_nodes == 0)
                    fail("unfinished", "an impossible syndrome was matched completely: " + ctx);
            }
            count("blossoms inspected", mon.blossoms_seen);
            if (mon.max_depth >= 2)
                count("decodes with nested blossoms");
            if (mon.tree_depth >= 2)
                count("decodes with trees of depth >= 2");
#else
            mon.flooding_end();
            count("flooding steps inspected", tentative);
#endif
            count("decodes");
            count("events region-hit-region", kinds[pm::REGION_HIT_REGION]);
            count("events region-hit-boundary", kinds[pm::REGION_HIT_BOUNDARY]);
            count("events blossom-shatter", kinds[pm::BLOSSOM_SHATTER]);
            if (syn.size() >= 3)
                nontrivial(hh);
            if (idx < 4 && syn.size() >= 3)
                sample(g.family + " n=" + std::to_string(g.n) + " events=" + std::to_string(syn.size()) + " steps=" + std::to_string(mon.steps) +
                       " end time=" + std::to_string(m.flooder.queue.cur_time));
            if (r.chance(0.5)) {
                m.reset();
            } else {
                m = build_mwpm(g, false);
            }
#endif
        }
    });
}
