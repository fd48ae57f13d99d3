// C09: the event queue delivers every event exactly once in time order, across wrap-around, clear and reset.
#include "vh.h"
#include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
using namespace vh;

struct Key {
    i64 t;
    u64 id;
    int kind;
    bool operator<(const Key &o) const {
        return std::tie(t, id, kind) < std::tie(o.t, o.id, o.kind);
    }
};

template <bool V>
static void run(Rng &r, u64 idx) {
    static std::vector<char> arena(1 << 16);
    pm::radix_heap_queue<V> q;
    std::multiset<Key> model;
    i64 cur = 0;
    std::ostringstream log;
    auto ctx = [&]() {
        std::string s = log.str();
        return (s.size() > 1500 ? "..." + s.substr(s.size() - 1500) : s);
    };
    if (r.chance(0.7)) {  // start close to interesting times
        static const i64 bases[] = {0, 1, (i64)1 << 31, (i64)1 << 32, (i64)3 << 31, (i64)1 << 33, (i64)1 << 40, 255, 65535};
        i64 b = bases[r.below(9)] + r.range(-40, 40);
        cur = std::max<i64>(0, b);
        q.cur_time = cur;
        log << "start " << cur << ";";
    }
    u64 next_id = 1;
    int gapmode = (int)r.below(7);
    double ppush = 0.3 + 0.5 * r.unit();
    int steps = st().thorough ? (int)r.range(20, 800) : (int)r.range(20, 300);
    u64 hh = mix(gapmode, cur), wraps = 0;
    auto observe = [&]() {
        evaluated();
        if (q.size() != model.size())
            fail("size", "queue reports size " + std::to_string(q.size()) + " but holds " + std::to_string(model.size()) +
                             " events after " + ctx());
        if (q.empty() != model.empty())
            fail("size", "queue reports emptiness wrongly after " + ctx());
        if (q.cur_time != cur)
            fail("clock", "clock is " + std::to_string(q.cur_time) + ", last delivered event was at " +
                              std::to_string(cur) + " after " + ctx());
    };
    auto pop = [&]() {
        auto e = q.dequeue();
        if (model.empty()) {
            log << " pop-empty;";
            if (e.tentative_event_type != pm::NO_FLOOD_CHECK_EVENT)
                fail("phantom", "an empty queue delivered an event after " + ctx());
            count("pops-from-empty");
        } else {
            i64 tmin = model.begin()->t;
            log << " pop@" << tmin << ";";
            if (e.tentative_event_type == pm::NO_FLOOD_CHECK_EVENT)
                fail("lost", "a non-empty queue delivered nothing after " + ctx());
            u64 id = (u64)((char *)e.data_look_at_node - arena.data());
            Key k{tmin, id, (int)e.tentative_event_type};
            auto it = model.find(k);
            if (it == model.end() || e.time.value != (uint32_t)tmin)
                fail("order", "delivered event id " + std::to_string(id) + " time " + std::to_string(e.time.value) +
                                  " but the earliest pending time is " + std::to_string(tmin) + " after " + ctx());
            model.erase(it);
            if ((cur >> 31) != (tmin >> 31))
                wraps++;
            cur = tmin;
            count("pops");
        }
        observe();
    };
    for (int s = 0; s < steps; s++) {
        double x = r.unit();
        if (x < ppush) {
            i64 gap;
            switch (gapmode) {
                case 0:
                    gap = r.range(0, 3);
                    break;
                case 1:
                    gap = r.range(0, 100);
                    break;
                case 2:
                    gap = r.range(0, ((i64)1 << 31) - 1);
                    break;
                case 3:
                    gap = ((i64)1 << r.below(31)) + r.range(-1, 1);
                    break;
                case 4:
                    gap = r.chance(0.5) ? r.range(0, 5) : ((i64)1 << 31) - 1 - r.range(0, 5);
                    break;
                case 5:
                    gap = r.range(0, 33554430);
                    break;
                default:
                    gap = r.chance(0.4) ? 0 : (i64)1 << r.below(31);
            }
            gap = std::max<i64>(0, std::min<i64>(gap, ((i64)1 << 31) - 1));
            i64 t = cur + gap;
            u64 id = r.chance(0.1) && next_id > 1 ? next_id - 1 : next_id++;
            if (next_id >= arena.size())
                next_id = 1;
            char *p = arena.data() + id;
            int kind = (int)r.range(1, 3);
            log << " push@" << t << ";";
            pm::cyclic_time_int ct{t};
            if (kind == pm::LOOK_AT_NODE)
                q.enqueue(pm::FloodCheckEvent((pm::DetectorNode *)p, ct));
            else if (kind == pm::LOOK_AT_SHRINKING_REGION)
                q.enqueue(pm::FloodCheckEvent((pm::GraphFillRegion *)p, ct));
            else
                q.enqueue(pm::FloodCheckEvent((pm::SearchDetectorNode *)p, ct));
            model.insert({t, id, kind});
            count("pushes");
            hh = mix(hh, gap);
            observe();
        } else if (x < 0.985) {
            pop();
        } else if (x < 0.99) {
            log << " clear;";
            q.clear();
            model.clear();
            count("clears");
            observe();
            if (r.chance(0.5)) {  // what the decoder does before each decode
                q.cur_time = 0;
                cur = 0;
            }
        } else if (x < 0.995) {
            log << " reset;";
            q.reset();
            model.clear();
            cur = 0;
            count("resets");
            observe();
        } else if (V && cur > 0) {
            i64 back = r.range(1, std::min<i64>(cur, ((i64)1 << 31) - 2));
            bool threw = false;
            try {
                q.enqueue(pm::FloodCheckEvent((pm::DetectorNode *)arena.data(), pm::cyclic_time_int{cur - back}));
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            if (!threw)
                fail("validation", "validated queue accepted an event in the past after " + ctx());
            count("past-refused");
            observe();
        }
    }
    int guard = 0;
    while (!model.empty() && guard++ < 100000)
        pop();
    pop();
    if (wraps)
        count("half-cycle-crossings", wraps);
    nontrivial(hh);
    if (idx < 3)
        sample(ctx().substr(0, 600));
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C09", [](Rng &r, u64 idx) {
        if (r.chance(0.5))
            run<false>(r, idx);
        else
            run<true>(r, idx);
    });
}
