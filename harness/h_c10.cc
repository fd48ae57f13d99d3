// C10: an entity using an event tracker is woken exactly at the time it currently desires, and at no other time.
#include "vh.h"
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
using namespace vh;

template <bool V>
static void run(Rng &r, u64 idx) {
    static std::vector<char> arena(64);
    pm::radix_heap_queue<V> q;
    int k = (int)r.range(1, 8);
    std::vector<pm::QueuedEventTracker> tr(k);
    std::vector<i64> want(k, -1);
    std::vector<u64> requests(k, 0), accepts(k, 0);
    std::ostringstream log;
    auto ctx = [&]() {
        std::string s = log.str();
        return (s.size() > 1500 ? "..." + s.substr(s.size() - 1500) : s);
    };
    i64 cur = 0;
    if (r.chance(0.6)) {
        static const i64 bases[] = {(i64)1 << 31, (i64)1 << 32, (i64)3 << 31, (i64)1 << 40};
        cur = bases[r.below(4)] - r.range(0, 60);
        q.cur_time = cur;
        log << "start " << cur << ";";
    }
    int mode = (int)r.below(5);
    u64 pushes_allowed = 0, hh = mix(cur, mode);
    auto gap = [&]() -> i64 {
        switch (mode) {
            case 0:
                return r.range(0, 4);
            case 1:
                return r.range(0, 40);
            case 2:
                return r.chance(0.3) ? 0 : ((i64)1 << r.below(30));
            case 3:
                return r.range(0, 33554430);
            default:
                return r.chance(0.5) ? r.range(0, 3) : r.range(0, ((i64)1 << 30));
        }
    };
    auto request = [&](int i, i64 t) {
        log << " " << i << "wants@" << t << ";";
        want[i] = t;
        requests[i]++;
        pushes_allowed++;
        tr[i].set_desired_event(
            pm::FloodCheckEvent((pm::DetectorNode *)(arena.data() + i), pm::cyclic_time_int{t}), q);
        hh = mix(hh, i * 977 + (t - cur));
        count("requests");
    };
    auto pop = [&]() {
        auto e = q.dequeue();
        if (e.tentative_event_type == pm::NO_FLOOD_CHECK_EVENT) {
            for (int i = 0; i < k; i++)
                if (want[i] >= 0)
                    fail("missed", "entity " + std::to_string(i) + " desires a wake-up at " + std::to_string(want[i]) +
                                       " but nothing is queued; " + ctx());
            return false;
        }
        i64 t = q.cur_time;
        if (t < cur)
            fail("clock", "time went backwards; " + ctx());
        cur = t;
        for (int i = 0; i < k; i++)
            if (want[i] >= 0 && want[i] < cur)
                fail("missed", "entity " + std::to_string(i) + " desired a wake-up at " + std::to_string(want[i]) +
                                   " but time is already " + std::to_string(cur) + "; " + ctx());
        int i = (int)((char *)e.data_look_at_node - arena.data());
        bool acc = tr[i].dequeue_decision(e, q);
        evaluated();
        log << " pop" << i << "@" << cur << (acc ? "+" : "-") << ";";
        if (acc) {
            if (want[i] != cur)
                fail("unwanted", "entity " + std::to_string(i) + " was woken at " + std::to_string(cur) +
                                     (want[i] < 0 ? std::string(" but desires nothing; ")
                                                  : " but desires " + std::to_string(want[i]) + "; ") +
                                     ctx());
            want[i] = -1;
            accepts[i]++;
            if (accepts[i] > requests[i])
                fail("twice", "more wake-ups than requests for entity " + std::to_string(i) + "; " + ctx());
            count("wake-ups");
        } else {
            count("swallowed");
        }
        if (q.size() > pushes_allowed)
            fail("storm", "more queued events than requests; " + ctx());
        // React like the decoder does: often re-request immediately or soon.
        if (acc && r.chance(0.4))
            request(i, r.chance(0.5) ? cur : cur + gap());
        return true;
    };
    int steps = (int)r.range(10, 250);
    for (int s = 0; s < steps; s++) {
        double x = r.unit();
        int i = (int)r.below(k);
        if (x < 0.45)
            request(i, cur + gap());
        else if (x < 0.55) {
            log << " " << i << "cancels;";
            tr[i].set_no_desired_event();
            want[i] = -1;
            count("cancellations");
        } else if (x < 0.6 && want[i] >= 0 && want[i] > cur)
            request(i, cur + (i64)r.below(want[i] - cur));  // sooner
        else if (x < 0.65 && want[i] >= 0)
            request(i, want[i] + r.range(0, 5));  // a little later
        else
            pop();
    }
    // Drain without further requests.
    u64 guard = 0;
    while (true) {
        auto before = q.size();
        (void)before;
        if (++guard > 20 * (pushes_allowed + 10))
            fail("storm", "draining the queue does not terminate; " + ctx());
        if (!pop())
            break;
    }
    nontrivial(hh);
    if (idx < 3)
        sample(ctx().substr(0, 600));
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C10", [](Rng &r, u64 idx) {
        if (r.chance(0.5))
            run<false>(r, idx);
        else
            run<true>(r, idx);
    });
}
