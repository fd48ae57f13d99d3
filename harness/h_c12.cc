// C12: cyclic times and varying radii compute exactly what unbounded arithmetic gives in their domain.
#include "vh.h"
#include "pymatching/sparse_blossom/flooder_matcher_interop/varying.h"
#include "pymatching/sparse_blossom/tracker/cyclic.h"
using namespace vh;
typedef __int128 big;

static std::string bs(big x) {
    bool n = x < 0;
    if (n)
        x = -x;
    std::string s;
    do {
        s.insert(s.begin(), '0' + (int)(x % 10));
        x /= 10;
    } while (x);
    return (n ? "-" : "") + s;
}

template <typename T, typename O>
static void cyc(big a, big b, const char *name) {
    // a, b: true times with |a-b| < half a cycle.
    const big half = (big)1 << (sizeof(T) * 8 - 1);
    pm::cyclic<T> ca{(O)a}, cb{(O)b};
    big d = a - b;
    evaluated();
    auto ctx = [&]() {
        return std::string(" for times ") + bs(a) + " and " + bs(b) + " in " + name;
    };
    if ((ca < cb) != (a < b) || (ca <= cb) != (a <= b) || (ca > cb) != (a > b) || (ca >= cb) != (a >= b) ||
        (ca == cb) != (a == b) || (ca != cb) != (a != b))
        fail("order", "cyclic ordering disagrees with true ordering" + ctx());
    if ((T)(ca - cb).value != (T)d || (T)(ca + cb).value != (T)(a + b))
        fail("arith", "cyclic sum or difference is wrong" + ctx());
    O w = ca.template widen_from_nearby_reference<O>((O)b);
    if ((big)w != a)
        fail("widen", "widening gives " + bs((big)w) + " instead of " + bs(a) + ctx());
    auto c = ca;
    c++;
    ++c;
    c--;
    if (c.value != (T)(a + 1))
        fail("arith", "increment is wrong" + ctx());
    c = ca;
    c += 5;
    c -= 3;
    if (c.value != (T)(a + 2))
        fail("arith", "offset is wrong" + ctx());
    (void)half;
}

template <typename T, typename O>
static void cyc_random(Rng &r, const char *name) {
    const big half = (big)1 << (sizeof(T) * 8 - 1);
    big cyc_len = half * 2;
    big lim = std::numeric_limits<O>::max();
    big max_mult = lim / cyc_len - 2;
    if (max_mult > 5)
        max_mult = 5;
    for (int k = 0; k < 60; k++) {
        big b = (big)r.below((u64)max_mult + 1) * cyc_len;
        big off;
        switch (r.below(4)) {
            case 0:
                off = (big)r.below((u64)(half * 2 - 1));
                break;
            case 1:
                off = half + r.range(-3, 3);
                break;
            case 2:
                off = cyc_len + r.range(-3, 3);
                break;
            default:
                off = r.range(0, 5);
        }
        b += off;
        big d;
        switch (r.below(4)) {
            case 0:
                d = (big)r.below((u64)(half - 1)) * (r.chance(0.5) ? 1 : -1);
                break;
            case 1:
                d = (half - 1 - r.range(0, 3)) * (r.chance(0.5) ? 1 : -1);
                break;
            case 2:
                d = r.range(-3, 3);
                break;
            default:
                d = ((big)1 << r.below(sizeof(T) * 8 - 1)) * (r.chance(0.5) ? 1 : -1);
        }
        if (d >= half || d <= -half)
            continue;
        big a = b + d;
        if (a < 0 || a > lim || b > lim)
            continue;
        cyc<T, O>(a, b, name);
        count(std::string("cyclic-") + name);
        nontrivial(mix((u64)a, (u64)b) ^ sizeof(T));
    }
}

template <typename T>
static void varying(Rng &r, const char *name) {
    int bits = sizeof(T) == 4 ? 26 : 58;
    i64 lim = (i64)1 << bits;
    auto val = [&]() -> i64 {
        switch (r.below(4)) {
            case 0:
                return r.range(-10, 10);
            case 1:
                return ((i64)1 << r.below(bits)) * (r.chance(0.5) ? 1 : -1);
            case 2:
                return r.range(-lim, lim);
            default:
                return r.range(0, 1000);
        }
    };
    i64 t = std::abs(val()), y = val();
    int slope = (int)r.range(-1, 1);
    pm::Varying<T> v;
    switch (r.below(3)) {
        case 0:
            v = pm::Varying<T>::from_base_and_growth((T)(y - slope * t), (int8_t)slope);
            break;
        case 1:
            if (slope == 1)
                v = pm::Varying<T>::growing_value_at_time((T)y, (T)t);
            else if (slope == -1)
                v = pm::Varying<T>::shrinking_value_at_time((T)y, (T)t);
            else
                v = pm::Varying<T>::frozen((T)y);
            break;
        default:
            if (slope == 1) {
                v = pm::Varying<T>::growing_varying_with_zero_distance_at_time((T)t);
                y = 0;
            } else {
                v = pm::Varying<T>::from_base_and_growth((T)(y - slope * t), (int8_t)slope);
            }
    }
    // Invariant: value is y at time t, with the given slope.
    std::ostringstream log;
    u64 hh = mix(y, t) ^ slope;
    int steps = (int)r.range(1, 12);
    for (int s = 0; s < steps; s++) {
        evaluated();
        auto bad = [&](const char *what) {
            fail("varying", std::string(what) + ": value " + std::to_string(y) + " at time " + std::to_string(t) +
                                " slope " + std::to_string(slope) + " data " + std::to_string((i64)v.data) + " in " + name +
                                log.str());
        };
        if (v.is_growing() != (slope == 1) || v.is_shrinking() != (slope == -1) || v.is_frozen() != (slope == 0))
            bad("wrong growth state");
        if ((i64)v.get_distance_at_time((T)t) != y)
            bad("wrong value at the switching time");
        i64 dt = r.chance(0.5) ? r.range(0, 20) : (i64)r.below(lim / 16);
        if ((i64)v.get_distance_at_time((T)(t + dt)) != y + slope * dt)
            bad("wrong value later");
        if ((i64)v.y_intercept() != y - slope * t)
            bad("wrong intercept");
        if (slope == 1 && ((i64)v.time_of_x_intercept() != t - y || (i64)v.time_of_x_intercept_for_growing() != t - y ||
                           (i64)v.get_growing_distance_at_time((T)t) != y))
            bad("wrong zero crossing while growing");
        if (slope == -1 && ((i64)v.time_of_x_intercept() != t + y || (i64)v.time_of_x_intercept_for_shrinking() != t + y ||
                            (i64)v.get_shrinking_distance_at_time((T)t) != y))
            bad("wrong zero crossing while shrinking");
        if (slope == 0) {
            bool threw = false;
            try {
                v.time_of_x_intercept();
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            if (!threw)
                bad("a frozen value has no zero crossing but one was returned");
        }
        i64 off = r.chance(0.5) ? r.range(-50, 50) : val() / 4;
        auto p = v + (T)off;
        auto q = v - (T)off;
        auto p2 = v;
        p2 += (T)off;
        auto q2 = v;
        q2 -= (T)off;
        if ((i64)p.get_distance_at_time((T)t) != y + off || (i64)q.get_distance_at_time((T)t) != y - off || p2 != p ||
            q2 != q || p.is_growing() != v.is_growing() || p.is_shrinking() != v.is_shrinking())
            bad("wrong after adding an offset");
        // Two-body meeting time: the sum of two non-shrinking values, at least one growing.
        int s2 = (int)r.range(-1, 1);
        i64 y2 = r.range(-1000, 1000);
        auto w = pm::Varying<T>::from_base_and_growth((T)(y2 - s2 * t), (int8_t)s2);
        bool meets = (slope >= 0 && s2 >= 0 && slope + s2 > 0);
        if (v.colliding_with(w) != meets || w.colliding_with(v) != meets)
            bad("wrong collision test");
        if (meets && ((slope + s2 == 1) || ((y + y2) % 2 == 0))) {
            i64 expect = t - (y + y2) / (slope + s2);
            if ((i64)v.time_of_x_intercept_when_added_to(w) != expect)
                bad("wrong time at which two values cancel");
            if (slope + s2 == 1 && (i64)v.time_of_x_intercept_when_added_to_giving_unit_slope(w) != expect)
                bad("wrong time at which two values cancel (unit slope)");
            count("meetings");
        }
        if (v != v || !(v == v))
            bad("not equal to itself");
        // Switch.
        i64 nt = t + dt;
        i64 ny = y + slope * dt;
        if (std::abs(ny) >= lim || nt >= lim)
            break;
        slope = (int)r.range(-1, 1);
        if (slope == 1)
            v = v.then_growing_at_time((T)nt);
        else if (slope == -1)
            v = v.then_shrinking_at_time((T)nt);
        else
            v = v.then_frozen_at_time((T)nt);
        t = nt;
        y = ny;
        log << " ->" << slope << "@" << t;
        hh = mix(hh, t * 3 + slope);
        count("switches");
    }
    nontrivial(hh);
}

int main(int argc, char **argv) {
    return run_cases(argc, argv, "C12", [](Rng &r, u64 idx) {
        if (idx < 256) {
            // exhaustive for 8-bit cycles
            for (int d = -127; d <= 127; d++) {
                big b = 256 + (int)idx;
                cyc<uint8_t, int64_t>(b + d, b, "8-bit/64");
                cyc<uint8_t, int32_t>(b + d, b, "8-bit/32");
                count("cyclic-8-bit-exhaustive", 2);
            }
        }
        cyc_random<uint16_t, int64_t>(r, "16-bit/64");
        cyc_random<uint16_t, int32_t>(r, "16-bit/32");
        cyc_random<uint32_t, int64_t>(r, "32-bit/64");
        for (int k = 0; k < 10; k++) {
            varying<int32_t>(r, "32-bit");
            varying<int64_t>(r, "64-bit");
            varying<pm::cumulative_time_int>(r, "time");
        }
        bool threw = false;
        try {
            pm::Varying32::from_base_and_growth(1, (int8_t)r.range(2, 100));
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        if (!threw)
            fail("varying", "an impossible growth rate was accepted");
        if (idx < 3)
            sample("random cyclic pairs and varying switch sequences");
    });
}
