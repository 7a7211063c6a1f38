// C10: moving averages follow the exponentially weighted recurrence
#include "ewma_model.hpp"
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

struct Ticks { const int64_t *t; Ticks(const int64_t *p = nullptr) : t(p) { } int64_t operator()() const noexcept { return *t; } };
struct UTicks { const uint64_t *t; UTicks(const uint64_t *p = nullptr) : t(p) { } uint64_t operator()() const noexcept { return *t; } };

// E: mark(T), rate(), crate() const
template<typename T, typename E> void drive(Rng &r, E &e, EwmaModel<T> m, int64_t window, const std::function<int64_t()> &now, const std::function<void(int64_t)> &set, bool backwards, const char *what)
{
    int n = (int)r.range(3, 120), style = (int)r.below(5); bool negative = !std::is_integral<T>::value && r.chance(15); long double scale = 0;
    uint64_t h = mix((uint64_t)m.interval, (uint64_t)window), gaps = 0, consts = 0, back = 0; std::string log;
    for (int i = 0; i < n; i++)
    {
        int k = (int)r.below(100);
        if (k < 40)
        {
            T a; switch (r.below(4)) { case 0: a = (T)1; break; case 1: a = (T)r.range(0, 20); break; case 2: a = (T)r.range(0, sizeof(T) == 8 ? 1000000 : 20000); break; default: a = std::is_integral<T>::value ? (T)r.range(0, sizeof(T) == 8 ? 100000000 : 50000) : (T)(r.real() * 100); }
            if (negative && r.chance(40)) a = (T)-a;
            int reps = r.chance(10) ? (int)r.range(2, 20) : 1;
            for (int q = 0; q < reps; q++) { e.mark(a); m.mark(now(), a); }
            if (negative) scale = std::max(scale, std::fabs((long double)m.pending) + std::fabs((long double)m.rate) + std::fabs((long double)a));
            VF_NOTE("mark %d x %.17Lg at %lld", reps, (long double)a, (long long)now());
            h = mix(h, 1 + hbits((double)a));
        }
        else if (k < 75)
        {
            int64_t I = m.interval, d;
            switch (style == 0 ? r.below(10) : style == 1 ? 1 : style == 2 ? 5 + r.below(2) : r.below(9))
            {
            case 0: d = 0; break; case 1: d = I; break; case 2: d = I - 1; break; case 3: d = I + 1; break; case 4: d = r.range(0, I); break;
            case 5: d = r.range(0, 3 * I); break; case 6: d = r.range(0, 40) * I + r.range(0, I); break; case 7: d = 2 * I; break;
            case 8: d = window * r.range(1, 30) + r.range(0, I); break;
            default: d = (int64_t)std::min<long double>((long double)I * (long double)r.range(1000, 2000000000), (long double)(1LL << 54)); break;
            }
            if (now() > (1LL << 61)) d = std::min<int64_t>(d, I);
            if (backwards && r.chance(6)) { d = -r.range(1, 3 * I); if (now() + d < 1) d = 0; back++; }
            if (d > 2 * I) gaps++;
            set(now() + d); VF_NOTE("clock += %lld (%lld intervals of %lld)", (long long)d, (long long)(d / I), (long long)I);
            h = mix(h, 2 + (uint64_t)d);
        }
        else
        {
            bool c = r.chance(50); int times = c ? (int)r.range(1, 3) : 1;
            for (int q = 0; q < times; q++)
            {
                T got = c ? e.crate() : e.rate(), want = m.tick(now(), !c);
                VF_NOTE("%s -> %.17Lg (model %.17Lg)", c ? "const read" : "read", (long double)got, (long double)want);
                VF_CHECK(ewma_close<T>(got, want, scale), c ? "const-rate" : "rate", "%s: %s at step %d, time %lld gives %.17Lg, the recurrence gives %.17Lg (window %lld, interval %lld, %lu folds)", what, c ? "const read" : "read", i, (long long)now(), (long double)got, (long double)want, (long long)window, (long long)m.interval, (unsigned long)m.folds);
                if (std::is_integral<T>::value && !c && m.folds && m.last == now() && m.pending == T{} && got != want) m.rate = got; // truncation at the edge
            }
            consts += c; count("reads_compared", (uint64_t)times); h = mix(h, 3 + c);
        }
    }
    if (m.folds > 1) cover(h);
    count("folds", m.folds); count("long_gaps", gaps); count("backward_moves", back); count("const_reads", consts);
    sample("%s: window %lld interval %lld, %d steps, %lu folds, final rate %.10Lg", what, (long long)window, (long long)m.interval, n, (unsigned long)m.folds, (long double)m.rate);
}
template<typename E, typename T> struct Plain { E e; template<typename C> explicit Plain(const C &c) : e(c) { } void mark(T a) { e.mark(a); } T rate() { return e.rate(); } T crate() const { return static_cast<const E &>(e).rate(); } };
template<period::value W, period::value I, typename T> void ticks(Rng &r)
{
    int64_t now = r.chance(70) ? r.range(1, 1000) : r.range(-500, 0); Plain<internal::ewma<Ticks, W, I, T>, T> e{Ticks(&now)};
    drive<T>(r, e, EwmaModel<T>((int64_t)W, (int64_t)I, now), (int64_t)W, [&] { return now; }, [&](int64_t t) { now = t; }, true, "tick clock");
}
template<period::value W, period::value I, typename T> void uticks(Rng &r)
{
    uint64_t now = (uint64_t)r.range(1, 1000); Plain<internal::ewma<UTicks, W, I, T>, T> e{UTicks(&now)};
    drive<T>(r, e, EwmaModel<T>((int64_t)W, (int64_t)I, (int64_t)now), (int64_t)W, [&] { return (int64_t)now; }, [&](int64_t t) { now = (uint64_t)t; }, true, "unsigned tick clock");
}
template<typename T> void tick_sizes(Rng &r)
{
    switch (r.below(8))
    {
    case 0: return ticks<30, 1, T>(r); case 1: return ticks<10, 1, T>(r); case 2: return ticks<5, 3, T>(r); case 3: return ticks<100, 7, T>(r);
    case 4: return ticks<1, 1, T>(r); case 5: return ticks<1000, 10, T>(r); case 6: return ticks<2, 5, T>(r); default: return uticks<60, 4, T>(r);
    }
}
VF_SEQ(ticks_dbl, 5) { tick_sizes<double>(r); }
VF_SEQ(ticks_flt, 1) { tick_sizes<float>(r); }
VF_SEQ(ticks_i64, 2) { tick_sizes<int64_t>(r); }
VF_SEQ(ticks_i32, 1) { tick_sizes<int32_t>(r); }
VF_SEQ(ticks_u64, 1) { tick_sizes<uint64_t>(r); }
VF_SEQ(ticks_u32, 1) { tick_sizes<uint32_t>(r); }
VF_SEQ(ticks_ldbl, 1) { tick_sizes<long double>(r); }

// the public class, on the steady clock
template<typename E, typename T> struct Public
{
    E e; Rng *r;
    explicit Public(Rng &x) : r(&x) { }
    void mark(T a)
    {
        if (std::is_integral<T>::value || a != (T)(int64_t)a || r->chance(60)) { if (r->chance(30)) e.template operator+=<T>(a); else e.mark(a); }
        else if (r->chance(50)) e.mark((int64_t)a); else e.mark((float)a == (double)a ? (float)a : (double)a);
    }
    static T val(const average_value_snapshot &s) { return (T)num(s.value()); }
    T rate() { if (r->chance(40)) return val(e.snapshot()); return e.rate(); }
    T crate() const { const E &c = e; if (r->chance(40)) return val(c.snapshot()); return c.rate(); }
};
template<period::value W, period::value I, typename T> void steady(Rng &r)
{
    Public<ewma<W, I, T>, T> e(r);
    drive<T>(r, e, EwmaModel<T>((int64_t)W * 1000, (int64_t)I * 1000, vclk_now()), (int64_t)W * 1000, [] { return (int64_t)vclk_now(); }, [](int64_t t) { vclk_set(t); }, true, "steady clock");
}
VF_SEQ(steady_dbl, 5)
{
    switch (r.below(6))
    {
    case 0: return steady<1_min, 1_sec, double>(r); case 1: return steady<5_sec, 250_msec, double>(r); case 2: return steady<1_hour, 1_sec, double>(r);
    case 3: return steady<15_min, 5_sec, double>(r); case 4: return steady<3_micro, 1_micro, double>(r); default: return steady<100_msec, 333_micro, double>(r);
    }
}
VF_SEQ(steady_i64, 1) { r.chance(50) ? steady<1_min, 1_sec, int64_t>(r) : steady<10_sec, 500_msec, int64_t>(r); }
VF_SEQ(steady_unsigned, 1) { r.chance(50) ? steady<1_min, 1_sec, uint64_t>(r) : steady<10_sec, 500_msec, uint32_t>(r); }
VF_SEQ(steady_ldbl, 1) { steady<1_min, 1_sec, long double>(r); }
VF_SEQ(steady_flt, 1) { steady<5_min, 1_sec, float>(r); }

// two averages given the same marks, one of them also read through const: always the same
VF_SEQ(const_reads_are_free, 2)
{
    int64_t now = 5; typedef internal::ewma<Ticks, 20, 3, double> E; E a{Ticks(&now)}, b{Ticks(&now)}; const E &cb = b; int n = (int)r.range(5, 100), reads = 0; uint64_t h = 9;
    for (int i = 0; i < n; i++)
    {
        switch (r.below(4))
        {
        case 0: { double x = (double)r.range(0, 100); a.mark(x); b.mark(x); h = mix(h, (uint64_t)x); break; }
        case 1: { int64_t d = r.range(0, 12); now += d; h = mix(h, 1000 + (uint64_t)d); break; }
        case 2: { int q = (int)r.range(1, 4); for (int k = 0; k < q; k++) cb.rate(); reads += q; break; }
        default: { double x = a.rate(), y = b.rate(); VF_CHECK(x == y, "const-read-matters", "after const reads the rate is %.17g instead of %.17g", y, x); count("reads_compared"); }
        }
    }
    if (reads) cover(mix(h, (uint64_t)reads));
}
}}
