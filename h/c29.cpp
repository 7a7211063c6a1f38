// C29: periods and percentiles mean what they say
#include "vf.hpp"
#include <cxxmetrics/time.hpp>
#include <cxxmetrics/snapshots.hpp>
#include <cxxmetrics/publisher.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
typedef __int128 I;
static const I US = 1000; // nanoseconds
static I ns_of(std::chrono::steady_clock::duration d) { return (I)std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }
struct P { period p; I ns; const char *unit; uint64_t n; };
static P make(Rng &r)
{
    static const uint64_t top[] = {9000000000000000ull, 9000000000000ull, 9000000000ull, 150000000ull, 2500000ull}; int u = (int)r.below(5);
    uint64_t n = r.chance(20) ? r.below(4) : r.chance(50) ? r.below(2000) : (uint64_t)std::abs(r.wide(53)); n %= top[u];
    switch (u)
    {
    case 0: return {r.chance(50) ? time::microseconds(n) : operator""_micro(n), (I)n * US, "us", n}; case 1: return {r.chance(50) ? time::milliseconds(n) : operator""_msec(n), (I)n * 1000 * US, "ms", n};
    case 2: return {r.chance(50) ? time::seconds(n) : operator""_sec(n), (I)n * 1000000 * US, "s", n}; case 3: return {r.chance(50) ? time::minutes(n) : operator""_min(n), (I)n * 60000000 * US, "min", n};
    default: return {r.chance(50) ? time::hours(n) : operator""_hour(n), (I)n * 3600000000ull * US, "h", n};
    }
}
// a duration near a multiple of the period, in its own unit
template<typename D> static void compare(Rng &r, const P &x, const char *unit)
{
    I tick = (I)D::period::num * 1000000000 / D::period::den; I near = r.chance(60) ? x.ns * (I)r.range(-3, 5) / (I)r.range(1, 3) : (I)r.wide(60); if (near > ((I)1 << 62) / 2) near = (I)1 << 60; if (near < -(((I)1 << 62) / 2)) near = -((I)1 << 60);
    I c = near / tick + (I)r.range(-2, 2); D d((typename D::rep)c); I a = (I)d.count() * tick;
#define SAY "%lld %s against a period of %llu %s", (long long)c, unit, (unsigned long long)x.n, x.unit
    VF_CHECK((d > x.p) == (a > x.ns), "order", "greater: " SAY); VF_CHECK((d >= x.p) == (a >= x.ns), "order", "greater or equal: " SAY); VF_CHECK((d < x.p) == (a < x.ns), "order", "less: " SAY); VF_CHECK((d <= x.p) == (a <= x.ns), "order", "less or equal: " SAY);
    if (x.ns) VF_CHECK((I)(d / x.p) == a / x.ns, "divide", "the quotient is %lld: " SAY, (long long)(d / x.p));
    I lim = (I)1 << 62; if (a + x.ns < lim && a + x.ns > -lim && a - x.ns > -lim && a - x.ns < lim)
    {
        auto s = d + x.p; auto t = d - x.p; VF_CHECK(ns_of(s) == a + x.ns, "sum", "sum %lld ns: " SAY, (long long)ns_of(s)); VF_CHECK(ns_of(t) == a - x.ns, "difference", "difference %lld ns: " SAY, (long long)ns_of(t));
    }
    count("comparisons", 7);
#undef SAY
}
VF_SEQ(periods, 3)
{
    uint64_t h = 1;
    for (int i = 0; i < 20; i++)
    {
        P x = make(r); h = mix(h, (uint64_t)(x.ns / US)); const period &p = x.p; std::chrono::steady_clock::duration d = p;
        VF_CHECK(ns_of(p.to_duration()) == x.ns && ns_of(d) == x.ns, "length", "%llu %s are %lld ns", (unsigned long long)x.n, x.unit, (long long)ns_of(d));
        period::value v = p; VF_CHECK((I)v * US == x.ns, "parameter", "%llu %s as a template parameter are %llu us", (unsigned long long)x.n, x.unit, (unsigned long long)v); VF_CHECK(ns_of(period(v).to_duration()) == x.ns, "parameter", "%llu %s don't survive being a template parameter", (unsigned long long)x.n, x.unit);
        uint64_t k = 1 + r.below(r.chance(50) ? 5 : 5000); if (v < 9000000000000000ull / k) VF_CHECK(ns_of((p * k).to_duration()) == x.ns * (I)k, "times", "%llu %s times %llu", (unsigned long long)x.n, x.unit, (unsigned long long)k);
        VF_CHECK(ns_of((p / k).to_duration()) == (I)(v / k) * US, "by", "%llu %s by %llu", (unsigned long long)x.n, x.unit, (unsigned long long)k); VF_CHECK(ns_of((p + k).to_duration()) == x.ns + (I)k * US, "plus", "%llu %s plus %llu us", (unsigned long long)x.n, x.unit, (unsigned long long)k);
        if (v >= k) VF_CHECK(ns_of((p - k).to_duration()) == x.ns - (I)k * US, "minus", "%llu %s minus %llu us", (unsigned long long)x.n, x.unit, (unsigned long long)k);
        switch (r.below(6))
        {
        case 0: compare<std::chrono::nanoseconds>(r, x, "ns"); break; case 1: compare<std::chrono::microseconds>(r, x, "us"); break; case 2: compare<std::chrono::milliseconds>(r, x, "ms"); break; case 3: compare<std::chrono::seconds>(r, x, "s"); break; case 4: compare<std::chrono::minutes>(r, x, "min"); break;
        default: compare<std::chrono::duration<int64_t, std::ratio<3600>>>(r, x, "h");
        }
        std::chrono::nanoseconds acc((int64_t)r.wide(58)), was = acc; if (x.ns < ((I)1 << 61)) { auto got = (acc += p); VF_CHECK((I)acc.count() == (I)was.count() + x.ns && got == acc, "sum", "+= %llu %s", (unsigned long long)x.n, x.unit); got = (acc -= p); VF_CHECK(acc == was && got == acc, "difference", "-= %llu %s", (unsigned long long)x.n, x.unit); }
        std::chrono::duration<double> fd((double)r.range(-1000000, 1000000) / 64); if (x.ns) { double q = fd / p, w = fd.count() * 1e9 / (double)x.ns; VF_CHECK(std::fabs(q - w) <= std::fabs(w) * 1e-12, "divide", "%.17g s by %llu %s is %.17g", fd.count(), (unsigned long long)x.n, x.unit, q); }
        if (i == 0) sample("%llu %s are %lld ns", (unsigned long long)x.n, x.unit, (long long)x.ns);
        VF_CHECK(std::hash<std::chrono::nanoseconds>()(acc) == std::hash<std::chrono::nanoseconds>()(was), "hash", "equal durations hash differently"); count("periods");
    }
    cover(h);
}
// percentiles: as given, and through a template parameter to 32 bits
static const long double STEP = 100.0L / 4294967295.0L;
VF_SEQ(percentiles, 1)
{
    uint64_t h = 2; long double lastp = -1; quantile::value lastv = 0; std::vector<long double> ps; for (int i = 0; i < 30; i++) ps.push_back(r.chance(20) ? (long double)r.below(101) : r.chance(50) ? (long double)r.below(100001) / 1000 : (long double)r.below(1ull << 40) * 100 / (1ull << 40)); std::sort(ps.begin(), ps.end());
    for (auto p : ps)
    {
        quantile q = p == std::floor(p) && r.chance(50) ? operator""_p((long long unsigned)p) : operator""_p(p); long double c = q; h = mix(h, (uint64_t)(p * 1e9L));
        VF_CHECK(q.percentile() == p && c == p, "percentile", "%.20Lg reads back as %.20Lg", p, q.percentile());
        quantile::value v = q; quantile back(v); VF_CHECK(std::fabs(back.percentile() - p) <= 2 * STEP, "percentile-parameter", "%.20Lg through a template parameter is %.20Lg", p, back.percentile());
        if (lastp <= p) VF_CHECK(lastv <= v, "percentile-order", "%.20Lg and %.20Lg are ordered otherwise as template parameters", lastp, p); lastp = p; lastv = v;
        quantile again(back); VF_CHECK(again.percentile() == back.percentile(), "percentile", "a copy differs"); count("percentiles");
    }
    cover(h);
}
// as template parameters, computed at compile time
template<period::value V> struct Param { static I ns() { return ns_of(period(V).to_duration()); } };
template<quantile::value V> struct Perc { static long double p() { return quantile(V).percentile(); } };
VF_SEQ(parameters, 1)
{
    static const struct { I ns, want; const char *text; } ps[] = {
#define ROW(x, n) {Param<x>::ns(), (I)(n) * US, #x}
        ROW(1_micro, 1), ROW(1_msec, 1000), ROW(1_sec, 1000000), ROW(1_min, 60000000), ROW(1_hour, 3600000000ull), ROW(1500_msec, 1500000), ROW(90_sec, 90000000), ROW(15_min, 900000000), ROW(24_hour, 86400000000ull), ROW(time::microseconds(17), 17), ROW(time::milliseconds(17), 17000), ROW(time::seconds(17), 17000000), ROW(time::minutes(17), 1020000000), ROW(time::hours(17), 61200000000ull), ROW(999999_micro, 999999), ROW(0_sec, 0)};
    static const struct { long double p, want; const char *text; } qs[] = {
#define QROW(x, n) {Perc<x>::p(), n, #x}
        QROW(0_p, 0), QROW(50_p, 50), QROW(99.9_p, 99.9L), QROW(100_p, 100), QROW(0.001_p, 0.001L), QROW(33.333333_p, 33.333333L), QROW(99.9999_p, 99.9999L), QROW(1_p, 1)};
    auto &x = ps[r.below(sizeof ps / sizeof *ps)]; VF_CHECK(x.ns == x.want, "parameter", "%s is %lld ns", x.text, (long long)x.ns);
    auto &q = qs[r.below(sizeof qs / sizeof *qs)]; VF_CHECK(std::fabs(q.p - q.want) <= 2 * STEP, "percentile-parameter", "%s is %.20Lg", q.text, q.p);
    cover(mix((uint64_t)(x.want / US), hstr(q.text))); count("parameters", 2);
}
}}
