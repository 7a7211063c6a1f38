// C06: snapshot statistics are those of the sampled values
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

struct Q { long double q; num_t got; };
#define QS(X) X(0.0) X(0.01) X(0.1) X(1.0) X(2.5) X(5.0) X(10.0) X(12.5) X(20.0) X(25.0) X(30.0) X(33.3333) X(40.0) X(45.5) X(50.0) X(60.0) X(66.6667) X(70.0) X(75.0) X(80.0) X(87.5) X(90.0) X(95.0) X(97.7) X(99.0) X(99.9) X(99.99) X(99.9999) X(100.0)
template<typename S> std::vector<Q> all_quantiles(const S &s)
{
    std::vector<Q> v;
#define X(A) v.push_back(Q{A##L / 100, num(s.template value<A##_p>())});
    QS(X)
#undef X
    return v;
}
// how far a value at a quantile may be off: the quantile itself has 32 bits, and results may be doubles
static num_t tolerance(const Nums &s, num_t q, num_t eps)
{
    if (s.empty()) return 0;
    num_t pos = q * (num_t)(s.size() + 1); int64_t i = (int64_t)pos; num_t step = 0, mag = 0;
    for (int64_t k = i - 3; k <= i + 2; k++)
    {
        if (k >= 0 && k < (int64_t)s.size()) mag = std::max(mag, std::fabs(s[(size_t)k]));
        if (k >= 0 && k + 1 < (int64_t)s.size()) step = std::max(step, s[(size_t)k + 1] - s[(size_t)k]);
    }
    return step * 2.4e-10L * (num_t)(s.size() + 2) + (mag + step) * eps;
}
template<typename T> struct Eps { static constexpr long double value = 2e-15L; static constexpr long double unit = 0; };
template<> struct Eps<float> { static constexpr long double value = 2e-6L; static constexpr long double unit = 0; };
// what the statistics may be off by because values are held to the nanosecond
template<typename R, typename P> struct Eps<duration<R, P>> { static constexpr long double value = 2e-15L; static constexpr long double unit = 1; };

template<typename T> void judge(const reservoir_snapshot &s, Nums want, const char *how, Rng &r)
{
    std::sort(want.begin(), want.end());
    std::string all = show(want); const char *ty = typeid(T).name();
    VF_CHECK(s.size() == want.size(), "size", "%s of %s: size %zu, expected %zu", how, ty, s.size(), want.size());
    auto qs = all_quantiles(s);
    num_t mean = num(s.mean());
    if (want.empty())
    {
        VF_CHECK(mean == 0, "empty", "the mean of an empty snapshot is %.20Lg", mean);
        for (auto &q : qs) VF_CHECK(q.got == 0, "empty", "quantile %.6Lg of an empty snapshot is %.20Lg", q.q, q.got);
        count("empty_snapshots");
    }
    else
    {
        VF_CHECK(num(s.min()) == want.front(), "min", "%s: min %.20Lg of %s", how, num(s.min()), all.c_str());
        VF_CHECK(num(s.max()) == want.back(), "max", "%s: max %.20Lg of %s", how, num(s.max()), all.c_str());
        num_t mag = spread(want);
        VF_CHECK(close(mean, mean_of(want), mag * Eps<T>::value * (num_t)(10 + want.size()) + Eps<T>::unit), "mean", "%s: mean %.20Lg, expected %.20Lg of %s", how, mean, mean_of(want), all.c_str());
        VF_CHECK(mean >= want.front() - mag * Eps<T>::value * 10 - Eps<T>::unit && mean <= want.back() + mag * Eps<T>::value * 10 + Eps<T>::unit, "mean", "%s: mean %.20Lg outside %s", how, mean, all.c_str());
        for (size_t i = 0; i < qs.size(); i++)
        {
            num_t e = quantile_of(want, qs[i].q);
            VF_CHECK(close(qs[i].got, e, tolerance(want, qs[i].q, Eps<T>::value) + Eps<T>::unit * (e != std::floor(e))), "quantile", "%s of %s: quantile %.7Lg is %.20Lg, expected %.20Lg of %zu values %s", how, ty, qs[i].q, qs[i].got, e, want.size(), all.c_str());
            VF_CHECK(qs[i].got >= want.front() && qs[i].got <= want.back(), "quantile-range", "%s: quantile %.7Lg is %.20Lg of %s", how, qs[i].q, qs[i].got, all.c_str());
            if (i) VF_CHECK(qs[i].got >= qs[i - 1].got - tolerance(want, qs[i].q, Eps<T>::value), "quantile-order", "%s: quantile %.7Lg is %.20Lg but %.7Lg is %.20Lg of %s", how, qs[i].q, qs[i].got, qs[i - 1].q, qs[i - 1].got, all.c_str());
        }
        VF_CHECK(qs.front().got == want.front() && qs.back().got == want.back(), "quantile-ends", "%s: quantile 0 is %.20Lg and 1 is %.20Lg of %s", how, qs.front().got, qs.back().got, all.c_str());
        count("quantiles_compared", qs.size());
    }
    // sampling
    size_t ask = r.chance(20) ? r.below(3) : r.chance(20) ? 1000 : r.chance(8) ? ~(size_t)0 - r.below(2) : r.below(2 * want.size() + 3), seen = 0; long double last = -1;
    s.sample(ask, [&](metric_value v, long double p) {
        seen++;
        VF_CHECK(seen <= ask, "sample-count", "%s: more than %zu points sampled of %zu", how, ask, want.size());
        VF_CHECK(p > last && p >= 0 && p <= 100 + 1e-9L, "sample-order", "%s: quantile %.20Lg after %.20Lg", how, p, last); last = p;
        num_t e = quantile_of(want, p / 100);
        // where it lands on a rank, rounding may put it on either side
        VF_CHECK(close(num(v), e, tolerance(want, p / 100, Eps<T>::value) + Eps<T>::unit * (e != std::floor(e))), "sample-value", "%s of %s: asked for %zu, point %zu is %.20Lg at %.20Lg percent, expected %.20Lg of %zu values %s", how, ty, ask, seen, num(v), p, e, want.size(), all.c_str());
        VF_CHECK(!want.empty(), "sample-empty", "a point sampled from an empty snapshot");
        VF_CHECK(num(v) >= want.front() && num(v) <= want.back(), "sample-value", "%s: sampled %.20Lg of %s", how, num(v), all.c_str());
    });
    // all that's asked for is there, as long as there are values on both sides of each point
    VF_CHECK(want.size() < 2 || seen >= std::min(ask, want.size() - 2), "sample-count", "%s: %zu points sampled of %zu values when %zu were asked for", how, seen, want.size(), ask);
    count("points_sampled", seen); count("snapshots_judged");
}
template<typename T> std::vector<T> values(Rng &r)
{
    size_t n; switch (r.below(6)) { case 0: n = r.below(4); break; case 1: case 2: n = r.below(12); break; case 3: case 4: n = r.below(80); break; default: n = r.below(1200); }
    std::vector<T> v; int shape = (int)r.below(5); T base = Gen<T>::make(r);
    for (size_t i = 0; i < n; i++)
    {
        if (shape == 0 && i && r.chance(40)) v.push_back(v[r.below(i)]);       // duplicates
        else if (shape == 1) v.push_back(base);                                  // all alike
        else v.push_back(Gen<T>::make(r));
    }
    if (shape == 3) std::sort(v.begin(), v.end());
    if (shape == 4) { std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); }
    return v;
}
template<typename T> T edge(Rng &r)
{
    switch (r.below(6)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::lowest(); case 2: return (T)0; case 3: return (T)1; case 4: return (T)(std::numeric_limits<T>::max() - 1); default: return Gen<T>::make(r); }
}
template<typename T> Nums nums(const std::vector<T> &v) { Nums w; for (auto &x : v) w.push_back(num(x)); return w; }
template<typename T> void direct(Rng &r, const std::vector<T> &v)
{
    Nums w = nums(v); uint64_t h = mix(typeid(T).hash_code(), v.size()); for (auto x : w) h = mix(h, hbits((double)x));
    if (r.chance(50)) { reservoir_snapshot s(v.data(), v.size()); judge<T>(s, w, "array", r); reservoir_snapshot m(std::move(s)); judge<T>(m, w, "moved", r); }
    else { reservoir_snapshot s(v.begin(), v.end(), v.size()); reservoir_snapshot m(v.data(), 0); judge<T>(m, {}, "empty", r); m = std::move(s); judge<T>(m, w, "move assigned", r); }
    if (r.chance(30)) { histogram_snapshot hs(reservoir_snapshot(v.data(), v.size()), v.size() + 3); judge<T>(hs, w, "histogram snapshot", r); VF_CHECK(hs.count() == v.size() + 3, "count", "count %lu", (unsigned long)hs.count()); }
    if (v.size() > 1) cover(h);
    sample("%zu values of %s: %s", v.size(), typeid(T).name(), show(w).c_str());
}
template<typename T> void any(Rng &r) { direct<T>(r, values<T>(r)); }
template<typename T> void extreme(Rng &r) { std::vector<T> v; size_t n = r.below(9); for (size_t i = 0; i < n; i++) v.push_back(edge<T>(r)); direct<T>(r, v); }
VF_SEQ(i64, 4) { r.chance(70) ? any<int64_t>(r) : extreme<int64_t>(r); }
VF_SEQ(u64, 3) { r.chance(70) ? any<uint64_t>(r) : extreme<uint64_t>(r); }
VF_SEQ(i32, 2) { r.chance(70) ? any<int32_t>(r) : extreme<int32_t>(r); }
VF_SEQ(u32, 2) { r.chance(70) ? any<uint32_t>(r) : extreme<uint32_t>(r); }
VF_SEQ(i16, 1) { r.chance(70) ? any<int16_t>(r) : extreme<int16_t>(r); }
VF_SEQ(u16, 1) { r.chance(70) ? any<uint16_t>(r) : extreme<uint16_t>(r); }
VF_SEQ(dbl, 3) { any<double>(r); }
VF_SEQ(flt, 1) { any<float>(r); }
VF_SEQ(ldbl, 1) { any<long double>(r); }
VF_SEQ(ns, 2) { any<nanoseconds>(r); }
VF_SEQ(us, 1) { any<microseconds>(r); }
VF_SEQ(ms, 2) { any<milliseconds>(r); }
VF_SEQ(sec, 1) { any<seconds>(r); }
VF_SEQ(min32, 1) { any<duration<int32_t, std::ratio<60>>>(r); }

// samples of tens of thousands
template<typename T> void large(Rng &r)
{
    size_t n = (size_t)r.range(r.chance(50) ? 32700 : 65500, r.chance(50) ? 66000 : 70000); std::vector<T> v(n); int shape = (int)r.below(3); T step = (T)r.range(1, 1000);
    for (size_t i = 0; i < n; i++) v[i] = shape == 0 ? (T)((T)i * step) : shape == 1 ? (T)(r.u64() >> 20) : (T)(r.below(5));
    if (shape == 0) std::shuffle(v.begin(), v.end(), std::mt19937_64(r.u64()));
    direct<T>(r, v); count("large_snapshots"); smax("largest_snapshot", n);
}
VF_SEQ(large_sample, 2) { if (!r.chance(2)) return; r.chance(50) ? large<int64_t>(r) : large<double>(r); }

// through the reservoirs
template<typename Res> void through(Rng &r)
{
    typedef typename Res::value_type T; Res res; size_t n = r.below(17); Nums w;
    for (size_t i = 0; i < n; i++) { T v = Gen<T>::make(r); res.update(v); w.push_back(num(v)); }
    judge<T>(res.snapshot(), w, "reservoir", r);
    if (n > 1) cover(mix(n, r.u64()));
}
VF_SEQ(res_simple, 1) { r.chance(50) ? through<simple_reservoir<int64_t, 16>>(r) : through<simple_reservoir<milliseconds, 16>>(r); }
VF_SEQ(res_uniform, 1) { r.chance(50) ? through<uniform_reservoir<double, 16>>(r) : through<uniform_reservoir<microseconds, 16>>(r); }
VF_SEQ(res_sliding, 1) { r.chance(50) ? through<sliding_window_reservoir<int64_t, 16>>(r) : through<sliding_window_reservoir<seconds, 16>>(r); }
}}
