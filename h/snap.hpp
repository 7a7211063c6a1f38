#pragma once
// Looking into snapshots. Numbers are compared as long doubles, which hold every 64 bit integer; durations in nanoseconds.
#include "vf.hpp"
#include <cxxmetrics/snapshots.hpp>
namespace vf
{
typedef long double num_t;
typedef std::vector<num_t> Nums;

template<typename T> num_t num(const T &v) { return (num_t)v; }
template<typename R, typename P> num_t num(const std::chrono::duration<R, P> &d) { return (num_t)std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }
inline num_t num(const cxxmetrics::metric_value &v) { return static_cast<num_t>(v); }

// everything in a sample, if the snapshot class still keeps it where a subclass can see it
class Contents : public cxxmetrics::reservoir_snapshot
{
    template<typename P> static auto get(P &p, Nums &out, int) -> decltype(p.values_.begin(), true) { for (auto &v : p.values_) out.push_back(num(v)); return true; }
    template<typename P> static bool get(P &, Nums &, long) { return false; }
public:
    bool known; Nums values;
    explicit Contents(cxxmetrics::reservoir_snapshot &&s) : cxxmetrics::reservoir_snapshot(std::move(s)) { known = get(*this, values, 0); }
};
// the same for a snapshot that can't be taken over
class Peek : public cxxmetrics::reservoir_snapshot
{
    template<typename P> static auto get(const cxxmetrics::reservoir_snapshot &s, Nums &out, int) -> decltype((s.*(&P::values_)).begin(), true) { for (auto &v : s.*(&P::values_)) out.push_back(num(v)); return true; }
    template<typename P> static bool get(const cxxmetrics::reservoir_snapshot &, Nums &, long) { return false; }
public:
    static bool into(const cxxmetrics::reservoir_snapshot &s, Nums &out) { return get<Peek>(s, out, 0); }
};
inline std::string show(const Nums &v)
{
    std::string s = "{"; char b[64];
    for (size_t i = 0; i < v.size() && i < 24; i++) { snprintf(b, sizeof b, "%s%.20Lg", i ? "," : "", v[i]); s += b; }
    return s + (v.size() > 24 ? ",...}" : "}");
}
inline bool close(num_t a, num_t b, num_t tol) { return a == b || std::fabs(a - b) <= tol || (std::isnan(a) && std::isnan(b)); }

// the value at a quantile by its definition
inline num_t quantile_of(const Nums &sorted, num_t q)
{
    if (sorted.empty()) return 0;
    num_t pos = q * (num_t)(sorted.size() + 1);
    if (pos < 1) return sorted.front();
    if (pos >= (num_t)sorted.size()) return sorted.back();
    size_t i = (size_t)pos;
    return sorted[i - 1] + (pos - (num_t)i) * (sorted[i] - sorted[i - 1]);
}
inline num_t spread(const Nums &s) { num_t m = 0; for (auto v : s) m = std::max(m, std::fabs(v)); return m; }
inline num_t mean_of(const Nums &s) { num_t t = 0; size_t n = 0; for (auto v : s) { ++n; t += (v - t) / (num_t)n; } return t; }

// the sample is exactly the expected multiset
inline void expect_sample(cxxmetrics::reservoir_snapshot &&s, Nums want, const char *key, const char *when)
{
    std::sort(want.begin(), want.end());
    num_t mag = spread(want);
    VF_CHECK(s.size() == want.size(), key, "%s: %zu values in the snapshot, expected %zu %s", when, s.size(), want.size(), show(want).c_str());
    if (want.empty()) return;
    VF_CHECK(num(s.min()) == want.front(), key, "%s: minimum %.20Lg, expected %.20Lg of %s", when, num(s.min()), want.front(), show(want).c_str());
    VF_CHECK(num(s.max()) == want.back(), key, "%s: maximum %.20Lg, expected %.20Lg of %s", when, num(s.max()), want.back(), show(want).c_str());
    VF_CHECK(close(num(s.mean()), mean_of(want), mag * 1e-9L), key, "%s: mean %.20Lg, expected %.20Lg of %s", when, num(s.mean()), mean_of(want), show(want).c_str());
    Contents c(std::move(s));
    if (c.known)
    {
        std::sort(c.values.begin(), c.values.end());
        VF_CHECK(c.values == want, key, "%s: the snapshot holds %s, expected %s", when, show(c.values).c_str(), show(want).c_str());
    }
}

// random elements
template<typename T, typename = void> struct Gen { static T make(Rng &r) { return (T)r.wide((int)sizeof(T) * 8 - 2); } };
template<typename T> struct Gen<T, typename std::enable_if<std::is_unsigned<T>::value>::type> { static T make(Rng &r) { T v = (T)(r.u64() >> r.below(64)); return v; } };
template<typename T> struct Gen<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static T make(Rng &r)
    {
        switch (r.below(5)) { case 0: return (T)r.range(-20, 20); case 1: return (T)(r.real() * 1000 - 500); case 2: return (T)((r.real() - 0.5) * 1e30); case 3: return (T)((r.real() - 0.5) * 1e-20); default: return (T)r.real(); }
    }
};
template<typename R, typename P> struct Gen<std::chrono::duration<R, P>, void>
{
    static std::chrono::duration<R, P> make(Rng &r) { int64_t ns = r.wide(58); return std::chrono::duration_cast<std::chrono::duration<R, P>>(std::chrono::nanoseconds(ns)); }
};
}
