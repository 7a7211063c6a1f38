#pragma once
// Publish options made in every way, with what they are to read back as.
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/publisher_impl.hpp>
namespace vf
{
namespace opt
{
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
struct Scale { bool set = false; double f = 1; bool operator==(const Scale &o) const { return set == o.set && f == o.f; } };
typedef std::vector<double> Qs; // percentiles
inline const Qs &default_qs() { static const Qs q{50, 90, 99}; return q; }
struct Value { Scale s; };
struct Meter { Scale s; bool mean = true; };
struct Hist { Scale s; bool count = true, dist = false; Qs q = default_qs(); };
struct Timer : Hist { bool mean = true, rates = true; };
struct Options { Value v; Meter m; Hist h; Timer t; };

inline Scale scale(Rng &r) { Scale s; if (r.chance(30)) return s; s.set = true; switch (r.below(6)) { case 0: s.f = 1; break; case 1: s.f = 0.001; break; case 2: s.f = 1000; break; case 3: s.f = (double)r.range(-5, 20); break; case 4: s.f = r.real() * 10; break; default: s.f = 0.5; } return s; }
inline scale_factor make(const Scale &s) { return s.set ? scale_factor(s.f) : scale_factor(); }
inline Scale seen(const value_publish_options &o) { Scale s; s.set = o.scale(); s.f = o.scale().factor(); return s; }

template<typename F> auto with_quantiles(Rng &r, Qs &q, F &&f) -> decltype(f(quantile_options<quantile(50.0l)>()))
{
    switch (r.below(8))
    {
    case 6: q = {0.00001, 0.00005, 99.9999, 99.99995, 99.99999}; return f(quantile_options<quantile(99.99995l), quantile(0.00001l), quantile(99.9999l), quantile(99.99999l), quantile(0.00005l)>());
    case 0: q = {50}; return f(quantile_options<quantile(50.0l)>());
    case 1: q = {10, 50, 99.9}; return f(quantile_options<quantile(99.9l), quantile(50.0l), quantile(10.0l)>());
    case 2: q = {25, 75}; return f(quantile_options<quantile(75.0l), quantile(25.0l), quantile(75.0l), quantile(25.0l)>());
    case 3: q = {0, 1, 2, 100}; return f(quantile_options<quantile(0.0l), quantile(100.0l), quantile(1.0l), quantile(2.0l)>());
    case 4: q = {99, 99.9, 99.99, 99.999, 99.9999}; return f(quantile_options<quantile(99.0l), quantile(99.9l), quantile(99.99l), quantile(99.999l), quantile(99.9999l)>());
    case 5: q = {0.001, 0.002, 50.0001, 50.0002}; return f(quantile_options<quantile(50.0001l), quantile(50.0002l), quantile(0.001l), quantile(0.002l)>());
    default: q = {5, 10, 15, 20, 25, 30, 35, 40}; return f(quantile_options<quantile(40.0l), quantile(35.0l), quantile(30.0l), quantile(25.0l), quantile(20.0l), quantile(15.0l), quantile(10.0l), quantile(5.0l)>());
    }
}
inline value_publish_options value(Rng &r, Value &m)
{
    if (r.chance(20)) { m = Value(); return value_publish_options(); }
    m.s = scale(r); value_publish_options o(make(m.s)); if (r.chance(30)) { value_publish_options p(scale_factor(3.0)); p = o; return p; } return o;
}
inline meter_publish_options meter(Rng &r, Meter &m)
{
    m = Meter();
    switch (r.below(5))
    {
    case 0: return meter_publish_options();
    case 1: m.s = scale(r); return meter_publish_options(make(m.s));
    case 2: m.mean = r.chance(50); return meter_publish_options(m.mean);
    case 3: { m.mean = r.chance(50); m.s = scale(r); meter_publish_options o(m.mean, make(m.s)), p(o); meter_publish_options q(!m.mean, scale_factor(9.0)); q = p; return q; }
    default: m.mean = r.chance(50); m.s = scale(r); return meter_publish_options(m.mean, make(m.s));
    }
}
inline histogram_publish_options hist1(Rng &r, Hist &m)
{
    m = Hist();
    switch (r.below(8))
    {
    case 0: return histogram_publish_options();
    case 1: m.s = scale(r); return histogram_publish_options(make(m.s));
    case 2: m.count = r.chance(50); return histogram_publish_options(m.count);
    case 3: m.count = r.chance(50); m.s = scale(r); return histogram_publish_options(m.count, make(m.s));
    case 4: m.count = r.chance(50); m.dist = r.chance(50); m.s = scale(r); return histogram_publish_options(m.count, m.dist, make(m.s));
    case 5: return with_quantiles(r, m.q, [&](auto &&q) { return histogram_publish_options(std::move(q)); });
    case 6: m.count = r.chance(50); m.dist = r.chance(50); return with_quantiles(r, m.q, [&](auto &&q) { return histogram_publish_options(std::move(q), m.count, m.dist); });
    default: m.count = r.chance(50); m.dist = r.chance(50); m.s = scale(r); return with_quantiles(r, m.q, [&](auto &&q) { return histogram_publish_options(std::move(q), m.count, m.dist, make(m.s)); });
    }
}
inline histogram_publish_options hist(Rng &r, Hist &m)
{
    auto o = hist1(r, m);
    if (r.chance(25)) { Hist other; auto p = hist1(r, other); p = std::move(o); return p; }
    if (r.chance(25)) { histogram_publish_options p(std::move(o)); return p; }
    return o;
}
inline timer_publish_options timer1(Rng &r, Timer &m)
{
    m = Timer(); auto flip = [&](bool &b) { b = r.chance(50); return b; };
    switch (r.below(10))
    {
    case 0: return timer_publish_options();
    case 1: flip(m.rates); return timer_publish_options(m.rates);
    case 2: flip(m.rates); m.s = scale(r); return timer_publish_options(m.rates, make(m.s));
    case 3: flip(m.rates); flip(m.count); return timer_publish_options(m.rates, m.count);
    case 4: flip(m.rates); flip(m.count); m.s = scale(r); return timer_publish_options(m.rates, m.count, make(m.s));
    case 5: flip(m.rates); flip(m.count); flip(m.mean); m.s = scale(r); return timer_publish_options(m.rates, m.count, m.mean, make(m.s));
    case 6: flip(m.rates); return with_quantiles(r, m.q, [&](auto &&q) { return timer_publish_options(std::move(q), m.rates); });
    case 7: flip(m.rates); flip(m.count); m.s = scale(r); return with_quantiles(r, m.q, [&](auto &&q) { return timer_publish_options(std::move(q), m.rates, m.count, make(m.s)); });
    case 8: flip(m.rates); flip(m.count); flip(m.mean); return with_quantiles(r, m.q, [&](auto &&q) { return timer_publish_options(std::move(q), m.rates, m.count, m.mean); });
    default: flip(m.rates); flip(m.count); flip(m.mean); m.s = scale(r); return with_quantiles(r, m.q, [&](auto &&q) { return timer_publish_options(std::move(q), m.rates, m.count, m.mean, make(m.s)); });
    }
}
inline timer_publish_options timer(Rng &r, Timer &m)
{
    auto o = timer1(r, m);
    if (r.chance(25)) { Timer other; auto p = timer1(r, other); p = std::move(o); return p; }
    if (r.chance(25)) { timer_publish_options p(std::move(o)); return p; }
    return o;
}
inline publish_options all1(Rng &r, Options &m)
{
    m = Options();
    switch (r.below(10))
    {
    case 0: return publish_options();
    case 1: { auto v = value(r, m.v); return publish_options(std::move(v)); }
    case 2: { auto v = value(r, m.v); auto x = meter(r, m.m); return publish_options(std::move(v), std::move(x)); }
    case 3: { auto x = meter(r, m.m); return publish_options(std::move(x)); }
    case 4: { auto x = meter(r, m.m); auto h = hist(r, m.h); return publish_options(std::move(x), std::move(h)); }
    case 5: { auto x = meter(r, m.m); auto h = hist(r, m.h); auto t = timer(r, m.t); return publish_options(std::move(x), std::move(h), std::move(t)); }
    case 6: { auto h = hist(r, m.h); if (r.chance(50)) return publish_options(std::move(h)); auto t = timer(r, m.t); return publish_options(std::move(h), std::move(t)); }
    case 7: { auto t = timer(r, m.t); return publish_options(std::move(t)); }
    default: { auto v = value(r, m.v); auto x = meter(r, m.m); auto h = hist(r, m.h); auto t = timer(r, m.t); return publish_options(std::move(v), std::move(x), std::move(h), std::move(t)); }
    }
}
inline publish_options all(Rng &r, Options &m)
{
    auto o = all1(r, m);
    if (r.chance(25)) { Options other; auto p = all1(r, other); p = std::move(o); return p; }
    if (r.chance(25)) { publish_options p(std::move(o)); return p; }
    return o;
}
inline uint64_t hash(const Hist &h) { uint64_t x = mix(hbits(h.s.f), (uint64_t)(h.s.set + 2 * h.count + 4 * h.dist)); for (auto q : h.q) x = mix(x, hbits(q)); return x; }
inline uint64_t hash(const Options &o) { return mix(mix(hash(static_cast<const Hist &>(o.t)), hash(o.h)), mix(hbits(o.v.s.f), mix(hbits(o.m.s.f), (uint64_t)(o.m.mean + 2 * o.t.mean + 4 * o.t.rates + 8 * o.v.s.set + 16 * o.m.s.set)))); }

// a snapshot whose quantiles are all different
inline const histogram_snapshot &probe()
{
    static const histogram_snapshot *s = [] { std::vector<int64_t> v; for (int i = 0; i < 1000; i++) v.push_back((int64_t)i * i * i + 7); return new histogram_snapshot(reservoir_snapshot(v.begin(), v.end(), v.size()), 5000); }();
    return *s;
}
inline void expect(const Qs &want, const std::shared_ptr<basic_quantile_options> &q, const char *what)
{
    VF_CHECK(q != nullptr, "quantiles", "%s: no quantiles", what);
    std::vector<std::pair<double, double>> got; q->visit(probe(), [&](const quantile &p, metric_value &&v) { got.emplace_back((double)p.percentile(), (double)num(v)); });
    std::sort(got.begin(), got.end());
    VF_CHECK(got.size() == want.size(), "quantiles", "%s: %zu quantiles, expected %zu", what, got.size(), want.size());
    Nums sorted; for (int i = 0; i < 1000; i++) sorted.push_back((num_t)i * i * i + 7);
    for (size_t i = 0; i < want.size(); i++)
    {
        VF_CHECK(std::fabs(got[i].first - want[i]) < 1e-6, "quantiles", "%s: quantile %.9g, expected %.9g", what, got[i].first, want[i]);
        num_t e = quantile_of(sorted, (num_t)want[i] / 100); VF_CHECK(close(got[i].second, e, 100), "quantile-value", "%s: quantile %.9g of the probe is %.17g, expected %.17Lg", what, want[i], got[i].second, e);
    }
}
inline void expect(const Scale &w, const value_publish_options &o, const char *what) { Scale s = seen(o); VF_CHECK(s == w, "scale", "%s: scale is %s %g, expected %s %g", what, s.set ? "set," : "not set,", s.f, w.set ? "set," : "not set,", w.f); }
inline void expect(const Meter &w, const meter_publish_options &o, const char *what) { expect(w.s, o, what); VF_CHECK(o.include_mean() == w.mean, "mean", "%s: include_mean is %d", what, (int)o.include_mean()); }
inline void expect(const Hist &w, const histogram_publish_options &o, const char *what) { expect(w.s, o, what); VF_CHECK(o.include_count() == w.count, "count", "%s: include_count is %d", what, (int)o.include_count()); VF_CHECK(o.as_distribution() == w.dist, "distribution", "%s: as_distribution is %d", what, (int)o.as_distribution()); expect(w.q, o.quantiles(), what); }
inline void expect(const Timer &w, const timer_publish_options &o, const char *what) { expect(static_cast<const Hist &>(w), static_cast<const histogram_publish_options &>(o), what); VF_CHECK(o.include_mean() == w.mean, "mean", "%s: include_mean is %d", what, (int)o.include_mean()); VF_CHECK(o.include_rates() == w.rates, "rates", "%s: include_rates is %d", what, (int)o.include_rates()); expect(w.s, static_cast<const meter_publish_options &>(o), what); }
inline void expect(const Options &w, const publish_options &o, const std::string &what)
{
    expect(w.v.s, o.value_options(), (what + " (value options)").c_str()); expect(w.m, o.meter_options(), (what + " (meter options)").c_str());
    expect(w.h, o.histogram_options(), (what + " (histogram options)").c_str()); expect(w.t, o.timer_options(), (what + " (timer options)").c_str());
}
}
// a publisher whose view of the registry is open to us
template<typename R> struct Pub : cxxmetrics::metrics_publisher<typename R::repository_type>
{
    typedef cxxmetrics::metrics_publisher<typename R::repository_type> base;
    explicit Pub(R &r) : base(r) { }
    using base::effective_options; using base::get_data; using base::get_data_for; using base::has_data_for; using base::has_metric; using base::metric_type; using base::visit_one; using base::visit_all;
};
}
