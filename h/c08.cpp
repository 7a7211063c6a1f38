// C08: aggregating histograms and timers loses and invents nothing
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

// the sample of a snapshot through its public face as well, when its container can't be seen
inline void expect_stats(const reservoir_snapshot &s, Nums want, const char *what)
{
    std::sort(want.begin(), want.end());
    if (want.empty()) { VF_CHECK(s.size() == 0 && num(s.mean()) == 0 && num(s.value<50.0_p>()) == 0, "empty", "%s: empty permutations contributed something", what); return; }
    num_t mag = spread(want);
    struct { long double q; num_t got; } qs[] = {{0, num(s.value<0_p>())}, {.25L, num(s.value<25_p>())}, {.5L, num(s.value<50_p>())}, {.75L, num(s.value<75_p>())}, {.9L, num(s.value<90_p>())}, {1, num(s.value<100_p>())}};
    for (auto &q : qs)
    {
        num_t e = quantile_of(want, q.q);
        VF_CHECK(close(q.got, e, mag * 1e-9L * (num_t)want.size() + 1), "quantile", "%s: quantile %.3Lg of the aggregate is %.20Lg, expected %.20Lg of %s", what, q.q, q.got, e, show(want).c_str());
    }
}
template<typename T> T shaped(Rng &r, int shape, int p)
{
    switch (shape)
    {
    case 0: return Gen<T>::make(r);
    case 1: return (T)(int)r.below(4);              // many duplicates
    case 2: return (T)(int)(p * 1000 + (int)r.below(50)); // ranges apart, ascending
    case 3: return (T)(int)(-p * 1000 + (int)r.below(50)); // and descending
    default: return (T)7;
    }
}

template<typename Res, typename AddFn, typename SnapT> void registry_case(Rng &r, metrics_registry<> &reg, AddFn &&add, SnapT *, const char *what, bool aging = false)
{
    int P = (int)r.range(1, r.chance(20) ? 40 : 7), shape = (int)r.below(5); uint64_t recorded = 0, h = (uint64_t)P; (void)h;
    std::vector<int> order((size_t)P); std::iota(order.begin(), order.end(), 0); std::shuffle(order.begin(), order.end(), std::mt19937_64(r.u64()));
    for (int p : order) { int n = r.chance(20) ? 0 : (int)r.below(25); recorded += (uint64_t)add(p, n, shape); h = mix(h, (uint64_t)(p * 100 + n)); if (aging) vclk_advance(r.chance(60) ? r.range(0, 40) : r.range(100, 200)); }
    Nums all; uint64_t counts = 0; bool known = true; int visits = 0, aggs = 0, empties = 0;
    reg.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) {
        m.visit([&](const tag_collection &, const SnapT &s) {
            visits++; counts += s.count(); empties += s.size() == 0;
            known = Peek::into(s, all) && known;
        });
        m.aggregate([&](const SnapT &s) {
            aggs++;
            VF_CHECK(s.count() == recorded, "count", "%s: the aggregate of %d permutations counts %lu, %lu were recorded", what, P, (unsigned long)s.count(), (unsigned long)recorded);
            Nums got; if (!known || !Peek::into(s, got)) return;
            std::sort(got.begin(), got.end()); Nums want = all; std::sort(want.begin(), want.end());
            VF_CHECK(s.size() == want.size(), "sample-size", "%s: the aggregate sample of %d permutations has %zu values, %zu together", what, P, s.size(), want.size());
            VF_CHECK(got == want, "sample", "%s: the aggregate sample of %d permutations is %s, the union is %s", what, P, show(got).c_str(), show(want).c_str());
            expect_stats(s, want, what);
        });
    });
    VF_CHECK(visits == P && aggs == 1 && counts == recorded, "visits", "%s: %d permutations: %d visits, %d aggregates, counts add up to %lu of %lu", what, P, visits, aggs, (unsigned long)counts, (unsigned long)recorded);
    count("aggregates_judged"); count("permutations", (uint64_t)P); count("empty_permutations", (uint64_t)empties);
    if (P > 1) cover(mix(h, r.u64()));
    sample("%s: %d permutations, %lu recorded, aggregate sample of %zu", what, P, (unsigned long)recorded, all.size());
}
template<typename Res> void hist(Rng &r, const char *what)
{
    typedef typename Res::value_type T; metrics_registry<> reg;
    t::registry_case<Res>(r, reg, [&](int p, int n, int shape) {
        auto h = reg.histogram("h"_m, Res(), tag_collection{{"p", p}, {"q", p % 3}});
        for (int i = 0; i < n; i++) h->update(shaped<T>(r, shape, p));
        return n;
    }, (histogram_snapshot *)nullptr, what);
}
VF_SEQ(hist_simple_i64, 3) { hist<simple_reservoir<int64_t, 8>>(r, "simple int64"); }
VF_SEQ(hist_simple_dbl, 2) { hist<simple_reservoir<double, 20>>(r, "simple double"); }
VF_SEQ(hist_uniform_i32, 2) { hist<uniform_reservoir<int32_t, 10>>(r, "uniform int32"); }
VF_SEQ(hist_uniform_u64, 1) { hist<uniform_reservoir<uint64_t, 30>>(r, "uniform uint64"); }
VF_SEQ(hist_sliding, 1) { hist<sliding_window_reservoir<int64_t, 12>>(r, "sliding int64"); }
// values grow old and leave the samples, but not the counts
VF_SEQ(hist_expired, 2)
{
    typedef sliding_window_reservoir<int64_t, 12> Res; metrics_registry<> reg;
    t::registry_case<Res>(r, reg, [&](int p, int n, int shape) {
        auto h = reg.histogram("h"_m, Res(nanoseconds(100)), tag_collection{{"p", p}, {"q", p % 3}});
        for (int i = 0; i < n; i++) h->update(shaped<int64_t>(r, shape, p));
        return n;
    }, (histogram_snapshot *)nullptr, "expiring int64", true);
}
VF_SEQ(timer_expired, 1)
{
    typedef sliding_window_reservoir<steady_clock::duration, 12> Res; metrics_registry<> reg;
    t::registry_case<Res>(r, reg, [&](int p, int n, int shape) {
        auto t = reg.timer<1_sec, steady_clock, Res, 1_min, 5_min>("t"_m, Res(nanoseconds(100)), tag_collection{{"p", p}, {"q", p % 3}});
        uint64_t c = 0; for (int i = 0; i < n; i++) { auto d = shaped<nanoseconds>(r, shape, p); t->update(d); c += d.count() != 0; }
        return (int)c;
    }, (timer_snapshot *)nullptr, "expiring timer", true);
}
VF_SEQ(hist_ms, 1) { hist<simple_reservoir<milliseconds, 9>>(r, "simple milliseconds"); }

template<typename Res> void timers(Rng &r, const char *what)
{
    metrics_registry<> reg; typedef typename Res::value_type D;
    t::registry_case<Res>(r, reg, [&](int p, int n, int shape) {
        auto t = reg.timer<1_sec, steady_clock, Res, 1_min, 5_min>("t"_m, Res(), tag_collection{{"p", p}, {"q", p % 3}});
        uint64_t c = t->count();
        for (int i = 0; i < n; i++) { D d = shaped<D>(r, shape, p); t->update(d); c += d.count() != 0; if (r.chance(10)) vclk_advance(r.range(0, 1000000000)); }
        VF_CHECK(t->count() == c, "count", "timer count");
        return (int)c;
    }, (timer_snapshot *)nullptr, what);
}
VF_SEQ(timer_simple, 2) { timers<simple_reservoir<steady_clock::duration, 8>>(r, "timer simple"); }
VF_SEQ(timer_uniform, 1) { timers<uniform_reservoir<steady_clock::duration, 16>>(r, "timer uniform"); }

// snapshots merged directly, in several orders and groupings
template<typename T> void direct(Rng &r)
{
    int P = (int)r.range(1, 9), shape = (int)r.below(5); std::vector<std::vector<T>> vals((size_t)P); Nums all; uint64_t total = 0; std::vector<uint64_t> counts;
    for (int p = 0; p < P; p++)
    {
        int n = r.chance(25) ? 0 : (int)r.below(30);
        for (int i = 0; i < n; i++) { vals[(size_t)p].push_back(shaped<T>(r, shape, p)); all.push_back(num(vals[(size_t)p].back())); }
        counts.push_back((uint64_t)n + r.below(r.chance(10) ? 1ULL << 40 : 100)); total += counts.back();
    }
    for (int round = 0; round < 3; round++)
    {
        std::vector<histogram_snapshot> s; std::vector<int> order((size_t)P); std::iota(order.begin(), order.end(), 0); std::shuffle(order.begin(), order.end(), std::mt19937_64(r.u64()));
        for (int p : order) s.push_back(histogram_snapshot(reservoir_snapshot(vals[(size_t)p].data(), vals[(size_t)p].size()), counts[(size_t)p]));
        while (s.size() > 1)
        {
            size_t a = round == 0 ? 0 : r.below(s.size()), b = round == 0 ? 1 : r.below(s.size()); if (a == b) continue;
            uint64_t bc = s[b].count(); size_t bs = s[b].size();
            s[a].merge(s[b]);
            VF_CHECK(s[b].count() == bc && s[b].size() == bs, "merged-changed", "merging changed the other snapshot");
            s.erase(s.begin() + (long)b);
        }
        VF_CHECK(s[0].count() == total, "count", "merged count %lu, expected %lu", (unsigned long)s[0].count(), (unsigned long)total);
        expect_stats(s[0], all, "direct");
        expect_sample(std::move(s[0]), all, "sample", "merged directly");
        count("merges_judged");
    }
    if (P > 1) cover(mix(hstr(show(all)), (uint64_t)P));
}
VF_SEQ(direct_i64, 2) { direct<int64_t>(r); }
VF_SEQ(direct_dbl, 1) { direct<double>(r); }
VF_SEQ(direct_u64, 1) { direct<uint64_t>(r); }
VF_SEQ(direct_us, 1) { direct<microseconds>(r); }
}}
