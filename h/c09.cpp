// C09: aggregated counters, gauges, averages and meters are exact
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <deque>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

static int perms(Rng &r) { return (int)(r.chance(15) ? r.range(20, 120) : r.range(1, 9)); }
static tag_collection tags(int p) { return tag_collection{{"p", p}, {"odd", p % 2 ? "yes" : "no"}}; }
static std::vector<int> shuffled(Rng &r, int n) { std::vector<int> o((size_t)n); std::iota(o.begin(), o.end(), 0); std::shuffle(o.begin(), o.end(), std::mt19937_64(r.u64())); return o; }

struct Agg { int sums = 0, avgs = 0, meters = 0; num_t v = 0; std::map<int64_t, num_t> rates; };
static Agg aggregate(metrics_registry<> &reg, int expect_visits, Nums *each = nullptr, std::vector<std::map<int64_t, num_t>> *each_rates = nullptr)
{
    Agg a;
    reg.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) {
        struct V
        {
            Agg &a;
            void operator()(const cumulative_value_snapshot &s) const { a.sums++; a.v = num(s.value()); }
            void operator()(const average_value_snapshot &s) const { a.avgs++; a.v = num(s.value()); }
            void operator()(const meter_snapshot &s) const { a.meters++; a.v = num(s.value()); for (auto &p : s) a.rates[p.first.count()] = num(p.second); }
        };
        struct E
        {
            Nums *each; std::vector<std::map<int64_t, num_t>> *rates; int *n;
            void operator()(const tag_collection &, const cumulative_value_snapshot &s) const { ++*n; if (each) each->push_back(num(s.value())); }
            void operator()(const tag_collection &, const average_value_snapshot &s) const { ++*n; if (each) each->push_back(num(s.value())); }
            void operator()(const tag_collection &, const meter_snapshot &s) const { ++*n; if (each) each->push_back(num(s.value())); if (rates) { rates->emplace_back(); for (auto &p : s) rates->back()[p.first.count()] = num(p.second); } }
        };
        int n = 0;
        m.visit([](const tag_collection &, const average_value_snapshot &) { }); // averages close the interval when they are read
        m.visit(E{each, each_rates, &n}); VF_CHECK(n == expect_visits, "visits", "%d visits of %d permutations", n, expect_visits);
        m.aggregate(V{a});
    });
    VF_CHECK(a.sums + a.avgs + a.meters == 1, "aggregates", "the aggregate handler was called %d times", a.sums + a.avgs + a.meters);
    count("aggregates_judged"); count("permutations", (uint64_t)expect_visits);
    return a;
}
static void expect_sum(const Agg &a, const Nums &v, const char *what, bool exact)
{
    num_t t = 0, mag = 0; for (auto x : v) { t += x; mag += std::fabs(x); }
    VF_CHECK(a.sums == 1, "kind", "%s: the aggregate isn't cumulative", what);
    VF_CHECK(exact ? a.v == t : close(a.v, t, mag * 1e-14L), "sum", "%s: aggregate %.20Lg of %zu permutations, the sum is %.20Lg of %s", what, a.v, v.size(), t, show(v).c_str());
    if (v.size() > 1) { uint64_t h = v.size(); for (auto x : v) h = mix(h, hbits((double)x)); cover(h); }
    sample("%s: %zu permutations, sum %.17Lg of %s", what, v.size(), t, show(v).c_str());
}
static void expect_mean(num_t got, const Nums &v, const char *what, num_t unit)
{
    num_t mag = 0; for (auto x : v) mag = std::max(mag, std::fabs(x));
    num_t e = mean_of(v);
    VF_CHECK(close(got, e, mag * 1e-14L * (num_t)(10 + v.size()) + unit), "average", "%s: aggregate %.20Lg of %zu permutations, the average is %.20Lg of %s", what, got, v.size(), e, show(v).c_str());
    if (v.size() > 1) { uint64_t h = v.size(); for (auto x : v) h = mix(h, hbits((double)x)); cover(h); }
    sample("%s: %zu permutations, average %.17Lg of %s", what, v.size(), e, show(v).c_str());
}

template<typename T> void counters(Rng &r)
{
    metrics_registry<> reg; int P = perms(r); Nums v;
    for (int p : shuffled(r, P))
    {
        T init = (T)r.range(0, 50), by = std::is_unsigned<T>::value ? (T)(r.u64() >> (r.chance(50) ? 58 : sizeof(T) == 8 ? 12 : 44)) : (T)r.wide(sizeof(T) == 8 ? 50 : 20);
        bool given = r.chance(50);
        auto c = given ? reg.counter<T>("c"_m, (T)init, tags(p)) : reg.counter<T>("c"_m, tags(p));
        *c += by; v.push_back((num_t)(T)((given ? init : 0) + by));
    }
    expect_sum(t::aggregate(reg, P), v, "counter", true);
}
VF_SEQ(counter_i64, 2) { counters<int64_t>(r); }
VF_SEQ(counter_u64, 1) { counters<uint64_t>(r); }
VF_SEQ(counter_i32, 1) { counters<int32_t>(r); }

template<typename T> struct GV { static T make(Rng &r) { return (T)r.wide(sizeof(T) == 8 ? 50 : 20); } static constexpr bool exact = true; static constexpr long double unit = 0; };
template<> struct GV<double> { static double make(Rng &r) { return r.chance(30) ? (double)r.range(-5, 5) : (r.real() - 0.5) * std::pow(10.0, (double)r.range(-6, 12)); } static constexpr bool exact = false; static constexpr long double unit = 0; };
template<> struct GV<nanoseconds> { static nanoseconds make(Rng &r) { return nanoseconds(r.wide(50)); } static constexpr bool exact = true; static constexpr long double unit = 60; };
template<typename T, gauges::gauge_aggregation_type A> void gauges_case(Rng &r)
{
    metrics_registry<> reg; int P = perms(r), kind = (int)r.below(4); std::deque<T> vars; Nums v;
    static const char *const kinds[] = {"value gauge", "reference gauge", "pointer gauge", "function gauge"};
    vars.resize((size_t)P);
    for (int p : shuffled(r, P))
    {
        T &x = vars[(size_t)p]; x = GV<T>::make(r); T first = x;
        switch (kind)
        {
        case 0: { auto g = reg.gauge<T, A>("g"_m, T(x), tags(p)); if (r.chance(50)) { x = GV<T>::make(r); g->set(x); } break; }
        case 1: reg.gauge<T &, A>("g"_m, x, tags(p)); if (r.chance(50)) x = GV<T>::make(r); break;
        case 2: reg.gauge<T *, A>("g"_m, &x, tags(p)); if (r.chance(50)) x = GV<T>::make(r); break;
        default: { T *px = &x; reg.gauge<std::function<T()>, A>("g"_m, std::function<T()>([px] { return *px; }), tags(p)); if (r.chance(50)) x = GV<T>::make(r); }
        }
        (void)first;
    }
    for (auto &x : vars) v.push_back(num(x));
    auto a = t::aggregate(reg, P);
    if (A == gauges::aggregation_sum) expect_sum(a, v, kinds[kind], GV<T>::exact);
    else { VF_CHECK(a.avgs == 1, "kind", "the aggregate of a %s isn't an average", kinds[kind]); expect_mean(a.v, v, kinds[kind], GV<T>::unit); }
    // and again after the sources changed
    if (kind && r.chance(50))
    {
        v.clear(); for (auto &x : vars) { x = GV<T>::make(r); v.push_back(num(x)); }
        a = t::aggregate(reg, P);
        if (A == gauges::aggregation_sum) expect_sum(a, v, kinds[kind], GV<T>::exact); else expect_mean(a.v, v, kinds[kind], GV<T>::unit);
    }
}
VF_SEQ(gauge_sum_i64, 2) { gauges_case<int64_t, gauges::aggregation_sum>(r); }
VF_SEQ(gauge_avg_i64, 2) { gauges_case<int64_t, gauges::aggregation_average>(r); }
VF_SEQ(gauge_sum_dbl, 2) { gauges_case<double, gauges::aggregation_sum>(r); }
VF_SEQ(gauge_avg_dbl, 2) { gauges_case<double, gauges::aggregation_average>(r); }
VF_SEQ(gauge_sum_i32, 1) { gauges_case<int32_t, gauges::aggregation_sum>(r); }
VF_SEQ(gauge_avg_i32, 1) { gauges_case<int32_t, gauges::aggregation_average>(r); }
VF_SEQ(gauge_sum_ns, 1) { gauges_case<nanoseconds, gauges::aggregation_sum>(r); }

// durations: averages are plain numbers in the unit of the gauge, sums stay durations
template<typename D> void duration_gauges(Rng &r)
{
    metrics_registry<> reg; int P = perms(r); bool sum = r.chance(40); Nums v; num_t ns_total = 0, one = (num_t)duration_cast<nanoseconds>(D(1)).count();
    for (int p : shuffled(r, P))
    {
        D x((typename D::rep)r.wide(30));
        if (sum) reg.gauge<D, gauges::aggregation_sum>("g"_m, D(x), tags(p)); else reg.gauge<D, gauges::aggregation_average>("g"_m, D(x), tags(p));
        v.push_back((num_t)x.count()); ns_total += (num_t)x.count() * one;
    }
    num_t number = 0, as_ns = 0; int calls = 0;
    struct V { num_t &n, &d; int &calls; void operator()(const value_snapshot &s) const { calls++; n = static_cast<long double>(s.value()); nanoseconds x = s.value(); d = (num_t)x.count(); } };
    reg.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.aggregate(V{number, as_ns, calls}); });
    VF_CHECK(calls == 1, "aggregates", "the aggregate handler was called %d times", calls); count("aggregates_judged");
    if (sum)
    {
        VF_CHECK(as_ns == ns_total, "sum", "the sum of %zu durations of %.0Lf ns is %.20Lg ns, expected %.20Lg", v.size(), one, as_ns, ns_total);
        cover(mix(hstr(show(v)), 1)); return;
    }
    Agg a; a.v = number; expect_mean(a.v, v, "gauge of durations", 0);
    num_t mean = ns_total / (num_t)P;
    if (one == 1 || P == 1) VF_CHECK(std::fabs(as_ns - mean) <= one + 1 + P, "mean-as-duration", "the mean of %zu durations of %.0Lf ns is %.20Lg ns, expected %.20Lg", v.size(), one, as_ns, mean);
    else if (r.chance(2)) VF_CHECK(std::fabs(as_ns - mean) <= one + 1, "mean-as-duration-of-coarse-unit", "the mean of %zu durations of %.0Lf ns reads as %.20Lg ns, expected %.20Lg", v.size(), one, as_ns, mean);
}
VF_SEQ(gauge_durations, 2) { switch (r.below(4)) { case 0: return duration_gauges<nanoseconds>(r); case 1: return duration_gauges<microseconds>(r); case 2: return duration_gauges<milliseconds>(r); default: return duration_gauges<seconds>(r); } }

VF_SEQ(ewma_average, 2)
{
    metrics_registry<> reg; int P = perms(r); Nums v;
    std::vector<std::shared_ptr<ewma<1_min, 1_sec>>> es; for (int p : shuffled(r, P)) es.push_back(reg.ewma<1_min, 1_sec>("e"_m, tags(p)));
    int n = (int)r.below(200); for (int i = 0; i < n; i++) { es[r.below(es.size())]->mark(r.range(0, 1000)); vclk_advance(r.range(0, 400000000)); }
    auto a = t::aggregate(reg, P, &v);
    VF_CHECK(a.avgs == 1, "kind", "the aggregate of moving averages isn't an average");
    Nums own; for (auto &e : es) own.push_back((num_t)static_cast<const ewma<1_min, 1_sec> &>(*e).rate());
    Nums s1 = v, s2 = own; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
    VF_CHECK(s1 == s2, "visit-values", "visits report %s, the averages are %s", show(s1).c_str(), show(s2).c_str());
    expect_mean(a.v, v, "moving averages", 0);
}
VF_SEQ(meter_average, 3)
{
    metrics_registry<> reg; int P = perms(r); Nums v; std::vector<std::map<int64_t, num_t>> rates;
    typedef meter<1_sec, 5_min, 1_min, 15_min> M;
    std::vector<std::shared_ptr<M>> ms; for (int p : shuffled(r, P)) { ms.push_back(reg.meter<1_sec, 5_min, 1_min, 15_min>("m"_m, tags(p))); vclk_advance(r.range(0, 100000000)); }
    int n = (int)r.below(200); for (int i = 0; i < n; i++) { ms[r.below(ms.size())]->mark(r.range(0, 1000)); vclk_advance(r.range(0, 400000000)); }
    auto a = t::aggregate(reg, P, &v, &rates);
    VF_CHECK(a.meters == 1, "kind", "the aggregate of meters isn't a meter's");
    Nums own; for (auto &m : ms) own.push_back((num_t)m->mean());
    Nums s1 = v, s2 = own; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
    VF_CHECK(s1 == s2, "visit-values", "visits report means %s, the meters' are %s", show(s1).c_str(), show(s2).c_str());
    expect_mean(a.v, v, "meter means", 0);
    VF_CHECK(a.rates.size() == 3, "windows", "the aggregate has %zu windows", a.rates.size());
    for (auto &p : a.rates)
    {
        Nums w; for (auto &m : rates) { VF_CHECK(m.count(p.first), "windows", "a window is missing from a permutation"); w.push_back(m[p.first]); }
        VF_CHECK(p.first == 60000000000LL || p.first == 300000000000LL || p.first == 900000000000LL, "windows", "unknown window %lld", (long long)p.first);
        expect_mean(p.second, w, "meter windows", 0);
    }
}
VF_SEQ(timer_rates, 1)
{
    metrics_registry<> reg; int P = perms(r); Nums v;
    typedef simple_reservoir<nanoseconds, 4> R; typedef timer<1_sec, steady_clock, R, 1_min, 1_hour> T; std::vector<std::shared_ptr<T>> ts;
    for (int p : shuffled(r, P)) ts.push_back(reg.timer<1_sec, steady_clock, R, 1_min, 1_hour>("t"_m, R(), tags(p)));
    int n = (int)r.below(100); for (int i = 0; i < n; i++) { ts[r.below(ts.size())]->update(nanoseconds(r.range(1, 1000000))); vclk_advance(r.range(0, 700000000)); }
    Nums means; std::vector<std::map<int64_t, num_t>> rates; int calls = 0;
    reg.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) {
        m.visit([](const tag_collection &, const timer_snapshot &) { });
        m.visit([&](const tag_collection &, const timer_snapshot &s) { means.push_back(num(s.rate().value())); rates.emplace_back(); for (auto &p : s.rate()) rates.back()[p.first.count()] = num(p.second); });
        m.aggregate([&](const timer_snapshot &s) {
            calls++;
            expect_mean(num(s.rate().value()), means, "timer rate means", 0);
            size_t k = 0;
            for (auto &p : s.rate()) { Nums w; for (auto &x : rates) w.push_back(x[p.first.count()]); expect_mean(num(p.second), w, "timer windows", 0); k++; }
            VF_CHECK(k == 2, "windows", "%zu windows", k);
        });
    });
    VF_CHECK(calls == 1 && (int)means.size() == P, "aggregates", "%d aggregates, %zu visits", calls, means.size());
    count("aggregates_judged");
}
// merging directly in several groupings and orders
VF_SEQ(merge_orders, 2)
{
    int P = (int)r.range(2, 12); Nums v; std::vector<double> d; std::vector<int64_t> n; for (int i = 0; i < P; i++) { d.push_back(GV<double>::make(r)); n.push_back(r.wide(50)); v.push_back(d.back()); }
    num_t isum = 0; for (auto x : n) isum += (num_t)x;
    for (int round = 0; round < 3; round++)
    {
        std::vector<average_value_snapshot> a; std::vector<cumulative_value_snapshot> c; std::vector<meter_snapshot> m;
        for (int i : shuffled(r, P))
        {
            a.emplace_back(metric_value(d[(size_t)i])); c.emplace_back(metric_value(n[(size_t)i]));
            std::unordered_map<steady_clock::duration, metric_value> w; w.emplace(minutes(1), metric_value(d[(size_t)i] * 2)); w.emplace(minutes(5), metric_value(d[(size_t)i] + 1));
            m.emplace_back(metric_value(d[(size_t)i]), std::move(w));
        }
        while (a.size() > 1)
        {
            size_t x = r.below(a.size()), y = r.below(a.size()); if (x == y) continue;
            a[x].merge(a[y]); c[x].merge(c[y]); m[x].merge(m[y]);
            a.erase(a.begin() + (long)y); c.erase(c.begin() + (long)y); m.erase(m.begin() + (long)y);
        }
        VF_CHECK(num(c[0].value()) == isum, "sum", "merged sum %.20Lg, expected %.20Lg", num(c[0].value()), isum);
        expect_mean(num(a[0].value()), v, "merged averages", 0); expect_mean(num(m[0].value()), v, "merged meters", 0);
        int k = 0;
        for (auto &p : m[0]) { Nums w; for (auto x : v) w.push_back(p.first == minutes(1) ? x * 2 : (num_t)((double)x + 1)); k++; expect_mean(num(p.second), w, "merged windows", 0); }
        VF_CHECK(k == 2, "windows", "%d windows after merging", k);
        count("merges_judged");
    }
}
// so many that a small counter of them would run over
VF_SEQ(merge_many, 1)
{
    if (!r.chance(25)) { cover(0); return; }
    static const int edges[] = {127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000}; int P = edges[r.below(r.chance(50) ? 12 : 19)]; int64_t top = r.chance(50) ? 5 : 1000000; bool halves = r.chance(40);
    auto average = [&](double x) { return average_value_snapshot(metric_value(x)); }; auto of_meter = [&](double x) { std::unordered_map<steady_clock::duration, metric_value> w; w.emplace(minutes(1), metric_value(x + 1)); return meter_snapshot(metric_value(x), std::move(w)); };
    double first = (double)r.range(0, top); average_value_snapshot a = average(first), a2 = average(0); meter_snapshot m = of_meter(first), m2 = of_meter(0); num_t sum = (num_t)first; int n = 1, in2 = 0, meters = P <= 1000 ? P : 2; num_t msum = sum; int mn = 1, mn2 = 0, split = halves ? (int)r.range(1, P - 1) : P;
    auto judge = [&](const average_value_snapshot &s, num_t total, int k, const char *what) { num_t e = total / k, got = num(s.value()); VF_CHECK(close(got, e, (num_t)top * 1e-14L * (num_t)(100 + k)), "average", "%s of %d is %.17Lg, expected %.17Lg", what, k, got, e); count("merges_judged"); };
    while (n < P)
    {
        double x = (double)r.range(0, top); sum += (num_t)x;
        if (n < split) a.merge(average(x)); else if (!in2++) a2 = average(x); else a2.merge(average(x));
        if (n < meters) { msum += (num_t)x; mn++; if (n < split) m.merge(of_meter(x)); else if (!mn2++) m2 = of_meter(x); else m2.merge(of_meter(x)); }
        n++;
        if (!in2 && ((n & (n - 1)) == 0 || (n & (n + 1)) == 0)) judge(a, sum, n, "the average");
    }
    if (in2) a.merge(a2); if (mn2) m.merge(m2);
    judge(a, sum, n, "the average"); judge(m, msum, mn, "the average of meters"); for (auto &p : m) VF_CHECK(close(num(p.second), msum / mn + 1, (num_t)top * 1e-11L), "average", "the window of %d meters has %.17Lg, expected %.17Lg", mn, num(p.second), msum / mn + 1);
    cover(mix((uint64_t)P, mix((uint64_t)sum, (uint64_t)split))); smax("most_merged", (uint64_t)P); sample("%d merged, average %.17Lg", n, sum / n);
}
// meters of different windows: what both measure is averaged, what only one does can't have been measured by the other
VF_SEQ(merge_windows, 1)
{
    auto some = [&](std::map<int, double> &w, double x) {
        std::unordered_map<steady_clock::duration, metric_value> m;
        for (int k = 1; k < 6; k++) if (r.chance(50)) { w[k] = GV<double>::make(r); m.emplace(minutes(k), metric_value(w[k])); }
        return meter_snapshot(metric_value(x), std::move(m));
    };
    std::map<int, double> wa, wb; double xa = GV<double>::make(r), xb = GV<double>::make(r);
    auto a = some(wa, xa), b = some(wb, xb);
    a.merge(b); Nums both{xa, xb}; expect_mean(num(a.value()), both, "meters of other windows", 0);
    std::map<int, int> seen;
    for (auto &p : a)
    {
        int k = (int)duration_cast<minutes>(p.first).count(); seen[k]++;
        VF_CHECK(wa.count(k) || wb.count(k), "windows", "a window of %d minutes, which neither has", k);
        if (wa.count(k) && wb.count(k)) { Nums w{wa[k], wb[k]}; expect_mean(num(p.second), w, "a window of both", 0); count("shared_windows"); }
        else if (wa.count(k)) { VF_CHECK(num(p.second) == wa[k], "windows", "the rate %.20Lg of a window the other doesn't have has become %.20Lg", (num_t)wa[k], num(p.second)); count("own_windows"); }
    }
    for (auto &p : wa) VF_CHECK(seen[p.first] == 1, "windows", "%d windows of %d minutes", seen[p.first], p.first);
}
}}
