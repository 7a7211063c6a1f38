#pragma once
// Metrics of many types behind one interface, for what a registry does with all of them.
#include "snap.hpp"
#include <deque>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
namespace vf
{
typedef cxxmetrics::metrics_registry<> Reg;
// to be passed around: looking up functions with a registry among the arguments doesn't compile
struct Box { Reg r; };
typedef std::shared_ptr<cxxmetrics::internal::metric> Handle;
typedef cxxmetrics::tag_collection Tags;
typedef cxxmetrics::metric_path Path;
enum Family { F_SUM, F_AVG, F_METER, F_HIST, F_TIMER };
// what a snapshot says
struct Reading
{
    Family family = F_SUM; num_t value = 0; uint64_t count = 0, size = 0; Nums sample; std::map<int64_t, num_t> rates;
    bool operator==(const Reading &o) const { return family == o.family && value == o.value && count == o.count && size == o.size && sample == o.sample && rates == o.rates; }
    std::string text() const
    {
        char b[128]; snprintf(b, sizeof b, "kind %d value %.20Lg count %lu size %lu sample ", (int)family, value, (unsigned long)count, (unsigned long)size); std::string s = b + show(sample);
        for (auto &p : rates) { snprintf(b, sizeof b, " %lld:%.20Lg", (long long)p.first, p.second); s += b; }
        return s;
    }
};
inline void rates_of(Reading &r, const cxxmetrics::meter_snapshot &s) { r.value = num(s.value()); for (auto &p : s) r.rates[p.first.count()] = num(p.second); }
inline void sample_of(Reading &r, const cxxmetrics::histogram_snapshot &s) { r.count = s.count(); r.size = s.size(); Peek::into(s, r.sample); std::sort(r.sample.begin(), r.sample.end()); }
inline Reading reading(const cxxmetrics::cumulative_value_snapshot &s) { Reading r; r.family = F_SUM; r.value = num(s.value()); return r; }
inline Reading reading(const cxxmetrics::average_value_snapshot &s) { Reading r; r.family = F_AVG; r.value = num(s.value()); return r; }
inline Reading reading(const cxxmetrics::meter_snapshot &s) { Reading r; r.family = F_METER; rates_of(r, s); return r; }
inline Reading reading(const cxxmetrics::histogram_snapshot &s) { Reading r; r.family = F_HIST; sample_of(r, s); return r; }
inline Reading reading(const cxxmetrics::timer_snapshot &s) { Reading r; r.family = F_TIMER; sample_of(r, s); rates_of(r, s.rate()); return r; }

struct Kind
{
    std::string name; Family family; bool last = false, fixed = false; num_t constant = 0; size_t cap = 0, windows = 0;
    std::function<Handle(Reg &, const Path &, const Tags &)> request;
    std::function<Handle()> fresh;
    std::function<bool(Reg &, const Path &, const Handle &, const Tags &)> existing;
    std::function<bool(Reg &, const Path &, const Tags &)> null;
    std::function<void(const Handle &, int64_t)> add;
    std::function<Reading(const Handle &)> read;
    // the value of a metric that was given these
    num_t value(const std::vector<int64_t> &v) const
    {
        if (fixed) return constant;
        if (last) return v.empty() ? 0 : (num_t)v.back();
        num_t t = 0; for (auto x : v) t += (num_t)x; return t;
    }
    Nums sample(const std::vector<int64_t> &v) const { Nums r; for (size_t i = v.size() > cap ? v.size() - cap : 0; i < v.size(); i++) r.push_back((num_t)v[i]); return r; }
};
template<typename M> Kind kind_of(const char *name, Family f, std::function<std::shared_ptr<M>(Reg &, const Path &, const Tags &)> req, std::function<std::shared_ptr<M>()> fresh, std::function<void(M &, int64_t)> add)
{
    Kind k; k.name = name; k.family = f;
    k.request = [req](Reg &r, const Path &p, const Tags &t) { return Handle(req(r, p, t)); };
    k.fresh = [fresh] { return Handle(fresh()); };
    k.existing = [](Reg &r, const Path &p, const Handle &h, const Tags &t) { return r.register_existing<M>(p, std::dynamic_pointer_cast<M>(h), t); };
    k.null = [](Reg &r, const Path &p, const Tags &t) { return r.register_existing<M>(p, std::shared_ptr<M>(), t); };
    k.add = [add](const Handle &h, int64_t v) { add(dynamic_cast<M &>(*h), v); };
    k.read = [](const Handle &h) { return reading(dynamic_cast<M &>(*h).snapshot()); };
    return k;
}
namespace kinds
{
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;
template<typename T> Kind make_counter(const char *n)
{
    typedef counter<T> M; return kind_of<M>(n, F_SUM, [](Reg &r, const Path &p, const Tags &t) { return r.counter<T>(p, t); }, [] { return std::make_shared<M>(); }, [](M &m, int64_t v) { m += (T)v; });
}
template<typename T, gauges::gauge_aggregation_type A> Kind make_gauge(const char *n)
{
    typedef gauge<T, A> M; auto k = kind_of<M>(n, A == gauges::aggregation_sum ? F_SUM : F_AVG, [](Reg &r, const Path &p, const Tags &t) { return r.gauge<T, A>(p, T(), t); }, [] { return std::make_shared<M>(); }, [](M &m, int64_t v) { m.set((T)v); });
    k.last = true; return k;
}
inline double &variable() { static double v = 17.5; return v; }
template<gauges::gauge_aggregation_type A> Kind make_ref_gauge(const char *n)
{
    typedef gauge<double &, A> M; auto k = kind_of<M>(n, A == gauges::aggregation_sum ? F_SUM : F_AVG, [](Reg &r, const Path &p, const Tags &t) { return r.gauge<double &, A>(p, variable(), t); }, [] { return std::make_shared<M>(variable()); }, [](M &, int64_t) { });
    k.fixed = true; k.constant = 17.5; return k;
}
template<gauges::gauge_aggregation_type A> Kind make_ptr_gauge(const char *n)
{
    typedef gauge<double *, A> M; auto k = kind_of<M>(n, A == gauges::aggregation_sum ? F_SUM : F_AVG, [](Reg &r, const Path &p, const Tags &t) { return r.gauge<double *, A>(p, &variable(), t); }, [] { return std::make_shared<M>(&variable()); }, [](M &, int64_t) { });
    k.fixed = true; k.constant = 17.5; return k;
}
template<typename T, gauges::gauge_aggregation_type A> Kind make_fn_gauge(const char *n)
{
    typedef gauge<std::function<T()>, A> M; std::function<T()> f = [] { return (T)42; };
    auto k = kind_of<M>(n, A == gauges::aggregation_sum ? F_SUM : F_AVG, [f](Reg &r, const Path &p, const Tags &t) { return r.gauge<std::function<T()>, A>(p, std::function<T()>(f), t); }, [f] { return std::make_shared<M>(f); }, [](M &, int64_t) { });
    k.fixed = true; k.constant = 42; return k;
}
template<period::value W, period::value I, typename T> Kind make_ewma(const char *n)
{
    typedef ewma<W, I, T> M; return kind_of<M>(n, F_AVG, [](Reg &r, const Path &p, const Tags &t) { return r.ewma<W, I, T>(p, t); }, [] { return std::make_shared<M>(); }, [](M &m, int64_t v) { m.mark((T)v); });
}
template<period::value I, period::value... W> Kind make_meter(const char *n)
{
    typedef meter<I, W...> M; auto k = kind_of<M>(n, F_METER, [](Reg &r, const Path &p, const Tags &t) { return r.meter<I, W...>(p, t); }, [] { return std::make_shared<M>(); }, [](M &m, int64_t v) { m.mark(v); });
    k.windows = sizeof...(W); return k;
}
template<typename R> Kind make_hist(const char *n, size_t cap)
{
    typedef typename R::value_type T; typedef histogram<T, R> M; auto k = kind_of<M>(n, F_HIST, [](Reg &r, const Path &p, const Tags &t) { return r.histogram(p, R(), t); }, [] { return std::make_shared<M>(); }, [](M &m, int64_t v) { m.update((T)v); });
    k.cap = cap; return k;
}
template<period::value I, typename C, typename R, period::value... W> Kind make_timer(const char *n, size_t cap)
{
    typedef timer<I, C, R, W...> M; auto k = kind_of<M>(n, F_TIMER, [](Reg &r, const Path &p, const Tags &t) { return r.timer<I, C, R, W...>(p, R(), t); }, [] { return std::make_shared<M>(); }, [](M &m, int64_t v) { m.update(nanoseconds(v)); });
    k.cap = cap; k.windows = sizeof...(W); return k;
}
typedef simple_reservoir<nanoseconds, 8> NsRes;
inline const std::vector<Kind> &all()
{
    static const std::vector<Kind> v{
        make_counter<int64_t>("counter<int64>"), make_counter<int32_t>("counter<int32>"), make_counter<uint64_t>("counter<uint64>"),
        make_gauge<double, gauges::aggregation_average>("gauge<double,average>"), make_gauge<double, gauges::aggregation_sum>("gauge<double,sum>"), make_gauge<int64_t, gauges::aggregation_sum>("gauge<int64,sum>"),
        make_ref_gauge<gauges::aggregation_average>("gauge<double&,average>"), make_ref_gauge<gauges::aggregation_sum>("gauge<double&,sum>"),
        make_fn_gauge<double, gauges::aggregation_average>("gauge<function<double>,average>"), make_fn_gauge<int, gauges::aggregation_average>("gauge<function<int>,average>"), make_fn_gauge<double, gauges::aggregation_sum>("gauge<function<double>,sum>"),
        make_ewma<1_min, 1_sec, double>("ewma<1min,1s>"), make_ewma<5_min, 1_sec, double>("ewma<5min,1s>"), make_ewma<1_min, 5_sec, double>("ewma<1min,5s>"), make_ewma<1_min, 1_sec, int64_t>("ewma<1min,1s,int64>"),
        make_meter<1_sec, 1_min>("meter<1s,1min>"), make_meter<1_sec, 1_min, 5_min>("meter<1s,1min,5min>"), make_meter<5_sec, 1_min>("meter<5s,1min>"), make_meter<1_sec>("meter<1s>"),
        make_hist<simple_reservoir<int64_t, 8>>("histogram<simple<int64,8>>", 8), make_hist<simple_reservoir<int64_t, 9>>("histogram<simple<int64,9>>", 9), make_hist<simple_reservoir<double, 8>>("histogram<simple<double,8>>", 8), make_hist<uniform_reservoir<int64_t, 64>>("histogram<uniform<int64,64>>", 64), make_hist<sliding_window_reservoir<int64_t, 8>>("histogram<sliding<int64,8>>", 8),
        make_timer<1_sec, steady_clock, NsRes, 1_min>("timer<1s,steady,simple8,1min>", 8), make_timer<1_sec, system_clock, NsRes, 1_min>("timer<1s,system,simple8,1min>", 8), make_timer<1_sec, steady_clock, NsRes>("timer<1s,steady,simple8>", 8), make_timer<1_sec, steady_clock, simple_reservoir<nanoseconds, 9>, 1_min>("timer<1s,steady,simple9,1min>", 9), make_timer<10_sec, steady_clock, NsRes, 1_min>("timer<10s,steady,simple8,1min>", 8),
        make_ptr_gauge<gauges::aggregation_average>("gauge<double*,average>"), make_ptr_gauge<gauges::aggregation_sum>("gauge<double*,sum>"),
    };
    return v;
}
}
// how many values one metric is given before the capacity of its uniform reservoir would matter
enum { MAX_VALUES = 40 };

// paths and tags, by number, written in different ways
inline std::vector<std::string> path_parts(int i)
{
    static const char *const w[] = {"a", "b", "app", "requests", "x y", "a:b", "\xc3\xa9", "1"};
    std::vector<std::string> r{w[i % 8]}; i /= 8; while (i) { r.push_back(w[i % 8]); i /= 8; } return r;
}
inline Path make_path(Rng &r, const std::vector<std::string> &p)
{
    size_t n = p.size();
    if (n == 1) return r.chance(50) ? Path(p[0]) : r.chance(50) ? Path(p[0]) / Path(std::string()) : Path("") / Path(p[0].c_str());
    size_t k = 1 + r.below(n - 1);
    return make_path(r, std::vector<std::string>(p.begin(), p.begin() + (long)k)) / make_path(r, std::vector<std::string>(p.begin() + (long)k, p.end()));
}
inline Path make_path(Rng &r, int i) { return make_path(r, path_parts(i)); }
typedef std::vector<std::pair<std::string, cxxmetrics::metric_value>> TagList;
inline TagList tag_list(int i)
{
    // each name missing or one of three values
    static const char *const names[] = {"host", "n", "zone", "q", "Host"};
    TagList r; int big = i / 1024; i %= 1024;
    for (int k = 0; k < 5; k++, i /= 4) switch (i % 4)
    {
    case 1: r.emplace_back(names[k], cxxmetrics::metric_value((int64_t)7)); break;
    case 2: r.emplace_back(names[k], cxxmetrics::metric_value(std::string("seven"))); break;
    case 3: r.emplace_back(names[k], cxxmetrics::metric_value(7.5)); break;
    default: break;
    }
    if (big) r.emplace_back("id", cxxmetrics::metric_value((int64_t)big));
    return r;
}
inline Tags make_tags(Rng &r, int i)
{
    auto l = tag_list(i); std::shuffle(l.begin(), l.end(), std::mt19937_64(r.u64()));
    if (l.empty()) return Tags();
    if (r.chance(30)) { std::unordered_map<std::string, cxxmetrics::metric_value> m(r.below(40)); for (auto &p : l) m.emplace(p.first, p.second); return Tags(m); }
    if (l.size() == 2 && r.chance(50)) return Tags{{l[0].first, l[0].second}, {l[1].first, l[1].second}};
    if (l.size() == 3 && r.chance(50)) return Tags{{l[0].first, l[0].second}, {l[1].first, l[1].second}, {l[2].first, l[2].second}};
    Tags t(l, (int)r.below(3) * 17); if (r.chance(20)) { Tags c(t); return c; } return t;
}
// what a visit gave
template<typename T> inline std::string tag_key(const T &t)
{
    std::map<std::string, std::string> m; for (auto &p : t) m[p.first] = static_cast<std::string>(p.second);
    std::string s; for (auto &p : m) s += p.first + "=" + p.second + ";"; return s;
}
}
