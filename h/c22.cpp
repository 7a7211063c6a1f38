// C22: gauges report the current value of their source
#include "prom.hpp"
#include "lin.hpp"
#include <cxxmetrics/gauge.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace std::chrono;
typedef gauges::gauge_aggregation_type Agg;
template<typename T> struct Of
{
    static T make(Rng &r) { if (std::is_floating_point<T>::value && r.chance(15)) switch (r.below(3)) { case 0: return std::numeric_limits<T>::quiet_NaN(); case 1: return std::numeric_limits<T>::infinity(); default: return -std::numeric_limits<T>::infinity(); } switch (r.below(5)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::lowest(); case 2: return (T)r.range(0, 5); case 3: return (T)(r.real() * 100); default: return (T)r.wide(std::is_floating_point<T>::value ? 60 : sizeof(T) * 8 - 2); } }
    static std::string text(const T &v) { std::stringstream s; s.precision(30); s << +v; return s.str(); }
    static T from(const metric_value &m) { return static_cast<T>(m); }
    static bool published() { return true; }
    static num_t number(const T &v) { return (num_t)v; }
};
template<> struct Of<std::string>
{
    static std::string make(Rng &r) { std::string s; for (int i = (int)r.below(r.chance(50) ? 10 : 100); i > 0; i--) s += (char)r.range(32, 126); return s; }
    static std::string text(const std::string &v) { return "'" + v + "'"; }
    static std::string from(const metric_value &m) { return static_cast<std::string>(m); }
    static bool published() { return false; }
    static num_t number(const std::string &) { return 0; }
};
template<typename P> struct Of<duration<int64_t, P>>
{
    typedef duration<int64_t, P> T;
    static T make(Rng &r) { return T(r.chance(50) ? r.range(-5, 5) : r.wide(33)); }
    static std::string text(const T &v) { return std::to_string(v.count()); }
    static T from(const metric_value &m) { T d = m; return d; }
    static bool published() { return false; }
    static num_t number(const T &) { return 0; }
};
// a NaN is a value like others here
template<typename T> bool alike(const T &a, const T &b) { return a == b || (a != a && b != b); }
template<typename T> void same(const T &got, const T &want, const char *how, const char *what) { VF_CHECK(t::alike(got, want), what, "%s gives %s, the source is %s", how, Of<T>::text(got).c_str(), Of<T>::text(want).c_str()); count("reads"); }
// every way to read one
template<typename T, typename G> void read_all(G &g, const T &want, const char *what)
{
    const G &c = g; same<T>(g.get(), want, "get", what); same<T>(c.get(), want, "get on a const gauge", what); same<T>(Of<T>::from(g.snapshot().value()), want, "a snapshot", what); same<T>(Of<T>::from(c.snapshot().value()), want, "a snapshot of a const gauge", what);
}
inline bool value_of(const cumulative_value_snapshot &s, metric_value &v) { v = metric_value(s.value()); return true; }
inline bool value_of(const average_value_snapshot &s, metric_value &v) { v = metric_value(s.value()); return true; }
template<typename S> bool value_of(const S &, metric_value &) { return false; }
// what a registry says of one
template<typename T> void read_registered(Rng &r, Box &reg, const std::map<std::string, T> &want, const std::string &tag)
{
    std::map<std::string, int> seen;
    reg.r.visit_registered_metrics([&](const metric_path &p, basic_registered_metric &m) {
        std::string n = p.join("/"); auto it = want.find(n); VF_CHECK(it != want.end(), "visit", "a metric at '%s'", n.c_str());
        m.visit([&](const tag_collection &tg, const auto &s) { VF_CHECK(tag_key(tg) == tag, "visit", "a gauge visited with tags %s", tag_key(tg).c_str()); seen[n]++; metric_value v(0); VF_CHECK(t::value_of(s, v), "visit", "a gauge visited as something else"); same<T>(Of<T>::from(v), it->second, "a visit", "registered"); });
        m.aggregate([&](const auto &s) { metric_value v(0); VF_CHECK(t::value_of(s, v), "aggregate", "a gauge aggregated as something else"); if (!std::is_same<T, std::string>::value) same<T>(Of<T>::from(v), it->second, "an aggregate of one", "aggregated"); });
    });
    VF_CHECK(seen.size() == want.size(), "visit", "%zu of %zu gauges visited", seen.size(), want.size());
    if (!Of<T>::published()) return;
    std::stringstream out; cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type> pub(reg.r); pub.write(out); auto tx = prom::parse(out.str()); VF_CHECK(tx.samples.size() == want.size(), "publish", "%zu of %zu gauges published", tx.samples.size(), want.size());
    for (auto &s : tx.samples) { auto it = want.find(s.name); VF_CHECK(it != want.end(), "publish", "'%s' published", s.name.c_str()); num_t v = strtold(s.value.c_str(), nullptr), w = Of<T>::number(it->second); VF_CHECK(t::alike(v, w) || std::fabs(v - w) <= (std::is_integral<T>::value ? 0 : 0.50001e-6L + std::fabs(w) * 1e-15L), "publish", "%s is published as %s, the source is %s", s.name.c_str(), s.value.c_str(), Of<T>::text(it->second).c_str()); count("reads"); }
}

// --------------------------------------------------------------------------------------------------------------- value gauges
template<typename T, Agg A> void values(Rng &r)
{
    typedef gauge<T, A> G; const size_t N = 3; std::vector<std::unique_ptr<G>> g; std::vector<T> m; std::vector<bool> known(N, true); uint64_t h = sizeof(T) * 2 + A; int n = (int)r.range(1, 40);
    for (size_t i = 0; i < N; i++) { if (r.chance(30)) { g.emplace_back(new G()); m.push_back(T()); } else { T v = Of<T>::make(r); g.emplace_back(new G(v)); m.push_back(v); } read_all<T>(*g[i], m[i], "initial"); }
    for (int k = 0; k < n; k++)
    {
        size_t a = r.below(N), b = r.below(N); T v = Of<T>::make(r); const char *what = ""; h = mix(h, hstr(Of<T>::text(v)));
        switch (r.below(9))
        {
        case 0: case 1: what = "set"; g[a]->set(v); m[a] = v; known[a] = true; break;
        case 2: what = "assign-value"; { G &x = (*g[a] = v); VF_CHECK(&x == g[a].get(), "assign-value", "assigning returns another gauge"); } m[a] = v; known[a] = true; break;
        case 3: what = "assign"; *g[a] = *g[b]; m[a] = m[b]; known[a] = known[b]; break;
        case 4: what = "move-assign"; *g[a] = std::move(*g[b]); if (a != b) { m[a] = m[b]; known[a] = known[b]; known[b] = false; } break;
        case 5: what = "copy"; g[a].reset(new G(*g[b])); m[a] = m[b]; known[a] = known[b]; break;
        case 6: { what = "move"; if (a == b) break; g[a].reset(new G(std::move(*g[b]))); m[a] = m[b]; known[a] = known[b]; known[b] = false; break; }
        case 7: what = "set-moved"; { T w(v); g[a]->set(std::move(w)); } m[a] = v; known[a] = true; break;
        default: what = "read"; break;
        }
        for (size_t i = 0; i < N; i++) if (known[i] && (i == a || i == b || r.chance(30))) read_all<T>(*g[i], m[i], what);
    }
    count("sets", (uint64_t)n); cover(h); sample("%d operations on %zu gauges of %zu bytes, at last %s", n, N, sizeof(T), known[0] ? Of<T>::text(m[0]).c_str() : "-");
}
// registered ones
template<typename T, Agg A> void registered_values(Rng &r)
{
    Box reg; std::map<std::string, T> m; std::map<std::string, std::shared_ptr<gauge<T, A>>> hs; int tags = (int)r.below(64), n = (int)r.range(1, 12); uint64_t h = sizeof(T) * 2 + A;
    static const char *const names[] = {"a", "bb", "c"};
    for (int k = 0; k < n; k++)
    {
        std::string p = names[r.below(3)]; T v = Of<T>::make(r); h = mix(h, hstr(Of<T>::text(v)));
        if (!hs.count(p)) { hs[p] = reg.r.template gauge<T, A>(Path(p), T(v), make_tags(r, tags)); m[p] = v; }
        else if (r.chance(60)) { if (r.chance(50)) hs[p]->set(v); else *hs[p] = v; m[p] = v; }
        else { auto again = reg.r.template gauge<T, A>(Path(p), T(v), make_tags(r, tags)); VF_CHECK(again == hs[p], "registered", "another gauge at the same place"); }
        read_all<T>(*hs[p], m[p], "registered"); if (r.chance(40)) read_registered<T>(r, reg, m, tag_key(make_tags(r, tags)));
    }
    read_registered<T>(r, reg, m, tag_key(make_tags(r, tags))); count("sets", (uint64_t)n); cover(h);
}
// ---------------------------------------------------------------------------------------------- references, pointers, functions
template<typename T, Agg A> void referring(Rng &r)
{
    const size_t N = 3; std::vector<T> var; for (size_t i = 0; i < N; i++) var.push_back(Of<T>::make(r)); uint64_t h = sizeof(T) * 2 + A, calls = 0; int n = (int)r.range(1, 40);
    typedef gauge<T &, A> RG; typedef gauge<T *, A> PG; typedef gauge<std::function<T()>, A> FG; size_t ri = 0, pi = 1, fi = 2;
    auto fn = [&](size_t i) { return std::function<T()>([&var, &calls, i]() -> T { calls++; return var[i]; }); };
    std::unique_ptr<RG> rg(new RG(var[ri])); std::unique_ptr<PG> pg(new PG(&var[pi])); std::unique_ptr<FG> fg; { auto f = fn(fi); if (r.chance(50)) fg.reset(new FG(f)); else fg.reset(new FG(std::move(f))); }
    Box reg; std::map<std::string, size_t> at; bool regd = r.chance(40); int tags = (int)r.below(64);
    if (regd)
    {
        reg.r.template gauge<T &, A>(Path("r"), var[0], make_tags(r, tags)); at["r"] = 0; reg.r.template gauge<std::function<T()>, A>(Path("f"), fn(1), make_tags(r, tags)); at["f"] = 1;
        reg.r.template gauge<T *, A>(Path("p"), &var[2], make_tags(r, tags)); at["p"] = 2;
    }
    for (int k = 0; k < n; k++)
    {
        size_t a = r.below(N); T v = Of<T>::make(r); h = mix(h, mix(a, hstr(Of<T>::text(v))));
        switch (r.below(8))
        {
        case 0: case 1: case 2: var[a] = v; break;
        case 3: { RG o(var[a]); if (r.chance(50)) *rg = o; else rg.reset(new RG(o)); ri = a; break; }
        case 4: { PG o(&var[a]); if (r.chance(50)) *pg = o; else pg.reset(new PG(o)); pi = a; break; }
        case 5: { FG o(fn(a)); switch (r.below(4)) { case 0: *fg = o; break; case 1: *fg = std::move(o); break; case 2: fg.reset(new FG(o)); break; default: fg.reset(new FG(std::move(o))); } fi = a; break; }
        case 6: *rg = *rg; *pg = *pg; *fg = *fg; break;
        default: break;
        }
        read_all<T>(*rg, var[ri], "reference"); read_all<T>(*pg, var[pi], "pointer"); uint64_t c = calls; read_all<T>(*fg, var[fi], "function"); VF_CHECK(calls == c + 4, "calls", "reading a function gauge four times called its function %lu times", (unsigned long)(calls - c));
        if (regd && r.chance(30)) { std::map<std::string, T> want; for (auto &x : at) want[x.first] = var[x.second]; read_registered<T>(r, reg, want, tag_key(make_tags(r, tags))); }
    }
    count("sets", (uint64_t)n); cover(h); sample("%d steps, reference to %s, function of %s, called %lu times", n, Of<T>::text(var[ri]).c_str(), Of<T>::text(var[fi]).c_str(), (unsigned long)calls);
}
const Agg AV = gauges::aggregation_average, SU = gauges::aggregation_sum;
VF_SEQ(numbers, 3) { switch (r.below(8)) { case 0: return values<double, AV>(r); case 1: return values<double, SU>(r); case 2: return values<int64_t, AV>(r); case 3: return values<uint64_t, SU>(r); case 4: return values<int32_t, SU>(r); case 5: return values<float, AV>(r); case 6: return values<long double, AV>(r); default: return values<int8_t, AV>(r); } }
VF_SEQ(texts_and_durations, 2) { switch (r.below(4)) { case 0: return values<std::string, SU>(r); case 1: return values<milliseconds, AV>(r); case 2: return values<nanoseconds, SU>(r); default: return values<std::string, AV>(r); } }
VF_SEQ(registered, 3) { switch (r.below(7)) { case 0: return registered_values<double, AV>(r); case 1: return registered_values<int64_t, SU>(r); case 2: return registered_values<uint64_t, SU>(r); case 3: return registered_values<std::string, SU>(r); case 4: return registered_values<std::string, AV>(r); case 5: return registered_values<milliseconds, SU>(r); default: return registered_values<int32_t, SU>(r); } }
VF_SEQ(sources, 4) { switch (r.below(6)) { case 0: return referring<double, AV>(r); case 1: return referring<double, SU>(r); case 2: return referring<int64_t, SU>(r); case 3: return referring<std::string, SU>(r); case 4: return referring<milliseconds, SU>(r); default: return referring<int32_t, SU>(r); } }

// ------------------------------------------------------------------------------------------------------------------ concurrent
// value k of a source in which every piece depends on k
template<typename T> struct Seq { static T make(int k) { return (T)(k * 1000003LL + 7); } };
template<> struct Seq<double> { static double make(int k) { return k * 1.25e10 + 1.0 / (k + 3); } };
template<> struct Seq<long double> { static long double make(int k) { return k * 1.25e10L + 1.0L / (k + 3); } };
template<> struct Seq<int64_t> { static int64_t make(int k) { return (int64_t)((uint64_t)k * 0x0123456789ABCDEFULL >> 1) * (k & 1 ? -1 : 1); } };
template<> struct Seq<std::string> { static std::string make(int k) { return std::string((size_t)(k * 37 % 90), (char)('a' + k % 26)) + "#" + std::to_string(k); } };
template<typename T> struct Rd { T v; uint64_t inv, ret; int how; };
template<typename T, Agg A> void conc(Rng &r)
{
    typedef gauge<T, A> G; Box reg; auto g = reg.r.template gauge<T, A>(Path("g"), T(Seq<T>::make(0))); int readers = (int)r.range(1, 3);
#ifdef VF_DSCHED
    int sets = (int)r.range(1, 8), per = (int)r.range(1, 6);
#else
    int sets = (int)r.range(5, 100), per = (int)r.range(5, 60);
#endif
    struct St { uint64_t inv, ret; }; std::vector<St> st((size_t)sets + 1); st[0] = {0, 0}; std::vector<T> vals; for (int k = 0; k <= sets; k++) vals.push_back(Seq<T>::make(k)); std::vector<std::vector<Rd<T>>> rd((size_t)readers); for (auto &v : rd) v.reserve((size_t)per); uint64_t sd = r.u64();
    run_threads(r, readers + 1, [&](int t) {
        Rng q(sd + (uint64_t)t);
        if (t == 0) for (int k = 1; k <= sets; k++) { point(); int how = (int)q.below(4); st[(size_t)k].inv = stamp(); if (how == 0) g->set(vals[(size_t)k]); else if (how == 1) *g = vals[(size_t)k]; else if (how == 2) { G o(vals[(size_t)k]); *g = o; } else { G o(vals[(size_t)k]); *g = std::move(o); } st[(size_t)k].ret = stamp(); }
        else for (int k = 0; k < per; k++)
        {
            point(); Rd<T> x; x.how = (int)q.below(6); x.inv = stamp(); const G &c = *g;
            switch (x.how)
            {
            case 0: x.v = g->get(); break; case 1: x.v = c.get(); break; case 2: x.v = Of<T>::from(c.snapshot().value()); break; case 3: { G o(c); x.v = o.get(); break; } case 4: { G o; o = c; x.v = o.get(); break; }
            default: reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit([&](const tag_collection &, const auto &s) { metric_value v(0); if (t::value_of(s, v)) x.v = Of<T>::from(v); }); });
            }
            x.ret = stamp(); VF_QUIET; rd[(size_t)t - 1].push_back(x);
        }
    }, mix((uint64_t)(readers * 1000 + sets), (uint64_t)per));
    uint64_t during = 0, olds = 0;
    for (auto &v : rd) { for (auto &x : v)
    {
        // the last set completed before, or any later one begun before the end
        int lo = 0, hi = 0; for (int k = 0; k <= sets; k++) { if (st[(size_t)k].ret < x.inv) lo = k; if (st[(size_t)k].inv < x.ret) hi = k; }
        int got = -1; for (int k = lo; k <= hi; k++) if (vals[(size_t)k] == x.v) got = k;
        if (got < 0) { int any = -1; for (int k = 0; k <= sets; k++) if (vals[(size_t)k] == x.v) any = k; fail(any < 0 ? "mixture" : any < lo ? "stale" : "future", "a read (way %d) gave %s (value %d), expected value %d to %d", x.how, Of<T>::text(x.v).c_str(), any, lo, hi); }
        if (lo != hi) { during++; olds += got == lo; } count("reads");
    } }
    same<T>(g->get(), vals[(size_t)sets], "get at rest", "final"); count("reads_during_sets", during); count("sets", (uint64_t)sets); count("old_values_seen", olds);
    sample("%d sets, %d readers of %d reads, %lu during a set, of which %lu saw the old value", sets, readers, per, (unsigned long)during, (unsigned long)olds);
}
VF_THREADS(conc_double, 3) { r.chance(50) ? conc<double, AV>(r) : conc<double, SU>(r); }
VF_THREADS(conc_int64, 2) { conc<int64_t, SU>(r); }
VF_THREADS(conc_long_double, 2) { conc<long double, AV>(r); }
VF_THREADS(conc_text, 3) { r.chance(50) ? conc<std::string, SU>(r) : conc<std::string, AV>(r); }
// functions and references read by several threads at once
VF_THREADS(conc_sources, 1)
{
    std::atomic<int64_t> src{5}, calls{0}; Box reg; auto g = reg.r.gauge<std::function<int64_t()>, SU>(Path("f"), std::function<int64_t()>([&] { calls.fetch_add(1, std::memory_order_relaxed); return src.load(); })); int64_t fixed = 77; auto p = reg.r.gauge<int64_t &, SU>(Path("r"), fixed); int n = (int)r.range(2, 4), per = (int)r.range(1, 6); std::atomic<int> bad{0};
    run_threads(r, n, [&](int) { for (int k = 0; k < per; k++) { point(); int64_t v = g->get(); if (v < 5 || v > 5 + n * per) bad.store(1); if (p->get() != 77) bad.store(2); src.fetch_add(1); int64_t w = Of<int64_t>::from(g->snapshot().value()); if (w <= v - 1 || w > 5 + n * per) bad.store(3); if (w < v + 1) bad.store(4); } }, (uint64_t)(n * 100 + per));
    VF_CHECK(bad.load() == 0, "sources", "a function or reference gauge gave something its source never was (%d)", bad.load()); VF_CHECK(calls.load() == 2 * n * per, "calls", "%lld calls of the function in %d reads", (long long)calls.load(), 2 * n * per); VF_CHECK(g->get() == 5 + n * per, "final", "a function gauge at rest"); count("reads", (uint64_t)(3 * n * per));
}
}}
