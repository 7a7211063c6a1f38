// C18: Prometheus output reports every metric's values exactly once
#include "prom.hpp"
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

// what needs more than one window or unit to go wrong
static const std::vector<Kind> &all()
{
    static const std::vector<Kind> v = [] {
        std::vector<Kind> k = kinds::all(); using namespace kinds;
        k.push_back(make_meter<1_sec, 1_min, 90_sec, 61_sec, 1_hour, 3601_sec>("meter<1s,1min,90s,61s,1h,3601s>"));
        k.push_back(make_meter<1_msec, 250_micro, 1_msec, 1001_micro, 1_sec>("meter<1ms,250us,1ms,1001us,1s>"));
        k.push_back(make_meter<100_msec, 1_sec, 1500_msec, 60_sec, 59_sec>("meter<100ms,1s,1500ms,60s,59s>"));
        k.push_back(make_meter<1_msec, 1_msec, 2_msec, 1001_msec, 120_min, 2_hour>("meter<1ms,1ms,2ms,1001ms,120min,2h>"));
        k.push_back(make_timer<1_sec, steady_clock, simple_reservoir<nanoseconds, 64>, 90_sec, 1_min, 2_hour, 1500_msec>("timer<1s,steady,simple64,...>", 64));
        k.push_back(make_meter<1_min, 24_hour, 25_hour, 48_hour, 168_hour, 720_hour>("meter<1min,24h,25h,48h,168h,720h>"));
        k.push_back(make_timer<1_min, steady_clock, simple_reservoir<nanoseconds, 64>, 24_hour, 1441_min, 8760_hour>("timer<1min,steady,simple64,24h,24h1min,8760h>", 64));
        k.push_back(make_hist<simple_reservoir<double, 64>>("histogram<simple<double,64>>", 64));
        k.push_back(make_hist<simple_reservoir<int32_t, 64>>("histogram<simple<int32,64>>", 64));
        return k;
    }();
    return v;
}
struct Item { Handle h; std::vector<int64_t> given; int tags; };
struct Metric { int kind; std::map<int, Item> perm; std::vector<std::string> parts; };
struct Want { std::string name; std::map<std::string, std::string> labels; int64_t window = -1; double quantile = -1; num_t value, tol; bool used = false; };

static void expected(std::vector<Want> &out, const std::string &name, const Kind &k, const Item &e, const opt::Options &o)
{
    std::map<std::string, std::string> tags; for (auto &p : tag_list(e.tags)) tags[p.first] = static_cast<std::string>(p.second);
    Reading x = k.read(e.h); if (x.sample.size() != x.size) { x.sample = k.sample(e.given); std::sort(x.sample.begin(), x.sample.end()); }
    auto add = [&](const std::string &n, num_t v, const opt::Scale &s, num_t extra, int64_t window = -1, double q = -1) { Want w; w.name = n; w.labels = tags; w.window = window; w.quantile = q; w.value = s.set ? v * (num_t)s.f : v; w.tol = 0.50001e-6L + std::fabs(w.value) * 1e-14L + extra * std::fabs(s.set ? (num_t)s.f : 1); out.push_back(w); };
    auto spread_tol = [&] { return vf::spread(x.sample) * 1e-9L; };
    const int64_t MEAN = 0;
    switch (k.family)
    {
    case F_SUM: case F_AVG: add(name, x.value, o.v.s, 0); break;
    case F_METER: if (o.m.mean) add(name, x.value, o.m.s, 0, MEAN); for (auto &w : x.rates) add(name, w.second, o.m.s, 0, w.first); break;
    case F_HIST:
        if (o.h.count) add(name + "_count", (num_t)x.count, o.h.s, 0);
        add(name + "_mean", mean_of(x.sample), o.h.s, spread_tol()); for (auto q : o.h.q) add(name, quantile_of(x.sample, (num_t)q / 100), o.h.s, spread_tol() + 1e-6L * vf::spread(x.sample), -1, q);
        break;
    case F_TIMER:
        if (o.t.count) add(name + "_count", (num_t)x.count, o.t.s, 0);
        // in microseconds, whole ones
        add(name + "_mean", mean_of(x.sample) / 1000, o.t.s, 1.01L); for (auto q : o.t.q) add(name, quantile_of(x.sample, (num_t)q / 100) / 1000, o.t.s, 1.01L + 1e-6L * vf::spread(x.sample) / 1000, -1, q);
        if (o.t.rates) { if (o.t.mean) add(name + ":rates", x.value, o.t.s, 0, MEAN); for (auto &w : x.rates) add(name + ":rates", w.second, o.t.s, 0, w.first); }
    }
}
static void judge(const prom::Text &t, std::vector<Want> want, const std::string &text)
{
    std::set<std::string> ids;
    for (auto &s : t.samples)
    {
        std::map<std::string, std::string> l; for (auto &p : s.labels) VF_CHECK(l.emplace(p).second, "label-twice", "the label %s twice", p.first.c_str());
        std::string id = s.name + "{"; for (auto &p : l) id += p.first + "=" + p.second + ","; VF_CHECK(ids.insert(id).second, "sample-twice", "two samples of %s", prom::quote(id).c_str());
        int64_t window = -1; double q = -1; auto it = l.find("window"); if (it != l.end()) { window = it->second == "mean" ? 0 : prom::window_of(it->second); l.erase(it); } it = l.find("quantile"); if (it != l.end()) { q = 100 * prom::number_of(it->second, id); l.erase(it); }
        Want *hit = nullptr; for (auto &w : want) if (!w.used && w.name == s.name && w.labels == l && w.window == window && (w.quantile < 0) == (q < 0) && std::fabs(w.quantile - q) < 2e-6) { if (!hit || std::fabs(hit->quantile - q) > std::fabs(w.quantile - q)) hit = &w; }
        VF_CHECK(hit, "unexpected-sample", "a sample %s %s that nothing calls for", prom::quote(id).c_str(), s.value.c_str()); hit->used = true;
        num_t v = strtold(s.value.c_str(), nullptr); VF_CHECK(std::fabs(v - hit->value) <= hit->tol || (std::isinf(v) && v == hit->value), "sample-value", "%s is published as %s, its value is %.20Lg", prom::quote(id).c_str(), s.value.c_str(), hit->value);
        count("samples_compared");
    }
    for (auto &w : want) if (!w.used) { std::string l; for (auto &p : w.labels) l += p.first + "=" + p.second + ","; VF_CHECK(false, "missing-sample", "no sample of %s{%s} window %lld quantile %g value %.17Lg in: %s", w.name.c_str(), l.c_str(), (long long)w.window, w.quantile, w.value, prom::quote(text.substr(0, 600)).c_str()); }
}
// streams as a program may leave them
struct Foreign : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\\3"; } };
static std::locale foreign() { static const std::locale l(std::locale::classic(), new Foreign); return l; }
struct GlobalLocale { bool set; explicit GlobalLocale(bool s) : set(s) { if (set) std::locale::global(foreign()); } ~GlobalLocale() { if (set) std::locale::global(std::locale::classic()); } };
static void manner(Rng &r, std::ostream &o)
{
    if (r.chance(60)) return;
    switch (r.below(6)) { case 0: o << std::hex; break; case 1: o << std::oct << std::showbase; break; case 2: o << std::showpos << std::uppercase; break; case 3: o << std::scientific; o.precision(2); break; case 4: o.imbue(foreign()); break; default: o << std::boolalpha << std::left << std::fixed; o.fill('*'); }
    count("streams_formatted_otherwise");
}
static void world(Rng &r, int npaths, int nperm, int rounds)
{
    const auto &K = all(); Box reg; std::map<std::string, Metric> ms; std::map<std::string, opt::Options> own; opt::Options global; uint64_t h = 1; size_t perms = 0;
    static const char *const words[] = {"alpha", "b2", "C", "dd", "requests", "e5e"};
    cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type> pub(reg.r);
    auto publish = [&] {
        reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit([](const tag_collection &, const auto &) { }); });
        std::string text; { GlobalLocale g(r.chance(10)); ProgramLocale pl(r); std::stringstream out; manner(r, out); pub.write(out); text = out.str(); }
        std::vector<Want> want; for (auto &m : ms) for (auto &p : m.second.perm) expected(want, m.first, K[(size_t)m.second.kind], p.second, own.count(m.first) ? own[m.first] : global);
        judge(prom::parse(text), want, text); count("texts_compared"); smax("most_samples", want.size());
    };
    auto path_of = [&](const std::vector<std::string> &parts) { return make_path(r, parts); };
    for (int round = 0; round < rounds; round++)
    {
        for (int i = (int)r.range(1, npaths); i > 0; i--)
        {
            std::vector<std::string> parts; for (int k = (int)r.range(1, 3); k > 0; k--) parts.push_back(words[r.below(6)]);
            std::string name; for (auto &p : parts) name += (name.empty() ? "" : ":") + p;
            if (!ms.count(name)) { auto &m = ms[name]; m.kind = (int)r.below(K.size()); m.parts = parts; }
            auto &m = ms[name]; const Kind &k = K[(size_t)m.kind];
            for (int j = (int)r.range(1, nperm); j > 0; j--)
            {
                int tags = r.chance(30) ? 0 : (int)r.below(1024); Item &e = m.perm[tags]; e.tags = tags; e.h = k.request(reg.r, path_of(parts), make_tags(r, tags)); h = mix(h, mix(hstr(name), mix((uint64_t)m.kind, (uint64_t)tags)));
                for (int n = (int)r.below(12); n > 0 && e.given.size() < MAX_VALUES; n--) { int64_t v = r.chance(40) ? r.range(1, 20) : r.chance(60) ? r.range(1, 1000000) : r.range(1, 2000000000); k.add(e.h, v); e.given.push_back(v); h = mix(h, (uint64_t)v); if (r.chance(30)) vclk_advance(r.range(0, 2000000000LL)); }
            }
        }
        if (r.chance(50)) { opt::Options m; auto o = opt::all(r, m); reg.r.publish_options(std::move(o)); global = m; h = mix(h, opt::hash(m)); }
        for (auto &m : ms) if (r.chance(35)) { opt::Options x; auto o = opt::all(r, x); reg.r.publish_options(path_of(m.second.parts), std::move(o)); own[m.first] = x; h = mix(h, opt::hash(x)); }
        if (r.chance(10)) { opt::Options x; reg.r.publish_options(Path("nothing"), opt::all(r, x)); }
        if (r.chance(5)) { reg.r.counter<int>(Path("")); }
        if (r.chance(30)) vclk_advance(r.range(0, 10000000000LL));
        publish();
    }
    for (auto &m : ms) perms += m.second.perm.size();
    count("permutations", perms); if (perms) cover(h);
    sample("%zu metrics, %zu permutations, %zu with their own options, %d times published", ms.size(), perms, own.size(), rounds);
}
VF_SEQ(worlds, 6) { t::world(r, 6, 4, (int)r.range(1, 3)); }
VF_SEQ(one_metric, 3) { t::world(r, 1, 1, 1); }
VF_SEQ(large, 1) { t::world(r, 20, 10, 1); }
// values that don't fit a double, halves, signs, units
VF_SEQ(exact_values, 2)
{
    Box reg; std::map<std::string, std::pair<num_t, num_t>> want; opt::Value o; auto vo = opt::value(r, o); if (r.chance(60)) o = opt::Value(); else reg.r.publish_options(publish_options(std::move(vo)));
    num_t f = o.s.set ? (num_t)o.s.f : 1; uint64_t h = hbits((double)f); auto add = [&](const char *n, num_t v, num_t tol) { want[n] = {v * f, o.s.set ? 0.50001e-6L + std::fabs(v * f) * 1e-14L : tol}; h = mix(h, hbits((double)v)); };
    int64_t i = r.wide(63); *reg.r.counter<int64_t>(Path("i")) += i; add("i", (num_t)i, 0); uint64_t u = r.u64(); *reg.r.counter<uint64_t>(Path("u")) += u; add("u", (num_t)u, 0);
    int32_t s = (int32_t)r.wide(31); reg.r.counter<int32_t>(Path("s"), (int32_t)s); add("s", s, 0); double d = (r.real() - 0.5) * std::pow(10.0, (double)r.range(-6, 15)); reg.r.gauge<double>(Path("d"), double(d)); add("d", d, 0.50001e-6L + std::fabs((num_t)d) * 1e-15L);
    int64_t ms = r.wide(40); reg.r.gauge<std::string>(Path("t"), std::to_string(ms)); add("t", (num_t)ms, 0); reg.r.gauge<int64_t>(Path("g"), int64_t(i / 2)); add("g", (num_t)(i / 2), 0); bool b = r.chance(50); reg.r.gauge<uint8_t>(Path("b"), (uint8_t)b); add("b", b, 0);
    std::stringstream out; cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type> pub(reg.r); { ProgramLocale pl(r); pub.write(out); } auto t = prom::parse(out.str());
    VF_CHECK(t.samples.size() == want.size(), "samples", "%zu samples of %zu metrics", t.samples.size(), want.size());
    for (auto &x : t.samples) { auto it = want.find(x.name); VF_CHECK(it != want.end(), "unexpected-sample", "a sample of %s", x.name.c_str()); num_t v = strtold(x.value.c_str(), nullptr); VF_CHECK(std::fabs(v - it->second.first) <= it->second.second, "sample-value", "%s is published as %s, its value is %.20Lg", x.name.c_str(), x.value.c_str(), it->second.first); want.erase(it); count("samples_compared"); }
    cover(h); count("texts_compared");
}
// more recordings than a float, or a small integer, can count one by one
struct OneValue { typedef int64_t value_type; int64_t v = 0; void update(int64_t x) noexcept { v = x; } reservoir_snapshot snapshot() const noexcept { return reservoir_snapshot(&v, 1); } };
VF_SEQ(many_recordings, 1)
{
    if (!r.chance(1)) { cover(0); return; }
    Box reg; auto h = reg.r.histogram(Path("h"), OneValue()); static const uint64_t edges[] = {65535, 65536, 65537, 999999, 1000001, 16777215, 16777216, 16777217, 16777219, 20000001}; uint64_t n = edges[r.below(10)]; for (uint64_t i = 0; i < n; i++) h->update(3);
    cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type> pub(reg.r); std::stringstream out; { ProgramLocale pl(r); pub.write(out); } auto t = prom::parse(out.str()); int seen = 0;
    for (auto &s : t.samples) if (s.name == "h_count") { seen++; VF_CHECK(strtoull(s.value.c_str(), nullptr, 10) == n && strtold(s.value.c_str(), nullptr) == (num_t)n, "sample-value", "the count %llu is published as %s", (unsigned long long)n, s.value.c_str()); }
    VF_CHECK(seen == 1, "missing-sample", "%d samples of the count", seen); cover(n); smax("most_recordings", n); count("texts_compared");
}
}}
