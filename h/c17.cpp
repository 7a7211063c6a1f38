// C17: Prometheus output is always well formed
#include "prom.hpp"
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

static std::string text(Rng &r, bool nonempty)
{
    static const std::vector<std::string> nasty{"\"", "\\", "\n", "\\n", "\\\"", "\r", "\t", "{", "}", ",", "=", " ", "#", "# TYPE x counter", "# HELP", "\"} 1\nevil{a=\"", "\xc3\xa9", "\xff\xfe", "\x7f", "\\\n", "\"\"", "a=\"b\"", "\\x", "1", "9lives", ":", "_", "-", "ab", "window", "quantile", "le", "mean", "\xe2\x80\xa8", "%s%n", "\x1b[0m"};
    std::string s; int n = (int)r.range(nonempty ? 1 : 0, r.chance(80) ? 4 : 12);
    for (int i = 0; i < n; i++) { int k = (int)r.below(10); if (k < 6) s += r.pick(nasty); else if (k < 8) s += (char)r.range(32, 126); else if (k < 9) s += (char)r.range(1, 255); else s += std::string(1, r.chance(30) ? '\0' : (char)r.range('a', 'z')); }
    if (nonempty && s.empty()) s = "x"; return s;
}
static double odd_number(Rng &r) { switch (r.below(9)) { case 0: return INFINITY; case 1: return -INFINITY; case 2: return NAN; case 3: return -NAN; case 4: return 0; case 5: return -0.0; case 6: return 1e308 * (r.chance(50) ? 1 : -1); case 7: return 1e-300; default: return (r.real() - 0.5) * 1e6; } }
static std::string odd_text(Rng &r) { static const std::vector<std::string> t{"", "abc", "12", "-5", "1.5e3", " 12", "\n5", "12\n", "nan", "-nan", "inf", "-inf", "infinity", "0x1A", "0x1p3", "nan(12)", "1e400", "5 6", "1}", "\"", "99999999999999999999999", "+7", "--7", ".5", "5.", "1e", "e5", "1_000", "1,5", "\t1"}; return r.chance(70) ? r.pick(t) : text(r, false); }

struct TagSpec { std::vector<std::pair<std::string, metric_value>> tags; std::vector<std::string> values; };
// tags whose names stay apart when written
static TagSpec tags(Rng &r, int perm)
{
    TagSpec t; std::set<std::string> names{"window", "quantile"};
    for (int i = (int)r.below(4); i > 0; i--)
    {
        std::string n = text(r, r.chance(95)), key = n; for (auto &c : key) if (!isalnum((unsigned char)c)) c = '_'; if (key.empty() || isdigit((unsigned char)key[0])) key = "_" + key;
        if (!names.insert(key).second) continue;
        switch (r.below(4)) { case 0: t.tags.emplace_back(n, metric_value((int64_t)r.wide())); break; case 1: t.tags.emplace_back(n, metric_value(odd_number(r))); break; default: t.tags.emplace_back(n, metric_value(text(r, false))); }
    }
    t.tags.emplace_back("permno", metric_value(perm)); for (auto &p : t.tags) t.values.push_back(static_cast<std::string>(p.second)); std::sort(t.values.begin(), t.values.end());
    return t;
}
typedef gauge<std::string> TextGauge;
static Handle make(Box &reg, Rng &r, int kind, const Path &p, const Tags &t)
{
    auto feed = [&](auto &&f) { for (int i = (int)r.below(6); i > 0; i--) f(); };
    switch (kind)
    {
    case 0: { auto m = reg.r.counter<int64_t>(p, t); *m += r.wide(60); return m; }
    case 1: { auto m = reg.r.counter<uint64_t>(p, t); *m += r.u64(); return m; }
    case 2: return reg.r.gauge<double>(p, odd_number(r), t);
    case 3: return reg.r.gauge<std::string>(p, odd_text(r), t);
    case 4: { auto m = reg.r.ewma<1_min>(p, t); feed([&] { m->mark(odd_number(r)); vclk_advance(700000000); }); return m; }
    case 5: { auto m = reg.r.meter<1_sec, 1_min, 90_sec, 1_hour>(p, t); feed([&] { m->mark(r.wide(40)); vclk_advance(r.range(0, 3000000000LL)); }); return m; }
    case 6: { auto m = reg.r.histogram(p, simple_reservoir<double, 16>(), t); feed([&] { m->update(odd_number(r)); }); return m; }
    case 7: { auto m = reg.r.histogram(p, simple_reservoir<int64_t, 16>(), t); feed([&] { m->update(r.wide(60)); }); return m; }
    case 8: { auto m = reg.r.timer<1_sec, std::chrono::steady_clock, simple_reservoir<std::chrono::nanoseconds, 16>, 1_min, 5_min>(p, simple_reservoir<std::chrono::nanoseconds, 16>(), t); feed([&] { m->update(std::chrono::nanoseconds(r.wide(50))); vclk_advance(r.range(0, 3000000000LL)); }); return m; }
    default: return reg.r.gauge<std::chrono::milliseconds>(p, std::chrono::milliseconds(r.wide(40)), t);
    }
}
static void publish(Rng &r, int npaths, int nperms)
{
    Box reg; std::vector<std::vector<std::string>> all; std::vector<std::string> values; uint64_t h = 1, lines = 0; size_t metrics = 0; std::set<std::string> used;
    struct Case { std::vector<std::string> labels; };
    std::map<std::string, std::map<int, std::vector<std::string>>> expect; // family -> permutation -> label values
    std::map<std::string, size_t> families; bool huge = false;
    for (int i = 0; i < npaths; i++)
    {
        Path p(""); bool empty = r.chance(4); std::string key, joined; int kind = (int)r.below(10);
        if (!empty) for (int k = (int)r.range(1, 3); k > 0; k--) { std::string e = text(r, true); p = p / Path(e); std::string x = e; for (auto &c : x) if (!isalnum((unsigned char)c)) c = '_'; key += (key.empty() ? "" : ":") + x; joined += (joined.empty() ? "" : "/") + e; }
        if (!empty && isdigit((unsigned char)key[0])) key = "_" + key;
        // families written alike can't be told apart
        if (!used.insert(key).second) continue;
        h = mix(h, mix(hstr(joined), (uint64_t)kind));
        for (int k = (int)r.range(1, nperms); k > 0; k--) { auto t = tags(r, k); make(reg, r, kind, p, Tags(t.tags)); for (auto &v : t.values) h = mix(h, hstr(v)); if (!empty) expect[key][k] = t.values; metrics++; }
        if (r.chance(30)) { opt::Options m; auto o = opt::all(r, m); if (r.chance(50)) { /* as it is */ } reg.r.publish_options(p, std::move(o)); }
    }
    if (r.chance(40)) { opt::Options m; reg.r.publish_options(opt::all(r, m)); }
    if (r.chance(10)) { double f = odd_number(r); reg.r.publish_options(publish_options(value_publish_options(scale_factor(f)), meter_publish_options(scale_factor(f)), histogram_publish_options(scale_factor(f)), timer_publish_options())); huge = true; }
    std::stringstream out; cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type> pub(reg.r); { ProgramLocale pl(r); pub.write(out); } auto s = out.str();
    auto t = prom::parse(s);
    // one TYPE line per family, before its samples
    std::set<std::string> typed; for (auto &x : t.types) VF_CHECK(typed.insert(x.first).second, "type-once", "two TYPE lines for %s", x.first.c_str());
    std::set<std::string> helped; for (auto &x : t.helps) VF_CHECK(helped.insert(x.first).second, "help-once", "two HELP lines for %s", x.first.c_str());
    for (auto &e : expect) VF_CHECK(typed.count(e.first), "type-missing", "no TYPE line for %s in: %s", prom::quote(e.first).c_str(), prom::quote(s).c_str());
    VF_CHECK(typed.size() == expect.size(), "type-extra", "%zu TYPE lines for %zu metrics", typed.size(), expect.size());
    std::map<std::string, std::set<int>> seen;
    for (auto &x : t.samples)
    {
        lines++; VF_CHECK(x.type_line >= 0, "type-first", "a sample of %s comes before any TYPE line", x.name.c_str());
        const std::string &f = t.types[(size_t)x.type_line].first; VF_CHECK(x.name.compare(0, f.size(), f) == 0, "type-first", "a sample of %s comes after the TYPE line of %s", x.name.c_str(), f.c_str());
        std::set<std::string> names; int perm = 0; std::vector<std::string> got;
        for (auto &l : x.labels) { VF_CHECK(names.insert(l.first).second, "label-twice", "the label %s twice in a sample of %s", l.first.c_str(), x.name.c_str()); if (l.first == "permno") perm = atoi(l.second.c_str()); if (l.first != "window" && l.first != "quantile") got.push_back(l.second); }
        std::sort(got.begin(), got.end()); auto it = expect[f].find(perm); VF_CHECK(it != expect[f].end(), "label-values", "a sample of %s with no permutation's labels", x.name.c_str());
        if (got != it->second) { size_t k = 0; while (k < got.size() && k < it->second.size() && got[k] == it->second[k]) k++; VF_CHECK(false, "label-values", "the label values of %s read '%s', the tag's value is '%s' (%zu of %zu)", x.name.c_str(), k < got.size() ? prom::quote(got[k]).c_str() : "-", k < it->second.size() ? prom::quote(it->second[k]).c_str() : "-", got.size(), it->second.size()); }
        seen[f].insert(perm);
    }
    count("texts_parsed"); count("samples_parsed", lines); count("label_values_compared", lines); count("permutations", metrics); (void)huge;
    if (metrics && h != 1) cover(h);
    if (want_sample()) sample("%s", prom::quote(s.substr(0, 500)).c_str());
}
VF_SEQ(hostile, 8) { t::publish(r, (int)r.range(1, 5), 3); }
VF_SEQ(large, 1) { t::publish(r, (int)r.range(5, 40), 8); }
// contents that are no number
VF_SEQ(texts, 2)
{
    Box reg; std::string v = odd_text(r); bool scaled = r.chance(50); auto g = reg.r.gauge<std::string>(Path("g"), std::string(v)); if (scaled) reg.r.publish_options(publish_options(value_publish_options(scale_factor(2.5))));
    std::stringstream out; cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type> pub(reg.r); { ProgramLocale pl(r); pub.write(out); } auto t = prom::parse(out.str());
    VF_CHECK(t.samples.size() == 1, "samples", "%zu samples", t.samples.size()); double got = t.samples[0].number;
    // plain decimal numbers are published as they are, what isn't a number by any reading as NaN
    bool plain = !v.empty() && v.find_first_not_of("0123456789.-") == std::string::npos && isdigit((unsigned char)v.back()) && v.rfind('-') + 1 <= 1 && std::count(v.begin(), v.end(), '.') <= 1, none = v.find_first_of("0123456789iInN") == std::string::npos;
    if (plain) { double e = strtod(v.c_str(), nullptr) * (scaled ? 2.5 : 1); VF_CHECK(std::fabs(got - e) <= 1e-6 + std::fabs(e) * 1e-12, "text-number", "the text '%s' is published as %.17g", prom::quote(v).c_str(), got); }
    if (none) VF_CHECK(std::isnan(got), "text-nan", "the text '%s' is published as %.17g", prom::quote(v).c_str(), got);
    count("texts_parsed"); cover(mix(hstr(v), scaled));
}
}}
