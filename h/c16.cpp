// C16: publish options take effect exactly as given, with per-metric precedence
#include "opts.hpp"
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

VF_SEQ(fields, 4)
{
    opt::Options m; auto o = opt::all(r, m); opt::expect(m, o, "options as made"); uint64_t h = opt::hash(m);
    for (int i = (int)r.below(4); i > 0; i--)
    {
        if (r.chance(50)) { publish_options p(std::move(o)); opt::expect(m, p, "moved options"); o = std::move(p); opt::expect(m, o, "options moved back"); }
        else { opt::Options n; auto p = opt::all(r, n); o = std::move(p); m = n; opt::expect(m, o, "options assigned"); h = mix(h, opt::hash(m)); }
    }
    count("options_judged"); cover(h); if (want_sample()) sample("scales %d %d %d %d, %zu and %zu quantiles", m.v.s.set, m.m.s.set, m.h.s.set, m.t.s.set, m.h.q.size(), m.t.q.size());
}
VF_SEQ(kinds_of_options, 3)
{
    { opt::Value m; auto o = opt::value(r, m); opt::expect(m.s, o, "value options"); cover(hbits(m.s.f)); }
    { opt::Meter m; auto o = opt::meter(r, m); opt::expect(m, o, "meter options"); }
    { opt::Hist m; auto o = opt::hist(r, m); opt::expect(m, o, "histogram options"); cover(opt::hash(m)); auto q = o.quantiles(); histogram_publish_options p(std::move(o)); opt::expect(m, p, "moved histogram options"); opt::expect(m.q, q, "quantiles kept"); }
    { opt::Timer m; auto o = opt::timer(r, m); opt::expect(m, o, "timer options"); cover(mix(opt::hash(static_cast<opt::Hist &>(m)), (uint64_t)(m.mean * 2 + m.rates))); opt::Timer n; auto p = opt::timer(r, n); p = std::move(o); opt::expect(m, p, "assigned timer options"); }
    count("options_judged", 4);
}
static metric_path path(Rng &r, int i) { std::string a = i % 2 ? "x" : "y", b = std::to_string(i); return r.chance(50) ? metric_path(a) / metric_path(b) : metric_path("") / metric_path(a) / metric_path(b); }
struct Other : basic_publish_options { int v; explicit Other(int x) : v(x) { } };
VF_SEQ(precedence, 6)
{
    struct World { metrics_registry<> reg; }; World w; auto &reg = w.reg; Pub<metrics_registry<>> pub(reg), pub2(reg); std::map<int, opt::Options> own; std::set<int> registered; opt::Options global; int n = (int)r.range(3, 40); uint64_t h = 1, sets = 0, ignored = 0;
    auto judge = [&](const char *when) {
        opt::expect(global, reg.publish_options(), std::string(when) + ": the registry"); size_t seen = 0;
        auto one = [&](const metric_path &p, basic_registered_metric &m) { seen++; int i = atoi((p.begin() + 1)->c_str()); auto it = own.find(i); opt::expect(it == own.end() ? global : it->second, (r.chance(50) ? pub : pub2).effective_options(m), std::string(when) + (it == own.end() ? ": a metric without options of its own" : ": a metric with its own options")); count("effective_options_judged"); };
        if (r.chance(60)) { pub.visit_all(one); VF_CHECK(seen == registered.size(), "visits", "%zu metrics of %zu", seen, registered.size()); }
        else for (int i = 0; i < 8; i++) if (!registered.count(i) || r.chance(60)) { size_t before = seen; pub.visit_one(path(r, i), one); VF_CHECK(seen - before == registered.count(i), "visits", "visiting one metric called the handler %zu times", seen - before); VF_CHECK(pub.has_metric(path(r, i)) == (registered.count(i) == 1), "unregistered", "%s: has_metric is wrong", when); }
    };
    for (int s = 0; s < n; s++)
    {
        int k = (int)r.below(12), i = (int)r.below(8);
        if (k < 3)
        {
            registered.insert(i); VF_NOTE("register %d", i);
            switch (i) { case 0: case 1: reg.counter<int64_t>(path(r, i), tag_collection{{"a", (int)r.below(3)}}); break; case 2: reg.gauge<double>(path(r, i), 1.0); break; case 3: reg.meter<1_sec, 1_min>(path(r, i)); break; case 4: case 5: reg.ewma<1_min>(path(r, i), tag_collection{{"a", (int)r.below(3)}}); break; default: reg.counter<int>(path(r, i)); }
        }
        else if (k < 6) { opt::Options m; auto o = opt::all(r, m); reg.publish_options(std::move(o)); global = m; h = mix(h, opt::hash(m)); sets++; VF_NOTE("set for the registry"); }
        else if (k < 9) { opt::Options m; auto o = opt::all(r, m); reg.publish_options(path(r, i), std::move(o)); if (registered.count(i)) { own[i] = m; h = mix(h, opt::hash(m)); sets++; } else ignored++; VF_NOTE("set for %d", i); }
        else if (k < 10) { if (r.chance(50)) pub.get_data<Other>(i); else if (auto *d = pub.get_data_for<Other>(path(r, i), i)) VF_CHECK(registered.count(i) && d->v == i, "other-data", "data of a metric"); }
        else judge("along the way");
    }
    judge("at the end"); count("options_set", sets); count("options_ignored", ignored);
    if (sets) cover(h);
    sample("%zu metrics, %lu options set, %lu ignored, %zu metrics with their own", registered.size(), (unsigned long)sets, (unsigned long)ignored, own.size());
}
}}
