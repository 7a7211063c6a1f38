// C26: recording never grows memory
#include "mem.hpp"
#include "prom.hpp"
#include <cxxmetrics/timer.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

static const std::vector<Kind> &all()
{
    static const std::vector<Kind> v = [] {
        std::vector<Kind> k = kinds::all(); using namespace kinds;
        k.push_back(make_meter<1_sec, 1_min, 90_sec, 5_min, 1_hour, 2_hour>("meter<1s,5 windows>"));
#ifdef VF_DSCHED
        return k;
#endif
        k.push_back(make_hist<uniform_reservoir<int64_t, 1024>>("histogram<uniform<1024>>", 1024));
        k.push_back(make_hist<uniform_reservoir<double, 2>>("histogram<uniform<2>>", 2));
        k.push_back(make_hist<sliding_window_reservoir<double, 256>>("histogram<sliding<256>>", 256));
        k.push_back(make_hist<simple_reservoir<double, 500>>("histogram<simple<500>>", 500));
        k.push_back(make_timer<1_sec, steady_clock, uniform_reservoir<nanoseconds, 100>, 90_sec, 1_min>("timer<steady,uniform100,...>", 100));
        k.push_back(make_timer<1_sec, system_clock, sliding_window_reservoir<nanoseconds, 30>, 1_min>("timer<system,sliding30,1min>", 30));
        return k;
    }();
    return v;
}
static int64_t gap(Rng &r) { switch (r.below(5)) { case 0: return 0; case 1: return (int64_t)r.below(1000000); case 2: return (int64_t)r.below(2000000000); case 3: return 1000000000LL * r.range(1, 100); default: return 3600000000000LL; } }
// room in the harness' own books
static void room() { auto &s = st().sigs; if (s.capacity() - s.size() < 64) s.reserve(s.capacity() * 2 + 1024); st().stats["executions_with_switches"]; }

// ------------------------------------------------------------------------------------------------------------- one metric
VF_SEQ(metric, 6)
{
    const auto &K = t::all(); const Kind &k = K[r.below(K.size())]; int64_t before = mem().bytes;
    {
        Handle h = k.fresh(); int64_t value = 0; int64_t ups = 0;
        auto update = [&] { value = r.range(1, 1000000); k.add(h, value); ups++; };
        size_t fill = std::max<size_t>(k.cap, 4) + r.below(10); for (size_t i = 0; i < fill; i++) update();
        k.read(h); vclk_advance(1000000000); update(); { Reading x = k.read(h); }
        Held base; int64_t filled = mem().bytes - before;
        int rounds = (int)r.range(1, 6), per = (int)(r.chance(10) ? r.below(5000) : r.below(400)); int reads = 0;
#ifndef __SANITIZE_ADDRESS__
        per *= 20;
#endif
        for (int i = 0; i < rounds; i++)
        {
            for (int j = 0; j < per; j++) { update(); if (r.chance(3)) vclk_advance(gap(r)); if (j % 16 == 0 && r.chance(30)) { k.read(h); reads++; } }
            base.no_more("metric-grows", "after more updates", k.name);
            { Reading x = k.read(h); VF_CHECK(k.family != F_HIST || x.size <= k.cap, "capacity", "%s holds %zu values", k.name.c_str(), (size_t)x.size); }
            base.no_more("snapshot-kept", "after a snapshot", k.name); vclk_advance(gap(r));
        }
        count("updates", (uint64_t)ups); count("reads", (uint64_t)reads); smax("held_bytes", (uint64_t)filled); cover(mix(hstr(k.name), (uint64_t)ups * 64 + (uint64_t)reads)); smax("longest_history", (uint64_t)ups);
        sample("%s holds %lld bytes after %lld updates and %d reads, as when first filled", k.name.c_str(), (long long)filled, (long long)ups, reads);
    }
}
// sizes that don't come with the kinds: what a metric holds inside itself is all it has
VF_SEQ(inside, 2)
{
    room(); Held base; size_t n = (size_t)r.range(1, 3000); int what = (int)r.below(8);
    switch (what)
    {
    case 0: { counter<int64_t> c; for (size_t i = 0; i < n; i++) { ++c; c -= 5; c.incr(3); c.value(); } c.snapshot(); base.nothing("inside", "a counter"); break; }
    case 1: { gauge<std::string> g(std::string(300, 'a')); Held b; for (size_t i = 0; i < n; i++) { g.set(std::string(r.below(300), 'b')); g.get(); g.snapshot(); } b.no_more("inside", "a gauge of text"); break; }
    case 2: { ewma<1_min, 1_sec> e; for (size_t i = 0; i < n; i++) { e.mark(3); e.rate(); vclk_advance(gap(r)); } e.snapshot(); base.nothing("inside", "a moving average"); break; }
    case 3: { meter<1_sec, 1_min, 5_min> m; for (size_t i = 0; i < n; i++) { m.mark(3); m.mean(); m.rate<1_min>(); m.snapshot(); vclk_advance(gap(r)); } base.nothing("inside", "a meter"); break; }
    case 4: { timer<1_sec, steady_clock, simple_reservoir<nanoseconds, 8>, 1_min> m; for (size_t i = 0; i < n; i++) { auto s = scoped_timer(m); vclk_advance(gap(r)); if (i % 3 == 0) s.reset(); m.time([] { vclk_advance(1000); }); } m.snapshot(); base.nothing("inside", "a timer"); break; }
    case 5: { sliding_window_reservoir<double, 100> s; for (size_t i = 0; i < n; i++) { s.update((double)i); if (i % 50 == 0) s.snapshot(); vclk_advance(gap(r)); } base.nothing("inside", "a sliding window"); break; }
    case 6: { uniform_reservoir<int64_t, 100> s; for (size_t i = 0; i < n; i++) { s.update((int64_t)i); if (i % 50 == 0) s.snapshot(); } base.nothing("inside", "a uniform reservoir"); break; }
    default: { simple_reservoir<int64_t, 100> s; for (size_t i = 0; i < n; i++) { s.update((int64_t)i); if (i % 50 == 0) s.snapshot(); } base.nothing("inside", "a simple reservoir"); break; }
    }
    base.nothing("released", "after the metric was destroyed"); count("updates", n); cover(mix((uint64_t)what, n));
}
// ------------------------------------------------------------------------------------------------------------- snapshots
VF_SEQ(snapshots, 3)
{
    const auto &K = t::all(); Handle h[2]; const Kind &k = K[r.below(K.size())]; for (auto &x : h) { x = k.fresh(); size_t n = r.below(300); for (size_t i = 0; i < n; i++) { k.add(x, r.range(1, 1000)); if (i % 32 == 0) vclk_advance(gap(r)); } }
    for (auto &x : h) k.read(x);
    room(); Held base; size_t rounds = (size_t)r.range(1, 20), peak = 0;
    for (size_t i = 0; i < rounds; i++)
    {
        if (k.family == F_HIST)
        {
            typedef histogram<int64_t, simple_reservoir<int64_t, 8>> M; auto *m = dynamic_cast<M *>(h[0].get()), *o = dynamic_cast<M *>(h[1].get());
            if (m) { auto a = m->snapshot(); auto b = o->snapshot(); a.merge(b); auto c(std::move(a)); b = std::move(c); b.mean(); b.value<99>(); b.min(); peak = std::max(peak, (size_t)base.bytes()); b.merge(b = o->snapshot()); }
        }
        if (k.family == F_METER) { auto *m = dynamic_cast<meter<1_sec, 1_min, 5_min> *>(h[0].get()), *o = dynamic_cast<meter<1_sec, 1_min, 5_min> *>(h[1].get()); if (m) { auto a = m->snapshot(); auto b = o->snapshot(); a.merge(b); auto c(std::move(a)); b = std::move(c); for (auto &p : b) (void)p; peak = std::max(peak, (size_t)base.bytes()); } }
        if (k.family == F_TIMER) { typedef timer<1_sec, steady_clock, kinds::NsRes, 1_min> M; auto *m = dynamic_cast<M *>(h[0].get()), *o = dynamic_cast<M *>(h[1].get()); if (m) { auto a = m->snapshot(); auto b = o->snapshot(); a.merge(b); auto c(std::move(a)); b = std::move(c); b.rate(); peak = std::max(peak, (size_t)base.bytes()); } }
        { Reading a = k.read(h[0]), b = k.read(h[1]); peak = std::max(peak, (size_t)base.bytes()); }
        { gauge<std::string> g(std::string(100, 'x')); auto s = g.snapshot(); auto v = s.value(); std::string text = static_cast<std::string>(v); metric_value w(v); w = metric_value(7); w = std::move(v); }
        base.nothing("snapshot-kept", "after its snapshots were destroyed", k.name);
    }
    count("snapshots", rounds * 4); smax("snapshot_bytes", peak); cover(mix(hstr(k.name), rounds));
}

// ------------------------------------------------------------------------------------------------------------- registry
struct Place { int path; std::vector<int> tags; size_t kind; };
struct Ring : opt::basic_publish_options { std::string text; explicit Ring(const std::string &t = "") : text(t) { } };
struct Sums { num_t total = 0; template<typename S> void add(const S &s) { total += reading(s).value; } };
struct Publisher : cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type>
{
    typedef cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type> B;
    explicit Publisher(Box &b) : B(b.r) { }
    bool ring(const Path &p) { return this->template has_data_for<Ring>(p); }
    Ring *ring_for(const Path &p) { return this->template get_data_for<Ring>(p, "an argument long enough to be held elsewhere"); }
    Ring &ring_all() { return this->template get_data<Ring>("an argument long enough to be held elsewhere"); }
    bool has(const Path &p) { return this->has_metric(p); }
};
// everything that doesn't register anything
static void use(Box &reg, Publisher &pub, Rng &r, const std::vector<Place> &places, int what)
{
    const auto &K = t::all(); const Place &p = r.pick(places); const Kind &k = K[p.kind]; int tag = r.pick(p.tags);
    switch (what)
    {
    case 0: case 1: case 2: { Handle h = k.request(reg.r, make_path(r, p.path), make_tags(r, tag)); k.add(h, r.range(1, 100)); break; }
    case 3: { Handle mine = k.fresh(); VF_CHECK(!k.existing(reg.r, make_path(r, p.path), mine, make_tags(r, tag)), "existing", "a metric was added where one was"); break; }
    case 4: { const Kind &other = K[(p.kind + 1) % K.size()]; bool threw = false; try { other.request(reg.r, make_path(r, p.path), make_tags(r, r.chance(50) ? tag : 5000)); } catch (const metric_type_mismatch &) { threw = true; } VF_CHECK(threw, "mismatch", "no mismatch for %s where %s is", other.name.c_str(), k.name.c_str()); break; }
    case 5: { std::ostringstream s; pub.write(s); break; }
    case 6: { size_t n = 0; reg.r.visit_registered_metrics([&](const Path &, basic_registered_metric &m) { m.visit([&](const Tags &, const auto &) { n++; }); m.aggregate([&](const auto &) { n++; }); }); break; }
    case 7: { Path nowhere = Path("nowhere") / Path("at all"); pub.has(nowhere); pub.ring(nowhere); VF_CHECK(!pub.ring_for(nowhere), "unregistered", "data for a path without a metric"); reg.r.publish_options(nowhere, publish_options(value_publish_options(scale_factor(2)))); break; }
    case 8: pub.ring_all(); pub.ring_for(make_path(r, p.path)); pub.ring(make_path(r, p.path)); pub.has(make_path(r, p.path)); break;
    default: { opt::Options o; if (r.chance(50)) reg.r.publish_options(publish_options(meter_publish_options(r.chance(50), scale_factor(2)), histogram_publish_options(opt::quantile_options<quantile(50.0l), quantile(99.0l)>(), true, false))); else reg.r.publish_options(make_path(r, p.path), publish_options(timer_publish_options(true, true, true, scale_factor(3)))); break; }
    }
}
enum { USES = 10 };
static std::vector<Place> places_of(Rng &r, Box &reg, int n)
{
    const auto &K = t::all(); std::vector<Place> v; std::set<int> taken;
    for (int i = 0; i < n; i++) { Place p; do p.path = (int)r.below(200); while (!taken.insert(p.path).second); p.kind = r.below(K.size()); int nt = (int)r.range(1, 4); for (int j = 0; j < nt; j++) p.tags.push_back((int)r.below(300)); for (int t : p.tags) K[p.kind].request(reg.r, make_path(r, p.path), make_tags(r, t)); v.push_back(std::move(p)); }
    return v;
}
VF_SEQ(registry, 5)
{
    int64_t start; uint64_t seed = r.u64(); int np = (int)r.range(1, 6), n = (int)r.range(5, 60); int64_t size = 0;
    // the first time round what is made once per process is made
    for (int pass = 0; pass < 2; pass++)
    {
        room(); start = mem().bytes; Held outside;
        {
            Rng q(seed); Box reg; Publisher pub(reg); auto places = t::places_of(q, reg, np); auto only = [&](const Place &p) { return std::vector<Place>(1, p); };
            // all that is made once
            for (auto &p : places) for (int i = 0; i < USES; i++) t::use(reg, pub, q, only(p), i);
            for (auto &p : places) for (int t : p.tags) for (int i = 0; i < 20; i++) t::all()[p.kind].add(t::all()[p.kind].request(reg.r, make_path(q, p.path), make_tags(q, t)), 1);
            reg.r.publish_options(publish_options(histogram_publish_options(opt::quantile_options<quantile(50.0l)>()))); for (auto &p : places) reg.r.publish_options(make_path(q, p.path), publish_options(timer_publish_options(true)));
            size = mem().bytes - start;
            for (int k = 0; k < n; k++)
            {
                int what = (int)q.below(USES); if (what == 9) { t::use(reg, pub, q, places, what); reg.r.publish_options(publish_options(histogram_publish_options(opt::quantile_options<quantile(50.0l)>()))); for (auto &p : places) reg.r.publish_options(make_path(q, p.path), publish_options(timer_publish_options(true))); continue; }
                { Held b; t::use(reg, pub, q, places, what); if (k > 10) b.no_more("registry-grows", what <= 2 ? "after a request for a metric that exists" : what == 3 ? "after adding a metric where one is" : what == 4 ? "after a request for a metric of another type" : what == 5 ? "after publishing" : what == 6 ? "after visiting" : what == 7 ? "after asking about a path without a metric" : "after a request for data that exists"); }
                if (q.chance(20)) vclk_advance(gap(q));
            }
            int64_t now = mem().bytes - start; VF_CHECK(now <= size, "registry-grows", "a registry of %d paths held %lld bytes, and %lld after %d requests and publications", np, (long long)size, (long long)now, n);
        }
        if (pass) outside.nothing("registry-leaks", "after the registry was destroyed");
    }
    count("registry_uses", (uint64_t)n); smax("registry_bytes", (uint64_t)size); cover(seed); sample("a registry of %d paths: %lld bytes before and after %d lookups, publications and visits, 0 after its end", np, (long long)size, n);
}
// distinct places take memory in proportion and no more
VF_SEQ(many, 1)
{
    if (!r.chance(30)) { cover(1); return; }
    const auto &K = t::all(); size_t kind = r.below(K.size()); room(); t::all(); Box reg; int n = (int)r.range(20, 200); Path p("one"); std::vector<Tags> tags; tags.reserve((size_t)n); for (int i = 0; i < n; i++) tags.push_back(Tags{{"id", metric_value((int64_t)i)}});
    for (auto &t : tags) K[kind].request(reg.r, p, t);
    Held full; for (int k = 0; k < 5; k++) for (auto &t : tags) K[kind].add(K[kind].request(reg.r, p, t), 1);
    for (auto &t : tags) K[kind].read(K[kind].request(reg.r, p, t));
    Held after; for (int k = 0; k < 3; k++) { for (auto &t : tags) K[kind].add(K[kind].request(reg.r, p, t), 1); after.no_more("registry-grows", "requested and updated again under many tag sets", K[kind].name); }
    // a reservoir may be filled after its metric is registered; the first fill is within what one metric may hold
    VF_CHECK(full.bytes() <= (int64_t)n * 100000, "registry-grows", "%d metrics of type %s took %lld bytes more when updated", n, K[kind].name.c_str(), (long long)full.bytes());
    count("registry_uses", (uint64_t)n * 8); cover(mix((uint64_t)kind, (uint64_t)n));
}

// ------------------------------------------------------------------------------------------------------------------ concurrent
VF_THREADS(conc, 4)
{
    room(); const auto &K = t::all(); int n = (int)r.range(2, 4), np = (int)r.range(1, 3), rounds = (int)r.range(2, 4); uint64_t seed = r.u64();
#ifdef VF_DSCHED
    int per = (int)r.range(1, 4);
#else
    int per = (int)r.range(5, 30);
#endif
    {
        Rng q(seed); Box reg; Publisher pub(reg); auto places = t::places_of(q, reg, np); pub.ring_all(); for (auto &p : places) { pub.ring_for(make_path(q, p.path)); for (int t : p.tags) for (size_t i = 0; i < 12; i++) K[p.kind].add(K[p.kind].request(reg.r, make_path(q, p.path), make_tags(q, t)), 1); }
        for (int w = 0; w < 9; w++) t::use(reg, pub, q, places, w);
        std::vector<std::unique_ptr<Publisher>> pubs; for (int i = 0; i < n; i++) pubs.emplace_back(new Publisher(reg));
        std::unique_ptr<Held> base;
        for (int k = 0; k < rounds; k++)
        {
            run_threads(r, n, [&](int i) { Rng w(seed + (uint64_t)i * 77); for (int j = 0; j < per; j++) { point(); t::use(reg, *pubs[(size_t)i], w, places, (int)w.below(9)); } }, seed);
            if (k == 0) base.reset(new Held); else if (base) base->no_more("conc-grows", "after more concurrent requests, updates and publications");
        }
        count("registry_uses", (uint64_t)(n * per * rounds));
    }
}
VF_THREADS(conc_metric, 4)
{
    room(); const auto &K = t::all(); const Kind &k = K[r.below(K.size())]; int n = (int)r.range(2, 4), rounds = 3; uint64_t seed = r.u64(); Handle h = k.fresh(); for (size_t i = 0; i < k.cap + 3; i++) k.add(h, 5); k.read(h);
#ifdef VF_DSCHED
    int per = (int)r.range(1, 6);
#else
    int per = (int)r.range(10, 200);
#endif
    std::unique_ptr<Held> base;
    for (int i = 0; i < rounds; i++)
    {

        run_threads(r, n, [&](int t) { Rng w(seed + (uint64_t)t); for (int j = 0; j < per; j++) { point(); if (w.chance(75)) k.add(h, w.range(1, 1000)); else k.read(h); } }, mix(seed, hstr(k.name)));
        if (!i) base.reset(new Held); else base->no_more("conc-grows", "after more concurrent updates and reads", k.name);
    }
    count("updates", (uint64_t)(n * per * rounds));
}
}}
