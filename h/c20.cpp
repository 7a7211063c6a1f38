// C20: concurrent use of metrics is free of data races and memory errors
// The judges are the race detector of the scheduler, ThreadSanitizer and AddressSanitizer; what was recorded is counted besides.
#include "mem.hpp"
#include "prom.hpp"
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/ringbuf.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

static void room() { auto &s = st().sigs; if (s.capacity() - s.size() < 64) s.reserve(s.capacity() * 2 + 1024); st().stats["executions_with_switches"]; }
struct Note : opt::basic_publish_options { std::string text; std::atomic<int64_t> seen{0}; explicit Note(const std::string &t = "none") : text(t) { } };
struct Tag2 : Note { using Note::Note; };
struct Publisher : cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type>
{
    explicit Publisher(Box &b) : cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type>(b.r) { }
    void look(const Path &p, bool all)
    {
        this->template get_data<Note>("registry").seen++; if (Note *n = this->template get_data_for<Note>(p, "metric")) n->seen++;
        this->template has_data_for<Tag2>(p); this->has_metric(p); this->metric_type(p);
        auto f = [this](const Path &q, basic_registered_metric &m) { this->metric_type(m); this->effective_options(m).histogram_options().quantiles(); if (!this->template has_data_for<Tag2>(m)) this->template get_data_for<Tag2>(m, "inside").seen++; (void)q; };
        if (all) this->visit_all(f); else this->visit_one(p, f);
    }
};
// metrics whose values say how much was put into them
static const std::vector<size_t> &exact() { static const std::vector<size_t> v = [] { std::vector<size_t> v; auto &K = kinds::all(); for (size_t i = 0; i < K.size(); i++) if (K[i].family == F_HIST || K[i].family == F_TIMER || (K[i].family == F_SUM && !K[i].last && !K[i].fixed)) v.push_back(i); return v; }(); return v; }
struct Op { int what; size_t place; int64_t v; Path path; Tags tags; Handle mine; size_t kind; };
struct Place { int path; int tag; size_t kind; };

// everything that is made once in a process
static void warm(Rng &r)
{
    static bool done = false; if (done) return; done = true;
    Box reg; Publisher p(reg); const auto &K = kinds::all(); int i = 0; for (auto &k : K) { auto h = k.request(reg.r, make_path(r, ++i), make_tags(r, 77)); k.add(h, 1); k.read(h); p.look(make_path(r, i), true); try { K[(size_t)i % K.size()].request(reg.r, make_path(r, i), Tags()); } catch (const metric_type_mismatch &) { } k.existing(reg.r, make_path(r, i), k.fresh(), make_tags(r, 78)); }
    std::ostringstream s; p.write(s); reg.r.publish_options(publish_options()); room();
}
static void mixed_run(Rng &r, bool exactly, uint64_t &ops, uint64_t &published)
{
    const auto &K = kinds::all(); int n = (int)r.range(2, 4), np = (int)r.range(1, 3); uint64_t in = (uint64_t)n;
#ifdef VF_DSCHED
    int per = (int)r.range(1, 5);
#else
    int per = (int)r.range(3, 40);
#endif
    std::unique_ptr<Box> box(new Box); Box &reg = *box; std::vector<Place> ps; std::set<int> taken;
    for (int i = 0; i < np; i++) { Place p; do p.path = (int)r.below(120); while (!taken.insert(p.path).second); p.kind = exactly ? r.pick(exact()) : r.below(K.size()); p.tag = (int)r.below(64); ps.push_back(p); if (r.chance(40)) { Place q = p; do q.tag = (int)r.below(64); while (q.tag == p.tag); ps.push_back(q); } }
    if (r.chance(50)) { reg.r.publish_options(publish_options(histogram_publish_options(opt::quantile_options<quantile(10.0l), quantile(50.0l)>(), true, r.chance(50)))); }
    // some of it is there already
    for (auto &p : ps) if (r.chance(60)) K[p.kind].request(reg.r, make_path(r, p.path), make_tags(r, p.tag));
    std::vector<std::vector<Op>> plan((size_t)n); std::vector<num_t> total(ps.size(), 0); std::vector<uint64_t> times(ps.size(), 0);
    for (auto &v : plan) for (int i = 0; i < per; i++)
    {
        size_t pl = r.below(ps.size()); auto &p = ps[pl]; Op o{(int)r.below(14), pl, r.range(1, 50), make_path(r, p.path), make_tags(r, p.tag), nullptr, p.kind};
        if (o.what == 9) o.mine = K[p.kind].fresh();
        if (o.what <= 5) { total[pl] += (num_t)o.v; times[pl]++; }
        in = mix(in, mix((uint64_t)o.what, pl)); v.push_back(std::move(o));
    }
    std::vector<std::unique_ptr<Publisher>> pubs; bool one = r.chance(50); for (int i = 0; i < n; i++) pubs.emplace_back(new Publisher(reg)); std::vector<int> bad((size_t)n, 0);
    run_threads(r, n, [&](int t) {
        std::vector<Handle> kept; Publisher &pub = *pubs[one ? 0 : (size_t)t];
        for (auto &o : plan[(size_t)t])
        {
            const Kind &k = K[o.kind]; point();
            try { switch (o.what)
            {
            case 0: case 1: case 2: case 3: { auto h = k.request(reg.r, o.path, o.tags); k.add(h, o.v); kept.push_back(h); break; }
            case 4: case 5: { auto h = k.request(reg.r, o.path, o.tags); k.add(h, o.v); k.read(h); break; }
            case 6: for (auto &h : kept) { (void)h; } if (!kept.empty()) k.read(k.request(reg.r, o.path, o.tags)); break;
            case 7: { std::ostringstream s; pub.write(s); if (s.str().empty() && !kept.empty()) bad[(size_t)t] = 1; break; }
            case 8: reg.r.visit_registered_metrics([&](const Path &, basic_registered_metric &m) { m.visit([&](const Tags &tg, const auto &s) { reading(s); tg.begin(); }); m.aggregate([&](const auto &s) { reading(s); }); }); break;
            case 9: k.existing(reg.r, o.path, o.mine, o.tags); break;
            case 10: { bool threw = false; try { K[(o.kind + 1) % K.size()].request(reg.r, o.path, o.tags); } catch (const metric_type_mismatch &e) { threw = true; if (e.existing_metric_type().empty()) bad[(size_t)t] = 2; } (void)threw; break; }
            case 11: pub.look(o.path, o.v & 1); break;
            case 12: { metric_value a((int64_t)o.v), b(2.5), c(std::string("text")); a += b; a *= b; std::string s = static_cast<std::string>(a) + static_cast<std::string>(c); std::hash<metric_value>()(a); if (s.empty()) bad[(size_t)t] = 3; break; }
            default: { Path p = o.path / Path("x"); std::hash<metric_path>()(p); p.join("."); Tags tg(o.tags); if (!(tg == o.tags)) bad[(size_t)t] = 4; std::hash<Tags>()(tg); break; }
            } } catch (const metric_type_mismatch &) { } // another kind may have come first
        }
        kept.clear();
    }, in);
    for (int b : bad) VF_CHECK(!b, "conc-result", "%s", b == 1 ? "nothing was published" : b == 2 ? "a mismatch without a type" : b == 3 ? "an empty text" : "a copy of tags differs");
    // what was recorded is there; a place whose type a wrong request took, or whose metric was added from outside, still counts everything that went into it
    if (exactly)
        for (size_t i = 0; i < ps.size(); i++) if (times[i])
        {
            bool other = false; for (auto &v : plan) for (auto &o : v) other |= o.what == 10 && ps[o.place].path == ps[i].path; if (other) continue;
            const Kind &k = K[ps[i].kind]; Reading x = k.read(k.request(reg.r, make_path(r, ps[i].path), make_tags(r, ps[i].tag)));
            if (k.family == F_SUM) VF_CHECK(x.value == total[i], "conc-lost", "%s is %.20Lg after all of %.20Lg was recorded", k.name.c_str(), x.value, total[i]);
            else VF_CHECK(x.count == times[i] && x.size == std::min<uint64_t>(k.cap, times[i]), "conc-lost", "%s counts %lu and holds %lu after %lu recordings", k.name.c_str(), (unsigned long)x.count, (unsigned long)x.size, (unsigned long)times[i]);
        }
    ops += (uint64_t)(n * per); for (auto &v : plan) for (auto &o : v) published += o.what == 7;
    // the metrics may outlive their registry
    if (r.chance(20)) { std::vector<Handle> keep; for (auto &p : ps) try { keep.push_back(K[p.kind].request(reg.r, make_path(r, p.path), make_tags(r, p.tag))); } catch (const metric_type_mismatch &) { } pubs.clear(); box.reset(); for (auto &h : keep) h->metric_type(); }
}
VF_THREADS(mixed, 6)
{
    uint64_t seed = r.u64(), ops = 0, pub = 0; bool exactly = r.chance(60); t::warm(r); room();
    { Rng q(seed); t::mixed_run(q, exactly, ops, pub); }
    if (seed % 4 == 0) { room(); Held h; { Rng q(seed); t::mixed_run(q, exactly, ops, pub); } h.nothing("conc-leak", "after a registry was used from several threads and destroyed"); }
    count("operations", ops); count("publications", pub); sample("%lu operations on a shared registry, %lu of them publications", (unsigned long)ops, (unsigned long)pub);
}

// ------------------------------------------------------------------------------------------- copying and assigning what others use
struct Thing
{
    const char *name; std::function<std::shared_ptr<void>()> make; std::function<std::shared_ptr<void>(const void *)> copy; std::function<void(void *, const void *)> assign; std::function<void(void *, int64_t)> add; std::function<void(const void *)> read; std::function<void(void *)> fold; bool target = true; // may be assigned to while it's used
};
template<typename M> Thing thing(const char *n, std::function<std::shared_ptr<M>()> make, std::function<void(M &, int64_t)> add, std::function<void(const M &)> read, std::function<void(M &)> fold = nullptr)
{
    Thing t; t.name = n; t.make = [make] { return std::static_pointer_cast<void>(make()); }; t.copy = [](const void *o) { return std::static_pointer_cast<void>(std::make_shared<M>(*static_cast<const M *>(o))); }; t.assign = [](void *a, const void *b) { *static_cast<M *>(a) = *static_cast<const M *>(b); };
    t.add = [add](void *o, int64_t v) { add(*static_cast<M *>(o), v); }; t.read = [read](const void *o) { read(*static_cast<const M *>(o)); }; t.fold = fold ? std::function<void(void *)>([fold](void *o) { fold(*static_cast<M *>(o)); }) : std::function<void(void *)>([read](void *o) { read(*static_cast<M *>(o)); });
    return t;
}
template<typename M> void snap(const M &m) { reading(m.snapshot()); }
template<typename M> std::shared_ptr<M> fresh() { return std::make_shared<M>(); }
template<typename R> Thing reservoir(const char *n) { typedef typename R::value_type T; return thing<R>(n, fresh<R>, [](R &m, int64_t v) { m.update((T)v); }, [](const R &m) { auto s = m.snapshot(); s.min(); s.max(); s.mean(); s.template value<50>(); }); }
template<typename R> Thing hist(const char *n) { typedef histogram<typename R::value_type, R> M; typedef typename R::value_type T; return thing<M>(n, fresh<M>, [](M &m, int64_t v) { m.update((T)v); }, snap<M>); }
static const std::vector<Thing> &things()
{
    static const std::vector<Thing> v = [] {
        std::vector<Thing> v;
        typedef counter<int64_t> C; v.push_back(thing<C>("counter", fresh<C>, [](C &m, int64_t v) { m += v; ++m; m.incr(-1); }, snap<C>));
        typedef gauge<double> G; v.push_back(thing<G>("gauge<double>", fresh<G>, [](G &m, int64_t v) { m.set((double)v); m = 5.0; }, snap<G>, [](G &m) { m.get(); }));
        typedef gauge<std::string> S; v.push_back(thing<S>("gauge<string>", fresh<S>, [](S &m, int64_t v) { m.set(std::string((size_t)v, 'x')); }, [](const S &m) { std::string s = m.get(); if (s.size() > 1 && s[0] != 'x') vf::fail("conc-result", "a gauge reads '%s'", s.c_str()); }, [](S &m) { m.snapshot(); }));
        typedef ewma<1_min, 1_sec> E; v.push_back(thing<E>("ewma", fresh<E>, [](E &m, int64_t v) { m.mark((double)v); }, snap<E>, [](E &m) { m.rate(); }));
        typedef ewma<1_min, 1_sec, int64_t> EI; v.push_back(thing<EI>("ewma<int64>", fresh<EI>, [](EI &m, int64_t v) { m.mark(v); }, snap<EI>, [](EI &m) { m.rate(); }));
        typedef meter<1_sec> M0; v.push_back(thing<M0>("meter<1s>", fresh<M0>, [](M0 &m, int64_t v) { m.mark(v); }, snap<M0>, [](M0 &m) { m.snapshot(); }));
        typedef meter<1_sec, 1_min, 5_min> M; v.push_back(thing<M>("meter<1s,1min,5min>", fresh<M>, [](M &m, int64_t v) { m.mark(v); }, [](const M &m) { reading(m.snapshot()); m.mean(); m.rate<1_min>(); }, [](M &m) { m.snapshot(); m.rate<5_min>(); }));
        v.push_back(reservoir<simple_reservoir<int64_t, 3>>("simple<3>")); v.push_back(reservoir<simple_reservoir<nanoseconds, 4>>("simple<ns,4>")); v.push_back(reservoir<uniform_reservoir<double, 3>>("uniform<3>")); v.push_back(reservoir<sliding_window_reservoir<int64_t, 4>>("sliding<4>")); v.back().target = false;
        v.push_back(hist<simple_reservoir<int64_t, 3>>("histogram<simple<3>>")); v.push_back(hist<uniform_reservoir<int64_t, 4>>("histogram<uniform<4>>")); v.push_back(hist<sliding_window_reservoir<double, 3>>("histogram<sliding<3>>")); v.back().target = false;
        typedef timer<1_sec, steady_clock, simple_reservoir<nanoseconds, 3>, 1_min> T; v.push_back(thing<T>("timer<steady,simple3,1min>", fresh<T>, [](T &m, int64_t v) { m.update(nanoseconds(v)); { auto s = scoped_timer(m); if (v & 1) s.reset(); } m.time([] { }); }, [](const T &m) { reading(m.snapshot()); m.mean(); m.count(); m.rate<1_min>(); }));
        typedef timer<1_sec, system_clock, uniform_reservoir<nanoseconds, 3>> U; v.push_back(thing<U>("timer<system,uniform3>", fresh<U>, [](U &m, int64_t v) { m.update(nanoseconds(v)); }, [](const U &m) { reading(m.snapshot()); m.mean(); }));
        typedef internal::ringbuf<int64_t, 3> B; v.push_back(thing<B>("ring<3>", fresh<B>, [](B &m, int64_t v) { m.push(v); }, [](const B &m) { for (auto it = m.begin(); it != m.end(); ++it) if (*it < 1 || *it > 60) vf::fail("conc-result", "the ring holds %lld, which was never pushed", (long long)*it); m.size(); }));
        return v;
    }();
    return v;
}
static void copies_run(Rng &r, uint64_t &ops, uint64_t &copied)
{
    const Thing &t = r.pick(things()); int n = (int)r.range(2, 4); size_t k = (size_t)r.range(1, 3); uint64_t sd = r.u64();
#ifdef VF_DSCHED
    int per = (int)r.range(1, 6);
#else
    int per = (int)r.range(5, 80);
#endif
    bool cross = t.target && r.chance(40); // two threads that assign the same two objects to each other
    std::vector<std::shared_ptr<void>> o; for (size_t i = 0; i < k; i++) { o.push_back(t.make()); for (uint64_t j = r.below(6); j; j--) t.add(o.back().get(), r.range(1, 60)); }
    std::atomic<uint64_t> cp{0};
    run_threads(r, n, [&](int th) {
        Rng q(sd + (uint64_t)th * 13); std::vector<std::shared_ptr<void>> mine; uint64_t c = 0;
        for (int i = 0; i < per; i++)
        {
            size_t a = q.below(k), b = q.below(k); point();
            if (cross && th < 2 && q.chance(60)) { t.assign(o[th ? 0 : k - 1].get(), o[th ? k - 1 : 0].get()); c++; continue; }
            switch (q.below(8))
            {
            case 0: case 1: case 2: t.add(o[a].get(), q.range(1, 60)); break;
            case 3: t.read(o[a].get()); break;
            case 4: t.fold(o[a].get()); break;
            case 5: { auto x = t.copy(o[a].get()); t.add(x.get(), q.range(1, 60)); t.read(x.get()); t.fold(x.get()); if (mine.size() < 4) mine.push_back(x); c++; break; }
            case 6: if (t.target) t.assign(o[a].get(), mine.empty() || q.chance(50) ? o[b].get() : mine.back().get()); c++; break;
            default: if (!mine.empty()) { t.assign(mine.back().get(), o[a].get()); t.read(mine.back().get()); c++; } else t.add(o[b].get(), q.range(1, 60)); break;
            }
            if (q.chance(10)) { VF_QUIET; vclk_advance(q.chance(50) ? 1000000000LL : 10); }
        }
        VF_QUIET; cp.fetch_add(c, std::memory_order_relaxed);
    }, mix(sd, hstr(t.name)));
    for (auto &x : o) { t.read(x.get()); t.fold(x.get()); }
    ops += (uint64_t)(n * per); copied += cp.load();
}
VF_THREADS(copies, 5)
{
    uint64_t seed = r.u64(), ops = 0, cp = 0; { Rng q(seed); t::copies_run(q, ops, cp); }
    if (seed % 4 == 0) { room(); Held h; { Rng q(seed); t::copies_run(q, ops, cp); } h.nothing("conc-leak", "after metrics were used from several threads and destroyed"); }
    count("operations", ops); count("copies", cp);
}
// permutations of one metric that come while others visit, sum up and publish what is there
VF_THREADS(permutations, 2)
{
    const auto &K = kinds::all(); int n = (int)r.range(2, 4); t::warm(r); room(); size_t kind = r.below(K.size()); int path = (int)r.below(120); const Kind &k = K[kind]; uint64_t in = mix(kind, (uint64_t)n);
    Box reg; std::vector<std::unique_ptr<Publisher>> pubs; for (int i = 0; i < n; i++) pubs.emplace_back(new Publisher(reg)); struct Do { int what; Path path; Tags tags; Handle mine; };
#ifdef VF_DSCHED
    int per = (int)r.range(2, 6);
#else
    int per = (int)r.range(10, 80);
#endif
    std::vector<std::vector<Do>> plan((size_t)n); std::set<int> want; int before = (int)r.range(0, 3);
    for (int i = 0; i < before; i++) { int t = (int)r.below(1024); want.insert(t); k.request(reg.r, make_path(r, path), make_tags(r, t)); }
    for (int i = 0; i < n; i++) for (int j = 0; j < per; j++)
    {
        Do d{(int)r.below(10), make_path(r, path), Tags(), nullptr}; if (i == 0 || (i > 1 && r.chance(30))) d.what = r.chance(80) ? 0 : 1; else if (d.what < 2) d.what = 2 + (int)r.below(8);
        if (d.what < 2) { int t = (int)r.below(r.chance(20) ? 4000 : 1024); want.insert(t); d.tags = make_tags(r, t); if (d.what == 1) d.mine = k.fresh(); }
        in = mix(in, (uint64_t)d.what); plan[(size_t)i].push_back(std::move(d));
    }
    std::atomic<size_t> last{(size_t)before}; std::vector<size_t> shrunk((size_t)n, 0);
    run_threads(r, n, [&](int t) {
        size_t most = 0;
        for (auto &d : plan[(size_t)t])
        {
            point();
            switch (d.what)
            {
            case 0: k.request(reg.r, d.path, d.tags); break;
            case 1: k.existing(reg.r, d.path, d.mine, d.tags); break;
            case 2: { std::ostringstream s; pubs[(size_t)t]->write(s); break; }
            case 3: pubs[(size_t)t]->look(d.path, true); break;
            case 4: case 5: { size_t c = 0; reg.r.visit_registered_metrics([&](const Path &, basic_registered_metric &m) { m.visit([&](const Tags &tg, const auto &s) { reading(s); tg.begin(); c++; }); }); if (c < most) shrunk[(size_t)t] = most; most = c; break; }
            default: reg.r.visit_registered_metrics([&](const Path &, basic_registered_metric &m) { m.aggregate([&](const auto &s) { reading(s); }); });
            }
        }
    }, in);
    for (auto s : shrunk) VF_CHECK(!s, "conc-result", "a visit reported fewer permutations than one before it, which had %zu", s);
    size_t c = 0; reg.r.visit_registered_metrics([&](const Path &, basic_registered_metric &m) { m.visit([&](const Tags &, const auto &) { c++; }); });
    VF_CHECK(c == want.size(), "conc-lost", "%zu permutations of %zu registered", c, want.size());
    count("operations", (uint64_t)(n * per)); sample("%zu permutations came while they were visited", c);
}
// threads that come to each kind of metric for the first time together
VF_THREADS(first, 1)
{
    int n = (int)r.range(2, 4); uint64_t in = r.u64(); std::atomic<int64_t> wrong{0};
    run_threads(r, n, [&](int t) {
        point(); Box b; const auto &K = kinds::all(); Rng q(in + (uint64_t)t); const Kind &k = K[q.below(K.size())]; auto h = k.request(b.r, Path("p"), Tags{{"a", metric_value(1)}}); k.add(h, 3); Publisher p(b); std::ostringstream s; p.write(s); if (s.str().empty()) { VF_QUIET; wrong.fetch_add(1, std::memory_order_relaxed); }
        metric_value v(2.5); (void)static_cast<std::string>(v); std::ostringstream o; o << v; publish_options po; po.histogram_options().quantiles(); b.r.publish_options();
    }, in);
    VF_CHECK(wrong.load() == 0, "conc-result", "nothing was published"); count("operations", (uint64_t)n * 6);
}
}}
