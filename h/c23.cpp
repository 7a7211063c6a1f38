// C23: copies of metrics are equal and independent
// Every object is judged against another that was never copied but lived through the same history at the same times.
#include "reg.hpp"
#include <cxxmetrics/ringbuf.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

struct Step { int64_t at; uint64_t op; };
// what an object has been through
struct Past { uint64_t make; int64_t at; std::vector<Step> steps; };
struct Type
{
    const char *name; bool moves = false; size_t random = 0; // how many updates a random sample takes before it's random
    std::function<std::shared_ptr<void>(uint64_t)> make;
    std::function<std::shared_ptr<void>(const void *)> copy;
    std::function<std::shared_ptr<void>(void *)> move;
    std::function<bool(void *, const void *)> assign;
    std::function<bool(void *, void *)> move_assign;
    std::function<void(void *, uint64_t)> apply;
    std::function<Reading(const void *)> read;
};
template<typename M> typename std::enable_if<std::is_base_of<internal::metric, M>::value && !std::is_const<M>::value>::type moves(Type &t, int)
{
    t.moves = true; t.move = [](void *o) { return std::static_pointer_cast<void>(std::make_shared<M>(std::move(*static_cast<M *>(o)))); };
    t.move_assign = [](void *a, void *b) { M &m = *static_cast<M *>(a); M &r = (m = std::move(*static_cast<M *>(b))); return &r == &m; };
}
template<typename M> Type type(const char *name, std::function<std::shared_ptr<M>(uint64_t)> make, std::function<void(M &, uint64_t)> apply, std::function<Reading(const M &)> read, bool movable = true)
{
    Type t; t.name = name;
    t.make = [make](uint64_t s) { return std::static_pointer_cast<void>(make(s)); };
    t.copy = [](const void *o) { return std::static_pointer_cast<void>(std::make_shared<M>(*static_cast<const M *>(o))); };
    t.assign = [](void *a, const void *b) { M &m = *static_cast<M *>(a); M &r = (m = *static_cast<const M *>(b)); return &r == &m; };
    t.apply = [apply](void *o, uint64_t op) { apply(*static_cast<M *>(o), op); };
    t.read = [read](const void *o) { return read(*static_cast<const M *>(o)); };
    t.moves = movable; t.move = [](void *o) { return std::static_pointer_cast<void>(std::make_shared<M>(std::move(*static_cast<M *>(o)))); };
    t.move_assign = [](void *a, void *b) { M &m = *static_cast<M *>(a); M &r = (m = std::move(*static_cast<M *>(b))); return &r == &m; };
    return t;
}
static int64_t small(uint64_t op) { return (int64_t)(mix(op) % 2001) - 1000; }
template<typename M> Reading snap(const M &m) { return reading(m.snapshot()); }
static Reading sampled(const reservoir_snapshot &s) { Reading r; r.family = F_HIST; r.size = s.size(); Peek::into(s, r.sample); if (r.sample.empty() && s.size()) { r.sample = {num(s.min()), num(s.max()), num(s.mean()), num(s.value<75>())}; } std::sort(r.sample.begin(), r.sample.end()); return r; }

template<typename T> Type counter_type(const char *n) { typedef counter<T> M; return type<M>(n, [](uint64_t s) { return s & 1 ? std::make_shared<M>((T)(s % 100)) : std::make_shared<M>(); }, [](M &m, uint64_t op) { switch (op % 5) { case 0: ++m; break; case 1: m.incr((T)(op % 77)); break; case 2: m -= (T)(op % 31); break; case 3: m = (T)(op % 1000); break; default: m += (T)(op % 50); } }, snap<M>); }
template<typename T, gauges::gauge_aggregation_type A> Type gauge_type(const char *n) { typedef gauge<T, A> M; return type<M>(n, [](uint64_t s) { return s & 1 ? std::make_shared<M>((T)(s % 100)) : std::make_shared<M>(); }, [](M &m, uint64_t op) { if (op & 1) m.set((T)small(op)); else m = (T)small(op); }, snap<M>); }
static Type text_type() { typedef gauge<std::string> M; return type<M>("gauge<string>", [](uint64_t s) { return std::make_shared<M>(std::string(s % 60, 'a')); }, [](M &m, uint64_t op) { m.set(std::string(op % 50, 'b') + std::to_string(op)); }, [](const M &m) { Reading r; r.value = (num_t)(double)(hstr(m.get()) >> 20); return r; }); }
static double *variables() { static double v[3] = {1, 2, 3}; return v; }
template<gauges::gauge_aggregation_type A> Type ref_type(const char *n) { typedef gauge<double &, A> M; return type<M>(n, [](uint64_t s) { return std::make_shared<M>(variables()[s % 3]); }, [](M &, uint64_t) { }, snap<M>, false); }
static Type ptr_type() { typedef gauge<double *> M; return type<M>("gauge<double*>", [](uint64_t s) { return std::make_shared<M>(&variables()[s % 3]); }, [](M &, uint64_t) { }, [](const M &m) { Reading r; r.value = (num_t)m.get(); return r; }, false); }
static Type fn_type() { typedef gauge<std::function<double()>> M; return type<M>("gauge<function>", [](uint64_t s) { double *v = &variables()[s % 3]; int64_t by = (int64_t)(s % 1000); std::string big = std::string((size_t)(s % 40), 'x'); return std::make_shared<M>(std::function<double()>([v, by, big] { return *v + (double)by + (double)big.size(); })); }, [](M &, uint64_t) { }, snap<M>); }
// a function with state of its own
static Type state_type() { typedef gauge<std::function<int64_t()>, gauges::aggregation_sum> M; return type<M>("gauge<function with state>", [](uint64_t s) { int64_t n = (int64_t)(s % 100); return std::make_shared<M>(std::function<int64_t()>([n]() mutable { return n++; })); }, [](M &m, uint64_t) { m.get(); }, [](const M &m) { M c(m); Reading r; r.value = (num_t)c.get(); return r; }); }
template<period::value W, period::value I, typename T> Type ewma_type(const char *n) { typedef ewma<W, I, T> M; return type<M>(n, [](uint64_t) { return std::make_shared<M>(); }, [](M &m, uint64_t op) { if (op % 3) m.mark((T)(small(op) / (op % 4 ? 1 : 100))); else m.rate(); }, snap<M>, false); }
template<period::value W, period::value I> Type inner_ewma_type(const char *n) { typedef internal::ewma<steady_clock_point, W, I> M; return type<M>(n, [](uint64_t) { return std::make_shared<M>(); }, [](M &m, uint64_t op) { if (op % 3) m.mark((double)small(op)); else m.rate(); }, [](const M &m) { Reading r; r.family = F_AVG; r.value = (num_t)m.rate(); return r; }, false); }
template<period::value I, period::value... W> Type meter_type(const char *n) { typedef meter<I, W...> M; return type<M>(n, [](uint64_t) { return std::make_shared<M>(); }, [](M &m, uint64_t op) { if (op % 5 == 0) (void)m.snapshot(); else if (op & 8) m.mark(); else m.mark((int64_t)(op % 1000)); }, snap<M>, false); }
template<typename R> R reservoir(uint64_t) { return R(); }
template<typename R> Type res_type(const char *n, size_t random = 0, R (*make)(uint64_t) = reservoir<R>) { typedef typename R::value_type T; auto t = type<R>(n, [make](uint64_t s) { return std::make_shared<R>(make(s)); }, [](R &m, uint64_t op) { m.update((T)(small(op))); }, [](const R &m) { return t::sampled(m.snapshot()); }, false); t.random = random; return t; }
template<typename R> Type hist_type(const char *n, size_t random = 0, R (*make)(uint64_t) = reservoir<R>) { typedef histogram<typename R::value_type, R> M; typedef typename R::value_type T; auto t = type<M>(n, [make](uint64_t s) { return std::make_shared<M>(make(s)); }, [](M &m, uint64_t op) { m.update((T)small(op)); }, snap<M>, false); t.random = random; return t; }
template<period::value I, typename C, typename R, period::value... W> Type timer_type(const char *n, size_t random = 0) { typedef timer<I, C, R, W...> M; auto t = type<M>(n, [](uint64_t) { return std::make_shared<M>(); }, [](M &m, uint64_t op) { m.update(typename C::duration((int64_t)(mix(op) % 100000))); }, snap<M>, false); t.random = random; return t; }
template<typename T, size_t N> Type ring_type(const char *n) { typedef internal::ringbuf<T, N> M; return type<M>(n, [](uint64_t) { return std::make_shared<M>(); }, [](M &m, uint64_t op) { m.push((T)small(op)); }, [](const M &m) { Reading r; r.family = F_HIST; r.size = m.size(); for (auto it = m.begin(); it != m.end(); ++it) r.sample.push_back((num_t)*it); return r; }, false); }
template<typename R> R window(uint64_t s) { static const int64_t w[] = {1000, 50000000, 1000000000, 60000000000}; return R(nanoseconds(w[s % 4])); }
// a clock of its own: ahead of the others, or faster
struct own_clock { int64_t ahead, times; explicit own_clock(int64_t a = 0, int64_t t = 1) : ahead(a), times(t) { } int64_t operator()() const { return vclk_now() * times + ahead; } };
static own_clock clock_of(uint64_t s) { static const int64_t a[] = {0, 5000000000LL, 3600000000000LL, 1000}; return own_clock(a[s % 4], (int64_t)(s / 4 % 3) + 1); }
typedef sliding_window_reservoir<int64_t, 8, own_clock> Own8; typedef sliding_window_reservoir<double, 32, own_clock> Own32;
template<typename R> R own_window(uint64_t s) { static const int64_t w[] = {1000, 50000000, 1000000000, 60000000000}; return R(w[s / 16 % 4], clock_of(s)); }
template<period::value W, period::value I> Type own_ewma_type(const char *n) { typedef internal::ewma<own_clock, W, I> M; return type<M>(n, [](uint64_t s) { return std::make_shared<M>(clock_of(s)); }, [](M &m, uint64_t op) { if (op % 3) m.mark((double)small(op)); else m.rate(); }, [](const M &m) { Reading r; r.family = F_AVG; r.value = (num_t)m.rate(); return r; }, false); }
typedef sliding_window_reservoir<int64_t, 8> Slide8; typedef sliding_window_reservoir<double, 64> Slide64;
static const std::vector<Type> &types()
{
    static const std::vector<Type> v{
        counter_type<int64_t>("counter<int64>"), counter_type<int>("counter<int>"), counter_type<uint64_t>("counter<uint64>"),
        gauge_type<double, gauges::aggregation_average>("gauge<double>"), gauge_type<int64_t, gauges::aggregation_sum>("gauge<int64,sum>"), text_type(), ref_type<gauges::aggregation_average>("gauge<double&>"), ref_type<gauges::aggregation_sum>("gauge<double&,sum>"), ptr_type(), fn_type(), state_type(),
        ewma_type<1_min, 1_sec, double>("ewma<1min,1s>"), ewma_type<10_sec, 5_sec, double>("ewma<10s,5s>"), ewma_type<5_min, 1_sec, int64_t>("ewma<5min,1s,int64>"), ewma_type<1_min, 1_sec, float>("ewma<1min,1s,float>"), inner_ewma_type<1_min, 1_sec>("internal ewma"),
        meter_type<1_sec>("meter<1s>"), meter_type<1_sec, 1_min>("meter<1s,1min>"), meter_type<5_sec, 1_min, 5_min, 15_min>("meter<5s,1min,5min,15min>"),
        res_type<simple_reservoir<int64_t, 7>>("simple<7>"), res_type<simple_reservoir<double, 64>>("simple<double,64>"), res_type<simple_reservoir<nanoseconds, 8>>("simple<ns,8>"), res_type<uniform_reservoir<int64_t, 16>>("uniform<16>", 16), res_type<uniform_reservoir<double, 50>>("uniform<double,50>", 50), res_type<uniform_reservoir<int64_t, 1>>("uniform<1>", 1),
        res_type<Slide8>("sliding<8>", 0, window<Slide8>), res_type<Own8>("sliding<8,own clock>", 0, own_window<Own8>), res_type<Own32>("sliding<double,32,own clock>", 0, own_window<Own32>), hist_type<Own8>("histogram<sliding<8,own clock>>", 0, own_window<Own8>), own_ewma_type<1_min, 1_sec>("internal ewma<own clock>"), res_type<Slide64>("sliding<double,64>", 0, window<Slide64>),
        ring_type<int64_t, 2>("ring<2>"), ring_type<int, 13>("ring<int,13>"), ring_type<double, 32>("ring<double,32>"),
        hist_type<simple_reservoir<int64_t, 8>>("histogram<simple<8>>"), hist_type<uniform_reservoir<int64_t, 16>>("histogram<uniform<16>>", 16), hist_type<Slide8>("histogram<sliding<8>>", 0, window<Slide8>), hist_type<uniform_reservoir<double, 1024>>("histogram<uniform<double,1024>>", 1024),
        timer_type<1_sec, steady_clock, simple_reservoir<nanoseconds, 8>, 1_min>("timer<steady,simple8,1min>"), timer_type<1_sec, system_clock, uniform_reservoir<nanoseconds, 20>, 1_min, 5_min>("timer<system,uniform20,1min,5min>", 20), timer_type<5_sec, system_clock, sliding_window_reservoir<nanoseconds, 16>>("timer<system,sliding16>"),
    };
    return v;
}
struct Slot { std::shared_ptr<void> o; Past p; bool vague = false; };
// what the object would be, had it not been copied
static Reading twin(const Type &t, const Past &p)
{
    int64_t now = vclk_now(); vclk_set(p.at); auto o = t.make(p.make); for (auto &s : p.steps) { vclk_set(s.at); t.apply(o.get(), s.op); }
    vclk_set(now); return t.read(o.get());
}
static void judge(const Type &t, const Slot &s, const char *what, const Reading &got)
{
    Reading want = t::twin(t, s.p);
    if (t.random && s.p.steps.size() > t.random) // the sample of either is random
    {
        VF_CHECK(got.count == want.count && got.size == want.size && got.rates == want.rates && got.sample.size() == want.sample.size(), "behaviour", "%s after %s says %s, expected %s", t.name, what, got.text().c_str(), want.text().c_str());
        return;
    }
    VF_CHECK(got == want, "behaviour", "%s after %s says %s, expected %s", t.name, what, got.text().c_str(), want.text().c_str());
}
static int64_t gap(Rng &r) { switch (r.below(6)) { case 0: case 1: return 0; case 2: return (int64_t)r.below(1000000); case 3: return (int64_t)r.below(1000000000); case 4: return 1000000000LL * r.range(1, 8); default: return 1000000000LL * r.range(1, 200); } }

VF_SEQ(copies, 8)
{
    const auto &T = types(); size_t ty = r.below(T.size()); const Type &t = T[ty]; size_t n = (size_t)r.range(2, 4); std::vector<Slot> s(n); uint64_t h = ty, copied = 0, assigned = 0, moved = 0, selfs = 0;
    for (int i = 0; i < 3; i++) variables()[i] = (double)r.range(-100, 100);
    auto fresh = [&](Slot &x) { x.p = {r.u64(), vclk_now(), {}}; x.o = t.make(x.p.make); };
    for (auto &x : s) { fresh(x); if (r.chance(50)) vclk_advance(gap(r)); }
    auto update = [&](size_t i, const char *) { uint64_t op = r.u64(); s[i].p.steps.push_back({vclk_now(), op}); t.apply(s[i].o.get(), op); };
    auto all = [&](const char *what) { std::vector<Reading> v; for (auto &x : s) v.push_back(t.read(x.o.get())); for (size_t i = 0; i < n; i++) t::judge(t, s[i], what, v[i]); return v; };
    int rounds = (int)r.range(1, 8);
    for (int k = 0; k < rounds; k++)
    {
        // some history
        int m = (int)(r.chance(30) ? r.below(80) : r.below(12)); for (int i = 0; i < m; i++) { update(r.below(n), "update"); if (r.chance(40)) vclk_advance(gap(r)); }
        if (r.chance(50)) variables()[r.below(3)] = (double)r.range(-1000, 1000);
        auto before = all("updates"); size_t a = r.below(n), b = r.below(n); const char *what = ""; int w = (int)r.below(8); h = mix(h, mix((uint64_t)w, a * 8 + b) + (uint64_t)m);
        switch (w)
        {
        case 0: case 1: { what = "copy construction"; copied++; auto c = t.copy(s[b].o.get()); Reading got = t.read(c.get()); VF_CHECK(got == before[b], "equal", "a copy of %s says %s, the original %s", t.name, got.text().c_str(), before[b].text().c_str()); Past p = s[b].p; s[a].o = c; s[a].p = p; break; }
        case 2: case 3: case 4: { what = a == b ? "self assignment" : "assignment"; a == b ? selfs++ : assigned++; VF_CHECK(t.assign(s[a].o.get(), s[b].o.get()), "assign", "assigning %s returns another object", t.name); Reading got = t.read(s[a].o.get()); VF_CHECK(got == before[b], "equal", "%s after %s says %s, the original %s", t.name, what, got.text().c_str(), before[b].text().c_str()); Past p = s[b].p; s[a].p = p; break; }
        case 5: if (t.moves) { what = "move construction"; moved++; auto c = t.move(s[b].o.get()); Reading got = t.read(c.get()); VF_CHECK(got == before[b], "equal", "%s after %s says %s, expected %s", t.name, what, got.text().c_str(), before[b].text().c_str()); Past p = s[b].p; fresh(s[b]); s[a].o = c; s[a].p = p; } break;
        case 6: if (t.moves && a != b) { what = "move assignment"; moved++; VF_CHECK(t.move_assign(s[a].o.get(), s[b].o.get()), "assign", "assigning %s returns another object", t.name); Reading got = t.read(s[a].o.get()); VF_CHECK(got == before[b], "equal", "%s after %s says %s, expected %s", t.name, what, got.text().c_str(), before[b].text().c_str()); s[a].p = s[b].p; fresh(s[b]); } break;
        default: { what = "a chain of assignments"; assigned += 2; size_t c = r.below(n); t.assign(s[b].o.get(), s[c].o.get()); s[b].p = Past(s[c].p); t.assign(s[a].o.get(), s[b].o.get()); s[a].p = Past(s[b].p); break; }
        }
        VF_NOTE("%s %s: %zu and %zu", t.name, what, a, b);
        auto after = all(what); for (size_t i = 0; i < n; i++) if (i != a && i != b && *what) VF_CHECK(after[i] == before[i], "independent", "%s changed a third object of type %s", what, t.name);
        if (r.chance(50))
        {
            // the same operations on both: the same results
            if (a != b && s[a].p.make == s[b].p.make && s[a].p.at == s[b].p.at && s[a].p.steps.size() == s[b].p.steps.size()) { int q = (int)r.range(1, 10); for (int i = 0; i < q; i++) { uint64_t op = r.u64(); for (size_t x : {a, b}) { s[x].p.steps.push_back({vclk_now(), op}); t.apply(s[x].o.get(), op); } if (r.chance(50)) vclk_advance(gap(r)); } all("the same updates"); }
        }
        else
        {
            // one goes on, the others don't
            auto still = all("a pause"); int q = (int)r.range(1, 30); for (int i = 0; i < q; i++) update(a, "update"); auto now = all("updates of one"); for (size_t i = 0; i < n; i++) if (i != a) VF_CHECK(now[i] == still[i], "independent", "updating one %s changed another from %s to %s", t.name, still[i].text().c_str(), now[i].text().c_str());
        }
        if (r.chance(20)) { size_t d = r.below(n); fresh(s[d]); }
    }
    count("copies", copied); count("assignments", assigned); count("moves", moved); count("self_assignments", selfs); count("judgements", (uint64_t)rounds * 3 * n); if (copied + assigned + moved) cover(h);
    sample("%s: %d rounds on %zu objects with %lu copies, %lu assignments, %lu self assignments, %lu moves", t.name, rounds, n, (unsigned long)copied, (unsigned long)assigned, (unsigned long)selfs, (unsigned long)moved);
}
// very many updates between: counters of positions have long run past the capacity
VF_SEQ(full, 1)
{
    const auto &T = types(); size_t ty = r.below(T.size()); const Type &t = T[ty]; if (!r.chance(30)) { cover(1); return; }
    Slot a, b; a.p = {r.u64(), vclk_now(), {}}; a.o = t.make(a.p.make); b.p = {r.u64(), vclk_now(), {}}; b.o = t.make(b.p.make); int m = (int)r.range(500, 3000), k = (int)r.below(3000);
    for (int i = 0; i < m; i++) { uint64_t op = r.u64(); a.p.steps.push_back({vclk_now(), op}); t.apply(a.o.get(), op); if (i % 64 == 0) vclk_advance(gap(r)); }
    for (int i = 0; i < k; i++) t.apply(b.o.get(), r.u64());
    if (r.chance(50)) b.o = t.copy(a.o.get()); else t.assign(b.o.get(), a.o.get());
    b.p = a.p; Reading x = t.read(a.o.get()), y = t.read(b.o.get()); VF_CHECK(x == y, "equal", "a copy of %s says %s, the original %s", t.name, y.text().c_str(), x.text().c_str()); t::judge(t, b, "copying", y);
    int q = (int)r.range(1, 200); for (int i = 0; i < q; i++) { uint64_t op = r.u64(); b.p.steps.push_back({vclk_now(), op}); t.apply(b.o.get(), op); }
    t::judge(t, a, "updating its copy", t.read(a.o.get())); if (t.random) t::judge(t, a, "updating its copy", t.read(a.o.get())); VF_CHECK(t.read(a.o.get()) == x, "independent", "updating a copy changed the original %s", t.name); t::judge(t, b, "copying and updating", t.read(b.o.get()));
    count("copies"); count("judgements", 3); cover(mix(ty, (uint64_t)m));
}
}}
