// C13: timers record each timed operation exactly once and correctly
#include <deque>
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

// clocks: the test moves them
template<typename D> struct StaticClock
{
    typedef D duration; typedef typename D::rep rep; typedef typename D::period period; typedef std::chrono::time_point<StaticClock> time_point; static const bool is_steady = true;
    static std::atomic<int64_t> &ticks() { static std::atomic<int64_t> t{1000}; return t; }
    static time_point now() noexcept { return time_point(D((rep)ticks().load(std::memory_order_relaxed))); }
    static void advance(int64_t d) { ticks().fetch_add(d, std::memory_order_relaxed); }
};
// one with state of its own
template<typename D> struct StateClock
{
    typedef D duration; typedef typename D::rep rep; typedef typename D::period period; typedef std::chrono::time_point<StateClock> time_point; static const bool is_steady = true;
    std::shared_ptr<std::atomic<int64_t>> t;
    StateClock() : t(std::make_shared<std::atomic<int64_t>>(5)) { }
    explicit StateClock(const std::shared_ptr<std::atomic<int64_t>> &p) : t(p) { }
    time_point now() const noexcept { return time_point(D((rep)t->load(std::memory_order_relaxed))); }
};
typedef duration<int64_t, std::ratio<1, 3>> thirds;

struct Oops { int n; };

// T: timer. model of what it recorded
template<typename T> struct Drive
{
    typedef typename T::duration D; typedef typename D::rep Rep;
    Rng &r; T &t; std::function<void(int64_t)> advance; size_t N; const char *what;
    std::deque<num_t> last; uint64_t n = 0, zeros = 0, scopes = 0, calls = 0, throws = 0, moves = 0, h = 7; int64_t now = 0; bool backwards, still = true;
    struct Scope { std::unique_ptr<scoped_timer_t<T>> s; bool set; int64_t start; };
    std::vector<Scope> live;
    Drive(Rng &r_, T &t_, std::function<void(int64_t)> a, size_t n_, const char *w) : r(r_), t(t_), advance(a), N(n_), what(w), backwards(r_.chance(15)) { }
    void rec(int64_t ticks) { if (!ticks) { zeros++; return; } n++; last.push_back(num(D((Rep)ticks))); if (last.size() > N) last.pop_front(); h = mix(h, (uint64_t)ticks); }
    void step() { int64_t d = r.chance(15) ? 0 : r.chance(60) ? r.range(1, 50) : r.range(1, 1000000); if (backwards && r.chance(20)) d = -d; advance(d); now += d; VF_NOTE("clock += %lld", (long long)d); }
    void close(size_t i) { Scope s = std::move(live[i]); live.erase(live.begin() + (long)i); s.s.reset(); VF_NOTE("scope ends"); if (s.set) rec(now - s.start); }
    void check(bool whole)
    {
        VF_CHECK(t.count() == n, "count", "%s: count %lu, %lu durations were recorded", what, (unsigned long)t.count(), (unsigned long)n);
        if (still) VF_CHECK(t.mean() == (double)n, "mean-total", "%s: the meter was marked %.17g times, %lu durations were recorded", what, t.mean(), (unsigned long)n);
        if (!whole) return;
        auto s = r.chance(50) ? t.snapshot() : static_cast<const T &>(t).snapshot();
        if (r.chance(30)) { timer_snapshot a(std::move(s)); auto b = t.snapshot(); b = std::move(a); s = std::move(b); }
        VF_CHECK(s.count() == n, "count", "%s: snapshot count %lu, %lu durations were recorded", what, (unsigned long)s.count(), (unsigned long)n);
        if (still) VF_CHECK((double)num(s.rate().value()) == (double)n, "rate-total", "%s: the rate's total is %.17Lg, %lu durations were recorded", what, num(s.rate().value()), (unsigned long)n);
        if (still) for (auto &p : s.rate()) VF_CHECK((double)num(p.second) == (double)n, "rate", "%s: a rate before the first interval of %.17Lg, %lu durations were recorded", what, num(p.second), (unsigned long)n);
        expect_sample(std::move(s), Nums(last.begin(), last.end()), "sample", what); count("snapshots");
    }
    // a callable that moves the clock, and perhaps times another inside
    int64_t body(int depth)
    {
        int k = (int)r.below(3); for (int i = 0; i < k; i++) { step(); if (depth < 3 && r.chance(30)) call(depth + 1); if (depth < 3 && r.chance(10)) { D d((Rep)r.range(1, 99)); t.update(d); rec((int64_t)d.count()); } }
        return (int64_t)r.below(1000);
    }
    void call(int depth)
    {
        int64_t start = now; int kind = (int)r.below(6); bool inc = r.chance(40), thr = r.chance(30); int64_t v = 0, got = 0; bool caught = false; calls++; int num = (int)r.below(100);
        h = mix(h, (uint64_t)(kind * 4 + inc * 2 + thr)); VF_NOTE("time a callable, kind %d include %d throws %d", kind, inc, thr);
        try
        {
            switch (kind)
            {
            case 0: { auto f = [&] { v = body(depth); if (thr) throw Oops{num}; return v; }; got = inc ? t.template time<decltype(f), true>(f) : t.time(f); break; }
            case 1: { auto f = [&] { v = body(depth); got = v; if (thr) throw Oops{num}; }; if (inc) t.template time<decltype(f), true>(f); else t.time(f); break; }
            case 2: { auto f = [&]() -> int64_t & { v = body(depth); if (thr) throw Oops{num}; return v; }; int64_t &ref = inc ? t.template time<decltype(f), true>(f) : t.time(f); VF_CHECK(&ref == &v, "result", "the result isn't the reference returned"); got = ref; break; }
            case 3: { auto f = [&] { v = body(depth); if (thr) throw Oops{num}; return std::unique_ptr<int64_t>(new int64_t(v)); }; auto p = inc ? t.template time<decltype(f), true>(f) : t.time(f); got = *p; break; }
            case 4: { std::function<int64_t()> f = [&] { v = body(depth); if (thr) throw Oops{num}; return v; }; got = inc ? t.template time<decltype(f), true>(f) : t.time(f); break; }
            default: { auto f = [&] { v = body(depth); if (thr) throw Oops{num}; return std::string((size_t)v, 'x'); }; got = (int64_t)(inc ? t.template time<decltype(f), true>(f) : t.time(f)).size(); }
            }
        }
        catch (const Oops &o) { caught = true; VF_CHECK(o.n == num, "exception", "another exception reached the caller"); }
        VF_CHECK(caught == thr, "exception", "%s: the callable %s but the caller %s", what, thr ? "threw" : "returned", caught ? "caught" : "didn't catch");
        if (!thr) VF_CHECK(got == v, "result", "%s: the callable returned %lld, the caller got %lld", what, (long long)v, (long long)got);
        throws += thr;
        if (!thr || inc) rec(now - start);
        VF_CHECK(t.count() == n, "timed-callable", "%s: after a callable that %s (exceptions %s) the count is %lu, expected %lu", what, thr ? "threw" : "returned", inc ? "included" : "not included", (unsigned long)t.count(), (unsigned long)n);
    }
    void run()
    {
        int steps = (int)r.range(3, 60);
        for (int i = 0; i < steps; i++)
        {
            switch (r.below(12))
            {
            case 0: { int64_t x = r.chance(20) ? 0 : r.chance(70) ? r.range(1, 1000) : r.range(-1000, 1000); t.update(D((Rep)x)); VF_NOTE("update %lld", (long long)x); rec(x); break; }
            case 1: case 2: step(); break;
            case 3: call(0); break;
            case 4: case 5: if (live.size() < 5) { std::unique_ptr<scoped_timer_t<T>> s; if (r.chance(50)) s.reset(new scoped_timer_t<T>(t)); else { auto l = scoped_timer(t); s.reset(new scoped_timer_t<T>(std::move(l))); } live.push_back(Scope{std::move(s), true, now}); scopes++; h = mix(h, 21); VF_NOTE("scope starts"); } break;
            case 6: case 7: if (!live.empty()) close(r.below(live.size())); break;
            case 8: if (!live.empty()) { auto &s = live[r.below(live.size())]; s.s->clear(); s.set = false; h = mix(h, 22); VF_NOTE("scope cleared"); } break;
            case 9: if (!live.empty()) { auto &s = live[r.below(live.size())]; s.s->reset(); s.set = true; s.start = now; h = mix(h, 23); VF_NOTE("scope reset"); } break;
            case 10: if (!live.empty())
                {
                    size_t k = r.below(live.size()); std::unique_ptr<scoped_timer_t<T>> to(new scoped_timer_t<T>(std::move(*live[k].s))); Scope ns{std::move(to), live[k].set, live[k].start};
                    live[k].set = false; VF_NOTE("scope moved"); moves++; h = mix(h, 24); live.push_back(std::move(ns)); // the one moved from is left to end at any time
                }
                break;
            default:
                {
                    // a scope left normally or by an exception
                    bool set = true, thr = r.chance(40); int64_t start = 0;
                    try
                    {
                        step(); scoped_timer_t<T> s(t); start = now; step();
                        if (r.chance(20)) { s.clear(); set = false; }
                        if (r.chance(20)) { s.reset(); set = true; start = now; step(); }
                        if (thr) throw Oops{1};
                    }
                    catch (const Oops &) { }
                    if (set) rec(now - start);
                    scopes++; h = mix(h, 25); break;
                }
            }
            check(r.chance(12));
        }
        while (!live.empty()) { if (r.chance(50)) step(); close(r.below(live.size())); check(false); }
        check(true);
        count("durations_recorded", n); count("zero_durations", zeros); count("scopes", scopes); count("callables", calls); count("exceptions", throws); count("moves", moves);
        if (n) cover(h);
        sample("%s: %lu recorded from %lu scopes (%lu moves) and %lu callables (%lu threw)", what, (unsigned long)n, (unsigned long)scopes, (unsigned long)moves, (unsigned long)calls, (unsigned long)throws);
    }
};
template<typename T> void static_clock(Rng &r, const char *what, size_t N)
{
    typedef typename T::clock_type C; std::unique_ptr<T> t(new T()); if (r.chance(40)) C::ticks() = r.chance(50) ? 0 : r.range(-100, 20); // around the epoch
    Drive<T> d(r, *t, [](int64_t x) { C::advance(x); }, N, what); d.run();
}
template<typename T, size_t N> void state_clock(Rng &r, const char *what)
{
    typedef typename T::clock_type C; auto p = std::make_shared<std::atomic<int64_t>>(r.chance(60) ? r.range(-1000, 100000) : r.chance(50) ? 0 : r.range(-20, 5));
    std::unique_ptr<T> t(new T(simple_reservoir<typename C::duration, N>(), C(p))); VF_CHECK(t->clock().t == p, "clock", "the timer's clock isn't the one given");
    Drive<T> d(r, *t, [p](int64_t x) { *p += x; }, N, what); d.run();
}
template<period::value I, typename C, size_t N, period::value... W> using STimer = timer<I, C, simple_reservoir<typename C::duration, N>, W...>;

VF_SEQ(static_ns, 3) { typedef STimer<1_sec, StaticClock<nanoseconds>, 16, 1_min> T; static_clock<T>(r, "nanosecond clock", 16); }
VF_SEQ(static_ms, 1) { typedef STimer<1_min, StaticClock<milliseconds>, 5> T; static_clock<T>(r, "millisecond clock", 5); }
VF_SEQ(static_sec32, 1) { typedef STimer<1_sec, StaticClock<duration<int32_t>>, 9, 5_min, 1_min> T; static_clock<T>(r, "32 bit second clock", 9); }
VF_SEQ(static_us_dbl, 1) { typedef STimer<1_sec, StaticClock<duration<double, std::micro>>, 9, 5_min> T; static_clock<T>(r, "floating microsecond clock", 9); }
VF_SEQ(state_us, 2) { typedef STimer<1_sec, StateClock<microseconds>, 12, 1_sec, 10_sec, 1_hour> T; state_clock<T, 12>(r, "clock object"); }
VF_SEQ(state_min, 1) { typedef STimer<10_sec, StateClock<minutes>, 4> T; state_clock<T, 4>(r, "minute clock object"); }
// the steady clock moves the rates too
VF_SEQ(steady, 1) { typedef STimer<1_hour, steady_clock, 64, 1_hour> T; std::unique_ptr<T> t(new T()); Drive<T> d(r, *t, [](int64_t x) { vclk_advance(x); }, 64, "steady clock"); d.still = d.backwards = false; d.run(); }
VF_SEQ(system, 1) { typedef STimer<1_hour, system_clock, 64, 1_hour> T; std::unique_ptr<T> t(new T()); Drive<T> d(r, *t, [](int64_t x) { vclk_advance(x); }, 64, "system clock"); d.still = d.backwards = false; d.run(); }
// a sliding window of durations, with a window of the steady clock's
VF_SEQ(rates_follow, 1)
{
    typedef STimer<1_sec, StaticClock<nanoseconds>, 16, 1_min, 5_min> T; T t; int64_t total = 0, start = -1;
    for (int i = 0, n = (int)r.range(1, 30); i < n; i++)
    {
        if (r.chance(60)) { t.update(nanoseconds(r.range(1, 100000))); total++; if (start < 0) start = vclk_now(); }
        if (r.chance(40)) vclk_advance(r.range(0, 3000000000LL));
        if (r.chance(30))
        {
            long double el = start < 0 ? 0 : (long double)(vclk_now() - start) / 1e9L, want = el > 0 ? (long double)total / el : (long double)total;
            VF_CHECK(std::fabs(t.mean() - want) <= 1e-9L * std::max<long double>(1, want), "mean", "%lld durations in %.9Lg s give a mean of %.17g", (long long)total, el, t.mean());
            meter_rate m1 = t.rate<1_min>(), m5 = t.rate<5_min>();
            auto s = t.snapshot(); VF_CHECK(std::fabs(num(s.rate().value()) - want) <= 1e-9L * std::max<long double>(1, want), "mean", "%lld durations in %.9Lg s give a snapshot mean of %.17Lg", (long long)total, el, num(s.rate().value()));
            std::set<int64_t> w; for (auto &p : s.rate()) w.insert(duration_cast<seconds>(p.first).count());
            VF_CHECK(w == (std::set<int64_t>{60, 300}), "windows", "the timer's rates aren't those of its windows"); count("snapshots");
            VF_CHECK(duration_cast<seconds>(m1.period).count() == 60 && duration_cast<seconds>(m5.period).count() == 300, "windows", "rate() is over other windows than asked for");
            for (auto &p : s.rate()) { double x = duration_cast<seconds>(p.first).count() == 60 ? m1.rate : m5.rate; VF_CHECK(std::fabs((double)num(p.second) - x) <= 1e-9 * std::max(1.0, std::fabs(x)), "rate", "the rate over %lld s is %.17g, but %.17Lg in a snapshot at the same time", (long long)duration_cast<seconds>(p.first).count(), x, num(p.second)); }
        }
    }
    if (total) cover(mix((uint64_t)total, (uint64_t)vclk_now()));
}

// ------------------------------------------------------------------------------------------------------------- concurrent
template<typename T> void conc(Rng &r, size_t N)
{
    typedef typename T::clock_type C; std::unique_ptr<T> t(new T());
#ifdef VF_DSCHED
    int per = (int)r.range(1, 4);
#else
    int per = (int)r.range(1, 30);
#endif
    int workers = (int)r.range(2, 3), readers = (int)r.below(3), n = workers + readers; std::atomic<uint64_t> started{0}, done{0};
    std::vector<std::vector<int>> plan((size_t)workers); uint64_t in = (uint64_t)(workers * 8 + readers), total = 0; std::set<num_t> mine; size_t updates = 0;
    for (auto &p : plan) for (int k = 0; k < per; k++) { int op = (int)r.below(6); p.push_back(op); in = mix(in, (uint64_t)op); total += op < 4 ? 1 : op == 4 ? 2 : 0; }
    auto dur = [](int i, int k) { return nanoseconds(1000000000LL + i * 1000 + k); }; // the updates' own durations, all different
    for (int i = 0; i < workers; i++) for (int k = 0; k < per; k++) { int op = plan[(size_t)i][(size_t)k]; if (op < 2 || op == 4) { mine.insert(num(dur(i, k))); updates++; } }
    std::mutex sm; std::string bad;
    run_threads(r, n, [&](int i) {
        if (i < workers) for (int k = 0; k < per; k++)
        {
            int op = plan[(size_t)i][(size_t)k]; uint64_t adds = op < 4 ? 1 : op == 4 ? 2 : 0; point();
            { VF_QUIET; started.fetch_add(adds, std::memory_order_relaxed); }
            switch (op)
            {
            case 0: case 1: t->update(dur(i, k)); break;
            case 2: { auto s = scoped_timer(*t); C::advance(1); break; }
            case 3: { int got = t->time([&] { C::advance(1); return i * 100 + k; }); if (got != i * 100 + k) fail("result", "a timed callable's result is wrong"); break; }
            case 4: t->time([&] { t->update(dur(i, k)); C::advance(1); }); break;
            default: { scoped_timer_t<T> a(*t); scoped_timer_t<T> b(std::move(a)); C::advance(1); b.clear(); try { t->time([]() -> int { C::advance(1); throw Oops{1}; }); } catch (const Oops &) { } }
            }
            { VF_QUIET; done.fetch_add(adds, std::memory_order_relaxed); }
        }
        else for (int k = 0; k < 2; k++)
        {
            point(); uint64_t lo; { VF_QUIET; lo = done.load(std::memory_order_relaxed); }
            auto s = k ? t->snapshot() : static_cast<const T &>(*t).snapshot(); uint64_t c2 = t->count();
            uint64_t hi; { VF_QUIET; hi = started.load(std::memory_order_relaxed); }
            VF_QUIET; uint64_t c = s.count(); double rate = (double)num(s.rate().value());
            if (c < lo || c > hi) fail("conc-count", "a snapshot counts %lu, between %lu and %lu had been recorded", (unsigned long)c, (unsigned long)lo, (unsigned long)hi);
            if (c2 < lo || c2 > hi) fail("conc-count", "the count is %lu, between %lu and %lu had been recorded", (unsigned long)c2, (unsigned long)lo, (unsigned long)hi);
            if (rate < (double)lo || rate > (double)hi) fail("conc-rate", "a snapshot's rate total is %.17g, between %lu and %lu had been recorded", rate, (unsigned long)lo, (unsigned long)hi);
            if (s.size() > c) fail("conc-sample", "a snapshot holds %zu values and counts %lu", s.size(), (unsigned long)c);
        }
    }, in);
    count("snapshots", (uint64_t)readers * 2);
    VF_CHECK(t->count() == total, "conc-count", "%lu durations gave a count of %lu", (unsigned long)total, (unsigned long)t->count());
    VF_CHECK(t->mean() == (double)total, "conc-rate", "%lu durations gave a rate total of %.17g", (unsigned long)total, t->mean());
    auto s = t->snapshot(); for (auto &p : s.rate()) VF_CHECK((double)num(p.second) == (double)total, "conc-rate", "%lu durations gave a first rate of %.17Lg", (unsigned long)total, num(p.second));
    VF_CHECK(s.count() == total && s.size() == std::min<size_t>(total, N), "conc-sample", "%lu durations gave a snapshot of %zu that counts %lu", (unsigned long)total, s.size(), (unsigned long)s.count());
    Contents c(std::move(s));
    if (c.known)
    {
        size_t seen = 0; for (auto v : c.values) { if (v >= 1e9L) { VF_CHECK(mine.erase(v) == 1, "conc-sample", "%.10Lg is in the sample but wasn't recorded, or is there twice", v); seen++; } else VF_CHECK(v >= 1 && v <= (num_t)(2 * n * per), "conc-sample", "%.10Lg is in the sample, which no scope can have taken", v); }
        if (total <= N) VF_CHECK(seen == updates, "conc-sample", "%zu of %zu updates are in the sample", seen, updates);
    }
    count("operations", (uint64_t)(workers * per + readers * 2));
}
VF_THREADS(conc_simple, 3) { conc<STimer<1_sec, StaticClock<nanoseconds>, 128, 1_min>>(r, 128); }
VF_THREADS(conc_small, 2) { conc<STimer<1_sec, StaticClock<nanoseconds>, 4>>(r, 4); }
VF_THREADS(conc_default, 1) { conc<timer<1_sec, StaticClock<nanoseconds>, uniform_reservoir<nanoseconds, 64>, 1_min, 5_min>>(r, 64); }
}}
