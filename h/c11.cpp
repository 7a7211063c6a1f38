// C11: moving averages count every concurrent mark exactly once
#include "ewma_conc.hpp"
#include <cxxmetrics/ewma.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

struct AClock { const std::atomic<int64_t> *t; AClock(const std::atomic<int64_t> *p = nullptr) : t(p) { } int64_t operator()() const noexcept { return t->load(std::memory_order_relaxed); } };

struct Op { int op; double a; };
// now() and advance() of the clock in use; E has mark/rate
template<typename E, typename Now, typename Advance> void conc(Rng &r, E &e, EwmaModel<double> init, Now &&now, Advance &&advance)
{
    int64_t I = init.interval, base = init.last;
    // some history first
    int pre = (int)r.below(5);
    for (int i = 0; i < pre; i++)
    {
        double a = (double)r.range(1, 100); e.mark(a); init.mark(now(), a);
        if (r.chance(70)) advance(r.chance(50) ? I : r.range(0, 2 * I));
        if (r.chance(30)) { e.rate(); init.tick(now(), true); }
    }
    int workers = (int)r.range(2, 3), per = (int)r.range(1, workers == 2 ? 4 : 3), readers = (int)r.range(0, workers - 1), n = workers + 1;
    std::vector<std::vector<Op>> plan((size_t)workers); double amount = 1000; uint64_t in = mix((uint64_t)pre, init.hash());
    for (int w = 0; w < workers; w++) for (int k = 0; k < per; k++)
    {
        int op = w < readers ? (r.chance(70) ? E_RATE : E_CRATE) : r.chance(85) ? E_MARK : r.chance(50) ? E_RATE : E_CRATE;
        if (r.chance(10)) op = E_NOPS; // a read through a copy
        plan[(size_t)w].push_back(Op{op, amount}); amount = amount * 2 + 1; in = mix(in, (uint64_t)op);
    }
    std::vector<int64_t> steps; int ns = (int)r.range(0, 3); for (int i = 0; i < ns; i++) { steps.push_back(r.chance(40) ? I : r.chance(50) ? r.range(1, I) : r.range(1, 3 * I)); in = mix(in, (uint64_t)steps.back()); }
    EwmaHistory h(n, now());
    auto one = [&](int i, int op, double a) {
        TimedEvent x; x.e.thread = i; x.e.op = op == E_NOPS ? E_CRATE : op; x.e.a = dbits(a); x.e.b = 0;
        point(); x.t0 = now(); x.e.inv = stamp();
        switch (op)
        {
        case E_MARK: e.mark(a); break;
        case E_RATE: x.e.b = dbits(e.rate()); break;
        case E_CRATE: x.e.b = dbits(static_cast<const E &>(e).rate()); break;
        default: { E c(e); x.e.b = dbits(static_cast<const E &>(c).rate()); }
        }
        x.e.ret = stamp(); x.t1 = now();
        VF_QUIET; h.t[(size_t)i].push_back(x);
    };
    run_threads(r, n, [&](int i) {
        if (i < workers) for (auto &o : plan[(size_t)i]) one(i, o.op, o.a);
        else for (auto s : steps) { point(); advance(s); VF_QUIET; h.clock.push_back(h.clock.back() + s); }
    }, in);
    // what it all came to
    one(0, E_CRATE, 0); advance(I); h.clock.push_back(now()); one(0, E_RATE, 0); one(0, E_CRATE, 0); advance(3 * I); h.clock.push_back(now()); one(0, E_RATE, 0);
    auto all = h.all();
    ewma_decide(all, h.clock, init, base, "not-linearizable", "moving average");
    count("operations", all.size());
    if (want_sample()) sample("%d threads: %s", n, ewma_str(all, base).c_str());
}
template<period::value W, period::value I> void ticks(Rng &r)
{
    std::atomic<int64_t> now{100}; internal::ewma<AClock, W, I, double> e{AClock(&now)};
    conc(r, e, EwmaModel<double>((int64_t)W, (int64_t)I, 100), [&] { return now.load(std::memory_order_relaxed); }, [&](int64_t d) { now.fetch_add(d, std::memory_order_relaxed); });
}
VF_THREADS(ticks_short, 3) { ticks<5, 10>(r); }
VF_THREADS(ticks_long, 3) { ticks<30, 4>(r); }
template<period::value W, period::value I> void steady(Rng &r)
{
    ewma<W, I> e;
    conc(r, e, EwmaModel<double>((int64_t)W * 1000, (int64_t)I * 1000, vclk_now()), [] { return (int64_t)vclk_now(); }, [](int64_t d) { vclk_advance(d); });
}
VF_THREADS(steady_clock, 4) { r.chance(50) ? steady<1_min, 1_sec>(r) : steady<2_sec, 1_sec>(r); }

// nothing lost in long bursts before the first interval ends
template<typename T> void burst(Rng &r)
{
#ifdef VF_DSCHED
    const int per = 10;
#else
    const int per = 300;
#endif
    std::atomic<int64_t> now{100}; internal::ewma<AClock, 60, 5, T> e{AClock(&now)}; int n = (int)r.range(2, 4); bool reads = r.chance(60); std::vector<double> last((size_t)n);
    bool ok = true;
    run_threads(r, n, [&](int i) {
        for (int k = 0; k < per; k++)
        {
            e.mark((T)1);
            if (reads && k % 3 == i % 3) { double v = (double)(k % 2 ? e.rate() : static_cast<const decltype(e) &>(e).rate()); if (v < last[(size_t)i] || v < k + 1) ok = false; last[(size_t)i] = v; }
        }
    }, (uint64_t)n + reads * 8);
    VF_CHECK(ok, "burst-read", "a pending total went backwards");
    VF_CHECK(e.rate() == (T)(n * per), "burst", "%d marks of 1 came to %.17g", n * per, (double)e.rate());
    now += 5; VF_CHECK(e.rate() == (T)(n * per), "burst", "%d marks of 1 made a first rate of %.17g", n * per, (double)e.rate());
    count("operations", (uint64_t)(n * per));
}
VF_THREADS(burst_dbl, 1) { burst<double>(r); }
VF_THREADS(burst_i64, 1) { burst<int64_t>(r); }
}}
