// C12: meters track every window and the lifetime mean
#include "ewma_conc.hpp"
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

struct MClock { const std::atomic<int64_t> *t; MClock(const std::atomic<int64_t> *p = nullptr) : t(p) { } int64_t operator()() const noexcept { return t->load(std::memory_order_relaxed); } };

// what a meter is declared to be, each declared window read through rate functions
struct Read { int64_t window; double rate; }; // window in the clock's ticks
template<typename M, period::value I, period::value... W> struct Decl
{
    M m;
    template<typename... A> explicit Decl(A &&...a) : m(std::forward<A>(a)...) { }
};
// the implementation on a clock of integers; windows and interval are ticks
template<period::value I, period::value... W> struct TickMeter
{
    typedef internal::_meter_impl<MClock, I, W...> M;
    std::atomic<int64_t> now; M m;
    explicit TickMeter(int64_t t) : now(t), m(MClock(&now)) { }
    TickMeter(const TickMeter &o) : now(o.now.load()), m(o.m) { }
    int64_t interval() const { return (int64_t)I; }
    std::vector<int64_t> windows() const { return {(int64_t)W...}; }
    int64_t time() const { return now.load(std::memory_order_relaxed); }
    void advance(int64_t d) { now.fetch_add(d, std::memory_order_relaxed); }
    void mark(int64_t by) { m.mark(by); }
    double mean() const { return m.mean(); }
    std::vector<double> rates() { return {m.template get_rate<W>()...}; }
    std::vector<double> rates() const { return {m.template get_rate<W>()...}; }
    struct Collect { std::vector<Read> *r; void operator()(const meter_rate &x) const { r->push_back(Read{(int64_t)(std::chrono::duration_cast<std::chrono::microseconds>(x.period).count()), x.rate}); } };
    std::vector<Read> each(Rng &) { std::vector<Read> r; m.each(Collect{&r}); return r; }
    std::vector<Read> each(Rng &) const { std::vector<Read> r; m.each(Collect{&r}); return r; }
    bool snapshot(double &, std::vector<Read> &, bool) { return false; }
    bool in_order(std::vector<int64_t>) const { return false; }
};
// the public class on the steady clock; windows and interval are microseconds
template<period::value I, period::value... W> struct SteadyMeter
{
    typedef meter<I, W...> M;
    M m;
    explicit SteadyMeter(int64_t) { }
    int64_t interval() const { return (int64_t)I * 1000; }
    std::vector<int64_t> windows() const { return {(int64_t)W * 1000 ...}; }
    int64_t time() const { return vclk_now(); }
    void advance(int64_t d) { vclk_advance(d); }
    void mark(int64_t by) { m.mark(by); }
    double mean() const { return m.mean(); }
    std::vector<double> rates() { std::vector<meter_rate> x{m.template rate<W>()...}; return check(x); }
    std::vector<double> rates() const { std::vector<meter_rate> x{m.template rate<W>()...}; return check(x); }
    static std::vector<double> check(const std::vector<meter_rate> &x)
    {
        std::vector<double> r; std::vector<int64_t> w{(int64_t)W...};
        for (size_t i = 0; i < x.size(); i++) { VF_CHECK(std::chrono::duration_cast<std::chrono::nanoseconds>(x[i].period).count() == w[i] * 1000, "period", "the rate over %lld us says it is over %lld ns", (long long)w[i], (long long)x[i].period.count()); r.push_back(x[i].rate); }
        return r;
    }
    static std::vector<Read> take(const meter_snapshot &s, double &mean)
    {
        std::vector<Read> r; mean = (double)num(s.value());
        for (auto &p : s) r.push_back(Read{(int64_t)std::chrono::duration_cast<std::chrono::nanoseconds>(p.first).count(), (double)num(p.second)});
        return r;
    }
    bool snapshot(double &mean, std::vector<Read> &r, bool c) { r = take(c ? static_cast<const M &>(m).snapshot() : m.snapshot(), mean); return true; }
    std::vector<Read> each(Rng &) { double x; return take(m.snapshot(), x); }
    std::vector<Read> each(Rng &) const { double x; return take(m.snapshot(), x); }
};

struct MeterModel
{
    std::map<int64_t, EwmaModel<double>> w; int64_t interval, total = 0, start = 0; bool marked = false;
    MeterModel(const std::vector<int64_t> &windows, int64_t i, int64_t now) : interval(i) { for (auto x : windows) w.emplace(x, EwmaModel<double>(x, i, now)); }
    void mark(int64_t t, int64_t by) { if (!marked) { marked = true; start = t; } total += by; for (auto &p : w) p.second.mark(t, (double)by); }
    long double mean(int64_t t) const { if (!marked || t == start) return total; return (long double)total / ((long double)(t - start) / (long double)interval); }
};
inline bool mean_close(double a, long double b) { return std::fabs((long double)a - b) <= 1e-9L * std::max<long double>(1e-12L, std::fabs(b)); }
inline std::string wstr(const std::vector<int64_t> &w) { std::string s; for (auto x : w) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }

template<typename D> void drive(Rng &r, const char *what)
{
    D d(r.range(1, 1000)); const D &cd = d; MeterModel m(d.windows(), d.interval(), d.time());
    auto declared = d.windows(); int n = (int)r.range(3, 80); uint64_t h = mix((uint64_t)d.interval(), hstr(wstr(declared))), reads = 0; int64_t I = d.interval();
    for (int i = 0; i < n; i++)
    {
        int k = (int)r.below(100);
        if (k < 40) { int64_t by = r.chance(50) ? 1 : r.chance(80) ? r.range(0, 1000) : r.range(0, 1000000000); d.mark(by); m.mark(d.time(), by); VF_NOTE("mark %lld at %lld", (long long)by, (long long)d.time()); h = mix(h, 1 + (uint64_t)by); }
        else if (k < 70) { int64_t s = r.chance(35) ? I : r.chance(50) ? r.range(0, 2 * I) : r.range(0, 50) * I + r.range(0, I); d.advance(s); VF_NOTE("clock += %lld", (long long)s); h = mix(h, 2 + (uint64_t)s); }
        else if (k < 78) { double x = cd.mean(); VF_CHECK(mean_close(x, m.mean(d.time())), "mean", "%s: the mean is %.17g, expected %.17Lg (%lld in %lld ticks, interval %lld)", what, x, m.mean(d.time()), (long long)m.total, (long long)(d.time() - m.start), (long long)I); reads++; }
        else
        {
            bool c = r.chance(50); h = mix(h, 3 + c);
            auto expect = [&](int64_t w, double got, const char *how) {
                auto it = m.w.find(w); VF_CHECK(it != m.w.end(), "window", "%s: %s reports a window of %lld that wasn't declared (%s)", what, how, (long long)w, wstr(declared).c_str());
                double want = it->second.tick(d.time(), !c);
                VF_CHECK(ewma_close<double>(got, want, 0, it->second.alpha), "rate", "%s: %s gives %.17g over window %lld at step %d, expected %.17g (declared %s)", what, how, got, (long long)w, i, want, wstr(declared).c_str()); reads++;
            };
            if (r.chance(40))
            {
                auto v = c ? cd.rates() : d.rates();
                for (size_t q = 0; q < v.size(); q++) expect(declared[q], v[q], "rate()");
            }
            else
            {
                double mean = 0; std::vector<Read> v; const char *how = "snapshot";
                if (d.snapshot(mean, v, c)) VF_CHECK(mean_close(mean, m.mean(d.time())), "mean", "%s: the mean in a snapshot is %.17g, expected %.17Lg", what, mean, m.mean(d.time()));
                else { v = c ? cd.each(r) : d.each(r); how = "each()"; }
                std::set<int64_t> seen; for (auto &x : v) { seen.insert(x.window); expect(x.window, x.rate, how); }
                VF_CHECK(v.size() == m.w.size() && seen.size() == m.w.size(), "windows", "%s: %s reports %zu windows, declared %s", what, how, v.size(), wstr(declared).c_str());
            }
        }
    }
    if (m.marked && reads) cover(h);
    count("values_compared", reads);
    sample("%s: windows %s interval %lld, %d steps, total %lld, mean %.10Lg", what, wstr(declared).c_str(), (long long)I, n, (long long)m.total, m.mean(d.time()));
}
// ticks: the implementation takes windows already sorted
VF_SEQ(ticks, 3)
{
    switch (r.below(5))
    {
    case 0: return drive<TickMeter<1, 1, 8, 20, 50>>(r, "ticks"); case 1: return drive<TickMeter<10, 60>>(r, "ticks"); case 2: return drive<TickMeter<3, 2, 7, 9, 100, 1000, 100000>>(r, "ticks");
    case 3: return drive<TickMeter<7, 1, 2, 3, 4, 5, 6, 7, 8>>(r, "ticks"); default: return drive<TickMeter<5>>(r, "ticks without windows");
    }
}
VF_SEQ(steady, 6)
{
    switch (r.below(10))
    {
    case 0: return drive<SteadyMeter<1_sec, 1_min>>(r, "meter");
    case 1: return drive<SteadyMeter<1_sec, 15_min, 1_min, 5_min>>(r, "meter");
    case 2: return drive<SteadyMeter<5_msec, 1_hour, 30_min, 24_hour, 48_hour, 48_hour, 30_min, 1_min>>(r, "meter");
    case 3: return drive<SteadyMeter<250_msec, 1_sec, 1_sec, 1_sec>>(r, "meter");
    case 4: return drive<SteadyMeter<1_sec, 3_sec, 2_sec, 1_sec>>(r, "meter");
    case 5: return drive<SteadyMeter<1_sec>>(r, "meter without windows");
    case 6: return drive<SteadyMeter<3_micro, 1_micro, 2_micro, 1_micro, 7_micro, 2_micro>>(r, "meter");
    case 7: return drive<SteadyMeter<1_min, 5_min, 1_min, 15_min, 60_sec, 60_min, 1_hour>>(r, "meter");
    case 8: return drive<SteadyMeter<10_sec, 9_sec, 8_sec, 7_sec, 6_sec, 5_sec, 4_sec, 3_sec, 2_sec, 1_sec>>(r, "meter");
    default: return drive<SteadyMeter<2_sec, 1_min, 500_msec, 1_min, 2_hour>>(r, "meter");
    }
}
// meters declared with the same windows are the same to the registry, and through it every window is reported too
VF_SEQ(registered, 1)
{
    metrics_registry<> reg; int64_t amount = r.range(1, 100000); bool tagged = r.chance(50); tag_collection tags; if (tagged) tags = tag_collection{{"a", 1}};
    auto a = reg.meter<1_sec, 1_min, 5_min, 15_min>("m"_m, tags); auto b = reg.meter<1_sec, 15_min, 1_min, 5_min, 1_min>("m"_m, tags);
    VF_CHECK((void *)a.get() == (void *)b.get(), "same-windows", "meters declared with the same windows in another order aren't the same");
    a->mark(amount); b->mark(1); EwmaModel<double> m1(60000000000LL, 1000000000LL, vclk_now());
    int64_t s = r.range(0, 20000000000LL); vclk_advance(s);
    int n = 0, metrics = 0; int64_t iv = 1000000000LL;
    reg.visit_registered_metrics([&](const metric_path &, basic_registered_metric &x) {
        metrics++;
        x.visit([&](const tag_collection &t, const meter_snapshot &s2) {
            VF_CHECK(t == tags, "visit-tags", "other tags");
            long double want = s ? (long double)(amount + 1) / ((long double)s / (long double)iv) : (long double)(amount + 1);
            VF_CHECK(mean_close((double)num(s2.value()), want), "mean", "visit gives a mean of %.17Lg, expected %.17Lg", num(s2.value()), want);
            for (auto &p : s2) { n++; EwmaModel<double> m(std::chrono::duration_cast<std::chrono::nanoseconds>(p.first).count(), iv, vclk_now() - s); m.mark(vclk_now() - s, (double)(amount + 1)); double w = m.tick(vclk_now(), false); VF_CHECK(ewma_close<double>((double)num(p.second), w), "rate", "visit gives %.17Lg, expected %.17g", num(p.second), w); }
        });
    });
    VF_CHECK(n == 3 && metrics == 1, "windows", "visit reports %d windows", n); cover(mix((uint64_t)amount, (uint64_t)s)); count("values_compared", 4);
}

// ------------------------------------------------------------------------------------------------------- concurrent marks
enum { K_MARK, K_RATES, K_CRATES, K_SNAP, K_MEAN };
template<typename D> void conc(Rng &r)
{
    D d(100); const D &cd = d; auto declared = d.windows(); MeterModel m(declared, d.interval(), d.time()); int64_t base = d.time(), I = d.interval();
    int pre = (int)r.below(3); for (int i = 0; i < pre; i++) { int64_t by = r.range(1, 50); d.mark(by); m.mark(d.time(), by); if (r.chance(60)) d.advance(r.chance(50) ? I : r.range(0, 2 * I)); }
    int workers = (int)r.range(2, 3), per = (int)r.range(1, 3), n = workers + 1; std::vector<std::vector<std::pair<int, int64_t>>> plan((size_t)workers); int64_t amount = 1000; uint64_t in = mix((uint64_t)pre, (uint64_t)m.total);
    for (int w = 0; w < workers; w++) for (int k = 0; k < per; k++)
    {
        int op = r.chance(w ? 60 : 75) ? K_MARK : (int)r.range(1, 4); plan[(size_t)w].push_back({op, amount}); amount = amount * 2 + 1; in = mix(in, (uint64_t)op);
    }
    std::vector<int64_t> steps; int ns = (int)r.range(0, 2); for (int i = 0; i < ns; i++) { steps.push_back(r.chance(50) ? I : r.range(1, 2 * I)); in = mix(in, (uint64_t)steps.back()); }
    std::vector<int64_t> clock{d.time()}; clock.reserve(64);
    struct Ev { int op; uint64_t inv, ret; int64_t t0, t1, by; double mean; std::vector<std::pair<int64_t, double>> rates; };
    std::vector<std::vector<Ev>> log((size_t)n);
    auto one = [&](int i, int op, int64_t by) {
        Ev e; e.op = op; e.by = by; e.mean = 0; std::vector<double> rs; std::vector<Read> rd;
        point(); e.t0 = d.time(); e.inv = stamp();
        switch (op)
        {
        case K_MARK: d.mark(by); break;
        case K_RATES: rs = d.rates(); break;
        case K_CRATES: rs = cd.rates(); break;
        case K_SNAP: if (!d.snapshot(e.mean, rd, by & 2)) { Rng q(1); rd = by & 2 ? cd.each(q) : d.each(q); e.mean = d.mean(); } break;
        default: e.mean = cd.mean(); break;
        }
        e.ret = stamp(); e.t1 = d.time();
        VF_QUIET;
        for (size_t k = 0; k < rs.size(); k++) e.rates.push_back({declared[k], rs[k]});
        for (auto &x : rd) e.rates.push_back({x.window, x.rate});
        log[(size_t)i].push_back(e);
    };
    run_threads(r, n, [&](int i) {
        if (i < workers) for (auto &o : plan[(size_t)i]) one(i, o.first, o.second);
        else for (auto s : steps) { point(); d.advance(s); VF_QUIET; clock.push_back(clock.back() + s); }
    }, in);
    one(0, K_MEAN, 0); one(0, K_CRATES, 0); d.advance(I); clock.push_back(d.time()); one(0, K_RATES, 0); one(0, K_MEAN, 0);
    std::vector<Ev> all; for (auto &v : log) all.insert(all.end(), v.begin(), v.end());
    // the mean
    int64_t s0 = m.start, s1 = m.start;
    if (!m.marked) { s0 = INT64_MAX; s1 = INT64_MAX; for (auto &e : all) if (e.op == K_MARK) { s0 = std::min(s0, e.t0); s1 = std::min(s1, e.t1); } }
    for (auto &e : all) if (e.op == K_MEAN || e.op == K_SNAP)
    {
        int64_t lo = m.total, hi = m.total; bool surely = m.marked; // marks before, marks that may count, and whether the first one was surely done
        for (auto &x : all) if (x.op == K_MARK) { if (x.ret < e.inv) { lo += x.by; surely = true; } if (x.inv < e.ret) hi += x.by; }
        long double a = 1e300L, b = -1; // what one mark may count for
        if (!surely) { a = b = 1; }
        if (s0 != INT64_MAX) for (auto t : clock) if (t >= e.t0 && t <= e.t1) for (auto s : clock) if ((s >= s0 && s <= s1) || s == m.start) { if (t < s) continue; long double u = t == s ? 1 : (long double)I / (long double)(t - s); a = std::min(a, u); b = std::max(b, u); }
        if (s0 != INT64_MAX && m.marked) for (auto t : clock) if (t >= e.t0 && t <= e.t1) { long double u = t == m.start ? 1 : (long double)I / (long double)(t - m.start); a = std::min(a, u); b = std::max(b, u); }
        if (b < 0) { a = b = 1; }
        VF_CHECK(e.mean >= (double)(lo * a) * (1 - 1e-9) - 1e-9 && e.mean <= (double)(hi * b) * (1 + 1e-9) + 1e-9, "conc-mean", "a mean of %.17g; the total was between %lld and %lld, per mark %.10Lg to %.10Lg", e.mean, (long long)lo, (long long)hi, a, b);
        count("means_bounded");
    }
    // each window by itself
    for (auto &p : m.w)
    {
        std::vector<TimedEvent> ev;
        for (auto &e : all)
        {
            TimedEvent x; x.e.thread = 0; x.e.inv = e.inv; x.e.ret = e.ret; x.e.a = x.e.b = 0; x.t0 = e.t0; x.t1 = e.t1;
            if (e.op == K_MARK) { x.e.op = E_MARK; x.e.a = dbits((double)e.by); ev.push_back(x); continue; }
            if (e.op == K_MEAN) continue;
            int seen = 0; for (auto &q : e.rates) if (q.first == p.first) { seen++; if (seen > 1) continue; x.e.op = e.op == K_RATES || (e.op == K_SNAP && !(e.by & 2)) ? E_RATE : E_CRATE; x.e.b = dbits(q.second); ev.push_back(x); }
            VF_CHECK(seen >= 1, "windows", "a window of %lld is missing", (long long)p.first);
        }
        ewma_decide(ev, clock, p.second, base, "not-linearizable", ("meter window " + std::to_string(p.first)).c_str());
    }
    count("operations", all.size());
}
VF_THREADS(conc_ticks, 3) { conc<TickMeter<10, 5, 30>>(r); }
VF_THREADS(conc_ticks3, 1) { conc<TickMeter<1, 1, 8, 20>>(r); }
VF_THREADS(conc_steady, 3) { conc<SteadyMeter<1_sec, 1_min, 5_min>>(r); }
// bursts: nothing lost
VF_THREADS(conc_burst, 1)
{
#ifdef VF_DSCHED
    const int per = 6;
#else
    const int per = 200;
#endif
    SteadyMeter<1_sec, 1_min, 5_min, 15_min> d(0); int n = (int)r.range(2, 4); bool reads = r.chance(50); bool ok = true;
    run_threads(r, n, [&](int i) { for (int k = 0; k < per; k++) { d.mark(1); if (reads && k % 4 == i) { double a = d.mean(); if (a < k + 1 || a > n * per) ok = false; for (double x : d.rates()) if (x < k + 1 || x > n * per) ok = false; } } }, (uint64_t)n);
    VF_CHECK(ok, "burst-read", "a rate or mean missed marks made before"); VF_CHECK(d.mean() == n * per, "burst", "%d marks gave a mean of %.17g", n * per, d.mean());
    for (double x : d.rates()) VF_CHECK(x == n * per, "burst", "%d marks gave a rate of %.17g", n * per, x);
    vclk_advance(1000000000); VF_CHECK(d.mean() == n * per, "burst", "%d marks gave a mean of %.17g", n * per, d.mean()); for (double x : d.rates()) VF_CHECK(x == n * per, "burst", "%d marks gave a first rate of %.17g", n * per, x);
    count("operations", (uint64_t)(n * per));
}
}}
