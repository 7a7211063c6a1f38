// C07: a histogram counts every recording
#include <deque>
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

// a reservoir of the caller's own: keeps the first value and the last
struct OwnReservoir
{
    typedef int64_t value_type;
    std::atomic<int64_t> first{-1}, last{-1};
    OwnReservoir() = default;
    OwnReservoir(const OwnReservoir &o) : first(o.first.load()), last(o.last.load()) { }
    void update(const int64_t &v) noexcept { int64_t e = -1; first.compare_exchange_strong(e, v); last = v; }
    reservoir_snapshot snapshot() const noexcept { int64_t a[2] = {first, last}; return reservoir_snapshot(a, a[0] < 0 ? 0 : a[1] < 0 || a[1] == a[0] ? 1 : 2); }
};

template<typename H, typename T> void seq(Rng &r, H &h, size_t N, bool last_n, const char *what)
{
    std::deque<num_t> lastn; std::map<num_t, int> rec; uint64_t hash = N; size_t n = (size_t)r.range(0, r.chance(80) ? 3 * (int64_t)N + 5 : 1500);
    for (size_t i = 0; i <= n; i++)
    {
        VF_CHECK(h.count() == i, "count", "%s: count %lu after %zu recordings", what, (unsigned long)h.count(), i);
        if (i == n || r.chance(N > 100 ? 2 : 20))
        {
            auto s = h.snapshot(); VF_CHECK(s.count() == i, "snapshot-count", "%s: the snapshot's count is %lu after %zu recordings", what, (unsigned long)s.count(), i);
            VF_CHECK(s.size() == std::min(i, N), "sample-size", "%s: the snapshot's sample has %zu values after %zu recordings", what, s.size(), i);
            if (last_n) expect_sample(std::move(s), Nums(lastn.begin(), lastn.end()), "sample", what);
            else { Contents c(std::move(s)); std::map<num_t, int> got; for (auto v : c.values) got[v]++; for (auto &p : got) VF_CHECK(rec.count(p.first) && rec[p.first] >= p.second, "sample", "%s: %.20Lg is in the sample %d times but was recorded %d times", what, p.first, p.second, rec.count(p.first) ? rec[p.first] : 0); }
            count("snapshots");
        }
        if (i == n) break;
        T v = r.chance(15) ? T{} : Gen<T>::make(r); h.update(v); rec[num(v)]++; lastn.push_back(num(v)); if (lastn.size() > N) lastn.pop_front();
        hash = mix(hash, hbits((double)num(v)));
    }
    count("updates", n); if (n > N) { cover(hash); count("cases_beyond_capacity"); }
    sample("%s of capacity %zu: %zu recordings", what, N, n);
}
template<typename T, typename R> void seqt(Rng &r, size_t N, bool last_n, const char *what)
{
    if (r.chance(50)) { std::unique_ptr<histogram<T, R>> h(new histogram<T, R>()); seq<histogram<T, R>, T>(r, *h, N, last_n, what); }
    else { R res; size_t n = 0; (void)n; std::unique_ptr<histogram<T, R>> h(new histogram<T, R>(std::move(res))); seq<histogram<T, R>, T>(r, *h, N, last_n, what); }
}
VF_SEQ(simple_i64, 3) { seqt<int64_t, simple_reservoir<int64_t, 8>>(r, 8, true, "simple"); }
VF_SEQ(simple_ms, 1) { seqt<milliseconds, simple_reservoir<milliseconds, 5>>(r, 5, true, "simple"); }
VF_SEQ(simple_dbl, 1) { seqt<double, simple_reservoir<double, 100>>(r, 100, true, "simple"); }
VF_SEQ(uniform_i64, 2) { seqt<int64_t, uniform_reservoir<int64_t, 10>>(r, 10, false, "uniform"); }
VF_SEQ(uniform_default, 2) { std::unique_ptr<histogram<double>> h(new histogram<double>()); seq<histogram<double>, double>(r, *h, 1024, false, "default"); }
VF_SEQ(sliding_i64, 2) { seqt<int64_t, sliding_window_reservoir<int64_t, 12>>(r, 12, true, "sliding"); }
VF_SEQ(registered, 1)
{
    metrics_registry<> reg;
    tag_collection tags{{"k", r.range(0, 3)}};
    typedef histogram<int64_t, simple_reservoir<int64_t, 6>> H;
    std::shared_ptr<H> h = reg.histogram("a"_m, simple_reservoir<int64_t, 6>(), tags);
    seq<H, int64_t>(r, *h, 6, true, "registered");
    auto n = h->count(); int calls = 0;
    reg.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit([&](const tag_collection &, const histogram_snapshot &s) { calls++; VF_CHECK(s.count() == n && s.size() == std::min<size_t>(n, 6), "visited", "visiting reports count %lu, expected %lu", (unsigned long)s.count(), (unsigned long)n); }); });
    VF_CHECK(calls == 1, "visited", "visited %d times", calls);
}
VF_SEQ(expiring, 1)
{
    // values leave the window, the count stays
    histogram<int64_t, sliding_window_reservoir<int64_t, 9>> h(sliding_window_reservoir<int64_t, 9>(nanoseconds(100)));
    std::deque<std::pair<int64_t, num_t>> m; size_t n = (size_t)r.range(1, 60);
    for (size_t i = 1; i <= n; i++)
    {
        int64_t v = r.wide(); h.update(v); m.emplace_back(vclk_now(), num(v)); if (m.size() > 9) m.pop_front();
        vclk_advance(r.chance(70) ? r.range(0, 30) : r.range(90, 300));
        Nums want; for (auto &p : m) if (p.first >= vclk_now() - 100) want.push_back(p.second);
        auto s = h.snapshot(); VF_CHECK(s.count() == i && h.count() == i, "count", "count %lu after %zu recordings", (unsigned long)s.count(), i);
        expect_sample(std::move(s), want, "sample", "expiring");
    }
    cover(mix(n, r.u64())); count("updates", n);
}

// past 16 bits
template<typename R> void many(Rng &r, const char *what)
{
    std::unique_ptr<histogram<int64_t, R>> h(new histogram<int64_t, R>()); uint64_t n = (uint64_t)r.range(65530, 140000), step = (uint64_t)r.range(500, 5000);
    for (uint64_t i = 1; i <= n; i++)
    {
        h->update((int64_t)i);
        if (i % step == 0 || (i > 65500 && i < 65600) || i == n) { VF_CHECK(h->count() == i, "count", "%s: count %lu after %lu recordings", what, (unsigned long)h->count(), (unsigned long)i); auto s = h->snapshot(); VF_CHECK(s.count() == i, "snapshot-count", "%s: the snapshot's count is %lu after %lu recordings", what, (unsigned long)s.count(), (unsigned long)i); }
    }
    count("updates", n); smax("longest_history", n); cover(mix(n, step));
}
VF_SEQ(many_recordings, 1) { if (!r.chance(6)) return; switch (r.below(4)) { case 0: return many<uniform_reservoir<int64_t, 10>>(r, "uniform"); case 1: return many<simple_reservoir<int64_t, 5>>(r, "simple"); case 2: return many<sliding_window_reservoir<int64_t, 4>>(r, "sliding"); default: return many<OwnReservoir>(r, "own"); } }

// past 32 bits, at full speed
struct NoReservoir
{
    typedef int64_t value_type;
    void update(const int64_t &) noexcept { }
    reservoir_snapshot snapshot() const noexcept { int64_t a = 0; return reservoir_snapshot(&a, 0); }
};
#if !defined(VF_DSCHED)
VF_SEQ(four_billion, 0)
{
    histogram<int64_t, NoReservoir> h; uint64_t n = (1ULL << 32) + r.below(1000);
    for (uint64_t i = 0; i < n; i++) h.update((int64_t)i);
    VF_CHECK(h.count() == n && h.snapshot().count() == n, "count", "count %lu, snapshot %lu after %lu recordings", (unsigned long)h.count(), (unsigned long)h.snapshot().count(), (unsigned long)n);
    count("updates", n); smax("longest_history", n); cover(mix(n));
}
#endif

struct Up { int64_t v; uint64_t inv, ret; };
struct Look { bool snap; uint64_t count; size_t size; Nums vals; bool known; uint64_t inv, ret; };
template<typename R> void conc(Rng &r, size_t N, bool exact, bool uniq = true)
{
    histogram<int64_t, R> h;
#ifdef VF_DSCHED
    int writers = (int)r.range(1, 3), lookers = (int)r.range(1, 2), per = (int)r.range(1, 5), looks = (int)r.range(1, 4);
#else
    int writers = (int)r.range(1, 3), lookers = (int)r.range(1, 2), per = (int)r.range(1, 30), looks = (int)r.range(1, 10);
#endif
    std::vector<std::vector<Up>> ups((size_t)writers); std::vector<std::vector<Look>> seen((size_t)lookers);
    for (auto &v : ups) v.reserve((size_t)per); for (auto &v : seen) v.reserve((size_t)looks);
    std::vector<int> how; for (int i = 0; i < lookers * looks; i++) how.push_back((int)r.below(4));
    int pre = (int)r.below(N + 2); for (int i = 0; i < pre; i++) h.update(i + 1);
    run_threads(r, writers + lookers, [&](int i) {
        if (i < writers) for (int k = 0; k < per; k++)
        {
            Up u; u.v = (i + 1) * 1000 + k; point(); u.inv = stamp(); h.update(u.v); u.ret = stamp(); VF_QUIET; ups[(size_t)i].push_back(u);
        }
        else for (int k = 0; k < looks; k++)
        {
            Look l; l.snap = how[(size_t)((i - writers) * looks + k)] != 0; l.known = false; l.size = 0; point(); l.inv = stamp();
            if (l.snap) { auto s = h.snapshot(); l.ret = stamp(); VF_QUIET; l.count = s.count(); l.size = s.size(); Contents c(std::move(s)); l.vals = c.values; l.known = c.known; }
            else { l.count = h.count(); l.ret = stamp(); }
            VF_QUIET; seen[(size_t)(i - writers)].push_back(std::move(l));
        }
    }, mix((uint64_t)(writers * 100 + lookers * 10 + per), (uint64_t)(pre * 64 + looks)));
    size_t total = (size_t)pre; for (auto &v : ups) total += v.size();
    for (auto &v : seen) for (auto &l : v)
    {
        uint64_t completed = (uint64_t)pre, started = (uint64_t)pre; for (auto &q : ups) for (auto &u : q) { completed += u.ret < l.inv; started += u.inv < l.ret; }
        VF_CHECK(l.count >= completed && l.count <= started, "count-range", "%s: count %lu, but %lu recordings had completed before and %lu started before its end", l.snap ? "snapshot" : "count", (unsigned long)l.count, (unsigned long)completed, (unsigned long)started);
        if (!l.snap) { count("counts_judged"); continue; }
        VF_CHECK(l.count >= l.size, "count-below-sample", "count %lu is smaller than its sample of %zu", (unsigned long)l.count, l.size);
        VF_CHECK(l.size <= N, "sample-size", "%zu values in the sample of a reservoir of %zu", l.size, N);
        if (exact) VF_CHECK(l.size >= std::min((size_t)completed, N), "sample-size", "%zu values in the sample after %lu completed recordings", l.size, (unsigned long)completed);
        std::set<num_t> s;
        for (auto x : l.vals)
        {
            bool ok = x >= 1 && x <= pre; for (auto &q : ups) for (auto &u : q) ok = ok || ((num_t)u.v == x && u.inv < l.ret);
            VF_CHECK(ok && (s.insert(x).second || !uniq), "sample", "%.20Lg in the sample %s was not recorded once by then", x, show(l.vals).c_str());
        }
        count("snapshots_judged"); if (completed < started) count("snapshots_during_recordings");
    }
    auto s = h.snapshot();
    VF_CHECK(h.count() == total && s.count() == total, "lost-count", "count %lu, snapshot %lu after %zu recordings", (unsigned long)h.count(), (unsigned long)s.count(), total);
    if (uniq) VF_CHECK(s.size() == std::min(total, N), "sample-size", "%zu values at rest after %zu recordings into %zu", s.size(), total, N);
    count("updates", total);
    if (want_sample()) sample("%d writers of %d, %d lookers of %d, final count %zu", writers, per, lookers, looks, total);
}
VF_THREADS(conc_uniform, 3) { r.chance(50) ? conc<uniform_reservoir<int64_t, 4>>(r, 4, true) : conc<uniform_reservoir<int64_t, 16>>(r, 16, true); }
VF_THREADS(conc_simple, 3) { r.chance(50) ? conc<simple_reservoir<int64_t, 3>>(r, 3, false) : conc<simple_reservoir<int64_t, 12>>(r, 12, false); }
VF_THREADS(conc_sliding, 2) { r.chance(50) ? conc<sliding_window_reservoir<int64_t, 3>>(r, 3, false) : conc<sliding_window_reservoir<int64_t, 12>>(r, 12, false); }
VF_THREADS(conc_own, 1) { conc<OwnReservoir>(r, 2, false, false); }
}}
