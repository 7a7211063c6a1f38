// C04: a sliding window reservoir reports exactly the values in its window
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <deque>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace std::chrono;

// a clock of its own, in a unit of its own
template<typename D> struct OwnClock
{
    const int64_t *ticks;
    explicit OwnClock(const int64_t *t = nullptr) : ticks(t) { }
    typedef std::chrono::time_point<OwnClock, D> point;
    point operator()() const { return point(D((typename D::rep)*ticks)); }
};
template<typename U> struct UnsignedClock { const int64_t *t; explicit UnsignedClock(const int64_t *p = nullptr) : t(p) { } U operator()() const { return (U)*t; } };
struct TickClock { const int64_t *t; explicit TickClock(const int64_t *p = nullptr) : t(p) { } int64_t operator()() const { return *t; } };

template<typename Res, typename T> void drive(Rng &r, Res &res, size_t N, int64_t W, const std::function<int64_t()> &now, const std::function<void(int64_t)> &set, const char *what)
{
    typedef std::deque<std::pair<int64_t, num_t>> Model;
    Model model, model2; uint64_t h = mix(N, (uint64_t)W); size_t steps = (size_t)r.range(3, N > 20 ? 250 : 70); int excluded = 0, partial = 0;
    // another one with a history of its own, to copy and assign from
    std::unique_ptr<Res> other(r.chance(40) ? new Res(res) : nullptr);
    auto look = [&](const Res &s, const Model &m, const char *which, size_t i) {
        Nums want; for (auto &p : m) if (p.first >= now() - W) want.push_back(p.second);
        if (want.size() < m.size()) excluded++;
        if (want.size() < m.size() && !want.empty()) partial++;
        char w[160]; snprintf(w, sizeof w, "%s %s capacity %zu window %lld at %lld, step %zu", what, which, N, (long long)W, (long long)now(), i);
        expect_sample(s.snapshot(), want, "window", w); count("snapshots"); h = mix(h, want.size() * 131);
    };
    for (size_t i = 0; i < steps; i++)
    {
        int k = (int)r.below(100);
        if (k < 50)
        {
            bool o = other && r.chance(40); Res &s = o ? *other : res; Model &m = o ? model2 : model;
            T v = Gen<T>::make(r); int reps = r.chance(10) ? (int)N : 1;
            for (int q = 0; q < reps; q++) { s.update(v); m.emplace_back(now(), num(v)); if (m.size() > N) m.pop_front(); count("updates"); if (reps > 1) v = Gen<T>::make(r); }
            VF_NOTE("%d updates of %d at %lld", reps, (int)o, (long long)now());
        }
        else if (k < 75)
        {
            int64_t d;
            switch (r.below(6)) { case 0: d = 1; break; case 1: d = W; break; case 2: d = W - 1; break; case 3: d = W + 1; break; case 4: d = W / 3 + 1; break; default: d = r.range(0, 2 * W + 2); }
            if (r.chance(3)) d = -r.range(0, W);
            if (d < 0 && !r.chance(30)) d = 0;
            set(now() + d); VF_NOTE("clock += %lld", (long long)d);
        }
        else if (k < 78) { Res c(res); res = c; count("copies"); }
        else if (k < 84 && other)
        {
            bool in = r.chance(50); count("assignments"); VF_NOTE("assigned %s the other", in ? "from" : "to");
            if (in) { if (r.chance(70)) res = *other; else res = Res(*other); model = model2; }
            else { if (r.chance(50)) *other = res; else other.reset(new Res(res)); model2 = model; }
            look(res, model, "reservoir", i); look(*other, model2, "other", i);
        }
        h = mix(h, (uint64_t)k);
        if (r.chance(N > 20 ? 30 : 80)) look(res, model, "reservoir", i);
        if (other && r.chance(N > 20 ? 10 : 30)) look(*other, model2, "other", i);
    }
    // every recent boundary once more, going forward
    for (auto p : model)
    {
        if (p.first + W < now()) continue;
        for (int64_t t : {p.first + W, p.first + W + 1})
        {
            if (t < now()) continue;
            set(t);
            Nums want; for (auto &q : model) if (q.first >= t - W) want.push_back(q.second);
            expect_sample(res.snapshot(), want, "window", "boundary"); count("snapshots");
            if (want.size() < model.size()) excluded++;
        }
    }
    if (excluded) { cover(h); count("cases_with_expired_values"); }
    if (partial) count("cases_with_partly_expired_values");
    sample("%s capacity %zu, window %lld, %zu steps, %d snapshots with expired values", what, N, (long long)W, steps, excluded);
}
// the default clock
template<typename T, size_t N> void steady(Rng &r)
{
    static const int64_t ws[] = {1, 2, 1000, 1000000, 60000000000LL, 3600000000000LL, 7};
    int64_t W = ws[r.below(7)];
    std::unique_ptr<sliding_window_reservoir<T, N>> res(new sliding_window_reservoir<T, N>(nanoseconds(W)));
    drive<sliding_window_reservoir<T, N>, T>(r, *res, N, W, [] { return vclk_now(); }, [](int64_t t) { vclk_set(t); }, "steady");
}
template<typename T> void sizes(Rng &r)
{
    switch (r.below(6)) { case 0: return steady<T, 2>(r); case 1: return steady<T, 3>(r); case 2: return steady<T, 5>(r); case 3: return steady<T, 8>(r); case 4: return steady<T, 17>(r); default: return steady<T, 64>(r); }
}
VF_SEQ(steady_i64, 4) { sizes<int64_t>(r); }
VF_SEQ(steady_dbl, 2) { sizes<double>(r); }
VF_SEQ(steady_i32, 2) { sizes<int32_t>(r); }
VF_SEQ(steady_ns, 1) { sizes<nanoseconds>(r); }
VF_SEQ(steady_ms, 1) { sizes<milliseconds>(r); }
VF_SEQ(default_window, 1)
{
    sliding_window_reservoir<int64_t, 10> res; // a minute
    drive<sliding_window_reservoir<int64_t, 10>, int64_t>(r, res, 10, 60000000000LL, [] { return vclk_now(); }, [](int64_t t) { vclk_set(t); }, "default");
}
template<typename D, typename T, size_t N> void own(Rng &r)
{
    int64_t t = r.chance(60) ? r.range(1000000, 2000000) : r.chance(50) ? 0 : r.range(-700, 100), W = r.range(1, 500);
    sliding_window_reservoir<T, N, OwnClock<D>> res(D((typename D::rep)W), OwnClock<D>(&t));
    drive<sliding_window_reservoir<T, N, OwnClock<D>>, T>(r, res, N, W, [&] { return t; }, [&](int64_t v) { t = v; }, "own clock");
}
VF_SEQ(own_seconds, 1) { own<seconds, int64_t, 6>(r); }
VF_SEQ(own_micro, 1) { own<microseconds, double, 9>(r); }
VF_SEQ(own_ticks, 1)
{
    int64_t t = r.chance(60) ? r.range(1000000, 2000000) : r.chance(50) ? 0 : r.range(-700, 100), W = r.range(1, 50);
    sliding_window_reservoir<int32_t, 12, TickClock> res(W, TickClock(&t));
    drive<sliding_window_reservoir<int32_t, 12, TickClock>, int32_t>(r, res, 12, W, [&] { return t; }, [&](int64_t v) { t = v; }, "ticks");
}
// clocks that start from zero and can't go below
template<typename U> void from_zero(Rng &r, int64_t top)
{
    int64_t t = r.chance(70) ? r.range(0, 30) : r.range(0, top / 4), W = r.range(1, r.chance(70) ? 60 : top / 4);
    sliding_window_reservoir<int32_t, 9, UnsignedClock<U>> res((typename sliding_window_reservoir<int32_t, 9, UnsignedClock<U>>::window_type)W, UnsignedClock<U>(&t));
    drive<sliding_window_reservoir<int32_t, 9, UnsignedClock<U>>, int32_t>(r, res, 9, W, [&] { return t; }, [&](int64_t v) { t = std::max<int64_t>(v, 0); }, "unsigned ticks");
}
VF_SEQ(unsigned_ticks, 2) { switch (r.below(3)) { case 0: return from_zero<uint32_t>(r, 100000); case 1: return from_zero<uint64_t>(r, 1000000000000LL); default: return from_zero<unsigned short>(r, 1600); } }
}}
