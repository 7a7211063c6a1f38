// C05: reservoirs stay consistent under concurrent recording
#include "snap.hpp"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;

enum Kind { SIMPLE, UNIFORM, SLIDING };
struct Rec { int64_t v; uint64_t inv, ret; int64_t tinv, tret; };
struct Look { Nums vals; size_t size; num_t mn, mx; bool known; uint64_t inv, ret; int64_t tinv, tret; const char *how; };

template<typename T> T make(int64_t v) { return (T)v; }

template<typename Res> Look look(const Res &res, int how)
{
    Look l; l.how = how == 0 ? "snapshot" : how == 1 ? "snapshot of a copy" : "snapshot of an assigned copy";
    point();
    l.tinv = vclk_now(); l.inv = stamp();
    auto done = [&](reservoir_snapshot &&s) {
        l.ret = stamp(); l.tret = vclk_now();
        VF_QUIET;
        l.size = s.size(); l.mn = num(s.min()); l.mx = num(s.max());
        Contents c(std::move(s)); l.vals = c.values; l.known = c.known;
    };
    if (how == 0) done(res.snapshot());
    else if (how == 1) { Res c(res); done(c.snapshot()); }
    else { Res c(res); c.update(make<typename Res::value_type>(-7)); c = res; done(c.snapshot()); }
    return l;
}

static void judge(const Look &l, const std::vector<Rec> &recs, size_t N, Kind kind, int64_t W)
{
    auto desc = [&] {
        std::string s; for (auto &r : recs) s += " " + std::to_string(r.v) + "@[" + std::to_string(r.inv) + "," + std::to_string(r.ret) + "]" + (kind == SLIDING ? "t" + std::to_string(r.tinv - 1000000000000LL) + "-" + std::to_string(r.tret - 1000000000000LL) : "");
        char b[300]; snprintf(b, sizeof b, "%s [%lu,%lu]t%lld-%lld of capacity %zu", l.how, (unsigned long)l.inv, (unsigned long)l.ret, (long long)l.tinv - 1000000000000LL, (long long)l.tret - 1000000000000LL, N);
        return std::string(b) + (W ? " window " + std::to_string(W) : "") + " holds " + show(l.vals) + "; recorded" + s;
    };
    size_t completed = 0, started = 0, sure = 0;
    for (auto &r : recs)
    {
        if (r.inv < l.ret) started++;
        if (r.ret < l.inv) { completed++; if (kind != SLIDING || r.tinv >= l.tret - W) sure++; }
    }
    VF_CHECK(l.size <= N, "over-capacity", "%zu values; %s", l.size, desc().c_str());
    VF_CHECK(l.size <= started, "invented", "%zu values, only %zu recordings; %s", l.size, started, desc().c_str());
    if (kind == UNIFORM) VF_CHECK(l.size >= std::min(completed, N), "missing", "%zu values, %zu recordings completed; %s", l.size, completed, desc().c_str());
    if (kind == SIMPLE)
    {
        int64_t least = started <= N ? (int64_t)completed : std::min((int64_t)completed, (int64_t)N - (int64_t)(started - completed));
        VF_CHECK((int64_t)l.size >= least, "missing", "%zu values, at least %lld expected; %s", l.size, (long long)least, desc().c_str());
    }
    if (kind == SLIDING && started <= N) VF_CHECK(l.size >= sure, "missing", "%zu values, at least %zu expected; %s", l.size, sure, desc().c_str());
    std::set<int64_t> has;
    Nums vals = l.vals; if (!l.known && l.size) { vals.push_back(l.mn); if (l.size > 1) vals.push_back(l.mx); }
    for (auto v : vals)
    {
        const Rec *f = nullptr;
        for (auto &r : recs) if ((num_t)r.v == v) f = &r;
        VF_CHECK(f && f->inv < l.ret, "invented", "%.20Lg was never recorded; %s", v, desc().c_str());
        VF_CHECK(has.insert(f->v).second, "duplicate", "%.20Lg is held twice; %s", v, desc().c_str());
        if (kind == SLIDING) VF_CHECK(f->tret >= l.tinv - W, "expired", "%.20Lg had left the window; %s", v, desc().c_str());
    }
    if (l.known && started <= N)
        for (auto &r : recs)
            if (r.ret < l.inv && (kind != SLIDING || r.tinv >= l.tret - W)) VF_CHECK(has.count(r.v), "missing", "%lld is missing; %s", (long long)r.v, desc().c_str());
    if (l.known && kind != UNIFORM && started > N)
        for (auto &r : recs)
            if (r.ret < l.inv && !has.count(r.v) && (kind != SLIDING || r.tinv >= l.tret - W))
            {
                bool other = false;
                for (auto &u : recs) if (&u != &r && u.ret > r.inv && u.inv < l.ret) other = true;
                VF_CHECK(other, "missing", "%lld is missing though nothing was recorded after it; %s", (long long)r.v, desc().c_str());
            }
    count("snapshots_judged");
    if (completed < started) count("snapshots_during_recordings");
}

template<typename Res, size_t N, Kind kind> void conc(Rng &r, Res &res, int64_t W)
{
    typedef typename Res::value_type T;
#ifdef VF_DSCHED
    int writers = (int)r.range(1, 3), lookers = (int)r.range(1, 2), per = (int)r.range(1, (int)N + 2), looks = (int)r.range(1, 3);
#else
    int writers = (int)r.range(1, 3), lookers = (int)r.range(1, 2), per = (int)r.range(1, 4 * (int)N), looks = (int)r.range(1, 6);
#endif
    int pre = r.chance(40) ? 0 : (int)r.range(1, (int)N + 1); bool mover = kind == SLIDING && r.chance(70);
    std::vector<Rec> before; std::vector<std::vector<Rec>> recs((size_t)writers); std::vector<std::vector<Look>> seen((size_t)lookers);
    for (int i = 0; i < pre; i++) { Rec e; e.v = i + 1; e.tinv = e.tret = vclk_now(); e.inv = stamp(); res.update(make<T>(e.v)); e.ret = stamp(); before.push_back(e); if (kind == SLIDING && r.chance(30)) vclk_advance(r.range(0, W)); }
    for (auto &v : recs) v.reserve((size_t)per); for (auto &v : seen) v.reserve((size_t)looks);
    std::vector<int> how; for (int i = 0; i < lookers * looks; i++) how.push_back(r.chance(65) ? 0 : 1 + (int)r.below(2));
    std::vector<int64_t> steps; for (int i = 0; i < 4; i++) steps.push_back(r.chance(50) ? W + 1 : r.range(1, W + 1));
    int n = writers + lookers + (mover ? 1 : 0);
    run_threads(r, n, [&](int i) {
        if (i < writers)
            for (int k = 0; k < per; k++)
            {
                Rec e; e.v = 100 * (i + 1) + k + 1;
                point(); e.tinv = vclk_now(); e.inv = stamp(); res.update(make<T>(e.v)); e.ret = stamp(); e.tret = vclk_now();
                VF_QUIET; recs[(size_t)i].push_back(e);
            }
        else if (i < writers + lookers)
            for (int k = 0; k < looks; k++) { Look l = look(res, how[(size_t)((i - writers) * looks + k)]); VF_QUIET; seen[(size_t)(i - writers)].push_back(std::move(l)); }
        else
            for (auto s : steps) { point(); vclk_advance(s); }
    }, mix((uint64_t)(writers * 100 + lookers * 10 + per), (uint64_t)(pre * 64 + looks)));
    std::vector<Rec> all = before; for (auto &v : recs) all.insert(all.end(), v.begin(), v.end());
    for (auto &v : seen) for (auto &l : v) judge(l, all, N, kind, W);
    // at rest
    Look f = look(res, 0); f.how = "final snapshot"; judge(f, all, N, kind, W);
    size_t expect = std::min(all.size(), N);
    if (kind == SLIDING)
    {
        // everything still held is in a window that ends when recording began: look at it through a copy of the clock
        int64_t now = vclk_now(); vclk_set(1000000000000LL); Look g = look(res, 0); vclk_set(now);
        VF_CHECK(g.size == expect, "final-size", "%zu values at rest, expected %zu of %zu", g.size, expect, all.size());
    }
    else VF_CHECK(f.size == expect, "final-size", "%zu values at rest, expected %zu of %zu: %s", f.size, expect, all.size(), show(f.vals).c_str());
    if (kind != UNIFORM)
    {
        Nums want; for (size_t i = 0; i < N; i++) { res.update(make<T>(9000 + (int64_t)i)); want.push_back((num_t)(9000 + i)); }
        expect_sample(res.snapshot(), want, "after", "after recording a full capacity at rest");
    }
    else
    {
        for (size_t i = 0; i < N; i++) res.update(make<T>(9000 + (int64_t)i));
        VF_CHECK(res.snapshot().size() == std::min(all.size() + N, N), "after", "wrong size after recording at rest");
    }
    count("recordings", all.size());
    if (want_sample()) sample("capacity %zu, %d writers of %d, %d lookers; first look %s, at rest %s", N, writers, per, lookers, seen[0].empty() ? "-" : show(seen[0][0].vals).c_str(), show(f.vals).c_str());
}
template<typename T, size_t N> void simple(Rng &r) { simple_reservoir<T, N> res; conc<simple_reservoir<T, N>, N, SIMPLE>(r, res, 0); }
template<typename T, size_t N> void uni(Rng &r) { vclk_set((int64_t)(r.u64() >> 4)); uniform_reservoir<T, N> res; conc<uniform_reservoir<T, N>, N, UNIFORM>(r, res, 0); }
template<typename T, size_t N> void slide(Rng &r) { int64_t W = r.range(5, 2000); typedef sliding_window_reservoir<T, N> R; R res{std::chrono::nanoseconds(W)}; conc<R, N, SLIDING>(r, res, W); }
VF_THREADS(simple_i64, 4) { switch (r.below(4)) { case 0: return simple<int64_t, 2>(r); case 1: return simple<int64_t, 3>(r); case 2: return simple<int64_t, 4>(r); default: return simple<int64_t, 7>(r); } }
VF_THREADS(simple_dbl, 2) { r.chance(50) ? simple<double, 3>(r) : simple<double, 5>(r); }
VF_THREADS(simple_i32, 1) { r.chance(50) ? simple<int32_t, 2>(r) : simple<int32_t, 4>(r); }
VF_THREADS(uniform_i64, 3) { switch (r.below(4)) { case 0: return uni<int64_t, 1>(r); case 1: return uni<int64_t, 2>(r); case 2: return uni<int64_t, 4>(r); default: return uni<int64_t, 6>(r); } }
VF_THREADS(uniform_dbl, 1) { r.chance(50) ? uni<double, 3>(r) : uni<double, 5>(r); }
VF_THREADS(sliding_i64, 4) { switch (r.below(3)) { case 0: return slide<int64_t, 2>(r); case 1: return slide<int64_t, 4>(r); default: return slide<int64_t, 7>(r); } }
VF_THREADS(sliding_dbl, 1) { slide<double, 3>(r); }
}}
