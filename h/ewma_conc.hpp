#pragma once
// Concurrent histories of moving averages
#include "lin.hpp"
#include "ewma_model.hpp"
namespace vf
{
enum EwmaOp { E_MARK, E_RATE, E_CRATE, E_NOPS };
static const char *const ewma_names[] = {"mark", "rate", "const-rate"};
inline int64_t dbits(double d) { int64_t i; memcpy(&i, &d, 8); return i; }
inline double bitsd(int64_t i) { double d; memcpy(&d, &i, 8); return d; }

// one operation and the clock before and after it
struct TimedEvent { Event e; int64_t t0, t1; };
struct EwmaHistory
{
    std::vector<int64_t> clock; // every value the clock had, ascending
    std::vector<std::vector<TimedEvent>> t;
    EwmaHistory(int n, int64_t start) : clock{start}, t((size_t)n) { for (auto &v : t) v.reserve(64); clock.reserve(64); }
    std::vector<TimedEvent> all() const { std::vector<TimedEvent> r; for (auto &v : t) r.insert(r.end(), v.begin(), v.end()); return r; }
};
struct EwmaLin
{
    typedef EwmaModel<double> State;
    const std::vector<TimedEvent> &ev; std::vector<std::vector<int64_t>> times;
    EwmaLin(const std::vector<TimedEvent> &e, const std::vector<int64_t> &clock) : ev(e)
    {
        for (auto &x : ev)
        {
            times.emplace_back();
            for (auto c : clock) if (c >= x.t0 && c <= x.t1) times.back().push_back(c);
            if (times.back().empty()) times.back().push_back(x.t0);
        }
    }
    // e.thread is the index of the event
    int ways(const Event &e) const { return (int)times[(size_t)e.thread].size(); }
    bool apply(State &s, const Event &e, int w) const
    {
        int64_t t = std::max(times[(size_t)e.thread][(size_t)w], s.last);
        switch (e.op)
        {
        case E_MARK: s.mark(t, bitsd(e.a)); return true;
        case E_RATE: return ewma_close<double>(s.tick(t, true), bitsd(e.b), 0, s.alpha);
        default: return ewma_close<double>(s.tick(t, false), bitsd(e.b), 0, s.alpha);
        }
    }
    uint64_t hash(const State &s) const { return s.hash(); }
};
inline std::string ewma_str(const std::vector<TimedEvent> &ev, int64_t base)
{
    auto a = ev; std::sort(a.begin(), a.end(), [](const TimedEvent &x, const TimedEvent &y) { return x.e.inv < y.e.inv; });
    std::string s; char b[200];
    for (auto &x : a) { snprintf(b, sizeof b, "[%lu,%lu] clock %lld-%lld t%d %s", (unsigned long)x.e.inv, (unsigned long)x.e.ret, (long long)(x.t0 - base), (long long)(x.t1 - base), x.e.thread, ewma_names[x.e.op]); s += b; snprintf(b, sizeof b, x.e.op == E_MARK ? "(%.10g); " : "=%.10g; ", x.e.op == E_MARK ? bitsd(x.e.a) : bitsd(x.e.b)); s += b; }
    return s;
}
// decides a history of one average
inline void ewma_decide(const std::vector<TimedEvent> &all, const std::vector<int64_t> &clock, const EwmaModel<double> &init, int64_t base, const char *key, const char *what)
{
    std::vector<Event> ev; for (size_t i = 0; i < all.size(); i++) { Event e = all[i].e; e.thread = (int)i; ev.push_back(e); }
    EwmaLin m(all, clock); LinWays<EwmaLin> lin(m, ev);
    if (!lin.check(init)) fail(key, "%s: no order of the marks explains the rates (interval %lld, alpha %.10Lg, before: rate %.10g pending %.10g at %lld): %s", what, (long long)init.interval, init.alpha, init.rate, init.pending, (long long)(init.last - base), ewma_str(all, base).c_str());
    count(lin.undecided() ? "histories_too_big_to_decide" : "histories_decided"); count("orders_tried", lin.visited());
}
}
