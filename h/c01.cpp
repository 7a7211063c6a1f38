// C01: counters are atomic and exact
#include "lin.hpp"
#include <cxxmetrics/counter.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;

enum { INCR, PREINC, POSTINC, PREDEC, ADD, SUB, SET, VALUE, CAST, SNAP, NOPS };
static const char *const names[] = {"incr", "++c", "c++", "--c", "+=", "-=", "=", "value", "cast", "snapshot"};

template<typename T> int64_t doop(counter<T> &c, int op, T a)
{
    switch (op)
    {
    case INCR: return (int64_t)c.incr(a);
    case PREINC: { auto &x = ++c; return &x == &c ? 0 : 1; }
    case POSTINC: return (int64_t)c++;
    case PREDEC: { auto &x = --c; return &x == &c ? 0 : 1; }
    case ADD: { auto &x = (c += a); return &x == &c ? 0 : 1; }
    case SUB: { auto &x = (c -= a); return &x == &c ? 0 : 1; }
    case SET: c = a; return 0;
    case VALUE: return (int64_t)c.value();
    case CAST: return (int64_t)(T)static_cast<const counter<T> &>(c);
    default: return (int64_t)(T)c.snapshot().value();
    }
}
template<typename T> bool step(T &v, int op, T a, int64_t ret)
{
    typedef typename std::make_unsigned<T>::type U;
    switch (op)
    {
    case INCR: v = (T)((U)v + (U)a); return ret == (int64_t)v;
    case PREINC: v = (T)((U)v + 1); return ret == 0;
    case POSTINC: { T o = v; v = (T)((U)v + 1); return ret == (int64_t)o; }
    case PREDEC: v = (T)((U)v - 1); return ret == 0;
    case ADD: v = (T)((U)v + (U)a); return ret == 0;
    case SUB: v = (T)((U)v - (U)a); return ret == 0;
    case SET: v = a; return ret == 0;
    default: return ret == (int64_t)v;
    }
}
template<typename T> struct Model
{
    typedef T State;
    bool apply(T &s, const Event &e) const { return step<T>(s, e.op, (T)e.a, e.b); }
    uint64_t hash(T s) const { return mix((uint64_t)s); }
};

// amounts that can't make signed counters overflow within a case
template<typename T> T amount(Rng &r)
{
    if (std::is_unsigned<T>::value) return (T)(r.chance(50) ? r.below(10) : r.u64());
    return (T)r.wide(sizeof(T) == 8 ? 56 : sizeof(T) == 4 ? 24 : sizeof(T) == 2 ? 11 : 3);
}

template<typename T> void seq(Rng &r)
{
    T model = amount<T>(r);
    counter<T> c(model);
    uint64_t h = sizeof(T);
    int n = (int)r.range(1, 60), nontriv = 0;
    bool cancast = sizeof(T) >= 4; (void)cancast;
    for (int i = 0; i < n; i++)
    {
        int op = (int)r.below(NOPS + 3); T a = amount<T>(r);
        VF_NOTE("%s %lld", op < NOPS ? names[op] : "copy/move", (long long)a);
        if (op >= NOPS)
        {
            if (op == NOPS) { counter<T> d(c); VF_CHECK(d.value() == model && c.value() == model, "copy", "copy is %lld, original %lld", (long long)d.value(), (long long)model); ++d; VF_CHECK(c.value() == model, "copy", "changing a copy changed the original"); }
            else if (op == NOPS + 1) { counter<T> d(std::move(c)); VF_CHECK(d.value() == model, "move", "moved counter is %lld, not %lld", (long long)d.value(), (long long)model); VF_CHECK(c.value() == 0, "move", "a count that was handed over stays behind as %lld", (long long)c.value()); c = d; VF_CHECK(d.value() == model, "copy", "assignment changed the source");
                counter<T> e(a); counter<T> &back = (e = std::move(d)); VF_CHECK(&back == &e && e.value() == model && d.value() == 0, "move", "after move assignment of %lld the counters are %lld and %lld", (long long)model, (long long)e.value(), (long long)d.value()); }
            else { counter<T> d(a); d = c; VF_CHECK(d.value() == model, "assign", "assigned counter is %lld, not %lld", (long long)d.value(), (long long)model); }
            VF_CHECK(c.value() == model, "value", "value %lld, expected %lld", (long long)c.value(), (long long)model);
            continue;
        }
        T before = model;
        int64_t ret = doop<T>(c, op, a);
        VF_CHECK(step<T>(model, op, a, ret), "result", "%s(%lld) on %lld returned %lld", names[op], (long long)a, (long long)before, (long long)ret);
        VF_CHECK(c.value() == model, "value", "after %s(%lld) on %lld the value is %lld, expected %lld", names[op], (long long)a, (long long)before, (long long)c.value(), (long long)model);
        VF_CHECK(c.snapshot() == metric_value(model), "snapshot", "snapshot isn't %lld", (long long)model);
        nontriv += model != before;
        h = mix(h, (uint64_t)model * 31 + (uint64_t)op);
    }
    count("operations", (uint64_t)n);
    if (nontriv) cover(h);
    sample("%d operations on a %zu byte counter, final %lld", n, sizeof(T), (long long)model);
}
VF_SEQ(seq_i64, 4) { seq<int64_t>(r); }
VF_SEQ(seq_u64, 3) { seq<uint64_t>(r); }
VF_SEQ(seq_i32, 2) { seq<int32_t>(r); }
VF_SEQ(seq_u32, 2) { seq<uint32_t>(r); }
VF_SEQ(seq_i16, 1) { seq<int16_t>(r); }
VF_SEQ(seq_u16, 1) { seq<uint16_t>(r); }

template<typename T> void conc(Rng &r)
{
    int n = (int)r.range(2, 4), per = (int)r.range(1, n == 2 ? 6 : n == 3 ? 4 : 3);
    struct O { int op; T a; };
    std::vector<std::vector<O>> plan((size_t)n);
    T init = amount<T>(r);
    counter<T> c(init);
    int focus = (int)r.below(4); // mixes: everything, increments and reads, sets, decrements
    uint64_t in = mix(sizeof(T), (uint64_t)init);
    for (auto &p : plan) for (int i = 0; i < per; i++)
    {
        static const int f1[] = {INCR, PREINC, POSTINC, ADD, VALUE}, f2[] = {SET, INCR, POSTINC, VALUE, SNAP}, f3[] = {PREDEC, SUB, POSTINC, CAST, SNAP};
        int op = focus == 0 ? (int)r.below(NOPS) : (focus == 1 ? f1 : focus == 2 ? f2 : f3)[r.below(5)];
        T a = amount<T>(r); p.push_back(O{op, a}); in = mix(in, (uint64_t)op * 1000003 + (uint64_t)a);
    }
    History h(n);
    run_threads(r, n, [&](int i) { for (auto &o : plan[(size_t)i]) record(h, i, o.op, (int64_t)o.a, [&] { return doop<T>(c, o.op, o.a); }); }, in);
    auto ev = h.all(); Model<T> m; T fin = c.value();
    if (h.overlap()) count("histories_with_overlapping_operations");
    Lin<Model<T>> lin(m, ev);
    if (!lin.check(init, &fin)) fail("not-linearizable", "initial %lld, final %lld, history %s", (long long)init, (long long)fin, h.str(names).c_str());
    VF_CHECK((T)c.snapshot().value() == fin, "snapshot", "final snapshot differs from the final value");
    count("histories_checked"); count("operations", ev.size());
    if (want_sample()) sample("final %lld: %s", (long long)fin, h.str(names).c_str());
}
VF_THREADS(conc_i64, 4) { conc<int64_t>(r); }
VF_THREADS(conc_u64, 3) { conc<uint64_t>(r); }
VF_THREADS(conc_i32, 2) { conc<int32_t>(r); }
VF_THREADS(conc_u32, 1) { conc<uint32_t>(r); }
VF_THREADS(conc_i16, 1) { conc<int16_t>(r); }

// long bursts: conservation and uniqueness of what the increments returned
VF_THREADS(burst, 2)
{
#ifdef VF_DSCHED
    const int per = 12;
#else
    const int per = 400;
#endif
    int n = (int)r.range(2, 4); counter<int64_t> c; bool ret = r.chance(50); int64_t by = r.range(1, 5);
    std::vector<std::vector<int64_t>> got((size_t)n); for (auto &g : got) g.reserve((size_t)per);
    run_threads(r, n, [&](int i) {
        for (int k = 0; k < per; k++)
            if (ret) { int64_t v = c++; VF_QUIET; got[(size_t)i].push_back(v); }
            else switch ((k + i) % 3) { case 0: c += by; break; case 1: c.incr(by); break; default: c -= -by; }
    }, (uint64_t)n * 100 + (uint64_t)ret);
    if (ret)
    {
        std::vector<int64_t> all;
        for (auto &g : got) { VF_CHECK(std::is_sorted(g.begin(), g.end()), "order", "a thread's increments returned decreasing values"); all.insert(all.end(), g.begin(), g.end()); }
        std::sort(all.begin(), all.end());
        for (size_t i = 0; i < all.size(); i++) VF_CHECK(all[i] == (int64_t)i, "lost-update", "%d threads times %d increments returned %lld at rank %zu", n, per, (long long)all[i], i);
    }
    int64_t want = ret ? n * per : n * per * by;
    VF_CHECK(c.value() == want, "lost-update", "final value %lld, expected %lld", (long long)c.value(), (long long)want);
    count("operations", (uint64_t)(n * per));
}
}}
