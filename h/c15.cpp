// C15: visiting reports every registered metric exactly once
#include "reg.hpp"
namespace vf { namespace t {
using namespace cxxmetrics;

// the same metric may be registered in several places
typedef std::vector<int64_t> Given;
struct Entry { int path, tags, kind; Handle h; std::shared_ptr<Given> all = std::make_shared<Given>(); };
struct World { std::map<int, int> kind; std::map<std::pair<int, int>, Entry> m; };
static std::string path_key(const metric_path &p) { std::string s; for (auto &q : p) s += q + "/"; return s; }
static std::string path_key(int i) { std::string s; for (auto &q : path_parts(i)) s += q + "/"; return s; }

static void put(Box &reg, World &w, Rng &r, int p, int t, int k)
{
    if (w.kind.count(p)) k = w.kind[p];
    const Kind &kd = kinds::all()[(size_t)k]; Handle h; std::shared_ptr<Given> all;
    if (!w.m.count({p, t}) && r.chance(25))
    {
        std::vector<Entry *> same; for (auto &x : w.m) if (x.second.kind == k) same.push_back(&x.second);
        if (!same.empty()) { Entry &o = *r.pick(same); h = o.h; all = o.all; kd.existing(reg.r, make_path(r, p), h, make_tags(r, t)); count("metrics_registered_again"); }
    }
    if (h) { }
    else if (r.chance(80) || w.m.count({p, t})) h = kd.request(reg.r, make_path(r, p), make_tags(r, t)); else { h = kd.fresh(); kd.existing(reg.r, make_path(r, p), h, make_tags(r, t)); }
    w.kind[p] = k; auto &e = w.m[{p, t}]; e.path = p; e.tags = t; e.kind = k; e.h = h; if (all) e.all = all;
}
static void feed(World &w, Rng &r, uint64_t &h)
{
    if (w.m.empty()) return;
    auto it = w.m.begin(); std::advance(it, (long)r.below(w.m.size())); auto &e = it->second;
    for (int n = (int)r.range(1, 6); n > 0 && (*e.all).size() < MAX_VALUES; n--) { int64_t v = r.chance(50) ? r.range(1, 9) : r.range(1, 1000000); kinds::all()[(size_t)e.kind].add(e.h, v); (*e.all).push_back(v); h = mix(h, (uint64_t)v); }
}
typedef std::map<std::string, std::vector<Reading>> Perms;
struct Collect
{
    Perms *p; int *calls;
    template<typename S> void operator()(const tag_collection &t, const S &s) const { ++*calls; (*p)[tag_key(t)].push_back(reading(s)); }
};
// lambdas, functions and functors, passed as they come
template<typename H> static void visit_with(Rng &r, basic_registered_metric &m, H &h)
{
    switch (r.below(3)) { case 0: m.visit(h); break; case 1: m.visit(static_cast<const H &>(h)); break; default: m.visit(H(h)); }
}
static void judge(Box &reg, World &w, Rng &r, const char *when)
{
    std::map<std::string, std::vector<Perms>> got; size_t perms = 0;
    auto outer = [&](const metric_path &p, basic_registered_metric &m) {
        Perms ps; int calls = 0; auto &v = got[path_key(p)];
        m.visit([](const tag_collection &, const average_value_snapshot &) { }); // averages close the interval when read
        switch (r.below(3))
        {
        case 0: { Collect c{&ps, &calls}; visit_with(r, m, c); break; }
        case 1: { auto c = [&](const tag_collection &t, const auto &s) { ++calls; ps[tag_key(t)].push_back(reading(s)); }; visit_with(r, m, c); break; }
        default: { char pad[600] = {1}; auto c = [pad, &calls, &ps](const tag_collection &t, const auto &s) { calls += pad[0]; ps[tag_key(t)].push_back(reading(s)); }; visit_with(r, m, c); }
        }
        size_t n = 0; for (auto &x : ps) n += x.second.size(); VF_CHECK((size_t)calls == n, "visit-once", "%s: %d calls for %zu permutations", when, calls, n);
        v.push_back(std::move(ps));
    };
    if (r.chance(50)) reg.r.visit_registered_metrics(outer); else reg.r.visit_registered_metrics([&](const metric_path &p, basic_registered_metric &m) { outer(p, m); });
    size_t want = w.kind.size(); VF_CHECK(got.size() == want, "paths", "%s: %zu paths visited of %zu registered", when, got.size(), want);
    for (auto &k : w.kind)
    {
        auto it = got.find(path_key(k.first)); VF_CHECK(it != got.end(), "paths", "%s: %s was not visited", when, path_key(k.first).c_str()); VF_CHECK(it->second.size() == 1, "path-once", "%s: %s was visited %zu times", when, path_key(k.first).c_str(), it->second.size());
    }
    for (auto &x : w.m)
    {
        auto &e = x.second; auto &ps = got[path_key(e.path)][0]; auto key = tag_key(tag_list(e.tags)); auto it = ps.find(key); const Kind &kd = kinds::all()[(size_t)e.kind];
        VF_CHECK(it != ps.end(), "permutations", "%s: the %s with tags %s was not visited, these were: %s", when, kd.name.c_str(), key.c_str(), ps.empty() ? "none" : ps.begin()->first.c_str());
        VF_CHECK(it->second.size() == 1, "visit-once", "%s: the %s with tags %s was visited %zu times", when, kd.name.c_str(), key.c_str(), it->second.size());
        Reading direct = kd.read(e.h), &seen = it->second[0];
        VF_CHECK(seen == direct, "value", "%s: visiting the %s with tags %s gave %s, it holds %s", when, kd.name.c_str(), key.c_str(), seen.text().c_str(), direct.text().c_str());
        VF_CHECK(seen.family == kd.family, "family", "%s: visiting the %s gave a snapshot of kind %d", when, kd.name.c_str(), (int)seen.family);
        if (kd.family == F_SUM || (kd.family == F_AVG && (kd.last || kd.fixed))) VF_CHECK(seen.value == kd.value((*e.all)), "value", "%s: visiting the %s gave %.20Lg, its value is %.20Lg", when, kd.name.c_str(), seen.value, kd.value((*e.all)));
        if (kd.family == F_HIST || kd.family == F_TIMER) VF_CHECK(seen.count == (*e.all).size(), "value", "%s: visiting the %s gave a count of %lu, it got %zu values", when, kd.name.c_str(), (unsigned long)seen.count, (*e.all).size());
        if (kd.family == F_METER || kd.family == F_TIMER) VF_CHECK(seen.rates.size() == kd.windows, "value", "%s: visiting the %s gave %zu windows", when, kd.name.c_str(), seen.rates.size());
        perms++;
    }
    size_t gp = 0; for (auto &x : got) gp += x.second[0].size(); VF_CHECK(gp == perms, "permutations", "%s: %zu permutations visited of %zu registered", when, gp, perms);
    count("visits_judged"); count("paths_visited", want); count("permutations_visited", perms); smax("most_permutations", perms);
}
struct Once { int *n; Reading *last; template<typename S> void operator()(const S &s) const { ++*n; *last = reading(s); } };
static void aggregates(Box &reg, World &w, Rng &r, const char *when)
{
    std::map<std::string, int> calls; std::map<std::string, Reading> said; std::set<std::string> visited;
    reg.r.visit_registered_metrics([&](const metric_path &p, basic_registered_metric &m) { int n = 0; Reading x; Once o{&n, &x}; if (r.chance(50)) m.aggregate(o); else m.aggregate([&](const auto &s) { ++n; x = reading(s); }); calls[path_key(p)] = n; said[path_key(p)] = x; });
    for (auto &k : w.kind)
    {
        VF_CHECK(calls[path_key(k.first)] == 1, "aggregate-once", "%s: aggregating the %s at %s called the handler %d times", when, kinds::all()[(size_t)k.second].name.c_str(), path_key(k.first).c_str(), calls[path_key(k.first)]);
        const Kind &kd = kinds::all()[(size_t)k.second]; VF_CHECK(said[path_key(k.first)].family == kd.family, "family", "%s: aggregating the %s gave a snapshot of kind %d", when, kd.name.c_str(), (int)said[path_key(k.first)].family);
        if (kd.family == F_SUM) { num_t t = 0; for (auto &x : w.m) if (x.second.path == k.first) t += kd.value((*x.second.all)); VF_CHECK(said[path_key(k.first)].value == t, "aggregate-value", "%s: aggregating the %s gave %.20Lg, the sum is %.20Lg", when, kd.name.c_str(), said[path_key(k.first)].value, t); }
        if (kd.family == F_HIST || kd.family == F_TIMER) { uint64_t t = 0; for (auto &x : w.m) if (x.second.path == k.first) t += (*x.second.all).size(); VF_CHECK(said[path_key(k.first)].count == t, "aggregate-value", "%s: aggregating the %s gave a count of %lu, %lu were recorded", when, kd.name.c_str(), (unsigned long)said[path_key(k.first)].count, (unsigned long)t); }
        count("aggregates_judged");
    }
}
struct Thrown { int at; };
static void throwing(Box &reg, World &w, Rng &r)
{
    int total = (int)w.m.size(), at = (int)r.below((uint64_t)total + 2), n = 0, how = (int)r.below(4); bool caught = false; VF_NOTE("throw at call %d, way %d", at, how);
    try
    {
        reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) {
            if (how == 0) { if (n++ == at) throw Thrown{at}; }
            else if (how == 1) m.visit([&](const tag_collection &, const auto &) { if (n++ == at) throw Thrown{at}; });
            else if (how == 2) m.aggregate([&](const auto &) { if (n++ == at) throw Thrown{at}; });
            else { try { m.visit([&](const tag_collection &, const auto &) { if (n++ % 3 == at % 3) throw std::runtime_error("x"); }); } catch (const std::runtime_error &) { } }
        });
    }
    catch (const Thrown &t) { caught = true; VF_CHECK(t.at == at, "throw", "the exception changed"); }
    if (how < 3) VF_CHECK(caught == (n == at + 1) && n <= at + 1, "throw", "the handler threw at call %d of %d and the exception %s", at, n, caught ? "arrived" : "did not arrive");
    count("throwing_visits");
}
VF_SEQ(contents, 6)
{
    const auto &K = kinds::all(); Box reg; World w; int steps = (int)r.range(0, 40), npaths = (int)r.range(1, 10); uint64_t h = 1; bool wide = r.chance(15);
    std::vector<int> pp; for (int i = 0; i < npaths; i++) pp.push_back((int)r.below(600));
    for (int s = 0; s < steps; s++)
    {
        int k = (int)r.below(20);
        if (k < 11) { int p = r.pick(pp), t = (int)r.below(wide ? 4000 : r.chance(50) ? 4 : 1024), kd = (int)r.below(K.size()); put(reg, w, r, p, t, kd); VF_NOTE("register a %s at path %d tags %d", K[(size_t)w.kind[p]].name.c_str(), p, t); h = mix(h, mix(mix((uint64_t)p, (uint64_t)t), (uint64_t)w.kind[p])); }
        else if (k < 15) feed(w, r, h);
        else if (k < 16) { if (w.m.size()) { vclk_advance(r.range(0, 20000000)); } }
        else if (k < 17) judge(reg, w, r, "along the way");
        else if (k < 18) aggregates(reg, w, r, "along the way");
        else { throwing(reg, w, r); h = mix(h, 77); }
    }
    judge(reg, w, r, "at the end"); aggregates(reg, w, r, "at the end"); judge(reg, w, r, "after aggregating");
    if (w.m.size() > 1) cover(h);
    sample("%zu paths, %zu permutations", w.kind.size(), w.m.size());
}
// after a handler threw, the registry takes new metrics and can be visited
VF_SEQ(throws, 2)
{
    const auto &K = kinds::all(); Box reg; World w; uint64_t h = 2; int n = (int)r.range(1, 12);
    for (int i = 0; i < n; i++) put(reg, w, r, (int)r.below(6), (int)r.below(32), (int)r.below(K.size()));
    for (int i = 0, m = (int)r.range(1, 6); i < m; i++) { throwing(reg, w, r); feed(w, r, h); if (r.chance(50)) put(reg, w, r, (int)r.below(6), (int)r.below(32), (int)r.below(K.size())); }
    judge(reg, w, r, "after handlers threw"); aggregates(reg, w, r, "after handlers threw"); cover(mix(h, (uint64_t)n)); sample("%d metrics, handlers threw", n);
}
// handlers that only take some kinds
VF_SEQ(partial, 1)
{
    const auto &K = kinds::all(); Box reg; World w; int n = (int)r.range(1, 30); int sums = 0, hists = 0, wants = 0, wanth = 0; uint64_t h = 3;
    for (int i = 0; i < n; i++) put(reg, w, r, (int)r.below(12), (int)r.below(32), (int)r.below(K.size()));
    for (auto &x : w.m) { wants += K[(size_t)x.second.kind].family == F_SUM; wanth += K[(size_t)x.second.kind].family == F_HIST; h = mix(h, (uint64_t)x.second.kind); }
    reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit([&](const tag_collection &, const cumulative_value_snapshot &) { sums++; }); });
    VF_CHECK(sums == wants, "partial", "a handler for cumulative values was called %d times for %d metrics", sums, wants);
    struct H { int *n, *x; void operator()(const tag_collection &, const histogram_snapshot &) const { ++*n; } void operator()(const tag_collection &, const timer_snapshot &) const { ++*x; } }; int timers = 0;
    reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit(H{&hists, &timers}); });
    VF_CHECK(hists == wanth, "partial", "a handler for histograms was called %d times for %d metrics", hists, wanth);
    cover(h); count("visits_judged", 2);
}
// what handlers of fewer kinds are given: what they accept (a histogram's handler takes timers, a value's takes meters); of a
// timer that is not accepted, its histogram and its rate
namespace only
{
typedef std::vector<Reading> Got;
struct Value { Got *g; void take(const value_snapshot &s) const { Reading x; x.value = num(s.value()); g->push_back(x); } void operator()(const tag_collection &, const value_snapshot &s) const { take(s); } void operator()(const value_snapshot &s) const { take(s); } };
template<typename S> struct One { Got *g; void operator()(const tag_collection &, const S &s) const { g->push_back(reading(s)); } void operator()(const S &s) const { g->push_back(reading(s)); } };
struct HistMeter
{
    Got *g; void operator()(const tag_collection &, const histogram_snapshot &s) const { g->push_back(reading(s)); } void operator()(const tag_collection &, const meter_snapshot &s) const { g->push_back(reading(s)); }
    void operator()(const histogram_snapshot &s) const { g->push_back(reading(s)); } void operator()(const meter_snapshot &s) const { g->push_back(reading(s)); }
};
static Got split(const Reading &f, int how)
{
    Got g; Reading h = f, m = f, v; h.family = F_HIST; h.value = 0; h.rates.clear(); m.family = F_METER; m.count = m.size = 0; m.sample.clear(); v.value = f.value;
    bool hist = f.family == F_HIST || f.family == F_TIMER, meter = f.family == F_METER || f.family == F_TIMER;
    if (how == 0) { if (!hist || meter) g.push_back(v); }
    else if (how == 1) { if (meter) g.push_back(m); }
    else if (how == 2) { if (hist) g.push_back(h); }
    else if (how == 3) { if (hist) g.push_back(h); else if (meter) g.push_back(m); }
    else if (how == 4) { v.family = F_AVG; if (f.family == F_AVG || meter) g.push_back(v); }
    else if (how == 5) { if (f.family == F_SUM) g.push_back(f); }
    else if (f.family == F_TIMER) g.push_back(f);
    return g;
}
template<typename F> static void with(Got &g, int how, const F &f)
{
    switch (how) { case 0: f(Value{&g}); break; case 1: f(One<meter_snapshot>{&g}); break; case 2: f(One<histogram_snapshot>{&g}); break; case 3: f(HistMeter{&g}); break; case 4: f(One<average_value_snapshot>{&g}); break; case 5: f(One<cumulative_value_snapshot>{&g}); break; default: f(One<timer_snapshot>{&g}); }
}
static void judge(const Got &got, const Got &want, int how, const char *what)
{
    std::string a, b; for (auto &x : got) a += x.text() + "; "; for (auto &x : want) b += x.text() + "; ";
    VF_CHECK(got == want, "kinds", "a handler of kind %d %s was given [%s], the snapshots hold [%s]", how, what, a.c_str(), b.c_str()); count("partial_handlers_judged");
}
}
VF_SEQ(kinds_of_handlers, 1)
{
    const auto &K = kinds::all(); Box reg; World w; int n = (int)r.range(1, 14); uint64_t h = 4;
    for (int i = 0; i < n; i++) { put(reg, w, r, (int)r.below(8), (int)r.below(8), (int)r.below(K.size())); feed(w, r, h); } if (r.chance(50)) vclk_advance(r.range(0, 20000000));
    reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) {
        m.visit([](const tag_collection &, const average_value_snapshot &) { });
        for (int how = 0; how < 7; how++)
        {
            only::Got all, want, got; m.visit([&](const tag_collection &, const auto &s) { all.push_back(reading(s)); }); for (auto &x : all) for (auto &y : only::split(x, how)) want.push_back(y);
            only::with(got, how, [&](const auto &hd) { if (r.chance(50)) m.visit(hd); else { auto c = hd; m.visit(std::move(c)); } }); only::judge(got, want, how, "visiting");
            all.clear(); want.clear(); got.clear(); m.aggregate([&](const auto &s) { all.push_back(reading(s)); }); for (auto &x : all) for (auto &y : only::split(x, how)) want.push_back(y);
            only::with(got, how, [&](const auto &hd) { m.aggregate(hd); }); only::judge(got, want, how, "aggregating");
        }
    });
    for (auto &x : w.m) h = mix(h, (uint64_t)x.second.kind); cover(h); sample("%zu metrics, seven kinds of handlers", w.m.size());
}
// thousands of permutations and paths, in bounded stack
VF_SEQ(many, 1)
{
    if (!r.chance(10)) { cover(0); return; }
    Box reg; int n = (int)r.range(1000, 12000), k = (int)r.below(3); bool paths = r.chance(30); std::vector<Handle> keep; const auto &K = kinds::all(); size_t which = k == 0 ? 0 : k == 1 ? 3 : 19;
    for (int i = 0; i < n; i++) { auto h = K[which].request(reg.r, paths ? Path("p" + std::to_string(i)) : Path("p"), paths ? Tags() : Tags{{"i", i}}); K[which].add(h, i + 1); }
    char *lo = nullptr, *hi = nullptr; std::vector<char> seen((size_t)n); size_t calls = 0, visited = 0;
    auto at = [&](char *f) { if (!lo || f < lo) lo = f; if (!hi || f > hi) hi = f; };
    reg.r.visit_registered_metrics([&](const metric_path &p, basic_registered_metric &m) {
        visited++; int path = paths ? atoi(p.begin()->c_str() + 1) : -1;
        m.visit([&](const tag_collection &t, const auto &s) {
            at((char *)__builtin_frame_address(0)); calls++; int i = path; for (auto &x : t) i = (int)static_cast<int64_t>(x.second);
            VF_CHECK(i >= 0 && i < n && !seen[(size_t)i], "visit-once", "permutation %d visited twice", i); seen[(size_t)i] = 1;
            Reading q = reading(s); VF_CHECK(which == 19 ? q.count == 1 && (q.sample.empty() || q.sample[0] == i + 1) : q.value == i + 1, "value", "permutation %d of many shows %s", i, q.text().c_str());
        });
    });
    VF_CHECK(calls == (size_t)n && visited == (paths ? (size_t)n : 1), "permutations", "%zu of %d visited", calls, n);
    VF_CHECK(hi - lo < 65536, "stack", "visiting %d permutations used %ld bytes of stack for visitors", n, (long)(hi - lo)); smax("stack_spread_of_handlers", (uint64_t)(hi - lo)); smax("most_permutations", (uint64_t)n);
    count("visits_judged"); cover(mix((uint64_t)n, which)); sample("%d %s, handlers' frames within %ld bytes", n, paths ? "paths" : "permutations", (long)(hi - lo));
}

// ------------------------------------------------------------------------------------------------------------- concurrent
VF_THREADS(conc, 6)
{
    const auto &K = kinds::all(); std::unique_ptr<Box> regp(new Box); Box &reg = *regp; int writers = (int)r.range(1, 2), readers = (int)r.range(1, 2), np = (int)r.range(1, 4), nt = (int)r.range(1, 4); uint64_t in = (uint64_t)writers;
    struct Op { int p, t; Path path{""}; Tags tags; Handle h, mine; int adds; std::vector<std::pair<uint64_t, uint64_t>> added; uint64_t inv = 0, ret = 0; };
    struct Seen { std::string path, tags; bool tagged; Reading x; };
    struct Visit { int what; uint64_t inv = 0, ret = 0; std::vector<Seen> seen; int agg = 0; bool thrown = false; };
    std::vector<int> pp, tt; std::map<int, int> kind; for (int i = 0; i < np; i++) { pp.push_back((int)r.below(100)); kind[pp.back()] = (int)r.below(K.size()); } for (int i = 0; i < nt; i++) tt.push_back((int)r.below(64));
#ifdef VF_DSCHED
    int per = (int)r.range(1, 4), vper = (int)r.range(1, 2);
#else
    int per = (int)r.range(2, 15), vper = (int)r.range(2, 6);
#endif
    std::vector<std::vector<Op>> plan((size_t)writers); std::vector<std::vector<Visit>> visits((size_t)readers); std::vector<Op> before;
    auto op = [&] { Op o; o.p = r.pick(pp); o.t = r.pick(tt); o.path = make_path(r, o.p); o.tags = make_tags(r, o.t); if (r.chance(20)) o.mine = K[(size_t)kind[o.p]].fresh(); o.adds = (int)r.below(3); in = mix(in, (uint64_t)(o.p * 4096 + o.t * 8 + o.adds)); return o; };
    for (auto &v : plan) for (int i = 0; i < per; i++) v.push_back(op());
    for (auto &v : visits) for (int i = 0; i < vper; i++) { Visit x; x.what = (int)r.below(5); in = mix(in, (uint64_t)x.what); v.push_back(std::move(x)); }
    auto perform = [&](Op &o) {
        const Kind &k = K[(size_t)kind.find(o.p)->second]; o.inv = stamp(); point();
        if (o.mine) { k.existing(reg.r, o.path, o.mine, o.tags); o.h = k.request(reg.r, o.path, o.tags); } else o.h = k.request(reg.r, o.path, o.tags);
        point(); o.ret = stamp();
        for (int i = 0; i < o.adds; i++) { uint64_t a = stamp(); k.add(o.h, 1); o.added.emplace_back(a, stamp()); }
    };
    for (int i = (int)r.below(3); i > 0; i--) { before.push_back(op()); perform(before.back()); }
    run_threads(r, writers + readers, [&](int i) {
        if (i < writers) { for (auto &o : plan[(size_t)i]) perform(o); return; }
        for (auto &v : visits[(size_t)(i - writers)])
        {
            v.inv = stamp(); point();
            try
            {
                reg.r.visit_registered_metrics([&](const metric_path &p, basic_registered_metric &m) {
                    std::string path; { VF_QUIET; path = path_key(p); v.seen.push_back(Seen{path, "", false, Reading()}); }
                    if (v.what == 1) { m.aggregate([&](const auto &s) { VF_QUIET; v.agg++; v.seen.push_back(Seen{path, "*", true, reading(s)}); }); return; }
                    int n = 0;
                    m.visit([&](const tag_collection &t, const auto &s) { { VF_QUIET; v.seen.push_back(Seen{path, tag_key(t), true, reading(s)}); } if (v.what == 2 && n++ == 1) throw Thrown{1}; });
                });
            }
            catch (const Thrown &) { v.thrown = true; }
            point(); v.ret = stamp();
        }
    }, in);
    std::vector<Op *> ops; for (auto &o : before) ops.push_back(&o); for (auto &v : plan) for (auto &o : v) ops.push_back(&o);
    for (auto &vs : visits) for (auto &v : vs)
    {
        std::map<std::string, int> paths, perms, aggs; std::map<std::string, Reading> said;
        for (auto &s : v.seen) if (!s.tagged) paths[s.path]++; else { (v.what == 1 ? aggs : perms)[s.path + s.tags]++; said[s.path + s.tags] = s.x; }
        for (auto &p : paths) VF_CHECK(p.second == 1, "conc-path-once", "a visit reported %s %d times", p.first.c_str(), p.second);
        for (auto &p : perms) VF_CHECK(p.second == 1, "conc-visit-once", "a visit reported %s %d times", p.first.c_str(), p.second);
        for (auto &p : aggs) VF_CHECK(p.second == 1, "conc-aggregate-once", "aggregating %s called the handler %d times", p.first.c_str(), p.second);
        std::set<std::string> possible, ppossible; for (auto *o : ops) if (o->inv < v.ret) { possible.insert(path_key(o->p) + tag_key(tag_list(o->t))); ppossible.insert(path_key(o->p)); }
        for (auto &p : perms) VF_CHECK(possible.count(p.first), "conc-invented", "a visit reported %s, which was not registered", p.first.c_str());
        for (auto &p : paths) VF_CHECK(ppossible.count(p.first), "conc-invented", "a visit reported %s, which was not registered", p.first.c_str());
        for (auto *o : ops) if (o->ret < v.inv && !v.thrown)
        {
            auto path = path_key(o->p), key = path + tag_key(tag_list(o->t));
            VF_CHECK(paths.count(path), "conc-missed", "a visit didn't report %s, registered before it", path.c_str());
            if (v.what == 1) VF_CHECK(aggs.count(path + "*"), "conc-missed", "aggregating %s called no handler", path.c_str());
            else VF_CHECK(perms.count(key), "conc-missed", "a visit didn't report %s, registered before it", key.c_str());
        }
        // what it showed lies between what was done before and what was started by its end
        if (v.what != 1) for (auto &p : said)
        {
            uint64_t lo = 0, hi = 0; const Kind *k = nullptr; for (auto *o : ops) if (path_key(o->p) + tag_key(tag_list(o->t)) == p.first) { k = &K[(size_t)kind[o->p]]; for (auto &a : o->added) { lo += a.second < v.inv; hi += a.first < v.ret; } }
            if (!k || k->fixed || k->last) continue;
            uint64_t got = k->family == F_SUM ? (uint64_t)p.second.value : p.second.count; if (k->family != F_SUM && k->family != F_HIST && k->family != F_TIMER) continue;
            VF_CHECK(got >= lo && got <= hi, "conc-value", "a visit showed %lu for the %s at %s; %lu updates were done before it and %lu started before its end", (unsigned long)got, k->name.c_str(), p.first.c_str(), (unsigned long)lo, (unsigned long)hi); count("values_bounded");
        }
        count("visits_judged"); count("permutations_visited", perms.size());
    }
    World w; for (auto *o : ops) { auto &e = w.m[{o->p, o->t}]; w.kind[o->p] = kind[o->p]; e.path = o->p; e.tags = o->t; e.kind = kind[o->p]; e.h = o->h; for (size_t i = 0; i < o->added.size(); i++) (*e.all).push_back(1); }
    t::judge(reg, w, r, "afterwards"); t::aggregates(reg, w, r, "afterwards");
}
}}
