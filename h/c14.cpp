// C14: a path and tag set always name one and the same metric
#include "reg.hpp"
namespace vf { namespace t {
using namespace cxxmetrics;

struct Model
{
    std::map<int, int> kind;                       // path -> kind that registered it
    std::map<std::pair<int, int>, Handle> metric;  // path, tags -> metric
};
static void contents(Box &reg, const Model &m, const char *when)
{
    std::map<std::string, int> want, got; for (auto &k : m.kind) { std::string s; for (auto &x : path_parts(k.first)) s += x + "/"; want[s] = k.second; }
    size_t perms = 0, expect = m.metric.size(), paths = 0;
    reg.r.visit_registered_metrics([&](const metric_path &p, basic_registered_metric &x) {
        std::string s; for (auto &q : p) s += q + "/";
        paths++; auto it = want.find(s); VF_CHECK(it != want.end(), "unchanged", "%s: the registry has a metric at %s that was never registered", when, s.c_str()); got[s]++;
        VF_CHECK(x.type() == kinds::all()[(size_t)it->second].fresh()->metric_type(), "type", "%s: the metric at %s is a %s", when, s.c_str(), x.type().c_str());
        x.visit([&](const tag_collection &, const auto &) { perms++; });
    });
    VF_CHECK(paths == want.size() && got.size() == want.size(), "unchanged", "%s: %zu paths in the registry, %zu were registered", when, paths, want.size());
    VF_CHECK(perms == expect, "unchanged", "%s: %zu metrics in the registry, %zu were registered", when, perms, expect);
}
// one request by a thread or a sequence; 0: got it, 1: mismatch
struct Answer { bool mismatch = false; Handle h; bool added = false; std::string existing, desired; };
static Answer ask(Box &reg, Rng &r, const Kind &k, int path, int tags)
{
    Answer a;
    try { a.h = k.request(reg.r, make_path(r, path), make_tags(r, tags)); }
    catch (const metric_type_mismatch &e) { a.mismatch = true; a.existing = e.existing_metric_type(); a.desired = e.desired_metric_type(); }
    return a;
}
static Answer put(Box &reg, Rng &r, const Kind &k, int path, int tags, const Handle &h)
{
    Answer a; a.h = h;
    try { a.added = k.existing(reg.r, make_path(r, path), h, make_tags(r, tags)); }
    catch (const metric_type_mismatch &e) { a.mismatch = true; a.existing = e.existing_metric_type(); a.desired = e.desired_metric_type(); }
    return a;
}
static std::string type_of(int k) { static std::map<int, std::string> m; auto &s = m[k]; if (s.empty()) s = kinds::all()[(size_t)k].fresh()->metric_type(); return s; }

VF_SEQ(histories, 6)
{
    const auto &K = kinds::all(); Box reg; Model m; int npaths = (int)r.range(1, 12), ntags = (int)r.range(1, 8), steps = (int)r.range(5, 120); bool wide = r.chance(20); uint64_t h = 3, mism = 0, hits = 0, adds = 0;
    std::vector<int> pp, tt, kk; for (int i = 0; i < npaths; i++) pp.push_back((int)r.below(600)); for (int i = 0; i < ntags; i++) tt.push_back((int)r.below(wide ? 4000 : 64)); for (int i = 0, n = (int)r.range(1, 6); i < n; i++) kk.push_back((int)r.below(K.size()));
    std::map<internal::metric *, std::pair<int, int>> owner; std::set<internal::metric *> shared;
    for (int s = 0; s < steps; s++)
    {
        int p = r.pick(pp), t = r.pick(tt), k = r.chance(60) && m.kind.count(p) ? m.kind[p] : r.pick(kk); auto key = std::make_pair(p, t); bool known = m.kind.count(p); const Kind &kd = K[(size_t)k];
        h = mix(h, mix(mix((uint64_t)p, (uint64_t)t), (uint64_t)k));
        int what = (int)r.below(10); Answer a; Handle mine;
        if (what < 7) { a = ask(reg, r, kd, p, t); VF_NOTE("request %s at path %d tags %d", kd.name.c_str(), p, t); }
        else if (what < 9)
        {
            mine = r.chance(20) && !m.metric.empty() ? [&] { auto it = m.metric.begin(); std::advance(it, (long)r.below(m.metric.size())); if (m.kind[it->first.first] == k) { shared.insert(it->second.get()); return it->second; } return kd.fresh(); }() : kd.fresh();
            a = put(reg, r, kd, p, t, mine); VF_NOTE("register a %s at path %d tags %d", kd.name.c_str(), p, t);
        }
        else { bool b; try { b = kd.null(reg.r, make_path(r, p), make_tags(r, t)); } catch (const metric_type_mismatch &) { VF_CHECK(known && m.kind[p] != k, "mismatch", "registering nothing threw a mismatch"); b = false; } VF_CHECK(!b, "register-null", "registering no metric reported it as added"); h = mix(h, 5); if (r.chance(30)) contents(reg, m, "after registering nothing"); continue; }
        if (known && m.kind[p] != k)
        {
            VF_CHECK(a.mismatch, "mismatch", "a %s was asked for at a path that holds a %s, and no mismatch was thrown", kd.name.c_str(), K[(size_t)m.kind[p]].name.c_str());
            VF_CHECK(a.existing == type_of(m.kind[p]) && a.desired == type_of(k), "mismatch-types", "the mismatch names %s and %s, expected %s and %s", a.existing.c_str(), a.desired.c_str(), type_of(m.kind[p]).c_str(), type_of(k).c_str());
            mism++; if (r.chance(30)) contents(reg, m, "after a mismatch"); continue;
        }
        VF_CHECK(!a.mismatch, "mismatch", "a %s was asked for at a path that holds a %s, and a mismatch of %s and %s was thrown", kd.name.c_str(), known ? K[(size_t)m.kind[p]].name.c_str() : "nothing", a.existing.c_str(), a.desired.c_str());
        m.kind[p] = k; auto it = m.metric.find(key);
        if (mine)
        {
            VF_CHECK(a.added == (it == m.metric.end()), "register", "registering an existing metric %s reported %s", it == m.metric.end() ? "at a free place" : "where there is one", a.added ? "added" : "not added");
            if (a.added) { m.metric[key] = mine; adds++; auto again = ask(reg, r, kd, p, t); VF_CHECK(again.h == mine, "register", "the metric registered isn't the one returned"); owner.emplace(mine.get(), key); }
        }
        else
        {
            VF_CHECK(a.h != nullptr, "identity", "no metric was returned");
            VF_CHECK(a.h->metric_type() == type_of(k), "type", "a %s was asked for, a %s returned", kd.name.c_str(), a.h->metric_type().c_str());
            if (it != m.metric.end()) { VF_CHECK(it->second == a.h, "identity", "two metrics at the same path and tags (%s)", tag_key(tag_list(t)).c_str()); hits++; }
            else
            {
                auto o = owner.find(a.h.get()); VF_CHECK(o == owner.end(), "identity", "paths %d and %d with tags %s and %s share a metric", p, o == owner.end() ? 0 : o->second.first, tag_key(tag_list(t)).c_str(), o == owner.end() ? "" : tag_key(tag_list(o->second.second)).c_str());
                owner.emplace(a.h.get(), key); m.metric[key] = a.h;
            }
        }
        if (r.chance(5)) contents(reg, m, "along the way");
    }
    contents(reg, m, "at the end");
    // the registry keeps them alive by itself
    std::map<std::pair<int, int>, internal::metric *> raw; std::map<std::pair<int, int>, std::weak_ptr<internal::metric>> weak; for (auto &x : m.metric) { raw[x.first] = x.second.get(); weak[x.first] = x.second; }
    m.metric.clear(); for (auto &x : weak) { auto l = x.second.lock(); VF_CHECK(l != nullptr, "lifetime", "the registry let go of a metric"); VF_CHECK(ask(reg, r, K[(size_t)m.kind[x.first.first]], x.first.first, x.first.second).h == l, "identity", "another metric at the same path and tags at the end"); }
    count("requests", (uint64_t)steps); count("mismatches", mism); count("found_again", hits); count("registered_existing", adds);
    if (raw.size() > 1) cover(h);
    sample("%d requests over %zu paths: %zu metrics, %lu found again, %lu mismatches, %lu registered existing", steps, m.kind.size(), raw.size(), (unsigned long)hits, (unsigned long)mism, (unsigned long)adds);
}
// every kind against every other at one path
VF_SEQ(type_pairs, 2)
{
    const auto &K = kinds::all(); Box reg; int a = (int)r.below(K.size()); int t = (int)r.below(64); auto first = r.chance(70) ? ask(reg, r, K[(size_t)a], 9, t).h : [&] { auto h = K[(size_t)a].fresh(); put(reg, r, K[(size_t)a], 9, t, h); return h; }();
    std::vector<int> order(K.size()); std::iota(order.begin(), order.end(), 0); std::shuffle(order.begin(), order.end(), std::mt19937_64(r.u64()));
    for (int b : order)
    {
        auto x = r.chance(70) ? ask(reg, r, K[(size_t)b], 9, r.chance(50) ? t : (int)r.below(64)) : put(reg, r, K[(size_t)b], 9, t, K[(size_t)b].fresh());
        VF_CHECK(x.mismatch == (a != b), "mismatch", "%s asked for where a %s is: %s", K[(size_t)b].name.c_str(), K[(size_t)a].name.c_str(), x.mismatch ? "mismatch" : "no mismatch");
        if (x.mismatch) VF_CHECK(x.existing == type_of(a) && x.desired == type_of(b), "mismatch-types", "the mismatch names %s and %s, expected %s and %s", x.existing.c_str(), x.desired.c_str(), type_of(a).c_str(), type_of(b).c_str());
        cover(mix((uint64_t)a, (uint64_t)b)); count("type_pairs");
    }
    VF_CHECK(ask(reg, r, K[(size_t)a], 9, t).h == first, "identity", "another metric after mismatches");
}
// an initial value counts once
VF_SEQ(initial_values, 1)
{
    Box reg; int64_t a = r.wide(50), b = r.wide(50); int t = (int)r.below(64);
    auto c = reg.r.counter<int64_t>(make_path(r, 3), (int64_t)a, make_tags(r, t)); auto d = reg.r.counter<int64_t>(make_path(r, 3), (int64_t)b, make_tags(r, t)); auto e = reg.r.counter<int64_t>(make_path(r, 3), make_tags(r, t));
    VF_CHECK(c == d && c == e, "identity", "three counters at one place"); VF_CHECK(c->value() == a, "initial-value", "a counter registered with %lld has %lld", (long long)a, (long long)c->value());
    auto g = reg.r.gauge<double>(make_path(r, 4), (double)a, make_tags(r, t)); auto g2 = reg.r.gauge<double>(make_path(r, 4), (double)b, make_tags(r, t)); VF_CHECK(g == g2 && g->get() == (double)a, "initial-value", "a gauge registered with %g has %g", (double)a, g->get());
    cover(mix((uint64_t)a, (uint64_t)b)); count("requests", 5);
}
// the same windows written in another order, or repeatedly, are no other type
VF_SEQ(same_windows, 1)
{
    using std::chrono::steady_clock; typedef simple_reservoir<steady_clock::duration, 8> Res; Box reg; int t = (int)r.below(64); std::vector<Handle> got[2]; std::vector<std::function<void(int64_t)>> give[2]; std::vector<std::function<double()>> mean; std::vector<std::function<uint64_t()>> number;
    int first = (int)r.below(6), steps = (int)r.range(2, 10); int64_t total = 0; uint64_t n = 0, h = (uint64_t)first;
    auto meters = [&](auto m) { got[0].push_back(m); give[0].push_back([m](int64_t v) { m->mark(v); }); VF_CHECK(r.chance(50) || m->template rate<time::minutes(1)>().period == std::chrono::minutes(1), "windows", "a meter lost a window"); };
    auto timers = [&](auto m) { got[1].push_back(m); give[1].push_back([m](int64_t v) { m->update(std::chrono::nanoseconds(v)); }); number.push_back([m] { return m->count(); }); };
    try
    {
        for (int s = 0; s < steps; s++)
        {
            int w = s ? (int)r.below(6) : first; bool existing = r.chance(25); h = mix(h, (uint64_t)w * 2 + existing);
#define VF_W(...) if (existing) { reg.r.register_existing(make_path(r, 5), std::make_shared<meter<time::seconds(1), __VA_ARGS__>>(), make_tags(r, t)); reg.r.register_existing(make_path(r, 6), std::make_shared<timer<time::seconds(1), steady_clock, Res, __VA_ARGS__>>(), make_tags(r, t)); } meters(reg.r.meter<time::seconds(1), __VA_ARGS__>(make_path(r, 5), make_tags(r, t))); timers(reg.r.timer<time::seconds(1), steady_clock, Res, __VA_ARGS__>(make_path(r, 6), Res(), make_tags(r, t)));
            switch (w)
            {
            case 0: VF_W(time::minutes(1), time::minutes(5), time::minutes(15)) break;
            case 1: VF_W(time::minutes(15), time::minutes(5), time::minutes(1)) break;
            case 2: VF_W(time::minutes(5), time::minutes(1), time::minutes(15)) break;
            case 3: VF_W(time::minutes(1), time::minutes(1), time::minutes(15), time::minutes(5)) break;
            case 4: VF_W(time::seconds(300), time::minutes(15), time::seconds(60), time::minutes(15)) break;
            default: VF_W(time::minutes(15), time::minutes(1), time::minutes(5)) break;
            }
#undef VF_W
            int64_t v = (int64_t)r.range(1, 1000); give[0].back()(v); give[1][r.below(give[1].size())](v); total += v; n++;
        }
    }
    catch (const metric_type_mismatch &e) { VF_CHECK(false, "same-windows", "the same windows in another order are another type: %s and %s", e.existing_metric_type().c_str(), e.desired_metric_type().c_str()); }
    for (auto &g : got) for (auto &x : g) VF_CHECK(x == g[0], "same-windows", "the same windows in another order gave another metric");
    for (auto &x : number) VF_CHECK(x() == n, "same-windows", "a timer asked for with its windows in another order counts %llu of %llu", (unsigned long long)x(), (unsigned long long)n);
    int seen = 0; reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit([&](const tag_collection &, const auto &s) { (void)s; seen++; }); });
    VF_CHECK(seen == 2, "same-windows", "%d metrics for the same windows in different orders, expected a meter and a timer", seen);
    bool mm = false; try { reg.r.meter<time::seconds(1), time::minutes(1), time::minutes(5)>(make_path(r, 5), make_tags(r, t)); } catch (const metric_type_mismatch &) { mm = true; }
    VF_CHECK(mm, "mismatch", "a meter with fewer windows was given one with more");
    count("requests", (uint64_t)steps * 2); cover(h);
}
// tags that happen to have one hash are different tags all the same
VF_SEQ(same_hash, 1)
{
    static const char *const names[] = {"a", "b", "host", "zone", "n", "port"}; size_t i = r.below(6), j = (i + 1 + r.below(5)) % 6; int64_t base = r.chance(50) ? 0 : r.range(0, 1000000), step = r.chance(70) ? 1 : r.range(1, 1000); int side = (int)r.range(16, 48);
    auto make = [&](int x, int y) { return Tags{{names[i], cxxmetrics::metric_value(base + step * x)}, {names[j], cxxmetrics::metric_value(base + step * y)}}; };
    std::unordered_map<size_t, std::vector<std::pair<int, int>>> by; for (int x = 0; x < side; x++) for (int y = 0; y < side; y++) by[std::hash<Tags>()(make(x, y))].push_back({x, y});
    Box reg; std::map<std::pair<int, int>, std::shared_ptr<counter<int64_t>>> at; std::set<internal::metric *> all; uint64_t groups = 0, h = mix((uint64_t)i * 8 + j, (uint64_t)base);
    for (auto &g : by)
    {
        if (g.second.size() < 2 || groups >= 12) continue; groups++;
        for (auto &p : g.second) { auto c = reg.r.counter<int64_t>(Path("collide"), make(p.first, p.second)); VF_CHECK(all.insert(c.get()).second, "shared", "tags %s=%lld %s=%lld gave a metric of other tags", names[i], (long long)(base + step * p.first), names[j], (long long)(base + step * p.second)); *c += 1 + p.first * 1000 + p.second; at[p] = c; h = mix(h, (uint64_t)(p.first * 64 + p.second)); }
    }
    for (auto &p : at) VF_CHECK(reg.r.counter<int64_t>(Path("collide"), make(p.first.first, p.first.second)) == p.second && p.second->value() == 1 + p.first.first * 1000 + p.first.second, "identity", "the metric at %s=%lld %s=%lld is another or was added to by others", names[i], (long long)(base + step * p.first.first), names[j], (long long)(base + step * p.first.second));
    size_t seen = 0; std::set<std::string> keys; reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit([&](const tag_collection &t, const auto &) { seen++; keys.insert(tag_key(t)); }); });
    VF_CHECK(seen == at.size() && keys.size() == at.size(), "unchanged", "%zu metrics visited with %zu tag sets, %zu registered", seen, keys.size(), at.size());
    count("requests", at.size() * 2); count("same_hash_tags", at.size()); cover(h);
}
// a repository of one's own, which adds tags to those asked for
struct TaggingRepo : default_repository
{
    TagList common; size_t asked = 0;
    TaggingRepo(const TagList &c, int) : common(c) { }
    tag_collection tags(const tag_collection &t) { asked++; std::map<std::string, metric_value> m; for (auto &x : t) m.emplace(x.first, x.second); for (auto &x : common) m.emplace(x.first, x.second); return tag_collection(m); }
};
VF_SEQ(own_repository, 1)
{
    TagList common = tag_list((int)r.below(1024)); metrics_registry<TaggingRepo> repo(common, 1);
    auto effective = [&](int t) { std::map<std::string, metric_value> m; for (auto &x : tag_list(t)) m.emplace(x.first, x.second); for (auto &x : common) m.emplace(x.first, x.second); return tag_key(m); };
    std::map<std::string, Handle> model[4]; uint64_t h = 5; int steps = (int)r.range(3, 25); size_t metrics = 0;
    for (int s = 0; s < steps; s++)
    {
        int k = (int)r.below(4), t = (int)r.below(r.chance(50) ? 8 : 1024); auto key = effective(t); auto tags = make_tags(r, t); auto &m = model[k]; auto it = m.find(key); Handle got; bool given = r.chance(30), added = false; h = mix(h, (uint64_t)(k * 2000 + t));
        if (given) switch (k)
        {
        case 0: { auto x = std::make_shared<counter<int64_t>>(); got = x; added = repo.register_existing("k0", x, tags); break; }
        case 1: { auto x = std::make_shared<meter<time::seconds(1), time::minutes(1)>>(); got = x; added = repo.register_existing("k1", x, tags); break; }
        case 2: { auto x = std::make_shared<histogram<int64_t, simple_reservoir<int64_t, 4>>>(); got = x; added = repo.register_existing("k2", x, tags); break; }
        default: { auto x = std::make_shared<gauge<double>>(); got = x; added = repo.register_existing("k3", x, tags); }
        }
        else switch (k)
        {
        case 0: got = repo.counter<int64_t>("k0", tags); break;
        case 1: got = repo.meter<time::seconds(1), time::minutes(1)>("k1", tags); break;
        case 2: got = repo.histogram<simple_reservoir<int64_t, 4>>("k2", simple_reservoir<int64_t, 4>(), tags); break;
        default: got = repo.gauge<double>("k3", 0.0, tags);
        }
        if (given) VF_CHECK(added == (it == m.end()), "added", "registering an existing metric with tags that make %s in a repository of one's own said %d, %s", key.c_str(), (int)added, it == m.end() ? "nothing was there" : "there was one");
        else if (it != m.end()) VF_CHECK(got == it->second, "identity", "another metric for tags that make %s in a repository of one's own", key.c_str());
        if (it == m.end()) { for (auto &mm : model) for (auto &x : mm) VF_CHECK(x.second != got, "shared", "tags that make %s share a metric with %s", key.c_str(), x.first.c_str()); m[key] = got; metrics++; }
        count("requests");
    }
    size_t seen = 0; std::map<std::string, int> visited; repo.visit_registered_metrics([&](const metric_path &p, basic_registered_metric &m) { m.visit([&](const tag_collection &t, const auto &) { seen++; visited[*p.begin() + tag_key(t)]++; }); });
    VF_CHECK(seen == metrics, "unchanged", "%zu metrics visited, %zu registered", seen, metrics);
    for (int k = 0; k < 4; k++) for (auto &x : model[k]) VF_CHECK(visited["k" + std::to_string(k) + x.first] == 1, "identity", "the metric registered with tags that make %s is not visited with them", x.first.c_str());
    cover(h);
}
// very many at once
VF_SEQ(large, 1)
{
    if (!r.chance(8)) { cover(0); return; }
    Box reg; std::map<std::pair<int, int>, Handle> m; std::set<internal::metric *> all; int n = (int)r.range(500, 3000); int paths = (int)r.range(1, 200);
    for (int i = 0; i < n; i++) { int p = (int)r.below((uint64_t)paths), t = (int)r.below(200000); auto a = ask(reg, r, kinds::all()[0], p, t).h; auto &x = m[{p, t}]; if (x) VF_CHECK(x == a, "identity", "two metrics at one place"); else { VF_CHECK(all.insert(a.get()).second, "identity", "two places share a metric"); x = a; } }
    for (auto &x : m) VF_CHECK(ask(reg, r, kinds::all()[0], x.first.first, x.first.second).h == x.second, "identity", "another metric at the same path and tags");
    count("requests", (uint64_t)n + m.size()); cover((uint64_t)n);
}

// ------------------------------------------------------------------------------------------------------------- concurrent
VF_THREADS(conc, 6)
{
    const auto &K = kinds::all(); std::unique_ptr<Box> regp(new Box); Box &reg = *regp; int n = (int)r.range(2, 4), np = (int)r.range(1, 3), nt = (int)r.range(1, 3), nk = (int)r.range(1, 3); uint64_t in = (uint64_t)n;
#ifdef VF_DSCHED
    int per = (int)r.range(1, 4);
#else
    int per = (int)r.range(2, 12);
#endif
    std::vector<int> pp, tt, kk; for (int i = 0; i < np; i++) pp.push_back((int)r.below(100)); for (int i = 0; i < nt; i++) tt.push_back((int)r.below(64)); for (int i = 0; i < nk; i++) kk.push_back((int)r.below(K.size()));
    struct Op { int p, t, k; Handle mine; Path path{""}; Tags tags; Answer a; bool done = false; };
    std::vector<std::vector<Op>> plan((size_t)n);
    for (auto &v : plan) for (int i = 0; i < per; i++)
    {
        Op o; o.p = r.pick(pp); o.t = r.pick(tt); o.k = r.pick(kk); if (r.chance(25)) o.mine = K[(size_t)o.k].fresh(); o.path = make_path(r, o.p); o.tags = make_tags(r, o.t);
        in = mix(in, mix((uint64_t)(o.p * 4096 + o.t), (uint64_t)(o.k * 2 + !!o.mine))); v.push_back(std::move(o));
    }
    // some of it there already
    std::map<int, int> kind; std::map<std::pair<int, int>, Handle> metric; int pre = (int)r.below(3);
    for (int i = 0; i < pre; i++) { int p = r.pick(pp), t = r.pick(tt), k = kind.count(p) ? kind[p] : r.pick(kk); metric[{p, t}] = ask(reg, r, K[(size_t)k], p, t).h; kind[p] = k; }
    run_threads(r, n, [&](int i) {
        for (auto &o : plan[(size_t)i])
        {
            const Kind &k = K[(size_t)o.k]; point();
            try
            {
                if (o.mine) o.a.added = k.existing(reg.r, o.path, o.mine, o.tags);
                else { o.a.h = k.request(reg.r, o.path, o.tags); k.add(o.a.h, 1); }
            }
            catch (const metric_type_mismatch &e) { o.a.mismatch = true; o.a.existing = e.existing_metric_type(); o.a.desired = e.desired_metric_type(); }
        }
    }, in);
    // one kind won each path
    uint64_t mism = 0; std::map<std::pair<int, int>, Handle> adder; std::map<std::pair<int, int>, int> added;
    for (auto &v : plan) for (auto &o : v) if (!o.a.mismatch) { auto it = kind.find(o.p); if (it == kind.end()) kind[o.p] = o.k; else VF_CHECK(it->second == o.k, "conc-type", "a path gave both a %s and a %s", K[(size_t)it->second].name.c_str(), K[(size_t)o.k].name.c_str()); }
    for (auto &v : plan) for (auto &o : v)
    {
        auto key = std::make_pair(o.p, o.t);
        if (o.a.mismatch)
        {
            mism++; VF_CHECK(kind.count(o.p) && kind[o.p] != o.k, "conc-mismatch", "a mismatch was thrown for a %s where %s is", K[(size_t)o.k].name.c_str(), kind.count(o.p) ? K[(size_t)kind[o.p]].name.c_str() : "nothing");
            VF_CHECK(o.a.existing == type_of(kind[o.p]) && o.a.desired == type_of(o.k), "conc-mismatch-types", "the mismatch names %s and %s, expected %s and %s", o.a.existing.c_str(), o.a.desired.c_str(), type_of(kind[o.p]).c_str(), type_of(o.k).c_str());
            continue;
        }
        if (o.mine) { if (o.a.added) { VF_CHECK(!added[key]++, "conc-register", "two metrics were added at one place"); VF_CHECK(!metric.count(key) || metric[key] == o.mine, "conc-register", "a metric was added where another was returned"); metric[key] = o.mine; } else adder[key] = o.mine; }
        else { auto it = metric.find(key); if (it == metric.end()) metric[key] = o.a.h; else VF_CHECK(it->second == o.a.h, "conc-identity", "two metrics for the same path and tags"); }
    }
    for (auto &x : adder) VF_CHECK(metric.count(x.first) && metric[x.first] != x.second, "conc-register", "a metric wasn't added though there was none at its place");
    std::set<internal::metric *> distinct; for (auto &x : metric) VF_CHECK(distinct.insert(x.second.get()).second, "conc-identity", "two places share a metric");
    for (auto &x : metric) VF_CHECK(ask(reg, r, K[(size_t)kind[x.first.first]], x.first.first, x.first.second).h == x.second, "conc-identity", "another metric for the same path and tags afterwards");
    Model m; m.kind = kind; m.metric = metric; t::contents(reg, m, "after concurrent registration");
    count("requests", (uint64_t)(n * per)); count("mismatches", mism);
}
}}
