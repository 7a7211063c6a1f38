// C24: publisher data is created once per owner and kept
#include "opts.hpp"
#include "reg.hpp"
namespace vf { namespace t {
using namespace cxxmetrics;

struct Tally { std::atomic<int64_t> made{0}, gone{0}, bad{0}; };
inline Tally &tally() { static Tally t; return t; }
// what identifies a piece of data: the arguments it was made from
struct Base : basic_publish_options
{
    int64_t args; std::string text; uint64_t magic = 0xDA7ADA7ADA7AULL; std::atomic<int64_t> writes{0};
    explicit Base(int64_t a = -1, std::string t = "default") : args(a), text(std::move(t)) { VF_QUIET; tally().made.fetch_add(1, std::memory_order_relaxed); }
    Base(const Base &) = delete; Base &operator=(const Base &) = delete;
    ~Base() override { VF_QUIET; if (magic != 0xDA7ADA7ADA7AULL) tally().bad.fetch_add(1, std::memory_order_relaxed); magic = 0; tally().gone.fetch_add(1, std::memory_order_relaxed); }
};
template<int N> struct D : Base { using Base::Base; std::vector<int64_t> own = std::vector<int64_t>((size_t)N + 1, N); };
template<> struct D<2> : Base { D() { } explicit D(int64_t a) : Base(a, "one") { } D(int64_t a, const std::string &t) : Base(a, t) { } D(std::unique_ptr<int64_t> p) : Base(*p, "moved") { } };
template<typename T, typename U> struct Pair : Base { using Base::Base; };
struct Outer { struct D : Base { using Base::Base; }; };
// a data type that derives from another, and one deriving from the publish options
struct Derived : D<0> { using D<0>::D; };

struct P : Pub<Reg> { explicit P(Box &b) : Pub<Reg>(b.r) { } P(const P &) = delete; };
struct PBox { P p; explicit PBox(Box &b) : p(b) { } };
typedef std::pair<int64_t, std::string> Args;
struct Ops
{
    std::function<Base *(P &, const Args &)> global;
    std::function<Base *(P &, const Path &, const Args &)> at;
    std::function<Base *(P &, basic_registered_metric &, const Args &)> on;
    std::function<bool(P &, const Path &)> has_at;
    std::function<bool(P &, const basic_registered_metric &)> has_on;
};
template<typename T> Ops ops()
{
    Ops o;
    o.global = [](P &p, const Args &a) -> Base * { if (a.first < 0) return &p.get_data<T>(); return &p.get_data<T>(a.first, a.second); };
    o.at = [](P &p, const Path &q, const Args &a) -> Base * { if (a.first < 0) return p.get_data_for<T>(q); return p.get_data_for<T>(q, a.first, a.second); };
    o.on = [](P &p, basic_registered_metric &m, const Args &a) -> Base * { if (a.first < 0) return &p.get_data_for<T>(m); return &p.get_data_for<T>(m, a.first, a.second); };
    o.has_at = [](P &p, const Path &q) { return p.has_data_for<T>(q); };
    o.has_on = [](P &p, const basic_registered_metric &m) { return p.has_data_for<T>(m); };
    return o;
}
inline const std::vector<Ops> &types()
{
    static const std::vector<Ops> v{ops<D<0>>(), ops<D<1>>(), ops<D<2>>(), ops<Derived>(), ops<Pair<int, long>>(), ops<Pair<long, int>>(), ops<Outer::D>(), ops<D<77>>()};
    return v;
}
static Args args_of(Rng &r) { if (r.chance(25)) return {-1, "default"}; int64_t n = r.range(0, 1000); return {n, "args " + std::to_string(n)}; }
// what the options are told apart by
static double mark_of(const publish_options &o) { return o.value_options().scale().factor(); }
static publish_options marked(double d) { return publish_options(value_publish_options(scale_factor(d))); }

struct World
{
    Box reg; std::vector<std::unique_ptr<PBox>> pubs; std::map<int, size_t> kind; // by path
    std::map<std::pair<int, size_t>, std::pair<Base *, Args>> data; // by path (or -1) and data type
    std::map<int, double> options; // by path (or -1)
    World(int n) { for (int i = 0; i < n; i++) pubs.emplace_back(new PBox(reg)); }
};
enum { GLOBAL = -1 };
static void judge(World &w, int path, size_t type, Base *got, const Args &a, const char *what)
{
    auto &d = w.data[{path, type}];
    if (!d.first)
    {
        for (auto &x : w.data) VF_CHECK(x.second.first != got, "collision", "%s: data type %zu of path %d is the object of data type %zu of path %d", what, type, path, x.first.second, x.first.first);
        d = {got, a}; VF_CHECK(got->args == a.first && got->text == a.second, "arguments", "%s: data type %zu of path %d was made from %lld %s, expected %lld %s", what, type, path, (long long)got->args, got->text.c_str(), (long long)a.first, a.second.c_str());
    }
    VF_CHECK(got == d.first, "identity", "%s: another object for data type %zu of path %d", what, type, path);
    VF_CHECK(got->args == d.second.first && got->text == d.second.second && got->magic == 0xDA7ADA7ADA7AULL, "content", "%s: data type %zu of path %d changed", what, type, path);
}
static std::string short_name(const std::string &kind) { return kind.substr(0, kind.find('<')); }

VF_SEQ(requests, 6)
{
    int64_t made = tally().made.load(), gone = tally().gone.load(); uint64_t h = 0, n_new = 0, n_old = 0, n_null = 0; const auto &T = types(); const auto &K = kinds::all();
    {
        int nw = r.chance(25) ? 2 : 1; std::vector<std::unique_ptr<World>> ws; for (int i = 0; i < nw; i++) ws.emplace_back(new World((int)r.range(1, 3)));
        int np = (int)r.range(1, 5); std::vector<int> paths; for (int i = 0; i < np; i++) { int p = (int)r.below(120); if (std::find(paths.begin(), paths.end(), p) == paths.end()) paths.push_back(p); }
        size_t nt = (size_t)r.range(1, (int64_t)T.size()); int n = (int)r.range(3, 60);
        for (int k = 0; k < n; k++)
        {
            World &w = *ws[r.below(ws.size())]; P &p = w.pubs[r.below(w.pubs.size())]->p; int path = r.pick(paths); size_t ty = r.below(nt); Args a = args_of(r); int64_t before = tally().made.load(); bool registered = w.kind.count(path) != 0; int what = (int)r.below(12);
            h = mix(h, mix((uint64_t)(what * 64 + path), ty)); int64_t fresh = 0; auto have = [&](int q) { auto it = w.data.find({q, ty}); return it != w.data.end(); };
            VF_NOTE("operation %d path %d (%s) data type %zu", what, path, registered ? "registered" : "not registered", ty);
            switch (what)
            {
            case 0: case 1: { if (!registered) w.kind[path] = r.below(K.size()); auto m = K[w.kind[path]].request(w.reg.r, make_path(r, path), make_tags(r, (int)r.below(64))); if (r.chance(50)) K[w.kind[path]].add(m, 1); break; }
            case 2: fresh = !have(GLOBAL); judge(w, GLOBAL, ty, T[ty].global(p, a), a, "registry data"); break;
            case 3: case 4:
            {
                Base *b = T[ty].at(p, make_path(r, path), a);
                if (!registered) { n_null++; VF_CHECK(!b, "unregistered", "data for a path without a metric"); }
                else { VF_CHECK(b, "missing", "no data for the path of a metric"); fresh = !have(path); judge(w, path, ty, b, a, "metric data by path"); }
                break;
            }
            case 5: case 6:
            {
                int calls = 0; bool del = r.chance(50); bool want = have(path);
                p.visit_one(make_path(r, path), [&](const Path &q, basic_registered_metric &m) {
                    calls++; VF_CHECK(q == make_path(r, path), "visit-one", "visiting a metric gave another path"); VF_CHECK(p.metric_type(m).find(short_name(K[w.kind[path]].name)) != std::string::npos, "metric-type", "the type of a %s is %s", K[w.kind[path]].name.c_str(), p.metric_type(m).c_str());
                    VF_CHECK(T[ty].has_on(p, m) == want, "has-data", "a metric %s data type %zu", want ? "lacks" : "has", ty);
                    if (del) { fresh = !want; Base *b = T[ty].on(p, m, a); judge(w, path, ty, b, a, "metric data by reference"); VF_CHECK(T[ty].has_on(p, m), "has-data", "a metric lacks the data it was just given"); }
                });
                VF_CHECK(calls == (registered ? 1 : 0), "visit-one", "visiting a path %s a metric called the handler %d times", registered ? "with" : "without", calls);
                break;
            }
            case 7: { bool got = T[ty].has_at(p, make_path(r, path)); VF_CHECK(got == have(path), "has-data", "path %d %s data type %zu", path, got ? "has" : "lacks", ty); break; }
            case 8: VF_CHECK(p.has_metric(make_path(r, path)) == registered, "has-metric", "has_metric of a path that is %sregistered", registered ? "" : "not "); VF_CHECK(registered ? p.metric_type(make_path(r, path)).find(short_name(K[w.kind[path]].name)) != std::string::npos : p.metric_type(make_path(r, path)).empty(), "metric-type", "the type at path %d is %s", path, p.metric_type(make_path(r, path)).c_str()); break;
            case 9:
            {
                std::map<std::string, int> seen; std::set<basic_registered_metric *> ms;
                p.visit_all([&](const Path &q, basic_registered_metric &m) { seen[q.join(std::string("\x01"))]++; ms.insert(&m); if (r.chance(30)) for (auto x : paths) if (w.kind.count(x) && make_path(r, x) == q) { bool want = w.data.count({x, ty}) != 0; VF_CHECK(T[ty].has_on(p, m) == want, "has-data", "a visited metric %s data type %zu", want ? "lacks" : "has", ty); } });
                VF_CHECK(seen.size() == w.kind.size() && ms.size() == w.kind.size(), "visit-all", "visiting all gave %zu paths and %zu metrics, expected %zu", seen.size(), ms.size(), w.kind.size()); for (auto &x : seen) VF_CHECK(x.second == 1, "visit-all", "a path was visited %d times", x.second);
                break;
            }
            // the publish options are kept in the same place
            case 10: { double d = (double)r.range(2, 1000); if (r.chance(50)) { w.reg.r.publish_options(marked(d)); w.options[GLOBAL] = d; } else { w.reg.r.publish_options(make_path(r, path), marked(d)); if (registered) w.options[path] = d; } break; }
            default:
                if (registered) p.visit_one(make_path(r, path), [&](const Path &, basic_registered_metric &m) { double want = w.options.count(path) ? w.options[path] : w.options.count(GLOBAL) ? w.options[GLOBAL] : 1; VF_CHECK(mark_of(p.effective_options(m)) == want, "options", "the options of path %d carry %g, expected %g", path, mark_of(p.effective_options(m)), want); VF_CHECK(p.has_data_for<publish_options>(m) == (w.options.count(path) != 0), "has-data", "a metric %s publish options", w.options.count(path) ? "lacks" : "has"); });
                break;
            }
            int64_t built = tally().made.load() - before;
            if (fresh) { n_new++; VF_CHECK(built >= 1, "created", "no data was made"); } else VF_CHECK(built == 0, "created", "operation %d made %lld objects where data was there already or none was asked for", what, (long long)built);
            n_old += what >= 2 && what <= 6 && !fresh;
        }
        for (auto &w : ws) for (auto &x : w->data) { Base *b = x.second.first; VF_CHECK(b->magic == 0xDA7ADA7ADA7AULL && b->args == x.second.second.first, "content", "data was destroyed or changed before its registry"); }
        size_t all = 0; std::set<Base *> distinct; for (auto &w : ws) for (auto &x : w->data) { all++; distinct.insert(x.second.first); } VF_CHECK(distinct.size() == all, "collision", "different owners share data");
        VF_CHECK(tally().made.load() - made - (tally().gone.load() - gone) == (int64_t)all, "lifetime", "%lld objects alive, expected %zu", (long long)(tally().made.load() - made - tally().gone.load() + gone), all);
        sample("%d operations on %zu registries, %d paths, %zu data types: %lu created, %lu returned again, %lu refused", n, ws.size(), np, nt, (unsigned long)n_new, (unsigned long)n_old, (unsigned long)n_null);
        count("operations", (uint64_t)n); count("data_created", n_new); count("data_returned_again", n_old); count("unregistered_queries", n_null); if (n_new) cover(h);
        // publishers going away leaves the data
        for (auto &w : ws) { w->pubs.clear(); P p(w->reg); for (auto x : w->data) { Base *b = x.first.first == GLOBAL ? T[x.first.second].global(p, Args(5, "later")) : T[x.first.second].at(p, make_path(r, x.first.first), Args(5, "later")); judge(*w, x.first.first, x.first.second, b, Args(5, "later"), "a later publisher's request"); } }
    }
    VF_CHECK(tally().bad.load() == 0, "lifetime", "data was destroyed twice"); VF_CHECK(tally().made.load() - made == tally().gone.load() - gone, "lifetime", "%lld objects were left when their registries went away", (long long)(tally().made.load() - made - tally().gone.load() + gone));
}
// arguments that can only be moved, and constructors of several shapes
VF_SEQ(arguments, 1)
{
    Box reg; P p(reg); int path = (int)r.below(64); kinds::all()[r.below(kinds::all().size())].request(reg.r, make_path(r, path), Tags()); int64_t n = r.range(0, 100); int64_t want = 0; std::string text; bool global = r.chance(50); Base *b = nullptr;
    switch (r.below(4))
    {
    case 0: want = -1; text = "default"; b = global ? &p.get_data<D<2>>() : p.get_data_for<D<2>>(make_path(r, path)); break;
    case 1: want = n; text = "one"; b = global ? &p.get_data<D<2>>(n) : p.get_data_for<D<2>>(make_path(r, path), n); break;
    case 2: want = n; text = "two"; { std::string two("two"); b = global ? &p.get_data<D<2>>(n, two) : p.get_data_for<D<2>>(make_path(r, path), n, two); VF_CHECK(two == "two", "arguments", "an argument was moved away"); } break;
    default: { want = n; text = "moved"; std::unique_ptr<int64_t> u(new int64_t(n)); b = global ? &p.get_data<D<2>>(std::move(u)) : p.get_data_for<D<2>>(make_path(r, path), std::move(u)); break; }
    }
    VF_CHECK(b && b->args == want && b->text == text, "arguments", "data was made from %lld %s, expected %lld %s", b ? (long long)b->args : 0, b ? b->text.c_str() : "", (long long)want, text.c_str());
    // arguments that aren't used stay
    std::unique_ptr<int64_t> u(new int64_t(n + 1)); Base *c = global ? &p.get_data<D<2>>(std::move(u)) : p.get_data_for<D<2>>(make_path(r, path), std::move(u)); VF_CHECK(c == b && c->args == want && c->text == text, "identity", "another request gave other data");
    count("operations", 2); cover((uint64_t)n);
}

// ------------------------------------------------------------------------------------------------------------------ concurrent
VF_THREADS(conc, 6)
{
    int64_t made = tally().made.load(), gone = tally().gone.load(); const auto &T = types(); const auto &K = kinds::all(); size_t nt = (size_t)r.range(1, 3); int n = (int)r.range(2, 4), np = (int)r.range(1, 2); uint64_t in = 0;
#ifdef VF_DSCHED
    int per = (int)r.range(1, 5);
#else
    int per = (int)r.range(2, 20);
#endif
    {
        World w(n); bool one = r.chance(50); std::vector<int> paths{(int)r.below(64)}; if (np > 1) paths.push_back(64 + (int)r.below(56)); std::vector<char> early; bool ordinary = r.chance(20); uint64_t builds = 0;
        for (int p : paths) { w.kind[p] = r.below(K.size()); early.push_back(r.chance(75)); if (early.back()) K[w.kind[p]].request(w.reg.r, make_path(r, p), Tags()); }
        struct Op { int what; size_t path, type; Args a; Path where{""}; Base *got; bool has; int64_t before; uint64_t inv, ret; };
        std::vector<std::vector<Op>> plan((size_t)n); int64_t serial = 1000;
        for (auto &v : plan) for (int i = 0; i < per; i++) { Op o; o.what = (int)r.below(ordinary ? 7 : 6); o.path = r.below(paths.size()); o.type = r.below(nt); serial++; o.a = {serial, "args " + std::to_string(serial)}; o.where = make_path(r, paths[o.path]); o.got = nullptr; o.has = false; in = mix(in, mix((uint64_t)o.what, o.type * 4 + o.path)); v.push_back(std::move(o)); }
        std::vector<int> bad((size_t)n, 0);
        run_threads(r, n, [&](int t) {
            P &p = w.pubs[one ? 0 : (size_t)t]->p;
            for (auto &o : plan[(size_t)t])
            {
                point(); o.inv = stamp();
                switch (o.what)
                {
                case 0: o.got = T[o.type].global(p, o.a); break;
                case 1: case 2: o.got = T[o.type].at(p, o.where, o.a); break;
                case 3: p.visit_one(o.where, [&](const Path &, basic_registered_metric &m) { bool b = T[o.type].has_on(p, m); o.got = T[o.type].on(p, m, o.a); o.has = T[o.type].has_on(p, m); if (!o.has) bad[(size_t)t] = 1; if (b && !o.got) bad[(size_t)t] = 1; }); break;
                case 4: o.has = T[o.type].has_at(p, o.where); break;
                case 5: K[w.kind[paths[o.path]]].request(w.reg.r, o.where, Tags()); break;
                default: p.visit_all([&](const Path &, basic_registered_metric &m) { if (p.effective_options(m).value_options().scale()) bad[(size_t)t] = 2; }); break;
                }
                o.ret = stamp();
                // the data may be used as soon as it is had
                if (o.got) { o.got->writes.fetch_add(1, std::memory_order_relaxed); if (o.got->magic != 0xDA7ADA7ADA7AULL || o.got->text != "args " + std::to_string(o.got->args)) bad[(size_t)t] = 3; }
            }
        }, in);
        for (int b : bad) VF_CHECK(!b, b == 1 ? "conc-has-data" : b == 2 ? "conc-options" : "conc-content", "%s", b == 1 ? "a metric lacks data it was given" : b == 2 ? "options that were never set" : "data isn't what it was made as");
        std::map<std::pair<int, size_t>, Base *> obj; std::map<Base *, int64_t> used; std::map<std::pair<int, size_t>, uint64_t> first_done; std::map<std::pair<int, size_t>, std::set<int64_t>> asked; std::map<std::pair<int, size_t>, uint64_t> first_asked; std::map<int, uint64_t> registered;
        for (size_t i = 0; i < paths.size(); i++) if (early[i]) registered[(int)i] = 0;
        for (auto &v : plan) for (auto &o : v) if (o.what == 5) { auto it = registered.find((int)o.path); if (it == registered.end()) registered[(int)o.path] = o.ret; else it->second = std::min(it->second, o.ret); }
        for (auto &v : plan) for (auto &o : v) if (o.what <= 3)
        {
            std::pair<int, size_t> key(o.what == 0 ? GLOBAL : (int)o.path, o.type);
            if (o.what > 0 && !o.got) { VF_CHECK(!registered.count(key.first) || registered[key.first] > o.inv, "conc-missing", "no data for a metric that was registered before"); continue; }
            if (o.what > 0) VF_CHECK(registered.count(key.first), "conc-unregistered", "data for a path that has no metric");
            asked[key].insert(o.a.first); auto &b = obj[key]; if (!b) b = o.got; VF_CHECK(b == o.got, "conc-identity", "two objects for data type %zu of %s", o.type, o.what == 0 ? "the registry" : "a path"); used[o.got]++;
            auto f = first_done.find(key); if (f == first_done.end() || o.ret < f->second) first_done[key] = o.ret; auto s = first_asked.find(key); if (s == first_asked.end() || o.inv < s->second) first_asked[key] = o.inv;
        }
        std::set<Base *> distinct; for (auto &x : obj) VF_CHECK(distinct.insert(x.second).second, "conc-collision", "different owners or types share data");
        // made from the arguments of a request that none was finished before
        for (auto &x : obj)
        {
            bool ok = false; for (auto &v : plan) for (auto &o : v) if (o.what <= 3 && o.got == x.second && o.a.first == x.second->args) ok = o.inv < first_done[x.first] || o.ret == first_done[x.first];
            VF_CHECK(ok, "conc-arguments", "data of type %zu was made from arguments %lld, which is not those of a first request", x.first.second, (long long)x.second->args); VF_CHECK(x.second->writes.load() == used[x.second], "conc-content", "%lld uses of data, expected %lld", (long long)x.second->writes.load(), (long long)used[x.second]);
        }
        for (auto &v : plan) for (auto &o : v) if (o.what == 4)
        {
            std::pair<int, size_t> key((int)o.path, o.type); bool sure = first_done.count(key) && first_done[key] < o.inv, never = !first_asked.count(key) || first_asked[key] > o.ret;
            VF_CHECK(!(sure && !o.has), "conc-has-data", "data isn't seen after it was made"); VF_CHECK(!(never && o.has), "conc-has-data", "data is seen before it was asked for");
        }
        VF_CHECK(tally().made.load() - made == (int64_t)obj.size(), "conc-created", "%lld objects were made, expected %zu", (long long)(tally().made.load() - made), obj.size());
        P p(w.reg); for (auto &x : obj) { Base *b = x.first.first == GLOBAL ? T[x.first.second].global(p, Args(1, "x")) : T[x.first.second].at(p, make_path(r, paths[(size_t)x.first.first]), Args(1, "x")); VF_CHECK(b == x.second, "conc-identity", "another object for data afterwards"); builds++; }
        count("operations", (uint64_t)(n * per)); count("data_created", obj.size());
        if (want_sample()) sample("%d threads, %d requests each over %zu paths and %zu data types: %zu objects made", n, per, paths.size(), nt, obj.size());
    }
    VF_CHECK(tally().bad.load() == 0, "lifetime", "data was destroyed twice"); VF_CHECK(tally().made.load() - made == tally().gone.load() - gone, "lifetime", "data was left when its registry went away");
}
}}
