// C28: a failed operation changes nothing
#include "mem.hpp"
#include "prom.hpp"
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace std::chrono;

// what user code throws
struct Bomb { int id; };
struct Fuse { int left = 0; uint64_t hit = 0; };
inline Fuse &fuse() { static thread_local Fuse f; return f; }
inline void boom() { auto &f = fuse(); if (f.left && !--f.left) { f.hit++; throw Bomb{77}; } }
// a reservoir that may fail to be copied or moved
template<typename T> struct Touchy : simple_reservoir<T, 8>
{
    typedef simple_reservoir<T, 8> base;
    Touchy() { }
    Touchy(const Touchy &o) : base(o) { boom(); }
    Touchy(Touchy &&o) : base(o) { boom(); }
    Touchy &operator=(const Touchy &o) { boom(); base::operator=(o); return *this; }
};
// a clock that may not start
struct Fickle : steady_clock { typedef steady_clock::duration duration; typedef steady_clock::time_point time_point; };
// a metric of one's own, which may fail to be made
struct Own : metric<Own> { int64_t v; explicit Own(int64_t x = 0) : v(x) { } cumulative_value_snapshot snapshot() const { return cumulative_value_snapshot(metric_value(v)); } };
// data that may fail to be made
struct Data : basic_publish_options
{
    int64_t id; std::string text; std::vector<int64_t> more;
    explicit Data(int64_t i = -1, const std::string &t = "none") : id(i), text(t), more(10, i) { boom(); }
    Data(const Data &) = delete;
};
struct Other : Data { using Data::Data; };

static const std::vector<Kind> &all()
{
    static const std::vector<Kind> v = [] {
        std::vector<Kind> k = kinds::all(); using namespace kinds;
        k.push_back(make_hist<Touchy<int64_t>>("histogram<touchy<int64>>", 8)); k.push_back(make_hist<Touchy<double>>("histogram<touchy<double>>", 8));
        k.push_back(make_timer<1_sec, steady_clock, Touchy<nanoseconds>, 1_min>("timer<1s,steady,touchy>", 8)); k.push_back(make_timer<1_sec, Fickle, Touchy<nanoseconds>>("timer<1s,fickle,touchy>", 8));
        return k;
    }();
    return v;
}
static bool touchy(size_t k) { return k + 4 >= all().size(); }
static Path path_of(Rng &r, int i) { auto p = path_parts(i); p.push_back("some longer part of a path number " + std::to_string(i)); return make_path(r, p); }
static std::string path_name(int i) { auto p = path_parts(i); p.push_back("some longer part of a path number " + std::to_string(i)); std::string s; for (auto &x : p) s += x + "/"; return s; }
static Tags tags_of(Rng &r, int i)
{
    // with names that don't fit where small ones are kept
    auto l = tag_list(i); l.emplace_back("a_name_of_some_length_or_other", metric_value((int64_t)i));
    std::shuffle(l.begin(), l.end(), std::mt19937_64(r.u64())); return Tags(l);
}
static std::string tags_name(int i) { Rng r(1); return tag_key(tags_of(r, i)); }

struct Publisher : cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type>
{
    explicit Publisher(Box &b) : cxxmetrics_prometheus::prometheus_publisher<Reg::repository_type>(b.r) { }
    template<typename T> Data *global(int64_t i, const std::string &t) { return &this->template get_data<T>(i, t); }
    template<typename T> Data *at(const Path &p, int64_t i, const std::string &t) { return this->template get_data_for<T>(p, i, t); }
    template<typename T> bool has(const Path &p) const { return this->template has_data_for<T>(p); }
    bool known(const Path &p) const { return this->has_metric(p); }
    template<typename F> void each(F &&f) { this->visit_all(std::forward<F>(f)); }
    template<typename F> void one(const Path &p, F &&f) { this->visit_one(p, std::forward<F>(f)); }
    double factor(basic_registered_metric &m) { return this->effective_options(m).value_options().scale().factor(); }
};
static std::string text_of(Publisher &p)
{
    std::ostringstream s; p.write(s); std::vector<std::string> l; std::istringstream in(s.str()); std::string x; while (std::getline(in, x)) l.push_back(x);
    std::sort(l.begin(), l.end()); std::string t; for (auto &y : l) t += y + "\n"; return t;
}
// a stream whose end comes early
struct Short : std::streambuf
{
    size_t left; bool throws; std::string got;
    Short(size_t n, bool t) : left(n), throws(t) { }
    int_type overflow(int_type c) override { if (!left) { if (throws) throw Bomb{78}; return traits_type::eof(); } --left; got += (char)c; return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { for (std::streamsize i = 0; i < n; i++) if (overflow((unsigned char)s[i]) == traits_type::eof()) return i; return n; }
};

struct Place { size_t kind = 0; bool sure = false; double factor = 1; std::map<int, Handle> perms; std::map<int, Reading> says; };
struct World
{
    Box reg; Publisher pub; std::map<int, Place> at; std::map<std::pair<int, int>, std::pair<Data *, int64_t>> data; double factor = 1;
    World() : pub(reg) { }
};
static Data *data(World &w, Rng &r, int path, int type, int64_t id, const std::string &text)
{
    if (path < 0) return type ? w.pub.global<Other>(id, text) : w.pub.global<Data>(id, text);
    auto p = path_of(r, path); return type ? w.pub.at<Other>(p, id, text) : w.pub.at<Data>(p, id, text);
}
static void intact(World &w, Rng &r, const char *when)
{
    const auto &K = all(); std::map<std::string, int> want; for (auto &x : w.at) want[path_name(x.first)] = x.first; std::set<int> seen;
    w.reg.r.visit_registered_metrics([&](const metric_path &p, basic_registered_metric &m) {
        std::string s; for (auto &q : p) s += q + "/"; auto it = want.find(s); VF_CHECK(it != want.end(), "intact", "%s: there is a metric at %s, which nobody asked for", when, s.c_str()); Place &pl = w.at[it->second];
        VF_CHECK(seen.insert(it->second).second, "intact", "%s: %s is visited twice", when, s.c_str());
        VF_CHECK(m.type() == K[pl.kind].fresh()->metric_type(), "intact", "%s: what's at %s is a %s", when, s.c_str(), m.type().c_str());
        std::map<std::string, int> tags; for (auto &x : pl.perms) tags[tags_name(x.first)] = x.first; size_t n = 0;
        m.visit([&](const tag_collection &t, const auto &snap) { auto i = tags.find(tag_key(t)); VF_CHECK(i != tags.end(), "intact", "%s: there is a metric at %s with the tags %s", when, s.c_str(), tag_key(t).c_str()); n++; auto x = reading(snap);
            VF_CHECK(x == pl.says[i->second], "intact", "%s: the %s at %s reads %s, it did %s", when, K[pl.kind].name.c_str(), s.c_str(), x.text().c_str(), pl.says[i->second].text().c_str()); });
        VF_CHECK(n == pl.perms.size(), "intact", "%s: %zu metrics at %s, there were %zu", when, n, s.c_str(), pl.perms.size());
        double f = pl.factor != 1 ? pl.factor : w.factor; VF_CHECK(w.pub.factor(m) == f, "intact", "%s: the options of %s have changed", when, s.c_str());
    });
    for (auto &x : w.at) VF_CHECK(seen.count(x.first) || !x.second.sure, "intact", "%s: what's at %s is not visited", when, path_name(x.first).c_str());
    for (auto &x : w.at) for (auto &p : x.second.perms) VF_CHECK(K[x.second.kind].request(w.reg.r, path_of(r, x.first), tags_of(r, p.first)) == p.second, "intact", "%s: another metric at %s with the tags %s", when, path_name(x.first).c_str(), tags_name(p.first).c_str());
    for (auto &d : w.data) { Data *x = data(w, r, d.first.first, d.first.second, -5, "a later request"); VF_CHECK(x == d.second.first && x->id == d.second.second, "intact", "%s: the data of path %d is another one", when, d.first.first); }
    count("worlds_compared");
}
// runs what may fail; what it threw
template<typename F> int attempt(int64_t block, int copy, F &&f)
{
    shortage().left = block; fuse().left = copy; int what = 0;
    try { f(); }
    catch (const Bomb &b) { what = b.id; }
    catch (const std::bad_alloc &) { what = 1; }
    shortage().left = 0; fuse().left = 0; return what;
}
static void intact_none(World &w) { w.reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit([&](const tag_collection &, const auto &snap) { reading(snap); }); }); text_of(w.pub); }
static void failures(Rng &r, int steps, size_t &paths, uint64_t &number)
{
    const auto &K = all(); World w; int np = (int)r.range(1, 6), nt = (int)r.range(1, 4); uint64_t h = 5, failed = 0; std::vector<int> pp, tt; for (int i = 0; i < np; i++) pp.push_back((int)r.below(300)); for (int i = 0; i < nt; i++) tt.push_back((int)r.below(200));
    auto done = [&](int p, int t, const Handle &x, size_t kind, const char *what) {
        VF_CHECK(x != nullptr, "retry", "%s: no metric", what); Place &pl = w.at[p]; pl.kind = kind; pl.sure = true; auto it = pl.perms.find(t);
        if (it == pl.perms.end()) { for (auto &o : w.at) for (auto &y : o.second.perms) VF_CHECK(y.second != x, "retry", "%s: the metric is also another's", what); pl.perms[t] = x; pl.says[t] = K[kind].read(x); }
        else VF_CHECK(it->second == x, "retry", "%s: another metric than before", what);
    };
    for (int s = 0; s < steps; s++)
    {
        int p = r.pick(pp), t = r.pick(tt); bool known = w.at.count(p); size_t kind = known ? w.at[p].kind : r.chance(35) ? K.size() - 1 - r.below(4) : r.below(K.size()); const Kind &k = K[kind];
        int64_t block = r.chance(70) ? r.range(1, 12) : r.range(1, 40); int fail = 0; const char *what = "";
        switch (r.below(8))
        {
        case 0: case 1: // asking for a metric
        {
            auto path = path_of(r, p); auto tags = tags_of(r, t); Handle x; bool copy = touchy(kind) && r.chance(60); what = copy ? "a reservoir that can't be copied" : "no memory for a metric";
            k.fresh()->metric_type(); // what's made once in a process
            fail = attempt(copy ? 0 : block, copy ? (int)r.range(1, 3) : 0, [&] { x = k.request(w.reg.r, path, tags); }); VF_NOTE("request %s at %s, fails %d", k.name.c_str(), path_name(p).c_str(), fail);
            if (!fail) { done(p, t, x, kind, "a request"); break; }
            // the path may have come to be, without any metric
            if (!known) { w.at[p].kind = kind; } intact(w, r, what); x = k.request(w.reg.r, path, tags); done(p, t, x, kind, "asking again"); count(copy ? "metrics_that_threw" : "metrics_without_memory"); break;
        }
        case 2: // registering one that exists
        {
            auto mine = k.fresh(); bool there = known && w.at[p].perms.count(t), added = k.existing(w.reg.r, path_of(r, p), mine, tags_of(r, t));
            VF_CHECK(added == !there, "retry", "registering a metric reported %d", (int)added); if (added) done(p, t, mine, kind, "registering"); else w.at[p].sure = true; break;
        }
        case 3: // another type
        {
            if (!known || !w.at[p].sure) break;
            size_t other = r.below(K.size()); if (other == kind) break; auto path = path_of(r, p); auto tags = tags_of(r, t); bool mismatch = false; K[other].fresh()->metric_type(); what = "a mismatch without memory";
            fail = attempt(r.chance(50) ? block : 0, 0, [&] { try { K[other].request(w.reg.r, path, tags); } catch (const metric_type_mismatch &) { mismatch = true; } }); VF_CHECK(fail || mismatch, "mismatch", "no mismatch"); intact(w, r, what); count("mismatches"); break;
        }
        case 4: // data
        {
            int type = (int)r.below(2), place = r.chance(40) ? -1 : p; if (place >= 0 && !(known && w.at[p].sure)) break; auto key = std::make_pair(place, type); bool there = w.data.count(key); int64_t id = r.range(0, 1000); std::string text = "made from " + std::to_string(id) + " and more text"; Data *d = nullptr;
            auto path = path_of(r, place < 0 ? 0 : place); bool copy = r.chance(50); what = copy ? "data that throws" : "no memory for data";
            auto get = [&] { d = place < 0 ? (type ? w.pub.global<Other>(id, text) : w.pub.global<Data>(id, text)) : type ? w.pub.at<Other>(path, id, text) : w.pub.at<Data>(path, id, text); };
            fail = attempt(copy ? 0 : block, copy, get);
            if (fail)
            {
                intact(w, r, what); if (place >= 0) VF_CHECK((type ? w.pub.has<Other>(path) : w.pub.has<Data>(path)) == there, "has-data", "%s: has-data answers %d", what, (int)!there);
                id += 5000; text = "the second time " + std::to_string(id); get(); count(copy ? "data_that_threw" : "data_without_memory");
            }
            VF_CHECK(d != nullptr, "retry", "no data"); if (there) VF_CHECK(w.data[key].first == d, "retry", "other data than before"); else { for (auto &o : w.data) VF_CHECK(o.second.first != d, "retry", "data of another"); VF_CHECK(d->id == id && d->text == text && d->more.size() == 10, "retry", "data made from %lld, asked for with %lld", (long long)d->id, (long long)id); w.data[key] = {d, id}; }
            break;
        }
        case 5: // a handler that throws
        {
            int at = (int)r.range(1, 4), n = 0; what = "a handler that threw"; int how = (int)r.below(5); auto path = path_of(r, p);
            auto tick = [&] { if (++n == at) throw Bomb{79}; };
            auto visit = [&](const metric_path &, basic_registered_metric &m) { if (how == 1) m.visit([&](const tag_collection &, const auto &) { tick(); }); else if (how == 2) m.aggregate([&](const auto &) { tick(); }); else tick(); };
            fail = attempt(0, 0, [&] { if (how == 3) w.pub.each(visit); else if (how == 4) w.pub.one(path, visit); else w.reg.r.visit_registered_metrics(visit); });
            VF_CHECK((fail == 79) == (n == at), "exception", "a handler threw in visit %d of %d, the caller saw %d", at, n, fail); if (fail) intact(w, r, what); count("handlers_that_threw", fail == 79); break;
        }
        case 6: // a stream that fails
        {
            auto before = text_of(w.pub); Short b((size_t)r.below(before.size() + 2), r.chance(70)); std::ostream out(&b); bool loud = r.chance(70); what = "a stream that failed"; size_t room = b.left;
            if (loud) out.exceptions(std::ios::badbit | std::ios::failbit);
            fail = 0; try { w.pub.write(out); } catch (const Bomb &) { fail = 1; } catch (const std::ios_base::failure &) { fail = 1; }
            VF_CHECK(fail == (loud && room < before.size()), "exception", "publishing %zu bytes to a stream that takes %zu: %s", before.size(), room, fail ? "threw" : "didn't throw");
            VF_CHECK(text_of(w.pub) == before, "publish", "after %s the text is another one: '%s', it was '%s'", what, prom::quote(text_of(w.pub)).c_str(), prom::quote(before).c_str()); if (room < before.size()) { fail = 1; intact(w, r, what); count("streams_that_failed"); } break;
        }
        default: // what goes on in between
        {
            if (r.chance(30) && known && w.at[p].sure) { double f = (double)r.range(2, 1000); w.reg.r.publish_options(path_of(r, p), publish_options(value_publish_options(scale_factor(f)))); w.at[p].factor = f; }
            else if (r.chance(20)) { double f = (double)r.range(2, 1000); w.reg.r.publish_options(publish_options(value_publish_options(scale_factor(f)))); w.factor = f; }
            for (auto &x : w.at) for (auto &y : x.second.perms) if (r.chance(30)) { K[x.second.kind].add(y.second, r.range(1, 1000)); x.second.says[y.first] = K[x.second.kind].read(y.second); for (auto &o : w.at) for (auto &z : o.second.perms) o.second.says[z.first] = K[o.second.kind].read(z.second); }
        }
        }
        failed += fail != 0; h = mix(h, mix(mix((uint64_t)p, (uint64_t)t), mix(kind, (uint64_t)fail)));
    }
    intact(w, r, "at the end"); count("steps", (uint64_t)steps); count("failures", failed); paths = w.at.size(); number = failed; if (failed) cover(h);
}
VF_SEQ(sequences, 6)
{
    size_t paths = 0; uint64_t failed = 0; int steps = (int)r.range(5, 40);
    static bool warm = false;
    if (!warm)
    {
        // what's made once in a process
        warm = true; st().sigs.reserve(1000000); Rng q(9); { World w; for (size_t i = 0; i < all().size(); i++) all()[i].request(w.reg.r, path_of(q, (int)i), tags_of(q, 1)); intact_none(w); }
        for (int i = 0; i < 30; i++) failures(q, 40, paths, failed);
        static const char *const keys[] = {"metrics_that_threw", "metrics_without_memory", "mismatches", "data_that_threw", "data_without_memory", "handlers_that_threw", "streams_that_failed", "worlds_compared"}; for (auto k : keys) count(k, 0);
    }
    { Held held; failures(r, steps, paths, failed); held.nothing("leak", "after failures"); }
    sample("%d steps over %zu paths, %lu failed", steps, paths, (unsigned long)failed);
}
// what fails in one thread is nothing to the others
VF_THREADS(threads, 4)
{
    const auto &K = all(); World w; int n = (int)r.range(2, 4), np = (int)r.range(1, 2); std::vector<size_t> kind; for (int i = 0; i < np; i++) kind.push_back(r.chance(70) ? K.size() - 1 - r.below(4) : r.below(K.size()));
    for (int i = 0; i < np; i++) { K[kind[(size_t)i]].fresh(); Box b; K[kind[(size_t)i]].request(b.r, path_of(r, i), tags_of(r, 1)); }
    struct Op { int what, place, tag, fuse; int64_t id; Path path{""}; Tags tags; Handle got; Data *data = nullptr; int threw = 0; };
    std::vector<std::vector<Op>> ops((size_t)n); uint64_t in = (uint64_t)n;
    for (auto &v : ops) for (int i = (int)r.range(1, 3); i > 0; i--)
    {
        Op o; o.what = (int)r.below(8); o.place = (int)r.below((uint64_t)np); o.tag = (int)r.below(2); o.fuse = r.chance(50) ? (int)r.range(1, 2) : 0; o.id = r.range(0, 1000000); o.path = path_of(r, o.place); o.tags = tags_of(r, o.tag); in = mix(in, mix(mix((uint64_t)o.what, (uint64_t)o.place), (uint64_t)(o.tag * 3 + o.fuse))); v.push_back(std::move(o));
    }
    run_threads(r, n, [&](int th) {
        for (auto &o : ops[(size_t)th])
        {
            fuse().left = o.what < 7 ? o.fuse : 0; const std::string text = "threads";
            try
            {
                if (o.what < 4) o.got = K[kind[(size_t)o.place]].request(w.reg.r, o.path, o.tags);
                else if (o.what == 4) o.data = w.pub.global<Data>(o.id, text);
                else if (o.what < 7) o.data = w.pub.at<Data>(o.path, o.id, text);
                else { int k = o.fuse; w.reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit([&](const tag_collection &, const auto &) { if (k && !--k) throw Bomb{79}; }); }); }
            }
            catch (const Bomb &b) { o.threw = b.id; }
            fuse().left = 0;
        }
    }, in);
    std::map<std::pair<int, int>, Handle> got; std::map<int, Data *> data; uint64_t threw = 0;
    for (auto &v : ops) for (auto &o : v)
    {
        threw += o.threw != 0;
        if (o.got) { auto &g = got[{o.place, o.tag}]; VF_CHECK(!g || g == o.got, "identity", "two metrics of one place, where others failed"); g = o.got; }
        if (o.data) { auto &d = data[o.what == 4 ? -1 : o.place]; VF_CHECK(!d || d == o.data, "identity", "two pieces of data of one owner, where others failed"); d = o.data; }
        VF_CHECK(o.threw || o.what == 7 || o.what > 4 || (o.what == 4 ? o.data != nullptr : o.got != nullptr), "exception", "neither an exception nor a result");
    }
    for (auto &d : data) { bool from = false; for (auto &v : ops) for (auto &o : v) from |= o.data && o.id == d.second->id; VF_CHECK(from, "arguments", "data made from a request that failed"); }
    for (auto &g : got) VF_CHECK(K[kind[(size_t)g.first.first]].request(w.reg.r, path_of(r, g.first.first), tags_of(r, g.first.second)) == g.second, "identity", "another metric afterwards");
    size_t perms = 0; w.reg.r.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit([&](const tag_collection &, const auto &) { perms++; }); }); VF_CHECK(perms == got.size(), "intact", "%zu metrics, %zu were made", perms, got.size());
    for (auto &d : data) { Data *x = d.first < 0 ? w.pub.global<Data>(-3, "late") : w.pub.at<Data>(path_of(r, d.first), -3, "late"); VF_CHECK(x == d.second, "identity", "other data afterwards"); }
    count("failures_in_threads", threw);
}
}}
