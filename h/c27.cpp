// C27: pooled objects live exactly as long as they are referenced
#include "lin.hpp"
#include <cxxmetrics/pool.hpp>
namespace vf { namespace t {
using namespace cxxmetrics::internal;

struct Life { std::atomic<int64_t> alive{0}, bad{0}, made{0}; };
inline Life &life() { static Life l; return l; }
enum : uint64_t { ALIVE = 0xA11FE00DA11FE00DULL, DEAD = 0xDEADDEADDEADDEADULL };
// by number of the object: constructed minus destroyed copies that are held in a pool can't be told apart from temporaries, so everything is counted
struct Item
{
    int64_t v; uint64_t magic; int64_t again; std::unique_ptr<int64_t> heap;
    explicit Item(int64_t x = 0) : v(x), magic(ALIVE), again(x) { up(); }
    Item(const Item &o) : v(o.v), magic(o.magic), again(o.again), heap(o.heap ? new int64_t(*o.heap) : nullptr) { if (magic != ALIVE) worse(); up(); }
    Item &operator=(const Item &o) { if (magic != ALIVE || o.magic != ALIVE) worse(); v = o.v; again = o.again; heap.reset(o.heap ? new int64_t(*o.heap) : nullptr); return *this; }
    ~Item() { if (magic != ALIVE) worse(); magic = DEAD; VF_QUIET; life().alive.fetch_sub(1, std::memory_order_relaxed); }
    static void up() { VF_QUIET; life().alive.fetch_add(1, std::memory_order_relaxed); life().made.fetch_add(1, std::memory_order_relaxed); }
    static void worse() { VF_QUIET; life().bad.fetch_add(1, std::memory_order_relaxed); }
    int64_t get() const { return magic != ALIVE ? -99 : v != again ? -98 : heap && *heap != v ? -97 : v; }
};
struct Small { char c; explicit Small(int64_t x = 0) : c((char)x) { } int64_t get() const { return c; } };
struct Text { std::string s; explicit Text(int64_t x = 0) : s("an object with the number " + std::to_string(x)) { } int64_t get() const { size_t p = s.rfind(' '); return p == std::string::npos ? -96 : strtoll(s.c_str() + p, nullptr, 10); } };
template<typename V> V make(int64_t x) { return V(x); }
template<> Item make<Item>(int64_t x) { Item i(x); if (x & 1) i.heap.reset(new int64_t(x)); return i; }

struct Ledger { std::atomic<int64_t> out{0}, given{0}, twice{0}; };
inline Ledger &ledger() { static Ledger l; return l; }
template<typename U> struct Counting
{
    typedef U value_type; Counting() { } template<typename W> Counting(const Counting<W> &) { }
    U *allocate(size_t n) { U *u = static_cast<U *>(::operator new(n * sizeof(U))); VF_QUIET; ledger().out.fetch_add((int64_t)n, std::memory_order_relaxed); ledger().given.fetch_add((int64_t)n, std::memory_order_relaxed); return u; }
    void deallocate(U *u, size_t n) { ::operator delete(u); VF_QUIET; ledger().out.fetch_sub((int64_t)n, std::memory_order_relaxed); }
    template<typename W, typename... A> void construct(W *w, A &&...a) { new (w) W(std::forward<A>(a)...); }
    template<typename W> void destroy(W *w) { w->~W(); }
};
static void judge_life(const char *when, int64_t base)
{
    VF_CHECK(life().bad.load() == 0, "lifetime", "%s, an object had been destroyed twice, or was copied after its destruction", when);
    VF_CHECK(life().alive.load() == base, "lifetime", "%s, %lld objects were alive, expected %lld", when, (long long)life().alive.load(), (long long)base);
}

// ------------------------------------------------------------------------------------------------------------------ sequential
template<typename V, template<typename...> class A> void seq(Rng &r, bool watched)
{
    typedef pool<V, A> P; typedef pool_ptr<V, A> H; int64_t base = life().alive.load(), out = ledger().out.load(), given = ledger().given.load(); uint64_t h = sizeof(V); uint64_t dropped = 0, xchg = 0, cas = 0, reused = 0;
    {
        int pools = r.chance(20) ? 2 : 1; std::vector<std::unique_ptr<P>> ps; for (int i = 0; i < pools; i++) ps.emplace_back(new P);
        size_t nh = (size_t)r.range(2, 8); std::vector<std::unique_ptr<H>> hs; std::vector<int> m(nh, 0); std::map<int, std::pair<V *, int>> obj; int next = 1; std::set<V *> places;
        for (size_t i = 0; i < nh; i++) hs.emplace_back(new H());
        auto refs = [&](int o) { int n = 0; for (int x : m) n += x == o; return n; };
        auto expect = [&](size_t i, const char *what) {
            H &x = *hs[i]; const H &cx = x;
            VF_CHECK((bool)x == (m[i] != 0), "handle", "after %s handle %zu is %s", what, i, x ? "set" : "empty");
            if (m[i]) { VF_CHECK(&*x == obj[m[i]].first && &*cx == &*x && x.operator->() == &*x && cx.operator->() == &*x, "handle", "after %s handle %zu refers to another object", what, i); int64_t g = x->get(); VF_CHECK(g == (int64_t)obj[m[i]].second, "content", "after %s the object of handle %zu is %lld, expected %d", what, i, (long long)g, obj[m[i]].second); }
        };
        auto fresh = [&](H &x, int v, const char *what) { VF_CHECK((bool)x, "allocate", "%s gave nothing", what); V *p = &*x; for (auto &o : obj) VF_CHECK(o.second.first != p, "shared", "%s gave the storage of object %d, which is still referenced", what, o.first); VF_CHECK(x->get() == v, "content", "%s gave %lld, expected %d", what, (long long)x->get(), v); if (!places.insert(p).second) reused++; obj[next] = {p, v}; return next++; };
        auto forget = [&] { for (auto it = obj.begin(); it != obj.end(); ) if (!refs(it->first)) { dropped++; it = obj.erase(it); } else ++it; };
        int n = (int)r.range(2, 70);
        for (int k = 0; k < n; k++)
        {
            size_t a = r.below(nh), b = r.below(nh), c = r.below(nh); H &x = *hs[a], &y = *hs[b]; P &p = *ps[r.below(ps.size())]; int v = (int)r.range(1, 100); int what = (int)r.below(12); const char *name = "";
            h = mix(h, mix((uint64_t)what, a * 64 + b * 8 + c));
            switch (what)
            {
            case 0: { name = "allocate"; H t = r.chance(50) ? p.allocate(make<V>(v)) : ((v = 0), p.allocate()); int o = fresh(t, v, name); x = t; m[a] = o; break; }
            case 1: { name = "allocate and move"; int before = m[a]; m[a] = 0; H t = p.allocate(make<V>(v)); m[a] = before; int o = fresh(t, v, name); x = std::move(t); VF_CHECK(!t, "move", "a handle that was moved from isn't empty"); m[a] = o; break; }
            case 2: { name = "copy construct"; std::unique_ptr<H> t(new H(y)); hs[a].swap(t); m[a] = m[b]; if (a == b) { } t.reset(); break; }
            case 3: { name = "move construct"; std::unique_ptr<H> t(new H(std::move(y))); VF_CHECK(!y, "move", "a handle that was moved from isn't empty"); int o = m[b]; m[b] = 0; hs[a].swap(t); t.reset(); m[a] = o; break; }
            case 4: name = "assign"; { H &z = (x = y); VF_CHECK(&z == &x, "assign", "assignment returns another handle"); } m[a] = m[b]; break;
            case 5: name = "move assign"; x = std::move(y); if (a != b) { VF_CHECK(!y, "move", "a handle that was moved from isn't empty"); m[a] = m[b]; m[b] = 0; } break;
            case 6: name = "release"; if (r.chance(50)) x = nullptr; else hs[a].reset(new H(nullptr)); m[a] = 0; break;
            case 7: { name = "exchange"; H t = x.exchange(y); xchg++; VF_CHECK((bool)t == (m[a] != 0) && (!t || &*t == obj[m[a]].first), "exchange", "exchange didn't return what the handle referred to"); if (t) VF_CHECK(t->get() == obj[m[a]].second, "content", "exchange returned an object that is %lld", (long long)t->get()); m[a] = m[b]; break; }
            case 8: case 9:
            {
                name = "compare and exchange"; cas++; if (what == 9) { H t(x); y = t; m[b] = m[a]; } if (a == b) break;
                bool ok = x.compare_exchange_strong(y, *hs[c]); int desired = m[c];
                VF_CHECK(ok == (m[a] == m[b]), "compare-exchange", "comparing object %d with %d %s", m[a], m[b], ok ? "succeeded" : "failed");
                if (ok) { m[a] = desired; } else m[b] = m[a];
                break;
            }
            case 10: { name = "write"; if (m[a]) { auto nv = make<V>(v); x->~V(); new (&*x) V(nv); obj[m[a]].second = v; } break; }
            default: { name = "compare"; VF_CHECK((x == y) == (m[a] == m[b]) && (x != y) == (m[a] != m[b]), "comparison", "handles to %d and %d compare %s", m[a], m[b], x == y ? "equal" : "unequal"); break; }
            }
            VF_NOTE("%s %zu %zu %zu", name, a, b, c);
            forget(); for (size_t i = 0; i < nh; i++) expect(i, name);
            if (watched) judge_life(name, base + (int64_t)obj.size());
        }
        if (r.chance(50)) for (auto &x : hs) { *x = nullptr; }
        hs.clear(); if (watched) judge_life("after every handle was released", base);
        count("operations", (uint64_t)n); count("exchanges", xchg); count("compare_exchanges", cas); count("objects_dropped", dropped); count("storage_reused", reused); if (next > 1) cover(h);
        sample("%d operations on %zu handles: %d objects, %lu dropped along the way, %lu in storage used before", n, nh, next - 1, (unsigned long)dropped, (unsigned long)reused);
    }
    if (watched) judge_life("after the pool was destroyed", base);
    VF_CHECK(ledger().out.load() == out, "storage", "%lld of %lld objects' storage wasn't returned to the allocator", (long long)(ledger().out.load() - out), (long long)(ledger().given.load() - given));
}
VF_SEQ(items, 4) { seq<Item, std::allocator>(r, true); }
VF_SEQ(items_allocator, 3) { seq<Item, Counting>(r, true); }
VF_SEQ(texts, 2) { seq<Text, std::allocator>(r, false); }
VF_SEQ(small, 1) { seq<Small, Counting>(r, false); }
// very many references, and very many objects
VF_SEQ(many, 1)
{
    if (!r.chance(10)) { cover(1); return; }
    int64_t base = life().alive.load();
    {
        pool<Item> p; size_t n = (size_t)r.range(100, 70000); auto a = p.allocate(Item(7)); std::vector<pool_ptr<Item>> v; v.reserve(n); for (size_t i = 0; i < n; i++) v.push_back(i & 1 ? v[i - 1] : a);
        a = nullptr; VF_CHECK(v[0]->get() == 7, "content", "an object with %zu references became %lld", n, (long long)v[0]->get()); judge_life("with many references", base + 1);
        while (v.size() > 1) v.pop_back();
        VF_CHECK(v[0]->get() == 7, "content", "an object that had many references became %lld", (long long)v[0]->get()); v.clear(); judge_life("after many references", base);
        size_t k = n / 20 + 2; std::set<Item *> at; for (size_t i = 0; i < k; i++) { v.push_back(p.allocate(Item((int64_t)i))); VF_CHECK(at.insert(&*v.back()).second, "shared", "two objects share storage"); }
        for (size_t i = 0; i < k; i++) VF_CHECK(v[i]->get() == (int64_t)i, "content", "object %zu became %lld", i, (long long)v[i]->get());
        judge_life("with many objects", base + (int64_t)k); count("operations", n + k); cover(n);
    }
    judge_life("after many objects", base);
}

// ------------------------------------------------------------------------------------------------------------------ concurrent
template<typename V, template<typename...> class A> void conc(Rng &r, bool watched)
{
    typedef pool<V, A> P; typedef pool_ptr<V, A> H; int64_t base = life().alive.load(), out = ledger().out.load();
#ifdef VF_DSCHED
    int per = (int)r.range(1, 8);
#else
    int per = (int)r.range(4, 60);
#endif
    int n = (int)r.range(2, 4), shared = (int)r.below(3), warm = (int)r.below(4); uint64_t sd = r.u64(); std::atomic<uint64_t> allocs{0};
    {
        P p; { std::vector<H> w; for (int i = 0; i < warm; i++) w.push_back(p.allocate(make<V>(50 + i))); }
        const size_t K = 4; std::vector<std::vector<H>> hs((size_t)n, std::vector<H>(K)); std::vector<std::vector<int>> m((size_t)n, std::vector<int>(K, -1)); struct Bad { const char *key = nullptr; int64_t got = 0, want = 0; }; std::vector<Bad> bad((size_t)n);
        for (int s = 0; s < shared; s++) { H x = p.allocate(make<V>(100 + s)); for (int t = 0; t < n; t++) { hs[(size_t)t][(size_t)s] = x; m[(size_t)t][(size_t)s] = 100 + s; } }
        bool together = watched && r.chance(30); // all handles dropped, by whichever thread comes last
        run_threads(r, n, [&](int t) {
            Rng q(sd + (uint64_t)t); auto &h = hs[(size_t)t]; auto &mm = m[(size_t)t]; auto &bd = bad[(size_t)t]; uint64_t al = 0;
            auto look = [&](size_t i, const char *key) { if (mm[i] < 0) { if (h[i] && !bd.key) bd = {key, 1, -1}; return; } if (!h[i]) { if (!bd.key) bd = {key, -1, mm[i]}; return; } int64_t g = h[i]->get(); if (g != (int64_t)(char)mm[i] && g != mm[i] && !bd.key) { bd.key = key; bd.got = g; bd.want = mm[i]; } };
            for (int k = 0; k < per; k++)
            {
                size_t a = q.below(K), b = q.below(K); point();
                switch (q.below(8))
                {
                case 0: case 1: case 2: { int v = (int)(1 + q.below(40)); h[a] = p.allocate(make<V>(v)); mm[a] = v; al++; break; }
                case 3: h[a] = nullptr; mm[a] = -1; break;
                case 4: h[a] = h[b]; mm[a] = mm[b]; break;
                case 5: if (a != b) { h[a] = std::move(h[b]); mm[a] = mm[b]; mm[b] = -1; } break;
                case 6: { H x = h[a].exchange(h[b]); mm[a] = mm[b]; break; }
                default: { H e(h[a]); if (a != b) { if (!h[a].compare_exchange_strong(e, h[b])) bd = {"compare-exchange", 0, 1}; mm[a] = mm[b]; } break; }
                }
                look(a, "content"); look(b, "content");
            }
            for (size_t i = 0; i < K; i++) look(i, "content");
            if (together) for (size_t i = 0; i < K; i++) { point(); h[i] = nullptr; mm[i] = -1; }
            allocs.fetch_add(al, std::memory_order_relaxed);
        }, mix((uint64_t)(n * 100 + per), sd));
        for (auto &b : bad) if (b.key) fail(b.key, "an object that one thread refers to is %lld, expected %lld (-99: destroyed)", (long long)b.got, (long long)b.want);
        // distinct objects in distinct places
        std::map<V *, std::set<std::pair<int, int>>> where; int64_t objects = 0;
        for (int t = 0; t < n; t++) for (size_t i = 0; i < K; i++) if (hs[(size_t)t][i]) { V *x = &*hs[(size_t)t][i]; int v = m[(size_t)t][i]; auto &w = where[x]; if (w.empty()) objects++; w.insert({v >= 100 ? -1 : t, v}); VF_CHECK(w.size() == 1, "shared", "two allocations share storage"); }
        if (watched) judge_life("at rest", base + objects);
        hs.clear(); if (watched) judge_life("after every handle was released", base);
        // what is free is usable, once each
        std::vector<H> v; std::set<V *> at; for (int i = 0; i < 8; i++) { v.push_back(p.allocate(make<V>(i))); VF_CHECK(at.insert(&*v.back()).second, "shared", "after all was released, two allocations share storage"); }
        for (int i = 0; i < 8; i++) VF_CHECK(v[(size_t)i]->get() == i, "content", "after all was released, an object is %lld, expected %d", (long long)v[(size_t)i]->get(), i);
        count("operations", (uint64_t)(n * per)); count("allocations", allocs.load()); count("objects_at_rest", (uint64_t)objects);
        sample("%d threads of %d operations, %d shared objects, %d freed before: %lu allocated, %lld at rest", n, per, shared, warm, (unsigned long)allocs.load(), (long long)objects);
    }
    if (watched) judge_life("after the pool was destroyed", base);
    VF_CHECK(ledger().out.load() == out, "storage", "%lld objects' storage wasn't returned to the allocator", (long long)(ledger().out.load() - out));
}
VF_THREADS(conc_items, 5) { conc<Item, std::allocator>(r, true); }
VF_THREADS(conc_items_allocator, 2) { conc<Item, Counting>(r, true); }
VF_THREADS(conc_texts, 2) { conc<Text, std::allocator>(r, false); }
VF_THREADS(conc_small, 1) { conc<Small, Counting>(r, false); }
}}
