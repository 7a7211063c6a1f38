// C21: the lock-free stack delivers every element exactly once
#include "lin.hpp"
#include <deque>
#include <list>
#include <cxxmetrics/internal/atomic_lifo.hpp>
namespace vf { namespace t {
using cxxmetrics::internal::atomic_lifo;

// ------------------------------------------------------------------------------------------------- elements that are watched
struct Life { std::atomic<int64_t> alive{0}, bad{0}; };
inline Life &life() { static Life l; return l; }
enum : uint64_t { ALIVE = 0xA11FE00DA11FE00DULL, DEAD = 0xDEADDEADDEADDEADULL };
struct Item
{
    int64_t v; uint64_t magic;
    explicit Item(int64_t x = -5) : v(x), magic(ALIVE) { VF_QUIET; life().alive.fetch_add(1, std::memory_order_relaxed); }
    Item(const Item &o) : v(o.v), magic(o.magic) { VF_QUIET; if (o.magic != ALIVE) life().bad.fetch_add(1, std::memory_order_relaxed); life().alive.fetch_add(1, std::memory_order_relaxed); }
    Item &operator=(const Item &) = default;
    ~Item() { if (magic != ALIVE) { VF_QUIET; life().bad.fetch_add(1, std::memory_order_relaxed); } magic = DEAD; VF_QUIET; life().alive.fetch_sub(1, std::memory_order_relaxed); }
    int64_t get() const { return magic == ALIVE ? v : -99; }
};
struct Big : Item { char pad[200]; explicit Big(int64_t x = -5) : Item(x) { memset(pad, (int)x, sizeof pad); } int64_t get() const { for (char c : pad) if (c != (char)v) return -98; return Item::get(); } };
struct Text
{
    std::string s; explicit Text(int64_t x = -5) : s("an element with the number " + std::to_string(x)) { }
    int64_t get() const { size_t p = s.rfind(' '); return p == std::string::npos ? -97 : strtoll(s.c_str() + p, nullptr, 10); }
};
// a node of its own, in the two ways that are accepted
struct Node : Item
{
    Node *nx = nullptr; int sets = 0;
    explicit Node(int64_t x) : Item(x) { }
    Node *next() { return nx; }
    void set_next(Node *n) { nx = n; sets++; }
    operator const int64_t &() const { return v; }
};
struct Node2
{
    Item it; Node2 *link; Node2(int64_t x) : it(x), link(nullptr) { }
    Node2 *next() const { return link; }
    void set_next(Node2 *n) { link = n; }
    int64_t get() const { return it.get(); }
};
inline int64_t value_in(const Item &i) { return i.get(); }
inline int64_t value_in(const Big &i) { return i.get(); }
inline int64_t value_in(const Text &i) { return i.get(); }
inline int64_t value_in(const Node &i) { return i.get(); }
inline int64_t value_in(const Node2 &i) { return i.get(); }
inline int64_t value_in(int64_t i) { return i; }

// an allocator that knows what it gave out
struct Ledger { std::atomic<int64_t> out{0}, given{0}, foreign{0}; };
inline Ledger &nobody() { static Ledger l; return l; }
template<typename U> struct Counting
{
    typedef U value_type; Ledger *l;
    Counting(Ledger *x = &nobody()) : l(x) { }
    template<typename V> Counting(const Counting<V> &o) : l(o.l) { }
    struct Head { Ledger *owner; uint64_t n; };
    static constexpr size_t off() { return alignof(U) > sizeof(Head) ? alignof(U) : sizeof(Head); }
    U *allocate(size_t n) { char *p = static_cast<char *>(::operator new(n * sizeof(U) + off())); VF_QUIET; Head *h = reinterpret_cast<Head *>(p); h->owner = l; h->n = n; l->out.fetch_add(1, std::memory_order_relaxed); l->given.fetch_add(1, std::memory_order_relaxed); return reinterpret_cast<U *>(p + off()); }
    void deallocate(U *u, size_t n) { char *p = reinterpret_cast<char *>(u) - off(); { VF_QUIET; Head *h = reinterpret_cast<Head *>(p); if (h->owner != l || h->n != n) l->foreign.fetch_add(1, std::memory_order_relaxed); h->owner->out.fetch_sub(1, std::memory_order_relaxed); } ::operator delete(p); }
    template<typename V> bool operator==(const Counting<V> &o) const { return l == o.l; }
    template<typename V> bool operator!=(const Counting<V> &o) const { return l != o.l; }
};
static void judge_life(const char *when, int64_t base)
{
    VF_CHECK(life().bad.load() == 0, "lifetime", "%s, an element had been destroyed twice, or was used after its destruction", when);
    VF_CHECK(life().alive.load() == base, "lifetime", "%s, %lld elements were alive, expected %lld", when, (long long)life().alive.load(), (long long)base);
}
static void judge_ledger(const char *when, Ledger &l)
{
    VF_CHECK(l.out.load() == 0, "allocation", "%s, %lld of %lld nodes weren't returned to the allocator they came from", when, (long long)l.out.load(), (long long)l.given.load());
    VF_CHECK(l.foreign.load() == 0 && nobody().given.load() == 0 && nobody().foreign.load() == 0, "allocation", "%s, nodes had gone to or come from an allocator that isn't the stack's", when);
}
template<typename S> struct Own { static constexpr bool value = false; };
template<typename A> struct Own<atomic_lifo<Node, A>> { static constexpr bool value = true; };
template<typename A> struct Own<atomic_lifo<Node2, A>> { static constexpr bool value = true; };
template<typename V, typename S> typename std::enable_if<!Own<S>::value>::type push_value(S &s, int64_t x, int how) { V v(x); if (how & 1) s.push(v); else s.push(std::move(v)); }
template<typename V, typename S> typename std::enable_if<Own<S>::value>::type push_value(S &s, int64_t x, int how) { if (how & 1) s.emplace(V(x)); else s.push(s.make_pointer(x)); }
template<typename P> int64_t value_at(P &p) { return p ? value_in(*p) : -1; }

// ------------------------------------------------------------------------------------------------------------------ sequential
template<typename V, typename S, typename Make> void seq(Rng &r, Make make_stack, bool watched)
{
    typedef typename S::pointer_type P;
    int64_t base = life().alive.load(), next = 1; uint64_t h = sizeof(V) + Own<S>::value;
    {
        std::vector<int64_t> m; std::vector<std::pair<int64_t, P>> held; auto sp = make_stack(); int n = (int)r.range(1, 80); uint64_t pops = 0, recycled = 0; bool fill = r.chance(50);
        std::vector<P> spares;
        for (int i = 0; i < n; i++)
        {
            S &s = *sp; int what = (int)r.below(fill ? 12 : 14);
            if (what < 2) { m.push_back(next); s.emplace(next); VF_NOTE("emplace %lld", (long long)next); next++; }
            else if (what < 4) { m.push_back(next); push_value<V>(s, next, (int)r.below(2)); VF_NOTE("push %lld", (long long)next); next++; }
            else if (what == 4) { auto p = s.make_pointer(next); VF_CHECK(value_at(p) == next, "make-pointer", "a new element is %lld, expected %lld", (long long)value_at(p), (long long)next); m.push_back(next++); s.push(std::move(p)); VF_CHECK(!p, "recycle", "a pushed pointer still holds its element"); }
            else if (what == 5) { P p; s.push(std::move(p)); VF_CHECK(!p, "push-null", "an empty pointer became full by being pushed"); VF_NOTE("push nothing"); }
            else if (what == 6 && !held.empty())
            {
                size_t k = r.below(held.size()); VF_NOTE("recycle %lld", (long long)held[k].first);
                if (r.chance(30)) { auto raw = held[k].second.release(); VF_CHECK(!held[k].second, "release", "a released pointer still holds its element"); P p(raw, s.get_allocator()); s.push(std::move(p)); }
                else s.push(std::move(held[k].second));
                m.push_back(held[k].first); held.erase(held.begin() + (long)k); recycled++;
            }
            else if (what == 7 && held.size() >= 2) { held[0].second = std::move(held[1].second); VF_CHECK(!held[1].second && value_at(held[0].second) == held[1].first, "pointer-move", "after moving a pointer over another it holds %lld, expected %lld", (long long)value_at(held[0].second), (long long)held[1].first); held[0].first = held[1].first; held.erase(held.begin() + 1); VF_NOTE("move over"); }
            else if (what == 8 && r.chance(30)) { decltype(sp) q(new S(std::move(s))); VF_CHECK(!s.pop(), "move", "a stack that was moved from still holds an element"); sp = std::move(q); VF_NOTE("move the stack"); }
            else
            {
                auto p = s.pop(); pops++; int64_t got = value_at(p), want = m.empty() ? -1 : m.back(); if (!m.empty()) m.pop_back(); VF_NOTE("pop %lld", (long long)got);
                VF_CHECK(got == want, "order", "a pop gave %lld, expected %lld", (long long)got, (long long)want);
                if (p) { const P &cp = p; VF_CHECK(value_in(*cp.operator->()) == want, "order", "the popped element through a const pointer is another"); if (r.chance(50)) held.emplace_back(got, std::move(p)); }
            }
            for (auto &x : held) VF_CHECK(value_at(x.second) == x.first, "held", "an element held after being popped became %lld from %lld", (long long)value_at(x.second), (long long)x.first);
            h = mix(h, mix((uint64_t)what, m.size()));
            if (watched) judge_life("along the way", base + (int64_t)(m.size() + held.size()));
        }
        count("operations", (uint64_t)n); count("pops", pops); count("recycled", recycled); smax("deepest", m.size());
        if (r.chance(50)) { while (!m.empty()) { auto p = sp->pop(); VF_CHECK(value_at(p) == m.back(), "order", "emptying the stack gave %lld, expected %lld", (long long)value_at(p), (long long)m.back()); m.pop_back(); } VF_CHECK(!sp->pop(), "order", "an element too many"); }
        if (n > 1) cover(h);
        sample("%d operations, %lu pops, %lu recycled, %zu left for the destructor", n, (unsigned long)pops, (unsigned long)recycled, m.size());
    }
    if (watched) judge_life("after the stack was destroyed", base);
}
template<typename V> void seq_std(Rng &r, bool watched = true) { typedef atomic_lifo<V> S; seq<V, S>(r, [] { return std::unique_ptr<S>(new S); }, watched); }
template<typename V> void seq_counting(Rng &r) { typedef atomic_lifo<V, Counting<V>> S; Ledger l; seq<V, S>(r, [&] { return std::unique_ptr<S>(new S(Counting<V>(&l))); }, true); judge_ledger("after the stack was destroyed", l); }
VF_SEQ(items, 3) { seq_std<Item>(r); }
VF_SEQ(big_items, 1) { seq_std<Big>(r); }
VF_SEQ(texts, 1) { seq_std<Text>(r, false); }
VF_SEQ(numbers, 1) { seq_std<int64_t>(r, false); }
VF_SEQ(nodes, 2) { seq_std<Node>(r); }
VF_SEQ(other_nodes, 1) { seq_std<Node2>(r); }
VF_SEQ(items_allocator, 2) { seq_counting<Item>(r); }
VF_SEQ(nodes_allocator, 2) { seq_counting<Node>(r); }
VF_SEQ(built_from, 1)
{
    int64_t base = life().alive.load(); std::vector<Item> v; int n = (int)r.below(8); for (int i = 0; i < n; i++) v.emplace_back(i * 3 + 1);
    Ledger l;
    {
        atomic_lifo<Item> a(v.begin(), v.end()); std::list<Item> ls(v.begin(), v.end()); atomic_lifo<Item, Counting<Item>> b(ls.begin(), ls.end(), Counting<Item>(&l));
        atomic_lifo<int64_t> c{(int64_t)5, (int64_t)n, (int64_t)7}; atomic_lifo<Item, Counting<Item>> d({Item(1), Item(2)}, Counting<Item>(&l)); atomic_lifo<Item> e(v.begin(), v.begin());
        for (int i = n; i-- > 0 && r.chance(80); ) { auto p = a.pop(); auto q = b.pop(); VF_CHECK(value_at(p) == i * 3 + 1 && value_at(q) == i * 3 + 1, "order", "a stack built from a range gave %lld and %lld at %d", (long long)value_at(p), (long long)value_at(q), i); }
        VF_CHECK(*c.pop() == 5 && *c.pop() == n && *c.pop() == 7 && !c.pop(), "order", "a stack built from a list gives something else");
        auto p = d.pop(); VF_CHECK(value_at(p) == 1, "order", "a stack built from a list gives something else first"); VF_CHECK(!e.pop(), "order", "a stack built from an empty range holds something");
        if (r.chance(50)) { p = d.pop(); VF_CHECK(value_at(p) == 2, "order", "a stack built from a list gives something else second"); }
    }
    judge_ledger("after the stacks were destroyed", l); v.clear(); v.shrink_to_fit(); judge_life("after the stacks were destroyed", base); cover((uint64_t)n); count("operations", (uint64_t)n);
}

// ------------------------------------------------------------------------------------------------------------------ concurrent
enum { PUSH, POP, REPUSH }; static const char *const names[] = {"push", "pop", "recycle"};
struct Model
{
    typedef std::vector<int64_t> State;
    bool apply(State &s, const Event &e) const
    {
        if (e.op != POP) { s.push_back(e.a); return true; }
        if (s.empty()) return e.b == -1;
        if (s.back() != e.b) return false;
        s.pop_back(); return true;
    }
    uint64_t hash(const State &s) const { uint64_t h = s.size(); for (auto v : s) h = mix(h, (uint64_t)v); return h; }
};
template<typename V, typename S, typename Make> void conc(Rng &r, Make make_stack, bool watched)
{
    typedef typename S::pointer_type P;
    int64_t base = life().alive.load(); int n = (int)r.range(2, 4), per = (int)r.range(1, n == 2 ? 8 : n == 3 ? 5 : 4), pre = (int)r.below(4); int lean = (int)r.below(3); uint64_t in = mix((uint64_t)n, (uint64_t)pre);
    struct Op { int op; int64_t v; bool keep; };
    std::vector<std::vector<Op>> plan((size_t)n); int64_t next = 1;
    std::vector<int64_t> init;
    {
        auto sp = make_stack(); S &s = *sp;
        for (int i = 0; i < pre; i++) { s.emplace(next); init.push_back(next++); }
        for (auto &v : plan) for (int i = 0; i < per; i++) { static const int mixes[3][5] = {{PUSH, PUSH, POP, POP, REPUSH}, {POP, REPUSH, POP, REPUSH, PUSH}, {PUSH, PUSH, PUSH, POP, POP}}; Op o{mixes[lean][r.below(5)], 0, r.chance(60)}; o.v = next++; v.push_back(o); in = mix(in, (uint64_t)o.op * 2 + o.keep); }
        History h(n, (size_t)per + 1); std::vector<std::vector<P>> held((size_t)n); for (auto &x : held) x.reserve((size_t)per + 1);
        run_threads(r, n, [&](int t) {
            for (auto &o : plan[(size_t)t])
            {
                auto &mine = held[(size_t)t];
                if (o.op == REPUSH && mine.empty()) o.op = PUSH;
                if (o.op == PUSH) record(h, t, PUSH, o.v, [&] { if (o.keep) s.emplace(o.v); else s.push(s.make_pointer(o.v)); return (int64_t)0; });
                else if (o.op == REPUSH) { P p = std::move(mine.back()); mine.pop_back(); int64_t v = value_at(p); record(h, t, REPUSH, v, [&] { s.push(std::move(p)); return (int64_t)0; }); }
                else { P p; record(h, t, POP, 0, [&] { p = s.pop(); return value_at(p); }); if (p && o.keep) mine.push_back(std::move(p)); }
            }
        }, in);
        // at rest
        uint64_t q = 0; Event e; std::vector<Event> ev = h.all(); uint64_t top = 0; for (auto &x : ev) top = std::max(top, x.ret);
        bool drain = r.chance(70); std::string rest;
        if (drain) for (;;) { P p = s.pop(); e.thread = 0; e.op = POP; e.a = 0; e.b = value_at(p); e.inv = ++top; e.ret = ++top; q++; if (ev.size() < 62) ev.push_back(e); rest += " " + std::to_string(e.b); if (!p) break; VF_CHECK(q < 200, "duplicate", "the stack doesn't end"); }
        Model m; Lin<Model> lin(m, ev);
        if (h.overlap()) count("histories_with_overlapping_operations");
        if (!lin.check(init)) fail("not-linearizable", "%d elements at first; %s at rest%s", pre, h.str(names).c_str(), rest.c_str());
        for (auto &v : held) for (auto &p : v) VF_CHECK(value_at(p) > 0, "held", "a popped element was destroyed while held");
        count("histories_checked"); count("operations", ev.size());
        if (want_sample()) sample("%d at first; %s at rest%s", pre, h.str(names).c_str(), rest.c_str());
    }
    if (watched) judge_life("after the stack was destroyed", base);
}
template<typename V> void conc_std(Rng &r, bool watched = true) { typedef atomic_lifo<V> S; conc<V, S>(r, [] { return std::unique_ptr<S>(new S); }, watched); }
template<typename V> void conc_counting(Rng &r) { typedef atomic_lifo<V, Counting<V>> S; Ledger l; conc<V, S>(r, [&] { return std::unique_ptr<S>(new S(Counting<V>(&l))); }, true); judge_ledger("after the stack was destroyed", l); }
VF_THREADS(conc_items, 4) { conc_std<Item>(r); }
VF_THREADS(conc_texts, 1) { conc_std<Text>(r, false); }
VF_THREADS(conc_nodes, 4) { conc_std<Node>(r); }
VF_THREADS(conc_items_allocator, 1) { conc_counting<Item>(r); }
VF_THREADS(conc_nodes_allocator, 1) { conc_counting<Node>(r); }

// more of it: conservation
template<typename S> void burst(Rng &r, S &s)
{
    typedef typename S::pointer_type P;
#ifdef VF_DSCHED
    const int per = (int)r.range(4, 16);
#else
    const int per = (int)r.range(50, 400);
#endif
    int n = (int)r.range(2, 4), keep = (int)r.below(100), pushing = 30 + (int)r.below(50); std::vector<std::vector<P>> held((size_t)n); std::vector<std::vector<int64_t>> got((size_t)n), put((size_t)n); for (int i = 0; i < n; i++) { held[(size_t)i].reserve((size_t)per + 1); got[(size_t)i].reserve((size_t)per + 1); put[(size_t)i].reserve((size_t)per + 1); }
    uint64_t sd = r.u64();
    run_threads(r, n, [&](int t) {
        Rng q(sd + (uint64_t)t); auto &mine = held[(size_t)t]; int64_t id = 0;
        for (int k = 0; k < per; k++)
        {
            point();
            if (q.chance(pushing))
            {
                if (!mine.empty() && q.chance(60)) { P p = std::move(mine.back()); mine.pop_back(); int64_t v = value_at(p); { VF_QUIET; put[(size_t)t].push_back(v); } s.push(std::move(p)); }
                else { int64_t v = (t + 1) * 100000 + ++id; { VF_QUIET; put[(size_t)t].push_back(v); } s.emplace(v); }
            }
            else { P p = s.pop(); if (p) { { int64_t v = value_at(p); VF_QUIET; got[(size_t)t].push_back(v); } if (q.chance(keep)) mine.push_back(std::move(p)); } }
        }
    }, mix((uint64_t)(n * 1000 + per), sd));
    std::map<int64_t, int64_t> balance; for (auto &v : put) for (auto x : v) balance[x]++; for (auto &v : got) for (auto x : v) balance[x]--;
    uint64_t left = 0; for (;;) { P p = s.pop(); if (!p) break; balance[value_at(p)]--; VF_CHECK(++left < 100000, "duplicate", "the stack doesn't end"); }
    for (auto &b : balance) VF_CHECK(b.second == 0, b.second < 0 ? "duplicate" : "lost", "element %lld was pushed %s often than it came back (by %lld)", (long long)b.first, b.second < 0 ? "less" : "more", (long long)std::abs(b.second));
    count("operations", (uint64_t)(n * per)); count("left_at_rest", left);
}
VF_THREADS(burst_items, 2) { int64_t base = life().alive.load(); { atomic_lifo<Item> s; burst(r, s); } judge_life("after a burst", base); }
VF_THREADS(burst_nodes, 2) { int64_t base = life().alive.load(); Ledger l; { atomic_lifo<Node, Counting<Node>> s{Counting<Node>(&l)}; burst(r, s); } judge_ledger("after a burst", l); judge_life("after a burst", base); }
}}
