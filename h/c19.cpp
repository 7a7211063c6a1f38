// C19: metric values behave like the values they hold
#include "snap.hpp"
#include <cxxmetrics/metric_value.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace std::chrono;

template<typename T> bool ok(T v) { return v == v && !std::isinf((long double)v); }
// any value of a type, edges often
template<typename T, typename = void> struct Any;
template<typename T> struct Any<T, typename std::enable_if<std::is_integral<T>::value>::type>
{
    static T make(Rng &r)
    {
        typedef std::numeric_limits<T> L;
        switch (r.below(8)) { case 0: return L::max(); case 1: return L::min(); case 2: return (T)(L::max() - (T)r.below(3)); case 3: return (T)(L::min() + (T)r.below(3)); case 4: return (T)r.range(0, 3); case 5: return (T)(r.range(0, 100)); default: return (T)(r.u64() >> r.below(64)) ; }
    }
};
template<typename T> struct Any<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static T make(Rng &r)
    {
        typedef std::numeric_limits<T> L;
        switch (r.below(10)) { case 0: return 0; case 1: return (T)-0.0; case 2: return L::max(); case 3: return L::lowest(); case 4: return L::min(); case 5: return (T)(1 + L::epsilon()); case 6: return (T)r.range(-10, 10); case 7: return (T)r.wide(62); case 8: return (T)((r.real() - 0.5) * std::pow(10.0, (double)r.range(-30, 30))); default: return (T)(r.real() * 100 - 50); }
    }
};
static std::string any_text(Rng &r) { std::string s; for (int i = (int)r.below(r.chance(80) ? 12 : 80); i > 0; i--) s += (char)(r.chance(60) ? r.range(32, 126) : r.range(0, 255)); return r.chance(20) ? std::to_string(r.wide()) : s; }

template<typename T> void expect_order(const metric_value &a, const metric_value &b, int c, const char *what, const T &text)
{
    VF_CHECK((a == b) == (c == 0), "equality", "%s: %s compares %s", what, text().c_str(), a == b ? "equal" : "unequal");
    VF_CHECK((a != b) == (c != 0), "inequality", "%s: %s: != says %d", what, text().c_str(), (int)(a != b));
    VF_CHECK((a < b) == (c < 0), "less", "%s: %s: < says %d", what, text().c_str(), (int)(a < b)); VF_CHECK((a > b) == (c > 0), "greater", "%s: %s: > says %d", what, text().c_str(), (int)(a > b));
    VF_CHECK((a <= b) == (c <= 0), "less-equal", "%s: %s: <= says %d", what, text().c_str(), (int)(a <= b)); VF_CHECK((a >= b) == (c >= 0), "greater-equal", "%s: %s: >= says %d", what, text().c_str(), (int)(a >= b));
    // and snapshots of single values
    value_snapshot sa{metric_value(a)}, sb{metric_value(b)}; VF_CHECK((sa == sb) == (c == 0) && (sa != sb) == (c != 0), "snapshot-equality", "%s: snapshots of %s: == %d, != %d", what, text().c_str(), (int)(sa == sb), (int)(sa != sb));
    VF_CHECK((sa == b) == (c == 0) && (sa != b) == (c != 0), "snapshot-equality", "%s: a snapshot and a value of %s: == %d, != %d", what, text().c_str(), (int)(sa == b), (int)(sa != b));
    if (c == 0) VF_CHECK(std::hash<metric_value>()(a) == std::hash<metric_value>()(b), "hash", "%s: equal values %s hash differently", what, text().c_str());
    average_value_snapshot va{metric_value(a)}, vb{metric_value(b)}; VF_CHECK((va == vb) == (c == 0) && (va != vb) == (c != 0), "snapshot-equality", "%s: average snapshots of %s", what, text().c_str());
    count("comparisons");
}
template<typename A, typename B> std::function<std::string()> pair_text(A a, B b) { return [a, b] { std::stringstream s; s.precision(25); s << +a << " and " << +b; return s.str(); }; }
template<typename T> T pass(Rng &r, const T &v, const char *what)
{
    // through copies, moves and assignments over values of other kinds
    metric_value m(v);
    for (int i = (int)r.below(4); i > 0; i--) switch (r.below(4))
    {
    case 0: { metric_value c(m); m = std::move(c); break; }
    case 1: { metric_value c(std::string("a text that is longer than what fits inside of a string")); c = std::move(m); m = metric_value(1); m = std::move(c); break; }
    case 2: { metric_value c(3.5); c = metric_value(m); m = std::move(c); break; }
    default: { metric_value c(std::move(m)), d(c); m = std::move(d); }
    }
    (void)what; T back = m; return back;
}
// one numeric type with itself
template<typename T> void numbers(Rng &r, const char *what)
{
    T a = Any<T>::make(r), b = r.chance(20) ? a : Any<T>::make(r); T back = pass(r, a, what);
    VF_CHECK(back == a, "round-trip", "%s: %s came back as %s", what, pair_text(a, back)().c_str(), ""); count("conversions");
    expect_order(metric_value(a), metric_value(b), a < b ? -1 : a > b ? 1 : 0, what, pair_text(a, b)); expect_order(metric_value(a), metric_value(a), 0, what, pair_text(a, a));
    if (a == b) VF_CHECK(std::hash<metric_value>()(metric_value(a)) == std::hash<metric_value>()(metric_value(b)), "hash", "%s: equal values %s hash differently", what, pair_text(a, b)().c_str());
    VF_CHECK(std::hash<metric_value>()(metric_value(a)) == std::hash<metric_value>()(metric_value(T(a))), "hash", "%s: hashing twice", what);
    for (int op = 0; op < 4; op++)
    {
        // only where the result is representable
        bool fits = true; long double want = 0, tol = 0; T iwant = 0;
        if (std::is_integral<T>::value)
        {
            __int128 x = a, y = b, z = 0; if (op == 0) z = x + y; else if (op == 1) z = x - y; else if (op == 2) { if (__builtin_mul_overflow(x, y, &z)) continue; } else z = y ? x / y : 0;
            fits = z >= (__int128)std::numeric_limits<T>::min() && z <= (__int128)std::numeric_limits<T>::max(); iwant = (T)z; if (op == 3 && y && x % y) continue; // quotients that aren't whole are what integers give
        }
        else
        {
            long double x = a, y = b; if (op == 0) want = x + y; else if (op == 1) want = x - y; else if (op == 2) want = x * y; else want = y != 0 ? x / y : 0;
            fits = std::fabs(want) <= (long double)std::numeric_limits<T>::max() && (want == 0 || std::fabs(want) >= (long double)std::numeric_limits<T>::min()); tol = std::fabs(want) * 4 * (long double)std::numeric_limits<T>::epsilon();
        }
        if (!fits) continue;
        metric_value ma(a), mb(b), res(0); bool compound = r.chance(40);
        if (compound) { metric_value c(ma); if (op == 0) c += mb; else if (op == 1) c -= mb; else if (op == 2) c *= mb; else c /= mb; res = std::move(c); }
        else { if (op == 0) res = ma + mb; else if (op == 1) res = ma - mb; else if (op == 2) res = ma * mb; else res = ma / mb; }
        T got = static_cast<T>(res); static const char *const names[] = {"sum", "difference", "product", "quotient"};
        if (std::is_integral<T>::value) VF_CHECK(got == iwant, names[op], "%s: the %s of %s is %s, expected %s", what, names[op], pair_text(a, b)().c_str(), pair_text(got, iwant)().c_str(), ""); 
        else VF_CHECK(std::fabs((long double)got - want) <= tol, names[op], "%s: the %s of %s is %.25Lg, expected %.25Lg", what, names[op], pair_text(a, b)().c_str(), (long double)got, want);
        VF_CHECK(static_cast<T>(ma) == a && static_cast<T>(mb) == b, "operands", "%s: the operands of the %s changed", what, names[op]);
        if (!std::is_integral<T>::value || true) expect_order(res, metric_value(got), 0, what, pair_text(got, got));
        count("arithmetic");
    }
    cover(mix(hstr(what), mix(hbits((double)a), hbits((double)b)))); if (want_sample()) sample("%s: %s", what, pair_text(a, b)().c_str());
}
VF_SEQ(same_type, 6)
{
    switch (r.below(11))
    {
    case 0: numbers<int8_t>(r, "int8"); break; case 1: numbers<uint8_t>(r, "uint8"); break; case 2: numbers<int16_t>(r, "int16"); break; case 3: numbers<uint16_t>(r, "uint16"); break;
    case 4: numbers<int32_t>(r, "int32"); break; case 5: numbers<uint32_t>(r, "uint32"); break; case 6: numbers<int64_t>(r, "int64"); break; case 7: numbers<uint64_t>(r, "uint64"); break;
    case 8: numbers<float>(r, "float"); break; case 9: numbers<double>(r, "double"); break; default: numbers<long double>(r, "long double");
    }
}
// an integer and a floating point number
template<typename I, typename F> void mixed(Rng &r, const char *what)
{
    I i = Any<I>::make(r); F f = r.chance(25) ? (F)i : r.chance(25) ? (F)i + (F)(r.chance(50) ? 0.5 : -0.5) : Any<F>::make(r); long double x = (long double)i, y = f;
    expect_order(metric_value(i), metric_value(f), x < y ? -1 : x > y ? 1 : 0, what, pair_text(i, f)); expect_order(metric_value(f), metric_value(i), y < x ? -1 : y > x ? 1 : 0, what, pair_text(f, i));
    for (int op = 0; op < 8; op++)
    {
        bool swap = op >= 4; long double p = swap ? y : x, q = swap ? x : y, want = op % 4 == 0 ? p + q : op % 4 == 1 ? p - q : op % 4 == 2 ? p * q : q != 0 ? p / q : 0;
        if (std::fabs(want) > (long double)std::numeric_limits<F>::max() || (want != 0 && std::fabs(want) < (long double)std::numeric_limits<F>::min())) continue;
        metric_value mi(i), mf(f); metric_value &a = swap ? mf : mi, &b = swap ? mi : mf; metric_value res = op % 4 == 0 ? a + b : op % 4 == 1 ? a - b : op % 4 == 2 ? a * b : a / b; if (r.chance(40)) { if (op % 4 == 0) a += b; else if (op % 4 == 1) a -= b; else if (op % 4 == 2) a *= b; else a /= b; res = std::move(a); }
        long double got = static_cast<long double>(res), tol = (std::fabs(want) * 4 + (op % 4 < 2 ? 0 : 0)) * (long double)std::numeric_limits<F>::epsilon(); static const char *const names[] = {"mixed-sum", "mixed-difference", "mixed-product", "mixed-quotient"};
        VF_CHECK(std::fabs(got - want) <= tol, names[op % 4], "%s: %s of %s is %.25Lg, expected %.25Lg", what, names[op % 4], swap ? pair_text(f, i)().c_str() : pair_text(i, f)().c_str(), got, want);
        count("arithmetic");
    }
    cover(mix(hstr(what), mix(hbits((double)i), hbits((double)f))));
}
VF_SEQ(mixed_types, 4)
{
    switch (r.below(9)) { case 0: mixed<int32_t, double>(r, "int32,double"); break; case 1: mixed<int64_t, double>(r, "int64,double"); break; case 2: mixed<uint64_t, double>(r, "uint64,double"); break; case 3: mixed<int64_t, float>(r, "int64,float"); break; case 4: mixed<uint8_t, float>(r, "uint8,float"); break; case 5: mixed<uint64_t, long double>(r, "uint64,long double"); break; case 6: mixed<int64_t, long double>(r, "int64,long double"); break; case 7: mixed<int16_t, double>(r, "int16,double"); break; default: mixed<uint32_t, float>(r, "uint32,float"); }
}
// integers of any two types, and any three numbers
struct Boxed { metric_value v; long double x; };
static Boxed any_number(Rng &r)
{
    auto make = [](auto v) { return Boxed{metric_value(v), (long double)v}; };
    switch (r.below(11)) { case 0: return make(Any<int8_t>::make(r)); case 1: return make(Any<uint8_t>::make(r)); case 2: return make(Any<int16_t>::make(r)); case 3: return make(Any<uint16_t>::make(r)); case 4: return make(Any<int32_t>::make(r)); case 5: return make(Any<uint32_t>::make(r)); case 6: return make(Any<int64_t>::make(r)); case 7: return make(Any<uint64_t>::make(r)); case 8: return make(Any<float>::make(r)); case 9: return make(Any<double>::make(r)); default: return make(Any<long double>::make(r)); }
}
VF_SEQ(orders, 3)
{
    std::vector<Boxed> v; int n = (int)r.range(2, 40); uint64_t h = (uint64_t)n; for (int i = 0; i < n; i++) { v.push_back(any_number(r)); h = mix(h, hbits((double)v.back().x)); }
    for (int k = 0; k < 30; k++) { auto &a = r.pick(v), &b = r.pick(v); expect_order(a.v, b.v, a.x < b.x ? -1 : a.x > b.x ? 1 : 0, "numbers of any types", pair_text(a.x, b.x)); }
    std::vector<const Boxed *> p; for (auto &x : v) p.push_back(&x); std::sort(p.begin(), p.end(), [](const Boxed *a, const Boxed *b) { return a->v < b->v; });
    for (size_t i = 1; i < p.size(); i++) VF_CHECK(p[i - 1]->x <= p[i]->x, "order", "sorting values put %.25Lg before %.25Lg", p[i - 1]->x, p[i]->x);
    cover(h);
}
static nanoseconds to_ns(const metric_value &m) { nanoseconds d = m; return d; }
VF_SEQ(texts, 2)
{
    std::string a = any_text(r), b = r.chance(30) ? a : any_text(r), back = pass(r, a, "text"); VF_CHECK(back == a, "round-trip", "a text of %zu bytes came back as %zu", a.size(), back.size()); count("conversions");
    expect_order(metric_value(a), metric_value(b), a < b ? -1 : a > b ? 1 : 0, "texts", [&] { return "'" + a + "' and '" + b + "'"; });
    if (a == b) VF_CHECK(std::hash<metric_value>()(metric_value(a)) == std::hash<metric_value>()(metric_value(b)), "hash", "equal texts hash differently");
    VF_CHECK(static_cast<std::string>(metric_value(a.c_str())) == std::string(a.c_str()), "round-trip", "a C string changed");
    // texts of numbers are those numbers, others aren't any
    { int64_t n = Any<int64_t>::make(r); uint64_t u = Any<uint64_t>::make(r); double d = (double)r.wide(40) / 256; metric_value tn(std::to_string(n)), tu(std::to_string(u)); std::stringstream ds; ds.precision(17); ds << d; metric_value td(ds.str());
      VF_CHECK((int64_t)tn == n && (uint64_t)tu == u && (double)td == d, "text-number", "the texts of %lld, %llu and %.17g convert to %lld, %llu and %.17g", (long long)n, (unsigned long long)u, d, (long long)(int64_t)tn, (unsigned long long)(uint64_t)tu, (double)td);
      VF_CHECK((long double)tn == (long double)n, "text-number", "the text of %lld converts to %.20Lg", (long long)n, (long double)tn);
      nanoseconds dn = to_ns(metric_value(std::to_string(n % 1000000000000LL))); VF_CHECK(dn.count() == n % 1000000000000LL, "text-number", "the text of a number converts to %lld ns", (long long)dn.count()); count("conversions", 4); }
    cover(mix(hstr(a), hstr(b)));
}
// whatever locale the program has set, values read as they do without
static std::string number_like(Rng &r)
{
    static const char *const w[] = {"1,5", "1.5", "-0.25", ",5", ".5", "1.2.3", "1,234.5", "1.234,5", "0x1.8p1", "inf", "-nan", "1e5", "1e-2,", "12.", "12,", "+7.75", " 2.5", "2.5 ", "1.234.567"};
    if (r.chance(50)) return w[r.below(sizeof w / sizeof *w)]; std::string t = std::to_string(r.wide(40)); t.insert(r.below(t.size() + 1), 1, r.chance(70) ? '.' : ','); return t;
}
struct Readings
{
    std::string text; int64_t i; double d; long double ld; int64_t ns; int cmp; std::string sum;
    Readings(const metric_value &a, const metric_value &b) : text(static_cast<std::string>(a)), i(static_cast<int64_t>(a)), d(static_cast<double>(a)), ld(static_cast<long double>(a)), ns(to_ns(a).count()), cmp(a < b ? -1 : a == b ? 0 : 1) { }
};
VF_SEQ(program_locale, 1)
{
    auto value = [&] { switch (r.below(5)) { case 0: return metric_value((float)Any<float>::make(r)); case 1: return metric_value((double)r.wide(50) / 1024); case 2: return metric_value((int64_t)r.wide(50)); case 3: return metric_value(std::chrono::duration<double>((double)r.wide(40) / 64)); default: return metric_value(number_like(r)); } };
    metric_value a = value(), b = value(); if (r.chance(10)) a = metric_value((long double)r.wide(60) / 4096); bool in_range = std::fabs(static_cast<long double>(a)) < 1e9L || !(static_cast<long double>(a) == static_cast<long double>(a)); if (!in_range) a = metric_value(0.125);
    int which = (int)r.range(1, 2); Readings c(a, b); ProgramLocale *pl = new ProgramLocale(which); bool set = pl->set; std::unique_ptr<Readings> l(new Readings(a, b)); delete pl;
    VF_CHECK(c.text == l->text, "locale-text", "'%s' reads '%s' in another locale", c.text.c_str(), l->text.c_str());
    VF_CHECK(c.i == l->i && c.ns == l->ns && !memcmp(&c.d, &l->d, sizeof c.d) && (c.ld == l->ld || (c.ld != c.ld && l->ld != l->ld)), "locale-number", "'%s' converts to %lld, %.17g, %lld ns, and to %lld, %.17g, %lld ns in another locale", c.text.c_str(), (long long)c.i, c.d, (long long)c.ns, (long long)l->i, l->d, (long long)l->ns);
    VF_CHECK(c.cmp == l->cmp, "locale-order", "'%s' compares otherwise in another locale", c.text.c_str());
    if (set) cover(mix(hstr(c.text), (uint64_t)which)); else cover(0); count("conversions", 5);
}
// values in containers: exchanged, shuffled, sorted, moved over each other and over themselves
struct Held { metric_value v; int kind; std::string was; Held(metric_value &&v, int k, std::string w) : v(std::move(v)), kind(k), was(std::move(w)) { } Held(Held &&) = default; Held &operator=(Held &&) = default; };
static void same(const Held &h, const char *after)
{
    std::string got;
    switch (h.kind) { case 0: got = std::to_string((long long)static_cast<int64_t>(h.v)); break; case 1: got = std::to_string((double)static_cast<double>(h.v)); break; case 2: got = static_cast<std::string>(h.v); break;
    default: { std::chrono::nanoseconds d = h.v; got = std::to_string((long long)d.count()); } }
    VF_CHECK(got == h.was, "moved", "after %s a value of kind %d reads '%s', it was '%s'", after, h.kind, got.c_str(), h.was.c_str()); count("values_read_back");
}
VF_SEQ(containers, 2)
{
    auto make = [&]() -> Held {
        switch (r.below(4))
        {
        case 0: { auto x = Any<int64_t>::make(r); return Held(metric_value(x), 0, std::to_string((long long)x)); }
        case 1: { double x = (double)r.range(-1000000, 1000000) / 64; return Held(metric_value(x), 1, std::to_string(x)); }
        case 2: { auto x = any_text(r); if (r.chance(50)) x += " and more of it than fits inside of a string"; return Held(metric_value(x), 2, x); }
        default: { std::chrono::microseconds x((int64_t)r.wide(40)); return Held(metric_value(x), 3, std::to_string((long long)std::chrono::nanoseconds(x).count())); }
        }
    };
    std::vector<Held> v; int n = (int)r.range(1, 8); uint64_t h = (uint64_t)n; for (int i = 0; i < n; i++) { v.push_back(make()); h = mix(h, hstr(v.back().was)); }
    for (int s = (int)r.range(3, 25); s > 0; s--)
    {
        size_t a = r.below(v.size()), b = r.chance(30) ? a : r.below(v.size()); const char *what = ""; uint64_t k = r.below(9);
        switch (k)
        {
        case 0: what = "an exchange"; std::swap(v[a].v, v[b].v); std::swap(v[a].kind, v[b].kind); v[a].was.swap(v[b].was); break;
        case 1: what = "an exchange of what holds it"; std::swap(v[a], v[b]); break;
        case 2: { what = "a move"; metric_value t(std::move(v[a].v)); metric_value u(metric_value(std::string("something else that is long enough to be stored elsewhere"))); u = std::move(t); v[a].v = std::move(u); break; }
        case 3: what = "a shuffle"; std::shuffle(v.begin(), v.end(), std::mt19937_64(r.u64())); break;
        case 4: { what = "a move onto itself"; metric_value &x = v[a].v, &y = v[a].v; x = std::move(y); break; }
        case 5: what = "an insertion"; if (v.size() < 12) v.insert(v.begin() + (long)a, make()); break;
        case 6: what = "a removal"; if (v.size() > 1) v.erase(v.begin() + (long)a); break;
        case 7: what = "a rotation"; std::rotate(v.begin(), v.begin() + (long)a, v.end()); break;
        default: what = "a copy over another"; if (a != b) { v[a].v = metric_value(v[b].v); v[a].kind = v[b].kind; v[a].was = v[b].was; }
        }
        VF_NOTE("%s of %zu (%zu)", what, a, b); h = mix(h, k * 131 + a * 13 + b); for (auto &x : v) same(x, what);
    }
    // a value combined with itself
    { int64_t x = r.range(-30000, 30000); metric_value a(x), b(x), c(x), d(x); a += a; b -= b; c *= c; d /= d;
      VF_CHECK((int64_t)a == 2 * x && (int64_t)b == 0 && (int64_t)c == x * x && (int64_t)d == (x ? 1 : 0), "self", "%lld combined with itself gave %lld %lld %lld %lld", (long long)x, (long long)(int64_t)a, (long long)(int64_t)b, (long long)(int64_t)c, (long long)(int64_t)d); }
    { std::vector<metric_value> w; Nums want; for (int i = (int)r.range(2, 30); i > 0; i--) { int64_t x = r.range(-9, 9); w.emplace_back(x); want.push_back((num_t)x); }
      std::sort(w.begin(), w.end()); std::sort(want.begin(), want.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); want.erase(std::unique(want.begin(), want.end()), want.end());
      VF_CHECK(w.size() == want.size(), "unique", "sorting and uniting %zu values left %zu", want.size(), w.size()); for (size_t i = 0; i < w.size(); i++) VF_CHECK((num_t)(int64_t)w[i] == want[i], "unique", "value %zu is %lld", i, (long long)(int64_t)w[i]); }
    // snapshots of single values
    { value_snapshot a(metric_value(v[0].v)), b(metric_value(1)); std::swap(a, b); std::swap(a, b); value_snapshot &x = a, &y = a; x = std::move(y); VF_CHECK(a == v[0].v && a.value() == v[0].v, "snapshot", "a snapshot that was exchanged and moved onto itself changed"); }
    cover(h);
}
// ----------------------------------------------------------------------------------------------------------- durations
template<typename D> constexpr int64_t ns_per() { return duration_cast<nanoseconds>(D(1)).count(); }
template<typename D> D any_duration(Rng &r, int bits) { int64_t lim = ((int64_t)1 << bits) / ns_per<D>(); int64_t v = r.chance(30) ? r.range(-5, 5) : r.chance(50) ? r.range(-1000, 1000) : r.wide(bits); if (lim && std::llabs(v) > lim) v %= lim; if (!lim) v = 0; return D(v); }
// (an explicit conversion would pick the constructor of the duration from a plain number)
template<typename D> D to(const metric_value &m) { D d = m; return d; }
template<typename D> int64_t ns(const D &d) { return duration_cast<nanoseconds>(d).count(); }
template<typename D, typename E> void durations(Rng &r, const char *what)
{
    D a = any_duration<D>(r, 55); E b = any_duration<E>(r, 55); if (r.chance(15) && ns(a) % ns_per<E>() == 0) b = E(ns(a) / ns_per<E>()); int64_t x = ns(a), y = ns(b);
    VF_CHECK(pass(r, a, what) == a, "round-trip", "%s: %lld ns came back different", what, (long long)x); count("conversions");
    auto text = [&] { return std::to_string(x) + " ns and " + std::to_string(y) + " ns"; };
    expect_order(metric_value(a), metric_value(b), x < y ? -1 : x > y ? 1 : 0, what, text);
    if (x == y) VF_CHECK(std::hash<metric_value>()(metric_value(a)) == std::hash<metric_value>()(metric_value(b)), "hash", "%s: equal durations hash differently", what);
    // to any unit
    metric_value m(a); VF_CHECK(ns(to<nanoseconds>(m)) == x, "conversion", "%s: %lld ns is %lld ns", what, (long long)x, (long long)to<nanoseconds>(m).count());
    VF_CHECK(to<microseconds>(m).count() == x / 1000 && to<milliseconds>(m).count() == x / 1000000 && to<seconds>(m).count() == x / 1000000000 && to<minutes>(m).count() == x / 60000000000LL && to<hours>(m).count() == x / 3600000000000LL, "conversion", "%s: %lld ns in other units", what, (long long)x);
    VF_CHECK(std::fabs((to<std::chrono::duration<double>>(m)).count() - (double)x / 1e9) <= std::fabs((double)x / 1e9) * 1e-12, "conversion", "%s: %lld ns in seconds", what, (long long)x);
    metric_value s = m + metric_value(b), t(m); t += metric_value(b); VF_CHECK(ns(to<nanoseconds>(s)) == x + y, "duration-sum", "%s: the sum of %s is %lld ns", what, text().c_str(), (long long)to<nanoseconds>(s).count()); VF_CHECK(ns(to<nanoseconds>(t)) == x + y, "duration-sum", "%s: adding to get the sum of %s gives %lld ns", what, text().c_str(), (long long)to<nanoseconds>(t).count());
    metric_value d = m - metric_value(b); VF_CHECK(ns(to<nanoseconds>(d)) == x - y, "duration-difference", "%s: the difference of %s is %lld ns", what, text().c_str(), (long long)to<nanoseconds>(d).count());
    int64_t k = r.chance(50) ? r.range(-10, 10) : r.wide(20); D c = any_duration<D>(r, 40); metric_value p = r.chance(50) ? metric_value(c) * metric_value(k) : metric_value(k) * metric_value(c);
    VF_CHECK(ns(to<nanoseconds>(p)) == ns(c) * k, "duration-scale", "%s: %lld ns times %lld is %lld ns", what, (long long)ns(c), (long long)k, (long long)to<nanoseconds>(p).count());
    int32_t k32 = (int32_t)r.range(-1000, 1000); metric_value p2 = metric_value(c) * metric_value(k32); VF_CHECK(ns(to<nanoseconds>(p2)) == ns(c) * k32, "duration-scale", "%s: %lld ns times %d is %lld ns", what, (long long)ns(c), k32, (long long)to<nanoseconds>(p2).count());
    if (k32) { metric_value q = metric_value(c) / metric_value(k32), q2(c); q2 /= metric_value(k); num_t want = (num_t)ns(c) / k32, got = (num_t)ns(to<nanoseconds>(q));
        VF_CHECK(std::fabs(got - want) < (num_t)ns_per<D>(), "duration-quotient", "%s: %lld ns divided by %d is %.20Lg ns", what, (long long)ns(c), k32, got);
        if (k) VF_CHECK(std::fabs((num_t)ns(to<nanoseconds>(q2)) - (num_t)ns(c) / k) < (num_t)ns_per<D>(), "duration-quotient", "%s: %lld ns divided by %lld is %lld ns", what, (long long)ns(c), (long long)k, (long long)ns(to<nanoseconds>(q2))); }
    VF_CHECK(ns(to<nanoseconds>(metric_value(c) / metric_value(0))) == 0, "division-by-zero", "%s: %lld ns divided by zero isn't zero", what, (long long)ns(c));
    count("arithmetic", 7); cover(mix(hstr(what), mix((uint64_t)x, (uint64_t)y))); if (want_sample()) sample("%s: %s", what, text().c_str());
}
VF_SEQ(duration_values, 4)
{
    switch (r.below(13))
    {
    case 0: durations<nanoseconds, nanoseconds>(r, "ns,ns"); break; case 1: durations<microseconds, microseconds>(r, "us,us"); break; case 2: durations<milliseconds, milliseconds>(r, "ms,ms"); break; case 3: durations<seconds, seconds>(r, "s,s"); break;
    case 4: durations<milliseconds, nanoseconds>(r, "ms,ns"); break; case 5: durations<nanoseconds, milliseconds>(r, "ns,ms"); break; case 6: durations<seconds, microseconds>(r, "s,us"); break; case 7: durations<hours, seconds>(r, "h,s"); break;
    case 8: durations<minutes, milliseconds>(r, "min,ms"); break; case 9: durations<microseconds, seconds>(r, "us,s"); break; case 10: durations<hours, hours>(r, "h,h"); break; case 11: durations<hours, minutes>(r, "h,min"); break; default: durations<hours, nanoseconds>(r, "h,ns");
    }
}
}}
