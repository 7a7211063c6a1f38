// C25: paths and tag sets compare and hash by content
#include "snap.hpp"
#include <list>
#include <cxxmetrics/metric_path.hpp>
#include <cxxmetrics/tag_collection.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;
using namespace cxxmetrics_literals;

typedef std::vector<std::string> Parts;
static std::string component(Rng &r)
{
    switch (r.below(12))
    {
    case 0: return ""; case 1: case 2: case 3: return std::string(1, (char)('a' + r.below(4))); case 4: return r.chance(50) ? "ab" : "a/b"; case 5: return "/"; case 6: return r.chance(50) ? " " : "a "; case 7: return "\xc3\xa9\xf0\x9f\x98\x80";
    case 8: return std::string(r.below(300), 'x') + (r.chance(50) ? "y" : ""); case 9: { std::string s; for (int i = (int)r.below(8); i >= 0; i--) s += (char)r.below(256); return s; } case 10: return std::string("a\0b", 3); default: { std::string s; for (int i = (int)r.below(12); i > 0; i--) s += (char)r.range(32, 126); return s; }
    }
}
// one component, in all the ways one can be written
static metric_path one(Rng &r, const std::string &s)
{
    bool c = s.find('\0') == std::string::npos; switch (r.below(c ? 7 : 2))
    {
    case 0: { std::string x(s); return metric_path(std::move(x)); } case 1: return metric_path(s); case 2: return metric_path(s.c_str()); case 3: return metric_path(s.c_str(), s.size()); case 4: return operator""_m(s.c_str(), s.size());
    case 5: { std::string longer = s + "tail"; return s.empty() ? metric_path("") : metric_path(longer.c_str(), s.size()); } default: { metric_path p(s.c_str()); metric_path q(p); return q; }
    }
}
// parts that literals can be made of
template<typename F> static metric_path literal(Rng &r, std::string &s, const metric_path &right, F &&)
{
    switch (r.below(5)) { case 0: s = ""; return "" / right; case 1: s = "a"; return "a" / right; case 2: s = "literal part"; return "literal part" / right; case 3: s = "a/b"; return "a/b" / right; default: s = "b"; return "b"_m / right; }
}
static metric_path compose(Rng &r, const Parts &p, size_t a, size_t b)
{
    if (a == b) return r.chance(50) ? metric_path("") : metric_path(std::string());
    if (a + 1 == b) { metric_path x = one(r, p[a]); if (r.chance(20)) return x / metric_path(""); if (r.chance(20)) return "" / x; if (r.chance(10)) return metric_path(nullptr) / x; return x; }
    size_t k = a + (r.chance(10) ? 0 : 1 + r.below(b - a - 1));
    metric_path x = compose(r, p, a, k), y = compose(r, p, k, b); metric_path z = x / y;
    return z;
}
static Parts content(const metric_path &p) { return Parts(p.begin(), p.end()); }
static Parts full(const Parts &p) { Parts r; for (auto &x : p) if (!x.empty()) r.push_back(x); return r; }
static std::string shown(const Parts &p) { std::string s; for (auto &x : p) { s += "["; for (char c : x.substr(0, 40)) s += c >= 32 && c < 127 ? c : '?'; s += x.size() > 40 ? "...]" : "]"; } return s; }
static std::string joined(const Parts &p, const std::string &d) { std::string s; for (size_t i = 0; i < p.size(); i++) { if (i) s += d; s += p[i]; } return s; }
static void expect(const metric_path &p, const Parts &want, const char *what)
{
    VF_CHECK(content(p) == want, "components", "%s has the components %s, expected %s", what, shown(content(p)).c_str(), shown(want).c_str());
}
static void compare(const metric_path &a, const metric_path &b, bool same, const Parts &pa, const Parts &pb)
{
    VF_CHECK((a == b) == same && (b == a) == same, "path-equality", "%s and %s compare %s", shown(pa).c_str(), shown(pb).c_str(), a == b ? "equal" : "unequal");
    VF_CHECK((a != b) != same && (b != a) != same, "path-inequality", "%s and %s: != says %d", shown(pa).c_str(), shown(pb).c_str(), (int)(a != b));
    if (same) VF_CHECK(std::hash<metric_path>()(a) == std::hash<metric_path>()(b), "path-hash", "equal paths %s hash differently", shown(pa).c_str());
    count(same ? "equal_paths" : "unequal_paths");
}
static Parts any_parts(Rng &r) { Parts p; for (int i = (int)r.below(r.chance(90) ? 6 : 60); i > 0; i--) p.push_back(component(r)); return p; }
VF_SEQ(paths, 5)
{
    Parts p = any_parts(r), f = full(p); metric_path a = compose(r, p, 0, p.size()), b = compose(r, f, 0, f.size()); expect(a, f, "a path"); expect(b, f, "a path composed differently"); compare(a, b, true, f, f); compare(a, a, true, f, f);
    // different ones, often nearly the same
    Parts q = f; switch (r.below(8))
    {
    case 7: // two components written as one, with something between
        if (q.size() > 1) { static const std::string between[] = {"/", ".", ":", "_", " ", ",", std::string(1, '\0'), "::", "\n", "\x01", "|"}; size_t k = r.below(q.size() - 1); q[k] += r.pick(std::vector<std::string>(between, between + 11)) + q[k + 1]; q.erase(q.begin() + (long)k + 1); } break;
    case 0: q = any_parts(r); break; case 1: if (!q.empty()) q.erase(q.begin() + (long)r.below(q.size())); break; case 2: q.insert(q.begin() + (long)r.below(q.size() + 1), component(r)); break; case 3: if (q.size() > 1) std::swap(q[r.below(q.size())], q[r.below(q.size())]); break;
    case 4: if (!q.empty()) { auto &s = q[r.below(q.size())]; s[r.below(s.size())] = (char)(s[0] ^ (char)(1 + r.below(3))); } break; case 5: if (q.size() > 1) { size_t k = r.below(q.size() - 1); q[k] += q[k + 1]; q.erase(q.begin() + (long)k + 1); } break; default: if (!q.empty()) { auto &s = q[r.below(q.size())]; if (s.size() > 1) { std::string t = s.substr(s.size() / 2); s.resize(s.size() / 2); q.insert(q.begin(), t); } }
    }
    q = full(q); metric_path c = compose(r, q, 0, q.size()); expect(c, q, "another path"); compare(a, c, f == q, f, q);
    // laws
    metric_path e(""); Parts g = any_parts(r); Parts gf = full(g); metric_path d = compose(r, g, 0, g.size()); compare((a / c) / d, a / (c / d), true, f, q); compare(a / e, a, true, f, f); compare(e / a, a, true, f, f); compare(e / e, e, true, Parts(), Parts());
    Parts all = f; all.insert(all.end(), q.begin(), q.end()); all.insert(all.end(), gf.begin(), gf.end()); expect(a / c / d, all, "a composition of three"); expect(a, f, "a path after being composed"); expect(c, q, "a path after being composed");
    Parts ac = f; ac.insert(ac.end(), q.begin(), q.end()); expect(a / c, ac, "a composition"); expect(c / c, [&] { Parts x = q; x.insert(x.end(), q.begin(), q.end()); return x; }(), "a path composed with itself");
    std::string s; metric_path l = literal(r, s, a, 0); Parts lf; if (!s.empty()) lf.push_back(s); lf.insert(lf.end(), f.begin(), f.end()); expect(l, lf, "a literal and a path"); metric_path sl = metric_path(s) / a; compare(l, sl, true, lf, lf);
    // joined
    static const char *const ds[] = {"/", "", ".", "::", "_", " long delimiter "}; for (const char *x : ds) VF_CHECK(a.join(x) == joined(f, x), "join", "%s joined by '%s' is '%s'", shown(f).c_str(), x, a.join(x).substr(0, 200).c_str());
    // copies
    metric_path k(a), m(std::move(k)); expect(m, f, "a moved copy"); k = c; expect(k, q, "an assigned path"); k = std::move(m); expect(k, f, "a path moved into"); k = k / k; expect(a, f, "the original");
    cover(mix(hstr(joined(f, "\n")), hstr(joined(q, "\n")))); count("paths", 12); smax("most_components", f.size()); sample("%s and %s", shown(f).c_str(), shown(q).c_str());
}
VF_SEQ(keys, 1)
{
    std::unordered_map<metric_path, int> m; std::map<Parts, int> model; int n = (int)r.range(1, 60);
    for (int i = 0; i < n; i++) { Parts p; for (int k = (int)r.below(4); k > 0; k--) p.push_back(std::string(1, (char)('a' + r.below(3)))); if (r.chance(20)) p.push_back(""); m[compose(r, p, 0, p.size())]++; model[full(p)]++; }
    VF_CHECK(m.size() == model.size(), "path-key", "%zu paths among the keys, expected %zu", m.size(), model.size()); for (auto &x : m) VF_CHECK(model[content(x.first)] == x.second, "path-key", "path %s was found %d times, expected %d", shown(content(x.first)).c_str(), x.second, model[content(x.first)]);
    count("paths", (uint64_t)n); cover((uint64_t)n * 1000 + m.size());
}

// ------------------------------------------------------------------------------------------------------------------- tags
struct Val { int kind; int64_t i; double d; std::string s; bool operator<(const Val &o) const { return std::tie(kind, i, d, s) < std::tie(o.kind, o.i, o.d, o.s); } bool operator==(const Val &o) const { return kind == o.kind && i == o.i && d == o.d && s == o.s; } };
// kinds of values don't mix under one name: numbers, texts, durations
static Val any_val(Rng &r, int kind) { Val v{kind, 0, 0, ""}; if (kind == 0) v.d = r.chance(60) ? (double)r.range(-3, 3) : r.chance(50) ? (double)r.wide(50) : (double)r.range(-9, 9) / 4; else if (kind == 1) v.s = r.chance(60) ? std::string(1, (char)('a' + r.below(3))) : component(r); else v.i = r.range(-3, 3) * (r.chance(50) ? 1000000000 : 1000); return v; }
static metric_value write(Rng &r, const Val &v)
{
    using namespace std::chrono;
    if (v.kind == 1) return v.s.find('\0') == std::string::npos && r.chance(50) ? metric_value(v.s.c_str()) : metric_value(v.s);
    if (v.kind == 2) { int64_t n = v.i; if (n % 1000000000 == 0 && r.chance(50)) return metric_value(seconds(n / 1000000000)); if (n % 1000000 == 0 && r.chance(30)) return metric_value(milliseconds(n / 1000000)); if (n % 1000 == 0 && r.chance(50)) return metric_value(microseconds(n / 1000)); return metric_value(nanoseconds(n)); }
    if (v.d == std::floor(v.d)) switch (r.below(6)) { case 0: if (std::fabs(v.d) < 100) return metric_value((int8_t)v.d); break; case 1: if (std::fabs(v.d) < 1e9) return metric_value((int32_t)v.d); break; case 2: return metric_value((int64_t)v.d); case 3: if (v.d >= 0) return metric_value((uint64_t)v.d); break; case 4: if (std::fabs(v.d) < 1e6) return metric_value((float)v.d); break; default: break; }
    return r.chance(30) ? metric_value((long double)v.d) : metric_value(v.d);
}
typedef std::map<std::string, Val> Model;
static tag_collection build(Rng &r, const Model &m)
{
    std::vector<std::pair<std::string, metric_value>> l; for (auto &x : m) l.emplace_back(x.first, write(r, x.second)); std::shuffle(l.begin(), l.end(), std::mt19937_64(r.u64()));
    switch (r.below(8))
    {
    case 0: { std::unordered_map<std::string, metric_value> u(r.below(100)); for (auto &x : l) u.emplace(x.first, x.second); return tag_collection(u); }
    case 1: { std::map<std::string, metric_value> u; for (auto &x : l) u.emplace(x.first, x.second); return tag_collection(u); }
    case 2: { std::list<std::pair<std::string, metric_value>> u(l.begin(), l.end()); return tag_collection(u, (int)r.below(200)); }
    case 3: if (l.empty()) return tag_collection(); if (l.size() == 1) return tag_collection{{l[0].first, l[0].second}}; if (l.size() == 2) return tag_collection{{l[0].first, l[0].second}, {l[1].first, l[1].second}}; if (l.size() == 3) return tag_collection{{l[0].first, l[0].second}, {l[1].first, l[1].second}, {l[2].first, l[2].second}}; return tag_collection(l);
    case 4: { tag_collection t(l), c(t); return c; }
    case 5: { tag_collection t(l, 1000); return tag_collection(std::move(t)); }
    default: return tag_collection(l, (int)r.below(3) * 17);
    }
}
static std::string shown(const Model &m) { std::string s; for (auto &x : m) { s += x.first.substr(0, 20) + "="; s += x.second.kind == 1 ? "'" + x.second.s.substr(0, 20) + "'" : x.second.kind == 2 ? std::to_string(x.second.i) + "ns" : std::to_string(x.second.d); s += " "; } return s; }
static Model any_model(Rng &r) { Model m; for (int i = (int)r.below(r.chance(90) ? 6 : 80); i > 0; i--) { std::string n = r.chance(70) ? std::string(1, (char)('a' + r.below(5))) : component(r); m[n] = any_val(r, (int)(hstr(n) % 3)); } return m; }
static void expect(const tag_collection &t, const Model &m)
{
    size_t n = 0; for (auto &x : t) { n++; auto it = m.find(x.first); VF_CHECK(it != m.end(), "tags", "a tag collection holds '%s', which wasn't given", x.first.c_str()); Rng z(1); VF_CHECK(x.second == write(z, it->second), "tags", "the value of tag '%s' changed", x.first.c_str()); }
    VF_CHECK(n == m.size(), "tags", "a tag collection holds %zu tags, expected %zu", n, m.size());
}
static void compare(const tag_collection &a, const tag_collection &b, bool same, const Model &ma, const Model &mb)
{
    VF_CHECK((a == b) == same && (b == a) == same, "tags-equality", "{%s} and {%s} compare %d and %d", shown(ma).c_str(), shown(mb).c_str(), (int)(a == b), (int)(b == a));
    VF_CHECK((a != b) != same && (b != a) != same, "tags-inequality", "{%s} and {%s}: != says %d and %d", shown(ma).c_str(), shown(mb).c_str(), (int)(a != b), (int)(b != a));
    if (same) VF_CHECK(std::hash<tag_collection>()(a) == std::hash<tag_collection>()(b), "tags-hash", "equal tags {%s} hash differently", shown(ma).c_str());
    count(same ? "equal_tags" : "unequal_tags");
}
VF_SEQ(tags, 5)
{
    Model m = any_model(r); if (r.chance(15)) { m["a"] = Val{1, 0, 0, "x"}; m["b"] = Val{1, 0, 0, "y"}; } Model k = m; tag_collection a = build(r, m), b = build(r, m); expect(a, m); expect(b, m); compare(a, b, true, m, m); compare(a, a, true, m, m); compare(tag_collection(), tag_collection(std::vector<std::pair<std::string, metric_value>>()), true, Model(), Model());
    switch (r.below(7))
    {
    case 5: // two texts written as one
    {
        auto x = k.begin(); while (x != k.end() && x->second.kind != 1) ++x; auto y = x; if (y != k.end()) ++y; while (y != k.end() && y->second.kind != 1) ++y; if (y == k.end()) break;
        static const char *const sep[] = {",", ";", "&", "|", " ", "", "\n", ", "}, *const eq[] = {"=", ":", "", " ", "\x01", "=\""}; x->second.s += sep[r.below(8)] + y->first + eq[r.below(6)] + y->second.s; k.erase(y); break;
    }
    case 0: k = any_model(r); break; case 1: if (!k.empty()) { auto it = k.begin(); std::advance(it, (long)r.below(k.size())); k.erase(it); } break; case 2: { std::string n = component(r); k[n] = any_val(r, (int)(hstr(n) % 3)); break; }
    case 3: if (!k.empty()) { auto it = k.begin(); std::advance(it, (long)r.below(k.size())); it->second = any_val(r, it->second.kind); } break;
    case 4: if (!k.empty()) { auto it = k.begin(); std::advance(it, (long)r.below(k.size())); Val v = it->second; k.erase(it); for (int i = 0; i < 20; i++) { std::string n(1, (char)('a' + r.below(26))); if ((int)(hstr(n) % 3) == v.kind && !k.count(n)) { k[n] = v; break; } } } break;
    default: // values exchanged between names of the same kind
        for (auto x = k.begin(); x != k.end(); ++x) for (auto y = std::next(x); y != k.end(); ++y) if (x->second.kind == y->second.kind && r.chance(50)) { std::swap(x->second, y->second); x = std::prev(k.end()); break; }
    }
    tag_collection c = build(r, k); expect(c, k); compare(a, c, m == k, m, k);
    std::unordered_map<tag_collection, int> u; u[a] = 1; u[b]++; u[c]++; VF_CHECK(u.size() == (m == k ? 1u : 2u) && u[a] >= 2, "tags-key", "tags {%s} aren't found under their own key", shown(m).c_str());
    uint64_t h = 1; for (auto &x : m) h = mix(h, mix(hstr(x.first), mix(hbits(x.second.d), mix((uint64_t)x.second.i, hstr(x.second.s))))); cover(mix(h, k.size())); count("tag_sets", 3); smax("most_tags", m.size()); sample("{%s} and {%s}", shown(m).c_str(), shown(k).c_str());
}
// one hash makes no equality
VF_SEQ(same_hash, 1)
{
    static const char *const names[] = {"a", "b", "host", "zone", "n", "port"}; size_t i = r.below(6), j = (i + 1 + r.below(5)) % 6; int64_t base = r.chance(50) ? 0 : r.range(0, 1000000), step = r.chance(70) ? 1 : r.range(1, 1000); int side = (int)r.range(16, 40);
    auto make = [&](int x, int y) { return tag_collection{{names[i], metric_value(base + step * x)}, {names[j], metric_value(base + step * y)}}; };
    std::unordered_map<size_t, std::vector<std::pair<int, int>>> by; for (int x = 0; x < side; x++) for (int y = 0; y < side; y++) by[std::hash<tag_collection>()(make(x, y))].push_back({x, y});
    uint64_t n = 0, h = mix((uint64_t)i * 8 + j, (uint64_t)base);
    for (auto &g : by) for (size_t k = 1; k < g.second.size() && n < 200; k++)
    {
        auto p = g.second[k - 1], q = g.second[k]; auto a = make(p.first, p.second), b = make(q.first, q.second); n++; h = mix(h, (uint64_t)(p.first * 64 + q.first));
        VF_CHECK(!(a == b) && !(b == a) && a != b && b != a, "tags-equality", "tags %lld,%lld and %lld,%lld of one hash are said to be equal", (long long)(base + step * p.first), (long long)(base + step * p.second), (long long)(base + step * q.first), (long long)(base + step * q.second));
        std::unordered_map<tag_collection, int> u; u[a] = 1; u[b]++; VF_CHECK(u.size() == 2 && u[a] == 1 && u[b] == 1, "tags-key", "tags of one hash are one key"); count("unequal_tags");
    }
    count("same_hash_tags", n); cover(h);
}
}}
