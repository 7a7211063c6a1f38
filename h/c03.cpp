// C03: a uniform reservoir is a sound and unbiased sample
#include "snap.hpp"
#include <cxxmetrics/uniform_reservoir.hpp>
namespace vf { namespace t {
using namespace cxxmetrics;

// upper critical value of chi square for a tail of about 1e-11 (Wilson-Hilferty)
static double critical(double k) { double z = 6.7, t = 1 - 2 / (9 * k) + z * std::sqrt(2 / (9 * k)); return k * t * t * t; }

template<typename T, size_t N> void run(Rng &r)
{
    vclk_set((int64_t)(r.u64() >> 4));
    struct Guarded { uint64_t before[8]; uniform_reservoir<T, N> res; uint64_t after[8]; };
    std::unique_ptr<Guarded> g(new Guarded());
    for (int i = 0; i < 8; i++) g->before[i] = g->after[i] = 0x5ca1ab1e0ddba11ULL * (uint64_t)(i + 1);
    auto &res = g->res;
    // distinct values, so that each is recognisable
    int n = (int)N + (r.chance(20) ? -(int)r.below(N + 1) : (int)r.range(0, 150));
    std::vector<num_t> slot; Nums all; uint64_t h = mix(N, typeid(T).hash_code());
    double scale = std::is_floating_point<T>::value ? 0.25 : 1;
    std::vector<int> perm((size_t)n + 1); std::iota(perm.begin(), perm.end(), -n / 2); std::shuffle(perm.begin(), perm.end(), std::mt19937_64(r.u64()));
    bool known = true;
    for (int i = 0; i < n; i++)
    {
        T v = (T)(perm[(size_t)i] * scale); if (std::is_unsigned<T>::value) v = (T)(perm[(size_t)i] + n);
        res.update(v); all.push_back(num(v));
        if (slot.size() < N)
        {
            slot.push_back(num(v));
            if (N <= 16 || i % 7 == 0 || i + 1 == (int)N) expect_sample(res.snapshot(), slot, "fill", "while filling");
            continue;
        }
        Contents c(res.snapshot());
        VF_CHECK(c.size() == N, "size", "capacity %zu, %d recorded, but %zu held", N, i + 1, c.size());
        if (!c.known) { known = false; continue; }
        std::set<num_t> now(c.values.begin(), c.values.end());
        VF_CHECK(now.size() == N, "duplicate", "a recording appears twice in %s", show(c.values).c_str());
        VF_CHECK(now.count(num(v)), "not-admitted", "recording %.20Lg did not enter", num(v));
        int at = -1, gone = 0;
        for (size_t k = 0; k < N; k++) if (!now.count(slot[k])) { at = (int)k; gone++; }
        VF_CHECK(gone == 1, "displaced", "recording %.20Lg displaced %d values", num(v), gone);
        slot[(size_t)at] = num(v);
        h = mix(h, (uint64_t)at);
        count("displacements");
    }
    for (int i = 0; i < 8; i++) VF_CHECK(g->before[i] == 0x5ca1ab1e0ddba11ULL * (uint64_t)(i + 1) && g->after[i] == g->before[i], "out-of-bounds", "memory next to the reservoir was overwritten");
    (void)known;
    if (n > (int)N) cover(h);
    sample("capacity %zu, %d values, contents %s", N, n, show(slot).c_str());
}
template<typename T> void sizes(Rng &r)
{
    switch (r.below(8))
    {
    case 0: return run<T, 1>(r); case 1: return run<T, 2>(r); case 2: return run<T, 3>(r); case 3: return run<T, 4>(r);
    case 4: return run<T, 5>(r); case 5: return run<T, 8>(r); case 6: return run<T, 16>(r); default: return run<T, 50>(r);
    }
}
VF_SEQ(i64, 4) { sizes<int64_t>(r); }
VF_SEQ(dbl, 3) { sizes<double>(r); }
VF_SEQ(i32, 2) { sizes<int32_t>(r); }
VF_SEQ(u32, 1) { sizes<uint32_t>(r); }
VF_SEQ(flt, 1) { sizes<float>(r); }

// arbitrary values, repeated ones too, several snapshots, durations
template<typename T, size_t N> void values(Rng &r)
{
    vclk_set((int64_t)(r.u64() >> 4));
    uniform_reservoir<T, N> res; std::map<num_t, int> rec; int n = (int)r.range(0, 4 * (int)N);
    for (int i = 0; i < n; i++) { T v = Gen<T>::make(r); if (r.chance(30)) v = T{}; res.update(v); rec[num(v)]++; }
    Contents c(res.snapshot());
    VF_CHECK(c.size() == std::min((size_t)n, N), "size", "%d recorded into %zu but %zu held", n, N, c.size());
    if (c.known) { std::map<num_t, int> got; for (auto v : c.values) got[v]++; for (auto &p : got) VF_CHECK(rec.count(p.first) && rec[p.first] >= p.second, "invented", "%.20Lg is held %d times, recorded %d times", p.first, p.second, rec.count(p.first) ? rec[p.first] : 0); }
    Contents d(res.snapshot());
    if (c.known) VF_CHECK(c.values == d.values, "snapshot-changes", "two snapshots without an update between them differ");
    if (n > (int)N) cover(mix(hstr(show(c.values)), (uint64_t)n));
}
VF_SEQ(any_i64, 1) { values<int64_t, 20>(r); }
VF_SEQ(any_ns, 1) { values<std::chrono::nanoseconds, 12>(r); }
VF_SEQ(any_ms, 1) { values<std::chrono::milliseconds, 7>(r); }

// several of them, copied and assigned at any fill and used further: contents are exact as far as they are known
template<typename T, size_t N> void several(Rng &r)
{
    using R = uniform_reservoir<T, N>; vclk_set((int64_t)(r.u64() >> 4));
    int k = (int)r.range(2, 3); std::vector<std::unique_ptr<R>> res; std::vector<Nums> model((size_t)k); for (int i = 0; i < k; i++) res.emplace_back(new R());
    uint64_t h = mix(N, typeid(T).hash_code()); bool copied = false; int next = 0, n = (int)r.range(4, 40);
    auto read = [&](size_t j, Nums &out) { Contents c(res[j]->snapshot()); VF_CHECK(c.size() == model[j].size(), "size", "capacity %zu: %zu values held, expected %zu", N, c.size(), model[j].size()); out = c.values; std::sort(out.begin(), out.end()); return c.known; };
    for (int i = 0; i < n; i++)
    {
        size_t a = (size_t)r.below((uint64_t)k), b = (size_t)r.below((uint64_t)k);
        switch (r.below(8))
        {
        case 0: { VF_NOTE("%zu = %zu", a, b); R &x = *res[a]; x = *res[b]; model[a] = model[b]; copied = true; h = mix(h, a * 5 + b); break; }
        case 1: { VF_NOTE("%zu is a copy of %zu", a, b); std::unique_ptr<R> c(new R(*res[b])); auto m = model[b]; res[a] = std::move(c); model[a] = m; copied = true; h = mix(h, 100 + a * 5 + b); break; }
        case 2: { VF_NOTE("%zu is moved from a copy of %zu", a, b); R tmp(*res[b]); auto m = model[b]; if (r.chance(50)) *res[a] = std::move(tmp); else res[a].reset(new R(std::move(tmp))); model[a] = m; copied = true; h = mix(h, 200 + a * 5 + b); break; }
        default:
            for (int m = (int)r.range(1, r.chance(50) ? 3 : 2 * (int)N + 2); m > 0; m--)
            {
                T v = (T)next++; VF_NOTE("%zu update %.20Lg", a, num(v)); res[a]->update(v); count("updates"); h = mix(h, a);
                Nums before = model[a], now; bool was_full = before.size() == N;
                if (!was_full) { model[a].push_back(num(v)); continue; }
                if (!read(a, now)) return;
                Nums gone; std::sort(before.begin(), before.end()); before.push_back(num(v));
                std::set_difference(before.begin(), before.end(), now.begin(), now.end(), std::back_inserter(gone));
                VF_CHECK(std::binary_search(now.begin(), now.end(), num(v)) && gone.size() == 1, "displaced", "capacity %zu: recording %.20Lg turned %s into %s", N, num(v), show(before).c_str(), show(now).c_str());
                model[a] = now;
            }
        }
        for (size_t j = 0; j < (size_t)k; j++) if (N <= 8 || r.chance(30))
        {
            Nums got, want = model[j]; std::sort(want.begin(), want.end());
            if (read(j, got)) VF_CHECK(got == want, "contents", "capacity %zu, reservoir %zu after step %d holds %s, expected %s", N, j, i, show(got).c_str(), show(want).c_str());
        }
    }
    if (copied) { cover(h); count("cases_with_copies"); }
}
VF_SEQ(several_reservoirs, 4)
{
    switch (r.below(6)) { case 0: return several<int64_t, 1>(r); case 1: return several<int64_t, 3>(r); case 2: return several<double, 5>(r); case 3: return several<int32_t, 2>(r); case 4: return several<int64_t, 8>(r); default: return several<float, 20>(r); }
}

// how often each held sample is displaced, over many updates and reservoirs. Values identify slots
template<size_t N> void uniform(Rng &r)
{
    std::vector<uint64_t> hits(N), pairs(N * N); uint64_t total = 0, npairs = 0;
    bool many = r.chance(50); // many short lives, or one long one
    const int draws = (int)(N * N * 40 + 2000);
    int left = draws;
    while (left > 0)
    {
        vclk_set((int64_t)(r.u64() >> 4));
        std::unique_ptr<uniform_reservoir<int64_t, N>> res(new uniform_reservoir<int64_t, N>());
        int64_t next = 0; std::vector<int64_t> slot; int prev = -1;
        for (size_t i = 0; i < N; i++) { res->update(next); slot.push_back(next++); }
        int life = many ? (int)r.range(1, 40) : left;
        for (int k = 0; k < life && left > 0; k++, left--)
        {
            res->update(next);
            Contents c(res->snapshot()); if (!c.known) return;
            int at = -1;
            // the contents are sorted, the slots aren't
            std::vector<int64_t> now; for (auto v : c.values) now.push_back((int64_t)v);
            for (size_t s = 0; s < N; s++) if (!std::binary_search(now.begin(), now.end(), slot[s])) at = (int)s;
            VF_CHECK(at >= 0, "not-admitted", "nothing was displaced");
            slot[(size_t)at] = next++; hits[(size_t)at]++; total++;
            if (prev >= 0) { pairs[(size_t)prev * N + (size_t)at]++; npairs++; }
            prev = at;
        }
    }
    double chi = 0, e = (double)total / N; for (auto x : hits) chi += ((double)x - e) * ((double)x - e) / e;
    VF_CHECK(N < 2 || chi < critical((double)N - 1), "biased", "capacity %zu: chi square of the displaced slots is %.1f over %zu degrees of freedom (first slot %lu, last %lu of %lu)", N, chi, N - 1, (unsigned long)hits[0], (unsigned long)hits[N - 1], (unsigned long)total);
    if (N <= 8 && npairs > N * N * 10)
    {
        chi = 0; e = (double)npairs / (double)(N * N); for (auto x : pairs) chi += ((double)x - e) * ((double)x - e) / e;
        VF_CHECK(chi < critical((double)(N * N) - 1), "correlated", "capacity %zu: chi square of consecutive displacements is %.1f over %zu degrees of freedom", N, chi, N * N - 1);
    }
    count("displacements", total); count("uniformity_tests"); cover(mix(N, hbits(hits[0]) ^ total));
    sample("uniformity, capacity %zu: %lu displacements, chi square %.2f", N, (unsigned long)total, chi);
}
VF_SEQ(uniformity, 1)
{
    if (!r.chance(40)) return;
    switch (r.below(5)) { case 0: return uniform<2>(r); case 1: return uniform<3>(r); case 2: return uniform<5>(r); case 3: return uniform<8>(r); default: return uniform<10>(r); }
}
}}
