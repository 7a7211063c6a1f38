// C02: a simple reservoir keeps exactly the most recent values
#include "snap.hpp"
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/ringbuf.hpp>
#include <deque>
namespace vf { namespace t {
using namespace cxxmetrics;

template<typename T, size_t N> void run(Rng &r)
{
    std::unique_ptr<simple_reservoir<T, N>> res(new simple_reservoir<T, N>());
    std::deque<num_t> model; uint64_t h = mix(N, typeid(T).hash_code());
    int n = (int)r.range(0, r.chance(70) ? 3 * (int)N + 4 : 40 * (int)N + 40); if (n > 3000) n = 3000;
    bool dup = r.chance(30); T last = T{};
    std::vector<std::pair<Nums, std::unique_ptr<reservoir_snapshot>>> held;
    int percent = N <= 8 ? 100 : 15;
    for (int i = 0; i <= n; i++)
    {
        if (r.chance(percent) || i == n || i == (int)N || i == (int)N + 1)
        {
            Nums want(model.begin(), model.end());
            char w[60]; snprintf(w, sizeof w, "capacity %zu after %d values", N, i);
            expect_sample(res->snapshot(), want, "contents", w);
            count("snapshots");
            if (held.size() < 2 && r.chance(10)) held.emplace_back(want, std::unique_ptr<reservoir_snapshot>(new reservoir_snapshot(res->snapshot())));
        }
        if (i == n) break;
        T v = dup && r.chance(50) ? last : Gen<T>::make(r); last = v;
        res->update(v); VF_NOTE("update %.20Lg", num(v));
        model.push_back(num(v)); if (model.size() > N) model.pop_front();
        h = mix(h, hbits((double)num(v)));
    }
    for (auto &p : held) expect_sample(std::move(*p.second), p.first, "snapshot-changed", "a snapshot taken earlier");
    count("updates", (uint64_t)n); smax("longest_history", (uint64_t)n);
    if (n > (int)N) { cover(h); count("cases_that_wrapped"); }
    sample("capacity %zu, %d values of %s", N, n, typeid(T).name());
}
template<typename T> void sizes(Rng &r)
{
    switch (r.below(9))
    {
    case 0: return run<T, 2>(r); case 1: return run<T, 3>(r); case 2: return run<T, 4>(r); case 3: return run<T, 5>(r);
    case 4: return run<T, 7>(r); case 5: return run<T, 8>(r); case 6: return run<T, 16>(r); case 7: return run<T, 33>(r); default: return run<T, 100>(r);
    }
}
VF_SEQ(i64, 4) { sizes<int64_t>(r); }
VF_SEQ(dbl, 3) { sizes<double>(r); }
VF_SEQ(i32, 2) { sizes<int32_t>(r); }
VF_SEQ(u64, 2) { sizes<uint64_t>(r); }
VF_SEQ(flt, 1) { sizes<float>(r); }
VF_SEQ(i16, 1) { sizes<int16_t>(r); }
VF_SEQ(dur_ns, 1) { sizes<std::chrono::nanoseconds>(r); }
VF_SEQ(dur_ms, 1) { sizes<std::chrono::milliseconds>(r); }
VF_SEQ(dur_us32, 1) { run<std::chrono::duration<int32_t, std::micro>, 6>(r); }

// several of them, copied and assigned at any fill and used further
template<typename T, size_t N> void several(Rng &r)
{
    using R = simple_reservoir<T, N>;
    std::vector<std::unique_ptr<R>> res; std::vector<std::deque<num_t>> model; uint64_t h = mix(N, typeid(T).hash_code());
    int k = (int)r.range(2, 3); for (int i = 0; i < k; i++) { res.emplace_back(new R()); model.emplace_back(); }
    int n = (int)r.range(4, 40); bool copied = false;
    for (int i = 0; i < n; i++)
    {
        size_t a = (size_t)r.below((uint64_t)k), b = (size_t)r.below((uint64_t)k);
        switch (r.below(8))
        {
        case 0: { VF_NOTE("%zu = %zu", a, b); R &x = *res[a]; x = *res[b]; model[a] = model[b]; copied = true; h = mix(h, a * 5 + b); break; }
        case 1: { VF_NOTE("%zu is a copy of %zu", a, b); std::unique_ptr<R> c(new R(*res[b])); auto m = model[b]; res[a] = std::move(c); model[a] = m; copied = true; h = mix(h, 100 + a * 5 + b); break; }
        case 2: { VF_NOTE("%zu is moved from a copy of %zu", a, b); R tmp(*res[b]); auto m = model[b]; if (r.chance(50)) *res[a] = std::move(tmp); else res[a].reset(new R(std::move(tmp))); model[a] = m; copied = true; h = mix(h, 200 + a * 5 + b); break; }
        default:
        {
            int m = (int)r.range(1, r.chance(50) ? 3 : 2 * (int)N + 2);
            for (int j = 0; j < m; j++) { T v = Gen<T>::make(r); VF_NOTE("%zu update %.20Lg", a, num(v)); res[a]->update(v); model[a].push_back(num(v)); if (model[a].size() > N) model[a].pop_front(); h = mix(h, hbits((double)num(v)) + a); }
            count("updates", (uint64_t)m);
        }
        }
        for (int j = 0; j < k; j++) if (N <= 8 || r.chance(30)) { char w[60]; snprintf(w, sizeof w, "capacity %zu, reservoir %d after step %d", N, j, i); expect_sample(res[(size_t)j]->snapshot(), Nums(model[(size_t)j].begin(), model[(size_t)j].end()), "contents", w); count("snapshots"); }
    }
    if (copied) { cover(h); count("cases_with_copies"); }
}
VF_SEQ(several_reservoirs, 5)
{
    switch (r.below(7))
    {
    case 0: return several<int64_t, 3>(r); case 1: return several<double, 5>(r); case 2: return several<int32_t, 2>(r); case 3: return several<std::chrono::nanoseconds, 4>(r);
    case 4: return several<int64_t, 8>(r); case 5: return several<float, 7>(r); default: return several<int64_t, 33>(r);
    }
}

// the ring buffer by itself: iteration and size
template<size_t N> void ring(Rng &r)
{
    internal::ringbuf<int64_t, N> rb; std::deque<num_t> model; int n = (int)r.range(0, 5 * (int)N);
    for (int i = 0; i <= n; i++)
    {
        if (r.chance(5)) { internal::ringbuf<int64_t, N> c(rb); if (r.chance(50)) for (int64_t j = r.range(0, 2 * (int64_t)N); j > 0; j--) rb.push(-j); rb = c; }
        Nums got, want(model.begin(), model.end());
        for (auto it = rb.begin(); it != rb.end(); ++it) got.push_back(num(*it));
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        VF_CHECK(got == want, "ring-contents", "iterating gives %s, expected %s", show(got).c_str(), show(want).c_str());
        VF_CHECK(rb.size() == want.size(), "ring-size", "size %zu, expected %zu", rb.size(), want.size());
        int64_t v = r.wide(); rb.push(v); model.push_back(num(v)); if (model.size() > N) model.pop_front();
    }
    if (n > (int)N) cover(mix(N, (uint64_t)n * 7919 + r.u64() % 1000));
    count("updates", (uint64_t)n);
}
VF_SEQ(ring_iteration, 2) { switch (r.below(4)) { case 0: return ring<2>(r); case 1: return ring<3>(r); case 2: return ring<10>(r); default: return ring<64>(r); } }

// long histories: past every 8 and 16 bit position
VF_SEQ(long_history, 1)
{
    if (!r.chance(12)) return;
    simple_reservoir<int64_t, 6> a; simple_reservoir<double, 3> b; int64_t n = r.range(66000, 140000), x = r.wide(40), step = r.range(-50, 50);
    for (int64_t i = 0; i < n; i++)
    {
        a.update(x + i * step); b.update((double)i);
        if (i > 65500 && (i % 37 == 0 || (i > 65520 && i < 65550) || (i > 131060 && i < 131090) || i == n - 1))
        {
            Nums wa, wb; for (int64_t k = i - 5; k <= i; k++) wa.push_back((num_t)(x + k * step)); for (int64_t k = i - 2; k <= i; k++) wb.push_back((num_t)k);
            expect_sample(a.snapshot(), wa, "contents", "long history"); expect_sample(b.snapshot(), wb, "contents", "long history");
        }
    }
    count("updates", (uint64_t)n * 2); smax("longest_history", (uint64_t)n); cover(mix((uint64_t)n, (uint64_t)x));
}
// past 32 bits, at full speed
VF_SEQ(four_billion, 0)
{
    simple_reservoir<int64_t, 3> a; int64_t n = (1LL << 32) + r.range(0, 100);
    for (int64_t i = 0; i < n; i++)
    {
        a.update(i);
        if (i >= (1LL << 32) - 8 || (i & 0xfffffff) == 0xfffffff)
        {
            Nums w; for (int64_t k = std::max<int64_t>(0, i - 2); k <= i; k++) w.push_back((num_t)k);
            expect_sample(a.snapshot(), w, "contents", "around 2^32"); count("snapshots");
        }
    }
    count("updates", (uint64_t)n); smax("longest_history", (uint64_t)n); cover(mix((uint64_t)n));
}
}}
