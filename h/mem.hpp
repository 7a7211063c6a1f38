#pragma once
// How much memory is held through operator new.
#include "vf.hpp"
#ifdef VF_DSCHED
namespace vf { struct Mem { int64_t blocks, bytes; }; inline Mem mem() { return {ds_live_blocks(), ds_live_bytes()}; } struct Shortage { int64_t left = 0; uint64_t hit = 0; }; inline Shortage &shortage() { static Shortage s; return s; } }
#else
#include <new>
namespace vf
{
struct Mem { int64_t blocks, bytes; };
struct MemCount { std::atomic<int64_t> blocks{0}, bytes{0}; };
// the n-th block asked for from now on isn't there
struct Shortage { int64_t left = 0; uint64_t hit = 0; };
inline Shortage &shortage() { static thread_local Shortage s; return s; }
inline MemCount &mem_count() { static MemCount c; return c; }
inline Mem mem() { return {mem_count().blocks.load(std::memory_order_relaxed), mem_count().bytes.load(std::memory_order_relaxed)}; }
inline void *mem_get(size_t n, size_t align, bool may_fail)
{
    if (align < 16) align = 16;
    auto &s = shortage(); if (s.left && !--s.left) { s.hit++; if (may_fail) return nullptr; throw std::bad_alloc(); }
    // the block's length sits before it
    size_t head = align; char *p = static_cast<char *>(align == 16 ? malloc(n + head) : aligned_alloc(align, (n + head + align - 1) / align * align));
    if (!p) { if (may_fail) return nullptr; throw std::bad_alloc(); }
    reinterpret_cast<size_t *>(p + head)[-1] = n; reinterpret_cast<size_t *>(p + head)[-2] = head;
    mem_count().blocks.fetch_add(1, std::memory_order_relaxed); mem_count().bytes.fetch_add((int64_t)n, std::memory_order_relaxed);
    return p + head;
}
inline void mem_put(void *v)
{
    if (!v) return;
    size_t n = static_cast<size_t *>(v)[-1], head = static_cast<size_t *>(v)[-2];
    mem_count().blocks.fetch_sub(1, std::memory_order_relaxed); mem_count().bytes.fetch_sub((int64_t)n, std::memory_order_relaxed);
    free(static_cast<char *>(v) - head);
}
}
void *operator new(size_t n) { return vf::mem_get(n, 16, false); }
void *operator new[](size_t n) { return vf::mem_get(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return vf::mem_get(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return vf::mem_get(n, 16, true); }
void operator delete(void *p) noexcept { vf::mem_put(p); }
void operator delete[](void *p) noexcept { vf::mem_put(p); }
void operator delete(void *p, size_t) noexcept { vf::mem_put(p); }
void operator delete[](void *p, size_t) noexcept { vf::mem_put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vf::mem_put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vf::mem_put(p); }
#endif
namespace vf
{
// a measure of what some code leaves behind
struct Held
{
    Mem at; Held() : at(mem()) { }
    void nothing(const char *key, const char *what, const std::string &of = none()) const { Mem m = mem(); VF_CHECK(m.blocks == at.blocks && m.bytes == at.bytes, key, "%s %s: %lld blocks and %lld bytes more are held", of.c_str(), what, (long long)(m.blocks - at.blocks), (long long)(m.bytes - at.bytes)); }
    // no more, though perhaps less
    void no_more(const char *key, const char *what, const std::string &of = none()) const { Mem m = mem(); VF_CHECK(m.bytes <= at.bytes, key, "%s %s: %lld blocks and %lld bytes more are held", of.c_str(), what, (long long)(m.blocks - at.blocks), (long long)(m.bytes - at.bytes)); }
    static const std::string &none() { static const std::string s; return s; }
    int64_t bytes() const { return mem().bytes - at.bytes; }
};
}
