#pragma once
// What the harnesses share: random inputs, scenarios, reporting, threads.
#include <functional>
#include <thread>
#include <cassert>
#include <array>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstddef>
#include <stddef.h>
#include <mutex>
#include <atomic>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <random>
#include <chrono>
#include <clocale>
#include <locale>
#include <limits>
#include <numeric>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <typeinfo>
#include <unistd.h>
#include <alloca.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <pthread.h>
#include "../rt/vclock.h"
#ifdef VF_DSCHED
#include "../rt/dsched.h"
#endif
#if defined(__SANITIZE_THREAD__) && !defined(VF_DSCHED)
#define VF_TSAN 1
#define VF_NOTSAN __attribute__((no_sanitize("thread")))
#else
#define VF_NOTSAN
#endif

namespace vf
{

inline uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(a ^ mix(b)); }
inline uint64_t hstr(const std::string &s) { uint64_t h = s.size(); for (unsigned char c : s) h = (h ^ c) * 0x100000001B3ULL; return mix(h); }
template<typename T> uint64_t hbits(const T &v) { uint64_t h = sizeof v; const unsigned char *p = reinterpret_cast<const unsigned char *>(&v); for (size_t i = 0; i < sizeof v; i++) h = (h ^ p[i]) * 0x100000001B3ULL; return mix(h); }

class Rng
{
    uint64_t s_;
public:
    explicit Rng(uint64_t seed) : s_(mix(seed)) { }
    uint64_t u64() { s_ += 0x9E3779B97F4A7C15ULL; return mix(s_); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(int percent) { return below(100) < (uint64_t)percent; }
    double real() { return (double)(u64() >> 11) / 9007199254740992.0; }
    template<typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    // a number of any magnitude up to the bits given, small ones and edges more often
    int64_t wide(int bits = 62)
    {
        int b = (int)range(0, bits);
        int64_t v = b ? (int64_t)(u64() >> (64 - b)) : 0;
        return chance(40) ? -v : v;
    }
};

typedef void (*scenario_fn)(Rng &);
struct Scenario { const char *name; int weight; bool threads; scenario_fn fn; bool slow; }; // without a weight: slow, and only run by name
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }
struct Register { Register(const char *n, int w, bool t, scenario_fn f) { scenarios().push_back(Scenario{n, w, t, f}); } };
#define VF_SEQ(NAME, WEIGHT) static void NAME(vf::Rng &); static vf::Register reg_##NAME(#NAME, WEIGHT, false, NAME); static void NAME(vf::Rng &r)
#define VF_THREADS(NAME, WEIGHT) static void NAME(vf::Rng &); static vf::Register reg_##NAME(#NAME, WEIGHT, true, NAME); static void NAME(vf::Rng &r)

struct State
{
    uint64_t seed = 1, cs = 0; const Scenario *scn = nullptr;
    bool verbose = false;
    std::vector<uint64_t> sigs;
    std::map<std::string, uint64_t> stats, maxima;
    std::map<std::string, int> nsamples;
    std::string samples;
    uint64_t evals = 0;
    volatile uint64_t *progress = nullptr;
};
inline State &st() { static State *s = new State; return *s; }

inline void quiet(int d)
{
#ifdef VF_DSCHED
    ds_quiet(d);
#else
    (void)d;
#endif
}
// harness bookkeeping inside a worker thread, which isn't scheduled or checked
struct Quiet { Quiet() { quiet(1); } ~Quiet() { quiet(-1); } };
#ifdef VF_DSCHED
#define VF_QUIET vf::Quiet vf_quiet_here; (void)vf_quiet_here
#else
#define VF_QUIET ((void)0)
#endif

[[noreturn]] inline void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void fail(const char *key, const char *fmt, ...)
{
    static std::atomic_flag once = ATOMIC_FLAG_INIT;
    quiet(1);
    while (once.test_and_set()) pause();
    char buf[4000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char *c = buf; *c; c++) if (*c == '\n' || *c == '\r') *c = ' ';
    printf("FAIL key=%s case=%lu scenario=%s detail=%s\n", key, (unsigned long)st().cs, st().scn ? st().scn->name : "-", buf);
    fflush(stdout); _exit(1);
}
#define VF_CHECK(COND, KEY, ...) do { if (!(COND)) vf::fail(KEY, __VA_ARGS__); } while (0)
#define VF_NOTE(...) do { if (vf::st().verbose) { vf::Quiet q_; printf("  "); printf(__VA_ARGS__); printf("\n"); } } while (0)

inline void count(const char *n, uint64_t v = 1) { VF_QUIET; st().stats[n] += v; }
inline void smax(const char *n, uint64_t v) { VF_QUIET; auto &m = st().maxima[n]; if (v > m) m = v; }
inline void cover(uint64_t h) { VF_QUIET; st().sigs.push_back(mix(h, hstr(st().scn->name))); }
inline bool want_sample() { return st().nsamples[st().scn->name] < 2; }
inline void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char *fmt, ...)
{
    if (st().nsamples[st().scn->name]++ >= 2) return;
    char buf[1200]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char *c = buf; *c; c++) if (*c == '\n') *c = ' ';
    st().samples += std::string("SAMPLE case ") + std::to_string(st().cs) + " " + st().scn->name + ": " + buf + "\n";
}

// ------------------------------------------------------------------------------------------------------------ threads
inline uint64_t stamp()
{
#ifdef VF_DSCHED
    static uint64_t n;
    VF_QUIET;
    return ++n;
#else
    static std::atomic<uint64_t> n{0};
    return n.fetch_add(1, std::memory_order_relaxed) + 1;
#endif
}
inline void point()
{
#ifdef VF_DSCHED
    ds_point();
#elif !defined(VF_TSAN)
    static thread_local uint64_t x = (uint64_t)(uintptr_t)&x; x = mix(x);
    if (x % 16 == 0) sched_yield();
#else
    static thread_local uint64_t x = (uint64_t)(uintptr_t)&x; x = mix(x);
    if (x % 8 == 0) sched_yield(); else for (volatile unsigned k = 0; k < (x >> 8) % 64; k = k + 1) { }
#endif
}

#ifdef VF_DSCHED
template<typename F> void run_threads(Rng &r, int n, F &&f, uint64_t inputs = 0)
{
    typedef typename std::remove_reference<F>::type Fn;
    ds_run(n, [](void *a, int i) { (*static_cast<Fn *>(a))(i); }, (void *)&f, r.u64());
    count("schedule_steps", ds_step()); count("context_switches", ds_switches()); count("executions");
    if (ds_switches()) { count("executions_with_switches"); cover(mix(ds_hash(), inputs)); }
    smax("max_steps", ds_step());
}
#else
class Pool
{
    struct Slot { std::atomic<uint64_t> go{0}, done{0}; std::thread th; };
    std::vector<std::unique_ptr<Slot>> slots_;
    void (*fn_)(void *, int) = nullptr; void *arg_ = nullptr;
    std::atomic<int> ready_{0}; int n_ = 0;
    uint64_t gen_ = 0; uint64_t seed_ = 0;
    void loop(int i, Slot *s)
    {
        uint64_t seen = 0;
        for (;;)
        {
            uint64_t g; int k = 0;
            while ((g = s->go.load(std::memory_order_acquire)) == seen) if (++k > 50) sched_yield();
            seen = g;
            // start together, give or take
            ready_.fetch_add(1, std::memory_order_relaxed);
            for (k = 0; ready_.load(std::memory_order_relaxed) < n_; ) if (++k > 50) sched_yield();
            for (volatile uint64_t d = 0, m = mix(seed_, (uint64_t)i) % 300; d < m; d = d + 1) { }
            fn_(arg_, i);
            s->done.store(g, std::memory_order_release);
        }
    }
public:
    void run(int n, void (*fn)(void *, int), void *arg, uint64_t seed)
    {
        while ((int)slots_.size() < n)
        {
            slots_.emplace_back(new Slot); int i = (int)slots_.size() - 1; Slot *s = slots_.back().get();
            s->th = std::thread([this, i, s] { loop(i, s); }); s->th.detach();
        }
        fn_ = fn; arg_ = arg; n_ = n; seed_ = seed; ready_.store(0); ++gen_;
        for (int i = 0; i < n; i++) slots_[i]->go.store(gen_, std::memory_order_release);
        for (int i = 0; i < n; i++) { int k = 0; while (slots_[i]->done.load(std::memory_order_acquire) != gen_) if (++k > 50) sched_yield(); }
    }
};
template<typename F> void run_threads(Rng &r, int n, F &&f, uint64_t inputs = 0)
{
    typedef typename std::remove_reference<F>::type Fn;
    static Pool *p = new Pool;
    p->run(n, [](void *a, int i) { (*static_cast<Fn *>(a))(i); }, (void *)&f, r.u64());
    count("real_thread_executions"); cover(mix(inputs, st().cs));
}
#endif

// an operation of a recorded history
// the locale of the program, while this lives: none of these programs' own formatting may happen meanwhile
struct ProgramLocale
{
    bool set = false;
    explicit ProgramLocale(int which) { if (which == 1) set = setlocale(LC_ALL, "de_DE.UTF-8"); else if (which == 2) set = setlocale(LC_ALL, "de_DE.ISO-8859-1"); if (set) count("in_another_locale"); }
    explicit ProgramLocale(Rng &r) : ProgramLocale(r.chance(85) ? 0 : (int)r.range(1, 2)) { }
    ~ProgramLocale() { if (set) setlocale(LC_ALL, "C"); }
    ProgramLocale(const ProgramLocale &) = delete;
};
struct Event { uint64_t inv, ret; int thread, op; int64_t a, b; };

inline void on_time(int) { static const char m[] = "FAIL key=hang detail=a case didn't finish\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }

} // namespace vf

int main(int argc, char **argv)
{
    using namespace vf;
    uint64_t from = 0, to = 100; std::string only, sigfile, progress;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") st().seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--from") from = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--to") to = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--case") { from = strtoull(next().c_str(), nullptr, 10); to = from + 1; }
        else if (a == "--only") only = next();
        else if (a == "--sigs") sigfile = next();
        else if (a == "--progress") progress = next();
        else if (a == "--verbose") st().verbose = true;
    }
#ifdef VF_CONCURRENT
    const bool threads = true;
#else
    const bool threads = false;
#endif
    std::vector<const Scenario *> sc; uint64_t total = 0;
    auto all = scenarios();
    std::sort(all.begin(), all.end(), [](const Scenario &a, const Scenario &b) { return std::string(a.name) < b.name; });
    for (auto &s : all) if (s.threads == threads && (only.empty() || only == s.name)) { s.slow = !s.weight; if (!only.empty() && !s.weight) s.weight = 1; sc.push_back(&s); total += (uint64_t)s.weight; }
    if (sc.empty()) { printf("NOSCENARIO\n"); return 3; }
    if (!progress.empty())
    {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0)
        {
            void *m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) st().progress = static_cast<volatile uint64_t *>(m);
        }
    }
    signal(SIGPROF, on_time); signal(SIGALRM, on_time);
    for (uint64_t c = from; c < to; c++)
    {
        Rng pick(mix(st().seed * 1000003 + 17, c));
        uint64_t w = pick.below(total); size_t k = 0;
        while (w >= (uint64_t)sc[k]->weight) { w -= (uint64_t)sc[k]->weight; k++; }
        st().cs = c; st().scn = sc[k];
        if (st().progress) { st().progress[0] = c; strncpy((char *)(st().progress + 2), sc[k]->name, 200); }
        struct itimerval tv = {{0, 0}, {sc[k]->slow ? 2000 : 100, 0}}, tw = {{0, 0}, {sc[k]->slow ? 2000 : 150, 0}}; if (c == from || (c & 15) == 0) { setitimer(ITIMER_PROF, &tv, nullptr); setitimer(ITIMER_REAL, &tw, nullptr); }
        vclk_set(1000000000000LL); vclk_step(0);
        Rng r(pick.u64());
        if (st().verbose) printf("case %lu scenario %s\n", (unsigned long)c, sc[k]->name);
        try { sc[k]->fn(r); }
        catch (const std::exception &e) { fail("unexpected-exception", "%s", e.what()); }
        catch (...) { fail("unexpected-exception", "unknown type"); }
        st().evals++;
        if (st().progress) st().progress[1] = st().evals;
    }
    if (!sigfile.empty()) { FILE *f = fopen(sigfile.c_str(), "wb"); if (f) { fwrite(st().sigs.data(), 8, st().sigs.size(), f); fclose(f); } }
    printf("EVALS %lu\n", (unsigned long)st().evals);
    for (auto &p : st().stats) printf("STAT %s %lu\n", p.first.c_str(), (unsigned long)p.second);
    for (auto &p : st().maxima) printf("MAX %s %lu\n", p.first.c_str(), (unsigned long)p.second);
    fputs(st().samples.c_str(), stdout);
    printf("DONE\n"); fflush(stdout);
    st().sigs.clear(); st().stats.clear(); st().maxima.clear(); st().nsamples.clear(); st().samples.clear();
#ifdef VF_CONCURRENT
    _exit(0);
#endif
    return 0;
}
