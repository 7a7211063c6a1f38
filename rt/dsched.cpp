// A deterministic scheduler, data race detector and heap monitor for harnesses compiled with -fsanitize=thread.
//
// The harness (and with it the library's headers) is compiled with gcc's ThreadSanitizer instrumentation but linked
// with this file instead of libtsan. Every instrumented access, atomic operation and lock operation of a worker
// thread enters here; exactly one worker runs at a time and a seeded policy (random walk or PCT priorities) decides
// at each of those points who runs next. On the way the accesses are checked for
//   - data races (vector clocks; atomics, fences and locks create happens-before edges according to their order),
//   - accesses to heap memory that was already released, double releases,
//   - logical deadlocks and lack of progress.
// Only x86 sequential consistency is executed; missing ordering shows as a race through the vector clocks.
#include "dsched.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cerrno>
#include <new>
#include <execinfo.h>
#include <dlfcn.h>
#include <malloc.h>

typedef unsigned __int128 u128;
enum { MAXT = 8 };
enum State { IDLE, READY, BLOCKED, DONE };
enum Kind { K_READ, K_WRITE, K_ATOMIC, K_LOCK, K_YIELD, K_OP };

struct VC { uint32_t c[MAXT]; };
static inline void vc_join(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Worker
{
    volatile int go;
    pthread_t th;
    volatile State st;
    const void *on;          // what it's blocked on
    int64_t prio;
    uintptr_t lo, hi;        // stack
    void (*fn)(void *, int);
    void *arg;
    VC vc, acqp, relf;
    bool has_relf;
};

static Worker W[MAXT];
static int nworkers_started, nw;
static volatile int main_go;
static __thread int me = -1;
static __thread int quiet = 0;
static volatile bool active = false;

// policy
static uint64_t rs;
static bool pct; static uint32_t p_sw, p_plain; static bool spurious;
static uint64_t steps, cap, chg[8]; static int nchg, chgat; static int64_t lowprio;
static uint64_t consec; static uint64_t switches; static uint64_t thash;
static const char *(*describe)() = nullptr;

static inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }

static void fwait(volatile int *p) { while (__atomic_exchange_n(p, 0, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); }
static void fpost(volatile int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

extern "C" void ds_die(const char *key, const char *fmt, ...)
{
    quiet = 1 << 20; char buf[2000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char *c = buf; *c; c++) if (*c == '\n') *c = ' ';
    printf("FAIL key=%s thread=%d step=%lu detail=%s\n", key, me, (unsigned long)steps, buf);
    if (describe) printf("%s\n", describe());
    void *bt[40]; int n = backtrace(bt, 40);
    printf("STACK"); for (int i = 0; i < n; i++) { Dl_info di; if (dladdr(bt[i], &di) && di.dli_fbase) printf(" %s+0x%lx", di.dli_fname, (unsigned long)((uintptr_t)bt[i] - (uintptr_t)di.dli_fbase)); }
    printf("\n"); fflush(stdout); _exit(1);
}
extern "C" void ds_describe(const char *(*f)()) { describe = f; }


static void give(int t)
{
    if (t == me) return;
    switches++; consec = 0; thash = (thash ^ (steps * 31 + t + 1)) * 0x9E3779B97F4A7C15ULL; thash ^= thash >> 29;
    int self = me; fpost(&W[t].go); fwait(&W[self].go);
}

static int pick(bool other)
{
    int best = -1;
    if (pct)
    {
        for (int i = 0; i < nw; i++) if (W[i].st == READY && !(other && i == me) && (best < 0 || W[i].prio > W[best].prio)) best = i;
        return best;
    }
    int c[MAXT], n = 0;
    for (int i = 0; i < nw; i++) if (W[i].st == READY && !(other && i == me)) c[n++] = i;
    return n ? c[rnd() % n] : -1;
}

static void deadlock()
{
    char b[300]; int k = 0;
    for (int i = 0; i < nw; i++) k += snprintf(b + k, sizeof b - k, " t%d:%s@%p", i, W[i].st == DONE ? "done" : W[i].st == BLOCKED ? "blocked" : "ready", W[i].on);
    ds_die("deadlock", "no thread can run:%s", b);
}

static void point(Kind k)
{
    if (me < 0 || quiet || !active) return;
    if (++steps > cap) ds_die("no-progress", "%lu steps without all threads finishing", (unsigned long)cap);
    ++consec;
    if (k == K_YIELD)
    {
        if (pct) W[me].prio = --lowprio;
        int t = pick(true); if (t >= 0) give(t);
        return;
    }
    if (consec > 2000) { consec = 0; if (pct) W[me].prio = --lowprio; int t = pick(true); if (t >= 0) give(t); return; }
    if (pct)
    {
        if (chgat < nchg && steps >= chg[chgat]) { chgat++; W[me].prio = --lowprio; int t = pick(false); if (t >= 0) give(t); }
        return;
    }
    uint32_t p = (k == K_READ || k == K_WRITE) ? p_plain : p_sw;
    if ((rnd() & 0xffff) < p) { int t = pick(false); if (t >= 0) give(t); }
}

static void block_on(const void *o)
{
    W[me].st = BLOCKED; W[me].on = o;
    int t = pick(true);
    if (t < 0) deadlock();
    give(t);
}
static void wake(const void *o)
{
    for (int i = 0; i < nw; i++) if (W[i].st == BLOCKED && W[i].on == o) { W[i].st = READY; W[i].on = nullptr; }
}

// ---------------------------------------------------------------------------------------------------- shadow state
struct Acc { uint8_t tid, mask, wr, at; uint32_t clk; uintptr_t pc; };
struct Cell { uintptr_t key; uint64_t gen; Acc a[10]; int n; };
struct Sync { uintptr_t key; uint64_t gen; VC vc; };
static const size_t NC = 1 << 16, NS = 1 << 14, NG = 1 << 20;
static Cell *cells; static Sync *syncs; static uint64_t gen = 1;
static uintptr_t *freed; static uint64_t *freedgen;
static size_t ncell, nsync, nfreed;
static uint64_t races_checked;

static inline size_t hsh(uintptr_t k) { return (k * 0x9E3779B97F4A7C15ULL) >> 20; }
static Cell *cell(uintptr_t k)
{
    size_t i = hsh(k) & (NC - 1);
    for (;; i = (i + 1) & (NC - 1))
    {
        Cell &c = cells[i];
        if (c.gen != gen) { if (ncell > NC / 2) return nullptr; ncell++; c.gen = gen; c.key = k; c.n = 0; return &c; }
        if (c.key == k) return &c;
    }
}
static Sync *sync_of(uintptr_t k)
{
    size_t i = hsh(k) & (NS - 1);
    for (;; i = (i + 1) & (NS - 1))
    {
        Sync &c = syncs[i];
        if (c.gen != gen) { if (nsync > NS / 2) ds_die("internal", "too many sync objects"); nsync++; c.gen = gen; c.key = k; memset(&c.vc, 0, sizeof c.vc); return &c; }
        if (c.key == k) return &c;
    }
}
static bool is_freed(uintptr_t g)
{
    if (!nfreed) return false;
    size_t i = hsh(g) & (NG - 1);
    for (;; i = (i + 1) & (NG - 1)) { if (freedgen[i] != gen) return false; if (freed[i] == g) return true; }
}
static void mark_freed(uintptr_t g)
{
    if (nfreed > NG / 2) return;
    size_t i = hsh(g) & (NG - 1);
    for (;; i = (i + 1) & (NG - 1)) { if (freedgen[i] != gen) { freedgen[i] = gen; freed[i] = g; nfreed++; return; } if (freed[i] == g) return; }
}

static void where(char *b, size_t n, uintptr_t pc)
{
    Dl_info di; if (dladdr((void *)pc, &di) && di.dli_fbase) snprintf(b, n, "%s+0x%lx", di.dli_fname, (unsigned long)(pc - (uintptr_t)di.dli_fbase)); else snprintf(b, n, "%lx", (unsigned long)pc);
}

static void access(uintptr_t a, size_t sz, bool wr, bool at, uintptr_t pc)
{
    if (me < 0 || quiet || !active) return;
    uintptr_t e = a + sz;
    for (uintptr_t g = a >> 4; g <= (e - 1) >> 4; g++) if (is_freed(g)) { char w[200]; where(w, sizeof w, pc); ds_die("use-after-free", "%s of %zu bytes at %lx, which was released [%s]", wr ? "write" : "read", sz, (unsigned long)a, w); }
    Worker &w = W[me];
    for (uintptr_t k = a >> 3; k <= (e - 1) >> 3; k++)
    {
        unsigned mask = 0xff;
        if ((k << 3) < a) mask &= 0xff << (a - (k << 3));
        if ((k << 3) + 8 > e) mask &= 0xff >> ((k << 3) + 8 - e);
        Cell *c = cell(k); if (!c) continue;
        races_checked++;
        int slot = -1, old = 0;
        for (int i = 0; i < c->n; i++)
        {
            Acc &x = c->a[i];
            if (x.tid == me) { if (x.mask == mask && x.wr == wr && x.at == at) slot = i; continue; }
            if (!(x.mask & mask) || (!wr && !x.wr) || (at && x.at)) continue;
            if (x.clk > w.vc.c[x.tid])
            {
                char w1[200], w2[200]; where(w1, sizeof w1, pc); where(w2, sizeof w2, x.pc);
                ds_die("data-race", "%s%s of %zu bytes by thread %d [%s] is unordered with the %s%s by thread %d [%s]", at ? "atomic " : "", wr ? "write" : "read", sz, me, w1, x.at ? "atomic " : "", x.wr ? "write" : "read", x.tid, w2);
            }
        }
        if (slot < 0)
        {
            if (c->n < 10) slot = c->n++;
            else { for (int i = 1; i < c->n; i++) if (c->a[i].clk < c->a[old].clk) old = i; slot = old; }
        }
        c->a[slot] = Acc{(uint8_t)me, (uint8_t)mask, wr, at, w.vc.c[me], pc};
    }
}
static inline bool own_stack(uintptr_t a) { return a >= W[me].lo && a < W[me].hi; }

static void plain(void *p, size_t sz, bool wr, void *pc)
{
    if (me < 0 || quiet || !active) return;
    uintptr_t a = (uintptr_t)p;
    if (own_stack(a)) return;
    point(wr ? K_WRITE : K_READ);
    access(a, sz, wr, false, (uintptr_t)pc);
}

#define PC __builtin_return_address(0)
enum { RELAXED = 0, CONSUME, ACQ, REL, ACQREL, SC };
static inline bool is_acq(int mo) { mo &= 7; return mo == CONSUME || mo == ACQ || mo == ACQREL || mo == SC; }
static inline bool is_rel(int mo) { mo &= 7; return mo == REL || mo == ACQREL || mo == SC; }

static void sync_load(uintptr_t a, int mo)
{
    Worker &w = W[me]; Sync *s = sync_of(a);
    if (is_acq(mo)) vc_join(w.vc, s->vc); else vc_join(w.acqp, s->vc);
}
static void sync_store(uintptr_t a, int mo, bool rmw)
{
    Worker &w = W[me]; Sync *s = sync_of(a);
    if (is_rel(mo)) { if (rmw) vc_join(s->vc, w.vc); else s->vc = w.vc; w.vc.c[me]++; }
    else if (w.has_relf) { if (rmw) vc_join(s->vc, w.relf); else s->vc = w.relf; }
    else if (!rmw) memset(&s->vc, 0, sizeof s->vc);
}
static inline bool on() { return me >= 0 && !quiet && active; }
static inline void pre(const volatile void *a, size_t sz, bool wr, void *pc)
{
    if (!on()) return;
    point(K_ATOMIC);
    access((uintptr_t)a, sz, wr, true, (uintptr_t)pc);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void *p) { plain(p, N, false, PC); } \
void __tsan_write##N(void *p) { plain(p, N, true, PC); } \
void __tsan_unaligned_read##N(void *p) { plain(p, N, false, PC); } \
void __tsan_unaligned_write##N(void *p) { plain(p, N, true, PC); } \
void __tsan_volatile_read##N(void *p) { plain(p, N, false, PC); } \
void __tsan_volatile_write##N(void *p) { plain(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) plain(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { if (n) plain(p, n, true, PC); }
void __tsan_vptr_read(void **p) { plain(p, 8, false, PC); }
void __tsan_vptr_update(void **p, void *) { plain(p, 8, true, PC); }

#define ATOMIC(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int mo) { pre(a, sizeof(T), false, PC); T v = *a; if (on()) sync_load((uintptr_t)a, mo); return v; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { pre(a, sizeof(T), true, PC); if (on()) sync_store((uintptr_t)a, mo, false); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { pre(a, sizeof(T), true, PC); T o = *a; if (on()) { sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); } *a = v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { pre(a, sizeof(T), true, PC); T o = *a; if (o == *c) { if (on()) { sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); } *a = v; return 1; } if (on()) sync_load((uintptr_t)a, fmo); *c = o; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { if (on() && spurious && rnd() % 16 == 0) { pre(a, sizeof(T), false, PC); *c = *a; sync_load((uintptr_t)a, fmo); return 0; } return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
#define FETCH(B, T, NAME, EXPR) \
T __tsan_atomic##B##_fetch_##NAME(volatile T *a, T v, int mo) { pre(a, sizeof(T), true, PC); T o = *a; if (on()) { sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); } *a = (T)(EXPR); return o; }
#define ALL(B, T) ATOMIC(B, T) FETCH(B, T, add, o + v) FETCH(B, T, sub, o - v) FETCH(B, T, and, o & v) FETCH(B, T, or, o | v) FETCH(B, T, xor, o ^ v) FETCH(B, T, nand, ~(o & v))
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t) ALL(128, u128)
void __tsan_atomic_thread_fence(int mo)
{
    if (!on()) return;
    point(K_ATOMIC);
    Worker &w = W[me];
    if (is_acq(mo)) vc_join(w.vc, w.acqp);
    if (is_rel(mo)) { w.relf = w.vc; w.has_relf = true; w.vc.c[me]++; }
}
void __tsan_atomic_signal_fence(int) {}

// block operations of the harness (their objects call these after objcopy --redefine-sym)
void *ds_wrap_memcpy(void *d, const void *s, size_t n) { if (n && on()) { plain((void *)s, n, false, PC); plain(d, n, true, PC); } return memcpy(d, s, n); }
void *ds_wrap_memmove(void *d, const void *s, size_t n) { if (n && on()) { plain((void *)s, n, false, PC); plain(d, n, true, PC); } return memmove(d, s, n); }
void *ds_wrap_memset(void *d, int c, size_t n) { if (n && on()) plain(d, n, true, PC); return memset(d, c, n); }
int ds_wrap_memcmp(const void *a, const void *b, size_t n) { if (n && on()) { plain((void *)a, n, false, PC); plain((void *)b, n, false, PC); } return memcmp(a, b, n); }

// what would otherwise come from libatomic
u128 a16_load(const volatile void *a, int mo) __asm__("__atomic_load_16");
void a16_store(volatile void *a, u128 v, int mo) __asm__("__atomic_store_16");
u128 a16_exchange(volatile void *a, u128 v, int mo) __asm__("__atomic_exchange_16");
bool a16_cas(volatile void *a, void *c, u128 v, int mo, int fmo) __asm__("__atomic_compare_exchange_16");
u128 a16_load(const volatile void *a, int mo) { return __tsan_atomic128_load((const volatile u128 *)a, mo); }
void a16_store(volatile void *a, u128 v, int mo) { __tsan_atomic128_store((volatile u128 *)a, v, mo); }
u128 a16_exchange(volatile void *a, u128 v, int mo) { return __tsan_atomic128_exchange((volatile u128 *)a, v, mo); }
bool a16_cas(volatile void *a, void *c, u128 v, int mo, int fmo) { return __tsan_atomic128_compare_exchange_strong((volatile u128 *)a, (u128 *)c, v, mo, fmo); }
void g_load(size_t n, const volatile void *a, void *r, int mo) __asm__("__atomic_load");
void g_store(size_t n, volatile void *a, void *v, int mo) __asm__("__atomic_store");
void g_exchange(size_t n, volatile void *a, void *v, void *r, int mo) __asm__("__atomic_exchange");
bool g_cas(size_t n, volatile void *a, void *c, void *v, int mo, int fmo) __asm__("__atomic_compare_exchange");
bool g_lockfree(size_t n, const volatile void *) __asm__("__atomic_is_lock_free");
void g_load(size_t n, const volatile void *a, void *r, int mo) { pre(a, n, false, PC); if (on()) sync_load((uintptr_t)a, mo); memcpy(r, (const void *)a, n); }
void g_store(size_t n, volatile void *a, void *v, int mo) { pre(a, n, true, PC); if (on()) sync_store((uintptr_t)a, mo, false); memcpy((void *)a, v, n); }
void g_exchange(size_t n, volatile void *a, void *v, void *r, int mo) { pre(a, n, true, PC); if (on()) { sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); } char t[256]; memcpy(t, (void *)a, n); memcpy((void *)a, v, n); memcpy(r, t, n); }
bool g_cas(size_t n, volatile void *a, void *c, void *v, int mo, int fmo)
{
    pre(a, n, true, PC);
    if (!memcmp((void *)a, c, n)) { if (on()) { sync_load((uintptr_t)a, mo); sync_store((uintptr_t)a, mo, true); } memcpy((void *)a, v, n); return true; }
    if (on()) sync_load((uintptr_t)a, fmo);
    memcpy(c, (void *)a, n); return false;
}
bool g_lockfree(size_t n, const volatile void *) { return n <= 16; }

// -------------------------------------------------------------------------------------------------------------- locks
static inline void lk_acq(const void *m) { vc_join(W[me].vc, sync_of((uintptr_t)m)->vc); }
static inline void lk_rel(const void *m) { Sync *s = sync_of((uintptr_t)m); vc_join(s->vc, W[me].vc); W[me].vc.c[me]++; }
static inline int who() { return me >= 0 ? me + 2 : 1; }

static void chk(const void *m) { if (on() && is_freed((uintptr_t)m >> 4)) ds_die("use-after-free", "lock operation on a released mutex"); }
int pthread_mutex_lock(pthread_mutex_t *m)
{
    chk(m); if (on()) point(K_LOCK);
    auto &d = m->__data;
    if (d.__owner == who())
    {
        if (d.__kind & 1) { d.__count++; return 0; }
        ds_die("deadlock", "a thread locked a mutex it already holds");
    }
    while (d.__owner)
    {
        if (me < 0) ds_die("deadlock", "main thread blocked on a mutex");
        block_on(m);
    }
    d.__owner = who(); d.__count = 1;
    if (me >= 0 && active) lk_acq(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    chk(m); if (on()) point(K_LOCK);
    auto &d = m->__data;
    if (d.__owner == who() && (d.__kind & 1)) { d.__count++; return 0; }
    if (d.__owner) return EBUSY;
    d.__owner = who(); d.__count = 1;
    if (me >= 0 && active) lk_acq(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    auto &d = m->__data;
    if (d.__owner != who()) ds_die("bad-unlock", "a mutex was unlocked by a thread that doesn't hold it");
    if (--d.__count) return 0;
    if (me >= 0 && active) lk_rel(m);
    d.__owner = 0; wake(m);
    if (on()) point(K_LOCK);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); int t = 0; if (a && !pthread_mutexattr_gettype(a, &t) && t == PTHREAD_MUTEX_RECURSIVE) m->__data.__kind = 1; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (m->__data.__owner) ds_die("bad-unlock", "a locked mutex was destroyed"); return 0; }

// rwlock: word 0 = readers, word 1 = writer
static int rw_lock(pthread_rwlock_t *l, bool wr, bool tr)
{
    chk(l); if (on()) point(K_LOCK);
    int *w = (int *)l;
    while (w[1] || (wr && w[0]))
    {
        if (tr) return EBUSY;
        if (me < 0) ds_die("deadlock", "main thread blocked on a rwlock");
        if (w[1] == who()) ds_die("deadlock", "a thread locked a rwlock it already holds");
        block_on(l);
    }
    if (wr) w[1] = who(); else w[0]++;
    if (me >= 0 && active) lk_acq(l);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw_lock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw_lock(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw_lock(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    int *w = (int *)l;
    if (me >= 0 && active) lk_rel(l);
    if (w[1]) w[1] = 0; else if (w[0]) w[0]--; else ds_die("bad-unlock", "unlocked rwlock was unlocked");
    wake(l);
    if (on()) point(K_LOCK);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
// spin locks: 0 free
int pthread_spin_lock(pthread_spinlock_t *l) { if (on()) point(K_LOCK); while (*l) { if (me < 0) ds_die("deadlock", "main thread blocked on a spin lock"); block_on((const void *)l); } *l = who(); if (me >= 0 && active) lk_acq((const void *)l); return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) { if (me >= 0 && active) lk_rel((const void *)l); *l = 0; wake((const void *)l); if (on()) point(K_LOCK); return 0; }
int pthread_spin_init(pthread_spinlock_t *l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }

// condition variables: every wait may wake up spuriously, so a wait is unlock, yield, lock
int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *m) { pthread_mutex_unlock(m); if (on()) point(K_YIELD); pthread_mutex_lock(m); return 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { pthread_cond_wait(c, m); return 0; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { pthread_cond_wait(c, m); return 0; }
int pthread_cond_signal(pthread_cond_t *) { if (on()) point(K_LOCK); return 0; }
int pthread_cond_broadcast(pthread_cond_t *) { if (on()) point(K_LOCK); return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

int sched_yield() { if (on()) point(K_YIELD); return 0; }
int usleep(useconds_t) { if (on()) point(K_YIELD); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { if (on()) point(K_YIELD); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { if (on()) point(K_YIELD); return 0; }

// function local statics
int __cxa_guard_acquire(uint64_t *g)
{
    char *b = (char *)g;
    if (on()) point(K_ATOMIC);
    while (b[0] == 0 && b[1])
    {
        if (me < 0 || b[1] == who()) ds_die("deadlock", "recursive initialisation of a static");
        block_on(g);
    }
    if (b[0]) { if (me >= 0 && active) lk_acq(g); return 0; }
    b[1] = (char)who(); return 1;
}
void __cxa_guard_release(uint64_t *g) { char *b = (char *)g; b[1] = 0; b[0] = 1; if (me >= 0 && active) lk_rel(g); wake(g); }
void __cxa_guard_abort(uint64_t *g) { char *b = (char *)g; b[1] = 0; wake(g); }
int pthread_once(pthread_once_t *o, void (*f)())
{
    if (on()) point(K_ATOMIC);
    while (*o == 1) { if (me < 0) ds_die("deadlock", "recursive once"); block_on(o); }
    if (*o == 0) { *o = 1; f(); *o = 2; if (me >= 0 && active) lk_rel(o); wake(o); }
    else if (me >= 0 && active) lk_acq(o);
    return 0;
}
} // extern "C"

// --------------------------------------------------------------------------------------------------------------- heap
// malloc'ed memory (exception objects and such) isn't reused while a case runs
extern "C" void __libc_free(void *);
static void **deferred; static size_t ndeferred; static const size_t NDEF = 1 << 20;
extern "C" void free(void *p) noexcept
{
    if (p && me >= 0 && active && deferred && ndeferred < NDEF) { deferred[ndeferred++] = p; return; }
    __libc_free(p);
}
struct Hdr { uint64_t magic; size_t size; void *raw; Hdr *next; };
static const uint64_t LIVE = 0x4c49564542554646ULL, DEAD = 0x4445414442554646ULL;
static Hdr *quarantine; static int64_t live_blocks, live_bytes;
static void *ds_alloc(size_t n, size_t al)
{
    if (al < 32) al = 32;
    char *raw = (char *)malloc(n + 2 * al + sizeof(Hdr));
    if (!raw) abort();
    uintptr_t u = ((uintptr_t)raw + sizeof(Hdr) + al - 1) & ~(al - 1);
    Hdr *h = (Hdr *)(u - sizeof(Hdr));
    h->magic = LIVE; h->size = n; h->raw = raw;
    __atomic_fetch_add(&live_blocks, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&live_bytes, (int64_t)n, __ATOMIC_RELAXED);
    memset((void *)u, 0xCB, n);
    return (void *)u;
}
static void ds_free(void *p)
{
    if (!p) return;
    Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
    if (h->magic == DEAD) ds_die("double-free", "a heap block was released twice");
    if (h->magic != LIVE) ds_die("bad-free", "something that isn't a heap block was released");
    __atomic_fetch_sub(&live_blocks, 1, __ATOMIC_RELAXED); __atomic_fetch_sub(&live_bytes, (int64_t)h->size, __ATOMIC_RELAXED);
    if (me >= 0 && active)
    {
        if (h->size && h->size <= 512) access((uintptr_t)p, h->size, true, false, (uintptr_t)__builtin_return_address(0));
        h->magic = DEAD;
        memset(p, 0xDD, h->size);
        for (uintptr_t g = (uintptr_t)p >> 4; g <= ((uintptr_t)p + (h->size ? h->size - 1 : 0)) >> 4; g++) mark_freed(g);
        h->next = quarantine; quarantine = h;
        return;
    }
    h->magic = DEAD;
    free(h->raw);
}
void *operator new(size_t n) { return ds_alloc(n, 32); }
void *operator new[](size_t n) { return ds_alloc(n, 32); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return ds_alloc(n, 32); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return ds_alloc(n, 32); }
void operator delete(void *p) noexcept { ds_free(p); }
void operator delete[](void *p) noexcept { ds_free(p); }
void operator delete(void *p, size_t) noexcept { ds_free(p); }
void operator delete[](void *p, size_t) noexcept { ds_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { ds_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { ds_free(p); }

// ---------------------------------------------------------------------------------------------------------------- run
static void *worker(void *v)
{
    int i = (int)(intptr_t)v;
    char here; W[i].hi = (uintptr_t)&here + 4096; W[i].lo = W[i].hi - (1 << 20) + 65536;
    for (;;)
    {
        fwait(&W[i].go);
        me = i; quiet = 0;
        W[i].fn(W[i].arg, i);
        quiet = 0;
        W[i].st = DONE;
        int t = pick(true);
        if (t >= 0) { thash = (thash ^ (steps * 31 + t + 1)) * 0x9E3779B97F4A7C15ULL; consec = 0; me = -1; fpost(&W[t].go); continue; }
        for (int k = 0; k < nw; k++) if (W[k].st == BLOCKED) deadlock();
        me = -1;
        fpost(&main_go);
    }
    return nullptr;
}

extern "C" void ds_run(int n, void (*fn)(void *, int), void *arg, uint64_t seed)
{
    if (!cells)
    {
        cells = (Cell *)calloc(NC, sizeof(Cell)); syncs = (Sync *)calloc(NS, sizeof(Sync));
        freed = (uintptr_t *)calloc(NG, sizeof *freed); freedgen = (uint64_t *)calloc(NG, sizeof *freedgen);
        deferred = (void **)calloc(NDEF, sizeof *deferred);
        cpu_set_t s; CPU_ZERO(&s);
        if (!sched_getaffinity(0, sizeof s, &s) && CPU_COUNT(&s) > 1)
        {
            int k = (int)(getpid() % CPU_COUNT(&s)), c = 0;
            for (;; c++) if (CPU_ISSET(c, &s) && k-- == 0) break;
            CPU_ZERO(&s); CPU_SET(c, &s); sched_setaffinity(0, sizeof s, &s);
        }
    }
    while (nworkers_started < n)
    {
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
        if (pthread_create(&W[nworkers_started].th, &at, worker, (void *)(intptr_t)nworkers_started)) { perror("pthread_create"); _exit(3); }
        nworkers_started++;
    }
    gen++; ncell = nsync = nfreed = 0;
    rs = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 4; i++) rnd(); if (!rs) rs = 1;
    nw = n; steps = 0; consec = 0; switches = 0; thash = 0x77; lowprio = 0; chgat = 0; nchg = 0;
    cap = 400000;
    pct = rnd() % 100 < 45;
    static const uint32_t ps[] = {0xc000, 0x8000, 0x4000, 0x2000, 0x0800}; uint32_t k = rnd() % 5;
    p_sw = ps[k]; p_plain = ps[k] / (1 + rnd() % 6); spurious = rnd() % 3 == 0;
    if (pct)
    {
        nchg = 1 + rnd() % 4; uint64_t len = 8ULL << (rnd() % 8);
        for (int i = 0; i < nchg; i++) chg[i] = 1 + rnd() % (len + len / 4 + 1);
        for (int i = 0; i < nchg; i++) for (int j = i + 1; j < nchg; j++) if (chg[j] < chg[i]) { uint64_t t = chg[i]; chg[i] = chg[j]; chg[j] = t; }
    }
    for (int i = 0; i < n; i++)
    {
        W[i].st = READY; W[i].on = nullptr; W[i].fn = fn; W[i].arg = arg; W[i].prio = 1 + (int64_t)(rnd() % 1000000);
        memset(&W[i].vc, 0, sizeof(VC)); W[i].vc.c[i] = 1; memset(&W[i].acqp, 0, sizeof(VC)); W[i].has_relf = false;
    }
    active = true;
    int f = pick(false);
    fpost(&W[f].go);
    fwait(&main_go);
    active = false;
    while (ndeferred) __libc_free(deferred[--ndeferred]);
    while (quarantine) { Hdr *h = quarantine; quarantine = h->next; free(h->raw); }
}
extern "C" uint64_t ds_step() { return steps; }
extern "C" uint64_t ds_hash() { return thash; }
extern "C" uint64_t ds_switches() { return switches; }
extern "C" uint64_t ds_accesses() { return races_checked; }
extern "C" void ds_quiet(int d) { quiet += d; }
extern "C" void ds_point() { if (on()) point(K_OP); }
extern "C" int64_t ds_live_blocks() { return live_blocks; }
extern "C" int64_t ds_live_bytes() { return live_bytes; }
