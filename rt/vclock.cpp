#include "vclock.h"
#include <chrono>
#ifdef VF_DSCHED
#include "dsched.h"
#define POINT() ds_point()
#else
#define POINT() ((void)0)
#endif
static int64_t t = 1000000000000LL, autostep;
static uint64_t reads;
static int64_t *logbuf; static int logcap, logn;
static int64_t rd()
{
    POINT();
    __atomic_fetch_add(&reads, 1, __ATOMIC_RELAXED);
    int64_t s = __atomic_load_n(&autostep, __ATOMIC_RELAXED);
    int64_t v = s ? __atomic_fetch_add(&t, s, __ATOMIC_RELAXED) : __atomic_load_n(&t, __ATOMIC_RELAXED);
    if (logbuf && logn < logcap) logbuf[logn++] = v;
    return v;
}
extern "C" {
int64_t vclk_now() { return __atomic_load_n(&t, __ATOMIC_RELAXED); }
void vclk_set(int64_t ns) { __atomic_store_n(&t, ns, __ATOMIC_RELAXED); }
int64_t vclk_advance(int64_t ns) { POINT(); return __atomic_add_fetch(&t, ns, __ATOMIC_RELAXED); }
uint64_t vclk_reads() { return __atomic_load_n(&reads, __ATOMIC_RELAXED); }
void vclk_step(int64_t ns) { __atomic_store_n(&autostep, ns, __ATOMIC_RELAXED); }
void vclk_log(int64_t *b, int cap) { logbuf = b; logcap = cap; logn = 0; }
int vclk_logged() { return logn; }
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(rd())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(rd())); }
} } }
