// 16 byte atomics as ThreadSanitizer sees them (libatomic's are invisible to it)
typedef unsigned __int128 u128;
extern "C" {
u128 __tsan_atomic128_load(const volatile u128 *, int);
void __tsan_atomic128_store(volatile u128 *, u128, int);
u128 __tsan_atomic128_exchange(volatile u128 *, u128, int);
int __tsan_atomic128_compare_exchange_strong(volatile u128 *, u128 *, u128, int, int);
u128 a16_load(const volatile void *a, int mo) __asm__("__atomic_load_16");
void a16_store(volatile void *a, u128 v, int mo) __asm__("__atomic_store_16");
u128 a16_exchange(volatile void *a, u128 v, int mo) __asm__("__atomic_exchange_16");
bool a16_cas(volatile void *a, void *c, u128 v, int mo, int fmo) __asm__("__atomic_compare_exchange_16");
u128 a16_load(const volatile void *a, int mo) { return __tsan_atomic128_load((const volatile u128 *)a, mo); }
void a16_store(volatile void *a, u128 v, int mo) { __tsan_atomic128_store((volatile u128 *)a, v, mo); }
u128 a16_exchange(volatile void *a, u128 v, int mo) { return __tsan_atomic128_exchange((volatile u128 *)a, v, mo); }
bool a16_cas(volatile void *a, void *c, u128 v, int mo, int fmo) { return __tsan_atomic128_compare_exchange_strong((volatile u128 *)a, (u128 *)c, v, mo, fmo); }
}
