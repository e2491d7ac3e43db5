// Stand-ins for the thread sanitizer's run time: every instrumented access may pause. Freed memory is poisoned and kept for a while.
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <malloc.h>
static __thread uint64_t r; static __thread int quiet;
static inline void P() {
    if (!r) r = (uint64_t) (uintptr_t) &r | 1;
    r ^= r << 13; r ^= r >> 7; r ^= r << 17;
    uint64_t x = (r >> 30) & 1023;
    if (x < 2) { int n = (r >> 8) & 4095; for (volatile int i = 0; i < n; ++i) {} } else if (x == 3 && ((r >> 5) & 15) == 0) { for (volatile int i = 0; i < 40000; ++i) {} }
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
#define RW(n) void __tsan_read##n(void*) { P(); } void __tsan_write##n(void*) { P(); } void __tsan_unaligned_read##n(void*) { P(); } void __tsan_unaligned_write##n(void*) { P(); } void __tsan_volatile_read##n(void*) { P(); } void __tsan_volatile_write##n(void*) { P(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) { P(); } void __tsan_write_range(void*, size_t) { P(); }
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); } void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) T __tsan_atomic##bits##_load(const volatile T* a, int) { P(); return __atomic_load_n(a, 5); } void __tsan_atomic##bits##_store(volatile T* a, T v, int) { P(); __atomic_store_n(a, v, 5); } \
 T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { P(); return __atomic_exchange_n(a, v, 5); } T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { P(); return __atomic_fetch_add(a, v, 5); } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { P(); return __atomic_fetch_sub(a, v, 5); } T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { P(); return __atomic_fetch_and(a, v, 5); } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { P(); return __atomic_fetch_or(a, v, 5); } T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { P(); return __atomic_fetch_xor(a, v, 5); } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T d, int, int) { P(); return __atomic_compare_exchange_n(a, e, d, false, 5, 5); } int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T d, int, int) { P(); return __atomic_compare_exchange_n(a, e, d, false, 5, 5); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T d, int, int) { P(); __atomic_compare_exchange_n(a, &e, d, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __real_free(void*);
enum { Q = 1 << 15 }; static void* q[Q]; static unsigned qi;
void __wrap_free(void* p) { if (!p) return; memset(p, 0xDB, malloc_usable_size(p)); unsigned i = __sync_fetch_and_add(&qi, 1) % Q; void* o = __sync_lock_test_and_set(&q[i], p); if (o) __real_free(o); }
}
