/* Calls inj_cb at the inj_at-th memory access of instrumented code: one chosen
 * interleaving, the same at every run. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
int inj_at, inj_count; void (*inj_cb)(void);
static inline void jit(void)
{
    if (inj_at && ++inj_count == inj_at) { inj_at = 0; inj_cb(); }
}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
#define A(s) void __tsan_read##s(void *a) { jit(); } void __tsan_write##s(void *a) { jit(); } \
void __tsan_unaligned_read##s(void *a) { jit(); } void __tsan_unaligned_write##s(void *a) { jit(); } \
void __tsan_read_write##s(void *a) { jit(); } void __tsan_unaligned_read_write##s(void *a) { jit(); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *a, unsigned long n) { jit(); }
void __tsan_write_range(void *a, unsigned long n) { jit(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#define S __ATOMIC_SEQ_CST
#define T(b, t) \
t __tsan_atomic##b##_load(const volatile t *a, int m) { jit(); return __atomic_load_n(a, S); } \
void __tsan_atomic##b##_store(volatile t *a, t v, int m) { jit(); __atomic_store_n(a, v, S); jit(); } \
t __tsan_atomic##b##_exchange(volatile t *a, t v, int m) { jit(); v = __atomic_exchange_n(a, v, S); jit(); return v; } \
t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int m) { jit(); v = __atomic_fetch_add(a, v, S); jit(); return v; } \
t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int m) { jit(); v = __atomic_fetch_sub(a, v, S); jit(); return v; } \
t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int m) { jit(); return __atomic_fetch_and(a, v, S); } \
t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int m) { jit(); return __atomic_fetch_or(a, v, S); } \
t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int m) { jit(); return __atomic_fetch_xor(a, v, S); } \
t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t c, t v, int m, int f) { jit(); __atomic_compare_exchange_n(a, &c, v, 0, S, S); jit(); return c; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *c, t v, int m, int f) { jit(); int r = __atomic_compare_exchange_n(a, c, v, 0, S, S); jit(); return r; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *c, t v, int m, int f) { jit(); return __atomic_compare_exchange_n(a, c, v, 0, S, S); }
T(8, uint8_t) T(16, uint16_t) T(32, uint32_t) T(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { __atomic_thread_fence(S); }
void __tsan_atomic_signal_fence(int m) {}
