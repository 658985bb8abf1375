/* Runtime for code compiled with -fsanitize=thread: every memory access of the
 * system under test becomes a scheduling point of the simulator (the real
 * ThreadSanitizer runtime is not linked). Atomics are performed as such. */
#include "sim.h"
#define ACC(n) \
void __tsan_read##n(void *p) { sim_access(p, n, false); } \
void __tsan_write##n(void *p) { sim_access(p, n, true); } \
void __tsan_unaligned_read##n(void *p) { sim_access(p, n, false); } \
void __tsan_unaligned_write##n(void *p) { sim_access(p, n, true); } \
void __tsan_volatile_read##n(void *p) { sim_access(p, n, false); } \
void __tsan_volatile_write##n(void *p) { sim_access(p, n, true); } \
void __tsan_unaligned_volatile_read##n(void *p) { sim_access(p, n, false); } \
void __tsan_unaligned_volatile_write##n(void *p) { sim_access(p, n, true); } \
void __tsan_read_write##n(void *p) { sim_access(p, n, true); } \
void __tsan_unaligned_read_write##n(void *p) { sim_access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { sim_access(p, n ? n : 1, false); }
void __tsan_write_range(void *p, size_t n) { sim_access(p, n ? n : 1, true); }
void __tsan_init(void) { }
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_ignore_thread_begin(void) { }
void __tsan_ignore_thread_end(void) { }
#define ATOM(n, t) \
t __tsan_atomic##n##_load(const volatile t *p, int mo) { (void)mo; sim_access((void *)p, sizeof *p, false); return *p; } \
void __tsan_atomic##n##_store(volatile t *p, t v, int mo) { (void)mo; sim_access((void *)p, sizeof *p, true); *p = v; } \
t __tsan_atomic##n##_exchange(volatile t *p, t v, int mo) { (void)mo; sim_access((void *)p, sizeof *p, true); t o = *p; *p = v; return o; } \
t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int mo) { (void)mo; sim_access((void *)p, sizeof *p, true); t o = *p; *p = o + v; return o; } \
t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int mo) { (void)mo; sim_access((void *)p, sizeof *p, true); t o = *p; *p = o - v; return o; } \
t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int mo) { (void)mo; sim_access((void *)p, sizeof *p, true); t o = *p; *p = o & v; return o; } \
t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int mo) { (void)mo; sim_access((void *)p, sizeof *p, true); t o = *p; *p = o | v; return o; } \
t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int mo) { (void)mo; sim_access((void *)p, sizeof *p, true); t o = *p; *p = o ^ v; return o; } \
t __tsan_atomic##n##_fetch_nand(volatile t *p, t v, int mo) { (void)mo; sim_access((void *)p, sizeof *p, true); t o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *e, t v, int mo, int fo) { (void)mo; (void)fo; sim_access((void *)p, sizeof *p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *e, t v, int mo, int fo) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, mo, fo); } \
t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t e, t v, int mo, int fo) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, mo, fo); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { sim_access(s, n, false); sim_access(d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { sim_access(s, n, false); sim_access(d, n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) sim_access(d, n, true); return memset(d, c, n); }
/* Library functions that read: as far as they have to. */
void *__tsan_memchr(const void *p, int c, size_t n) { const uint8_t *r = memchr(p, c, n); if (n) sim_access(p, r ? (size_t)(r - (const uint8_t *)p) + 1 : n, false); return (void *)r; }
void *__tsan_memrchr(const void *p, int c, size_t n) {
	const uint8_t *b = p; size_t i = n;
	while (i && b[i - 1] != (uint8_t)c) i--;
	if (n) sim_access(i ? b + i - 1 : b, i ? n - i + 1 : n, false);
	return i ? (void *)(b + i - 1) : NULL;
}
int __tsan_memcmp(const void *p, const void *q, size_t n) {
	const uint8_t *a = p, *b = q; size_t i = 0;
	while (i < n && a[i] == b[i]) i++;
	if (n) { sim_access(p, i < n ? i + 1 : n, false); sim_access(q, i < n ? i + 1 : n, false); }
	return i < n ? a[i] - b[i] : 0;
}
int __tsan_bcmp(const void *p, const void *q, size_t n) { return __tsan_memcmp(p, q, n); }
size_t __tsan_strlen(const char *s) { size_t n = strlen(s); sim_access(s, n + 1, false); return n; }
size_t __tsan_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); if (m) sim_access(s, n < m ? n + 1 : n, false); return n; }
char *__tsan_strchr(const char *s, int c) { const char *r = s; while (*r && *r != (char)c) r++; sim_access(s, (size_t)(r - s) + 1, false); return *r == (char)c ? (char *)r : NULL; }
