// Stand-in for the ThreadSanitizer runtime: the compiler inserts calls of these functions at memory accesses; those that
// are atomic or touch static memory become scheduling points (mc::sched).  Futex system calls of the controlled threads are
// modelled by the scheduler instead of blocking.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>

extern void mc_shared_access(void);
extern int mc_futex(uint32_t *addr, int op, uint32_t val, int timed);
extern char __data_start[], _end[];

static inline void plain(void *p) {
    if ((char *)p >= __data_start && (char *)p < _end)
        mc_shared_access();
}

void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *q) { (void)q; plain(p); }
void __tsan_vptr_read(void **p) { plain(p); }
void __tsan_read_range(void *p, unsigned long n) { (void)n; plain(p); }
void __tsan_write_range(void *p, unsigned long n) { (void)n; plain(p); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { plain(d); plain((void *)s); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { plain(d); plain((void *)s); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { plain(d); return memset(d, c, n); }
void __tsan_read1(void *p) { plain(p); }
void __tsan_write1(void *p) { plain(p); }
void __tsan_volatile_read1(void *p) { plain(p); }
void __tsan_volatile_write1(void *p) { plain(p); }
void __tsan_read_write1(void *p) { plain(p); }
void __tsan_read2(void *p) { plain(p); }
void __tsan_write2(void *p) { plain(p); }
void __tsan_unaligned_read2(void *p) { plain(p); }
void __tsan_unaligned_write2(void *p) { plain(p); }
void __tsan_volatile_read2(void *p) { plain(p); }
void __tsan_volatile_write2(void *p) { plain(p); }
void __tsan_unaligned_volatile_read2(void *p) { plain(p); }
void __tsan_unaligned_volatile_write2(void *p) { plain(p); }
void __tsan_read_write2(void *p) { plain(p); }
void __tsan_unaligned_read_write2(void *p) { plain(p); }
void __tsan_read4(void *p) { plain(p); }
void __tsan_write4(void *p) { plain(p); }
void __tsan_unaligned_read4(void *p) { plain(p); }
void __tsan_unaligned_write4(void *p) { plain(p); }
void __tsan_volatile_read4(void *p) { plain(p); }
void __tsan_volatile_write4(void *p) { plain(p); }
void __tsan_unaligned_volatile_read4(void *p) { plain(p); }
void __tsan_unaligned_volatile_write4(void *p) { plain(p); }
void __tsan_read_write4(void *p) { plain(p); }
void __tsan_unaligned_read_write4(void *p) { plain(p); }
void __tsan_read8(void *p) { plain(p); }
void __tsan_write8(void *p) { plain(p); }
void __tsan_unaligned_read8(void *p) { plain(p); }
void __tsan_unaligned_write8(void *p) { plain(p); }
void __tsan_volatile_read8(void *p) { plain(p); }
void __tsan_volatile_write8(void *p) { plain(p); }
void __tsan_unaligned_volatile_read8(void *p) { plain(p); }
void __tsan_unaligned_volatile_write8(void *p) { plain(p); }
void __tsan_read_write8(void *p) { plain(p); }
void __tsan_unaligned_read_write8(void *p) { plain(p); }
void __tsan_read16(void *p) { plain(p); }
void __tsan_write16(void *p) { plain(p); }
void __tsan_unaligned_read16(void *p) { plain(p); }
void __tsan_unaligned_write16(void *p) { plain(p); }
void __tsan_volatile_read16(void *p) { plain(p); }
void __tsan_volatile_write16(void *p) { plain(p); }
void __tsan_unaligned_volatile_read16(void *p) { plain(p); }
void __tsan_unaligned_volatile_write16(void *p) { plain(p); }
void __tsan_read_write16(void *p) { plain(p); }
void __tsan_unaligned_read_write16(void *p) { plain(p); }

uint8_t __tsan_atomic8_load(const uint8_t *a, int mo) { (void)mo; mc_shared_access(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic8_store(uint8_t *a, uint8_t v, int mo) { (void)mo; mc_shared_access(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_exchange(uint8_t *a, uint8_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_strong(uint8_t *a, uint8_t *c, uint8_t v, int mo, int fmo) { (void)mo; (void)fmo; mc_shared_access(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic8_compare_exchange_weak(uint8_t *a, uint8_t *c, uint8_t v, int mo, int fmo) { return __tsan_atomic8_compare_exchange_strong(a, c, v, mo, fmo); }
uint8_t __tsan_atomic8_compare_exchange_val(uint8_t *a, uint8_t c, uint8_t v, int mo, int fmo) { __tsan_atomic8_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
uint8_t __tsan_atomic8_fetch_add(uint8_t *a, uint8_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_sub(uint8_t *a, uint8_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_and(uint8_t *a, uint8_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_or(uint8_t *a, uint8_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_xor(uint8_t *a, uint8_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }
uint8_t __tsan_atomic8_fetch_nand(uint8_t *a, uint8_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }

uint16_t __tsan_atomic16_load(const uint16_t *a, int mo) { (void)mo; mc_shared_access(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic16_store(uint16_t *a, uint16_t v, int mo) { (void)mo; mc_shared_access(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_exchange(uint16_t *a, uint16_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_strong(uint16_t *a, uint16_t *c, uint16_t v, int mo, int fmo) { (void)mo; (void)fmo; mc_shared_access(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic16_compare_exchange_weak(uint16_t *a, uint16_t *c, uint16_t v, int mo, int fmo) { return __tsan_atomic16_compare_exchange_strong(a, c, v, mo, fmo); }
uint16_t __tsan_atomic16_compare_exchange_val(uint16_t *a, uint16_t c, uint16_t v, int mo, int fmo) { __tsan_atomic16_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
uint16_t __tsan_atomic16_fetch_add(uint16_t *a, uint16_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_sub(uint16_t *a, uint16_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_and(uint16_t *a, uint16_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_or(uint16_t *a, uint16_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_xor(uint16_t *a, uint16_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }
uint16_t __tsan_atomic16_fetch_nand(uint16_t *a, uint16_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }

uint32_t __tsan_atomic32_load(const uint32_t *a, int mo) { (void)mo; mc_shared_access(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic32_store(uint32_t *a, uint32_t v, int mo) { (void)mo; mc_shared_access(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_exchange(uint32_t *a, uint32_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_strong(uint32_t *a, uint32_t *c, uint32_t v, int mo, int fmo) { (void)mo; (void)fmo; mc_shared_access(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic32_compare_exchange_weak(uint32_t *a, uint32_t *c, uint32_t v, int mo, int fmo) { return __tsan_atomic32_compare_exchange_strong(a, c, v, mo, fmo); }
uint32_t __tsan_atomic32_compare_exchange_val(uint32_t *a, uint32_t c, uint32_t v, int mo, int fmo) { __tsan_atomic32_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
uint32_t __tsan_atomic32_fetch_add(uint32_t *a, uint32_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_sub(uint32_t *a, uint32_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_and(uint32_t *a, uint32_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_or(uint32_t *a, uint32_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_xor(uint32_t *a, uint32_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }
uint32_t __tsan_atomic32_fetch_nand(uint32_t *a, uint32_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }

uint64_t __tsan_atomic64_load(const uint64_t *a, int mo) { (void)mo; mc_shared_access(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
void __tsan_atomic64_store(uint64_t *a, uint64_t v, int mo) { (void)mo; mc_shared_access(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_exchange(uint64_t *a, uint64_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_strong(uint64_t *a, uint64_t *c, uint64_t v, int mo, int fmo) { (void)mo; (void)fmo; mc_shared_access(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
int __tsan_atomic64_compare_exchange_weak(uint64_t *a, uint64_t *c, uint64_t v, int mo, int fmo) { return __tsan_atomic64_compare_exchange_strong(a, c, v, mo, fmo); }
uint64_t __tsan_atomic64_compare_exchange_val(uint64_t *a, uint64_t c, uint64_t v, int mo, int fmo) { __tsan_atomic64_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
uint64_t __tsan_atomic64_fetch_add(uint64_t *a, uint64_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_sub(uint64_t *a, uint64_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_and(uint64_t *a, uint64_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_or(uint64_t *a, uint64_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_xor(uint64_t *a, uint64_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }
uint64_t __tsan_atomic64_fetch_nand(uint64_t *a, uint64_t v, int mo) { (void)mo; mc_shared_access(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }

void __tsan_atomic_thread_fence(int mo) { (void)mo; mc_shared_access(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

long syscall(long n, ...) {
    va_list l;
    va_start(l, n);
    long a[6];
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(l, long);
    va_end(l);
    if (n == SYS_futex) {
        int r = mc_futex((uint32_t *)a[0], (int)a[1] & FUTEX_CMD_MASK, (uint32_t)a[2], a[3] != 0);
        if (r >= 0)
            return r;
        if (r < -1) {
            errno = -r - 1;
            return -1;
        }
    }
    long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
