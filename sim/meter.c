/* Counts steps: every basic block (called by the compiler's instrumentation), bytes moved, time slept. */
#include <stddef.h>
#include <time.h>
unsigned long ymeter;
void __sanitizer_cov_trace_pc(void) { ymeter++; }
#define WRAP(R, F, P, A) R __real_##F P; R __wrap_##F P { ymeter += n >> 5; return __real_##F A; }
WRAP(void *, memcpy, (void *d, const void *s, size_t n), (d, s, n))
WRAP(void *, memmove, (void *d, const void *s, size_t n), (d, s, n))
WRAP(void *, memset, (void *d, int c, size_t n), (d, c, n))
WRAP(int, memcmp, (const void *d, const void *s, size_t n), (d, s, n))
WRAP(int, bcmp, (const void *d, const void *s, size_t n), (d, s, n))
static void sleep_steps(const struct timespec *t) { ymeter += t->tv_sec * 100000000ul + t->tv_nsec / 10; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { sleep_steps(t); if (r) r->tv_sec = r->tv_nsec = 0; return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    (void)c;
    if (!(fl & TIMER_ABSTIME)) sleep_steps(t);
    if (r) r->tv_sec = r->tv_nsec = 0;
    return 0;
}
int __wrap_sched_yield(void) { ymeter += 100; return 0; }
