/* The world of the perft example: standard output, the clock, memory and its own death, decided by a plan.
 *
 * Loaded in front of libc. YP_PLAN lists what happens, by ordinal, e.g.
 *   w3:s5   the third write to standard output takes at most 5 bytes
 *   w4:i    the fourth is interrupted before it writes (EINTR)
 *   w5:e28  the fifth fails with errno 28;  w6:z takes nothing;  w7:E28 it and all after it fail;  w7:k kills the process before it writes
 *   c2:0    the second reading of the clock is 0 ns after the first
 *   a9      the ninth allocation fails
 *   x1      standard error cannot be written
 *   m7      every write takes at most 7 bytes
 * Everything not listed goes well; the clock advances by 1 ms between readings.
 * What happened is written to the descriptor YP_TRACE.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct ev { char what; long n; char how; long long arg; };
static struct ev evs[4096];
static int nevs, trace_fd = -1, ready;
static long writes, clocks, allocs, maxw;
static long long now_ns = 1000000000;

static void setup(void) {
    if (ready) return;
    ready = 1;
    const char *t = getenv("YP_TRACE"), *p = getenv("YP_PLAN");
    if (t) trace_fd = atoi(t);
    while (p && *p && nevs < 4096) {
        struct ev *e = &evs[nevs];
        char *q;
        e->what = *p++;
        e->n = strtol(p, &q, 10);
        p = q;
        e->how = 0;
        e->arg = 0;
        if (*p == ':') {
            p++;
            if (e->what == 'w') e->how = *p++;
            e->arg = strtoll(p, &q, 10);
            p = q;
        }
        if (e->what == 'm') maxw = e->n; else nevs++;
        if (*p == ',') p++;
    }
}
__attribute__((constructor)) static void init(void) { setup(); }

static struct ev *find(char what, long n) {
    for (int i = 0; i < nevs; i++) if (evs[i].what == what && evs[i].n == n) return &evs[i];
    return 0;
}
static void trace(const char *f, ...) {
    char b[120];
    va_list a;
    if (trace_fd < 0) return;
    va_start(a, f);
    int n = vsnprintf(b, sizeof b, f, a);
    va_end(a);
    syscall(SYS_write, trace_fd, b, n);
}

ssize_t write(int fd, const void *buf, size_t len) {
    setup();
    if (fd == 2 && find('x', 1)) {
        errno = EIO;
        return -1;
    }
    if (fd != 1) {
        long r = syscall(SYS_write, fd, buf, len);
        return r;
    }
    struct ev *e = find('w', ++writes);
    static struct ev *lasting;
    if (e && e->how == 'E') lasting = e;
    if (lasting) {
        trace("w %ld error %lld\n", writes, lasting->arg);
        errno = (int)lasting->arg;
        return -1;
    }
    size_t take = len;
    if (maxw && take > (size_t)maxw) take = maxw;
    if (e) {
        switch (e->how) {
        case 'i': trace("w %ld eintr\n", writes); errno = EINTR; return -1;
        case 'e': trace("w %ld error %lld\n", writes, e->arg); errno = (int)e->arg; return -1;
        case 'z': trace("w %ld zero\n", writes); return 0;
        case 'k': trace("w %ld killed\n", writes); syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); break;
        case 's': if (e->arg >= 1 && take > (size_t)e->arg) take = e->arg; break;
        }
    }
    if (take < len) trace("w %ld short %zu of %zu\n", writes, take, len);
    else trace("w %ld ok %zu\n", writes, take);
    size_t done = 0;
    while (done < take) {
        long r = syscall(SYS_write, 1, (const char *)buf + done, take - done);
        if (r <= 0) break;
        done += r;
    }
    return done;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    setup();
    struct ev *e = find('c', ++clocks);
    now_ns += e ? e->arg : 1000000;
    trace("c %ld +%lld\n", clocks, e ? e->arg : 1000000LL);
    ts->tv_sec = now_ns / 1000000000;
    ts->tv_nsec = now_ns % 1000000000;
    return 0;
}
/* memory */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int fails(void) {
    if (!ready) return 0;
    if (!find('a', ++allocs)) return 0;
    trace("a %ld fails\n", allocs);
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) { return fails() ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return fails() ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return fails() ? 0 : __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) {
    if (fails()) return ENOMEM;
    *p = __libc_memalign(a, n);
    return *p ? 0 : ENOMEM;
}
/* entropy: fixed */
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, 7, n); return n; }
__attribute__((destructor)) static void done(void) { trace("end w=%ld c=%ld a=%ld\n", writes, clocks, allocs); }
