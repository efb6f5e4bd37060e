// Run-time of the thread simulator.
//
// The library, its dependencies, std and the harness are compiled with the ThreadSanitizer pass, which
// calls the functions below at every memory access and atomic operation. They are implemented here, so
// every access made inside a library call is a point where the seeded scheduler may let another thread
// run. Real threads are used, exactly one of which holds the baton at any time. Futexes, sleeping,
// clocks, entropy and thread creation are intercepted and simulated. Happens-before is tracked from the
// memory orders of atomics, thread creation and joining; conflicting plain accesses inside library calls
// that are not ordered by it are data races.
//
// This file is compiled by gcc without instrumentation.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 72
#define WAYS 8
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;

enum { S_FREE, S_RUN, S_FUTEX, S_SLEEP, S_WAIT, S_JOIN, S_STALLED, S_END };
enum { K_PREEMPT, K_BLOCK, K_END, K_YIELD };
enum { A_STALL = 1, A_STOP = 2, A_CRASH = 3, A_LEAP = 4 };
enum { XK_OK = 0, XK_RACE = 40, XK_DEADLOCK = 41, XK_LIVELOCK = 42, XK_CRASH = 43, XK_INTERNAL = 44 };

typedef struct {
    int state;
    volatile u32 baton;
    u64 key;      // futex address or wait key
    u64 wake_at;  // simulated ns, 0: never
    int timed_out;
    u64 steps;    // scheduling points passed inside library calls
    int in_lib;
    u64 stalled_until;
    int prio;
    u32 vc[MAXT], frel[MAXT], facq[MAXT];
    u64 waits;
    u64 allocs;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    pthread_t pt;
    int joiner_seen;
} thr;

typedef struct {
    u8 t, next, kind, pad;
    u32 pad2;
    u64 steps;
} dec;

// Results shared with the parent process.
typedef struct {
    u64 gsteps, switches, preempts, blocks, atomics, futex_waits, futex_wakes, spurious, stalls, stops, crashes;
    u64 clock_reads, entropy_reads, allocs, alloc_fails, races_checked, sleeps, yields, threads, reclaimed, hash, hot_switches, leaps, sim_us, host_reads;
    u64 ndec;
    u32 exit_kind;
    char msg[512];
    dec d[1];
} shared;

#define MAXDEC 400000

static __thread int me = -1;
static thr T[MAXT];
static int nthr;
static int on;
static u64 gsteps, step_cap = 40000000;
static long budget;
static u64 now_ns, clock_rate = 7, boot_ns;
static int sim_pid = 4242;
static u64 rng_s[2], ent_s[2];
static int race_on = 1;
static shared *SH;
static int mode;          // 0 random slices, 1 priorities, 2 atomics-biased, 3 replay, 4 run to completion, 5 at atomics that threads write
static double mean_slice;
static double atomic_p;
static double spur_p;
static u64 spur_seed;
static u64 pct_points[16];
static int npct;
static u64 oom_at[MAXT];

typedef struct { u8 t; u8 act; u64 at; u64 arg; int done; } event;
static event EV[64];
static int nev;

static dec *RP;
static u64 nrp, rp_pos[MAXT];
static u8 *rp_used;

static u64 rnd(u64 *s) {
    u64 z = (s[0] += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31) ^ s[1];
}
static u64 below(u64 n) { return n <= 1 ? 0 : (u64)(((u128)rnd(rng_s) * n) >> 64); }
static double unit(void) { return ((rnd(rng_s) >> 11) + 0.5) / 9007199254740992.0; }

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

static void quit(int kind) __attribute__((noreturn));
static void quit(int kind) {
    if (SH) {
        SH->exit_kind = kind;
        SH->gsteps = gsteps;
        SH->sim_us = (now_ns - 1000000000ull) / 1000;
    }
    _exit(kind);
}

// ------------------------------------------------------------------ baton
static void baton_wait(thr *t) {
    while (!__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE))
        raw(SYS_futex, (long)&t->baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}
static void baton_give(thr *t) {
    __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&t->baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static long long geom(double mean) {
    double u = unit();
    // -ln(u) without libm: exponent and a small series
    double x = u;
    long long e = 0;
    while (x < 0.5) { x *= 2; e++; }
    double y = (1 - x), l = y, p = y;
    for (int i = 2; i < 24; i++) { p *= y; l += p / i; }
    double v = (e * 0.6931471805599453 + l) * mean;
    if (v > 400000) v = 400000;
    return 1 + (long long)v;
}

static void set_budget(int t) {
    long b;
    if (mode == 0) b = geom(mean_slice);
    else if (mode == 3) {
        b = 400000;
        for (u64 i = rp_pos[t]; i < nrp; i++) {
            if (RP[i].t != t || rp_used[i] || RP[i].steps <= T[t].steps) continue;
            if (RP[i].kind != K_PREEMPT) continue;
            if ((long)(RP[i].steps - T[t].steps) < b) b = RP[i].steps - T[t].steps;
            break;
        }
    } else b = 400000;
    if (mode == 1)
        for (int i = 0; i < npct; i++)
            if (pct_points[i] > gsteps && (long)(pct_points[i] - gsteps) < b) b = pct_points[i] - gsteps;
    for (int i = 0; i < nev; i++)
        if (EV[i].t == t && !EV[i].done) {
            long d = (long)(EV[i].at - T[t].steps);
            if (d < 0) d = 0;
            if (d < b) b = d;
        }
    if (b < 1) b = 1;
    budget = b;
}

static int eligible(int i) { return T[i].state == S_RUN && T[i].stalled_until <= gsteps; }

static void wake_sleepers(void) {
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == S_SLEEP || T[i].state == S_FUTEX) && T[i].wake_at && T[i].wake_at <= now_ns) {
            T[i].timed_out = T[i].state == S_FUTEX;
            T[i].state = S_RUN;
            T[i].wake_at = 0;
        }
}

static void deadlock(void) {
    int n = 0, l = 0;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == S_FUTEX || T[i].state == S_JOIN) {
            n++;
            if (l < 400)
                l += snprintf(SH->msg + l, sizeof SH->msg - l, "thread %d blocked for good at its step %llu%s; ", i,
                              (unsigned long long)T[i].steps, T[i].in_lib ? " inside the library" : "");
        }
    quit(XK_DEADLOCK);
}

static int choose(int cur, int kind) {
    int c[MAXT], n;
again:
    wake_sleepers();
    n = 0;
    for (int i = 0; i < nthr; i++)
        if (eligible(i)) c[n++] = i;
    if (n == 0) {
        // end finite stalls
        int best = -1;
        for (int i = 0; i < nthr; i++)
            if (T[i].state == S_RUN && (best < 0 || T[i].stalled_until < T[best].stalled_until)) best = i;
        if (best >= 0) { T[best].stalled_until = 0; goto again; }
        // time passes
        best = -1;
        for (int i = 0; i < nthr; i++)
            if ((T[i].state == S_SLEEP || T[i].state == S_FUTEX) && T[i].wake_at && (best < 0 || T[i].wake_at < T[best].wake_at)) best = i;
        if (best >= 0) { now_ns = T[best].wake_at; goto again; }
        // waits between the simulated threads give up, then the main thread's
        int lib = 0, w = 0;
        for (int i = 0; i < nthr; i++)
            if (T[i].state == S_WAIT && T[i].key) { T[i].state = S_RUN; T[i].timed_out = 1; w = 1; }
        if (w) goto again;
        for (int i = 0; i < nthr; i++) {
            if (T[i].state == S_FUTEX || T[i].state == S_JOIN) lib = 1;
            if (T[i].state == S_WAIT) w = 1;
        }
        if (lib) deadlock();
        if (w) {
            for (int i = 0; i < nthr; i++)
                if (T[i].state == S_WAIT) { T[i].state = S_RUN; T[i].timed_out = 1; }
            goto again;
        }
        snprintf(SH->msg, sizeof SH->msg, "no thread left to run");
        quit(XK_INTERNAL);
    }
    int want = -1;
    if (mode == 3) {
        while (rp_pos[cur] < nrp && (RP[rp_pos[cur]].t != cur || rp_used[rp_pos[cur]] || RP[rp_pos[cur]].steps < T[cur].steps)) rp_pos[cur]++;
        for (u64 i = rp_pos[cur]; i < nrp; i++) {
            if (RP[i].t != cur || rp_used[i]) continue;
            if (RP[i].steps > T[cur].steps) break;
            if ((RP[i].kind == K_PREEMPT) != (kind == K_PREEMPT)) continue;
            rp_used[i] = 1;
            want = RP[i].next;
            break;
        }
        if (want >= 0 && want < nthr && eligible(want)) return want;
        if (kind == K_PREEMPT && eligible(cur)) return cur;
        for (int i = 0; i < n; i++)
            if (c[i] != cur || n == 1) return c[i];
        return c[0];
    }
    if (mode == 4) {
        if (kind == K_PREEMPT && eligible(cur)) return cur;
        for (int i = 0; i < n; i++)
            if (c[i] != cur || n == 1) return c[i];
        return c[0];
    }
    if (mode == 1) {
        if (kind != K_BLOCK && kind != K_END) {
            int lo = 0;
            for (int i = 0; i < nthr; i++)
                if (T[i].prio < lo) lo = T[i].prio;
            int hit = kind == K_YIELD;
            for (int i = 0; i < npct; i++)
                if (pct_points[i] && pct_points[i] <= gsteps) { pct_points[i] = 0; hit = 1; }
            // fairness: a thread that ran a full slice makes room
            if (!hit && budget <= 0) hit = 1;
            if (hit) T[cur].prio = lo - 1;
        }
        int b = c[0];
        for (int i = 1; i < n; i++)
            if (T[c[i]].prio > T[b].prio) b = c[i];
        return b;
    }
    // random: somebody else if possible
    int m = 0, o[MAXT];
    for (int i = 0; i < n; i++)
        if (c[i] != cur) o[m++] = c[i];
    if (m == 0) return c[0];
    return o[below(m)];
}

static void resched(int kind) {
    int cur = me;
    thr *t = &T[cur];
    if (gsteps > step_cap) {
        int l = 0;
        for (int i = 0; i < nthr && l < 400; i++)
            l += snprintf(SH->msg + l, sizeof SH->msg - l, "thread %d: step %llu state %d; ", i, (unsigned long long)T[i].steps, T[i].state);
        quit(XK_LIVELOCK);
    }
    for (int i = 0; i < nev; i++)
        if (EV[i].t == cur && !EV[i].done && EV[i].at <= t->steps && kind == K_PREEMPT) {
            EV[i].done = 1;
            if (EV[i].act == A_STALL) {
                t->stalled_until = gsteps + EV[i].arg;
                SH->stalls++;
            } else if (EV[i].act == A_LEAP) {
                // an odd amount: somebody sets the wall clock back; an even one: time passes unseen
                if (EV[i].arg & 1) boot_ns -= EV[i].arg < boot_ns ? EV[i].arg : boot_ns;
                else now_ns += EV[i].arg;
                SH->leaps++;
            } else if (EV[i].act == A_STOP) {
                t->state = S_STALLED;
                SH->stops++;
                kind = K_BLOCK;
            } else if (EV[i].act == A_CRASH) {
                SH->crashes++;
                quit(XK_CRASH);
            }
        }
    int next = choose(cur, kind);
    if (kind == K_PREEMPT) SH->preempts++;
    else if (kind == K_BLOCK) SH->blocks++;
    else if (kind == K_YIELD) SH->yields++;
    if (next != cur || kind != K_PREEMPT) {
        if (next != cur) SH->switches++;
        SH->hash = (SH->hash ^ (u64)(cur * 128 + next + 1) ^ (t->steps << 8)) * 0x100000001b3ull;
        if (SH->ndec < MAXDEC) {
            dec *d = &SH->d[SH->ndec++];
            d->t = cur;
            d->next = next;
            d->kind = kind == K_PREEMPT ? K_PREEMPT : K_BLOCK;
            d->steps = t->steps;
        }
    }
    set_budget(next);
    if (next == cur) return;
    baton_give(&T[next]);
    if (kind != K_END) {
        baton_wait(t);
    }
}

static inline void point(thr *t) {
    t->steps++;
    gsteps++;
    now_ns += clock_rate;
    if (--budget <= 0) resched(K_PREEMPT);
}

// ------------------------------------------------------------------ happens-before
#define NSYNC 16384
typedef struct { u64 a; u32 vc[MAXT]; } sync_t;
static sync_t *SY;
static int nsync;

static sync_t *sync_of(u64 a, int make) {
    u64 h = (a * 0x9e3779b97f4a7c15ull) >> 50;
    for (;; h = (h + 1) & (NSYNC - 1)) {
        if (SY[h].a == a) return &SY[h];
        if (!SY[h].a) {
            if (!make) return 0;
            if (++nsync > NSYNC - 8) { race_on = 0; nsync--; return 0; }
            SY[h].a = a;
            return &SY[h];
        }
    }
}
static void join_vc(u32 *a, const u32 *b) {
    for (int i = 0; i < nthr; i++)
        if (b[i] > a[i]) a[i] = b[i];
}
static int acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static int rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void hb_load(thr *t, u64 a, int mo) {
    sync_t *s = sync_of(a, 0);
    if (!s) return;
    if (acq(mo)) join_vc(t->vc, s->vc);
    else join_vc(t->facq, s->vc);
}
static void hb_store(thr *t, u64 a, int mo, int rmw) {
    if (rel(mo)) {
        sync_t *s = sync_of(a, 1);
        if (!s) return;
        if (rmw) join_vc(s->vc, t->vc);
        else memcpy(s->vc, t->vc, sizeof s->vc);
        t->vc[t - T]++;
    } else {
        sync_t *s = sync_of(a, 1);
        if (!s) return;
        // relaxed: only what a release fence published; a plain relaxed store ends the release sequence
        if (rmw) join_vc(s->vc, t->frel);
        else memcpy(s->vc, t->frel, sizeof s->vc);
    }
}
static void hb_fence(thr *t, int mo) {
    if (acq(mo)) join_vc(t->vc, t->facq);
    if (rel(mo)) {
        memcpy(t->frel, t->vc, sizeof t->frel);
        t->vc[t - T]++;
    }
}

// ------------------------------------------------------------------ races
// What up to WAYS threads last did to eight bytes. With more threads than that an entry is given up, one
// that is ordered before the current access if there is one: a race may then be missed, never invented.
typedef struct {
    u32 rclk[WAYS], wclk[WAYS];
    u8 rm[WAYS], wm[WAYS];
    u8 who[WAYS];  // thread + 1
    u32 pc;
    u8 used, pad[3];
} cell;
#define NPAGE 8192
static struct { u64 page; cell *c; } PG[NPAGE];
static int npages;
static u64 last_page;
static cell *last_cells;
static char *arena;
static u64 arena_left;

static cell *cells_of(u64 page, int make) {
    if (page == last_page && last_cells) return last_cells;
    u64 h = (page * 0x9e3779b97f4a7c15ull) >> 51;
    for (;; h = (h + 1) & (NPAGE - 1)) {
        if (PG[h].page == page && PG[h].c) break;
        if (!PG[h].c) {
            if (!make) return 0;
            if (++npages > NPAGE - 8) { race_on = 0; npages--; return 0; }
            u64 need = sizeof(cell) * 512;
            if (arena_left < need) {
                arena_left = need * 64;
                arena = mmap(0, arena_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                if (arena == MAP_FAILED) { race_on = 0; arena_left = 0; return 0; }
            }
            PG[h].page = page;
            PG[h].c = (cell *)arena;
            arena += need;
            arena_left -= need;
            break;
        }
    }
    last_page = page;
    last_cells = PG[h].c;
    return PG[h].c;
}

extern char __executable_start, etext;

static void race(thr *t, u64 a, int isw, int u, int uw, u32 opc, void *pc) {
    snprintf(SH->msg, sizeof SH->msg, "thread %d %s at 0x%llx without ordering after thread %d's %s; pc 0x%llx, earlier pc 0x%llx",
             (int)(t - T), isw ? "writes" : "reads", (unsigned long long)a, u, uw ? "write" : "read",
             (unsigned long long)((char *)pc - &__executable_start), (unsigned long long)opc);
    quit(XK_RACE);
}

static inline void check1(thr *t, u64 g, u8 mask, int isw, void *pc) {
    cell *cs = cells_of(g >> 9, 1);
    if (!cs) return;
    cell *c = &cs[g & 511];
    int id = t - T, m = id & (WAYS - 1);
    u32 clk = t->vc[id];
    if (c->who[m] != id + 1) {
        int f = -1;
        for (int i = 0; i < WAYS; i++)
            if (c->who[i] == id + 1) f = i;
        if (f < 0 && !c->who[m]) f = m;
        for (int i = 0; i < WAYS && f < 0; i++)
            if (!c->who[i]) f = i;
        m = f;
    }
    if (m >= 0) {
        if (c->wclk[m] == clk && (c->wm[m] & mask) == mask) return;
        if (!isw && c->rclk[m] == clk && (c->rm[m] & mask) == mask) return;
    }
    int old = -1;
    for (int i = 0; i < WAYS; i++) {
        int u = c->who[i] - 1;
        if (u < 0 || u == id) continue;
        if ((c->wm[i] & mask) && c->wclk[i] > t->vc[u]) race(t, g << 3, isw, u, 1, c->pc, pc);
        if (isw && (c->rm[i] & mask) && c->rclk[i] > t->vc[u]) race(t, g << 3, isw, u, 0, c->pc, pc);
        if (c->wclk[i] <= t->vc[u] && c->rclk[i] <= t->vc[u]) old = i;
    }
    if (m < 0) {
        m = old >= 0 ? old : id & (WAYS - 1);
        c->rclk[m] = c->wclk[m] = 0;
        c->rm[m] = c->wm[m] = 0;
    }
    c->who[m] = id + 1;
    SH->races_checked++;
    c->pc = (u32)((char *)pc - &__executable_start);
    c->used = 1;
    if (isw) {
        if (c->wclk[m] != clk) c->wm[m] = 0;
        c->wclk[m] = clk;
        c->wm[m] |= mask;
    } else {
        if (c->rclk[m] != clk) c->rm[m] = 0;
        c->rclk[m] = clk;
        c->rm[m] |= mask;
    }
}
static inline void check(thr *t, u64 a, u64 n, int isw, void *pc) {
    while (n) {
        u64 off = a & 7, k = 8 - off < n ? 8 - off : n;
        check1(t, a >> 3, (u8)(((1u << k) - 1) << off), isw, pc);
        a += k;
        n -= k;
    }
}
static void forget(u64 a, u64 n) {
    u64 g = a >> 3, e = (a + n + 7) >> 3;
    while (g < e) {
        cell *cs = cells_of(g >> 9, 0);
        u64 stop = ((g >> 9) + 1) << 9;
        if (stop > e) stop = e;
        if (cs)
            for (u64 i = g; i < stop; i++)
                if (cs[i & 511].used) memset(&cs[i & 511], 0, sizeof(cell));
        g = stop;
    }
}

static inline void acc(void *p, u64 n, int isw, void *pc) {
    if (me < 0) return;
    thr *t = &T[me];
    if (!t->in_lib) return;
    point(t);
    if (race_on) check(t, (u64)p, n, isw, pc);
}

#define PC __builtin_return_address(0)
#define RW(N) \
    void __tsan_read##N(void *p) { acc(p, N, 0, PC); } \
    void __tsan_write##N(void *p) { acc(p, N, 1, PC); } \
    void __tsan_volatile_read##N(void *p) { acc(p, N, 0, PC); } \
    void __tsan_volatile_write##N(void *p) { acc(p, N, 1, PC); } \
    void __tsan_unaligned_volatile_read##N(void *p) { acc(p, N, 0, PC); } \
    void __tsan_unaligned_volatile_write##N(void *p) { acc(p, N, 1, PC); } \
    void __tsan_read_write##N(void *p) { acc(p, N, 1, PC); } \
    void __tsan_unaligned_read##N(void *p) { acc(p, N, 0, PC); } \
    void __tsan_unaligned_write##N(void *p) { acc(p, N, 1, PC); } \
    void __tsan_unaligned_read_write##N(void *p) { acc(p, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, u64 n) { acc(p, n, 0, PC); }
void __tsan_write_range(void *p, u64 n) { acc(p, n, 1, PC); }
void __tsan_vptr_read(void **p) { acc(p, 8, 0, PC); }
void __tsan_vptr_update(void **p, void *v) { (void)v; acc(p, 8, 1, PC); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, u64 n) {
    if (n) { acc((void *)s, n, 0, PC); acc(d, n, 1, PC); }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, u64 n) {
    if (n) { acc((void *)s, n, 0, PC); acc(d, n, 1, PC); }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, u64 n) {
    if (n) acc(d, n, 1, PC);
    return memset(d, c, n);
}

// ------------------------------------------------------------------ atomics
// Words that the library writes atomically while threads run: what threads can disturb each other through,
// apart from races. Mode 5 switches there.
#define NHOT 4096
static u64 hot[NHOT];
static int nhot;
static int hot_at(u64 a, int make) {
    u64 h = (a * 0x9e3779b97f4a7c15ull) >> 52;
    for (;; h = (h + 1) & (NHOT - 1)) {
        if (hot[h] == a) return 1;
        if (!hot[h]) {
            if (make && nthr > 1 && nhot < NHOT / 2) { hot[h] = a; nhot++; }
            return 0;
        }
    }
}
static inline thr *at(u64 a, int w) {
    if (me < 0) return 0;
    thr *t = &T[me];
    if (t->in_lib) {
        SH->atomics++;
        t->steps++;
        gsteps++;
        now_ns += clock_rate;
        --budget;
        if (budget <= 0) resched(K_PREEMPT);
        else if (mode == 2 && unit() < atomic_p) resched(K_PREEMPT);
        else if (mode == 5 && hot_at(a, w) && unit() < atomic_p) { SH->hot_switches++; resched(K_PREEMPT); }
    }
    return t;
}
#define ATOM(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { thr *t = at((u64)a, 0); TY v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (t) hb_load(t, (u64)a, mo); return v; } \
    void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { thr *t = at((u64)a, 1); if (t) hb_store(t, (u64)a, mo, 0); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { thr *t = at((u64)a, 1); if (t) { hb_load(t, (u64)a, mo); hb_store(t, (u64)a, mo, 1); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo) { thr *t = at((u64)a, 1); if (t) { hb_load(t, (u64)a, mo); hb_store(t, (u64)a, mo, 1); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo) { thr *t = at((u64)a, 1); if (t) { hb_load(t, (u64)a, mo); hb_store(t, (u64)a, mo, 1); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo) { thr *t = at((u64)a, 1); if (t) { hb_load(t, (u64)a, mo); hb_store(t, (u64)a, mo, 1); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo) { thr *t = at((u64)a, 1); if (t) { hb_load(t, (u64)a, mo); hb_store(t, (u64)a, mo, 1); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo) { thr *t = at((u64)a, 1); if (t) { hb_load(t, (u64)a, mo); hb_store(t, (u64)a, mo, 1); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int mo) { thr *t = at((u64)a, 1); if (t) { hb_load(t, (u64)a, mo); hb_store(t, (u64)a, mo, 1); } return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { \
        thr *t = at((u64)a, 1); int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (t) { if (ok) { hb_load(t, (u64)a, mo); hb_store(t, (u64)a, mo, 1); } else hb_load(t, (u64)a, fmo); } return ok; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { \
        return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { \
        __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo) { thr *t = at(8, 0); if (t) hb_fence(t, mo); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ------------------------------------------------------------------ seams: futex, time, entropy, threads
static void block(int state) {
    T[me].state = state;
    resched(K_BLOCK);
}

static long sim_futex(u32 *a, int op, u32 val, const struct timespec *to, u32 val3) {
    (void)val3;
    int cmd = op & 127;
    thr *t = &T[me];
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        SH->futex_waits++;
        if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        t->waits++;
        if (spur_p > 0) {
            u64 s[2] = {spur_seed ^ ((u64)me << 32) ^ t->waits, 0};
            if ((rnd(s) >> 11) * (1.0 / 9007199254740992.0) < spur_p) {
                SH->spurious++;
                resched(K_YIELD);
                return 0;
            }
        }
        t->key = (u64)a;
        t->timed_out = 0;
        t->wake_at = 0;
        if (to) {
            u64 ns = (u64)to->tv_sec * 1000000000ull + to->tv_nsec;
            t->wake_at = cmd == FUTEX_WAIT ? now_ns + ns : ns;
            if (!t->wake_at) t->wake_at = 1;
        }
        block(S_FUTEX);
        t->wake_at = 0;
        if (t->timed_out) { t->timed_out = 0; errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        SH->futex_wakes++;
        long n = 0;
        for (int i = 0; i < nthr && n < (long)val; i++)
            if (T[i].state == S_FUTEX && T[i].key == (u64)a) {
                T[i].state = S_RUN;
                n++;
            }
        return n;
    }
    errno = ENOSYS;
    return -1;
}

static void entropy(void *buf, u64 n) {
    if (SH) SH->entropy_reads++;
    u8 *b = buf;
    for (u64 i = 0; i < n; i++) b[i] = (u8)rnd(ent_s);
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on && me >= 0) {
        if (n == SYS_futex) return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f);
        if (n == SYS_getrandom) { entropy((void *)a, (u64)b); return b; }
        if (n == SYS_sched_yield) { resched(K_YIELD); return 0; }
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
int sched_yield(void) {
    if (on && me >= 0) { resched(K_YIELD); return 0; }
    return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (on && me >= 0) { entropy(buf, n); return n; }
    long r = raw(SYS_getrandom, (long)buf, n, flags, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return r;
}
int getentropy(void *buf, size_t n) {
    if (on && me >= 0) { entropy(buf, n); return 0; }
    return raw(SYS_getrandom, (long)buf, n, 0, 0, 0, 0) == (long)n ? 0 : -1;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (on && me >= 0) {
        SH->clock_reads++;
        u64 t = now_ns;
        if (id == CLOCK_REALTIME) t += boot_ns;
        ts->tv_sec = t / 1000000000ull;
        ts->tv_nsec = t % 1000000000ull;
        return 0;
    }
    long r = raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
}
static int sim_sleep(u64 ns) {
    SH->sleeps++;
    T[me].wake_at = now_ns + (ns ? ns : 1);
    T[me].timed_out = 0;
    block(S_SLEEP);
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (on && me >= 0) return sim_sleep((u64)a->tv_sec * 1000000000ull + a->tv_nsec);
    long r = raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *a, struct timespec *b) {
    if (on && me >= 0) {
        u64 ns = (u64)a->tv_sec * 1000000000ull + a->tv_nsec;
        if (flags & TIMER_ABSTIME) ns = ns > now_ns ? ns - now_ns : 0;
        return sim_sleep(ns);
    }
    long r = raw(SYS_clock_nanosleep, id, flags, (long)a, (long)b, 0, 0);
    return r < 0 ? (int)-r : 0;
}

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static pthread_key_t end_key;
static int end_key_made;

// Runs after the thread's other thread-local destructors: the thread is over and stays parked, so that no
// two threads ever run at the same time.
static void thread_over(void *p) {
    thr *t = p;
    t->in_lib = 0;
    t->state = S_END;
    SH->reclaimed++;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == S_JOIN && T[i].key == (u64)t) T[i].state = S_RUN;
        else if (T[i].state == S_WAIT && T[i].key == 0) T[i].state = S_RUN;
    resched(K_END);
    for (;;) baton_wait(t);
}

static void *tramp(void *p) {
    thr *t = p;
    me = t - T;
    baton_wait(t);
    // this stack may have belonged to a thread that ended: forget what it did there
    pthread_attr_t at_;
    void *lo = 0;
    size_t sz = 0;
    if (pthread_getattr_np(pthread_self(), &at_) == 0) {
        pthread_attr_getstack(&at_, &lo, &sz);
        pthread_attr_destroy(&at_);
    }
    if (lo) forget((u64)lo, sz + 8192);
    pthread_setspecific(end_key, t);
    t->ret = t->fn(t->arg);
    return t->ret;
}

int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!(on && me >= 0)) return real_create(pt, attr, fn, arg);
    if (nthr >= MAXT) return EAGAIN;
    thr *t = &T[nthr];
    memset(t, 0, sizeof *t);
    t->fn = fn;
    t->arg = arg;
    memcpy(t->vc, T[me].vc, sizeof t->vc);
    t->vc[nthr] = 1;
    T[me].vc[me]++;
    t->prio = mode == 1 ? (int)below(1000) + 1 : 0;
    t->state = S_RUN;
    nthr++;
    SH->threads++;
    int r = real_create(&t->pt, attr, tramp, t);
    if (r) { nthr--; return r; }
    *pt = t->pt;
    return 0;
}
int pthread_join(pthread_t pt, void **ret) {
    if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
    if (on && me >= 0)
        for (int i = 0; i < nthr; i++)
            if (T[i].fn && T[i].pt == pt && !T[i].joiner_seen) {
                if (T[i].state != S_END) {
                    T[me].key = (u64)&T[i];
                    block(S_JOIN);
                }
                T[i].joiner_seen = 1;
                join_vc(T[me].vc, T[i].vc);
                if (ret) *ret = T[i].ret;
                return 0;
            }
    return real_join(pt, ret);
}
pid_t getpid(void) { return on ? sim_pid : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
pid_t gettid(void) { return on && me >= 0 ? sim_pid + me : (pid_t)raw(SYS_gettid, 0, 0, 0, 0, 0, 0); }

// ------------------------------------------------------------------ the host
static u64 sim_host;
static u64 host_mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull + sim_host;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
// Whatever variable the library asks for: on every second host it is set.
char *getenv(const char *name) {
    static char *(*real)(const char *);
    if (!on || !sim_host || me < 0 || !T[me].in_lib || !strncmp(name, "RUST_", 5)) {
        if (!real) real = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
        return real ? real(name) : 0;
    }
    static char *const v[] = {"1", "0", "true", "", "8", "debug", "4294967295", "/tmp"};
    u64 h = 1469598103934665603ull;
    for (const char *c = name; *c; c++) h = (h ^ (u8)*c) * 1099511628211ull;
    h = host_mix(h);
    SH->host_reads++;
    return h & 1 ? v[(h >> 1) % 8] : 0;
}
// How many processors there are.
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
    if (on && sim_host && me >= 0 && T[me].in_lib) {
        u64 k = 1 + host_mix(77) % (host_mix(78) & 1 ? 4 : 64);
        memset(set, 0, n);
        for (u64 i = 0; i < k && i / 8 < n; i++) ((u8 *)set)[i / 8] |= (u8)(1 << (i % 8));
        SH->host_reads++;
        return 0;
    }
    long r = raw(SYS_sched_getaffinity, pid, (long)n, (long)set, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    if ((size_t)r < n) memset((u8 *)set + r, 0, n - r);
    return 0;
}
int sched_getcpu(void) {
    if (on && me >= 0) return (int)(host_mix((u64)me * 31 + T[me].waits) % 8);
    unsigned c = 0;
    raw(SYS_getcpu, (long)&c, 0, 0, 0, 0, 0);
    return (int)c;
}

// ------------------------------------------------------------------ interface for the harness
u64 rt_size(void) { return sizeof(shared) + sizeof(dec) * MAXDEC; }
void rt_shared_reset(shared *s) { memset(s, 0, offsetof(shared, d)); }
u64 rt_ndec(shared *s) { return s->ndec; }
dec *rt_dec(shared *s, u64 i) { return &s->d[i]; }
const char *rt_msg(shared *s) { return s->msg; }
u32 rt_kind(shared *s) { return s->exit_kind; }
u64 rt_stat(shared *s, int i) { return ((u64 *)s)[i]; }

void rt_begin(shared *s, u64 seed, int m, double mean, double ap, double sp, u64 ent, u64 clk0, u64 clkrate, int races, u64 cap) {
    SH = s;
    rng_s[0] = seed; rng_s[1] = 0;
    ent_s[0] = ent; ent_s[1] = 0;
    mode = m;
    mean_slice = mean;
    atomic_p = ap;
    spur_p = sp;
    spur_seed = seed ^ 0x5bd1e995;
    now_ns = 1000000000ull;
    boot_ns = clk0;
    clock_rate = clkrate;
    race_on = races;
    step_cap = cap;
    SY = mmap(0, sizeof(sync_t) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(T, 0, sizeof T);
    nthr = 1;
    T[0].state = S_RUN;
    T[0].vc[0] = 1;
    T[0].prio = 0;
    me = 0;
    on = 1;
    budget = 400000;
    if (!end_key_made) { pthread_key_create(&end_key, thread_over); end_key_made = 1; }
}
void rt_pid(int p) { sim_pid = p; }
void rt_host(u64 h) { sim_host = h; }
void rt_event(int t, int act, u64 step, u64 arg) {
    step += T[t].steps;
    if (nev == 64) {
        int k = 0;
        for (int i = 0; i < nev; i++)
            if (!EV[i].done) EV[k++] = EV[i];
        nev = k;
    }
    if (nev < 64) { EV[nev].t = t; EV[nev].act = act; EV[nev].at = step; EV[nev].arg = arg; EV[nev].done = 0; nev++; }
    if (t == me) set_budget(t);
}
void rt_pct(u64 at_step) { if (npct < 16) pct_points[npct++] = at_step; }
void rt_oom(int t, u64 n) { if (t < MAXT) oom_at[t] = n ? T[t].allocs + n : 0; }
void rt_replay(dec *d, u64 n) {
    RP = d; nrp = n;
    rp_used = calloc(n + 1, 1);
}
void rt_enter(void) { if (me >= 0) T[me].in_lib = 1; }
void rt_leave(void) { if (me >= 0) T[me].in_lib = 0; }
int rt_me(void) { return me; }
int rt_in_lib(void) { return me >= 0 && T[me].in_lib; }
u64 rt_steps(int t) { return T[t].steps; }
void rt_quit(int kind) { quit(kind); }
// waits for a harness condition; true if it gave up because nothing else can run
int rt_wait(u64 key) {
    T[me].key = key;
    T[me].timed_out = 0;
    block(S_WAIT);
    int r = T[me].timed_out;
    T[me].timed_out = 0;
    return r;
}
void rt_wake(u64 key) {
    for (int i = 0; i < nthr; i++)
        if (T[i].state == S_WAIT && T[i].key == key) T[i].state = S_RUN;
}
int rt_state(int t) { return t < nthr ? T[t].state : S_FREE; }
int rt_nthr(void) { return nthr; }
void rt_release(u64 a) { thr *t = &T[me]; sync_t *s = sync_of(a, 1); if (s) { join_vc(s->vc, t->vc); t->vc[me]++; } }
void rt_acquire(u64 a) { sync_t *s = sync_of(a, 0); if (s) join_vc(T[me].vc, s->vc); }
void rt_yield(void) { if (me >= 0) resched(K_YIELD); }
// the allocator reports; 1: this allocation must fail
int rt_alloc_fails(void) {
    if (me < 0 || !T[me].in_lib) return 0;
    SH->allocs++;
    T[me].allocs++;
    if (oom_at[me] && T[me].allocs == oom_at[me]) { SH->alloc_fails++; return 1; }
    return 0;
}
void rt_memory(void *p, u64 n) { if (on && me >= 0 && p) forget((u64)p, n); }
// freeing is a write to all of it
void rt_freed(void *p, u64 n) {
    if (!on || me < 0 || !T[me].in_lib || !p) return;
    acc(p, n, 1, PC);
}
