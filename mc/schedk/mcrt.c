/* Controlled scheduler for the real implementation.
 *
 * The crate under test is compiled with ThreadSanitizer's instrumentation pass
 * but linked against this runtime instead: every instrumented access, every
 * futex operation (that is: every std lock, condition variable, park and
 * join), yield, thread start and thread end is a point where exactly one
 * thread at a time may go on. Which one is decided here: by a deterministic
 * base policy, and by the list of deviations from it that the explorer gives.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 24
#define MAXDEV 8
#define MAXLOG (1 << 17)
#define MAXSITE 16384

enum { K_SPAWN = 1, K_FUTEX, K_YIELD, K_BLOCK, K_ATOMIC, K_PLAIN, K_END };
enum { S_RUNNING, S_OK, S_FAIL, S_DEADLOCK, S_STEPS, S_BADDEV, S_INTERNAL, S_STALL = 8 };

struct logent {
    uint32_t step, site;
    uint8_t tid, chosen, kind, nrun;
    uint32_t mask;
};
struct ctl {
    /* in */
    uint32_t gran, quantum, ndev, nsite, collect, fair;
    uint64_t maxsteps;
    struct { uint32_t step, tid; } dev[MAXDEV];
    uint32_t site[MAXSITE];
    /* out */
    uint32_t status, nstep, nlog, nnew, nthr, switches, overflow;
    uint64_t accesses, obs;
    char msg[8192];
    uint32_t newsite[MAXSITE];
    struct logent log[MAXLOG];
};

enum { RUN, FUT, JOIN, DEAD };
struct thr {
    int st;
    uint32_t *addr;
    uint32_t bits;
    int timed, woken;
    struct thr *target;
    uint32_t sem;
    long ktid;
    pthread_t pt;
    int id;
    void *(*fn)(void *);
    void *arg;
    uint64_t order;
};

static struct ctl *C;
static struct thr T[MAXT];
static volatile int nthr, active, muted;
static uint64_t clockw, consec, since;
static uintptr_t base;
static pthread_key_t key;
static __thread struct thr *me __attribute__((tls_model("initial-exec")));
static __thread int inrt __attribute__((tls_model("initial-exec")));

static long sys6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void sem_up(uint32_t *s)
{
    __atomic_store_n(s, 1, __ATOMIC_SEQ_CST);
    sys6(SYS_futex, (long)s, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void sem_down(uint32_t *s)
{
    while (__atomic_exchange_n(s, 0, __ATOMIC_SEQ_CST) == 0)
        sys6(SYS_futex, (long)s, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}
static void finish(int status, const char *msg) __attribute__((noreturn));
static void finish(int status, const char *msg)
{
    C->status = status;
    if (msg)
        snprintf(C->msg, sizeof C->msg, "%s", msg);
    C->nthr = nthr;
    sys6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    for (;;)
        ;
}
static uint32_t runmask(void)
{
    uint32_t m = 0;
    for (int i = 0; i < nthr; i++)
        if (T[i].st == RUN)
            m |= 1u << i;
    return m;
}
static int next_of(uint32_t m, int from)
{
    for (int i = 1; i <= nthr; i++) {
        int j = (from + i) % nthr;
        if (m >> j & 1)
            return j;
    }
    return -1;
}
static void deadlock(void)
{
    char b[2000];
    int n = snprintf(b, sizeof b, "deadlock: ");
    for (int i = 0; i < nthr && n < 1900; i++)
        if (T[i].st != DEAD)
            n += snprintf(b + n, sizeof b - n, "thread %d %s%s ", i, T[i].st == FUT ? "waits for a lock or signal" : "waits for thread ",
                          T[i].st == JOIN ? (char[]){'0' + T[i].target->id / 10, '0' + T[i].target->id % 10, 0} : "");
    finish(S_DEADLOCK, b);
}
/* Decide who goes on. Called by the running thread, which may be blocked. */
static void decide(int kind, uint32_t site)
{
    uint32_t m = runmask();
    if (!m) {
        /* nobody can run: let the oldest timed wait expire */
        struct thr *o = 0;
        for (int i = 0; i < nthr; i++)
            if (T[i].st == FUT && T[i].timed && (!o || T[i].order < o->order))
                o = &T[i];
        if (!o)
            deadlock();
        o->st = RUN;
        o->woken = 0;
        m = 1u << o->id;
    }
    int cur = me->id, can = m >> cur & 1, ch;
    since++;
    if (!can || kind == K_YIELD)
        ch = next_of(m, cur);
    else if (since > C->fair || (C->quantum && consec + 1 >= C->quantum && !muted))
        ch = next_of(m, cur);
    else
        ch = cur;
    if (!muted) {
        uint32_t s = C->nstep++;
        if (s >= C->maxsteps)
            finish(S_STEPS, "no end within the step limit");
        for (uint32_t i = 0; i < C->ndev; i++)
            if (C->dev[i].step == s) {
                ch = C->dev[i].tid;
                if (ch >= nthr || !(m >> ch & 1))
                    finish(S_BADDEV, "deviation not possible: the run is not deterministic");
            }
        /* steps at which only one thread can go on offer no choice */
        if (m & (m - 1)) {
            if (C->nlog < MAXLOG)
                C->log[C->nlog++] = (struct logent){s, site, cur, ch, kind, (uint8_t)__builtin_popcount(m), m};
            else
                C->overflow |= 2;
        }
    }
    if (ch == cur) {
        consec++;
        return;
    }
    consec = 0;
    since = 0;
    C->switches++;
    struct thr *self = me;
    sem_up(&T[ch].sem);
    if (self->st == DEAD)
        return;
    sem_down(&self->sem);
}
static inline void point(int kind, uint32_t site)
{
    if (!active || !me || inrt)
        return;
    inrt = 1;
    decide(kind, site);
    inrt = 0;
}
#define SITE() ((uint32_t)((uintptr_t)__builtin_return_address(0) - base))

#ifdef RACE
#include "race.h"
#else
#define race_access(a, n, k, s) (void)0
#define race_freed(a, n, s) (void)0
#define hb_load(a, mo) (void)0
#define hb_store(a, mo) (void)0
#define hb_rmw(a, mo) (void)0
#define hb_fence(mo) (void)0
#define hb_spawn(c) (void)0
#define hb_join(c) (void)0
#define race_begin() (void)0
enum { R_READ, R_WRITE, R_AREAD, R_AWRITE, R_FREE };
#endif

/* ---- conflicting plain accesses ---- */
#define HN (1 << 16)
struct gran {
    uintptr_t a;
    uint32_t rt, wt; /* thread masks */
    uint32_t rs[6], ws[6];
};
static struct gran *H;
static void addsite(uint32_t s)
{
    for (uint32_t i = 0; i < C->nsite; i++)
        if (C->site[i] == s)
            return;
    for (uint32_t i = 0; i < C->nnew; i++)
        if (C->newsite[i] == s)
            return;
    if (C->nnew < MAXSITE)
        C->newsite[C->nnew++] = s;
    else
        C->overflow |= 1;
}
static void track1(uintptr_t g, int w, uint32_t s)
{
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 40) % HN;
    int n = 0;
    while (H[h].a && H[h].a != g) {
        h = (h + 1) % HN;
        if (++n > 512) {
            C->overflow |= 1;
            return;
        }
    }
    struct gran *e = &H[h];
    e->a = g;
    uint32_t bit = 1u << me->id;
    uint32_t *v = w ? e->ws : e->rs;
    int i = 0;
    for (; i < 6 && v[i] && v[i] != s; i++)
        ;
    if (i < 6)
        v[i] = s;
    if (w)
        e->wt |= bit;
    else
        e->rt |= bit;
    if (e->wt && ((e->wt | e->rt) & ((e->wt | e->rt) - 1))) {
        for (i = 0; i < 6; i++) {
            if (e->rs[i])
                addsite(e->rs[i]);
            if (e->ws[i])
                addsite(e->ws[i]);
        }
        if (i == 6 && v[5])
            addsite(s);
    }
}
void mc_freed(void *p, size_t n)
{
    race_freed((uintptr_t)p, n, SITE());
    if (!active || !C->collect)
        return;
    for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++) {
        uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 40) % HN;
        int k = 0;
        while (H[h].a && H[h].a != g && k++ < 512)
            h = (h + 1) % HN;
        if (H[h].a == g) {
            H[h].rt = H[h].wt = 0;
            memset(H[h].rs, 0, sizeof H[h].rs);
            memset(H[h].ws, 0, sizeof H[h].ws);
        }
    }
}
static void sched_plain(void *p, size_t n, int w, uint32_t s)
{
    if (!active || !me || inrt || muted || C->gran < 2)
        return;
    C->accesses++;
    if (C->gran == 2) {
        point(K_PLAIN, s);
        return;
    }
    inrt = 1;
    for (uint32_t lo = 0, hi = C->nsite; lo < hi;) {
        uint32_t mid = (lo + hi) / 2;
        if (C->site[mid] == s) {
            inrt = 0;
            point(K_PLAIN, s);
            inrt = 1;
            break;
        }
        if (C->site[mid] < s)
            lo = mid + 1;
        else
            hi = mid;
    }
    if (C->collect && n)
        for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++)
            track1(g, w, s);
    inrt = 0;
}

static void plain(void *p, size_t n, int w, uint32_t s)
{
    sched_plain(p, n, w, s);
    race_access((uintptr_t)p, n, w, s);
}

/* ---- the interface of the instrumentation ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { plain(p, n, 0, SITE()); } \
    void __tsan_write##n(void *p) { plain(p, n, 1, SITE()); } \
    void __tsan_unaligned_read##n(void *p) { plain(p, n, 0, SITE()); } \
    void __tsan_unaligned_write##n(void *p) { plain(p, n, 1, SITE()); } \
    void __tsan_read_write##n(void *p) { plain(p, n, 1, SITE()); } \
    void __tsan_unaligned_read_write##n(void *p) { plain(p, n, 1, SITE()); } \
    void __tsan_volatile_read##n(void *p) { plain(p, n, 0, SITE()); } \
    void __tsan_volatile_write##n(void *p) { plain(p, n, 1, SITE()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) { (void)v; plain(p, 8, 1, SITE()); }
void __tsan_vptr_read(void **p) { plain(p, 8, 0, SITE()); }
void __tsan_read_range(void *p, size_t n) { plain(p, n, 0, SITE()); }
void __tsan_write_range(void *p, size_t n) { plain(p, n, 1, SITE()); }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    plain((void *)s, n, 0, SITE());
    plain(d, n, 1, SITE());
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    plain((void *)s, n, 0, SITE());
    plain(d, n, 1, SITE());
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
    plain(d, n, 1, SITE());
    return memset(d, c, n);
}
void __tsan_atomic_thread_fence(int mo) { point(K_ATOMIC, SITE()); hb_fence(mo); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
/* X: prefix of the function; P: point before the access; M: checked access */
#define RMW(X, P, M, b, ty, op) \
    ty X##b##_##op(volatile ty *a, ty v, int mo) { P; M(a, sizeof(ty), R_AWRITE); ty r = __atomic_##op(a, v, 5); hb_rmw((uintptr_t)a, mo); (void)mo; return r; }
#define CAS(X, P, M, b, ty, nm) \
    int X##b##_compare_exchange_##nm(volatile ty *a, ty *c, ty v, int mo, int fm) \
    { P; int r = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); M(a, sizeof(ty), r ? R_AWRITE : R_AREAD); \
      if (r) hb_rmw((uintptr_t)a, mo); else hb_load((uintptr_t)a, fm); (void)mo; (void)fm; return r; }
#define ATS(X, P, M, b, ty) \
    ty X##b##_load(const volatile ty *a, int mo) { P; M(a, sizeof(ty), R_AREAD); ty r = __atomic_load_n(a, 5); hb_load((uintptr_t)a, mo); (void)mo; return r; } \
    void X##b##_store(volatile ty *a, ty v, int mo) { P; M(a, sizeof(ty), R_AWRITE); __atomic_store_n(a, v, 5); hb_store((uintptr_t)a, mo); (void)mo; } \
    ty X##b##_exchange(volatile ty *a, ty v, int mo) { P; M(a, sizeof(ty), R_AWRITE); ty r = __atomic_exchange_n(a, v, 5); hb_rmw((uintptr_t)a, mo); (void)mo; return r; } \
    RMW(X, P, M, b, ty, fetch_add) RMW(X, P, M, b, ty, fetch_sub) RMW(X, P, M, b, ty, fetch_and) RMW(X, P, M, b, ty, fetch_or) \
    RMW(X, P, M, b, ty, fetch_xor) RMW(X, P, M, b, ty, fetch_nand) CAS(X, P, M, b, ty, strong) CAS(X, P, M, b, ty, weak) \
    ty X##b##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fm) \
    { P; int r = __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); M(a, sizeof(ty), r ? R_AWRITE : R_AREAD); \
      if (r) hb_rmw((uintptr_t)a, mo); else hb_load((uintptr_t)a, fm); (void)mo; (void)fm; return c; }
#define CHK(a, n, k) race_access((uintptr_t)a, n, k, SITE())
#define NOCHK(a, n, k) (void)0
#define AT(b, ty) ATS(__tsan_atomic, point(K_ATOMIC, SITE()), CHK, b, ty)
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#ifdef RACE
/* The same of std, rayon and the other dependencies (their calls are renamed
 * by wrap.sh): they order things, but their own memory is not checked. */
static inline void xpoint(uint32_t s)
{
    if (C && C->gran == 4)
        point(K_ATOMIC, s);
}
#define ATX(b, ty) ATS(__tsanx_atomic, xpoint(SITE()), NOCHK, b, ty)
ATX(8, uint8_t) ATX(16, uint16_t) ATX(32, uint32_t) ATX(64, uint64_t)
void __tsanx_atomic_thread_fence(int mo) { xpoint(SITE()); hb_fence(mo); }
void __tsanx_atomic_signal_fence(int mo) { (void)mo; }
void __tsanx_init(void) {}
void __tsanx_func_entry(void *p) { (void)p; }
void __tsanx_func_exit(void) {}
#define RWX(n) \
    void __tsanx_read##n(void *p) { (void)p; } void __tsanx_write##n(void *p) { (void)p; } \
    void __tsanx_unaligned_read##n(void *p) { (void)p; } void __tsanx_unaligned_write##n(void *p) { (void)p; } \
    void __tsanx_read_write##n(void *p) { (void)p; } void __tsanx_unaligned_read_write##n(void *p) { (void)p; } \
    void __tsanx_volatile_read##n(void *p) { (void)p; } void __tsanx_volatile_write##n(void *p) { (void)p; }
RWX(1) RWX(2) RWX(4) RWX(8) RWX(16)
void __tsanx_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsanx_vptr_read(void **p) { (void)p; }
void __tsanx_read_range(void *p, size_t n) { (void)p; (void)n; }
void __tsanx_write_range(void *p, size_t n) { (void)p; (void)n; }
void *__tsanx_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsanx_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsanx_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#endif

/* ---- what blocks ---- */
static int do_wait(uint32_t *a, uint32_t val, uint32_t bits, int timed)
{
    point(K_FUTEX, 1);
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val)
        return EAGAIN;
    inrt = 1;
    me->addr = a;
    me->bits = bits;
    me->timed = timed;
    me->woken = 0;
    me->order = clockw++;
    me->st = FUT;
    decide(K_BLOCK, 2);
    inrt = 0;
    return me->woken ? 0 : ETIMEDOUT;
}
static int do_wake(uint32_t *a, int n, uint32_t bits)
{
    int k = 0;
    while (k < n) {
        struct thr *o = 0;
        for (int i = 0; i < nthr; i++)
            if (T[i].st == FUT && T[i].addr == a && (T[i].bits & bits) && (!o || T[i].order < o->order))
                o = &T[i];
        if (!o)
            break;
        o->st = RUN;
        o->woken = 1;
        k++;
    }
    point(K_FUTEX, 3);
    return k;
}
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active && me && !inrt) {
        int op = b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            int r = do_wait((uint32_t *)a, (uint32_t)c, op == FUTEX_WAIT ? ~0u : (uint32_t)f, d != 0);
            if (r) {
                errno = r;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            return do_wake((uint32_t *)a, (int)c, op == FUTEX_WAKE ? ~0u : (uint32_t)f);
        finish(S_INTERNAL, "unknown futex operation");
    }
    long r = sys6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
int sched_yield(void)
{
    if (active && me && !inrt) {
        point(K_YIELD, 4);
        return 0;
    }
    return sys6(SYS_sched_yield, 0, 0, 0, 0, 0, 0) ? -1 : 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem)
{
    if (active && me && !inrt) {
        point(K_YIELD, 5);
        return 0;
    }
    return sys6(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0) ? -1 : 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem)
{
    if (active && me && !inrt) {
        point(K_YIELD, 5);
        return 0;
    }
    return -(int)sys6(SYS_clock_nanosleep, c, fl, (long)t, (long)rem, 0, 0);
}
/* The explorer pins its workers; the program still sees the machine. */
static cpu_set_t seen;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s)
{
    if (p == 0 && CPU_COUNT(&seen)) {
        memset(s, 0, n);
        memcpy(s, &seen, n < sizeof seen ? n : sizeof seen);
        return 0;
    }
    long r = sys6(SYS_sched_getaffinity, p, n, (long)s, 0, 0, 0);
    return r < 0 ? -1 : 0;
}
void mc_pin(int cpu)
{
    static int got;
    if (!got) {
        sys6(SYS_sched_getaffinity, 0, sizeof seen, (long)&seen, 0, 0, 0);
        got = 1;
    }
    int n = CPU_COUNT(&seen), k = 0;
    for (int i = 0; i < CPU_SETSIZE; i++)
        if (CPU_ISSET(i, &seen) && k++ == cpu % n) {
            cpu_set_t s;
            CPU_ZERO(&s);
            CPU_SET(i, &s);
            sys6(SYS_sched_setaffinity, 0, sizeof s, (long)&s, 0, 0, 0);
            return;
        }
}

/* ---- threads ---- */
static void ended(void *x)
{
    (void)x;
    if (!active || !me)
        return;
    inrt = 1;
    me->st = DEAD;
    for (int i = 0; i < nthr; i++)
        if (T[i].st == JOIN && T[i].target == me)
            T[i].st = RUN;
    decide(K_END, 6);
    me = 0;
}
static void *tramp(void *x)
{
    struct thr *t = x;
    me = t;
    inrt = 1;
    t->ktid = sys6(SYS_gettid, 0, 0, 0, 0, 0, 0);
    pthread_setspecific(key, t);
    sem_down(&t->sem);
#ifdef RACE
    /* the stack may have been that of an earlier thread */
    pthread_attr_t at;
    void *sa;
    size_t sn;
    if (!pthread_getattr_np(pthread_self(), &at)) {
        if (!pthread_attr_getstack(&at, &sa, &sn))
            race_clear((uintptr_t)sa, sn);
        pthread_attr_destroy(&at);
    }
#endif
    inrt = 0;
    return t->fn(t->arg);
}
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real)
        real = dlsym(RTLD_NEXT, "pthread_create");
    if (!active || !me)
        return real(pt, at, fn, arg);
    /* slots of ended threads are not used again: ids stay unique */
    if (nthr >= MAXT)
        finish(S_INTERNAL, "too many threads");
    struct thr *t = &T[nthr];
    memset(t, 0, sizeof *t);
    t->id = nthr;
    t->fn = fn;
    t->arg = arg;
    t->st = RUN;
    hb_spawn(nthr);
    inrt = 1;
    int r = real(pt, at, tramp, t);
    inrt = 0;
    if (r)
        return r;
    t->pt = *pt;
    nthr++;
    point(K_SPAWN, 7);
    return 0;
}
int pthread_join(pthread_t pt, void **ret)
{
    static int (*real)(pthread_t, void **);
    if (!real)
        real = dlsym(RTLD_NEXT, "pthread_join");
    if (!active || !me)
        return real(pt, ret);
    struct thr *t = 0;
    for (int i = 0; i < nthr; i++)
        if (T[i].pt == pt)
            t = &T[i];
    if (t) {
        point(K_FUTEX, 8);
        if (t->st != DEAD) {
            inrt = 1;
            me->st = JOIN;
            me->target = t;
            decide(K_BLOCK, 9);
            inrt = 0;
        }
        t->pt = 0;
        hb_join(t->id);
    }
    inrt = 1;
    int r = real(pt, ret);
    inrt = 0;
    return r;
}

/* ---- used by the explorer ---- */
struct ctl *mc_ctl(void)
{
    void *p = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
        abort();
    return p;
}
size_t mc_ctl_size(void) { return sizeof(struct ctl); }
/* The wall clock ran out: say who was waiting for what. */
static void stalled(int sig)
{
    char b[1900], f[64], w[64];
    struct timespec ts;
    (void)sig;
    inrt = 1;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    int n = snprintf(b, sizeof b, "does not terminate (after %u steps, %ld s of processor time):", C->nstep, (long)ts.tv_sec);
    for (int i = 0; i < nthr && n < 1700; i++) {
        snprintf(f, sizeof f, "/proc/self/task/%ld/wchan", T[i].ktid);
        long d = sys6(SYS_open, (long)f, 0, 0, 0, 0, 0), l = d < 0 ? 0 : sys6(SYS_read, d, (long)w, 60, 0, 0, 0);
        w[l > 0 ? l : 0] = 0;
        n += snprintf(b + n, sizeof b - n, " thread %d %s token %u in %s;", i, (const char *[]){"runs", "waits", "joins", "ended"}[T[i].st], T[i].sem, d < 0 ? "-" : w);
    }
    finish(S_STALL, b);
}
void mc_begin(struct ctl *c)
{
    Dl_info di;
    struct sigaction sa;
    C = c;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = stalled;
    sigaction(SIGALRM, &sa, 0);
    dladdr((void *)&mc_begin, &di);
    base = (uintptr_t)di.dli_fbase;
    pthread_key_create(&key, ended);
    if (c->collect)
        H = mmap(0, HN * sizeof(struct gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(&T[0], 0, sizeof T[0]);
    T[0].st = RUN;
    T[0].ktid = sys6(SYS_gettid, 0, 0, 0, 0, 0, 0);
    T[0].pt = pthread_self();
    me = &T[0];
    nthr = 1;
    race_begin();
    muted = 1;
    active = 1;
}
void mc_mute(int m)
{
    muted = m;
    consec = 0;
    since = 0;
}
void mc_end(int ok, const char *msg, uint64_t obs)
{
    inrt = 1;
    C->obs = obs;
    finish(ok ? S_OK : S_FAIL, msg);
}
