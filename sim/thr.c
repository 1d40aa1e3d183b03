// Thread scheduler and simulated sources for programs that embed the compiler library (LD_PRELOAD of libhost).
// Of the managed threads exactly one runs at a time. It may be switched at every yield point (libhost's allocator calls
// thr_yield at each allocation and release) and whenever it blocks on a futex; who runs next is drawn from a seed. Random
// numbers and the wall clock are per thread and come from the request.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 64
enum { NEW, RUN, WAITF, DONE };
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static struct { int st; pthread_cond_t cv; void *addr; int timed, timedout, waiting; uint64_t rnd; struct timespec clk; } T[MAXT];
static int nt, entered, cur = -1;
static uint64_t srng, trace, switches, yields, waits;
static int64_t countdown, mean, budget;
static __thread int me = -1;

static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static long raw(long nr, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
static void draw(void) { // length of the next stretch without a switch
    if (mean <= 0 || switches >= (uint64_t)budget) countdown = INT64_MAX;
    else countdown = 1 + (int64_t)(mix(&srng) % (uint64_t)(2 * mean));
}
// chooses who runs next; with mu held
static void choose(void) {
    int r[MAXT], k = 0;
    for (int i = 0; i < nt; i++) if (T[i].st == RUN) r[k++] = i;
    if (!k) { // a wait with a time limit may end now
        for (int i = 0; i < nt; i++) if (T[i].st == WAITF && T[i].timed) { T[i].st = RUN; T[i].timedout = 1; r[k++] = i; break; }
    }
    int next = k ? r[mix(&srng) % k] : -1;
    trace = (trace ^ (uint64_t)(next + 2)) * 0x100000001b3ull;
    trace = (trace ^ yields) * 0x100000001b3ull;
    if (next != cur) switches++;
    cur = next;
    draw();
    if (next >= 0) pthread_cond_signal(&T[next].cv);
}
static void wait_turn(void) {
    while (cur != me) {
        struct timespec ts;
        raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts, 0, 0, 0, 0);
        ts.tv_sec += 3;
        if (pthread_cond_timedwait(&T[me].cv, &mu, &ts) == ETIMEDOUT && cur == -1 && entered == nt) {
            int alive = 0;
            for (int i = 0; i < nt; i++) if (T[i].st == RUN) alive = 1;
            if (!alive) raw(SYS_exit_group, 77, 0, 0, 0, 0, 0); // every thread waits for another one
        }
    }
}
void thr_begin(int n, uint64_t seed, int64_t m, int64_t b) {
    pthread_mutex_lock(&mu);
    nt = n; entered = 0; cur = -1; srng = seed; mean = m; budget = b; trace = 0xcbf29ce484222325ull; switches = yields = waits = 0;
    for (int i = 0; i < n; i++) { T[i].st = NEW; pthread_cond_init(&T[i].cv, NULL); }
    pthread_mutex_unlock(&mu);
}
void thr_enter(int i, uint64_t hash, int64_t sec, int64_t ns) {
    pthread_mutex_lock(&mu);
    me = i; T[i].st = RUN; T[i].rnd = hash; T[i].clk.tv_sec = sec; T[i].clk.tv_nsec = ns;
    if (++entered == nt) choose();
    wait_turn();
    pthread_mutex_unlock(&mu);
}
void thr_yield(void) {
    if (me < 0 || cur != me) return;
    yields++;
    if (--countdown > 0) return;
    pthread_mutex_lock(&mu);
    choose();
    wait_turn();
    pthread_mutex_unlock(&mu);
}
void thr_exit(void) {
    pthread_mutex_lock(&mu);
    T[me].st = DONE;
    choose();
    me = -1;
    pthread_mutex_unlock(&mu);
}
void thr_stats(uint64_t *out) { out[0] = trace; out[1] = switches; out[2] = yields; out[3] = waits; }

static void fill(void *b, size_t n) {
    unsigned char *p = b;
    while (n) {
        uint64_t v = mix(&T[me].rnd);
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k); p += k; n -= k;
    }
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (me < 0) return raw(SYS_getrandom, (long)b, n, fl, 0, 0, 0);
    fill(b, n);
    return n;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (me < 0 || id != CLOCK_REALTIME) return raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    *ts = T[me].clk;
    return 0;
}
static long fwait(int *addr, int val, int timed) {
    pthread_mutex_lock(&mu);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { pthread_mutex_unlock(&mu); errno = EAGAIN; return -1; }
    waits++;
    T[me].st = WAITF; T[me].addr = addr; T[me].timed = timed; T[me].timedout = 0;
    choose();
    wait_turn();
    int to = T[me].timedout;
    pthread_mutex_unlock(&mu);
    if (to) { errno = ETIMEDOUT; return -1; }
    return 0;
}
static long fwake(void *addr, long n) {
    long k = 0;
    pthread_mutex_lock(&mu);
    for (int i = 0; i < nt && k < n; i++) if (T[i].st == WAITF && T[i].addr == addr) { T[i].st = RUN; k++; }
    if (k && cur == -1) choose();
    pthread_mutex_unlock(&mu);
    return k;
}
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex) {
        int cmd = b & FUTEX_CMD_MASK;
        if (me >= 0 && (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)) return fwait((int *)a, (int)c, d != 0);
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
            long k = fwake((void *)a, c);
            return k >= c ? k : k + raw(nr, a, b, c - k, d, e, f);
        }
    }
    if (nr == SYS_getrandom && me >= 0) { fill((void *)a, b); return b; }
    return raw(nr, a, b, c, d, e, f);
}
