/* LD_PRELOAD shim: routes every file, clock and randomness call of a packetc
 * process to the simulator (simrun), which decides order, result and faults.
 * Calls on paths outside the simulated root pass through when they only read
 * and are refused and reported when they would modify anything. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "proto.h"

#define MAXFD 1024
static int sim_fd = -1;
static char root[PATHMAX];
static size_t rootlen;
static char *fdpath[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pid_t sim_pid;
static uint64_t sim_seed, srng;
static int asking; /* inside a simulated operation */
static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

#define REAL(ret, name, ...)                                        \
    static ret (*real_##name)(__VA_ARGS__);                         \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* the libc function of that name is replaced below */
static long raw_(long nr, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
#define RAW7(nr, a, b, c, d, e, f, ...) raw_((long)(nr), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
#define raw(...) RAW7(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)

static ssize_t raw_send(const void *p, size_t n) { return raw(SYS_sendto, sim_fd, p, n, MSG_NOSIGNAL, NULL, 0); }
static ssize_t raw_recv(void *p, size_t n) { return raw(SYS_recvfrom, sim_fd, p, n, 0, NULL, NULL); }
static void die(void) {
    raw(SYS_kill, (pid_t)raw(SYS_getpid), SIGKILL);
    for (;;) raw(SYS_exit_group, 137);
}

static void yield_now(void);
static void enter(void) {
    yield_now();
    pthread_mutex_lock(&mu);
    asking = 1;
}
static void leave(void) {
    asking = 0;
    pthread_mutex_unlock(&mu);
}
/* ---- threads: one at a time, switched at every simulated operation, allocation and wait, in a seeded order ---- */
#define MAXT 4096
enum { RUN, WAITF, WAITJ, DONE };
static pthread_mutex_t tmu = PTHREAD_MUTEX_INITIALIZER;
static struct { int st, timed, timedout; pthread_cond_t cv; void *addr; int join; pthread_t id; void *(*fn)(void *); void *arg; } T[MAXT];
static int nt = 1, cur;
static long countdown;
static pthread_key_t tkey;
static __thread int me __attribute__((tls_model("initial-exec"))) = -1;

static void choose(void) {
    int r[MAXT], k = 0;
    for (int i = 0; i < nt; i++)
        if (T[i].st == RUN || (T[i].st == WAITJ && T[T[i].join].st == DONE)) r[k++] = i;
    for (int i = 0; !k && i < nt; i++) /* a wait with a time limit may end now */
        if (T[i].st == WAITF && T[i].timed) { T[i].timedout = 1; r[k++] = i; }
    if (!k) raw(SYS_exit_group, 142); /* every thread waits for another one */
    cur = r[mix(&srng) % k];
    T[cur].st = RUN;
    countdown = 1 + (long)(mix(&srng) % 400);
    pthread_cond_signal(&T[cur].cv);
}
static void wait_turn(void) { while (cur != me) pthread_cond_wait(&T[me].cv, &tmu); }
static void yield_now(void) {
    if (nt == 1) return;
    pthread_mutex_lock(&tmu);
    choose();
    wait_turn();
    pthread_mutex_unlock(&tmu);
}
static void yield_some(void) {
    if (nt == 1 || asking || cur != me || --countdown > 0) return;
    yield_now();
}
static void thread_end(void *x) {
    (void)x;
    pthread_mutex_lock(&tmu);
    T[me].st = DONE;
    choose();
    pthread_mutex_unlock(&tmu);
}
static void *thread_main(void *x) {
    me = (int)(intptr_t)x;
    pthread_setspecific(tkey, (void *)1); /* its end is the last thing a thread does */
    pthread_mutex_lock(&tmu);
    wait_turn();
    pthread_mutex_unlock(&tmu);
    return T[me].fn(T[me].arg);
}
int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (sim_fd < 0) return real_pthread_create(id, at, fn, arg);
    if (nt == MAXT) return EAGAIN;
    pthread_mutex_lock(&tmu);
    if (nt == 1) { pthread_key_create(&tkey, thread_end); pthread_cond_init(&T[0].cv, NULL); }
    int i = nt;
    T[i].st = RUN; T[i].fn = fn; T[i].arg = arg;
    pthread_cond_init(&T[i].cv, NULL);
    asking = 1;
    int e = real_pthread_create(id, at, thread_main, (void *)(intptr_t)i);
    asking = 0;
    if (!e) { T[i].id = *id; nt++; }
    pthread_mutex_unlock(&tmu);
    yield_now();
    return e;
}
int pthread_join(pthread_t id, void **v) {
    REAL(int, pthread_join, pthread_t, void **);
    pthread_mutex_lock(&tmu);
    for (int i = nt - 1; i > 0; i--)
        if (pthread_equal(T[i].id, id)) {
            T[me].st = WAITJ; T[me].join = i;
            choose();
            wait_turn();
            break;
        }
    pthread_mutex_unlock(&tmu);
    return real_pthread_join(id, v);
}
static long fwait(int *addr, int val, int timed) {
    pthread_mutex_lock(&tmu);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { pthread_mutex_unlock(&tmu); errno = EAGAIN; return -1; }
    T[me].st = WAITF; T[me].addr = addr; T[me].timed = timed; T[me].timedout = 0;
    choose();
    wait_turn();
    int to = T[me].timedout;
    pthread_mutex_unlock(&tmu);
    if (to) { errno = ETIMEDOUT; return -1; }
    return 0;
}
static long fwake(void *addr, long n) {
    long k = 0;
    pthread_mutex_lock(&tmu);
    for (int i = 0; i < nt && k < n; i++) if (T[i].st == WAITF && T[i].addr == addr) { T[i].st = RUN; k++; }
    pthread_mutex_unlock(&tmu);
    return k;
}
ssize_t getrandom(void *b, size_t n, unsigned fl);
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && nt > 1) {
        int cmd = b & FUTEX_CMD_MASK;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) return fwait((int *)a, (int)c, d != 0);
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) return fwake((void *)a, c);
    }
    if (nr == SYS_getrandom) return getrandom((void *)a, b, c);
    return raw_(nr, a, b, c, d, e, f);
}
int sched_yield(void) { yield_now(); return 0; }
int nanosleep(const struct timespec *t, struct timespec *left) {
    if (sim_fd < 0) return raw(SYS_nanosleep, t, left);
    yield_now();
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *left) {
    if (sim_fd < 0) return raw(SYS_clock_nanosleep, c, fl, t, left) < 0 ? errno : 0;
    yield_now();
    return 0;
}
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { yield_some(); return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { yield_some(); return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { yield_some(); return __libc_realloc(p, n); }
void free(void *p) { __libc_free(p); }

__attribute__((constructor)) static void init(void) {
    const char *f = getenv("SIM_FD"), *r = getenv("SIM_ROOT");
    if (!f || !r) return;
    sim_fd = atoi(f);
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    const char *pid = getenv("SIM_PID");
    if (pid) sim_pid = atoi(pid);
    unsetenv("LD_PRELOAD");
    unsetenv("SIM_PID");
    const char *seed = getenv("SIM_SEED");
    me = 0;
    if (seed) sim_seed = srng = strtoull(seed, NULL, 10);
    unsetenv("SIM_SEED");
}

/* lexical absolute path */
static void resolve(int dirfd, const char *p, char *out) {
    char tmp[2 * PATHMAX];
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else if (dirfd != AT_FDCWD && dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd])
        snprintf(tmp, sizeof tmp, "%s/%s", fdpath[dirfd], p);
    else {
        char cwd[PATHMAX];
        long n = raw(SYS_getcwd, cwd, sizeof cwd);
        if (n <= 0) cwd[0] = 0;
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
    }
    size_t o = 0;
    char *s = tmp;
    while (*s) {
        while (*s == '/') s++;
        char *e = s;
        while (*e && *e != '/') e++;
        size_t l = e - s;
        if (l == 0) break;
        if (l == 1 && s[0] == '.') {
        } else if (l == 2 && s[0] == '.' && s[1] == '.') {
            while (o > 0 && out[--o] != '/') {}
        } else if (o + l + 2 < PATHMAX) {
            out[o++] = '/';
            memcpy(out + o, s, l);
            o += l;
        }
        s = e;
    }
    if (o == 0) out[o++] = '/';
    out[o] = 0;
}
static int in_root(const char *abs) {
    return sim_fd >= 0 && !strncmp(abs, root, rootlen) && (abs[rootlen] == 0 || abs[rootlen] == '/');
}
static const char *rel(const char *abs) {
    if (!in_root(abs)) return abs;
    return abs[rootlen] ? abs + rootlen + 1 : ".";
}

static Rep ask(uint32_t op, uint32_t flags, int64_t n, const char *p1, const char *p2) {
    Req q;
    memset(&q, 0, offsetof(Req, buf));
    q.op = op;
    q.flags = flags;
    q.n = n;
    size_t a = p1 ? strlen(p1) : 0, b = p2 ? strlen(p2) : 0;
    if (a > PATHMAX) a = PATHMAX;
    if (b > PATHMAX) b = PATHMAX;
    q.len1 = a;
    q.len2 = b;
    if (a) memcpy(q.buf, p1, a);
    if (b) memcpy(q.buf + a, p2, b);
    Rep r;
    if (raw_send(&q, offsetof(Req, buf) + a + b) < 0) die();
    ssize_t k;
    do k = raw_recv(&r, sizeof r); while (k < 0 && errno == EINTR);
    if (k != sizeof r) die();
    if (r.act == ACT_CRASH) die();
    return r;
}
static void done(const Rep *r, int64_t ret, int err) {
    if (r->act == ACT_CRASH_AFTER || r->act == ACT_CRASH_MID) die();
    Done d = {ret, err, 0};
    if (raw_send(&d, sizeof d) < 0) die();
}

/* run EXPR under the simulator's decision for (op, path) */
#define GATED(op, flags, n, p1, p2, FAILRET, EXPR)                  \
    do {                                                            \
        enter();                                    \
        Rep r_ = ask(op, flags, n, p1, p2);                         \
        if (r_.act == ACT_FAIL) {                                   \
            done(&r_, -1, r_.err);                                  \
            leave();                              \
            errno = r_.err;                                         \
            return FAILRET;                                         \
        }                                                           \
        __typeof__(EXPR) v_ = EXPR;                                 \
        int e_ = errno;                                             \
        done(&r_, (int64_t)(intptr_t)v_, v_ == FAILRET ? e_ : 0);   \
        leave();                                  \
        errno = e_;                                                 \
        return v_;                                                  \
    } while (0)
#define ESCAPED(path, FAILRET)                                      \
    do {                                                            \
        enter();                                    \
        Rep r_ = ask(OP_ESCAPE, 0, 0, path, NULL);                  \
        done(&r_, -1, EACCES);                                      \
        leave();                                  \
        errno = EACCES;                                             \
        return FAILRET;                                             \
    } while (0)

static void setfd(int fd, const char *abs) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdpath[fd] = abs ? strdup(abs) : NULL;
}

/* ---- open/close ---- */
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    if (sim_fd < 0) return raw(SYS_openat, dirfd, p, flags, mode);
    char abs[PATHMAX];
    resolve(dirfd, p, abs);
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!in_root(abs)) {
        if (w && strncmp(abs, "/dev/", 5) && strncmp(abs, "/proc/", 6)) ESCAPED(abs, -1);
        return raw(SYS_openat, dirfd, p, flags, mode);
    }
    enter();
    Rep r = ask(w ? OP_OPENW : OP_OPEN, flags, 0, rel(abs), NULL);
    if (r.act == ACT_FAIL) {
        done(&r, -1, r.err);
        leave();
        errno = r.err;
        return -1;
    }
    int fd = raw(SYS_openat, dirfd, p, flags, mode);
    int e = errno;
    if (fd >= 0) setfd(fd, abs);
    done(&r, fd >= 0 ? 0 : -1, fd < 0 ? e : 0);
    leave();
    errno = e;
    return fd;
}
#define OPENARGS()                                                  \
    mode_t m = 0;                                                   \
    if (flags & (O_CREAT | O_TMPFILE)) {                            \
        va_list ap;                                                 \
        va_start(ap, flags);                                        \
        m = va_arg(ap, mode_t);                                     \
        va_end(ap);                                                 \
    }
int open(const char *p, int flags, ...) { OPENARGS(); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENARGS(); return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { OPENARGS(); return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENARGS(); return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
    if (fd >= 0 && fd == sim_fd) { errno = EBADF; return -1; }
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) setfd(fd, NULL);
    return raw(SYS_close, fd);
}
int dup(int fd) {
    int n = raw(SYS_dup, fd);
    if (n >= 0 && fd >= 0 && fd < MAXFD && fdpath[fd]) setfd(n, fdpath[fd]);
    return n;
}

/* ---- data ---- */
static int tracked(int fd) { return sim_fd >= 0 && fd >= 0 && fd < MAXFD && (fdpath[fd] || fd == 1 || fd == 2); }
static ssize_t do_read(int fd, void *b, size_t n, off_t off, int pos) {
    if (!tracked(fd) || fd == 1 || fd == 2)
        return pos ? raw(SYS_pread64, fd, b, n, off) : raw(SYS_read, fd, b, n);
    enter();
    Rep r = ask(OP_READ, 0, n, rel(fdpath[fd]), NULL);
    if (r.act == ACT_FAIL) {
        done(&r, -1, r.err);
        leave();
        errno = r.err;
        return -1;
    }
    if (r.act == ACT_SHORT && (int64_t)n > r.n) n = r.n;
    ssize_t k = pos ? raw(SYS_pread64, fd, b, n, off) : raw(SYS_read, fd, b, n);
    int e = errno;
    done(&r, k, k < 0 ? e : 0);
    leave();
    errno = e;
    return k;
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int pos) {
    if (!tracked(fd)) return pos ? raw(SYS_pwrite64, fd, b, n, off) : raw(SYS_write, fd, b, n);
    enter();
    uint32_t op = fdpath[fd] ? OP_WRITE : fd == 1 ? OP_STDOUT : OP_STDERR;
    Rep r = ask(op, 0, n, fdpath[fd] ? rel(fdpath[fd]) : "-", NULL);
    if (r.act == ACT_FAIL) {
        done(&r, -1, r.err);
        leave();
        errno = r.err;
        return -1;
    }
    if ((r.act == ACT_SHORT || r.act == ACT_CRASH_MID) && (int64_t)n > r.n) n = r.n;
    ssize_t k = pos ? raw(SYS_pwrite64, fd, b, n, off) : raw(SYS_write, fd, b, n);
    int e = errno;
    done(&r, k, k < 0 ? e : 0);
    leave();
    errno = e;
    return k;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!tracked(fd)) return raw(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!tracked(fd)) return raw(SYS_writev, fd, v, c);
    size_t t = 0;
    for (int i = 0; i < c; i++) t += v[i].iov_len;
    char *b = malloc(t ? t : 1);
    size_t o = 0;
    for (int i = 0; i < c; i++) {
        memcpy(b + o, v[i].iov_base, v[i].iov_len);
        o += v[i].iov_len;
    }
    ssize_t k = do_write(fd, b, t, 0, 0);
    int e = errno;
    free(b);
    errno = e;
    return k;
}
/* force the plain read/write path */
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (!tracked(a) && !tracked(b)) return raw(SYS_copy_file_range, a, ao, b, bo, n, f);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
    if (!tracked(a) && !tracked(b)) return raw(SYS_sendfile, a, b, o, n);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile(int a, int b, off_t *o, size_t n) { return sendfile64(a, b, o, n); }
ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (!tracked(a) && !tracked(b)) return raw(SYS_splice, a, ao, b, bo, n, f);
    errno = EINVAL;
    return -1;
}
int fsync(int fd) {
    if (!tracked(fd) || !fdpath[fd]) return raw(SYS_fsync, fd);
    GATED(OP_FSYNC, 0, 0, rel(fdpath[fd]), NULL, -1, (int)raw(SYS_fsync, fd));
}
int fdatasync(int fd) {
    if (!tracked(fd) || !fdpath[fd]) return raw(SYS_fdatasync, fd);
    GATED(OP_FSYNC, 0, 0, rel(fdpath[fd]), NULL, -1, (int)raw(SYS_fdatasync, fd));
}
int ftruncate(int fd, off_t n) {
    if (!tracked(fd) || !fdpath[fd]) return raw(SYS_ftruncate, fd, n);
    GATED(OP_TRUNC, 0, n, rel(fdpath[fd]), NULL, -1, (int)raw(SYS_ftruncate, fd, n));
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }

/* ---- locks: a wait for another process is a question repeated at each turn ---- */
static int lock_wait(int fd, int nonblock, long (*try)(int, void *, int), void *x) {
    for (;;) {
        enter();
        Rep r = ask(OP_LOCK, 0, 0, rel(fdpath[fd]), NULL);
        int k = (int)try(fd, x, 0), e = errno;
        done(&r, k, k < 0 ? e : 0);
        leave();
        errno = e;
        if (k == 0 || nonblock || (e != EAGAIN && e != EACCES)) return k;
    }
}
static long try_flock(int fd, void *x, int u) { (void)u; return raw(SYS_flock, fd, *(int *)x | LOCK_NB); }
int flock(int fd, int op) {
    if (!tracked(fd) || !fdpath[fd]) return raw(SYS_flock, fd, op);
    return lock_wait(fd, op & LOCK_NB, try_flock, &op);
}
typedef struct { int cmd; void *l; } Lk;
static long try_fcntl(int fd, void *x, int u) { (void)u; Lk *k = x; return raw(SYS_fcntl, fd, k->cmd, k->l); }
static int do_fcntl(int fd, int cmd, long arg) {
    if ((cmd == F_SETLKW || cmd == F_OFD_SETLKW) && tracked(fd) && fdpath[fd]) {
        Lk k = {cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, (void *)arg};
        return lock_wait(fd, 0, try_fcntl, &k);
    }
    int k = (int)raw(SYS_fcntl, fd, cmd, arg), e = errno;
    if (k >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && fd >= 0 && fd < MAXFD && fdpath[fd]) setfd(k, fdpath[fd]);
    errno = e;
    return k;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}

/* ---- metadata; the times of a file are arbitrary, a simulated process sees the same ones throughout, except for files
   whose time was set by the driver (whole seconds in one of two ranges that lie in the past) ---- */
static long filetime(const char *abs, long sec, long nsec) {
    if (!nsec && ((sec >= 1500000000 && sec < 1501000000) || (sec >= 1700000000 && sec < 1701000000))) return sec;
    uint64_t h = sim_seed ^ 0xcbf29ce484222325ull;
    for (; *abs; abs++) h = (h ^ (unsigned char)*abs) * 0x100000001b3ull;
    return 1600000000 + (long)(mix(&h) % 8) * 86400;
}
static int statx_at(int d, const char *p, int fl, unsigned mask, struct statx *st, const char *abs) {
    int k = (int)raw(SYS_statx, d, p, fl, mask, st);
    if (!k) {
        struct statx_timestamp t = {.tv_sec = filetime(abs, st->stx_mask & STATX_MTIME ? (long)st->stx_mtime.tv_sec : 0, st->stx_mtime.tv_nsec)};
        st->stx_mtime = st->stx_atime = st->stx_ctime = st->stx_btime = t;
    }
    return k;
}
static int stat_at(int d, const char *p, struct stat64 *st, int fl, const char *abs) {
    int k = (int)(p ? raw(SYS_newfstatat, d, p, st, fl) : raw(SYS_fstat, d, st));
    if (!k) {
        struct timespec t = {filetime(abs, st->st_mtim.tv_sec, st->st_mtim.tv_nsec), 0};
        st->st_mtim = st->st_atim = st->st_ctim = t;
    }
    return k;
}
int statx(int d, const char *p, int fl, unsigned mask, struct statx *st) {
    const char *path = NULL, *volatile pv = p; /* the standard library probes with a null path */
    char abs[PATHMAX];
    int named = pv && *pv;
    if (sim_fd >= 0) {
        if (named) {
            resolve(d, p, abs);
            if (in_root(abs)) path = abs;
        } else if (d >= 0 && d < MAXFD && fdpath[d]) path = fdpath[d];
    }
    if (!path) return raw(SYS_statx, d, p, fl, mask, st);
    GATED(OP_STAT, named ? 0 : 1, 0, rel(path), NULL, -1, statx_at(d, p, fl, mask, st, path));
}
static int do_stat(int d, const char *p, struct stat64 *st, int fl) {
    char abs[PATHMAX];
    if (sim_fd < 0) return raw(SYS_newfstatat, d, p, st, fl);
    resolve(d, p, abs);
    if (!in_root(abs)) return raw(SYS_newfstatat, d, p, st, fl);
    GATED(OP_STAT, 0, 0, rel(abs), NULL, -1, stat_at(d, p, st, fl, abs));
}
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, st, 0); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, (struct stat64 *)st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, (struct stat64 *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return do_stat(d, p, st, fl); }
int fstat64(int fd, struct stat64 *st) {
    if (!tracked(fd) || !fdpath[fd]) return raw(SYS_fstat, fd, st);
    GATED(OP_STAT, 1, 0, rel(fdpath[fd]), NULL, -1, stat_at(fd, NULL, st, 0, fdpath[fd]));
}
int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
static int do_access(int d, const char *p, int m, int fl) {
    char abs[PATHMAX];
    if (sim_fd < 0) return raw(SYS_faccessat, d, p, m, fl);
    resolve(d, p, abs);
    if (!in_root(abs)) return raw(SYS_faccessat, d, p, m, fl);
    GATED(OP_STAT, 0, 0, rel(abs), NULL, -1, (int)raw(SYS_faccessat, d, p, m, fl));
}
int access(const char *p, int m) { return do_access(AT_FDCWD, p, m, 0); }
int faccessat(int d, const char *p, int m, int fl) { return do_access(d, p, m, fl); }
char *realpath(const char *p, char *out) {
    REAL(char *, realpath, const char *, char *);
    char abs[PATHMAX];
    if (sim_fd < 0) return real_realpath(p, out);
    resolve(AT_FDCWD, p, abs);
    if (!in_root(abs)) return real_realpath(p, out);
    enter();
    Rep r = ask(OP_STAT, 0, 0, rel(abs), NULL);
    if (r.act == ACT_FAIL) {
        done(&r, -1, r.err);
        leave();
        errno = r.err;
        return NULL;
    }
    char *v = real_realpath(p, out);
    int e = errno;
    done(&r, v ? 0 : -1, v ? 0 : e);
    leave();
    errno = e;
    return v;
}

/* ---- name space changes ---- */
#define ONEPATH(d, p, op, n, EXPR)                                  \
    char abs[PATHMAX];                                              \
    if (sim_fd < 0) return EXPR;                                    \
    resolve(d, p, abs);                                             \
    if (!in_root(abs)) ESCAPED(abs, -1);                            \
    GATED(op, 0, n, rel(abs), NULL, -1, EXPR);
int mkdir(const char *p, mode_t m) { ONEPATH(AT_FDCWD, p, OP_MKDIR, 0, (int)raw(SYS_mkdir, p, m)) }
int mkdirat(int d, const char *p, mode_t m) { ONEPATH(d, p, OP_MKDIR, 0, (int)raw(SYS_mkdirat, d, p, m)) }
int unlink(const char *p) { ONEPATH(AT_FDCWD, p, OP_UNLINK, 0, (int)raw(SYS_unlink, p)) }
int rmdir(const char *p) { ONEPATH(AT_FDCWD, p, OP_RMDIR, 0, (int)raw(SYS_rmdir, p)) }
int unlinkat(int d, const char *p, int fl) {
    ONEPATH(d, p, (fl & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, 0, (int)raw(SYS_unlinkat, d, p, fl))
}
int chmod(const char *p, mode_t m) { ONEPATH(AT_FDCWD, p, OP_CHMOD, m, (int)raw(SYS_chmod, p, m)) }
int truncate(const char *p, off_t n) { ONEPATH(AT_FDCWD, p, OP_TRUNC, n, (int)raw(SYS_truncate, p, n)) }
int truncate64(const char *p, off64_t n) { ONEPATH(AT_FDCWD, p, OP_TRUNC, n, (int)raw(SYS_truncate, p, n)) }
#define TWOPATH(d1, a, d2, b, op, EXPR)                             \
    char abs[PATHMAX], abs2[PATHMAX];                               \
    if (sim_fd < 0) return EXPR;                                    \
    resolve(d1, a, abs);                                            \
    resolve(d2, b, abs2);                                           \
    if (!in_root(abs)) ESCAPED(abs, -1);                            \
    if (!in_root(abs2)) ESCAPED(abs2, -1);                          \
    GATED(op, 0, 0, rel(abs), rel(abs2), -1, EXPR);
int rename(const char *a, const char *b) { TWOPATH(AT_FDCWD, a, AT_FDCWD, b, OP_RENAME, (int)raw(SYS_rename, a, b)) }
int renameat(int d, const char *a, int e, const char *b) { TWOPATH(d, a, e, b, OP_RENAME, (int)raw(SYS_renameat, d, a, e, b)) }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    TWOPATH(d, a, e, b, OP_RENAME, (int)raw(SYS_renameat2, d, a, e, b, f))
}
int link(const char *a, const char *b) { TWOPATH(AT_FDCWD, a, AT_FDCWD, b, OP_LINK, (int)raw(SYS_link, a, b)) }
int linkat(int d, const char *a, int e, const char *b, int f) { TWOPATH(d, a, e, b, OP_LINK, (int)raw(SYS_linkat, d, a, e, b, f)) }
/* a link that leads out of the root is refused: later calls through it could not be told from calls inside */
int symlinkat(const char *t, int d, const char *p) {
    char abs[PATHMAX], to[PATHMAX], at[PATHMAX];
    if (sim_fd < 0) return (int)raw(SYS_symlinkat, t, d, p);
    resolve(d, p, abs);
    if (!in_root(abs)) ESCAPED(abs, -1);
    char *s = strrchr(abs, '/');
    snprintf(at, sizeof at, "%.*s/%s", (int)(s - abs), abs, t);
    resolve(AT_FDCWD, t[0] == '/' ? t : at, to);
    if (!in_root(to)) ESCAPED(to, -1);
    GATED(OP_LINK, 0, 0, rel(abs), rel(to), -1, (int)raw(SYS_symlinkat, t, d, p));
}
int symlink(const char *t, const char *p) { return symlinkat(t, AT_FDCWD, p); }

/* ---- directory listing, in an order the simulator picks ---- */
typedef struct SD {
    DIR *d;
    char path[PATHMAX];
    struct dirent64 *e;
    int n, i, unk;
    struct SD *next;
} SD;
static SD *dirs;
static int cmpent(const void *a, const void *b) {
    return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}
static DIR *finish_opendir(DIR *d, const char *abs, const Rep *r) {
    REAL(struct dirent64 *, readdir64, DIR *);
    SD *s = calloc(1, sizeof *s);
    s->d = d;
    snprintf(s->path, sizeof s->path, "%s", abs);
    struct dirent64 *e;
    int cap = 0;
    while ((e = real_readdir64(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        if (s->n == cap) {
            cap = cap ? cap * 2 : 16;
            s->e = realloc(s->e, cap * sizeof *s->e);
        }
        memcpy(&s->e[s->n], e, offsetof(struct dirent64, d_name) + strlen(e->d_name) + 1);
        s->e[s->n].d_reclen = sizeof(struct dirent64);
        s->e[s->n].d_ino = 1;
        s->n++;
    }
    qsort(s->e, s->n, sizeof *s->e, cmpent);
    uint64_t st = r->r1;
    if (st) /* 0 = sorted */
        for (int i = s->n - 1; i > 0; i--) {
            int j = mix(&st) % (i + 1);
            struct dirent64 t = s->e[i];
            s->e[i] = s->e[j];
            s->e[j] = t;
        }
    s->unk = r->r2 & 1;
    s->next = dirs;
    dirs = s;
    return d;
}
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    char abs[PATHMAX];
    if (sim_fd < 0) return real_opendir(p);
    resolve(AT_FDCWD, p, abs);
    if (!in_root(abs)) return real_opendir(p);
    enter();
    Rep r = ask(OP_OPENDIR, 0, 0, rel(abs), NULL);
    if (r.act == ACT_FAIL) {
        done(&r, -1, r.err);
        leave();
        errno = r.err;
        return NULL;
    }
    DIR *d = real_opendir(p);
    int e = errno;
    if (d) finish_opendir(d, abs, &r);
    done(&r, d ? 0 : -1, d ? 0 : e);
    leave();
    errno = e;
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, fdopendir, int);
    if (!tracked(fd) || !fdpath[fd]) return real_fdopendir(fd);
    enter();
    Rep r = ask(OP_OPENDIR, 0, 0, rel(fdpath[fd]), NULL);
    if (r.act == ACT_FAIL) {
        done(&r, -1, r.err);
        leave();
        errno = r.err;
        return NULL;
    }
    DIR *d = real_fdopendir(fd);
    int e = errno;
    if (d) finish_opendir(d, fdpath[fd], &r);
    done(&r, d ? 0 : -1, d ? 0 : e);
    leave();
    errno = e;
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    SD *s = dirs;
    while (s && s->d != d) s = s->next;
    if (!s) return real_readdir64(d);
    enter();
    int e = errno;
    Rep r = ask(OP_READDIR, 0, s->i, rel(s->path), s->i < s->n ? s->e[s->i].d_name : "");
    if (r.act == ACT_FAIL) {
        done(&r, -1, r.err);
        leave();
        errno = r.err;
        return NULL;
    }
    struct dirent64 *v = NULL;
    if (s->i < s->n) {
        v = &s->e[s->i++];
        if (s->unk) v->d_type = DT_UNKNOWN;
    }
    done(&r, v ? 1 : 0, 0);
    leave();
    errno = e;
    return v;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    for (SD **pp = &dirs; *pp; pp = &(*pp)->next)
        if ((*pp)->d == d) {
            SD *s = *pp;
            *pp = s->next;
            free(s->e);
            free(s);
            break;
        }
    return real_closedir(d);
}

/* ---- randomness and clocks ---- */
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (sim_fd < 0) return raw(SYS_getrandom, b, n, fl);
    enter();
    Rep r = ask(OP_RANDOM, 0, n, "-", NULL);
    uint64_t s = r.r1;
    for (size_t i = 0; i < n; i += 8) {
        uint64_t z = mix(&s);
        memcpy((char *)b + i, &z, n - i < 8 ? n - i : 8);
    }
    done(&r, n, 0);
    leave();
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
static void simclock(struct timespec *ts) {
    enter();
    Rep r = ask(OP_CLOCK, 0, 0, "-", NULL);
    ts->tv_sec = (time_t)(int64_t)r.r1;
    ts->tv_nsec = (long)r.r2;
    done(&r, (int64_t)r.r1, 0);
    leave();
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (sim_fd < 0 || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return raw(SYS_clock_gettime, c, ts);
    simclock(ts);
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    struct timespec ts;
    if (sim_fd < 0) return raw(SYS_gettimeofday, tv, tz);
    simclock(&ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
/* ---- process identity: fixed per simulated process ---- */
pid_t getpid(void) { return sim_fd >= 0 && sim_pid ? sim_pid : (pid_t)raw(SYS_getpid); }
pid_t getppid(void) { return sim_fd >= 0 && sim_pid ? 1 : (pid_t)raw(SYS_getppid); }
pid_t gettid(void) { return sim_fd >= 0 && sim_pid ? sim_pid : (pid_t)raw(SYS_gettid); }
