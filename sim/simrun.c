/* The simulator: runs one or more real packetc processes whose every file,
 * clock and randomness operation it grants one at a time. Everything it
 * decides comes from the plan file, so one plan is one execution.
 *
 * Plan lines (space separated, strings percent-encoded):
 *   root DIR | bin PATH | shim PATH | outdir DIR | maxsteps N
 *   sched C0 C1 ...            scheduling choices (mod number of runnable)
 *   schedseed S                after those, choices come from this seed
 *   proc HASH CLKSEC CLKNSEC STEPNS DIRSEED UNK TZ CWD NARG ARG...
 *   fault P CLASS NTH ACT ERR N REP   (REP: 0 once, k the next k as well, -1 all later ones, -2 all later ones on the same path)
 *   env P PID N VAR=VALUE...
 *   storm P SEED PSHORT PEINTR CHUNK ROW     (probabilities in 1/1000)
 *   jump P NTH DELTASEC
 *   act STEP KIND A B          environment action before that global step
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "proto.h"

static const char *OPN[OP_MAX] = {"?", "open", "openw", "read", "write", "stat", "opendir", "readdir", "mkdir", "rename",
    "unlink", "rmdir", "fsync", "trunc", "link", "chmod", "stdout", "stderr", "random", "clock", "escape", "lock"};
static const char *ACTN[] = {"go", "fail", "short", "crash", "crashmid", "crashafter", "full"};
#define ACT_FULL 6 /* a device with room for N more bytes; the process never sees it, it gets short and failing writes */

#define MAXP 8
#define MAXF 256
typedef struct { int proc, any, op, act, err, fired; long nth, n, rep; char path[PATHMAX]; } Fault;
typedef struct { int proc; long nth; long long delta; } Jump;
typedef struct { long step; char kind[16]; char a[PATHMAX], b[PATHMAX]; int done; } Act;
typedef struct {
    uint64_t hash, dirseed, storm;
    long long sec; long nsec; long long stepns;
    int unk, pshort, peintr, chunk, narg, einrow, maxrow, simpid, nvar;
    char *var[16];
    char tz[128], cwd[PATHMAX], *arg[32];
    pid_t pid; int fd, alive, blocked;
    Req req; long cnt[OP_MAX], any, nrand, nops, nopendir;
} Proc;
static Proc P[MAXP];
static Fault F[MAXF];
static Jump J[64];
static Act *A;
static int np, nf, nj, na;
static char root[PATHMAX], bin[PATHMAX], shim[PATHMAX], outdir[PATHMAX];
static long maxsteps = 100000;
static int *sched, nsched;
static uint64_t schedseed;
static int have_schedseed;

static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static void die(const char *m) { fprintf(stderr, "simrun: %s: %s\n", m, strerror(errno)); exit(3); }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void dec(char *d, const char *s, size_t cap) {
    size_t o = 0;
    for (; *s && o + 1 < cap; s++)
        if (*s == '%' && s[1] && s[2]) { d[o++] = hexv(s[1]) * 16 + hexv(s[2]); s += 2; }
        else d[o++] = *s;
    if (*s) { errno = ENAMETOOLONG; die("plan"); }
    d[o] = 0;
}
static void enc(FILE *f, const char *s, size_t n) {
    if (!n) { fputc('-', f); return; }
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c <= ' ' || c == '%' || c >= 127) fprintf(f, "%%%02X", c);
        else fputc(c, f);
    }
}
static char *tok(void) { char *t = strtok(NULL, " \n"); if (!t) { errno = EINVAL; die("plan"); } return t; }
static int opby(const char *s) { for (int i = 1; i < OP_MAX; i++) if (!strcmp(OPN[i], s)) return i; errno = EINVAL; die(s); return 0; }
static int actby(const char *s) { for (int i = 0; i < 7; i++) if (!strcmp(ACTN[i], s)) return i; errno = EINVAL; die(s); return 0; }

static void load(const char *file) {
    FILE *f = fopen(file, "r");
    if (!f) die(file);
    char *line = NULL; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        char *k = strtok(line, " \n");
        if (!k) continue;
        if (!strcmp(k, "root")) dec(root, tok(), sizeof root);
        else if (!strcmp(k, "bin")) dec(bin, tok(), sizeof bin);
        else if (!strcmp(k, "shim")) dec(shim, tok(), sizeof shim);
        else if (!strcmp(k, "outdir")) dec(outdir, tok(), sizeof outdir);
        else if (!strcmp(k, "maxsteps")) maxsteps = atol(tok());
        else if (!strcmp(k, "schedseed")) { schedseed = strtoull(tok(), 0, 10); have_schedseed = 1; }
        else if (!strcmp(k, "sched")) {
            char *t; int c = 0;
            while ((t = strtok(NULL, " \n"))) {
                if (nsched == c) { c = c ? c * 2 : 64; sched = realloc(sched, c * sizeof *sched); }
                sched[nsched++] = atoi(t);
            }
        } else if (!strcmp(k, "proc")) {
            if (np == MAXP) die("too many procs");
            Proc *p = &P[np++];
            p->hash = strtoull(tok(), 0, 10); p->sec = atoll(tok()); p->nsec = atol(tok()); p->stepns = atoll(tok());
            p->dirseed = strtoull(tok(), 0, 10); p->unk = atoi(tok());
            dec(p->tz, tok(), sizeof p->tz); dec(p->cwd, tok(), sizeof p->cwd);
            p->narg = atoi(tok());
            if (p->narg > 30) die("too many args");
            for (int i = 0; i < p->narg; i++) { p->arg[i] = calloc(1, PATHMAX); dec(p->arg[i], tok(), PATHMAX); if (!strcmp(p->arg[i], "%")) p->arg[i][0] = 0; }
        } else if (!strcmp(k, "fault")) {
            if (nf == MAXF) die("too many faults");
            Fault *x = &F[nf++];
            x->proc = atoi(tok()); char *c = tok();
            if (!strcmp(c, "any")) x->any = 1; else x->op = opby(c);
            x->nth = atol(tok()); x->act = actby(tok()); x->err = atoi(tok()); x->n = atol(tok()); x->rep = atol(tok());
        } else if (!strcmp(k, "env")) {
            Proc *p = &P[atoi(tok())];
            p->simpid = atoi(tok()); p->nvar = atoi(tok());
            if (p->nvar > 16) die("too many variables");
            for (int i = 0; i < p->nvar; i++) { p->var[i] = calloc(1, PATHMAX); dec(p->var[i], tok(), PATHMAX); }
        } else if (!strcmp(k, "storm")) {
            Proc *p = &P[atoi(tok())];
            p->storm = strtoull(tok(), 0, 10); p->pshort = atoi(tok()); p->peintr = atoi(tok()); p->chunk = atoi(tok()); p->maxrow = atoi(tok());
        } else if (!strcmp(k, "jump")) {
            if (nj == 64) die("too many jumps");
            J[nj].proc = atoi(tok()); J[nj].nth = atol(tok()); J[nj].delta = atoll(tok()); nj++;
        } else if (!strcmp(k, "act")) {
            A = realloc(A, (na + 1) * sizeof *A);
            Act *x = &A[na++]; memset(x, 0, sizeof *x);
            x->step = atol(tok()); snprintf(x->kind, sizeof x->kind, "%s", tok());
            dec(x->a, tok(), PATHMAX); dec(x->b, tok(), PATHMAX);
        } else { errno = EINVAL; die(k); }
    }
    fclose(f);
}

static void spawn(int i) {
    Proc *p = &P[i];
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv) < 0) die("socketpair");
    fcntl(sv[0], F_SETFD, FD_CLOEXEC);
    char o[PATHMAX + 32], e[PATHMAX + 32];
    snprintf(o, sizeof o, "%s/p%d.out", outdir, i);
    snprintf(e, sizeof e, "%s/p%d.err", outdir, i);
    pid_t pid = fork();
    if (pid < 0) die("fork");
    if (!pid) {
        int fo = open(o, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600), fe = open(e, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        int fi = open("/dev/null", O_RDONLY);
        if (fo < 0 || fe < 0 || chdir(p->cwd) < 0) _exit(120);
        dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
        int fd = fcntl(sv[1], F_DUPFD, 900);
        for (int k = 3; k < 64; k++) close(k);
        char b0[32], b1[32], b5[48], b2[PATHMAX + 16], b3[PATHMAX + 16], b4[160];
        snprintf(b0, sizeof b0, "SIM_PID=%d", p->simpid ? p->simpid : 4000 + i);
        snprintf(b1, sizeof b1, "SIM_FD=%d", fd);
        snprintf(b2, sizeof b2, "SIM_ROOT=%s", root);
        snprintf(b3, sizeof b3, "LD_PRELOAD=%s", shim);
        snprintf(b4, sizeof b4, "TZ=%s", p->tz);
        uint64_t s = p->hash ^ 0x7265616473ull;
        snprintf(b5, sizeof b5, "SIM_SEED=%llu", (unsigned long long)mix(&s));
        char *env[32] = {b0, b1, b2, b3, b4, b5, "PATH=/usr/bin:/bin", "RUST_BACKTRACE=0", "MALLOC_ARENA_MAX=1"};
        int ne = 9;
        for (int k = 0; k < p->nvar; k++) env[ne++] = p->var[k];
        if (!p->nvar) env[ne++] = "LC_ALL=C.UTF-8";
        char *argv[34];
        argv[0] = "packetc";
        for (int k = 0; k < p->narg; k++) argv[k + 1] = p->arg[k];
        argv[p->narg + 1] = NULL;
        struct rlimit cl = {0, 0};
        setrlimit(RLIMIT_CORE, &cl);
        struct rlimit al = {5ull << 30, 5ull << 30};
        setrlimit(RLIMIT_AS, &al);
        struct rlimit nl = {1024, 1024};
        setrlimit(RLIMIT_NOFILE, &nl);
        personality(ADDR_NO_RANDOMIZE); /* addresses are not a source of variation */
        execve(bin, argv, env);
        _exit(121);
    }
    close(sv[1]);
    p->pid = pid; p->fd = sv[0]; p->alive = 1;
}
static void reap(int i, const char *why) {
    Proc *p = &P[i];
    int st = 0;
    close(p->fd);
    if (why) kill(p->pid, SIGKILL);
    waitpid(p->pid, &st, 0);
    p->alive = 0; p->blocked = 0;
    if (why) printf("X %d %s 0\n", i, why);
    else if (WIFSIGNALED(st)) printf("X %d sig %d\n", i, WTERMSIG(st));
    else printf("X %d exit %d\n", i, WEXITSTATUS(st));
}
/* wait until p is blocked at its next operation or gone */
static void settle(int i) {
    Proc *p = &P[i];
    struct pollfd pf = {p->fd, POLLIN, 0};
    int k = poll(&pf, 1, 30000);
    if (k == 0) { reap(i, "hang"); return; }
    ssize_t n = recv(p->fd, &p->req, sizeof p->req, 0);
    if (n <= 0) { reap(i, NULL); return; }
    p->blocked = 1;
}
static int is_fs(int op) { return op != OP_RANDOM && op != OP_CLOCK && op != OP_STDERR && op != OP_ESCAPE && op != OP_LOCK; }

static void envact(Act *x, long step) {
    char a[2 * PATHMAX], b[2 * PATHMAX];
    snprintf(a, sizeof a, "%s/%s", root, x->a);
    snprintf(b, sizeof b, "%s/%s", root, x->b);
    int r = -1;
    if (!strcmp(x->kind, "rename")) r = rename(a, b);
    else if (!strcmp(x->kind, "unlink")) r = unlink(a);
    else if (!strcmp(x->kind, "mkdir")) r = mkdir(a, 0777);
    x->done = 1;
    printf("A %ld %s ", step, x->kind); enc(stdout, x->a, strlen(x->a)); putchar(' '); enc(stdout, x->b, strlen(x->b));
    printf(" %d\n", r < 0 ? errno : 0);
}

int main(int argc, char **argv) {
    if (argc != 2) return 3;
    signal(SIGPIPE, SIG_IGN);
    load(argv[1]);
    for (int i = 0; i < np; i++) spawn(i);
    for (int i = 0; i < np; i++) settle(i);
    long step = 0;
    for (;; step++) {
        int run[MAXP], nr = 0;
        for (int i = 0; i < np; i++) if (P[i].alive) run[nr++] = i;
        if (!nr) break;
        if (step >= maxsteps) { for (int i = 0; i < nr; i++) reap(run[i], "maxsteps"); break; }
        for (int i = 0; i < na; i++) if (!A[i].done && A[i].step <= step) envact(&A[i], step);
        unsigned c = step < nsched ? (unsigned)sched[step] : have_schedseed ? (unsigned)(mix(&schedseed) >> 33) : 0;
        int i = run[c % nr];
        Proc *p = &P[i];
        Req *q = &p->req;
        Rep r; memset(&r, 0, sizeof r);
        int op = q->op;
        long nth = p->cnt[op]++, anyth = -1;
        long tick = p->nops++; /* the clock of a process moves by its step at every operation it does */
        if (is_fs(op)) anyth = p->any++;
        for (int k = 0; k < nf; k++) {
            Fault *x = &F[k];
            if (x->proc != i) continue;
            if (!x->fired && ((x->any && anyth == x->nth) || (!x->any && x->op == op && x->nth == nth))) {
                x->fired = 1; r.act = x->act; r.err = x->err; r.n = x->n;
                snprintf(x->path, sizeof x->path, "%.*s", (int)q->len1, q->buf);
                if (x->act == ACT_FULL) { r.act = x->n > 0 && x->n < q->n ? ACT_SHORT : ACT_FAIL; x->rep = -1; }
                break;
            }
            if (x->fired && x->rep && !x->any && x->op == op && (x->rep != -2 || (strlen(x->path) == q->len1 && !memcmp(x->path, q->buf, q->len1)))) {
                if (x->rep > 0) x->rep--;
                r.act = ACT_FAIL; r.err = x->err;
                break;
            }
        }
        if (r.act == ACT_GO && p->storm) {
            int eintr = op == OP_READ || op == OP_WRITE || op == OP_OPEN || op == OP_OPENW || op == OP_STDOUT;
            int sh = op == OP_READ || op == OP_WRITE || op == OP_STDOUT;
            if (eintr && p->einrow < p->maxrow && (int)(mix(&p->storm) % 1000) < p->peintr) { r.act = ACT_FAIL; r.err = EINTR; p->einrow++; }
            else {
                p->einrow = 0;
                if (sh && q->n > 1 && (int)(mix(&p->storm) % 1000) < p->pshort) { r.act = ACT_SHORT; r.n = 1 + mix(&p->storm) % (p->chunk > 0 ? p->chunk : 1); }
            }
        }
        if (op == OP_RANDOM) { uint64_t s = p->hash + 0x1000003ull * p->nrand++; r.r1 = mix(&s); }
        else if (op == OP_CLOCK) {
            long long ns = (long long)p->nsec + p->stepns * tick, s = p->sec;
            for (int k = 0; k < nj; k++) if (J[k].proc == i && J[k].nth <= tick) s += J[k].delta;
            s += ns / 1000000000ll; ns %= 1000000000ll;
            r.r1 = (uint64_t)s; r.r2 = (uint64_t)ns;
        } else if (op == OP_OPENDIR) {
            if (p->dirseed) { uint64_t s = p->dirseed + p->nopendir; r.r1 = mix(&s) | 1; }
            p->nopendir++;
            r.r2 = p->unk;
        }
        if ((r.act == ACT_CRASH_MID || r.act == ACT_SHORT) && op != OP_WRITE && op != OP_READ && op != OP_STDOUT) r.act = r.act == ACT_SHORT ? ACT_GO : ACT_CRASH_AFTER;
        if (op == OP_RANDOM || op == OP_CLOCK || op == OP_ESCAPE || op == OP_LOCK) if (r.act == ACT_FAIL) r.act = ACT_GO;
        printf("E %ld %d %s ", step, i, OPN[op]);
        enc(stdout, q->buf, q->len1); putchar(' ');
        enc(stdout, q->buf + q->len1, q->len2);
        printf(" %ld %ld %u %s %d ", anyth, (long)q->n, q->flags, ACTN[r.act], r.err);
        p->blocked = 0;
        if (send(p->fd, &r, sizeof r, MSG_NOSIGNAL) < 0) { printf("dead 0\n"); reap(i, NULL); continue; }
        Done d;
        ssize_t k = recv(p->fd, &d, sizeof d, 0);
        if (k != sizeof d) { printf("dead 0\n"); reap(i, NULL); continue; }
        if (op == OP_OPEN || op == OP_OPENW || op == OP_OPENDIR) d.ret = d.ret < 0 ? -1 : 0;
        printf("%ld %d\n", (long)d.ret, d.err);
        settle(i);
    }
    printf("S %ld\n", step);
    return 0;
}
