/* Simulated operating system for one process: LD_PRELOADed into the Python that runs /repo's code.
 *
 *  - file calls on paths below one scratch root: scripted failures, EINTR, short transfers, full disk,
 *    replacement of a file just before an open, death of the process at a call;
 *  - clock: simulated wall (and optionally monotonic) clock with jumps, sleeping costs nothing;
 *  - randomness: getrandom() from a seed;
 *  - arrays: a numpy NEP 49 allocator whose fresh memory is seeded garbage and whose n-th call fails.
 *
 * Everything is off until the harness switches it on through the dst_* functions (ctypes), and everything
 * it does is a function of what the harness set: no real clock, no real randomness.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

/* ------------------------------------------------------------------ small PRNG */
static uint64_t rng_io = 88172645463325252ull, rng_mem = 1, rng_ent = 1;
static uint64_t xs(uint64_t *s) { uint64_t x = *s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return *s = x; }

/* ------------------------------------------------------------------ file seam */
enum { K_OPENR, K_OPENW, K_READ, K_WRITE, K_CLOSE, K_RENAME, K_UNLINK, K_FSYNC, K_TRUNC, K_STAT, K_N };
enum { A_ERR = 1, A_SHORT, A_SWAP, A_EXIT, A_SHORTEXIT };
#define MAXRULE 32
static struct rule {
    int kind, act; long n, arg; int persist; char path[128], a[512], b[512]; long seen, fired;
} rules[MAXRULE];
static int nrules, io_on;
static char root[PATH_MAX];
static size_t rootlen;
static long counts[K_N], eintr_fired, short_fired, nospc_fired;
static long io_total, io_limit = 0;   /* more calls than the limit: the caller retries for ever */
static long budget = -1;            /* bytes that still fit on the disk; -1: unlimited */
static int short_max, eintr_pct;
#define MAXFD 1024
static char *fdpath[MAXFD];
static char iolog[1 << 16]; static size_t iolen;

static void logf_(const char *f, ...) {
    if (iolen > sizeof iolog - 400) return;
    va_list ap; va_start(ap, f);
    int k = vsnprintf(iolog + iolen, 380, f, ap);
    va_end(ap);
    if (k > 0) iolen += (size_t)(k > 379 ? 379 : k);
}
static void *nxt(const char *n) { return dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = nxt(#name)

static int under_root(const char *p, char *out) {
    if (!rootlen || !p) return 0;
    char tmp[PATH_MAX], dir[PATH_MAX];
    if (p[0] == '/') { if (strlen(p) >= sizeof tmp) return 0; strcpy(tmp, p); }
    else {
        if (syscall(SYS_getcwd, tmp, sizeof tmp) <= 0) return 0;
        if (strlen(tmp) + strlen(p) + 2 >= sizeof tmp) return 0;
        strcat(tmp, "/"); strcat(tmp, p);
    }
    char *s = strrchr(tmp, '/');
    const char *base = s + 1;
    char save = *s; *s = 0;
    int e = errno;
    char *r = realpath(tmp[0] ? tmp : "/", dir);
    *s = save; errno = e;
    if (!r) strcpy(dir, tmp);
    else { if (strlen(dir) + strlen(base) + 2 >= PATH_MAX) return 0; strcat(dir, "/"); strcat(dir, base); }
    if (strncmp(dir, root, rootlen)) return 0;
    strcpy(out, dir);
    return 1;
}
static const char *rel(const char *p) { return strlen(p) >= rootlen ? p + rootlen : p; }

/* 0: go on; 1: fail with errno set; otherwise *lim may be lowered */
static int consult(int kind, const char *path, size_t *lim, int *die) {
    counts[kind]++;
    if (io_limit && ++io_total > io_limit) _exit(97);
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (r->kind != kind || (r->path[0] && !strstr(path, r->path))) continue;
        r->seen++;
        if (!(r->seen == r->n || (r->persist && r->seen >= r->n))) continue;
        r->fired++;
        logf_("!%d/%d ", kind, r->act);
        if (r->act == A_ERR) { errno = (int)r->arg; return 1; }
        if (r->act == A_SHORT && lim && *lim > (size_t)r->arg && r->arg > 0) *lim = (size_t)r->arg;
        if (r->act == A_SWAP) { int e = errno; syscall(SYS_rename, r->a, r->b); errno = e; }
        if (r->act == A_EXIT) _exit((int)r->arg);
        if (r->act == A_SHORTEXIT) { if (lim && *lim > 1) *lim /= 2; if (die) *die = (int)r->arg; }
    }
    return 0;
}
static int open_kind(int flags) { return (flags & O_ACCMODE) == O_RDONLY ? K_OPENR : K_OPENW; }

static int track_open(const char *path, int flags, char *full) {
    if (!io_on || (flags & (O_DIRECTORY | O_PATH)) || !under_root(path, full)) return 0;
    int k = open_kind(flags);
    if (consult(k, full, NULL, NULL)) { logf_("open%c %s -> errno %d\n", k == K_OPENR ? 'R' : 'W', rel(full), errno); return -1; }
    return 1;
}
static void note_fd(int fd, const char *full) {
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(full); }
    logf_("open %s -> %s\n", rel(full), fd >= 0 ? "ok" : "err");
}
#define OPENBODY(NAME, PRE, CALLARGS)                                                   \
    mode_t mode = 0;                                                                    \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    char full[PATH_MAX]; int t = PRE;                                                   \
    if (t < 0) return -1;                                                               \
    int fd = real CALLARGS;                                                             \
    if (t) { int e = errno; note_fd(fd, full); errno = e; }                             \
    return fd;
EXPORT int open(const char *p, int flags, ...) { REAL(int, open, const char *, int, ...); OPENBODY(open, track_open(p, flags, full), (p, flags, mode)) }
EXPORT int open64(const char *p, int flags, ...) { REAL(int, open64, const char *, int, ...); OPENBODY(open64, track_open(p, flags, full), (p, flags, mode)) }
EXPORT int openat(int d, const char *p, int flags, ...) { REAL(int, openat, int, const char *, int, ...); OPENBODY(openat, (p && (p[0] == '/' || d == AT_FDCWD)) ? track_open(p, flags, full) : 0, (d, p, flags, mode)) }
EXPORT int openat64(int d, const char *p, int flags, ...) { REAL(int, openat64, int, const char *, int, ...); OPENBODY(openat64, (p && (p[0] == '/' || d == AT_FDCWD)) ? track_open(p, flags, full) : 0, (d, p, flags, mode)) }
static int mflags(const char *m) { return m[0] == 'r' && !strchr(m, '+') ? O_RDONLY : O_WRONLY; }
EXPORT FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); char full[PATH_MAX]; int t = track_open(p, mflags(m), full); if (t < 0) return NULL; return real(p, m); }
EXPORT FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); char full[PATH_MAX]; int t = track_open(p, mflags(m), full); if (t < 0) return NULL; return real(p, m); }

static const char *tracked(int fd) { return io_on && fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

EXPORT ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    const char *p = tracked(fd);
    if (!p) return real(fd, buf, n);
    size_t lim = n;
    if (eintr_pct && (int)(xs(&rng_io) % 100) < eintr_pct) { eintr_fired++; logf_("read EINTR\n"); errno = EINTR; return -1; }
    if (consult(K_READ, p, &lim, NULL)) { logf_("read %s -> errno %d\n", rel(p), errno); return -1; }
    if (short_max && lim > 1) { size_t c = 1 + xs(&rng_io) % (uint64_t)short_max; if (c < lim) { lim = c; short_fired++; } }
    ssize_t r = real(fd, buf, lim);
    logf_("read %s %zd\n", rel(p), r);
    return r;
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    const char *p = tracked(fd);
    if (!p) return real(fd, buf, n);
    size_t lim = n; int die = 0;
    if (eintr_pct && (int)(xs(&rng_io) % 100) < eintr_pct) { eintr_fired++; logf_("write EINTR\n"); errno = EINTR; return -1; }
    if (consult(K_WRITE, p, &lim, &die)) { logf_("write %s -> errno %d\n", rel(p), errno); return -1; }
    if (short_max && lim > 1) { size_t c = 1 + xs(&rng_io) % (uint64_t)short_max; if (c < lim) { lim = c; short_fired++; } }
    if (budget >= 0) {
        if (budget == 0) { nospc_fired++; logf_("write %s -> ENOSPC\n", rel(p)); errno = ENOSPC; return -1; }
        if (lim > (size_t)budget) lim = (size_t)budget;
    }
    ssize_t r = real(fd, buf, lim);
    if (r > 0 && budget >= 0) budget -= r;
    logf_("write %s %zd\n", rel(p), r);
    if (die) _exit(die);
    return r;
}
EXPORT int close(int fd) {
    REAL(int, close, int);
    const char *p = tracked(fd);
    if (!p) { if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; } return real(fd); }
    int bad = consult(K_CLOSE, p, NULL, NULL), e = errno;
    logf_("close %s%s\n", rel(p), bad ? " err" : "");
    free(fdpath[fd]); fdpath[fd] = NULL;
    int r = real(fd);
    if (bad) { errno = e; return -1; }
    return r;
}
EXPORT int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    char fa[PATH_MAX], fb[PATH_MAX];
    if (io_on && (under_root(a, fa) | under_root(b, fb))) {
        char *f = under_root(b, fb) ? fb : fa;
        if (consult(K_RENAME, f, NULL, NULL)) return -1;
        logf_("rename %s\n", rel(f));
    }
    return real(a, b);
}
EXPORT int unlink(const char *a) {
    REAL(int, unlink, const char *);
    char fa[PATH_MAX];
    if (io_on && under_root(a, fa)) { if (consult(K_UNLINK, fa, NULL, NULL)) return -1; logf_("unlink %s\n", rel(fa)); }
    return real(a);
}
EXPORT int fsync(int fd) {
    REAL(int, fsync, int);
    const char *p = tracked(fd);
    if (p && consult(K_FSYNC, p, NULL, NULL)) return -1;
    return real(fd);
}
EXPORT int ftruncate64(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t);
    const char *p = tracked(fd);
    if (p) { if (consult(K_TRUNC, p, NULL, NULL)) return -1; logf_("ftruncate %s\n", rel(p)); }
    return real(fd, n);
}

EXPORT void dst_io_root(const char *r) { snprintf(root, sizeof root, "%s", r); rootlen = strlen(root); }
EXPORT void dst_io_reset(uint64_t seed) {
    nrules = 0; io_on = 0; io_total = 0; io_limit = 0; iolen = 0; iolog[0] = 0; budget = -1; short_max = eintr_pct = 0;
    eintr_fired = short_fired = nospc_fired = 0;
    memset(counts, 0, sizeof counts); rng_io = seed * 2654435761ull + 88172645463325252ull; if (!rng_io) rng_io = 1;
    for (int i = 0; i < MAXFD; i++) { free(fdpath[i]); fdpath[i] = NULL; }
}
EXPORT void dst_io_enable(int on) { io_on = on; }
EXPORT void dst_io_noise(int smax, int epct) { short_max = smax; eintr_pct = epct; }
EXPORT void dst_io_limit(long n) { io_limit = n; }
EXPORT void dst_io_budget(long b) { budget = b; }
EXPORT int dst_io_rule(int kind, long n, int act, long arg, int persist, const char *path, const char *a, const char *b) {
    if (nrules >= MAXRULE) return -1;
    struct rule *r = &rules[nrules++];
    memset(r, 0, sizeof *r);
    r->kind = kind; r->n = n; r->act = act; r->arg = arg; r->persist = persist;
    snprintf(r->path, sizeof r->path, "%s", path); snprintf(r->a, sizeof r->a, "%s", a); snprintf(r->b, sizeof r->b, "%s", b);
    return nrules - 1;
}
EXPORT long dst_io_fired(int i) { return i < nrules ? rules[i].fired : 0; }
EXPORT long dst_io_stat(int i) { return i == 0 ? eintr_fired : i == 1 ? short_fired : nospc_fired; }
EXPORT long dst_io_count(int k) { return counts[k]; }
EXPORT const char *dst_io_log(void) { return iolog; }

/* ------------------------------------------------------------------ clock seam */
static int clk_on, clk_mono; static int64_t clk_now, clk_step, mono_now; static long clk_reads, clk_slept;
static struct { long at; int64_t delta; } jumps[64]; static int njumps; static long jumps_fired;
static long clk_limit;              /* more reads than the limit: the caller waits for the clock for ever */
static int64_t wall(void) {
    clk_reads++;
    if (clk_limit && clk_reads > clk_limit) _exit(96);
    clk_now += clk_step;
    for (int i = 0; i < njumps; i++) if (jumps[i].at == clk_reads) { clk_now += jumps[i].delta; jumps_fired++; }
    return clk_now;
}
static void put(struct timespec *t, int64_t v) { t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; t->tv_sec--; } }
EXPORT int clock_gettime(clockid_t id, struct timespec *t) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (clk_on) {
        if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) { put(t, wall()); return 0; }
        if (clk_mono && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME
                         || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID)) { mono_now += clk_step > 0 ? clk_step : 1000; put(t, mono_now); return 0; }
    }
    return real(id, t);
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict z) {
    REAL(int, gettimeofday, struct timeval *, void *);
    if (clk_on && tv) { struct timespec t; put(&t, wall()); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
    return real(tv, z);
}
EXPORT time_t time(time_t *o) {
    REAL(time_t, time, time_t *);
    if (clk_on) { struct timespec t; put(&t, wall()); if (o) *o = t.tv_sec; return t.tv_sec; }
    return real(o);
}
static void slept(const struct timespec *d) { int64_t v = (int64_t)d->tv_sec * 1000000000 + d->tv_nsec; clk_now += v; mono_now += v; clk_slept++; }
EXPORT int nanosleep(const struct timespec *d, struct timespec *r) {
    REAL(int, nanosleep, const struct timespec *, struct timespec *);
    if (clk_on) { slept(d); return 0; }
    return real(d, r);
}
EXPORT int clock_nanosleep(clockid_t id, int fl, const struct timespec *d, struct timespec *r) {
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
    if (clk_on && !(fl & TIMER_ABSTIME)) { slept(d); return 0; }
    if (clk_on && clk_mono) { int64_t v = (int64_t)d->tv_sec * 1000000000 + d->tv_nsec; if (v > mono_now) { clk_now += v - mono_now; mono_now = v; } clk_slept++; return 0; }
    return real(id, fl, d, r);
}
EXPORT void dst_clock(int on, int mono, int64_t start_ns, int64_t step_ns) { clk_on = on; clk_mono = mono; clk_now = start_ns; clk_step = step_ns; mono_now = 1000000000000ll; clk_reads = clk_slept = 0; njumps = 0; jumps_fired = 0; }
EXPORT void dst_clock_limit(long n) { clk_limit = n; }
EXPORT void dst_clock_jump(long at, int64_t delta) { if (njumps < 64) { jumps[njumps].at = at; jumps[njumps++].delta = delta; } }
EXPORT long dst_clock_stat(int i) { return i == 0 ? clk_reads : i == 1 ? jumps_fired : clk_slept; }
EXPORT int64_t dst_clock_now(void) { return clk_now; }

/* ------------------------------------------------------------------ randomness seam */
static int ent_on; static long ent_calls;
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    REAL(ssize_t, getrandom, void *, size_t, unsigned);
    if (!ent_on) return real(buf, n, fl);
    ent_calls++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)(xs(&rng_ent) >> 24);
    return (ssize_t)n;
}
EXPORT int getentropy(void *buf, size_t n) {
    REAL(int, getentropy, void *, size_t);
    if (!ent_on) return real(buf, n);
    getrandom(buf, n, 0); return 0;
}
EXPORT void dst_entropy(int on, uint64_t seed) { ent_on = on; rng_ent = seed * 0x9E3779B97F4A7C15ull + 7; if (!rng_ent) rng_ent = 3; ent_calls = 0; }
EXPORT long dst_entropy_calls(void) { return ent_calls; }

/* ------------------------------------------------------------------ array memory seam (NEP 49) */
typedef struct { size_t size; size_t magic; } hdr;
static long al_count, al_fail = -1, al_failed; static int al_fill, al_count_on; static long al_filled;
static int al_hit(void) {
    if (!al_count_on) return 0;
    al_count++;
    if (al_fail > 0 && al_count == al_fail) { al_failed++; return 1; }
    return 0;
}
static void fill(void *p, size_t n) {
    if (!al_fill || !n) return;
    al_filled++;
    unsigned char *c = p;
    unsigned m = al_fill == 1 ? (unsigned)(xs(&rng_mem) % 5) : (unsigned)(al_fill - 2);
    uint64_t w;
    switch (m) {
    case 0: memset(c, 0xFF, n); return;                                     /* NaN, -1 */
    case 1: memset(c, 0x00, n); return;
    case 2: for (size_t i = 0; i < n; i += 8) { double d = (double)(int64_t)(xs(&rng_mem) % 2000001) / 7.0 - 1e5; memcpy(c + i, &d, n - i < 8 ? n - i : 8); } return;
    case 3: for (size_t i = 0; i < n; i += 8) { w = xs(&rng_mem) % 5; memcpy(c + i, &w, n - i < 8 ? n - i : 8); } return;   /* plausible indices */
    default: for (size_t i = 0; i < n; i += 8) { w = xs(&rng_mem); memcpy(c + i, &w, n - i < 8 ? n - i : 8); } return;
    }
}
static void *np_malloc(void *ctx, size_t n) { (void)ctx; if (al_hit()) return NULL; hdr *h = malloc(n + sizeof *h); if (!h) return NULL; h->size = n; h->magic = 0xD57; fill(h + 1, n); return h + 1; }
static void *np_calloc(void *ctx, size_t a, size_t b) { (void)ctx; if (al_hit()) return NULL; size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; hdr *h = calloc(1, n + sizeof *h); if (!h) return NULL; h->size = n; h->magic = 0xD57; return h + 1; }
static void *np_realloc(void *ctx, void *p, size_t n) {
    (void)ctx; if (!p) return np_malloc(ctx, n); if (al_hit()) return NULL;
    hdr *h = (hdr *)p - 1; size_t old = h->size;
    h = realloc(h, n + sizeof *h); if (!h) return NULL;
    h->size = n; if (n > old) fill((char *)(h + 1) + old, n - old);
    return h + 1;
}
static void np_free(void *ctx, void *p, size_t n) { (void)ctx; (void)n; if (p) free((hdr *)p - 1); }
typedef struct { char name[127]; uint8_t version; struct { void *ctx; void *(*m)(void *, size_t); void *(*c)(void *, size_t, size_t); void *(*r)(void *, void *, size_t); void (*f)(void *, void *, size_t); } a; } handler;
static handler H = { "dst", 1, { NULL, np_malloc, np_calloc, np_realloc, np_free } };
EXPORT void *dst_np_handler(void) { return &H; }
EXPORT void dst_alloc(int fillmode, uint64_t seed, int counting, long fail_at) { al_fill = fillmode; rng_mem = seed * 0x9E3779B97F4A7C15ull + 11; if (!rng_mem) rng_mem = 5; al_count_on = counting; al_fail = fail_at; al_count = al_failed = 0; }
EXPORT long dst_alloc_stat(int i) { return i == 0 ? al_count : i == 1 ? al_failed : al_filled; }
EXPORT int dst_loaded(void) { return 1; }
