/* LD_PRELOAD seam between the process under simulation and the kernel's file system calls.
 *
 * Off until shim_set_active(1).  A call is shown to the simulator when its path lies under one of the
 * registered prefixes, or its descriptor was opened through such a path.  The simulator's callback decides
 *     0      do the real call
 *     e > 0  do not do it, fail with errno e
 *     l < 0  (read/write) do the real call with at most -l-1 bytes (0 bytes: end of file / nothing written)
 * The callback's own file accesses are never shown to it.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_FSTAT, OP_RENAME, OP_UNLINK, OP_MKDIR,
       OP_FTRUNC, OP_FSYNC, OP_LSEEK, OP_LINK, OP_READDIR };

typedef int (*callback_t)(int op, const char *path, int fd, long n, long flags);

#define MAXFD 4096
#define MAXPREFIX 8
static callback_t callback;
static volatile int active;
static char prefixes[MAXPREFIX][PATH_MAX];
static int n_prefix;
static char *fd_path[MAXFD];
static __thread int inside;
static int deny_create;      /* errno for every creation outside the prefixes, 0: allow */
static long stat_freeze;     /* != 0: every time stamp of a watched file reads as this second */

void shim_set_callback(callback_t cb) { callback = cb; }
void shim_set_active(int a) { active = a; }
void shim_reset(void) {
    n_prefix = 0;
    for (int i = 0; i < MAXFD; i++) { free(fd_path[i]); fd_path[i] = NULL; }
    deny_create = 0; stat_freeze = 0;
}
void shim_add_prefix(const char *p) { if (n_prefix < MAXPREFIX) { strncpy(prefixes[n_prefix], p, PATH_MAX - 1); n_prefix++; } }
void shim_deny_create(int e) { deny_create = e; }
void shim_stat_freeze(long s) { stat_freeze = s; }
int shim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fd_path[i] != NULL; return n; }
const char *shim_fd_path(int fd) { return fd >= 0 && fd < MAXFD ? fd_path[fd] : NULL; }

static const char *full(const char *path, char *buf) {
    if (!path) return NULL;
    if (path[0] == '/') return path;
    if (!getcwd(buf, PATH_MAX / 2)) return NULL;
    size_t l = strlen(buf);
    if (l + strlen(path) + 2 > PATH_MAX) return NULL;
    buf[l] = '/';
    strcpy(buf + l + 1, path);
    return buf;
}
static int watched(const char *p) {
    if (!p) return 0;
    for (int i = 0; i < n_prefix; i++)
        if (!strncmp(p, prefixes[i], strlen(prefixes[i]))) return 1;
    return 0;
}
static int ask(int op, const char *path, int fd, long n, long flags) {
    if (!callback) return 0;
    inside = 1;
    int r = callback(op, path, fd, n, flags);
    inside = 0;
    return r;
}
#define LIVE (active && !inside)
#define REAL(name, ...) static __typeof__(__VA_ARGS__) real; if (!real) real = (__typeof__(real))dlsym(RTLD_NEXT, name)

static int do_open(int (*real)(const char *, int, ...), const char *path, int flags, mode_t mode) {
    char buf[PATH_MAX];
    int w = 0;
    const char *p = NULL;
    if (LIVE) {
        p = full(path, buf);
        w = watched(p);
        if (w) {
            int r = ask(OP_OPEN, p, -1, 0, flags);
            if (r > 0) { errno = r; return -1; }
        } else if (deny_create && (flags & O_CREAT)) { errno = deny_create; return -1; }
    }
    int fd = real(path, flags, mode);
    if (w && fd >= 0 && fd < MAXFD) { free(fd_path[fd]); fd_path[fd] = strdup(p); }
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE REAL("open", int (*)(const char *, int, ...)); return do_open(real, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE REAL("open64", int (*)(const char *, int, ...)); return do_open(real, path, flags, mode); }
static int do_openat(int (*real)(int, const char *, int, ...), int d, const char *path, int flags, mode_t mode) {
    char buf[PATH_MAX], dbuf[PATH_MAX];
    int w = 0;
    const char *p = NULL;
    if (LIVE) {
        if (path[0] != '/' && d != AT_FDCWD && d >= 0 && d < MAXFD && fd_path[d]) {
            if (strlen(fd_path[d]) + strlen(path) + 2 < PATH_MAX) { strcpy(dbuf, fd_path[d]); strcat(dbuf, "/"); strcat(dbuf, path); p = dbuf; }
        } else p = full(path, buf);
        w = watched(p);
        if (w) {
            int r = ask(OP_OPEN, p, -1, 0, flags);
            if (r > 0) { errno = r; return -1; }
        } else if (deny_create && (flags & O_CREAT)) { errno = deny_create; return -1; }
    }
    int fd = real(d, path, flags, mode);
    if (w && fd >= 0 && fd < MAXFD) { free(fd_path[fd]); fd_path[fd] = strdup(p); }
    return fd;
}
int openat(int d, const char *path, int flags, ...) { MODE REAL("openat", int (*)(int, const char *, int, ...)); return do_openat(real, d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE REAL("openat64", int (*)(int, const char *, int, ...)); return do_openat(real, d, path, flags, mode); }
#define TRACKED(fd) (LIVE && (fd) >= 0 && (fd) < MAXFD && fd_path[fd])

ssize_t read(int fd, void *b, size_t n) {
    REAL("read", ssize_t (*)(int, void *, size_t));
    if (TRACKED(fd)) {
        int r = ask(OP_READ, fd_path[fd], fd, (long)n, 0);
        if (r > 0) { errno = r; return -1; }
        if (r < 0 && (size_t)(-r - 1) < n) n = (size_t)(-r - 1);
    }
    return real(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL("pread64", ssize_t (*)(int, void *, size_t, off64_t));
    if (TRACKED(fd)) {
        int r = ask(OP_READ, fd_path[fd], fd, (long)n, 1);
        if (r > 0) { errno = r; return -1; }
        if (r < 0 && (size_t)(-r - 1) < n) n = (size_t)(-r - 1);
    }
    return real(fd, b, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL("readv", ssize_t (*)(int, const struct iovec *, int));
    if (TRACKED(fd)) { int r = ask(OP_READ, fd_path[fd], fd, 0, 2); if (r > 0) { errno = r; return -1; } }
    return real(fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL("write", ssize_t (*)(int, const void *, size_t));
    if (TRACKED(fd)) {
        int r = ask(OP_WRITE, fd_path[fd], fd, (long)n, 0);
        if (r > 0) { errno = r; return -1; }
        if (r < 0 && (size_t)(-r - 1) < n) n = (size_t)(-r - 1);
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL("pwrite64", ssize_t (*)(int, const void *, size_t, off64_t));
    if (TRACKED(fd)) {
        int r = ask(OP_WRITE, fd_path[fd], fd, (long)n, 1);
        if (r > 0) { errno = r; return -1; }
        if (r < 0 && (size_t)(-r - 1) < n) n = (size_t)(-r - 1);
    }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL("writev", ssize_t (*)(int, const struct iovec *, int));
    if (TRACKED(fd)) { int r = ask(OP_WRITE, fd_path[fd], fd, 0, 2); if (r > 0) { errno = r; return -1; } }
    return real(fd, v, c);
}
int close(int fd) {
    REAL("close", int (*)(int));
    if (TRACKED(fd)) {
        int r = ask(OP_CLOSE, fd_path[fd], fd, 0, 0);
        free(fd_path[fd]); fd_path[fd] = NULL;
        int rc = real(fd);              /* the descriptor is gone either way, as on Linux */
        if (r > 0) { errno = r; return -1; }
        return rc;
    }
    if (fd >= 0 && fd < MAXFD && fd_path[fd] && !inside) { free(fd_path[fd]); fd_path[fd] = NULL; }
    return real(fd);
}
static void freeze(struct stat64 *st) {
    if (!stat_freeze) return;
    st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = stat_freeze;
    st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = st->st_atim.tv_nsec = 0;
    st->st_ino = 4711;
}
#define STATLIKE(NAME, STRUCT) \
int NAME(const char *path, struct STRUCT *st) { \
    REAL(#NAME, int (*)(const char *, struct STRUCT *)); \
    char buf[PATH_MAX]; int w = 0; const char *p; \
    if (LIVE) { p = full(path, buf); w = watched(p); \
        if (w) { int r = ask(OP_STAT, p, -1, 0, 0); if (r > 0) { errno = r; return -1; } } } \
    int rc = real(path, st); \
    if (w && rc == 0) freeze((struct stat64 *)st); \
    return rc; }
STATLIKE(stat, stat)
STATLIKE(stat64, stat64)
STATLIKE(lstat, stat)
STATLIKE(lstat64, stat64)
#define FSTATLIKE(NAME, STRUCT) \
int NAME(int fd, struct STRUCT *st) { \
    REAL(#NAME, int (*)(int, struct STRUCT *)); \
    int w = TRACKED(fd); \
    if (w) { int r = ask(OP_FSTAT, fd_path[fd], fd, 0, 0); if (r > 0) { errno = r; return -1; } } \
    int rc = real(fd, st); \
    if (w && rc == 0) freeze((struct stat64 *)st); \
    return rc; }
FSTATLIKE(fstat, stat)
FSTATLIKE(fstat64, stat64)
#define FSTATATLIKE(NAME, STRUCT) \
int NAME(int d, const char *path, struct STRUCT *st, int fl) { \
    REAL(#NAME, int (*)(int, const char *, struct STRUCT *, int)); \
    char buf[PATH_MAX]; int w = 0; const char *p; \
    if (LIVE && (path[0] == '/' || d == AT_FDCWD)) { p = full(path, buf); w = watched(p); \
        if (w) { int r = ask(OP_STAT, p, -1, 0, 0); if (r > 0) { errno = r; return -1; } } } \
    int rc = real(d, path, st, fl); \
    if (w && rc == 0) freeze((struct stat64 *)st); \
    return rc; }
FSTATATLIKE(fstatat, stat)
FSTATATLIKE(fstatat64, stat64)
#define PATHOP(NAME, OP, DECL, CALL, PATH) \
int NAME DECL { \
    REAL(#NAME, int (*) DECL); \
    char buf[PATH_MAX]; \
    if (LIVE) { const char *p = full(PATH, buf); \
        if (watched(p)) { int r = ask(OP, p, -1, 0, 0); if (r > 0) { errno = r; return -1; } } \
        else if (deny_create && OP != OP_UNLINK) { errno = deny_create; return -1; } } \
    return real CALL; }
PATHOP(rename, OP_RENAME, (const char *a, const char *b), (a, b), b)
PATHOP(renameat, OP_RENAME, (int d, const char *a, int e, const char *b), (d, a, e, b), b)
PATHOP(renameat2, OP_RENAME, (int d, const char *a, int e, const char *b, unsigned int f), (d, a, e, b, f), b)
PATHOP(unlink, OP_UNLINK, (const char *a), (a), a)
PATHOP(unlinkat, OP_UNLINK, (int d, const char *a, int f), (d, a, f), a)
PATHOP(mkdir, OP_MKDIR, (const char *a, mode_t m), (a, m), a)
PATHOP(mkdirat, OP_MKDIR, (int d, const char *a, mode_t m), (d, a, m), a)
PATHOP(link, OP_LINK, (const char *a, const char *b), (a, b), b)
PATHOP(symlink, OP_LINK, (const char *a, const char *b), (a, b), b)
#define FDOP(NAME, OP, DECL, CALL) \
int NAME DECL { \
    REAL(#NAME, int (*) DECL); \
    if (TRACKED(fd)) { int r = ask(OP, fd_path[fd], fd, 0, 0); if (r > 0) { errno = r; return -1; } } \
    return real CALL; }
FDOP(ftruncate, OP_FTRUNC, (int fd, off_t l), (fd, l))
FDOP(ftruncate64, OP_FTRUNC, (int fd, off64_t l), (fd, l))
FDOP(fsync, OP_FSYNC, (int fd), (fd))
FDOP(fdatasync, OP_FSYNC, (int fd), (fd))
off_t lseek(int fd, off_t o, int w) {
    REAL("lseek", off_t (*)(int, off_t, int));
    if (TRACKED(fd)) { int r = ask(OP_LSEEK, fd_path[fd], fd, 0, 0); if (r > 0) { errno = r; return -1; } }
    return real(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) {
    REAL("lseek64", off64_t (*)(int, off64_t, int));
    if (TRACKED(fd)) { int r = ask(OP_LSEEK, fd_path[fd], fd, 0, 0); if (r > 0) { errno = r; return -1; } }
    return real(fd, o, w);
}

/* ---- clock, sleep and randomness: served from the simulator's state once switched on ---- */
#include <stdint.h>
#include <sys/time.h>
#include <sys/random.h>
#include <time.h>
enum { OP_SLEEP = 20 };
static volatile int clock_on;
static int64_t real_ns = 1700000000000000000LL, mono_ns = 1000000000LL;
static uint64_t rnd_state;
static volatile int rnd_on;

void shim_clock(int on, int64_t realtime_ns, int64_t monotonic_ns) { clock_on = on; real_ns = realtime_ns; mono_ns = monotonic_ns; }
void shim_clock_jump(int64_t d_real, int64_t d_mono) { real_ns += d_real; mono_ns += d_mono; }
int64_t shim_mono(void) { return mono_ns; }
void shim_random(int on, uint64_t seed) { rnd_on = on; rnd_state = seed * 2 + 1; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL("clock_gettime", int (*)(clockid_t, struct timespec *));
    if (!clock_on || inside || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return real(id, ts);
    real_ns += 1000; mono_ns += 1000;
    int64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) ? real_ns : mono_ns;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL("gettimeofday", int (*)(struct timeval *, void *));
    if (!clock_on || inside) return real(tv, tz);
    real_ns += 1000; mono_ns += 1000;
    tv->tv_sec = real_ns / 1000000000; tv->tv_usec = real_ns % 1000000000 / 1000;
    return 0;
}
time_t time(time_t *out) {
    REAL("time", time_t (*)(time_t *));
    if (!clock_on || inside) return real(out);
    if (out) *out = real_ns / 1000000000;
    return real_ns / 1000000000;
}
static void sim_sleep(int64_t ns) {
    real_ns += ns; mono_ns += ns;
    ask(OP_SLEEP, NULL, -1, (long)ns, 0);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    REAL("clock_nanosleep", int (*)(clockid_t, int, const struct timespec *, struct timespec *));
    if (!clock_on || inside) return real(id, flags, req, rem);
    int64_t t = (int64_t)req->tv_sec * 1000000000 + req->tv_nsec;
    if (flags & TIMER_ABSTIME) t -= (id == CLOCK_REALTIME) ? real_ns : mono_ns;
    sim_sleep(t > 0 ? t : 0);
    return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
    REAL("nanosleep", int (*)(const struct timespec *, struct timespec *));
    if (!clock_on || inside) return real(req, rem);
    sim_sleep((int64_t)req->tv_sec * 1000000000 + req->tv_nsec);
    return 0;
}
ssize_t getrandom(void *buf, size_t n, unsigned int flags) {
    REAL("getrandom", ssize_t (*)(void *, size_t, unsigned int));
    if (!rnd_on || inside) return real(buf, n, flags);
    for (size_t i = 0; i < n; i++) {
        rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17;
        ((unsigned char *)buf)[i] = (unsigned char)(rnd_state >> 24);
    }
    return (ssize_t)n;
}
__attribute__((constructor)) static void start(void) {
    const char *e = getenv("SIM_CLOCK");        /* restarted interpreters: begin at this second */
    if (e && *e) { clock_on = 1; real_ns = (int64_t)atoll(e) * 1000000000; }
}
