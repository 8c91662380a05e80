/* Preloaded into the tool by the K10 check: divides and fails its file accesses below VH_IO_DIR.
 * VH_IO="pieces kind nth errno seconds": reads and writes move at most `pieces` bytes (0: as asked); access number `nth`
 * of the kind (r read, w write, o opening for writing, 0 none) fails with `errno`, or kills the process if that is 0;
 * the clock is off by `seconds`. Numbers of accesses go to the file VH_IO_LOG when the process ends. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static char dir[4096], logfile[4096];
static size_t dirlen, pieces;
static char kind;
static long nth, seconds;
static int err;
static atomic_long reads, writes, opens, clocks;

__attribute__((constructor)) static void start(void) {
    const char *d = getenv("VH_IO_DIR"), *l = getenv("VH_IO_LOG"), *v = getenv("VH_IO");
    if (!d || !l || !v) return;
    snprintf(logfile, sizeof logfile, "%s", l);
    if (sscanf(v, "%zu %c %ld %d %ld", &pieces, &kind, &nth, &err, &seconds) != 5) _exit(99);
    snprintf(dir, sizeof dir, "%s/", d);
    dirlen = strlen(dir);
}

__attribute__((destructor)) static void end(void) {
    char b[200];
    if (!dirlen) return;
    int n = snprintf(b, sizeof b, "%ld %ld %ld %ld", reads, writes, opens, clocks);
    int fd = syscall(SYS_openat, AT_FDCWD, logfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) syscall(SYS_write, fd, b, n), syscall(SYS_close, fd);
}

static int mine(int fd) {
    char link[40], to[4200];
    if (!dirlen) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, to, sizeof to);
    return n > (ssize_t)dirlen && !memcmp(to, dir, dirlen);
}

/* does this access fail? */
static int fault(char k, atomic_long *count) {
    long c = atomic_fetch_add(count, 1) + 1;
    if (k != kind || c != nth) return 0;
    if (!err) syscall(SYS_kill, getpid(), SIGKILL);
    errno = err;
    return 1;
}

static size_t piece(size_t n) { return pieces && n > pieces ? pieces : n; }

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (!mine(fd)) return real(fd, b, n);
    return fault('r', &reads) ? -1 : real(fd, b, piece(n));
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!mine(fd)) return real(fd, b, n);
    return fault('w', &writes) ? -1 : real(fd, b, piece(n));
}

ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    REAL(pread64);
    if (!mine(fd)) return real(fd, b, n, o);
    return fault('r', &reads) ? -1 : real(fd, b, piece(n), o);
}

ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite64);
    if (!mine(fd)) return real(fd, b, n, o);
    return fault('w', &writes) ? -1 : real(fd, b, piece(n), o);
}

ssize_t readv(int fd, const struct iovec *v, int n) {
    REAL(readv);
    if (!mine(fd)) return real(fd, v, n);
    if (fault('r', &reads)) return -1;
    if (!pieces) return real(fd, v, n);
    while (n > 0 && !v->iov_len) v++, n--;
    if (!n) return 0;
    struct iovec one = {v->iov_base, piece(v->iov_len)};
    return real(fd, &one, 1);
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    if (!mine(fd)) return real(fd, v, n);
    if (fault('w', &writes)) return -1;
    if (!pieces) return real(fd, v, n);
    while (n > 0 && !v->iov_len) v++, n--;
    if (!n) return 0;
    struct iovec one = {v->iov_base, piece(v->iov_len)};
    return real(fd, &one, 1);
}

/* opening for writing, by a path relative to the folder or below it */
static int open_fault(const char *p, int flags) {
    if (!dirlen || (flags & O_ACCMODE) == O_RDONLY) return 0;
    if (*p == '/' && strncmp(p, dir, dirlen)) return 0;
    return fault('o', &opens);
}

#define OPEN(name)                                              \
    int name(const char *p, int flags, ...) {                   \
        static int (*real)(const char *, int, ...);             \
        if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #name); \
        va_list a;                                              \
        va_start(a, flags);                                     \
        mode_t m = va_arg(a, mode_t);                           \
        va_end(a);                                              \
        return open_fault(p, flags) ? -1 : real(p, flags, m);   \
    }
OPEN(open)
OPEN(open64)

#define OPENAT(name)                                            \
    int name(int d, const char *p, int flags, ...) {            \
        static int (*real)(int, const char *, int, ...);        \
        if (!real) real = (int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, #name); \
        va_list a;                                              \
        va_start(a, flags);                                     \
        mode_t m = va_arg(a, mode_t);                           \
        va_end(a);                                              \
        return open_fault(p, flags) ? -1 : real(d, p, flags, m); \
    }
OPENAT(openat)
OPENAT(openat64)

int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(clock_gettime);
    int r = real(c, t);
    if (dirlen && !r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += seconds, atomic_fetch_add(&clocks, 1);
    return r;
}

int gettimeofday(struct timeval *t, void *z) {
    static int (*real)(struct timeval *, void *);
    if (!real) real = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday");
    int r = real(t, z);
    if (dirlen && !r) t->tv_sec += seconds, atomic_fetch_add(&clocks, 1);
    return r;
}

time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
