/* The operating system as the dump program sees it: preloaded, it decides the result of every
 * open, stat, read of the class file, every write to the output, and the hash seed.
 * The plan comes in the environment; what happened is written to descriptor SIM_LOGFD. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char target[512];
static int target_fd = -1;
static int logfd = -1;
static long reads[4096], writes[65536], opens[16], stats[16];
static int nreads, nwrites, nopens, nstats;
static int iread, iwrite, iopen, istat;
static unsigned long long seed = 1;
static int ready;

static long raw3(long n, long a, long b, long c)
{
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}

static void say(char what, long planned, long got)
{
    char b[64];
    int n;
    if (logfd < 0)
        return;
    n = snprintf(b, sizeof b, "%c %ld %ld\n", what, planned, got);
    raw3(SYS_write, logfd, (long)b, n);
}

static int numbers(const char *name, long *to, int max)
{
    const char *s = getenv(name);
    int n = 0;
    while (s && *s && n < max) {
        char *e;
        to[n++] = strtol(s, &e, 10);
        s = *e ? e + 1 : e;
    }
    return n;
}

__attribute__((constructor)) static void begin(void)
{
    const char *s = getenv("SIM_FILE");
    struct rlimit r = { 5, 6 };
    if (!s)
        return;
    strncpy(target, s, sizeof target - 1);
    s = getenv("SIM_LOGFD");
    if (s)
        logfd = atoi(s);
    s = getenv("SIM_SEED");
    if (s)
        seed = strtoull(s, 0, 10);
    nreads = numbers("SIM_READS", reads, 4096);
    nwrites = numbers("SIM_WRITES", writes, 65536);
    nopens = numbers("SIM_OPENS", opens, 16);
    nstats = numbers("SIM_STATS", stats, 16);
    setrlimit(RLIMIT_CPU, &r);
    ready = 1;
}

static int fail(long e)
{
    errno = (int)e;
    return -1;
}

static int do_open(const char *path, int flags, int mode)
{
    long fd, p = 0;
    int mine = ready && path && !strcmp(path, target);
    if (mine && iopen < nopens) {
        p = opens[iopen++];
        if (p < 0) {
            say('o', p, p);
            return fail(-p);
        }
    }
    fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (mine) {
        target_fd = (int)fd;
        say('o', p, fd < 0 ? -1 : 0);
    }
    return (int)fd;
}

#define OPEN_BODY                                   \
    va_list ap;                                     \
    int mode;                                       \
    va_start(ap, flags);                            \
    mode = va_arg(ap, int);                         \
    va_end(ap);                                     \
    return do_open(path, flags, mode)

int open(const char *path, int flags, ...) { OPEN_BODY; }
int open64(const char *path, int flags, ...) { OPEN_BODY; }
int openat(int dir, const char *path, int flags, ...)
{
    va_list ap;
    int mode;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
    if (dir == AT_FDCWD || *path == '/')
        return do_open(path, flags, mode);
    return (int)syscall(SYS_openat, dir, path, flags, mode);
}
int openat64(int dir, const char *path, int flags, ...)
{
    va_list ap;
    int mode;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
    return openat(dir, path, flags, mode);
}

static long plan_read(size_t *n)
{
    long p = iread < nreads ? reads[iread] : 0;
    iread++;
    if (p > 0 && (size_t)p < *n)
        *n = (size_t)p;
    return p;
}

ssize_t read(int fd, void *b, size_t n)
{
    long r, p;
    if (!ready || fd != target_fd || n == 0)
        return syscall(SYS_read, fd, b, n);
    p = plan_read(&n);
    if (p == -1000) { /* an early end of file */
        say('r', p, 0);
        return 0;
    }
    if (p < 0) {
        say('r', p, p);
        return fail(-p);
    }
    r = syscall(SYS_read, fd, b, n);
    say('r', p, r);
    return r;
}

ssize_t readv(int fd, const struct iovec *v, int k)
{
    int i;
    if (!ready || fd != target_fd)
        return syscall(SYS_readv, fd, v, k);
    for (i = 0; i < k; i++)
        if (v[i].iov_len)
            return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

static off_t preads(int fd, void *b, size_t n, off_t at)
{
    long p, r;
    if (!ready || fd != target_fd || n == 0)
        return syscall(SYS_pread64, fd, b, n, at);
    p = plan_read(&n);
    if (p == -1000) {
        say('r', p, 0);
        return 0;
    }
    if (p < 0) {
        say('r', p, p);
        return fail(-p);
    }
    r = syscall(SYS_pread64, fd, b, n, at);
    say('r', p, r);
    return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t at) { return preads(fd, b, n, at); }
ssize_t pread64(int fd, void *b, size_t n, off64_t at) { return preads(fd, b, n, at); }

ssize_t write(int fd, const void *b, size_t n)
{
    long r, p;
    if (!ready || fd != 1 || n == 0)
        return syscall(SYS_write, fd, b, n);
    p = iwrite < nwrites ? writes[iwrite] : (nwrites && writes[nwrites - 1] < -4 ? writes[nwrites - 1] : 0);
    iwrite++;
    if (p < 0) {
        say('w', p, p);
        return fail(-p);
    }
    if (p > 0 && (size_t)p < n)
        n = (size_t)p;
    r = syscall(SYS_write, fd, b, n);
    if (p)
        say('w', p, r);
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int k)
{
    int i;
    if (!ready || fd != 1)
        return syscall(SYS_writev, fd, v, k);
    for (i = 0; i < k; i++)
        if (v[i].iov_len)
            return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

/* 0: as it is; negative: fails; otherwise: claims this size */
static long plan_stat(void)
{
    long p = istat < nstats ? stats[istat] : 0;
    istat++;
    return p;
}

int statx(int dir, const char *path, int flags, unsigned int mask, struct statx *st)
{
    long r, p;
    if (!ready || dir != target_fd || target_fd < 0)
        return (int)syscall(SYS_statx, dir, path, flags, mask, st);
    p = plan_stat();
    if (p < 0) {
        say('s', p, p);
        return fail(-p);
    }
    r = syscall(SYS_statx, dir, path, flags, mask, st);
    if (r == 0 && p > 0)
        st->stx_size = (unsigned long long)p;
    say('s', p, r);
    return (int)r;
}
static int do_fstat(int fd, struct stat *st)
{
    long r, p;
    if (!ready || fd != target_fd || target_fd < 0)
        return (int)syscall(SYS_fstat, fd, st);
    p = plan_stat();
    if (p < 0) {
        say('s', p, p);
        return fail(-p);
    }
    r = syscall(SYS_fstat, fd, st);
    if (r == 0 && p > 0)
        st->st_size = p;
    say('s', p, r);
    return (int)r;
}
int fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
int fstat64(int fd, struct stat64 *st) { return do_fstat(fd, (struct stat *)st); }

ssize_t getrandom(void *b, size_t n, unsigned int flags)
{
    size_t i;
    unsigned long long z;
    (void)flags;
    if (!ready)
        return syscall(SYS_getrandom, b, n, flags);
    for (i = 0; i < n; i++) {
        seed += 0x9E3779B97F4A7C15ull;
        z = seed;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        ((unsigned char *)b)[i] = (unsigned char)(z ^ (z >> 31));
    }
    return (ssize_t)n;
}
