/* Counts the file operations of this process on files below a directory, and makes the
 * k-th one fail, or kills or interrupts the process there. Loaded with LD_PRELOAD. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/sendfile.h>
#include <unistd.h>

enum { OFF, COUNT, FAIL, FAIL_WRITES_FROM, KILL, TORN_KILL, SIGNAL, SHORT };
static int mode = OFF, err = EIO;
static long target = -1, counter = 0;
static long fired = 0;
static char prefix[PATH_MAX];
static size_t prefix_len;
static unsigned char tracked[4096];
static char trace[1 << 16];
static size_t trace_len;

void vmon_arm(const char *p, int m, long k, int e) {
    strncpy(prefix, p, sizeof prefix - 1);
    prefix_len = strlen(prefix);
    counter = 0; target = k; err = e; fired = 0; trace_len = 0; trace[0] = 0;
    memset(tracked, 0, sizeof tracked);
    mode = m;
}
long vmon_count(void) { return counter; }
long vmon_fired(void) { return fired; }
const char *vmon_trace(void) { return trace; }
void vmon_disarm(void) { mode = OFF; }

static int mine(int dirfd, const char *path) {
    if (mode == OFF || !path) return 0;
    if (path[0] == '/') return !strncmp(path, prefix, prefix_len);
    char buf[PATH_MAX];
    if (dirfd == AT_FDCWD) {
        if (!getcwd(buf, sizeof buf)) return 0;
    } else {
        char link[64];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(link, buf, sizeof buf - 1);
        if (n < 0) return 0;
        buf[n] = 0;
    }
    return !strncmp(buf, prefix, prefix_len);
}
static int minefd(int fd) { return mode != OFF && fd >= 0 && fd < 4096 && tracked[fd]; }

/* 0: go on; 1: fail with errno set; 2: do half of it, then die; 3: do half of it */
static int hit(char what, int writes) {
    long k = counter++;
    if (trace_len < sizeof trace - 2) { trace[trace_len++] = what; trace[trace_len] = 0; }
    if (mode == COUNT || k < target) return 0;
    if (mode == FAIL_WRITES_FROM) {
        if (!writes) return 0;
        fired++; errno = err; return 1;
    }
    if (k != target) return 0;
    fired++;
    switch (mode) {
    case FAIL: errno = err; return 1;
    case KILL: kill(getpid(), SIGKILL); pause(); return 0;
    case TORN_KILL:
        if (what == 'w') return 2;
        kill(getpid(), SIGKILL); pause(); return 0;
    case SIGNAL: raise(SIGINT); return 0;
    case SHORT: return what == 'w' || what == 'r' ? 3 : 0;
    }
    return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, name)

static int do_open(const char *name, int dirfd, const char *path, int flags, mode_t m, int at) {
    int my = mine(dirfd, path);
    if (my && hit((flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? 'O' : 'o',
                  flags & (O_CREAT | O_TRUNC)) == 1) return -1;
    int fd;
    if (at) { int (*real)(int, const char *, int, ...) = dlsym(RTLD_NEXT, name); fd = real(dirfd, path, flags, m); }
    else { int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, name); fd = real(path, flags, m); }
    if (fd >= 0 && fd < 4096) tracked[fd] = my;
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open("open", AT_FDCWD, path, flags, m, 0); }
int open64(const char *path, int flags, ...) { MODE return do_open("open64", AT_FDCWD, path, flags, m, 0); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open("openat", d, path, flags, m, 1); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open("openat64", d, path, flags, m, 1); }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (minefd(fd)) {
        int h = hit('w', 1);
        if (h == 1) return -1;
        if (h == 2) { real(fd, b, n / 2); kill(getpid(), SIGKILL); pause(); }
        if (h == 3 && n > 1) n = n / 2;
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (minefd(fd) && hit('w', 1) == 1) return -1;
    return real(fd, b, n, o);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (minefd(fd)) {
        int h = hit('r', 0);
        if (h == 1) return -1;
        if (h == 3 && n > 1) n = n / 2;
    }
    return real(fd, b, n);
}
off64_t lseek64(int fd, off64_t o, int w) {
    REAL(off64_t, "lseek64", int, off64_t, int);
    return real(fd, o, w);
}
int close(int fd) {
    REAL(int, "close", int);
    if (minefd(fd)) {
        int h = hit('c', 0);
        tracked[fd] = 0;
        if (h == 1) { int e = errno; real(fd); errno = e; return -1; }
    }
    return real(fd);
}
int fsync(int fd) { REAL(int, "fsync", int); if (minefd(fd) && hit('f', 1) == 1) return -1; return real(fd); }
int ftruncate64(int fd, off64_t l) { REAL(int, "ftruncate64", int, off64_t); if (minefd(fd) && hit('t', 1) == 1) return -1; return real(fd, l); }
int ftruncate(int fd, off_t l) { REAL(int, "ftruncate", int, off_t); if (minefd(fd) && hit('t', 1) == 1) return -1; return real(fd, l); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (minefd(o) && hit('w', 1) == 1) return -1;
    return real(o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (minefd(o) && hit('w', 1) == 1) return -1;
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (minefd(o) && hit('w', 1) == 1) return -1;
    return real(i, io, o, oo, n, f);
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *);
    if ((mine(AT_FDCWD, a) || mine(AT_FDCWD, b)) && hit('R', 0) == 1) return -1;
    return real(a, b);
}
int renameat(int d, const char *a, int e, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if ((mine(d, a) || mine(e, b)) && hit('R', 0) == 1) return -1;
    return real(d, a, e, b);
}
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
    if ((mine(d, a) || mine(e, b)) && hit('R', 0) == 1) return -1;
    return real(d, a, e, b, f);
}
int link(const char *a, const char *b) {
    REAL(int, "link", const char *, const char *);
    if (mine(AT_FDCWD, b) && hit('L', 0) == 1) return -1;
    return real(a, b);
}
int unlink(const char *a) {
    REAL(int, "unlink", const char *);
    if (mine(AT_FDCWD, a) && hit('U', 0) == 1) return -1;
    return real(a);
}
int unlinkat(int d, const char *a, int f) {
    REAL(int, "unlinkat", int, const char *, int);
    if (mine(d, a) && hit('U', 0) == 1) return -1;
    return real(d, a, f);
}
int mkdir(const char *a, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    if (mine(AT_FDCWD, a) && hit('M', 1) == 1) return -1;
    return real(a, m);
}
