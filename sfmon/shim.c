/*
 * Preloaded into the process which saves.  It counts the calls which change
 * anything below one directory and, once armed, makes the nth one go wrong.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, COUNT, KILL, ERR, TEAR_KILL, SHORT_ERR, FULL };

static char dir[PATH_MAX];
static size_t dirlen;
static int mode = OFF, at, err, count, fired;
static char fds[65536];
static char ops[4096];

void sfmon_arm(const char *d, int m, int n, int e) {
    strncpy(dir, d, sizeof dir-1);
    dirlen = strlen(dir);
    mode = m; at = n; err = e; count = 0; fired = 0; ops[0] = 0;
    memset(fds, 0, sizeof fds);
}
int sfmon_disarm(void) { mode = OFF; return count; }
int sfmon_fired(void) { return fired; }
const char *sfmon_ops(void) { return ops; }

static int below(const char *path) {
    if (mode==OFF || !path) return 0;
    if (path[0]=='/')
        return strncmp(path, dir, dirlen)==0 && (path[dirlen]=='/' || path[dirlen]==0);
    /* relative: we only run with the directory as the current one if this matters */
    char cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    return strncmp(cwd, dir, dirlen)==0;
}

/* 0: go on.  1: fail with errno.  2: do half, then die.  3: do half, then fail */
static int event(const char *what, int is_write) {
    if (mode==OFF) return 0;
    count++;
    if (strlen(ops)+strlen(what)+2<sizeof ops) { strcat(ops, what); strcat(ops, " "); }
    if (mode==COUNT) return 0;
    if (mode==FULL) {
        if (count>=at && is_write>=0) { fired = 1; errno = ENOSPC; return 1; }
        return 0;
    }
    if (count!=at) return 0;
    fired = 1;
    if (mode==KILL) syscall(SYS_exit_group, 137);
    if (mode==TEAR_KILL) { if (is_write==1) return 2; syscall(SYS_exit_group, 137); }
    if (mode==SHORT_ERR && is_write==1) return 3;
    errno = err;
    return 1;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    REAL(int, name, const char *, int, ...); \
    mode_t m = 0; \
    if (flags & (O_CREAT|O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    int watch = below(path) && (flags & (O_WRONLY|O_RDWR|O_CREAT|O_TRUNC)); \
    if (watch && event((flags & O_TRUNC) ? "open-truncating" : "open", 0)) return -1; \
    int fd = real(path, flags, m); \
    if (watch && fd>=0 && fd<65536) fds[fd] = 1; \
    return fd; \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int d, const char *path, int flags, ...) { \
    REAL(int, name, int, const char *, int, ...); \
    mode_t m = 0; \
    if (flags & (O_CREAT|O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    int watch = below(path) && (flags & (O_WRONLY|O_RDWR|O_CREAT|O_TRUNC)); \
    if (watch && event("openat", 0)) return -1; \
    int fd = real(d, path, flags, m); \
    if (watch && fd>=0 && fd<65536) fds[fd] = 1; \
    return fd; \
}
OPENAT(openat)
OPENAT(openat64)

static int tracked(int fd) { return mode!=OFF && fd>=0 && fd<65536 && fds[fd]; }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (tracked(fd)) {
        switch (event("write", 1)) {
        case 1: return -1;
        case 2: real(fd, buf, n/2); syscall(SYS_exit_group, 137);
        case 3: at++; mode = ERR; err = ENOSPC; return real(fd, buf, n/2);
        }
    }
    return real(fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (tracked(fd) && event("pwrite", 1)) return -1;
    return real(fd, buf, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (tracked(fd) && event("writev", 1)) return -1;
    return real(fd, v, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    if (tracked(out) && event("sendfile", 1)) return -1;
    return real(out, in, o, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (tracked(out) && event("copy_file_range", 1)) return -1;
    return real(in, oi, out, oo, n, f);
}
int close(int fd) {
    REAL(int, close, int);
    if (tracked(fd)) {
        int e = event("close", -1);
        fds[fd] = 0;
        if (e) { int k = errno; real(fd); errno = k; return -1; }
    }
    return real(fd);
}
int fsync(int fd) {
    REAL(int, fsync, int);
    if (tracked(fd) && event("fsync", 0)) return -1;
    return real(fd);
}
int fdatasync(int fd) {
    REAL(int, fdatasync, int);
    if (tracked(fd) && event("fdatasync", 0)) return -1;
    return real(fd);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t);
    if (tracked(fd) && event("ftruncate", 0)) return -1;
    return real(fd, n);
}
int fchmod(int fd, mode_t m) {
    REAL(int, fchmod, int, mode_t);
    if (tracked(fd) && event("fchmod", -1)) return -1;
    return real(fd, m);
}
#define PATH1(name, sig, call) \
int name sig { \
    static int (*real) sig; \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (below(path) && event(#name, -1)) return -1; \
    return real call; \
}
PATH1(unlink, (const char *path), (path))
PATH1(chmod, (const char *path, mode_t m), (path, m))
PATH1(truncate64, (const char *path, off64_t n), (path, n))
PATH1(remove, (const char *path), (path))
PATH1(unlinkat, (int d, const char *path, int f), (d, path, f))
PATH1(fchmodat, (int d, const char *path, mode_t m, int f), (d, path, m, f))
PATH1(utimensat, (int d, const char *path, const struct timespec t[2], int f), (d, path, t, f))
PATH1(symlink, (const char *o, const char *path), (o, path))
PATH1(link, (const char *o, const char *path), (o, path))
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if ((below(a) || below(b)) && event("rename", 0)) return -1;
    return real(a, b);
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if ((below(a) || below(b)) && event("renameat", 0)) return -1;
    return real(da, a, db, b);
}
