/* File system call shim for crash point and interleaving exploration.
 *
 * Preloaded into the check process.  Off until vs_crash() or vs_sched() is called.  Only calls
 * that concern regular files / directories below the given root count.
 *
 * crash mode:   effects (calls that change the file system) are numbered; before effect number
 *               `target` the process ends at once (_exit), or, for a write, after writing only
 *               `torn` bytes of it.  Each effect is logged to a file descriptor.
 * fault mode:   effects and reads are numbered and logged likewise; number `target` fails with
 *               `fault` (a write after `torn` bytes: it is short), and with `keep` every later one
 *               whose kind is among `kinds` fails as well.
 * sched mode:   before each effect and each read-type call the process asks a controller over a
 *               pipe and waits for the answer, so that a controller decides every interleaving.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, CRASH = 1, SCHED = 2, FAULT = 3 };
static int mode = OFF;
static long target = -1, torn = -1, count = 0;
static int fault = 0, keep = 0;
static char kinds[256];
static int logfd = -1, askfd = -1, gofd = -1;
static char root[PATH_MAX];
static size_t rootlen;
static __thread int inside = 0;

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static long raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }

void vs_off(void) { mode = OFF; }
long vs_count(void) { return count; }

static void set_root(const char *r) {
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
    count = 0;
}
void vs_crash(const char *r, long t, long k, int log) {
    set_root(r); target = t; torn = k; logfd = log; mode = CRASH;
}
void vs_fault(const char *r, long t, long k, int e, int kp, const char *ks, int log) {
    set_root(r); target = t; torn = k; fault = e; keep = kp; logfd = log;
    strncpy(kinds, ks, sizeof kinds - 1); mode = FAULT;
}
void vs_sched(const char *r, int ask, int go) {
    set_root(r); askfd = ask; gofd = go; mode = SCHED;
}

static int under(const char *p) {
    return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}

static int rel_path(int dirfd, const char *path, char *out) {
    char d[PATH_MAX];
    if (!path) return 0;
    if (path[0] == '/') { strncpy(out, path, PATH_MAX - 1); out[PATH_MAX - 1] = 0; return 1; }
    if (dirfd == AT_FDCWD) {
        if (syscall(SYS_getcwd, d, sizeof d) < 0) return 0;
    } else {
        char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t n = syscall(SYS_readlink, l, d, sizeof d - 1);
        if (n <= 0) return 0;
        d[n] = 0;
    }
    if (strlen(d) + strlen(path) + 2 > PATH_MAX) return 0;
    strcpy(out, d); strcat(out, "/"); strcat(out, path);
    return 1;
}

static int fd_path(int fd, char *out) {
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, l, out, PATH_MAX - 1);
    if (n <= 0) return 0;
    out[n] = 0;
    return 1;
}

static void die(void) { syscall(SYS_exit_group, 77); }

#define FAILS (-2)

/* returns the number of bytes to write before dying (or, in fault mode, at all), -1 to go on,
 * FAILS to fail with errno `fault` */
static long point(const char *kind, const char *path, size_t size, int effect) {
    if (mode == SCHED) {
        char line[PATH_MAX + 128];
        int n = snprintf(line, sizeof line, "%s\t%s\t%zu\n", kind, path, size);
        raw_write(askfd, line, n);
        char c;
        if (raw_read(gofd, &c, 1) != 1 || c == 'k') die();
        return -1;
    }
    if (!effect && mode != FAULT) return -1;
    long me = count++;
    if (logfd >= 0) {
        char line[PATH_MAX + 128];
        int n = snprintf(line, sizeof line, "%s\t%zu\t%s\n", kind, size, path);
        raw_write(logfd, line, n);
    }
    if (mode == FAULT) {
        if (target < 0 || me < target) return -1;
        if (me == target) return torn > 0 && size > 0 ? torn : FAILS;
        if (!keep) return -1;
        char k[64];
        snprintf(k, sizeof k, " %s ", kind);
        return strstr(kinds, k) ? FAILS : -1;
    }
    if (me == target) {
        if (torn > 0 && size > 0) return torn;
        die();
    }
    return -1;
}

#define ENTER (mode != OFF && !inside)
#define AT(kind, dirfd, path, size, effect) \
    if (ENTER) { inside = 1; char _p[PATH_MAX]; \
        long _r = -1; \
        if (rel_path(dirfd, path, _p) && under(_p)) _r = point(kind, _p, size, effect); \
        inside = 0; if (_r == FAILS) { errno = fault; return -1; } }

static int on_open(int dirfd, const char *path, int flags) {
    int e = (flags & (O_CREAT | O_TRUNC)) != 0;
    int w = (flags & O_ACCMODE) != O_RDONLY;
    if (flags & O_DIRECTORY) return 0;
    AT(e || w ? "open-w" : "open-r", dirfd, path, 0, e);
    return 0;
}

int open(const char *path, int flags, ...) {
    REAL(open); va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    if (on_open(AT_FDCWD, path, flags)) return -1;
    return real(path, flags, m);
}
int open64(const char *path, int flags, ...) {
    REAL(open64); va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    if (on_open(AT_FDCWD, path, flags)) return -1;
    return real(path, flags, m);
}
int openat(int d, const char *path, int flags, ...) {
    REAL(openat); va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    if (on_open(d, path, flags)) return -1;
    return real(d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
    REAL(openat64); va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    if (on_open(d, path, flags)) return -1;
    return real(d, path, flags, m);
}
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static long on_fd(const char *kind, int fd, size_t n, int effect) {
    long r = -1;
    if (ENTER && fd > 2 && fd != logfd && fd != askfd && fd != gofd) {
        inside = 1;
        char p[PATH_MAX];
        if (fd_path(fd, p) && under(p)) r = point(kind, p, n, effect);
        inside = 0;
    }
    return r;
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    long k = on_fd("write", fd, n, 1);
    if (k == FAILS) { errno = fault; return -1; }
    if (k >= 0 && mode == FAULT) n = (size_t)k < n ? (size_t)k : n;
    else if (k >= 0) { raw_write(fd, b, (size_t)k < n ? (size_t)k : n); die(); }
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite);
    long k = on_fd("write", fd, n, 1);
    if (k == FAILS) { errno = fault; return -1; }
    if (k >= 0 && mode == FAULT) n = (size_t)k < n ? (size_t)k : n;
    else if (k >= 0) { real(fd, b, (size_t)k < n ? (size_t)k : n, o); die(); }
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    long k = on_fd("write", fd, n, 1);
    if (k == FAILS) { errno = fault; return -1; }
    if (k >= 0 && mode == FAULT) n = (size_t)k < n ? (size_t)k : n;
    else if (k >= 0) { real(fd, b, (size_t)k < n ? (size_t)k : n, o); die(); }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    long k = on_fd("write", fd, n, 1);
    if (k == FAILS) { errno = fault; return -1; }
    if (k >= 0 && mode == CRASH) die();
    return real(fd, v, c);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(sendfile);
    long k = on_fd("write", o, n, 1);
    if (k == FAILS) { errno = fault; return -1; }
    if (k >= 0 && mode == FAULT) n = (size_t)k < n ? (size_t)k : n;
    else if (k >= 0) { real(o, i, off, (size_t)k < n ? (size_t)k : n); die(); }
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(sendfile64);
    long k = on_fd("write", o, n, 1);
    if (k == FAILS) { errno = fault; return -1; }
    if (k >= 0 && mode == FAULT) n = (size_t)k < n ? (size_t)k : n;
    else if (k >= 0) { real(o, i, off, (size_t)k < n ? (size_t)k : n); die(); }
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range);
    long k = on_fd("write", o, n, 1);
    if (k == FAILS) { errno = fault; return -1; }
    if (k >= 0 && mode == FAULT) n = (size_t)k < n ? (size_t)k : n;
    else if (k >= 0) { real(i, io, o, oo, (size_t)k < n ? (size_t)k : n, f); die(); }
    return real(i, io, o, oo, n, f);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if ((mode == SCHED || mode == FAULT) && on_fd("read", fd, n, 0) == FAILS) { errno = fault; return -1; }
    return real(fd, b, n);
}
int ftruncate(int fd, off_t l) { REAL(ftruncate); if (on_fd("truncate", fd, 0, 1) == FAILS) { errno = fault; return -1; } return real(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); if (on_fd("truncate", fd, 0, 1) == FAILS) { errno = fault; return -1; } return real(fd, l); }
int truncate(const char *p, off_t l) { REAL(truncate); AT("truncate", AT_FDCWD, p, 0, 1); return real(p, l); }
int truncate64(const char *p, off64_t l) { REAL(truncate64); AT("truncate", AT_FDCWD, p, 0, 1); return real(p, l); }
int rename(const char *a, const char *b) { REAL(rename); AT("rename", AT_FDCWD, b, 0, 1); return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); AT("rename", e, b, 0, 1); return real(d, a, e, b); }
int link(const char *a, const char *b) { REAL(link); AT("link", AT_FDCWD, b, 0, 1); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); AT("symlink", AT_FDCWD, b, 0, 1); return real(a, b); }
int unlink(const char *p) { REAL(unlink); AT("unlink", AT_FDCWD, p, 0, 1); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); AT("unlink", d, p, 0, 1); return real(d, p, f); }
int remove(const char *p) { REAL(remove); AT("unlink", AT_FDCWD, p, 0, 1); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); AT("mkdir", AT_FDCWD, p, 0, 1); return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); AT("mkdir", d, p, 0, 1); return real(d, p, m); }
int rmdir(const char *p) { REAL(rmdir); AT("rmdir", AT_FDCWD, p, 0, 1); return real(p); }
int chmod(const char *p, mode_t m) { REAL(chmod); AT("chmod", AT_FDCWD, p, 0, 1); return real(p, m); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    REAL(utimensat); AT("utime", d, p, 0, 1); return real(d, p, t, f);
}
int utimes(const char *p, const struct timeval t[2]) { REAL(utimes); AT("utime", AT_FDCWD, p, 0, 1); return real(p, t); }
int futimens(int fd, const struct timespec t[2]) { REAL(futimens); if (on_fd("utime", fd, 0, 1) == FAILS) { errno = fault; return -1; } return real(fd, t); }
int futimes(int fd, const struct timeval t[2]) { REAL(futimes); if (on_fd("utime", fd, 0, 1) == FAILS) { errno = fault; return -1; } return real(fd, t); }
