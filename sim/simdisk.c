/* LD_PRELOAD seam for file operations under one scratch directory.
 *
 * Every open/read/write/sync/rename/unlink/truncate/close that touches a path below the
 * root set with simdisk_root() is first shown to a callback, which decides what happens:
 * 0 pass, 1 fail with errno=arg, 2 short (perform arg bytes, report arg),
 * 3 suppress (report full success, perform nothing),
 * 4 torn (perform arg bytes, report full success).
 * Without a callback, or for any other path, the shim is a pass-through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_CLOSE, OP_READ, OP_WRITE, OP_SYNC, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_SEEK, OP_STAT };

typedef int (*simdisk_cb)(int op, int fd, const char *path, const char *path2,
                          long long n, int flags, long long *arg);

static simdisk_cb cb;
static char root[PATH_MAX];
static size_t root_len;
static __thread int inside;

#define MAXFD 4096
static char *fdpath[MAXFD];
static int fdlost[MAXFD];     /* errno of a buffered write that will not reach the disk */

void simdisk_root(const char *p) {
    if (!p || !*p) { root_len = 0; root[0] = 0; return; }
    strncpy(root, p, sizeof root - 1);
    root_len = strlen(root);
}
void simdisk_callback(simdisk_cb f) { cb = f; }
void simdisk_inside(int v) { inside = v; }

/* entropy: a function of the seed once one is set, else the kernel's */
static unsigned long long entropy;
void simdisk_entropy(unsigned long long s) { entropy = s; }

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int absolute(const char *p, char *out) {
    if (p[0] == '/') { strncpy(out, p, PATH_MAX - 1); out[PATH_MAX - 1] = 0; return 1; }
    if (!getcwd(out, PATH_MAX - 1)) return 0;
    size_t l = strlen(out);
    if (l + strlen(p) + 2 >= PATH_MAX) return 0;
    out[l] = '/';
    strcpy(out + l + 1, p);
    return 1;
}
static int under(const char *abs) {
    return root_len && strncmp(abs, root, root_len) == 0 && (abs[root_len] == '/' || abs[root_len] == 0);
}
static int live(void) { return cb && root_len && !inside; }

static int ask(int op, int fd, const char *p, const char *p2, long long n, int flags, long long *arg) {
    int e = errno, r;
    *arg = 0;
    inside = 1;
    r = cb(op, fd, p ? p : "", p2 ? p2 : "", n, flags, arg);
    inside = 0;
    errno = e;
    return r;
}
static void fdp_set(int fd, const char *p) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdlost[fd] = 0;
    fdpath[fd] = p ? strdup(p) : NULL;
}
static const char *fdp_get(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }
static const char *fd_resolve(int fd) {       /* for duplicated descriptors */
    const char *p = fdp_get(fd);
    if (p) return p;
    char l[64], b[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return NULL;
    b[n] = 0;
    if (!under(b)) return NULL;
    fdp_set(fd, b);
    return fdp_get(fd);
}

/* ---------------------------------------------------------------- open */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    REAL(int, openat64, int, const char *, int, ...);
    char abs[PATH_MAX];
    if (live() && path && (dirfd == AT_FDCWD || path[0] == '/') && absolute(path, abs) && under(abs)) {
        long long arg;
        int a = ask(OP_OPEN, -1, abs, NULL, 0, flags, &arg);
        if (a == 1) { errno = (int)arg; return -1; }
        if (a == 3) {       /* process is dead: hand out a descriptor that reaches nothing */
            int fd = real_openat64(AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
            fdp_set(fd, NULL);
            return fd;
        }
        int fd = real_openat64(dirfd, path, flags, mode);
        if (fd >= 0) { fdp_set(fd, abs); ask(OP_OPEN, fd, abs, NULL, 1, flags, &arg); }
        return fd;
    }
    int fd = real_openat64(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) fdp_set(fd, NULL);
    return fd;
}
#define GETMODE(flags, mode) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE(flags, m); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { GETMODE(flags, m); return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { GETMODE(flags, m); return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { GETMODE(flags, m); return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(const char *p, const char *m) {
    int f = 0;
    if (m[0] == 'r') f = strchr(m, '+') ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') f = (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else f = (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'e')) f |= O_CLOEXEC;
    if (strchr(m, 'x')) f |= O_EXCL;
    int fd = do_open(AT_FDCWD, p, f, 0666);
    if (fd < 0) return NULL;
    REAL(FILE *, fdopen, int, const char *);
    return real_fdopen(fd, m);
}
FILE *fopen(const char *p, const char *m) {
    char abs[PATH_MAX];
    REAL(FILE *, fopen, const char *, const char *);
    if (live() && absolute(p, abs) && under(abs)) return do_fopen(p, m);
    return real_fopen(p, m);
}
FILE *fopen64(const char *p, const char *m) {
    char abs[PATH_MAX];
    REAL(FILE *, fopen64, const char *, const char *);
    if (live() && absolute(p, abs) && under(abs)) return do_fopen(p, m);
    return real_fopen64(p, m);
}
int close(int fd) {
    REAL(int, close, int);
    const char *p = fdp_get(fd);
    if (p && live()) {
        char keep[PATH_MAX];
        long long arg;
        strncpy(keep, p, sizeof keep - 1); keep[sizeof keep - 1] = 0;
        int a = ask(OP_CLOSE, fd, keep, NULL, 0, 0, &arg);
        fdp_set(fd, NULL);
        int r = real_close(fd);
        if (a == 1) { errno = (int)arg; return -1; }
        return r;
    }
    if (p) fdp_set(fd, NULL);
    return real_close(fd);
}
int fclose(FILE *f) {
    REAL(int, fclose, FILE *);
    int fd = fileno(f);
    const char *p = fdp_get(fd);
    if (p && live()) {
        char keep[PATH_MAX];
        long long arg;
        strncpy(keep, p, sizeof keep - 1); keep[sizeof keep - 1] = 0;
        int a = ask(OP_CLOSE, fd, keep, NULL, 0, 0, &arg);
        int lost = fdlost[fd];
        fdp_set(fd, NULL);
        int r = real_fclose(f);
        if (lost) { errno = lost; return EOF; }
        if (a == 1) { errno = (int)arg; return EOF; }
        return r;
    }
    if (p) fdp_set(fd, NULL);
    return real_fclose(f);
}

/* ---------------------------------------------------------------- data */
static ssize_t real_w(int fd, const void *b, size_t n, off64_t off, int at) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    return at ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
}
static ssize_t do_write(int fd, const void *b, size_t n, off64_t off, int at) {
    const char *p = live() ? fd_resolve(fd) : NULL;
    if (p) {
        long long arg;
        int a = ask(OP_WRITE, fd, p, NULL, (long long)n, 0, &arg);
        if (a == 1) { errno = (int)arg; return -1; }
        if (a == 3) return (ssize_t)n;
        if (a == 2) return real_w(fd, b, arg < (long long)n ? (size_t)arg : n, off, at);
        if (a == 4) { if (arg > 0) real_w(fd, b, arg < (long long)n ? (size_t)arg : n, off, at); return (ssize_t)n; }
    }
    return real_w(fd, b, n, off, at);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!cb || inside) return real_w(fd, b, n, 0, 0);
    return do_write(fd, b, n, 0, 0);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!live() || !fd_resolve(fd)) return real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
size_t fwrite(const void *b, size_t s, size_t c, FILE *f) {
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
    const char *p = live() && s && c && f != stderr && f != stdout ? fd_resolve(fileno(f)) : NULL;
    if (p) {
        REAL(int, fflush, FILE *);
        long long arg, n = (long long)(s * c);
        int a = ask(OP_WRITE, fileno(f), p, NULL, n, 0, &arg);
        if (a == 1 && n < 4096 && fileno(f) < MAXFD) {   /* stdio buffers it: the error shows at the flush */
            fdlost[fileno(f)] = (int)arg;
            return c;
        }
        if (a == 1) { errno = (int)arg; return 0; }
        if (a == 3) return c;
        if (a == 2 || a == 4) {
            if (arg > n) arg = n;
            if (arg > 0) { real_fwrite(b, 1, (size_t)arg, f); real_fflush(f); }
            if (a == 4) return c;
            errno = ENOSPC;
            return (size_t)arg / s;
        }
        size_t r = real_fwrite(b, s, c, f);
        real_fflush(f);
        return r;
    }
    return real_fwrite(b, s, c, f);
}
int fflush(FILE *f) {
    REAL(int, fflush, FILE *);
    if (f && live()) {
        int fd = fileno(f);
        if (fd >= 0 && fd < MAXFD && fdlost[fd]) { errno = fdlost[fd]; return EOF; }
    }
    return real_fflush(f);
}
static ssize_t real_r(int fd, void *b, size_t n, off64_t off, int at) {
    REAL(ssize_t, read, int, void *, size_t);
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    return at ? real_pread64(fd, b, n, off) : real_read(fd, b, n);
}
static ssize_t do_read(int fd, void *b, size_t n, off64_t off, int at) {
    const char *p = live() ? fdp_get(fd) : NULL;
    if (p) {
        long long arg;
        int a = ask(OP_READ, fd, p, NULL, (long long)n, 0, &arg);
        if (a == 1) { errno = (int)arg; return -1; }
        if (a == 2 && arg < (long long)n) n = (size_t)arg;
    }
    return real_r(fd, b, n, off, at);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
size_t fread(void *b, size_t s, size_t c, FILE *f) {
    REAL(size_t, fread, void *, size_t, size_t, FILE *);
    const char *p = live() && s && c && f != stdin ? fd_resolve(fileno(f)) : NULL;
    if (p) {
        long long arg, n = (long long)(s * c);
        int a = ask(OP_READ, fileno(f), p, NULL, n, 0, &arg);
        if (a == 1) { errno = (int)arg; return 0; }
        if (a == 2) return real_fread(b, s, (size_t)arg / s < c ? (size_t)arg / s : c, f);
    }
    return real_fread(b, s, c, f);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    const char *p = live() ? fd_resolve(out) : NULL;
    if (p) {
        long long arg;
        int a = ask(OP_WRITE, out, p, NULL, (long long)n, 0, &arg);
        if (a == 1) { errno = (int)arg; return -1; }
        if (a == 3) return 0;
        if ((a == 2 || a == 4) && arg < (long long)n) { if (arg <= 0) return 0; n = (size_t)arg; }
    }
    return real_sendfile64(out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }

/* ---------------------------------------------------------------- durability and names */
#define SIMPLE_FD(name, op) \
    int name(int fd) { \
        REAL(int, name, int); \
        const char *p = live() ? fd_resolve(fd) : NULL; \
        if (p) { long long arg; int a = ask(op, fd, p, NULL, 0, 0, &arg); \
            if (a == 1) { errno = (int)arg; return -1; } \
            if (a >= 3) return 0; } \
        return real_##name(fd); \
    }
SIMPLE_FD(fsync, OP_SYNC)
SIMPLE_FD(fdatasync, OP_SYNC)
static int trunc_fd(int fd, off64_t n, int (*f)(int, off64_t)) {
    const char *p = live() ? fd_resolve(fd) : NULL;
    if (p) { long long arg; int a = ask(OP_TRUNC, fd, p, NULL, n, 0, &arg);
        if (a == 1) { errno = (int)arg; return -1; }
        if (a >= 3) return 0; }
    return f(fd, n);
}
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); return trunc_fd(fd, n, real_ftruncate64); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int two(const char *a, const char *b, int (*f)(const char *, const char *)) {
    char x[PATH_MAX], y[PATH_MAX];
    if (live() && absolute(a, x) && absolute(b, y) && (under(x) || under(y))) {
        long long arg;
        int r = ask(OP_RENAME, -1, x, y, 0, 0, &arg);
        if (r == 1) { errno = (int)arg; return -1; }
        if (r >= 3) return 0;
        r = f(a, b);
        if (r == 0) ask(OP_RENAME, -1, x, y, 1, 0, &arg);
        return r;
    }
    return f(a, b);
}
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); return two(a, b, real_rename); }
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if (d1 == AT_FDCWD && d2 == AT_FDCWD) return rename(a, b);
    return real_renameat(d1, a, d2, b);
}
static int one(const char *a, int (*f)(const char *)) {
    char x[PATH_MAX];
    if (live() && absolute(a, x) && under(x)) {
        long long arg;
        int r = ask(OP_UNLINK, -1, x, NULL, 0, 0, &arg);
        if (r == 1) { errno = (int)arg; return -1; }
        if (r >= 3) return 0;
        r = f(a);
        if (r == 0) ask(OP_UNLINK, -1, x, NULL, 1, 0, &arg);
        return r;
    }
    return f(a);
}
int unlink(const char *a) { REAL(int, unlink, const char *); return one(a, real_unlink); }
int remove(const char *a) { REAL(int, remove, const char *); return one(a, real_remove); }
int unlinkat(int d, const char *a, int fl) {
    REAL(int, unlinkat, int, const char *, int);
    if (d == AT_FDCWD && fl == 0) return unlink(a);
    return real_unlinkat(d, a, fl);
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    REAL(ssize_t, getrandom, void *, size_t, unsigned);
    if (!entropy) return real_getrandom(buf, n, flags);
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {        /* splitmix64 */
        unsigned long long z = (entropy += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        p[i] = (unsigned char)(z >> 56);
    }
    if (!entropy) entropy = 1;
    return (ssize_t)n;
}
