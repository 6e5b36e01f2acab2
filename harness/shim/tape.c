// Preloaded into the harness: records every system call that changes a file below
// TAPE_DIR, in order, in the file TAPE_LOG:
//   open PATH LEN       opened for writing; LEN is its length afterwards
//   write PATH OFF HEX  the bytes that were written, at OFF
//   size PATH LEN       ftruncate and the like
//   move PATH PATH      renamed or linked to another name
//   gone PATH
//   other PATH WHAT     a change this does not know how to record
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define NEXT(r, name, ...) static r (*f)(__VA_ARGS__); if (!f) f = dlsym(RTLD_NEXT, #name)
#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }

static char *path_of[4096];

static void emit(const char *s, size_t n) {
    static int fd = -1;
    NEXT(ssize_t, write, int, const void *, size_t);
    if (fd < 0) {
        static int (*o)(const char *, int, ...);
        if (!o) o = dlsym(RTLD_NEXT, "open");
        fd = o(getenv("TAPE_LOG"), O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (fd >= 0) { int g = fcntl(fd, F_DUPFD, 1000); fd = g; }
    }
    while (n) { ssize_t w = f(fd, s, n); if (w <= 0) _exit(97); s += w; n -= w; }
}
static void say(const char *fmt, ...) {
    char b[3 * PATH_MAX];
    va_list a; va_start(a, fmt);
    int n = vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    emit(b, n);
}

static int below(const char *p) { const char *d = getenv("TAPE_DIR"); return d && getenv("TAPE_LOG") && !strncmp(p, d, strlen(d)); }
static int real(const char *p, char *out) {      // of a file that may not exist
    if (!p) return 0;
    if (realpath(p, out)) return below(out);
    char b[PATH_MAX]; strncpy(b, p, sizeof b - 1); b[sizeof b - 1] = 0;
    char *s = strrchr(b, '/'), dir[PATH_MAX];
    if (!realpath(s ? (s == b ? "/" : (*s = 0, b)) : ".", dir)) return 0;
    snprintf(out, PATH_MAX, "%s/%s", dir, s ? s + 1 : p);
    return below(out);
}

static int opened(int fd, int flags) {
    int e = errno;
    if (fd >= 0 && fd < 4096) {
        free(path_of[fd]);
        path_of[fd] = 0;
        if (flags & (O_WRONLY | O_RDWR)) {
            char l[64], b[PATH_MAX];
            snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
            ssize_t n = readlink(l, b, sizeof b - 1);
            if (n > 0) {
                b[n] = 0;
                if (below(b)) { struct stat st; path_of[fd] = strdup(b); fstat(fd, &st); say("open %s %ld\n", b, (long)st.st_size); }
            }
        }
    }
    errno = e;
    return fd;
}
int open(const char *p, int flags, ...) { MODE(flags) NEXT(int, open, const char *, int, ...); return opened(f(p, flags, mode), flags); }
int open64(const char *p, int flags, ...) { MODE(flags) NEXT(int, open64, const char *, int, ...); return opened(f(p, flags, mode), flags); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) NEXT(int, openat, int, const char *, int, ...); return opened(f(d, p, flags, mode), flags); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) NEXT(int, openat64, int, const char *, int, ...); return opened(f(d, p, flags, mode), flags); }
int creat(const char *p, mode_t m) { NEXT(int, creat, const char *, mode_t); return opened(f(p, m), O_WRONLY); }

static int mine(int fd) { return fd >= 0 && fd < 4096 && path_of[fd]; }
static long where(int fd) {
    if (fcntl(fd, F_GETFL) & O_APPEND) { struct stat st; fstat(fd, &st); return st.st_size; }
    return lseek(fd, 0, SEEK_CUR);
}
static void bytes(const unsigned char *b, size_t n) {
    char *h = malloc(2 * n + 1);
    for (size_t i = 0; i < n; i++) { h[2*i] = "0123456789abcdef"[b[i] >> 4]; h[2*i+1] = "0123456789abcdef"[b[i] & 15]; }
    emit(h, 2 * n);
    free(h);
}
static void wrote(int fd, long off, const void *b, ssize_t n) {
    int e = errno;
    if (n > 0) { say("write %s %ld ", path_of[fd], off); bytes(b, n); emit("\n", 1); }
    errno = e;
}
static void wrotev(int fd, long off, const struct iovec *v, int c, ssize_t n) {
    for (int i = 0; i < c && n > 0; i++) { ssize_t k = (ssize_t)v[i].iov_len < n ? (ssize_t)v[i].iov_len : n; wrote(fd, off, v[i].iov_base, k); off += k; n -= k; }
}
ssize_t write(int fd, const void *b, size_t n) { NEXT(ssize_t, write, int, const void *, size_t); if (!mine(fd)) return f(fd, b, n); long o = where(fd); ssize_t r = f(fd, b, n); wrote(fd, o, b, r); return r; }
ssize_t writev(int fd, const struct iovec *v, int n) { NEXT(ssize_t, writev, int, const struct iovec *, int); if (!mine(fd)) return f(fd, v, n); long o = where(fd); ssize_t r = f(fd, v, n); wrotev(fd, o, v, n, r); return r; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { NEXT(ssize_t, pwrite, int, const void *, size_t, off_t); ssize_t r = f(fd, b, n, o); if (mine(fd)) wrote(fd, o, b, r); return r; }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { NEXT(ssize_t, pwrite64, int, const void *, size_t, off64_t); ssize_t r = f(fd, b, n, o); if (mine(fd)) wrote(fd, o, b, r); return r; }
static void sized(int fd) { if (mine(fd)) { struct stat st; fstat(fd, &st); say("size %s %ld\n", path_of[fd], (long)st.st_size); } }
int ftruncate(int fd, off_t n) { NEXT(int, ftruncate, int, off_t); int r = f(fd, n); sized(fd); return r; }
int ftruncate64(int fd, off64_t n) { NEXT(int, ftruncate64, int, off64_t); int r = f(fd, n); sized(fd); return r; }
static void other(int fd, const char *w) { if (mine(fd)) say("other %s %s\n", path_of[fd], w); }
int fallocate(int fd, int m, off_t o, off_t n) { NEXT(int, fallocate, int, int, off_t, off_t); int r = f(fd, m, o, n); sized(fd); return r; }
int fallocate64(int fd, int m, off64_t o, off64_t n) { NEXT(int, fallocate64, int, int, off64_t, off64_t); int r = f(fd, m, o, n); sized(fd); return r; }
int posix_fallocate(int fd, off_t o, off_t n) { NEXT(int, posix_fallocate, int, off_t, off_t); int r = f(fd, o, n); sized(fd); return r; }
int posix_fallocate64(int fd, off64_t o, off64_t n) { NEXT(int, posix_fallocate64, int, off64_t, off64_t); int r = f(fd, o, n); sized(fd); return r; }
ssize_t copy_file_range(int a, off64_t *p, int b, off64_t *q, size_t n, unsigned g) { NEXT(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); other(b, "copy_file_range"); return f(a, p, b, q, n, g); }
ssize_t sendfile64(int b, int a, off64_t *p, size_t n) { NEXT(ssize_t, sendfile64, int, int, off64_t *, size_t); other(b, "sendfile"); return f(b, a, p, n); }
ssize_t splice(int a, off64_t *p, int b, off64_t *q, size_t n, unsigned g) { NEXT(ssize_t, splice, int, off64_t *, int, off64_t *, size_t, unsigned); other(b, "splice"); return f(a, p, b, q, n, g); }
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) { NEXT(void *, mmap, void *, size_t, int, int, int, off_t); if ((prot & PROT_WRITE) && (flags & MAP_SHARED) && fd >= 0) other(fd, "mmap"); return f(a, n, prot, flags, fd, o); }
int close(int fd) { NEXT(int, close, int); if (mine(fd)) { free(path_of[fd]); path_of[fd] = 0; } return f(fd); }

static void moved(const char *a, const char *b, int r) { char x[PATH_MAX], y[PATH_MAX]; if (r == 0) { int p = real(a, x), q = real(b, y); if (p || q) say("move %s %s\n", x, y); } }
static void gone(const char *a, int r) { char x[PATH_MAX]; if (r == 0 && real(a, x)) say("gone %s\n", x); }
int rename(const char *a, const char *b) { NEXT(int, rename, const char *, const char *); int r = f(a, b); moved(a, b, r); return r; }
int renameat(int d, const char *a, int e, const char *b) { NEXT(int, renameat, int, const char *, int, const char *); int r = f(d, a, e, b); moved(a, b, r); return r; }
int renameat2(int d, const char *a, int e, const char *b, unsigned g) { NEXT(int, renameat2, int, const char *, int, const char *, unsigned); int r = f(d, a, e, b, g); moved(a, b, r); return r; }
int link(const char *a, const char *b) { NEXT(int, link, const char *, const char *); int r = f(a, b); moved(a, b, r); return r; }
int linkat(int d, const char *a, int e, const char *b, int g) { NEXT(int, linkat, int, const char *, int, const char *, int); int r = f(d, a, e, b, g); moved(a, b, r); return r; }
int unlink(const char *a) { NEXT(int, unlink, const char *); int r = f(a); gone(a, r); return r; }
int unlinkat(int d, const char *a, int g) { NEXT(int, unlinkat, int, const char *, int); int r = f(d, a, g); gone(a, r); return r; }
int truncate(const char *a, off_t n) { NEXT(int, truncate, const char *, off_t); int r = f(a, n); char x[PATH_MAX]; if (r == 0 && real(a, x)) say("size %s %ld\n", x, (long)n); return r; }
int truncate64(const char *a, off64_t n) { NEXT(int, truncate64, const char *, off64_t); int r = f(a, n); char x[PATH_MAX]; if (r == 0 && real(a, x)) say("size %s %ld\n", x, (long)n); return r; }
