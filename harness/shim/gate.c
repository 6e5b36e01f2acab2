// Preloaded into a sender: every system call on a file named without a directory
// (the stored identity and whatever is used to store it) waits for permission.
// One byte is written to GATE_OUT before such a call, and one read from GATE_IN.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char tracked[4096];

static int mine(const char *p) { return p && *p && !strchr(p, '/'); }

static ssize_t raw(const char *name, int fd, void *b, size_t n) {
    ssize_t (*f)(int, void *, size_t) = dlsym(RTLD_NEXT, name);
    return f(fd, b, n);
}

static void gate(void) {
    static int in = -2, out = -2;
    if (in == -2) {
        const char *i = getenv("GATE_IN"), *o = getenv("GATE_OUT");
        in = i ? atoi(i) : -1;
        out = o ? atoi(o) : -1;
    }
    if (in < 0) return;
    int e = errno;
    char c = 'c';
    raw("write", out, &c, 1);
    while (raw("read", in, &c, 1) < 0 && errno == EINTR) {}
    errno = e;
}

static int opened(const char *p, int fd) {
    if (mine(p) && fd >= 0 && fd < 4096) tracked[fd] = 1;
    return fd;
}

#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
#define NEXT(r, name, ...) static r (*f)(__VA_ARGS__); if (!f) f = dlsym(RTLD_NEXT, #name)

int open(const char *p, int flags, ...) { MODE(flags) NEXT(int, open, const char *, int, ...); if (mine(p)) gate(); return opened(p, f(p, flags, mode)); }
int open64(const char *p, int flags, ...) { MODE(flags) NEXT(int, open64, const char *, int, ...); if (mine(p)) gate(); return opened(p, f(p, flags, mode)); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) NEXT(int, openat, int, const char *, int, ...); if (mine(p)) gate(); return opened(p, f(d, p, flags, mode)); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) NEXT(int, openat64, int, const char *, int, ...); if (mine(p)) gate(); return opened(p, f(d, p, flags, mode)); }
int creat(const char *p, mode_t m) { NEXT(int, creat, const char *, mode_t); if (mine(p)) gate(); return opened(p, f(p, m)); }

int link(const char *a, const char *b) { NEXT(int, link, const char *, const char *); if (mine(b)) gate(); return f(a, b); }
int linkat(int d, const char *a, int e, const char *b, int g) { NEXT(int, linkat, int, const char *, int, const char *, int); if (mine(b)) gate(); return f(d, a, e, b, g); }
int symlink(const char *a, const char *b) { NEXT(int, symlink, const char *, const char *); if (mine(b)) gate(); return f(a, b); }
int rename(const char *a, const char *b) { NEXT(int, rename, const char *, const char *); if (mine(b)) gate(); return f(a, b); }
int renameat(int d, const char *a, int e, const char *b) { NEXT(int, renameat, int, const char *, int, const char *); if (mine(b)) gate(); return f(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned g) { NEXT(int, renameat2, int, const char *, int, const char *, unsigned); if (mine(b)) gate(); return f(d, a, e, b, g); }
int unlink(const char *a) { NEXT(int, unlink, const char *); if (mine(a)) gate(); return f(a); }
int unlinkat(int d, const char *a, int g) { NEXT(int, unlinkat, int, const char *, int); if (mine(a)) gate(); return f(d, a, g); }
int truncate64(const char *a, off64_t n) { NEXT(int, truncate64, const char *, off64_t); if (mine(a)) gate(); return f(a, n); }
int mkdir(const char *a, mode_t m) { NEXT(int, mkdir, const char *, mode_t); if (mine(a)) gate(); return f(a, m); }

#define FD(fd) if ((fd) >= 0 && (fd) < 4096 && tracked[fd]) gate()
ssize_t write(int fd, const void *b, size_t n) { NEXT(ssize_t, write, int, const void *, size_t); FD(fd); return f(fd, b, n); }
ssize_t read(int fd, void *b, size_t n) { NEXT(ssize_t, read, int, void *, size_t); FD(fd); return f(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { NEXT(ssize_t, writev, int, const struct iovec *, int); FD(fd); return f(fd, v, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { NEXT(ssize_t, pwrite64, int, const void *, size_t, off64_t); FD(fd); return f(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { NEXT(ssize_t, pread64, int, void *, size_t, off64_t); FD(fd); return f(fd, b, n, o); }
int ftruncate64(int fd, off64_t n) { NEXT(int, ftruncate64, int, off64_t); FD(fd); return f(fd, n); }
int fsync(int fd) { NEXT(int, fsync, int); FD(fd); return f(fd); }
int close(int fd) { NEXT(int, close, int); if (fd >= 0 && fd < 4096) tracked[fd] = 0; return f(fd); }
