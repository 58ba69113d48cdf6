/* Counts the file operations below given directories; at the chosen one the
   process dies (before it, or after half of a write), or the operation fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 4096
static char dirs[2][PATH_MAX];
static int mode = 0;      /* 0 off, 1 count, 2 die, 3 fail */
static long at = -1, counter = 0;
static int err = 0, persist = 0, hits = 0;
static char marked[NFD];
static char names[65536];
static long used = 0;

void nfv_config(const char *d1, const char *d2, int m, long a, int e, int p) {
    strncpy(dirs[0], d1, PATH_MAX - 1);
    strncpy(dirs[1], d2, PATH_MAX - 1);
    memset(marked, 0, sizeof marked);
    mode = m; at = a; err = e; persist = p; counter = 0; hits = 0; used = 0;
}
long nfv_count(void) { return counter; }
int nfv_hits(void) { return hits; }
const char *nfv_names(void) { return names; }
long nfv_used(void) { return used; }

static int below(int dfd, const char *path) {
    char buf[2 * PATH_MAX];
    if (!mode || !path) return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (dfd != AT_FDCWD) {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dfd);
            ssize_t n = readlink(link, cwd, sizeof cwd - 1);
            if (n < 0) return 0;
            cwd[n] = 0;
        } else if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
        path = buf;
    }
    for (int i = 0; i < 2; i++)
        if (dirs[i][0] && !strncmp(path, dirs[i], strlen(dirs[i])) && path[strlen(dirs[i])] == '/') return 1;
    return 0;
}
static int fdm(int fd) { return mode && fd >= 0 && fd < NFD && marked[fd]; }

/* c: kind of operation. Returns 0 go on, 1 fail, 2 cut and die */
static int hit(char c) {
    if (!mode) return 0;
    long num = counter++;
    if (used < (long)sizeof names) names[used++] = c;
    if (mode == 2 && num == at) {
        if (err && c == 'w') return 2;
        _exit(77);
    }
    /* removing files goes on to work while everything else fails */
    if (mode == 3 && (num == at || (persist && num > at && c != 'u' && c != 'c'))) { hits++; return 1; }
    return 0;
}
#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define WR (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)

#define OPEN(fname) \
int fname(const char *path, int flags, ...) { \
    REAL(int, #fname, const char *, int, ...); \
    va_list ap; va_start(ap, flags); int md = va_arg(ap, int); va_end(ap); \
    int here = (flags & WR) && below(AT_FDCWD, path); \
    if (here && hit('o')) { errno = err; return -1; } \
    int fd = real(path, flags, md); \
    if (fd >= 0 && fd < NFD) marked[fd] = here; \
    return fd; }
OPEN(open) OPEN(open64)
#define OPENAT(fname) \
int fname(int dfd, const char *path, int flags, ...) { \
    REAL(int, #fname, int, const char *, int, ...); \
    va_list ap; va_start(ap, flags); int md = va_arg(ap, int); va_end(ap); \
    int here = (flags & WR) && below(dfd, path); \
    if (here && hit('o')) { errno = err; return -1; } \
    int fd = real(dfd, path, flags, md); \
    if (fd >= 0 && fd < NFD) marked[fd] = here; \
    return fd; }
OPENAT(openat) OPENAT(openat64)
#define OPEN2(fname, base) int fname(const char *path, int flags) { return base(path, flags, 0); }
OPEN2(__open_2, open) OPEN2(__open64_2, open64)
#define CREAT(fname, base) int fname(const char *path, mode_t md) { return base(path, O_WRONLY | O_CREAT | O_TRUNC, md); }
CREAT(creat, open) CREAT(creat64, open64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (fdm(fd)) {
        int h = hit('w');
        if (h == 1) { if (n > 1 && err == 28) real(fd, b, n / 2); errno = err; return -1; }
        if (h == 2) { real(fd, b, n / 2); _exit(77); }
    }
    return real(fd, b, n);
}
#define PWRITE(fname, off) \
ssize_t fname(int fd, const void *b, size_t n, off o) { \
    REAL(ssize_t, #fname, int, const void *, size_t, off); \
    if (fdm(fd)) { int h = hit('w'); \
        if (h == 1) { if (n > 1 && err == 28) real(fd, b, n / 2, o); errno = err; return -1; } \
        if (h == 2) { real(fd, b, n / 2, o); _exit(77); } } \
    return real(fd, b, n, o); }
PWRITE(pwrite, off_t) PWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (fdm(fd)) { int h = hit('w'); if (h == 1) { errno = err; return -1; } if (h == 2) { real(fd, v, n / 2); _exit(77); } }
    return real(fd, v, n);
}
#define FTRUNC(fname, off) \
int fname(int fd, off n) { \
    REAL(int, #fname, int, off); \
    if (fdm(fd) && hit('t')) { errno = err; return -1; } \
    return real(fd, n); }
FTRUNC(ftruncate, off_t) FTRUNC(ftruncate64, off64_t)
#define TRUNC(fname, off) \
int fname(const char *p, off n) { \
    REAL(int, #fname, const char *, off); \
    if (below(AT_FDCWD, p) && hit('t')) { errno = err; return -1; } \
    return real(p, n); }
TRUNC(truncate, off_t) TRUNC(truncate64, off64_t)
#define SYNC(fname) \
int fname(int fd) { \
    REAL(int, #fname, int); \
    if (fdm(fd) && hit('s')) { errno = err; return -1; } \
    return real(fd); }
SYNC(fsync) SYNC(fdatasync)
int close(int fd) {
    REAL(int, "close", int);
    if (fdm(fd)) {
        int h = hit('c');
        marked[fd] = 0;
        if (h) { real(fd); errno = err; return -1; }
    }
    return real(fd);
}
int dup(int fd) {
    REAL(int, "dup", int);
    int r = real(fd);
    if (r >= 0 && r < NFD) marked[r] = fdm(fd);
    return r;
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *);
    if ((below(AT_FDCWD, a) || below(AT_FDCWD, b)) && hit('r')) { errno = err; return -1; }
    return real(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if ((below(x, a) || below(y, b)) && hit('r')) { errno = err; return -1; }
    return real(x, a, y, b);
}
int renameat2(int x, const char *a, int y, const char *b, unsigned int f) {
    REAL(int, "renameat2", int, const char *, int, const char *, unsigned int);
    if ((below(x, a) || below(y, b)) && hit('r')) { errno = err; return -1; }
    return real(x, a, y, b, f);
}
int link(const char *a, const char *b) {
    REAL(int, "link", const char *, const char *);
    if (below(AT_FDCWD, b) && hit('l')) { errno = err; return -1; }
    return real(a, b);
}
int linkat(int x, const char *a, int y, const char *b, int f) {
    REAL(int, "linkat", int, const char *, int, const char *, int);
    if (below(y, b) && hit('l')) { errno = err; return -1; }
    return real(x, a, y, b, f);
}
int symlink(const char *a, const char *b) {
    REAL(int, "symlink", const char *, const char *);
    if (below(AT_FDCWD, b) && hit('l')) { errno = err; return -1; }
    return real(a, b);
}
int unlink(const char *p) {
    REAL(int, "unlink", const char *);
    if (below(AT_FDCWD, p) && hit('u')) { errno = err; return -1; }
    return real(p);
}
int remove(const char *p) {
    REAL(int, "remove", const char *);
    if (below(AT_FDCWD, p) && hit('u')) { errno = err; return -1; }
    return real(p);
}
int unlinkat(int d, const char *p, int f) {
    REAL(int, "unlinkat", int, const char *, int);
    if (below(d, p) && hit('u')) { errno = err; return -1; }
    return real(d, p, f);
}
ssize_t sendfile(int o, int i, off_t *f, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (fdm(o)) { int h = hit('w'); if (h == 1) { errno = err; return -1; } if (h == 2) { real(o, i, f, n / 2); _exit(77); } }
    return real(o, i, f, n);
}
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (fdm(o)) { int h = hit('w'); if (h == 1) { errno = err; return -1; } if (h == 2) { real(o, i, f, n / 2); _exit(77); } }
    return real(o, i, f, n);
}
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned int f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned int);
    if (fdm(o)) { int h = hit('w'); if (h == 1) { errno = err; return -1; } if (h == 2) { real(i, a, o, b, n / 2, f); _exit(77); } }
    return real(i, a, o, b, n, f);
}
