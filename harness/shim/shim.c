/* Stops a process at its n-th operation on files of its working directory, or makes that operation fail.
   Built by the checks, loaded with LD_PRELOAD; does nothing until yu_arm is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <unistd.h>
#include <stdio.h>

enum { OFF, COUNT, KILL, TEAR, FAIL };
static int mode, err;
static long target, changes, all;
static char top[PATH_MAX];
static unsigned char mine[4096]; /* descriptors: 1 read, 2 write */

void yu_arm(int m, long n, int e) { mode = m; target = n; err = e; changes = all = 0; memset(mine, 0, sizeof mine); if (!getcwd(top, sizeof top)) _exit(99); }
long yu_changes(void) { return changes; }
long yu_all(void) { return all; }

static int inside(int dir, const char *p)
{
    if (!mode || !p) return 0;
    if (p[0] != '/') return dir == AT_FDCWD;
    size_t n = strlen(top);
    return !strncmp(p, top, n) && (p[n] == '/' || !p[n]);
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
/* 0: go on, 1: fail, 2: tear (writes only) */
static int op(int change, int tears)
{
    all++;
    if (change) changes++;
    if (mode == KILL && change && changes == target) die();
    if (mode == TEAR && change && changes == target) { if (!tears) die(); return 2; }
    if (mode == FAIL && all == target) { errno = err; return 1; }
    return 0;
}
#define REAL(t, name, args) static t (*real) args; if (!real) real = (t (*) args) dlsym(RTLD_NEXT, name)

static int note(int fd, int flags)
{
    if (fd >= 0 && fd < 4096) mine[fd] = (flags & O_ACCMODE) == O_RDONLY ? 1 : 2;
    return fd;
}
#define OPENBODY(name) \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, (const char *, int, ...)); \
    if (!inside(AT_FDCWD, p) || (flags & O_DIRECTORY)) return real(p, flags, m); \
    if (op((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)), 0)) return -1; \
    return note(real(p, flags, m), flags);
int open(const char *p, int flags, ...) { OPENBODY("open") }
int open64(const char *p, int flags, ...) { OPENBODY("open64") }
#define OPENATBODY(name) \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, (int, const char *, int, ...)); \
    if (!inside(d, p) || (flags & O_DIRECTORY)) return real(d, p, flags, m); \
    if (op((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)), 0)) return -1; \
    return note(real(d, p, flags, m), flags);
int openat(int d, const char *p, int flags, ...) { OPENATBODY("openat") }
int openat64(int d, const char *p, int flags, ...) { OPENATBODY("openat64") }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int is(int fd, int what) { return mode && fd >= 0 && fd < 4096 && mine[fd] == what; }
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", (int, const void *, size_t));
    if (!is(fd, 2)) return real(fd, b, n);
    switch (op(1, 1)) { case 1: return -1; case 2: if (n > 1) { ssize_t r = real(fd, b, n / 2); (void) r; } die(); }
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    REAL(ssize_t, "pwrite", (int, const void *, size_t, off_t));
    if (!is(fd, 2)) return real(fd, b, n, o);
    switch (op(1, 1)) { case 1: return -1; case 2: if (n > 1) { ssize_t r = real(fd, b, n / 2, o); (void) r; } die(); }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(ssize_t, "writev", (int, const struct iovec *, int));
    if (is(fd, 2)) switch (op(1, 1)) { case 1: return -1; case 2: if (n > 1) { ssize_t r = real(fd, v, n / 2); (void) r; } die(); }
    return real(fd, v, n);
}
#define SENDBODY(name, off) REAL(ssize_t, name, (int, int, off *, size_t)); \
    if (is(fd, 2)) switch (op(1, 1)) { case 1: return -1; case 2: if (n > 1) { ssize_t r = real(fd, in, o, n / 2); (void) r; } die(); } \
    return real(fd, in, o, n);
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { SENDBODY("sendfile", off_t) }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { SENDBODY("sendfile64", off64_t) }
ssize_t copy_file_range(int in, off64_t *a, int fd, off64_t *b, size_t n, unsigned f)
{
    REAL(ssize_t, "copy_file_range", (int, off64_t *, int, off64_t *, size_t, unsigned));
    if (is(fd, 2)) switch (op(1, 1)) { case 1: return -1; case 2: if (n > 1) { ssize_t r = real(in, a, fd, b, n / 2, f); (void) r; } die(); }
    return real(in, a, fd, b, n, f);
}
ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, "read", (int, void *, size_t));
    if (is(fd, 1) && op(0, 0)) return -1;
    return real(fd, b, n);
}
int close(int fd) { REAL(int, "close", (int)); if (fd >= 0 && fd < 4096) mine[fd] = 0; return real(fd); }
#define PATH1(ret, name, sig, args, path) ret name sig { REAL(ret, #name, sig); if (inside(AT_FDCWD, path) && op(1, 0)) return -1; return real args; }
PATH1(int, unlink, (const char *p), (p), p)
PATH1(int, remove, (const char *p), (p), p)
PATH1(int, rmdir, (const char *p), (p), p)
PATH1(int, mkdir, (const char *p, mode_t m), (p, m), p)
PATH1(int, chmod, (const char *p, mode_t m), (p, m), p)
PATH1(int, truncate, (const char *p, off_t n), (p, n), p)
PATH1(int, rename, (const char *p, const char *q), (p, q), p)
PATH1(int, link, (const char *p, const char *q), (p, q), q)
PATH1(int, symlink, (const char *p, const char *q), (p, q), q)
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", (int, const char *, int)); if (inside(d, p) && op(1, 0)) return -1; return real(d, p, f); }
int renameat(int d, const char *p, int e, const char *q) { REAL(int, "renameat", (int, const char *, int, const char *)); if (inside(d, p) && op(1, 0)) return -1; return real(d, p, e, q); }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { REAL(int, "renameat2", (int, const char *, int, const char *, unsigned)); if (inside(d, p) && op(1, 0)) return -1; return real(d, p, e, q, f); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(int, "fchmodat", (int, const char *, mode_t, int)); if (inside(d, p) && op(1, 0)) return -1; return real(d, p, m, f); }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", (int, mode_t)); if (is(fd, 2) && op(1, 0)) return -1; return real(fd, m); }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", (int, off_t)); if (is(fd, 2) && op(1, 0)) return -1; return real(fd, n); }
