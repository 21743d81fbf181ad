/* Interposed on libc (LD_PRELOAD): logs the system calls on chosen files, and makes chosen ones fail.
   Controlled by the process under test itself through a shared memory file ($VSHIM). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_WRITE = 1, K_READ = 2, K_SYNC = 4, K_DSYNC = 8, K_TRUNC = 16, K_CLOSE = 32, K_LOCK = 64, K_SEEK = 128, K_STAT = 256 };
#define NLOG 4096
struct entry { int fn, fd, ino, ret; long long a, b; };
struct ctl {
    int on;            /* logging and faults active */
    int mask;          /* kinds of calls which may fail */
    int skip;          /* number of matching calls left alone */
    int count;         /* then this number of calls fail (-1: all) */
    int err;           /* errno, or 0 for a short transfer */
    int fired;
    int nino;
    int nlog;
    unsigned long long ino[8];
    struct entry log[NLOG];
};
static struct ctl *C;

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("VSHIM");
    if (!p) return;
    int fd = open(p, O_RDWR);
    if (fd < 0) return;
    void *m = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    int (*rc)(int) = dlsym(RTLD_NEXT, "close");
    rc(fd);
    if (m != MAP_FAILED) C = m;
}

static int target(int fd) {
    if (!C || !C->on) return 0;
    struct stat st;
    int e = errno;
    if (syscall(5 /* fstat */, fd, &st) != 0) { errno = e; return 0; }
    for (int i = 0; i < C->nino; i++)
        if (C->ino[i] == st.st_ino) { errno = e; return i + 1; }
    errno = e;
    return 0;
}
static int fault(int fn) {
    if (!(C->mask & fn)) return 0;
    if (C->skip > 0) { C->skip--; return 0; }
    if (C->count == 0) return 0;
    if (C->count > 0) C->count--;
    C->fired++;
    return 1;
}
static void note(int fn, int fd, int ino, long long ret, long long a, long long b) {
    int e = errno;
    if (C->nlog < NLOG) {
        struct entry *x = &C->log[C->nlog++];
        x->fn = fn; x->fd = fd; x->ino = ino; x->ret = ret < 0 ? -e : (int)ret; x->a = a; x->b = b;
    }
    errno = e;
}
#define REAL(n) static __typeof__(&n) r; if (!r) r = dlsym(RTLD_NEXT, #n)
#define TRANSFER(name, FN, buft) \
ssize_t name(int fd, buft b, size_t n) { \
    REAL(name); int t = target(fd); if (!t) return r(fd, b, n); \
    ssize_t x; \
    if (fault(FN)) { if (C->err > 0) { errno = C->err; x = -1; } \
                   else x = r(fd, b, C->err ? (n < (size_t)-C->err ? n : (size_t)-C->err) : n > 1 ? n / 2 : n); } \
    else x = r(fd, b, n); \
    note(FN, fd, t, x, n, 0); return x; }
TRANSFER(write, K_WRITE, const void *)
TRANSFER(read, K_READ, void *)
#define PTRANSFER(name, FN, buft) \
ssize_t name(int fd, buft b, size_t n, off_t o) { \
    REAL(name); int t = target(fd); if (!t) return r(fd, b, n, o); \
    ssize_t x; \
    if (fault(FN)) { if (C->err) { errno = C->err; x = -1; } else x = r(fd, b, n > 1 ? n / 2 : n, o); } \
    else x = r(fd, b, n, o); \
    note(FN, fd, t, x, n, o); return x; }
PTRANSFER(pwrite, K_WRITE, const void *)
PTRANSFER(pwrite64, K_WRITE, const void *)
#define SIMPLE1(name, FN) \
int name(int fd) { \
    REAL(name); int t = target(fd); if (!t) return r(fd); \
    int x; if (fault(FN)) { errno = C->err; x = -1; } else x = r(fd); \
    note(FN, fd, t, x, 0, 0); return x; }
SIMPLE1(fsync, K_SYNC)
SIMPLE1(fdatasync, K_DSYNC)
SIMPLE1(syncfs, K_SYNC)
int close(int fd) {
    REAL(close); int t = target(fd); if (!t) return r(fd);
    int f = fault(K_CLOSE), x = r(fd);
    if (f) { errno = C->err; x = -1; }   /* like linux: the descriptor is gone anyway */
    note(K_CLOSE, fd, t, x, 0, 0); return x; }
#define TRUNC(name) \
int name(int fd, off_t n) { \
    REAL(name); int t = target(fd); if (!t) return r(fd, n); \
    int x; if (fault(K_TRUNC)) { errno = C->err; x = -1; } else x = r(fd, n); \
    note(K_TRUNC, fd, t, x, n, 0); return x; }
TRUNC(ftruncate)
TRUNC(ftruncate64)
#define FCNTL(name) \
int name(int fd, int cmd, ...) { \
    va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); \
    REAL(name); int t = target(fd); if (!t) return r(fd, cmd, a); \
    if (cmd == F_SETLK || cmd == F_SETLKW) { \
        struct flock *l = a; int ty = l->l_type; int x; \
        if (fault(K_LOCK)) { errno = C->err; x = -1; } else x = r(fd, cmd, a); \
        note(K_LOCK, fd, t, x, ty, l->l_start); return x; } \
    return r(fd, cmd, a); }
FCNTL(fcntl)
FCNTL(fcntl64)
