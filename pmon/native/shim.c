/* File-operation shim (LD_PRELOAD): logs the file operations under a watched
 * directory and injects one fault at the k-th of them, while armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { F_NONE, F_KILL_BEFORE, F_KILL_AFTER, F_SHORT_KILL, F_ERROR, F_SHORT_ERROR, F_SHORT };

static char watch[PATH_MAX];
static int armed, logfd = -1, fault, fault_at, fault_errno, count, pending;
static unsigned char mine[4096];

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

static void put(const char *fmt, ...) {
    char b[2 * PATH_MAX + 200];
    va_list ap;
    if (logfd < 0) return;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    syscall(SYS_write, logfd, b, n);
}

void pmon_arm(const char *dir, int log, int kind, int at, int err) {
    snprintf(watch, sizeof watch, "%s", dir);
    logfd = log; fault = kind; fault_at = at; fault_errno = err; count = 0; pending = 0;
    memset(mine, 0, sizeof mine);
    armed = 1;
}
int pmon_disarm(void) { armed = 0; logfd = -1; return count; }
int pmon_loaded(void) { return 4711; }

static int full(int dfd, const char *p, char *out) {
    if (!p) return 0;
    if (p[0] == '/') snprintf(out, PATH_MAX, "%s", p);
    else {
        char base[PATH_MAX];
        if (dfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
            ssize_t n = readlink(l, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, p);
    }
    return 1;
}
static int watched(int dfd, const char *p, char *out) {
    if (!armed || !full(dfd, p, out)) return 0;
    size_t n = strlen(watch);
    return strncmp(out, watch, n) == 0;
}
static int myfd(int fd) { return armed && fd >= 0 && fd < 4096 && mine[fd]; }

static void die(void) { put("KILLED\n"); syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

/* Called before each watched operation. Returns 1 if it must fail with errno. */
static int gate(const char *op, int can_short) {
    count++;
    pending = 0;
    if (count != fault_at) return 0;
    switch (fault) {
    case F_KILL_BEFORE: put("FAULT kill-before %s\n", op); die();
    case F_KILL_AFTER: pending = 1; return 0;
    case F_ERROR: put("FAULT errno %d %s\n", fault_errno, op); errno = fault_errno; return 1;
    case F_SHORT_KILL: case F_SHORT_ERROR: case F_SHORT:
        if (can_short) { pending = 2; return 0; }
        return 0;
    }
    return 0;
}
static void after(const char *op) { if (pending == 1) { put("FAULT kill-after %s\n", op); die(); } }

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
    char p[PATH_MAX];
    int w = watched(dfd, path, p), existed = 0;
    int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT) || (flags & O_TRUNC);
    if (w && writes) {
        struct stat st;
        existed = stat(p, &st) == 0;
        if (gate("open", 0)) return -1;
    }
    int fd = syscall(SYS_openat, dfd, path, flags, mode);
    if (w && fd >= 0 && fd < 4096) {
        mine[fd] = writes ? 2 : 1;
        if (writes) {
            put("open\t%d\t%s\t%d\t%d\t%d\n", fd, p, !!(flags & O_TRUNC), existed, !!(flags & (O_SYNC | O_DSYNC)));
            after("open");
        } else put("rdopen\t%d\t%s\n", fd, p);
    } else if (fd >= 0 && fd < 4096) mine[fd] = 0;
    return fd;
}
#define OPEN_BODY(dfd) mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    return do_open(dfd, path, flags, m)
int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD); }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD); }
int openat(int dfd, const char *path, int flags, ...) { OPEN_BODY(dfd); }
int openat64(int dfd, const char *path, int flags, ...) { OPEN_BODY(dfd); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static ssize_t do_write(int fd, const void *b, size_t n, int pos, off_t off) {
    if (!myfd(fd)) return pos ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
    if (gate("write", 1)) return -1;
    int sh = pending == 2;
    size_t k = sh ? n / 2 : n;
    ssize_t r = pos ? syscall(SYS_pwrite64, fd, b, k, off) : syscall(SYS_write, fd, b, k);
    put("write\t%d\t%ld\n", fd, (long)r);
    if (sh) {
        if (fault == F_SHORT_KILL) { put("FAULT short-kill\n"); die(); }
        if (fault == F_SHORT_ERROR) { put("FAULT short-then-errno\n"); fault = F_ERROR; fault_at = count + 1; }
        pending = 0;
    }
    after("write");
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, 1, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!myfd(fd)) return syscall(SYS_writev, fd, v, c);
    if (gate("writev", 0)) return -1;
    ssize_t r = syscall(SYS_writev, fd, v, c);
    put("write\t%d\t%ld\n", fd, (long)r);
    after("writev");
    return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    if (!myfd(out)) return syscall(SYS_sendfile, out, in, o, n);
    if (gate("sendfile", 0)) return -1;
    ssize_t r = syscall(SYS_sendfile, out, in, o, n);
    put("write\t%d\t%ld\n", out, (long)r);
    after("sendfile");
    return r;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return sendfile(out, in, (off_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    if (!myfd(out)) return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
    if (gate("copy_file_range", 0)) return -1;
    ssize_t r = syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
    put("write\t%d\t%ld\n", out, (long)r);
    after("copy_file_range");
    return r;
}
int ftruncate64(int fd, off64_t n) {
    if (!myfd(fd)) return syscall(SYS_ftruncate, fd, n);
    if (gate("ftruncate", 0)) return -1;
    int r = syscall(SYS_ftruncate, fd, n);
    put("ftruncate\t%d\n", fd);
    after("ftruncate");
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n) {
    char a[PATH_MAX];
    if (!watched(AT_FDCWD, p, a)) return syscall(SYS_truncate, p, n);
    if (gate("truncate", 0)) return -1;
    int r = syscall(SYS_truncate, p, n);
    put("truncate\t%s\n", a);
    after("truncate");
    return r;
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
static int do_sync(int fd, int nr, const char *name) {
    if (!myfd(fd)) return syscall(nr, fd);
    if (gate(name, 0)) return -1;
    int r = syscall(nr, fd);
    put("fsync\t%d\n", fd);
    after(name);
    return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync, "fsync"); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync, "fdatasync"); }
int syncfs(int fd) { put("sync\n"); return syscall(SYS_syncfs, fd); }
void sync(void) { put("sync\n"); syscall(SYS_sync); }
int close(int fd) {
    if (!myfd(fd)) { return syscall(SYS_close, fd); }
    int wr = mine[fd] == 2;
    if (wr && gate("close", 0)) { int e = errno; mine[fd] = 0; syscall(SYS_close, fd); errno = e; return -1; }
    mine[fd] = 0;
    int r = syscall(SYS_close, fd);
    put("close\t%d\n", fd);
    if (wr) after("close");
    return r;
}
int dup2(int a, int b) {
    int r = syscall(SYS_dup2, a, b);
    if (armed && r >= 0 && a < 4096 && b < 4096) { mine[b] = mine[a]; if (mine[a]) put("dup\t%d\t%d\n", a, b); }
    return r;
}
int dup(int a) {
    int r = syscall(SYS_dup, a);
    if (armed && r >= 0 && a < 4096 && r < 4096) { mine[r] = mine[a]; if (mine[a]) put("dup\t%d\t%d\n", a, r); }
    return r;
}
static int two(const char *op, int od, const char *o, int nd, const char *n, int *w, char *a, char *b) {
    *w = watched(od, o, a) | watched(nd, n, b);
    if (!*w) return 0;
    full(od, o, a); full(nd, n, b);
    return gate(op, 0);
}
int renameat2(int od, const char *o, int nd, const char *n, unsigned fl) {
    char a[PATH_MAX], b[PATH_MAX]; int w;
    if (two("rename", od, o, nd, n, &w, a, b)) return -1;
    int r = syscall(SYS_renameat2, od, o, nd, n, fl);
    if (w) { put("rename\t%s\t%s\t%d\n", a, b, r); after("rename"); }
    return r;
}
int rename(const char *o, const char *n) { return renameat2(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return renameat2(od, o, nd, n, 0); }
int linkat(int od, const char *o, int nd, const char *n, int fl) {
    char a[PATH_MAX], b[PATH_MAX]; int w;
    if (two("link", od, o, nd, n, &w, a, b)) return -1;
    int r = syscall(SYS_linkat, od, o, nd, n, fl);
    if (w) { put("link\t%s\t%s\t%d\n", a, b, r); after("link"); }
    return r;
}
int link(const char *o, const char *n) { return linkat(AT_FDCWD, o, AT_FDCWD, n, 0); }
int symlink(const char *o, const char *n) {
    char a[PATH_MAX];
    int w = watched(AT_FDCWD, n, a);
    if (w && gate("symlink", 0)) return -1;
    int r = syscall(SYS_symlinkat, o, AT_FDCWD, n);
    if (w) { put("symlink\t%s\t%s\t%d\n", o, a, r); after("symlink"); }
    return r;
}
int unlinkat(int d, const char *p, int fl) {
    char a[PATH_MAX];
    int w = watched(d, p, a);
    if (w && gate("unlink", 0)) return -1;
    int r = syscall(SYS_unlinkat, d, p, fl);
    if (w) { put("unlink\t%s\t%d\n", a, r); after("unlink"); }
    return r;
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int remove(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int mkdirat(int d, const char *p, mode_t m) {
    char a[PATH_MAX];
    int w = watched(d, p, a);
    if (w && gate("mkdir", 0)) return -1;
    int r = syscall(SYS_mkdirat, d, p, m);
    int e = errno;
    if (w) { put("mkdir\t%s\t%d\n", a, r); after("mkdir"); }
    errno = e;
    return r;
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
