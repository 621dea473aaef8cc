/* LD_PRELOAD shim: counts the calls that change files below FAULT_ROOT and, at call FAULT_AT, kills the process, tears the write, or fails with ENOSPC/EIO.
   FAULT_LOG receives one byte per counted call (its size is the number of calls observed).  FAULT_DELAY: microseconds to sleep before every counted call. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *root, *mode, *logf;
static long at = -1, delay = 0, count = 0;
static size_t rootlen;
static int ready = 0;

static void init(void) {
    if (ready) return;
    ready = 1;
    root = getenv("FAULT_ROOT"); mode = getenv("FAULT_MODE"); logf = getenv("FAULT_LOG");
    if (getenv("FAULT_AT")) at = atol(getenv("FAULT_AT"));
    if (getenv("FAULT_DELAY")) delay = atol(getenv("FAULT_DELAY"));
    rootlen = root ? strlen(root) : 0;
}

static int below_path(const char *p) { init(); return root && p && strncmp(p, root, rootlen) == 0; }

static int below_fd(int fd) {
    char link[64], buf[4096];
    init();
    if (!root) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return strncmp(buf, root, rootlen) == 0;
}

/* 0: go on; 1: fail with errno; 2: torn (only for writes) */
static int event(char what) {
    count++;
    if (logf) {
        int fd = syscall(SYS_openat, AT_FDCWD, logf, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) { syscall(SYS_write, fd, &what, 1); syscall(SYS_close, fd); }
    }
    if (delay) usleep(delay);
    if (count != at || !mode) return 0;
    if (!strcmp(mode, "kill")) { kill(getpid(), SIGKILL); for (;;) pause(); }
    if (!strcmp(mode, "enospc")) { errno = ENOSPC; return 1; }
    if (!strcmp(mode, "eio")) { errno = EIO; return 1; }
    if (!strcmp(mode, "torn")) return 2;
    return 0;
}

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

ssize_t write(int fd, const void *b, size_t n) {
    if (n && below_fd(fd)) { int e = event('w'); if (e == 1) return -1; if (e == 2) { syscall(SYS_write, fd, b, n / 2); die(); } }
    return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (n && below_fd(fd)) { int e = event('p'); if (e == 1) return -1; if (e == 2) { syscall(SYS_pwrite64, fd, b, n / 2, o); die(); } }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
static int oopen(int dir, const char *p, int flags, mode_t m) {
    if ((flags & (O_CREAT | O_TRUNC)) && below_path(p)) { int e = event('o'); if (e == 1) return -1; if (e == 2) die(); }
    return syscall(SYS_openat, dir, p, flags, m);
}
#define MODE(flags) mode_t m = 0; if ((flags) & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return oopen(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE(flags) return oopen(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return oopen(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return oopen(d, p, flags | O_LARGEFILE, m); }
int rename(const char *a, const char *b) {
    if (below_path(b)) { int e = event('r'); if (e == 1) return -1; if (e == 2) die(); }
    return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
}
int renameat(int x, const char *a, int y, const char *b) {
    if (below_path(b)) { int e = event('r'); if (e == 1) return -1; if (e == 2) die(); }
    return syscall(SYS_renameat, x, a, y, b);
}
int unlink(const char *p) {
    if (below_path(p)) { int e = event('u'); if (e == 1) return -1; if (e == 2) die(); }
    return syscall(SYS_unlinkat, AT_FDCWD, p, 0);
}
int mkdir(const char *p, mode_t m) {
    if (below_path(p)) { int e = event('m'); if (e == 1) return -1; if (e == 2) die(); }
    return syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
int ftruncate64(int fd, off64_t n) {
    if (below_fd(fd)) { int e = event('t'); if (e == 1) return -1; if (e == 2) die(); }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) {
    if (below_fd(fd)) { int e = event('f'); if (e == 1) return -1; if (e == 2) die(); }
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
