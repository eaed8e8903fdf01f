/* LD_PRELOAD: counts what is done to files below a directory, and fails or kills at a chosen event.
 *
 * shim_arm(dir, event, mode, part): from now on, event number `event` (counted from 1) below `dir`
 *   mode 0: only counted
 *   mode 1: the process is killed before it
 *   mode 2: it fails with ENOSPC, and every later write, too
 *   mode 3: it fails with EIO, once
 *   mode 4: only `part` bytes of it are written, then the process is killed   (writes that extend the file)
 *   mode 5: only `part` bytes of it are written, later writes fail with ENOSPC (writes that extend the file)
 *   mode 6: the process is killed right after it
 *   mode 7, 8: the process gets SIGINT, SIGTERM before it
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir_[PATH_MAX];
static size_t dir_len;
static int armed, mode_;
static long target, part_, events;
static int log_fd = -1;

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

static void note(const char *what, long a, long b) {
    if (log_fd < 0) return;
    char buf[128];
    int n = snprintf(buf, sizeof buf, "%ld %s %ld %ld\n", events, what, a, b);
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    real(log_fd, buf, n);
}

void shim_arm(const char *dir, long event, int mode, long part, int log) {
    strncpy(dir_, dir, sizeof dir_ - 1);
    dir_len = strlen(dir_);
    target = event; mode_ = mode; part_ = part; events = 0; log_fd = log; armed = 1;
}

long shim_events(void) { return events; }

static int below(const char *path) {
    char full[PATH_MAX];
    if (path[0] != '/') {
        if (!getcwd(full, sizeof full)) return 0;
        size_t n = strlen(full);
        snprintf(full + n, sizeof full - n, "/%s", path);
        path = full;
    }
    return strncmp(path, dir_, dir_len) == 0 && path[dir_len] == '/';
}

static int watched(int fd) {
    if (!armed || fd == log_fd) return 0;
    char link[64], path[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0;
    return below(path);
}

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* -> 0: go on, else errno to fail with */
static int step(const char *what, long a, long b) {
    events++;
    note(what, a, b);
    if (mode_ == 2 || mode_ == 5) { if (events > target && target > 0) return ENOSPC; }
    if (events != target) return 0;
    if (mode_ == 1) die();
    if (mode_ == 2) return ENOSPC;
    if (mode_ == 3) return EIO;
    if (mode_ == 7) kill(getpid(), SIGINT);
    if (mode_ == 8) kill(getpid(), SIGTERM);
    return 0;
}

static void after(void) { if (mode_ == 6 && events == target) die(); }

static int extends(int fd, off_t at, size_t n) {
    struct stat st;
    if (fstat(fd, &st)) return 0;
    return at + (off_t)n > st.st_size;
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    if (!watched(fd)) return real(fd, buf, n);
    off_t at = lseek(fd, 0, SEEK_CUR);
    int grow = extends(fd, at, n);
    int e = step(grow ? "write+" : "write", at, n);
    if (e) { errno = e; return -1; }
    if (events == target && (mode_ == 4 || mode_ == 5) && grow && n > 1) {
        size_t k = part_ < (long)n ? part_ : n - 1;
        ssize_t r = k ? real(fd, buf, k) : 0;
        if (mode_ == 4) die();
        if (r == 0) { errno = ENOSPC; return -1; }
        return r;
    }
    ssize_t r = real(fd, buf, n);
    after();
    return r;
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off_t at) {
    REAL(pwrite64);
    if (!watched(fd)) return real(fd, buf, n, at);
    int e = step("pwrite", at, n);
    if (e) { errno = e; return -1; }
    ssize_t r = real(fd, buf, n, at);
    after();
    return r;
}

ssize_t pwrite(int fd, const void *buf, size_t n, off_t at) { return pwrite64(fd, buf, n, at); }

ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (!watched(fd)) return real(fd, v, c);
    int e = step("writev", lseek(fd, 0, SEEK_CUR), c);
    if (e) { errno = e; return -1; }
    ssize_t r = real(fd, v, c);
    after();
    return r;
}

int ftruncate64(int fd, off_t n) {
    REAL(ftruncate64);
    if (!watched(fd)) return real(fd, n);
    int e = step("ftruncate", n, 0);
    if (e) { errno = e; return -1; }
    int r = real(fd, n);
    after();
    return r;
}

int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

static int is_write(int flags) { return (flags & O_ACCMODE) != O_RDONLY; }

int open64(const char *path, int flags, ...) {
    REAL(open64);
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    if (!armed || !is_write(flags) || !below(path)) return real(path, flags, m);
    int e = step("open", flags, 0);
    if (e) { errno = e; return -1; }
    int r = real(path, flags, m);
    after();
    return r;
}

int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return open64(path, flags, m);
}

int close(int fd) {
    REAL(close);
    if (!watched(fd)) return real(fd);
    int flags = fcntl(fd, F_GETFL);
    if (flags < 0 || !is_write(flags)) return real(fd);
    int e = step("close", 0, 0);
    int r = real(fd);
    if (e) { errno = e; return -1; }
    after();
    return r;
}

int fsync(int fd) {
    REAL(fsync);
    if (!watched(fd)) return real(fd);
    int e = step("fsync", 0, 0);
    if (e) { errno = e; return -1; }
    int r = real(fd);
    after();
    return r;
}

int rename(const char *a, const char *b) {
    REAL(rename);
    if (!armed || !(below(a) || below(b))) return real(a, b);
    int e = step("rename", 0, 0);
    if (e) { errno = e; return -1; }
    int r = real(a, b);
    after();
    return r;
}
