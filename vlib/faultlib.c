/*
 * LD_PRELOAD interposer for disk faults. Inert until fault_arm() is called; then it counts the disk operations
 * (writes, truncations, syncs, unlinks, creations) on files below one directory, and makes the k-th one
 * fail or kills the process there. Nothing outside of that directory is touched.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

enum { COUNT = 0, KILL_BEFORE, KILL_TORN, EIO_ONCE, EIO_ON, ENOSPC_ONCE, ENOSPC_ON, KILL_AFTER };

static char prefix[4096];
static size_t prefix_len;
static int mode;
static long target;
static volatile long count_;
static volatile int fired_;
static char fired_what[64];
static char trace[1 << 16];
static size_t trace_len;
static int armed;

void fault_arm(const char *dir, int m, long k)
{
    strncpy(prefix, dir, sizeof(prefix) - 1);
    prefix_len = strlen(prefix);
    mode = m;
    target = k;
    count_ = 0;
    fired_ = 0;
    fired_what[0] = 0;
    trace_len = 0;
    trace[0] = 0;
    armed = 1;
}
void fault_disarm(void) { armed = 0; }
long fault_count(void) { return count_; }
int fault_fired(void) { return fired_; }
const char *fault_what(void) { return fired_what; }
const char *fault_trace(void) { return trace; }

static int below(const char *path)
{
    return strncmp(path, prefix, prefix_len) == 0 && (path[prefix_len] == '/' || path[prefix_len] == 0);
}
static int fd_below(int fd)
{
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0;
    return below(path);
}

/* 0: go on, 1: torn then die, 2: die afterwards, -1: fail with errno set, -2: fail after a part (write) */
static int hit(char op)
{
    long k = count_++;
    if (trace_len + 2 < sizeof trace) { trace[trace_len++] = op; trace[trace_len] = 0; }
    int on = mode == EIO_ON || mode == ENOSPC_ON;
    if (mode == COUNT || (on ? k < target : k != target)) return 0;
    if (on && mode == ENOSPC_ON && op != 'w' && op != 'o') return 0;
    if (mode == ENOSPC_ONCE && op != 'w' && op != 'o') return 0;
    fired_++;
    if (fired_ == 1) { fired_what[0] = op; fired_what[1] = 0; }
    switch (mode) {
    case KILL_BEFORE: _exit(99);
    case KILL_TORN: return op == 'w' ? 1 : 2;
    case KILL_AFTER: return 2;
    case EIO_ONCE: case EIO_ON: errno = EIO; return -1;
    default: errno = ENOSPC; return -1;
    }
}

#define REAL(ret, name, args) \
    static ret (*real) args; \
    if (!real) real = (ret (*) args) dlsym(RTLD_NEXT, name)

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, "write", (int, const void *, size_t));
    int h = armed && fd_below(fd) ? hit('w') : 0;
    if (h == -1) { int e = errno; if (e == ENOSPC && n > 1) real(fd, buf, n / 2); errno = e; return -1; }
    if (h == 1) { real(fd, buf, n / 2); _exit(99); }
    ssize_t r = real(fd, buf, n);
    if (h == 2) _exit(99);
    return r;
}
static ssize_t pw(const char *name, int fd, const void *buf, size_t n, off64_t at)
{
    static ssize_t (*real)(int, const void *, size_t, off64_t);
    if (!real) real = (ssize_t (*)(int, const void *, size_t, off64_t)) dlsym(RTLD_NEXT, "pwrite64");
    (void) name;
    int h = armed && fd_below(fd) ? hit('w') : 0;
    if (h == -1) { int e = errno; if (e == ENOSPC && n > 1) real(fd, buf, n / 2, at); errno = e; return -1; }
    if (h == 1) { real(fd, buf, n / 2, at); _exit(99); }
    ssize_t r = real(fd, buf, n, at);
    if (h == 2) _exit(99);
    return r;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t at) { return pw("pwrite64", fd, buf, n, at); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t at) { return pw("pwrite", fd, buf, n, at); }

static int sync_(const char *name, int fd)
{
    if (armed && fd_below(fd)) {
        struct stat st;
        int dir = fstat(fd, &st) == 0 && S_ISDIR(st.st_mode);
        int h = hit(dir ? 'd' : 's');
        if (h == -1) return -1;
        if (h > 0) _exit(99);
        return 0;       /* only process deaths are simulated: no need to wait for the disk */
    }
    int (*real)(int) = (int (*)(int)) dlsym(RTLD_NEXT, name);
    return real(fd);
}
int fsync(int fd) { return sync_("fsync", fd); }
int fdatasync(int fd) { return sync_("fdatasync", fd); }

static int trunc_(int fd, off64_t n)
{
    REAL(int, "ftruncate64", (int, off64_t));
    int h = armed && fd_below(fd) ? hit('t') : 0;
    if (h == -1) return -1;
    int r = real(fd, n);
    if (h > 0) _exit(99);
    return r;
}
int ftruncate64(int fd, off64_t n) { return trunc_(fd, n); }
int ftruncate(int fd, off_t n) { return trunc_(fd, n); }

int unlink(const char *path)
{
    REAL(int, "unlink", (const char *));
    int h = armed && below(path) ? hit('u') : 0;
    if (h == -1) return -1;
    int r = real(path);
    if (h > 0) _exit(99);
    return r;
}

static int open_(const char *name, const char *path, int flags, mode_t m)
{
    int (*real)(const char *, int, ...) = (int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, name);
    int h = armed && (flags & O_CREAT) && below(path) ? hit('o') : 0;
    if (h == -1) return -1;
    int r = real(path, flags, m);
    if (h > 0) _exit(99);
    return r;
}
int open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return open_("open", path, flags, m);
}
int open64(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return open_("open64", path, flags, m);
}

ssize_t pread64(int fd, void *buf, size_t n, off64_t at)
{
    REAL(ssize_t, "pread64", (int, void *, size_t, off64_t));
    if (armed && (mode == EIO_ONCE || mode == EIO_ON) && fd_below(fd) && hit('r') == -1) return -1;
    return real(fd, buf, n, at);
}
