/* Records what a process does to the files of a directory. LD_PRELOADed; MC_DIR is the directory, MC_LOG the log.
   Record: type(1) path_len(2) path offset(8) data_len(4) data, little endian. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static char *paths[MAXFD];
static int append[MAXFD];
static int logfd = -1;
static const char *dir;
static size_t dirlen;

static void init(void) {
    if (logfd != -1) return;
    dir = getenv("MC_DIR");
    const char *log = getenv("MC_LOG");
    if (!dir || !log) { logfd = -2; return; }
    dirlen = strlen(dir);
    logfd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (logfd < 0) logfd = -2;
}

static void record(char type, const char *path, uint64_t off, const void *data, uint32_t len) {
    uint16_t pl = strlen(path);
    size_t n = 1 + 2 + pl + 8 + 4 + len;
    char *b = malloc(n), *p = b;
    *p++ = type;
    memcpy(p, &pl, 2); p += 2;
    memcpy(p, path, pl); p += pl;
    memcpy(p, &off, 8); p += 8;
    memcpy(p, &len, 4); p += 4;
    if (len) memcpy(p, data, len);
    size_t done = 0;
    while (done < n) {
        long k = syscall(SYS_write, logfd, b + done, n - done);
        if (k <= 0) abort();
        done += k;
    }
    free(b);
}

static int watched(const char *path) {
    init();
    return logfd >= 0 && path && strncmp(path, dir, dirlen) == 0;
}

static void opened(int fd, const char *path, int flags, int existed) {
    if (fd < 0 || fd >= MAXFD) return;
    free(paths[fd]);
    paths[fd] = NULL;
    if (!watched(path)) return;
    paths[fd] = strdup(path);
    append[fd] = (flags & O_APPEND) != 0;
    if (!existed && (flags & O_CREAT)) record('c', path, 0, NULL, 0);
    else if (flags & O_TRUNC) record('t', path, 0, NULL, 0);
}

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int existed = watched(path) ? syscall(SYS_faccessat, AT_FDCWD, path, F_OK) == 0 : 1; \
    int fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode); \
    opened(fd, path, flags, existed); \
    return fd; }
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int d, const char *path, int flags, ...) { \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int existed = watched(path) ? syscall(SYS_faccessat, AT_FDCWD, path, F_OK) == 0 : 1; \
    int fd = syscall(SYS_openat, d, path, flags, mode); \
    opened(fd, path, flags, existed); \
    return fd; }
OPENAT(openat)
OPENAT(openat64)

int close(int fd) {
    if (fd >= 0 && fd < MAXFD && paths[fd]) { free(paths[fd]); paths[fd] = NULL; }
    return syscall(SYS_close, fd);
}

#define PATH(fd) ((fd) >= 0 && (fd) < MAXFD ? paths[fd] : NULL)

static uint64_t position(int fd) {
    if (append[fd]) { struct stat st; fstat(fd, &st); return st.st_size; }
    return syscall(SYS_lseek, fd, 0, SEEK_CUR);
}

ssize_t write(int fd, const void *buf, size_t n) {
    char *p = PATH(fd);
    uint64_t off = p ? position(fd) : 0;
    ssize_t k = syscall(SYS_write, fd, buf, n);
    if (p && k > 0) record('w', p, off, buf, k);
    return k;
}

static ssize_t pw(int fd, const void *buf, size_t n, off_t off) {
    ssize_t k = syscall(SYS_pwrite64, fd, buf, n, off);
    if (PATH(fd) && k > 0) record('w', PATH(fd), off, buf, k);
    return k;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pw(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return pw(fd, buf, n, off); }

static int tr(int fd, off_t len) {
    int r = syscall(SYS_ftruncate, fd, len);
    if (PATH(fd) && r == 0) record('t', PATH(fd), len, NULL, 0);
    return r;
}
int ftruncate(int fd, off_t len) { return tr(fd, len); }
int ftruncate64(int fd, off64_t len) { return tr(fd, len); }

int fsync(int fd) {
    int r = syscall(SYS_fsync, fd);
    if (PATH(fd) && r == 0) record('s', PATH(fd), 0, NULL, 0);
    return r;
}
int fdatasync(int fd) {
    int r = syscall(SYS_fdatasync, fd);
    if (PATH(fd) && r == 0) record('s', PATH(fd), 0, NULL, 0);
    return r;
}

int unlink(const char *path) {
    int r = syscall(SYS_unlinkat, AT_FDCWD, path, 0);
    if (r == 0 && watched(path)) record('u', path, 0, NULL, 0);
    return r;
}
int rename(const char *a, const char *b) {
    int r = syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    if (r == 0 && watched(a)) record('r', a, 0, b, strlen(b));
    return r;
}
