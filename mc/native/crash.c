/* Preloaded into the process that runs the code under test: ends the process, as kill -9 would,
 * immediately before the n-th operation that changes a file below the given directory, or tears
 * that operation (only the first half of the bytes reach the file). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static long at = -1, count = 0;
static int torn = 0;
static char prefix[512];

void crash_arm(const char *dir, long n, int t) {
    strncpy(prefix, dir, sizeof prefix - 1);
    count = 0; at = n; torn = t;
}
long crash_count(void) { return count; }

static int ours(int fd) {
    char link[64], path[1024];
    if (!prefix[0]) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0;
    return strncmp(path, prefix, strlen(prefix)) == 0;
}

ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    static ssize_t (*real)(int, const void *, size_t, off_t);
    if (!real) real = dlsym(RTLD_NEXT, "pwrite");
    if (ours(fd)) {
        if (count == at) { if (torn) real(fd, b, n / 2, o); _exit(77); }
        count++;
    }
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (ours(fd)) {
        if (count == at) { if (torn) real(fd, b, n / 2); _exit(77); }
        count++;
    }
    return real(fd, b, n);
}
int ftruncate(int fd, off_t n) {
    static int (*real)(int, off_t);
    if (!real) real = dlsym(RTLD_NEXT, "ftruncate");
    if (ours(fd)) {
        if (count == at) _exit(77);
        count++;
    }
    return real(fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }

/* creating a file is an operation as well */
#include <fcntl.h>
#include <stdarg.h>
static void creating(const char *path, int flags) {
    char full[2048];
    if (!prefix[0] || !(flags & (O_CREAT | O_TRUNC))) return;
    if (path[0] != '/') return;
    strncpy(full, path, sizeof full - 1);
    if (strncmp(full, prefix, strlen(prefix)) != 0) return;
    if (!(flags & O_TRUNC) && access(path, F_OK) == 0) return;
    if (count == at) _exit(77);
    count++;
}
#define OPEN(name)                                                   \
    int name(const char *path, int flags, ...) {                     \
        static int (*real)(const char *, int, ...);                  \
        if (!real) real = dlsym(RTLD_NEXT, #name);                   \
        va_list ap; va_start(ap, flags);                             \
        mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
        va_end(ap);                                                  \
        creating(path, flags);                                       \
        return real(path, flags, m);                                 \
    }
OPEN(open)
OPEN(open64)
