/* Preloaded into the command line tool: the operating system as a
 * fault-injectable stub. Faults come from VSIM_PLAN, a list like
 * "r0=e4,r1=s3,w0=e28": operation class (o open, r read of the input file,
 * w write to standard output, x write to standard error), call number within
 * the class, and action (e<errno> fail, s<count> transfer at most count
 * bytes, z transfer nothing). Every applied fault and every transfer is
 * logged to file descriptor 9. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int calls[128];
static int input_fd = -1;

static void log_line(char class, int n, char action, long arg) {
    char line[64];
    int k = snprintf(line, sizeof line, "%c%d %c %ld\n", class, n, action, arg);
    syscall(SYS_write, 9, line, (size_t)k);
}

/* Action for this call: 0 none, else the letter, with its number. */
static char planned(char class, long *arg) {
    int n = calls[(int)class]++;
    const char *p = getenv("VSIM_PLAN");
    char key[16];
    size_t k = (size_t)snprintf(key, sizeof key, "%c%d=", class, n);
    *arg = 0;
    while (p && *p) {
        if (strncmp(p, key, k) == 0) {
            *arg = strtol(p + k + 1, NULL, 10);
            log_line(class, n, p[k], *arg);
            return p[k];
        }
        p = strchr(p, ',');
        if (p) p++;
    }
    return 0;
}

static int is_input(const char *path) {
    const char *f = getenv("VSIM_FILE");
    return f && strcmp(f, path) == 0;
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    if (is_input(path)) {
        long arg;
        if (planned('o', &arg) == 'e') {
            errno = (int)arg;
            return -1;
        }
    }
    int fd = (int)syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && is_input(path)) input_fd = fd;
    return fd;
}

#define OPEN(name)                                              \
    int name(const char *path, int flags, ...) {                \
        va_list ap;                                             \
        va_start(ap, flags);                                    \
        mode_t mode = (mode_t)va_arg(ap, int);                  \
        va_end(ap);                                             \
        return do_open(AT_FDCWD, path, flags, mode);            \
    }
#define OPENAT(name)                                            \
    int name(int dir, const char *path, int flags, ...) {       \
        va_list ap;                                             \
        va_start(ap, flags);                                    \
        mode_t mode = (mode_t)va_arg(ap, int);                  \
        va_end(ap);                                             \
        return do_open(dir, path, flags, mode);                 \
    }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)

int close(int fd) {
    if (fd == input_fd) input_fd = -1;
    return (int)syscall(SYS_close, fd);
}

ssize_t read(int fd, void *buf, size_t n) {
    if (fd == input_fd && n > 0) {
        long arg;
        switch (planned('r', &arg)) {
        case 'e': errno = (int)arg; return -1;
        case 's': if ((size_t)arg < n) n = arg > 0 ? (size_t)arg : 1; break;
        }
    }
    return syscall(SYS_read, fd, buf, n);
}

ssize_t pread(int fd, void *buf, size_t n, off_t at) {
    return syscall(SYS_pread64, fd, buf, n, at);
}

ssize_t write(int fd, const void *buf, size_t n) {
    if ((fd == 1 || fd == 2) && n > 0) {
        long arg;
        switch (planned(fd == 1 ? 'w' : 'x', &arg)) {
        case 'e': errno = (int)arg; return -1;
        case 'z': return 0;
        case 's': if ((size_t)arg < n) n = arg > 0 ? (size_t)arg : 1; break;
        }
    }
    return syscall(SYS_write, fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd == 1 || fd == 2) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len > 0) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, c);
}
