/* Loaded into the broker (LD_PRELOAD) by the checks of the start-up: each step of a start that can fail takes a
   while, so that what the broker does in between has time to happen.
   SLOW_MS: how long; SLOW_FILE: the last part of the name of the file whose opening is slow. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <time.h>

static void nap(void) {
    const char *s = getenv("SLOW_MS");
    long ms = s ? atol(s) : 0;
    struct timespec t = {ms / 1000, ms % 1000 * 1000000L};
    nanosleep(&t, NULL);
}

int bind(int fd, const struct sockaddr *a, socklen_t n) {
    int (*f)(int, const struct sockaddr *, socklen_t) = dlsym(RTLD_NEXT, "bind");
    if (a->sa_family == AF_INET || a->sa_family == AF_INET6) nap();
    return f(fd, a, n);
}

int listen(int fd, int n) {
    int (*f)(int, int) = dlsym(RTLD_NEXT, "listen");
    int r = f(fd, n);
    nap();
    return r;
}

static void file(const char *p) {
    const char *s = getenv("SLOW_FILE"), *b = strrchr(p, '/');
    if (s && *s && !strcmp(b ? b + 1 : p, s)) nap();
}

#define OPEN(name)                                                   \
    int name(const char *p, int flags, ...) {                        \
        int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, #name);  \
        va_list l;                                                   \
        va_start(l, flags);                                          \
        mode_t m = va_arg(l, mode_t);                                \
        va_end(l);                                                   \
        file(p);                                                     \
        return f(p, flags, m);                                       \
    }
OPEN(open)
OPEN(open64)

#define OPENAT(name)                                                     \
    int name(int d, const char *p, int flags, ...) {                     \
        int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, #name); \
        va_list l;                                                       \
        va_start(l, flags);                                              \
        mode_t m = va_arg(l, mode_t);                                    \
        va_end(l);                                                       \
        file(p);                                                         \
        return f(d, p, flags, m);                                        \
    }
OPENAT(openat)
OPENAT(openat64)
