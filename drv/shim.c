// Stand-ins linked into the command line tool (with -Wl,--wrap=...): the system
// configuration is taken from a scratch file, and obtaining randomness from the
// system can be made to fail.
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <getopt.h>

FILE *__real_fopen(const char *path, const char *mode);
FILE *__real_fopen64(const char *path, const char *mode);
ssize_t __real_getrandom(void *buf, size_t size, unsigned flags);

static void say(const char *text, long a, long b) {
    char line[100];
    int n = snprintf(line, sizeof(line), "[%s %ld %ld]\n", text, a, b);
    (void) !write(2, line, n);
}

static long self;

__attribute__((constructor)) static void start(void) {
    self = getpid();
}

static long argument(char *text, long last) {
    static char store[8][4096];
    static int used;
    static struct iovec iov;
    char *at = store[used++ % 8];
    switch(text[0]) {
    case 'p': return self;
    case 'r': return last + strtol(text + 1, NULL, 0);
    case 'b': return (long) at;
    case 's':
    case 'v': {
        size_t n = 0;
        unsigned x;
        for(text++; n + 1 < sizeof(store[0]) && sscanf(text, "%2x", &x) == 1; text += 2) at[n++] = x;
        at[n] = 0;
        if(text[-(long) (2 * n) - 1] == 's') return (long) at;
        iov.iov_base = at;
        iov.iov_len = n;
        return (long) &iov;
    }
    }
    return (long) strtoull(text, NULL, 0);
}

// PASSGEN_TEST_INJECT=POINT:NUMBER,ARGUMENT,...;NUMBER,... issues system calls when
// the tool gets to a certain point, as code injected into it would.
static void inject(const char *point) {
    static int done;
    const char *spec = getenv("PASSGEN_TEST_INJECT");
    if(!spec || done) return;
    const char *colon = strchr(spec, ':');
    if(strncmp(spec, point, colon - spec) || strlen(point) != (size_t) (colon - spec)) return;
    done = 1;
    static char text[16384];
    snprintf(text, sizeof(text), "%s", colon + 1);
    long last = 0;
    char *s1, *s2;
    for(char *call = strtok_r(text, ";", &s1); call; call = strtok_r(NULL, ";", &s1)) {
        char *name = strtok_r(call, ",", &s2), *a;
        long args[6] = {0};
        for(int i = 0; i < 6 && (a = strtok_r(NULL, ",", &s2)); i++) args[i] = argument(a, last);
        say("inject", strtol(name[0] == 'x' ? name + 1 : name, NULL, 0), 0);
        errno = 0;
        if(name[0] == 'x') {
            // the other system call interface of this processor
#ifdef __x86_64__
            __asm__ volatile("int $0x80" : "=a"(last) : "a"(strtol(name + 1, NULL, 0)), "b"(args[0]), "c"(args[1]), "d"(args[2]) : "memory");
#endif
        } else {
            last = syscall(strtol(name, NULL, 0), args[0], args[1], args[2], args[3], args[4], args[5]);
        }
        say("returned", last, errno);
    }
    say("survived", 0, 0);
    _exit(0);
}

static void point(const char *name) {
    inject("early");
    inject(name);
}

int __real_getopt_long(int argc, char *const argv[], const char *s, const struct option *o, int *i);

int __wrap_getopt_long(int argc, char *const argv[], const char *s, const struct option *o, int *i) {
    point("options");
    return __real_getopt_long(argc, argv, s, o, i);
}

int __real_mlockall(int flags);

static void note(const char *what, long a, long b) {
    const char *log = getenv("PASSGEN_TEST_TRACE");
    if(!log) return;
    say(what, a, b);
}

int __wrap_mlockall(int flags) {
    note("mlockall", flags, 0);
    return __real_mlockall(flags);
}

int __real_munlockall(void);

int __wrap_munlockall(void) {
    note("munlockall", 0, 0);
    return __real_munlockall();
}

int __real_munlock(const void *p, size_t n);

int __wrap_munlock(const void *p, size_t n) {
    note("munlock", 0, n);
    return __real_munlock(p, n);
}

static const char *redirect(const char *path) {
    if(path && !strcmp(path, "/etc/passgen.conf")) {
        const char *other = getenv("PASSGEN_TEST_ETC");
        return other ? other : "/nonexistent/passgen.conf";
    }
    return path;
}

// see fault.c
FILE *fault_open(const char *path, const char *mode) __attribute__((weak));

FILE *__wrap_fopen(const char *path, const char *mode) {
    note("open", 0, 0);
    point("open");
    if(fault_open) return fault_open(redirect(path), mode);
    return __real_fopen(redirect(path), mode);
}

FILE *__wrap_fopen64(const char *path, const char *mode) {
    note("open", 0, 0);
    point("open");
    if(fault_open) return fault_open(redirect(path), mode);
    return __real_fopen64(redirect(path), mode);
}

static void injected(size_t size, long ret) {
    const char *log = getenv("PASSGEN_TEST_LOG");
    if(!log) return;
    int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if(fd < 0) return;
    dprintf(fd, "getrandom %zu %ld\n", size, ret);
    close(fd);
}

// PASSGEN_TEST_GETRANDOM=N:RET[:ERRNO] makes call number N deliver only RET
// bytes, or fail if that is negative, and all calls after it fail, with this
// error for the first fifty times (so that retrying ends at some time).
ssize_t __wrap_getrandom(void *buf, size_t size, unsigned flags) {
    static long calls;
    long n = calls++;
    note("getrandom", size, flags);
    point("random");
    const char *spec = getenv("PASSGEN_TEST_GETRANDOM");
    if(!spec) return __real_getrandom(buf, size, flags);
    char *p;
    long at = strtol(spec, &p, 10), ret = strtol(p + 1, &p, 10);
    int error = *p ? (int) strtol(p + 1, NULL, 10) : EIO;
    if(n > at || (n == at && ret < 0)) {
        injected(size, -1);
        errno = n > at + 50 ? EIO : error;
        return -1;
    }
    if(n == at && (size_t) ret < size) {
        injected(size, ret);
        return __real_getrandom(buf, ret, flags);
    }
    return __real_getrandom(buf, size, flags);
}
