// Linked into the command line tool (together with shim.c): requests for memory
// fail at will, and so does opening or reading of files.
//
// FAULT_MEM=N fails request N, N+ all from N on, N,M the M from N on. With
// FAULT_COUNT, the amount of requests is printed in the end. FAULT_OPEN=ERROR:
// OFFSET:PATH makes opening this file fail, or reading once it gets to an
// offset, if that is not negative.
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

void *__libc_malloc(size_t n);
void *__libc_calloc(size_t n, size_t m);
void *__libc_realloc(void *p, size_t n);
FILE *__real_fopen(const char *path, const char *mode);

static int on;
static long at, until, calls, failed;

static void say(const char *what, unsigned long x, unsigned long y) {
    char line[80];
    int n = snprintf(line, sizeof(line), "\n[%s %lx %lx]\n", what, x, y);
    (void) !write(2, line, n);
}

static void stray(int sig, siginfo_t *info, void *context) {
    (void) context;
    on = 0;
    say("stray", info->si_code == SI_KERNEL ? (unsigned long) -1 : (unsigned long) info->si_addr, sig);
    _exit(139);
}

__attribute__((constructor)) static void start(void) {
    static char stack[1 << 16];
    stack_t ss = {.ss_sp = stack, .ss_size = sizeof(stack)};
    sigaltstack(&ss, NULL);
    struct sigaction sa = {.sa_sigaction = stray, .sa_flags = SA_SIGINFO | SA_ONSTACK};
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    const char *s = getenv("FAULT_MEM");
    if(!s) return;
    char *end;
    at = strtol(s, &end, 10);
    until = *end == '+' ? INT64_MAX : at + (*end == ',' ? strtol(end + 1, NULL, 10) : 1);
    on = 1;
}

__attribute__((destructor)) static void finish(void) {
    on = 0;
    if(getenv("FAULT_COUNT")) say("requests", calls, failed);
}

static int fails(void) {
    if(!on) return 0;
    long n = calls++;
    if(n < at || n >= until) return 0;
    failed++;
    errno = ENOMEM;
    return 1;
}

void *malloc(size_t n) {
    return fails() ? NULL : __libc_malloc(n);
}

void *calloc(size_t n, size_t m) {
    return fails() ? NULL : __libc_calloc(n, m);
}

void *realloc(void *p, size_t n) {
    return fails() ? NULL : __libc_realloc(p, n);
}

static long left;
static int error;

static ssize_t cookie_read(void *cookie, char *buf, size_t n) {
    if((long) n > left) n = left;
    if(!n) {
        errno = error;
        return -1;
    }
    ssize_t r = read(*(int *) cookie, buf, n);
    if(r > 0) left -= r;
    return r;
}

static int cookie_close(void *cookie) {
    return close(*(int *) cookie);
}

FILE *fault_open(const char *path, const char *mode) {
    const char *spec = getenv("FAULT_OPEN");
    if(!spec) return __real_fopen(path, mode);
    char *end;
    int e = strtol(spec, &end, 10);
    long offset = strtol(end + 1, &end, 10);
    if(strcmp(end + 1, path) != 0) return __real_fopen(path, mode);
    if(offset < 0) {
        errno = e;
        return NULL;
    }
    static int fd;
    fd = open(path, O_RDONLY);
    if(fd < 0) return NULL;
    left = offset;
    error = e;
    cookie_io_functions_t io = {.read = cookie_read, .close = cookie_close};
    return fopencookie(&fd, "r", io);
}
