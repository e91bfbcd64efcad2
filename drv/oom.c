// The driver, with requests for memory that the library makes failing at will.
#include <errno.h>
#include <inttypes.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);

// requests are counted when armed, those from first to last fail
static volatile int armed;
static uint64_t requests, first, last, failed;

static int fails(size_t n, size_t m) {
    if(!armed) return 0;
    // more than there is
    if((m && n > SIZE_MAX / m) || n * m > (size_t) 1 << 30) return 1;
    uint64_t at = requests++;
    if(at < first || at > last) return 0;
    failed++;
    errno = ENOMEM;
    return 1;
}

void *__wrap_malloc(size_t n) {
    return fails(n, 1) ? NULL : __real_malloc(n);
}

void *__wrap_calloc(size_t n, size_t m) {
    return fails(n, m) ? NULL : __real_calloc(n, m);
}

void *__wrap_realloc(void *p, size_t n) {
    return fails(n, 1) ? NULL : __real_realloc(p, n);
}

// what the driver itself needs is always there
#define malloc  __real_malloc
#define calloc  __real_calloc
#define realloc __real_realloc
#define main    drv_main
#include "drv.c"
#undef main

static void stray(int sig, siginfo_t *info, void *context) {
    (void) context;
    armed = 0;
    // what is not a valid address at all is not reported with the address
    int odd = info->si_code == SI_KERNEL;
    fprintf(out, "\nSTRAY %d %" PRIxPTR "\n", sig, odd ? (uintptr_t) -1 : (uintptr_t) info->si_addr);
    fflush(out);
    _exit(3);
}

// oom SECONDS FIRST COUNT COMMAND ;; COMMAND...: in a child, so that it may die
static void cmd_oom(char *line) {
    unsigned seconds = nextu(&line);
    first = nextu(&line);
    uint64_t count = nextu(&line);
    last = count ? first + count - 1 : UINT64_MAX;
    fflush(out);
    fflush(stderr);
    pid_t pid = fork();
    if(pid < 0) die("fork");
    if(!pid) {
        struct rlimit rl = {seconds, seconds + 1};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        struct sigaction sa = {.sa_sigaction = stray, .sa_flags = SA_SIGINFO | SA_ONSTACK};
        static char stack[1 << 16];
        stack_t ss = {.ss_sp = stack, .ss_size = sizeof(stack)};
        sigaltstack(&ss, NULL);
        sigaction(SIGSEGV, &sa, NULL);
        sigaction(SIGBUS, &sa, NULL);
        requests = failed = 0;
        armed = 1;
        for(char *end; line; line = end) {
            end = strstr(line, " ;; ");
            if(end) {
                *end = 0;
                end += 4;
            }
            dispatch(line);
        }
        armed = 0;
        fprintf(out, "\nUSED %" PRIu64 " %" PRIu64 "\n", requests, failed);
        fflush(out);
        _exit(0);
    }
    int status;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if(WIFSIGNALED(status))
        fprintf(out, "\nCHILD signal %d\n", WTERMSIG(status));
    else
        fprintf(out, "\nCHILD exit %d\n", WEXITSTATUS(status));
}

int main(void) {
    out = fdopen(dup(1), "w");
    if(!out || dup2(2, 1) < 0) return 99;
    static char buffer[1 << 16];
    setvbuf(out, buffer, _IOFBF, sizeof(buffer));
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    while((n = getline(&line, &cap, stdin)) > 0) {
        if(line[n - 1] == '\n') line[n - 1] = 0;
        if(!*line) continue;
        if(!strncmp(line, "oom ", 4)) cmd_oom(line + 4);
        else dispatch(line);
        fputs(".\n", out);
        fflush(out);
    }
    free(line);
    env_close();
    fputs("END\n", out);
    fclose(out);
    return 0;
}
