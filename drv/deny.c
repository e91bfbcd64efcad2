// deny ERROR WHAT COMMAND...: runs something with the system calls needed for
// setting up a sandbox failing.
#include <errno.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>

#define LOAD(field) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, field))
#define IS(x, t, f) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, x, t, f)
#define RET(x)      BPF_STMT(BPF_RET | BPF_K, x)

int main(int argc, char *argv[]) {
    if(argc < 4) return 99;
    unsigned error = SECCOMP_RET_ERRNO | atoi(argv[1]), pass = SECCOMP_RET_ALLOW;
    // what is to fail: the system call, prctl for filters, prctl for privileges
    unsigned s = strchr(argv[2], 's') ? error : pass, p = strchr(argv[2], 'p') ? error : pass, n = strchr(argv[2], 'n') ? error : pass;
    struct sock_filter code[] = {
        LOAD(nr),
        IS(SYS_seccomp, 0, 5),
        // finding out what is supported works
        LOAD(args[0]),
        IS(SECCOMP_SET_MODE_FILTER, 0, 2),
        LOAD(args[2]),
        IS(0, 0, 7),
        RET(pass),
        IS(SYS_prctl, 0, 4),
        LOAD(args[0]),
        IS(PR_SET_SECCOMP, 4, 0),
        IS(PR_SET_NO_NEW_PRIVS, 0, 1),
        RET(n),
        RET(pass),
        RET(s),
        RET(p),
    };
    struct sock_fprog prog = {.len = sizeof(code) / sizeof(*code), .filter = code};
    if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) return 99;
    execv(argv[3], argv + 3);
    return 99;
}
