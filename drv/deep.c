// Fails an assertion below some number of calls, printing a backtrace.
#include <passgen/config.h>
#include <stdio.h>
#include <stdlib.h>
#if __has_include("../src/assert.c") || __has_include("assert.c")
#undef PASSGEN_DEBUG
#define PASSGEN_DEBUG
#undef PASSGEN_BACKTRACE
#define PASSGEN_BACKTRACE
#define passgen_assert_fail deep_assert_fail
#include "assert.c"

static int __attribute__((noinline)) down(int n) {
    if(n) return down(n - 1) + 1;
    int bad = 1;
    passgen_assert(bad == 0);
    return 0;
}

int main(int argc, char **argv) {
    passgen_assert(argc == 2);
    setvbuf(stdout, NULL, _IONBF, 0);
    return down(atoi(argv[1])) >= 0 ? 7 : 8;
}
#else
int main(void) {
    return 77;
}
#endif
