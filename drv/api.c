// Executes operations on error objects and memory contexts. One command per
// line, prints what was observed.
#include <passgen/config.h>
#include <passgen/container/array.h>
#include <passgen/context.h>
#include <passgen/error.h>
#include <inttypes.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char *args[512];
static int argn;

static void die(const char *m) {
    fprintf(stderr, "DRIVER: %s\n", m);
    exit(99);
}

static void puthex(const void *p, size_t n) {
    if(!n) putchar('-');
    for(size_t i = 0; i < n; i++) printf("%02x", ((const uint8_t *) p)[i]);
}

// exactly sized
static char *unhex(const char *s) {
    size_t n = strcmp(s, "-") ? strlen(s) / 2 : 0;
    char *r = malloc(n + 1);
    for(size_t i = 0; i < n; i++) {
        unsigned x;
        if(sscanf(s + 2 * i, "%2x", &x) != 1) die("hex");
        r[i] = x;
    }
    r[n] = 0;
    return r;
}

static int saved = -1;
static FILE *capture;

static void begin(void) {
    fflush(stderr);
    capture = tmpfile();
    if(!capture) die("tmpfile");
    saved = dup(2);
    dup2(fileno(capture), 2);
}

static void end(void) {
    fflush(stderr);
    dup2(saved, 2);
    close(saved);
    long n = lseek(fileno(capture), 0, SEEK_END);
    char *t = malloc(n + 1);
    if(pread(fileno(capture), t, n, 0) != n) die("pread");
    fclose(capture);
    printf("T ");
    puthex(t, n);
    printf("\n");
    free(t);
}

#define MAXC 300

static void dump(const passgen_error *e, passgen_error *causes, const char *unknown) {
    printf("D ");
    puthex(e->message, strlen(e->message));
    printf(" ");
    if(!e->source.file)
        printf("~");
    else if(unknown && e->source.file == unknown)
        printf("?");
    else
        puthex(e->source.file, strlen(e->source.file));
    printf(" %zu %zu %zu %zu %zu", e->source.line, e->offset.codepoint, e->offset.byte, e->end.codepoint, e->end.byte);
    size_t n = e->causes.items;
    printf(" %zu ", n);
    for(size_t i = 0; i < n; i++) printf("%s%td", i ? "," : "", (passgen_error *) passgen_array_get((passgen_array *) &e->causes, i) - causes);
    printf("\n");
}

// err OP...: i:MSG (init raw), m:MSG (macro), s:FILE|~:LINE, o:CP:BYTE, c:INDEX,
// p:PATTERN (print), d (dump), f (free)
static void cmd_err(void) {
    passgen_error e, *causes = calloc(MAXC, sizeof(*causes));
    char *keep[1024];
    int kept = 0, macro = 0;
    memset(&e, 0xA5, sizeof(e));
    for(int i = 1; i < argn; i++) {
        char *p = args[i], *op = strsep(&p, ":"), *a = strsep(&p, ":"), *b = strsep(&p, ":");
        switch(*op) {
            case 'i':
                passgen_error_init_raw(&e, keep[kept++] = unhex(a));
                macro = 0;
                break;
            case 'm':
                keep[kept++] = unhex(a);
                macro = __LINE__ + 1;
                passgen_error_init(&e, keep[kept - 1]);
                break;
            case 's':
                passgen_error_source_set(&e, strcmp(a, "~") ? (keep[kept++] = unhex(a)) : NULL, strtoull(b, NULL, 10));
                break;
            case 'o':
                passgen_error_offset_set(&e, strtoull(a, NULL, 10), strtoull(b, NULL, 10));
                break;
            case 'c':
                passgen_error_cause_add(&e, &causes[atoi(a)]);
                break;
            case 'p':
                keep[kept++] = unhex(a);
                begin();
                passgen_error_print(&e, keep[kept - 1]);
                end();
                break;
            case 'd':
                dump(&e, causes, NULL);
                if(macro) {
                    printf("M %d\n", e.source.line == (size_t) macro && e.source.file && strcmp(e.source.file, __FILE__) == 0);
                    macro = 0;
                }
                break;
            case 'f':
                passgen_error_free(&e);
                break;
            default:
                die("operation");
        }
    }
    while(kept) free(keep[--kept]);
    free(causes);
}

static struct {
    void *state;
    bool fail;
} expected;

static int state_name(void *s) {
    return s ? (int) (*(int *) s) : -1;
}

static void *c_malloc(void *s, size_t n) {
    printf("c m %d %zu\n", state_name(s), n);
    return expected.fail ? NULL : malloc(n);
}

static void *c_calloc(void *s, size_t c, size_t n) {
    printf("c c %d %zu %zu\n", state_name(s), c, n);
    return expected.fail ? NULL : calloc(c, n);
}

static void **ptrs;
static int index_of(void *p) {
    if(!p) return -1;
    for(int i = 0; i < 64; i++)
        if(ptrs[i] == p) return i;
    return -2;
}

static void *c_realloc(void *s, void *p, size_t n) {
    printf("c r %d %d %zu\n", state_name(s), index_of(p), n);
    return expected.fail ? NULL : realloc(p, n);
}

static void c_free(void *s, void *p) {
    printf("c f %d %d\n", state_name(s), index_of(p));
    free(p);
}

#ifndef PASSGEN_MEMORY
#error "memory contexts are not part of this configuration"
#endif

// ctx OP...: n (init), M C R F (set function), M0.. (unset), S:K (set state, -1 is NULL)
// m:I:N, c:I:A:B, r:I:N, f:I, x:0/1 (functions fail)
static void cmd_ctx(void) {
    passgen_context ctx;
    static int states[8] = {0, 1, 2, 3, 4, 5, 6, 7};
    memset(&ctx, 0x5A, sizeof(ctx));
    ptrs = calloc(64, sizeof(void *));
    expected.fail = false;
    size_t len[64] = {0};
    for(int i = 1; i < argn; i++) {
        char *p = args[i], *op = strsep(&p, ":"), *a = strsep(&p, ":"), *b = strsep(&p, ":"), *c = strsep(&p, ":");
        bool unset = op[1] == '0';
        int k = a ? atoi(a) : 0;
        size_t n = b ? strtoull(b, NULL, 10) : 0, m = c ? strtoull(c, NULL, 10) : 0;
        printf("o %s\n", args[i] ? op : "");
        switch(*op) {
            case 'n': passgen_context_init(&ctx); break;
            case 'M': passgen_context_set_malloc(&ctx, unset ? NULL : c_malloc); break;
            case 'C': passgen_context_set_calloc(&ctx, unset ? NULL : c_calloc); break;
            case 'R': passgen_context_set_realloc(&ctx, unset ? NULL : c_realloc); break;
            case 'F': passgen_context_set_free(&ctx, unset ? NULL : c_free); break;
            case 'S': passgen_context_set_alloc_state(&ctx, k < 0 ? NULL : &states[k]); break;
            case 'x': expected.fail = k; break;
            case 'm':
                ptrs[k] = passgen_malloc(&ctx, n);
                printf("r %d\n", ptrs[k] != NULL);
                if(ptrs[k]) memset(ptrs[k], k + 1, len[k] = n);
                break;
            case 'c':
                ptrs[k] = passgen_calloc(&ctx, n, m);
                printf("r %d", ptrs[k] != NULL);
                size_t product;
                if(ptrs[k] && __builtin_mul_overflow(n, m, &product)) {
                    // cannot be large enough
                    printf(" 0");
                } else if(ptrs[k]) {
                    bool zero = true;
                    for(size_t j = 0; j < n * m; j++) zero &= ((uint8_t *) ptrs[k])[j] == 0;
                    printf(" %d", zero);
                    memset(ptrs[k], k + 1, len[k] = n * m);
                }
                printf("\n");
                break;
            case 'r': {
                size_t old = ptrs[k] ? len[k] : 0;
                void *new = passgen_realloc(&ctx, ptrs[k], n);
                printf("r %d", new != NULL);
                if(new) {
                    bool same = true;
                    for(size_t j = 0; j < n && j < old; j++) same &= ((uint8_t *) new)[j] == k + 1;
                    printf(" %d", same);
                    ptrs[k] = new;
                    memset(new, k + 1, len[k] = n);
                }
                printf("\n");
                break;
            }
            case 'f': {
                void *old = ptrs[k];
                passgen_free(&ctx, old);
                ptrs[k] = NULL;
                break;
            }
            default: die("operation");
        }
    }
    for(int i = 0; i < 64; i++) free(ptrs[i]);
    free(ptrs);
}

int main(void) {
    char *line = NULL;
    size_t cap = 0;
    while(getline(&line, &cap, stdin) > 0) {
        line[strcspn(line, "\n")] = 0;
        char *p = line, *t;
        argn = 0;
        while((t = strsep(&p, " "))) {
            if(argn == 512) die("too many arguments");
            args[argn++] = t;
        }
        if(!strcmp(args[0], "err"))
            cmd_err();
        else if(!strcmp(args[0], "ctx"))
            cmd_ctx();
        else
            die("command");
        printf(".\n");
        fflush(stdout);
    }
    free(line);
    printf("END\n");
    return 0;
}
