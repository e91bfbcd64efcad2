// Measures the effort (edges of the control flow taken, blocks of memory moved)
// and the memory that operations of the library take. Needs to be built with
// -fno-builtin -fsanitize-coverage=trace-pc-guard and the wrappers below. With
// COST_TOOL, this only reports at the end of the tool what the whole run took.
#include <passgen/container/array.h>
#include <passgen/container/hashmap.h>
#include <passgen/container/stack.h>
#include <passgen/error.h>
#include <passgen/generate.h>
#include <passgen/markov.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/passgen.h>
#include <passgen/pattern/pattern.h>
#include <passgen/random.h>
#include <passgen/util/siphash.h>
#include <passgen/util/utf8.h>
#include <passgen/wordlist.h>
#include <errno.h>
#include <inttypes.h>
#include <malloc.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#pragma clang attribute push(__attribute__((no_sanitize("coverage"))), apply_to = function)

static uint64_t steps, limit;
static size_t live, peak;
static char *lowest; // of the stack

static void over(void) {
    limit = 0;
    (void) !write(2, "COST: limit exceeded\n", 21);
    _exit(90);
}

static inline void add(uint64_t n) {
    steps += n;
    if(limit && steps > limit) over();
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    while(start < stop) *start++ = 1;
}

void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    (void) guard;
    char *frame = __builtin_frame_address(0);
    if(frame < lowest) lowest = frame;
    add(1);
}

// ------------------------------------------------------------------- memory
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);

static void *plus(void *p) {
    if(p) {
        size_t n = malloc_usable_size(p);
        live += n;
        if(live > peak) peak = live;
    }
    return p;
}

void *malloc(size_t n) {
    add(1);
    return plus(__libc_malloc(n));
}

void *calloc(size_t a, size_t b) {
    add(1 + a * b / 64);
    return plus(__libc_calloc(a, b));
}

void free(void *p) {
    if(p) live -= malloc_usable_size(p);
    __libc_free(p);
}

void *realloc(void *p, size_t n) {
    size_t old = p ? malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if(q || !n) live -= old;
    // moved whether or not the block could be extended in place
    add(1 + (old < n ? old : n) / 16);
    return plus(q);
}

#define W(type, name, params, args, cost)  \
    type __real_##name params;             \
    type __wrap_##name params {            \
        type r = __real_##name args;       \
        add(1 + (cost) / 16);              \
        return r;                          \
    }

static size_t same(const char *a, const char *b, size_t n) {
    size_t i = 0;
    while(i < n && a[i] && a[i] == b[i]) i++;
    return i;
}

static size_t samemem(const char *a, const char *b, size_t n) {
    size_t i = 0;
    while(i < n && a[i] == b[i]) i++;
    return i;
}

size_t __real_strlen(const char *);
W(void *, memcpy, (void *a, const void *b, size_t n), (a, b, n), n)
W(void *, memmove, (void *a, const void *b, size_t n), (a, b, n), n)
W(void *, memset, (void *a, int b, size_t n), (a, b, n), n)
W(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), samemem(a, b, n))
W(int, bcmp, (const void *a, const void *b, size_t n), (a, b, n), samemem(a, b, n))
W(void *, memchr, (const void *a, int b, size_t n), (a, b, n), r ? (size_t) ((char *) r - (char *) a) : n)
W(size_t, strlen, (const char *a), (a), r)
W(size_t, strnlen, (const char *a, size_t n), (a, n), r)
W(int, strcmp, (const char *a, const char *b), (a, b), same(a, b, -1))
W(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n), same(a, b, n))
W(char *, strchr, (const char *a, int b), (a, b), r ? (size_t) (r - a) : __real_strlen(a))
W(char *, strrchr, (const char *a, int b), (a, b), __real_strlen(a))
W(char *, strstr, (const char *a, const char *b), (a, b), r ? (size_t) (r - a) : __real_strlen(a))
W(char *, strcpy, (char *a, const char *b), (a, b), __real_strlen(b))
W(char *, strncpy, (char *a, const char *b, size_t n), (a, b, n), n)
W(char *, strcat, (char *a, const char *b), (a, b), __real_strlen(a))
W(char *, strdup, (const char *a), (a), __real_strlen(a))
W(char *, strndup, (const char *a, size_t n), (a, n), __real_strlen(r))
W(char *, strtok_r, (char *a, const char *b, char **c), (a, b, c), r ? __real_strlen(r) : 0)
W(size_t, strcspn, (const char *a, const char *b), (a, b), r)
W(size_t, strspn, (const char *a, const char *b), (a, b), r)
W(size_t, fread, (void *a, size_t b, size_t c, FILE *f), (a, b, c, f), b * r)
W(size_t, fwrite, (const void *a, size_t b, size_t c, FILE *f), (a, b, c, f), b * r)
W(int, fputs, (const char *a, FILE *f), (a, f), __real_strlen(a))
W(char *, fgets, (char *a, int n, FILE *f), (a, n, f), r ? __real_strlen(r) : 0)
W(ssize_t, getline, (char **a, size_t *n, FILE *f), (a, n, f), r > 0 ? (size_t) r : 0)
W(int, fgetc, (FILE *f), (f), 0)
W(int, getc, (FILE *f), (f), 0)
W(int, fputc, (int c, FILE *f), (c, f), 0)
W(int, putc, (int c, FILE *f), (c, f), 0)

#ifdef COST_TOOL

static uint64_t steps0;
static char *base;

__attribute__((constructor)) static void start(void) {
    steps0 = steps;
    peak = live;
    lowest = base = __builtin_frame_address(0);
    const char *l = getenv("PASSGEN_TEST_COST");
    limit = l ? strtoull(l, NULL, 10) : 0;
}

__attribute__((destructor)) static void stop(void) {
    char line[100];
    limit = 0;
    int n = snprintf(line, sizeof(line), "[cost %" PRIu64 " %zu %zu]\n", steps - steps0, peak, base - lowest);
    (void) !write(2, line, n);
}

#else

// ---------------------------------------------------------------- measuring
static size_t base_live;
static uint64_t base_steps;
static char *base_stack;

static void begin(void) {
    base_live = peak = live;
    base_steps = steps;
    lowest = base_stack = __builtin_frame_address(0);
    limit = steps + 4000000000ull;
}

static uint64_t m_steps;
static size_t m_peak, m_stack, m_left;

static void end(void) {
    limit = 0;
    m_steps = steps - base_steps;
    m_peak = peak - base_live;
    m_stack = base_stack - lowest;
    m_left = live > base_live ? live - base_live : 0;
}

static void die(const char *msg) {
    fprintf(stderr, "DRIVER: %s\n", msg);
    exit(99);
}

// something that does not work for reasons that have nothing to do with effort
static jmp_buf failure;

static void fail(const char *msg) {
    limit = 0;
    printf("fail %s\n", msg);
    longjmp(failure, 1);
}

static int hexv(int c) {
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    die("bad hex");
    return 0;
}

static char *unhex(const char *hex, size_t *len) {
    if(!strcmp(hex, "-")) hex = "";
    size_t n = strlen(hex) / 2;
    char *r = malloc(n + 1);
    for(size_t i = 0; i < n; i++) r[i] = hexv(hex[2 * i]) * 16 + hexv(hex[2 * i + 1]);
    r[n] = 0;
    if(len) *len = n;
    return r;
}

static char *line;

static char *next(void) {
    char *t = strsep(&line, " ");
    if(!t) die("missing argument");
    return t;
}

static uint64_t nextu(void) {
    return strtoull(next(), NULL, 10);
}

static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static uint64_t state;

static size_t source_read(void *context, void *dest, size_t size) {
    (void) context;
    uint8_t *d = dest;
    for(size_t i = 0; i < size; i += 8) {
        uint64_t z = mix(state++);
        for(size_t k = 0; k < 8 && i + k < size; k++) d[i + k] = z >> (8 * k);
    }
    return size;
}

static void source_close(void *context) {
    (void) context;
}

static passgen_random *rnd;

static void source_open(uint64_t seed) {
    rnd = calloc(1, sizeof(*rnd));
    state = seed << 32;
    rnd->read = source_read;
    rnd->close = source_close;
    rnd->pos = 0;
    passgen_random_reload(rnd);
}

// prefix, count times the unit (where # is replaced by a number, to have them
// differ) separated by something, suffix
static char *text(size_t count, size_t *len) {
    size_t pre_n, unit_n, sep_n, post_n;
    char *pre = unhex(next(), &pre_n), *unit = unhex(next(), &unit_n), *sep = unhex(next(), &sep_n), *post = unhex(next(), &post_n);
    char *r = malloc(pre_n + post_n + count * (unit_n + sep_n + 16) + 1), *p = r;
    memcpy(p, pre, pre_n);
    p += pre_n;
    for(size_t i = 0; i < count; i++) {
        if(i) {
            memcpy(p, sep, sep_n);
            p += sep_n;
        }
        for(size_t k = 0; k < unit_n; k++) {
            if(unit[k] == '#') p += sprintf(p, "%zu", i);
            else if(unit[k] == '@') {
                // a word made from few letters
                uint64_t z = mix(i);
                int l = 3 + z % 6;
                for(z >>= 8; l; l--, z >>= 4) *p++ = 'a' + z % 12;
            } else *p++ = unit[k];
        }
    }
    memcpy(p, post, post_n + 1);
    p += post_n;
    free(pre);
    free(unit);
    free(sep);
    free(post);
    if(len) *len = p - r;
    return r;
}

static void report(const char *extra, uint64_t value) {
    printf("cost %" PRIu64 " %zu %zu %zu %s %" PRIu64 "\n", m_steps, m_peak, m_stack, m_left, extra, value);
}

// parse FORM N PRE UNIT SEP POST
static void cmd_parse(void) {
    char form = next()[0];
    size_t n = nextu(), len;
    char *t = text(n, &len);
    passgen_pattern pattern;
    passgen_error error;
    int ret = 0;
    if(form == 's') {
        begin();
        ret = passgen_parse(&pattern, &error, t);
        if(ret) passgen_error_free(&error);
        else passgen_pattern_free(&pattern);
        end();
    } else if(form == 'e') {
        // including what gets printed
        begin();
        ret = passgen_parse(&pattern, &error, t);
        if(ret) {
            passgen_error_print(&error, t);
            passgen_error_free(&error);
        } else passgen_pattern_free(&pattern);
        end();
    } else {
        passgen_parser parser;
        uint32_t *wide = malloc(sizeof(uint32_t) * (len + 1)), *w = wide;
        const uint8_t *in = (const uint8_t *) t;
        if(passgen_utf8_decode(&w, len, NULL, &in, len)) fail("bad text");
        size_t wn = w - wide;
        begin();
        passgen_parser_init(&parser, &pattern);
        if(form == 'u') ret = passgen_parser_unicode(&parser, wide, wn);
        else {
            passgen_token_parser tokens;
            passgen_token token = {0};
            passgen_token_parser_init(&tokens);
            for(size_t i = 0; !ret && i < wn; i++) {
                ret = passgen_token_parse(&tokens, &token, 1, wide[i]);
                if(ret == PASSGEN_TOKEN_INIT) ret = passgen_parse_token(&parser, &token);
                else if(ret > 0) ret = 0;
            }
        }
        if(!ret) ret = passgen_parse_finish(&parser);
        passgen_parser_free(&parser);
        passgen_pattern_free(&pattern);
        end();
        free(wide);
    }
    free(t);
    report("ret", ret);
}

static size_t emitted;

static int callback(void *data, uint32_t codepoint) {
    (void) data;
    (void) codepoint;
    emitted++;
    add(1);
    return 0;
}

static void generate(passgen_pattern *pattern, passgen_env *env, char form, size_t reps, size_t space) {
    double entropy;
    uint32_t *buffer = malloc((space + 1) * sizeof(uint32_t));
    emitted = 0;
    begin();
    for(size_t i = 0; i < reps; i++) {
        switch(form) {
        case 'c': passgen_generate(pattern, env, NULL, NULL, callback); break;
        case 'e': passgen_generate(pattern, env, &entropy, NULL, callback); break;
        case 'u': emitted += passgen_generate_fill_unicode(pattern, env, &entropy, buffer, space); break;
        case '8': emitted += passgen_generate_fill_utf8(pattern, env, &entropy, (uint8_t *) buffer, space * 4); break;
        case 'j': emitted += passgen_generate_fill_json_utf8(pattern, env, NULL, (uint8_t *) buffer, space * 4); break;
        default: die("form");
        }
    }
    end();
    free(buffer);
}

// gen FORM REPS SEED N PRE UNIT SEP POST: # in PRE and POST stands for N
static void cmd_gen(void) {
    char form = next()[0];
    size_t reps = nextu(), seed = nextu(), n = nextu(), space = nextu();
    char *t = text(n, NULL);
    passgen_pattern pattern;
    passgen_error error;
    passgen_env env;
    if(passgen_parse(&pattern, &error, t)) fail("pattern");
    source_open(seed);
    passgen_env_init(&env, rnd);
    generate(&pattern, &env, form, reps, space);
    passgen_env_free(&env);
    passgen_pattern_free(&pattern);
    free(t);
    report("emitted", emitted);
}

// list FORM PATTERN REPS LEVEL SEED N PRE UNIT SEP POST: measures reading the list (r),
// preparing the chain (m), generating for the first time (f), then again (c, e, u, 8, j)
static void cmd_list(void) {
    char form = next()[0];
    char *p = unhex(next(), NULL);
    size_t reps = nextu(), level = nextu(), seed = nextu(), n = nextu(), len;
    char *t = text(n, &len);
    FILE *file = fmemopen(t, len, "r");
    if(form == 'r' || form == 'm' || form == 'w') {
        passgen_wordlist list;
        if(form == 'r') begin();
        passgen_wordlist_init(&list, file, level);
        if(passgen_wordlist_parse(&list)) fail("list");
        if(form == 'm') begin();
        if(form != 'w' && level && passgen_wordlist_parse_markov(&list)) fail("chain");
        if(form == 'w') {
            // picking words, finding out how many there are
            source_open(seed);
            begin();
            for(size_t i = 0; i < reps; i++) {
                if(!passgen_wordlist_random(&list, rnd)) fail("no word");
                if(passgen_wordlist_count(&list) == 0) fail("count");
            }
            end();
            passgen_random_free(rnd);
        }
        emitted = passgen_wordlist_count(&list);
        if(form != 'w') end();
        passgen_wordlist_free(&list);
        if(form == 'r') {
            m_steps = steps - base_steps;
        }
    } else {
        passgen_pattern pattern;
        passgen_error error;
        passgen_env env;
        if(passgen_parse(&pattern, &error, p)) fail("pattern");
        source_open(seed);
        passgen_env_init(&env, rnd);
        passgen_env_wordlist_add(&env, strdup("list"), file, level);
        if(form == 'f') generate(&pattern, &env, 'c', reps, 0);
        else {
            generate(&pattern, &env, 'c', 1, 0);
            generate(&pattern, &env, form, reps, 100000);
        }
        passgen_env_free(&env);
        passgen_pattern_free(&pattern);
    }
    free(t);
    free(p);
    report("emitted", emitted);
}

// map WHAT N EXTRA: i inserting, l looking up, a looking up what is absent, r removing,
// c inserting and removing in turn, o inserting the same keys again, x replacing keys
static void cmd_map(void) {
    char what = next()[0];
    size_t n = nextu(), extra = nextu(), wide = nextu();
    passgen_hashmap map;
    passgen_hashmap_init(&map, wide ? &passgen_hashmap_context_utf32 : &passgen_hashmap_context_utf8);
    size_t keys_n = n + extra;
    char *keys = calloc(keys_n, 64);
    for(size_t i = 0; i < keys_n; i++) {
        char *k = keys + 64 * i;
        if(wide) {
            char tmp[16];
            sprintf(tmp, "k%zu", i);
            for(size_t j = 0; tmp[j]; j++) ((uint32_t *) k)[j] = tmp[j];
        } else sprintf(k, "k%zu", i);
    }
#define KEY(i) (keys + 64 * (i))
    uint64_t found = 0;
    if(what == 'i') begin();
    if(what != 'x')
        for(size_t i = 0; i < n; i++) passgen_hashmap_insert(&map, KEY(i), KEY(i));
    if(what == 'i') end();
    switch(what) {
    case 'i': found = map.len; break;
    case 'l':
        begin();
        for(size_t i = 0; i < extra; i++) found += passgen_hashmap_lookup(&map, KEY(mix(i) % n)) != NULL;
        end();
        break;
    case 'a':
        begin();
        for(size_t i = 0; i < extra; i++) found += passgen_hashmap_lookup(&map, KEY(n + i)) != NULL;
        end();
        break;
    case 'r':
        begin();
        for(size_t i = 0; i < n; i++) found += passgen_hashmap_remove(&map, KEY(i)).key != NULL;
        end();
        break;
    case 'o':
        begin();
        for(size_t i = 0; i < n; i++) found += passgen_hashmap_insert(&map, KEY(i), map.data).key != NULL;
        end();
        break;
    case 'c':
        // the amount of entries stays as it is
        begin();
        for(size_t i = 0; i < extra; i++) {
            passgen_hashmap_insert(&map, KEY(n), KEY(n));
            found += passgen_hashmap_remove(&map, KEY(n)).key != NULL;
        }
        end();
        break;
    case 'x':
        // few entries at a time, all of them different
        begin();
        for(size_t i = 0; i < n; i++) {
            passgen_hashmap_insert(&map, KEY(i), KEY(i));
            if(i >= 8) found += passgen_hashmap_remove(&map, KEY(i - 8)).key != NULL;
        }
        end();
        break;
    default: die("what");
    }
    passgen_hashmap_free(&map);
    free(keys);
    report("found", found);
}

static size_t seen;

static void visit(void *element) {
    (void) element;
    seen++;
    add(1);
}

// stack WHAT N EXTRA SIZE
static void cmd_stack(void) {
    char what = next()[0];
    size_t n = nextu(), extra = nextu(), size = nextu();
    passgen_stack stack;
    char *element = calloc(1, size);
    seen = 0;
    if(what == 'p' || what == 'n' || what == 'e') begin();
    passgen_stack_init(&stack, size);
    for(size_t i = 0; i < n; i++) passgen_stack_push(&stack, what == 'n' ? NULL : element);
    if(what == 'p' || what == 'n') end();
    switch(what) {
    case 'e':
        while(passgen_stack_pop(&stack, element)) seen++;
        end();
        break;
    case 'g':
        begin();
        for(size_t i = 0; i < extra; i++) seen += passgen_stack_get(&stack, mix(i) % n) != NULL;
        end();
        break;
    case 't':
        begin();
        for(size_t i = 0; i < extra; i++) seen += passgen_stack_top(&stack) != NULL;
        end();
        break;
    case 'f':
        begin();
        passgen_stack_foreach(&stack, visit);
        end();
        break;
    case 'a':
        // back and forth
        begin();
        for(size_t i = 0; i < extra; i++) {
            passgen_stack_push(&stack, element);
            seen += passgen_stack_pop(&stack, element) != NULL;
        }
        end();
        break;
    }
    passgen_stack_free(&stack);
    free(element);
    report("seen", seen);
}

// array WHAT N EXTRA CAPACITY
static void cmd_array(void) {
    char what = next()[0];
    size_t n = nextu(), extra = nextu(), capacity = nextu();
    passgen_array array;
    seen = 0;
    if(what == 'p' || what == 'e') begin();
    passgen_array_init(&array, capacity);
    for(size_t i = 0; i < n; i++) passgen_array_push(&array, &array);
    if(what == 'p') end();
    switch(what) {
    case 'e':
        while(passgen_array_pop(&array)) seen++;
        end();
        break;
    case 'g':
        begin();
        for(size_t i = 0; i < extra; i++) seen += passgen_array_get(&array, mix(i) % n) != NULL;
        end();
        break;
    case 'a':
        begin();
        for(size_t i = 0; i < extra; i++) {
            passgen_array_push(&array, &array);
            seen += passgen_array_pop(&array) != NULL;
        }
        end();
        break;
    }
    passgen_array_free(&array);
    report("seen", seen);
}

// codec WHAT N PRE UNIT SEP POST
static void cmd_codec(void) {
    char what = next()[0];
    size_t n = nextu(), space = nextu(), len;
    char *t = text(n, &len);
    uint32_t *wide = malloc(4 * (len + 1)), *w = wide;
    uint8_t *widths = malloc(len + 1), *bytes = malloc(len + 8);
    const uint8_t *in = (const uint8_t *) t;
    uint64_t out = 0;
    passgen_utf8_decode(&w, len, NULL, &in, len);
    size_t wn = w - wide, out_pos = 0, in_pos = 0;
    in = (const uint8_t *) t;
    w = wide;
    if(!space) space = len;
    begin();
    switch(what) {
    case 'd': {
        size_t left = len;
        int ret;
        do {
            const uint8_t *was = in;
            w = wide;
            ret = passgen_utf8_decode(&w, space, widths, &in, left);
            left -= in - was;
            out += w - wide;
        } while(ret > 0);
        break;
    }
    case 'e': {
        int ret;
        do {
            out_pos = 0;
            ret = passgen_utf8_encode(bytes, space < 8 ? 8 : space, &out_pos, wide, wn, &in_pos);
            out += out_pos;
        } while(ret > 0);
        break;
    }
    case '1':
        for(size_t i = 0; i < wn; i++) out += passgen_utf8_encode_codepoint(bytes, wide[i]);
        break;
    case 't': {
        passgen_token_parser parser;
        passgen_token token;
        passgen_token_parser_init(&parser);
        for(size_t i = 0; i < wn; i++) {
            int ret = passgen_token_parse(&parser, &token, 1, wide[i]);
            if(ret < 0) break;
            out += ret == PASSGEN_TOKEN_INIT;
        }
        break;
    }
    case 's': {
        uint8_t hash[16] = {0};
        passgen_siphash(t, len, "0123456789abcdef", hash, len % 2 ? 8 : 16);
        out = hash[0];
        break;
    }
    default: die("what");
    }
    end();
    free(wide);
    free(widths);
    free(bytes);
    free(t);
    report("out", out);
}

// rnd KIND WHAT N SEED
static void cmd_rnd(void) {
    char *desc = unhex(next(), NULL);
    char what = next()[0];
    size_t n = nextu(), seed = nextu();
    passgen_random random;
    uint8_t *buffer = malloc(n + 1);
    uint64_t sum = 0;
    begin();
    if(!passgen_random_open(&random, desc)) fail("random");
    if(what != 'o') begin();
    switch(what) {
    case 'r': passgen_random_read(&random, buffer, n); break;
    case 'b':
        for(size_t i = 0; i < n; i++) passgen_random_read(&random, buffer, 1);
        break;
    case '8':
        for(size_t i = 0; i < n; i++) sum += passgen_random_u8(&random);
        break;
    case 'm':
        for(size_t i = 0; i < n; i++) sum += passgen_random_u64_max(&random, 1 + mix(seed + i) % 1000000);
        break;
    case 'l':
        for(size_t i = 0; i < n; i++) sum += passgen_random_u8_max(&random, 1 + mix(seed + i) % 255);
        break;
    case '?':
        for(size_t i = 0; i < n; i++) sum += passgen_random_bool(&random);
        break;
    case 's':
        // far away
        begin();
        passgen_random_chacha20_seek(&random, n);
        passgen_random_read(&random, buffer, 1);
        break;
    case 'o': break;
    default: die("what");
    }
    passgen_random_close(&random);
    end();
    free(buffer);
    free(desc);
    report("sum", sum);
}

// chain WHAT N LEVEL ALPHABET SEED: a adding words, g steps from known states
static void cmd_chain(void) {
    char what = next()[0];
    size_t n = nextu(), level = nextu(), letters = nextu(), seed = nextu();
    passgen_markov markov;
    uint32_t word[16];
    uint64_t sum = 0;
    if(what == 'a') begin();
    passgen_markov_init(&markov, level);
    for(size_t i = 0; i < n; i++) {
        uint64_t z = mix(seed + i);
        size_t l = 3 + z % 6;
        for(size_t k = 0; k < l; k++) word[k] = 'a' + (z >> (8 + 6 * k)) % letters;
        passgen_markov_add(&markov, word, l, 1);
    }
    if(what == 'g') {
        source_open(seed);
        uint32_t window[16] = {0};
        begin();
        for(size_t i = 0; i < 3000; i++) {
            uint32_t c = passgen_markov_generate(&markov, window, rnd, NULL);
            memmove(window, window + 1, sizeof(window[0]) * (level - 1));
            window[level - 1] = c;
            if(!c) memset(window, 0, sizeof(window));
            sum += c != 0;
        }
        passgen_random_free(rnd);
    }
    end();
    passgen_markov_free(&markov);
    report("sum", sum);
}

int main(void) {
    char *buffer = NULL;
    size_t cap = 0;
    setvbuf(stderr, NULL, _IOFBF, 1 << 16);
    while(getline(&buffer, &cap, stdin) > 0) {
        buffer[strcspn(buffer, "\n")] = 0;
        line = buffer;
        char *cmd = next();
        if(setjmp(failure)) {
        } else if(!strcmp(cmd, "parse")) cmd_parse();
        else if(!strcmp(cmd, "gen")) cmd_gen();
        else if(!strcmp(cmd, "list")) cmd_list();
        else if(!strcmp(cmd, "map")) cmd_map();
        else if(!strcmp(cmd, "stack")) cmd_stack();
        else if(!strcmp(cmd, "array")) cmd_array();
        else if(!strcmp(cmd, "codec")) cmd_codec();
        else if(!strcmp(cmd, "rnd")) cmd_rnd();
        else if(!strcmp(cmd, "chain")) cmd_chain();
        else die("unknown command");
        printf(".\n");
        fflush(stdout);
    }
    printf("END\n");
    return 0;
}

#endif

#pragma clang attribute pop
