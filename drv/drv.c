// Executes commands against the library and reports everything that can be
// observed at its interface. One command per line, a response is any amount of
// lines followed by a line with a single dot. Judging happens elsewhere.
#include <passgen/container/array.h>
#include <passgen/container/hashmap.h>
#include <passgen/container/stack.h>
#include <passgen/error.h>
#include <passgen/generate.h>
#include <passgen/markov.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/passgen.h>
#include <passgen/pattern/pattern.h>
#include <passgen/random.h>
#include <passgen/util/siphash.h>
#include <passgen/util/utf8.h>
#include <passgen/wordlist.h>
#include <errno.h>
#include <inttypes.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static FILE *out;

static void die(const char *msg) {
    fprintf(stderr, "DRIVER: %s\n", msg);
    exit(99);
}

// ---------------------------------------------------------------- helpers
static int hexv(int c) {
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    die("bad hex");
    return 0;
}

// exactly sized (so that red zones surround it) NUL-terminated copy
static char *unhex(const char *hex, size_t *len) {
    if(!strcmp(hex, "-")) hex = "";
    size_t n = strlen(hex) / 2;
    char *r = malloc(n + 1);
    for(size_t i = 0; i < n; i++)
        r[i] = hexv(hex[2 * i]) * 16 + hexv(hex[2 * i + 1]);
    r[n] = 0;
    if(len) *len = n;
    return r;
}

static uint8_t *unhex_raw(const char *hex, size_t *len) {
    char *t = unhex(hex, len);
    uint8_t *r = malloc(*len);
    memcpy(r, t, *len);
    free(t);
    return r;
}

// codepoints as comma separated hex
static uint32_t *uncps(const char *s, size_t *len) {
    size_t n = 0;
    if(strcmp(s, "-")) {
        n = 1;
        for(const char *p = s; *p; p++) n += *p == ',';
    }
    uint32_t *r = malloc(n * sizeof(uint32_t));
    char *p = (char *) s;
    for(size_t i = 0; i < n; i++) {
        r[i] = strtoul(p, &p, 16);
        p++;
    }
    *len = n;
    return r;
}

static void puthex(const void *data, size_t len) {
    const uint8_t *d = data;
    static const char digits[] = "0123456789abcdef";
    if(!len) fputc('-', out);
    for(size_t i = 0; i < len; i++) {
        fputc(digits[d[i] >> 4], out);
        fputc(digits[d[i] & 15], out);
    }
}

static void putcps(const uint32_t *d, size_t len) {
    if(!len) fputc('-', out);
    for(size_t i = 0; i < len; i++) fprintf(out, "%s%x", i ? "," : "", d[i]);
}

static char *next(char **line) {
    char *t = strsep(line, " ");
    if(!t) die("missing argument");
    return t;
}

static uint64_t nextu(char **line) {
    return strtoull(next(line), NULL, 10);
}

// ---------------------------------------------------------------- randomness
typedef struct {
    int kind; // 's' splitmix, 'h' bytes then zeros
    uint64_t seed;
    uint8_t *bytes;
    size_t bytes_len;
    uint64_t pos;     // bytes delivered in total
    uint64_t reads;   // reads served
    uint64_t fail_at; // number of the read that fails, ~0 never
    int64_t fail_ret;
    int failed; // whether a read failed already
    int log;
} source;

static uint8_t source_byte(source *s, uint64_t pos) {
    if(s->kind == 'h') return pos < s->bytes_len ? s->bytes[pos] : 0;
    uint64_t z = s->seed + (pos / 8 + 1) * 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31;
    return z >> (8 * (pos % 8));
}

static size_t source_read(void *context, void *dest, size_t size) {
    source *s = context;
    uint8_t *d = dest;
    uint64_t n = s->reads++;
    if(n == s->fail_at) {
        s->failed = 1;
        size_t give = s->fail_ret < 0 ? 0 : (size_t) s->fail_ret;
        if(give > size) give = size;
        for(size_t i = 0; i < give; i++) d[i] = source_byte(s, s->pos++);
        fprintf(out, "F %" PRIu64 "\n", n);
        fflush(out);
        if(s->fail_ret < 0) return (size_t) s->fail_ret;
        return give;
    }
    for(size_t i = 0; i < size; i++) d[i] = source_byte(s, s->pos + i);
    s->pos += size;
    if(s->log) fprintf(out, "L %zu\n", size);
    return size;
}

static int source_closed;

static void source_close(void *context) {
    source *s = context;
    free(s->bytes);
    free(s);
    source_closed++;
}

// opens a source by its specification, NULL if it was refused
static passgen_random *open_source(const char *spec_in, source **custom) {
    char *spec = strdup(spec_in), *p = spec;
    char *kind = strsep(&p, ":");
    passgen_random *r = NULL;
    if(custom) *custom = NULL;
    if(!strcmp(kind, "s") || !strcmp(kind, "h") || !strcmp(kind, "f") || !strcmp(kind, "sl")) {
        source *s = calloc(1, sizeof(source));
        s->kind = kind[0] == 'h' ? 'h' : 's';
        s->log = !strcmp(kind, "sl");
        s->fail_at = ~0ull;
        if(kind[0] == 'h') {
            s->bytes = unhex_raw(p, &s->bytes_len);
        } else if(kind[0] == 'f') {
            s->fail_at = strtoull(strsep(&p, ":"), NULL, 10);
            s->fail_ret = strtoll(strsep(&p, ":"), NULL, 10);
            s->seed = strtoull(p, NULL, 10);
        } else {
            s->seed = strtoull(p, NULL, 10);
        }
        r = calloc(1, sizeof(*r));
        r->context = s;
        r->read = source_read;
        r->close = source_close;
        if(custom) *custom = s;
        passgen_random_reload(r);
    } else if(!strcmp(kind, "d")) { // description
        char *d = unhex(p, NULL);
        r = passgen_random_open(NULL, d);
        free(d);
    } else if(!strcmp(kind, "D")) { // description, preallocated
        char *d = unhex(p, NULL);
        passgen_random *m = malloc(sizeof(*m));
        r = passgen_random_open(m, d);
        if(!r) free(m);
        free(d);
    } else if(!strcmp(kind, "x")) {
        r = passgen_random_xorshift_open(NULL, strtoull(p, NULL, 10));
    } else if(!strcmp(kind, "p")) {
        char *d = unhex(p, NULL);
        r = passgen_random_path_open(NULL, d);
        free(d);
    } else if(!strcmp(kind, "k")) {
        size_t l;
        uint8_t *key = unhex_raw(strsep(&p, ":"), &l);
        uint8_t *iv = unhex_raw(p, &l);
        r = passgen_random_chacha20_open(NULL, key, iv);
        free(key);
        free(iv);
    } else if(!strcmp(kind, "a")) {
        // pass:domain:token[:algorithm,blocks,passes,lanes]
        char *a[3] = {0};
        for(int i = 0; i < 3; i++) {
            char *t = strsep(&p, ":");
            a[i] = !strcmp(t, "~") ? NULL : unhex(t, NULL);
        }
        passgen_argon2_config c, *cp = NULL;
        if(p) {
            unsigned v[4];
            if(sscanf(p, "%u,%u,%u,%u", &v[0], &v[1], &v[2], &v[3]) != 4)
                die("bad argon2 config");
            c.algorithm = v[0];
            c.nb_blocks = v[1];
            c.nb_passes = v[2];
            c.nb_lanes = v[3];
            cp = &c;
        }
        r = passgen_random_chacha20_argon2_open(
            NULL, (uint8_t *) a[0], (uint8_t *) a[1], (uint8_t *) a[2], cp);
        for(int i = 0; i < 3; i++) free(a[i]);
    } else {
        die("bad source");
    }
    free(spec);
    return r;
}

// ---------------------------------------------------------------- environment
static passgen_env env;
static int env_open;

static void env_ready(void) {
    if(!env_open) {
        passgen_env_init(&env, NULL);
        env_open = 1;
    }
}

static void env_close(void) {
    if(env_open) {
        // all of what is handed over is released
        if(!env.random) env.random = passgen_random_open(NULL, "xorshift:1");
        passgen_hashmap_insert(&env.presets, "preset", "[a-z]");
        passgen_env_free(&env);
    }
    env_open = 0;
}

// ---------------------------------------------------------------- collecting
typedef struct {
    uint32_t *data;
    size_t len, cap;
    size_t stop; // refuse this call
    int stop_ret;
    size_t calls;
    source *src;
    size_t after_fail;
} collector;

#define COLLECT_MAX 3000000

static int collect(void *data, uint32_t codepoint) {
    collector *c = data;
    c->calls++;
    if(c->src && c->src->failed) {
        c->after_fail++;
        fprintf(out, "AFTERFAIL %x\n", codepoint);
        fflush(out);
    }
    if(c->calls - 1 == c->stop) return c->stop_ret;
    if(c->len >= COLLECT_MAX) return 77;
    if(c->len == c->cap) {
        c->cap = c->cap ? 2 * c->cap : 64;
        c->data = realloc(c->data, c->cap * sizeof(uint32_t));
    }
    c->data[c->len++] = codepoint;
    return 0;
}

// what a caller's variable for the entropy may hold beforehand
static double leftover(size_t i) {
    static const double all[] = {-1, 0, 123.456, NAN, INFINITY, 1e-300, -INFINITY, 1};
    return all[i % 8];
}

static int do_parse(passgen_pattern *pattern, const char *mode, const char *arg) {
    int rc;
    if(mode[0] == 'u') { // incremental, from codepoints
        size_t n;
        uint32_t *cps = uncps(arg, &n);
        passgen_parser parser;
        passgen_parser_init(&parser, pattern);
        rc = passgen_parser_unicode(&parser, cps, n);
        int rc2 = 0;
        if(rc == 0) rc2 = passgen_parse_finish(&parser);
        passgen_parser_free(&parser);
        free(cps);
        fprintf(out, "P %d %d\n", rc, rc2);
        return rc ? rc : rc2;
    }
    char *s = unhex(arg, NULL);
    passgen_error error;
    memset(&error, 0xEE, sizeof(error));
    rc = passgen_parse(pattern, &error, s);
    if(rc) {
        fprintf(out, "P %d %zu %zu ", rc, error.offset.codepoint, error.offset.byte);
        if(error.message)
            puthex(error.message, strlen(error.message));
        else
            fprintf(out, "NULL");
        fprintf(out, "\n");
        passgen_error_free(&error);
    } else {
        fprintf(out, "P 0\n");
    }
    free(s);
    return rc;
}

// gen MODE DEPTH SRC N PATTERN; mode: letters e (entropy), u (from codepoints),
// c (count of codepoints only), l (refuses codepoints after a thousand)
static void cmd_gen(char *line) {
    char *mode = next(&line);
    size_t depth = nextu(&line);
    char *spec = next(&line);
    size_t n = nextu(&line);
    passgen_pattern pattern;
    int rc = do_parse(&pattern, strchr(mode, 'u') ? "u" : "s", next(&line));
    if(rc == 0) {
        env_ready();
        source *src;
        env.random = open_source(spec, &src);
        if(!env.random) {
            fprintf(out, "NOSRC\n");
        } else {
            env.depth_limit = depth;
            for(size_t i = 0; i < n; i++) {
                collector c = {.stop = strchr(mode, 'l') ? 1000 : SIZE_MAX, .stop_ret = 77, .src = src};
                double entropy = strchr(mode, 'e') ? leftover(i) : -1;
                int r = passgen_generate(
                    &pattern, &env, strchr(mode, 'e') ? &entropy : NULL, &c, collect);
                fprintf(out, "S %d %zu %.17g %" PRIu64 " ", r, c.len, entropy, src ? src->pos : 0);
                if(strchr(mode, 'c'))
                    fputc('-', out);
                else
                    putcps(c.data, c.len);
                fputc('\n', out);
                free(c.data);
            }
            passgen_random_free(env.random);
            env.random = NULL;
        }
    }
    passgen_pattern_free(&pattern);
}

// fill KIND LEN DEPTH SRC PATTERN: kind u, 8, j; exactly sized buffer
static size_t fill_once(
    char kind,
    size_t len,
    size_t depth,
    const char *spec,
    int want_entropy,
    const passgen_pattern *pattern) {
    env_ready();
    env.random = open_source(spec, NULL);
    env.depth_limit = depth;
    size_t size = kind == 'u' ? 4 : 1;
    // guard zones on both sides, checked afterwards as well
    size_t guard = 64;
    uint8_t *area = malloc(len * size + 2 * guard);
    memset(area, 0xA5, len * size + 2 * guard);
    static size_t calls;
    double entropy = want_entropy ? leftover(calls++) : -1;
    double *e = want_entropy ? &entropy : NULL;
    void *buffer = area + guard;
    size_t r = 0;
    uint8_t *exact = NULL;
    if(want_entropy != 2) {
        exact = malloc(len * size);
        memset(exact, 0xA5, len * size);
        buffer = exact;
    }
    if(kind == 'u')
        r = passgen_generate_fill_unicode(pattern, &env, e, buffer, len);
    else if(kind == '8')
        r = passgen_generate_fill_utf8(pattern, &env, e, buffer, len);
    else
        r = passgen_generate_fill_json_utf8(pattern, &env, e, buffer, len);
    int dirty = 0;
    for(size_t i = 0; i < guard; i++)
        dirty |= area[i] != 0xA5 || area[guard + len * size + i] != 0xA5;
    fprintf(out, "B %zu %.17g %d ", r, entropy, dirty);
    if(r > len)
        fprintf(out, "OVER");
    else if(kind == 'u')
        putcps(buffer, r);
    else
        puthex(buffer, r);
    fputc('\n', out);
    free(exact);
    free(area);
    passgen_random_free(env.random);
    env.random = NULL;
    return r;
}

static void cmd_fill(char *line) {
    char kind = next(&line)[0];
    size_t len = nextu(&line);
    size_t depth = nextu(&line);
    char *spec = next(&line);
    int want_entropy = nextu(&line);
    passgen_pattern pattern;
    int rc = do_parse(&pattern, "s", next(&line));
    if(rc == 0) fill_once(kind, len, depth, spec, want_entropy, &pattern);
    passgen_pattern_free(&pattern);
}

// fills KIND DEPTH SRC WANT_ENTROPY PATTERN: with a large buffer, and then with
// sizes around what that needed; each B is preceded by the length
static void cmd_fills(char *line) {
    char kind = next(&line)[0];
    size_t depth = nextu(&line);
    char *spec = next(&line);
    int want_entropy = nextu(&line);
    passgen_pattern pattern;
    int rc = do_parse(&pattern, "s", next(&line));
    if(rc == 0) {
        fprintf(out, "%d ", 1 << 17);
        size_t full = fill_once(kind, 1 << 17, depth, spec, want_entropy, &pattern);
        for(size_t len = 0; len <= full + 8; len++) {
            if(len > 12 && len + 8 < full && full > 40 && len != full / 2) continue;
            fprintf(out, "%zu ", len);
            fill_once(kind, len, depth, spec, want_entropy, &pattern);
        }
    }
    passgen_pattern_free(&pattern);
}

// stop K RET DEPTH SRC PATTERN: callback refuses call number K
static void cmd_stop(char *line) {
    size_t k = nextu(&line);
    int ret = atoi(next(&line));
    size_t depth = nextu(&line);
    char *spec = next(&line);
    passgen_pattern pattern;
    int rc = do_parse(&pattern, "s", next(&line));
    if(rc == 0) {
        env_ready();
        env.random = open_source(spec, NULL);
        env.depth_limit = depth;
        collector c = {.stop = k, .stop_ret = ret};
        int r = passgen_generate(&pattern, &env, NULL, &c, collect);
        fprintf(out, "T %d %zu ", r, c.calls);
        putcps(c.data, c.len);
        fputc('\n', out);
        free(c.data);
        passgen_random_free(env.random);
        env.random = NULL;
    }
    passgen_pattern_free(&pattern);
}

// ---------------------------------------------------------------- histograms
typedef struct {
    uint32_t *key;
    size_t len;
    uint64_t count;
    double entropy;
    int conflict;
} bucket;

typedef struct {
    bucket *data;
    size_t cap, len;
} histogram;

static bucket *hist_get(histogram *h, const uint32_t *key, size_t len) {
    if(h->len * 2 >= h->cap) {
        histogram o = *h;
        h->cap = o.cap ? 2 * o.cap : 1024;
        h->data = calloc(h->cap, sizeof(bucket));
        h->len = 0;
        for(size_t i = 0; i < o.cap; i++) {
            if(!o.data[i].count) continue;
            bucket *b = hist_get(h, o.data[i].key, o.data[i].len);
            free(b->key);
            *b = o.data[i];
        }
        free(o.data);
    }
    uint64_t x = 1469598103934665603ull;
    for(size_t i = 0; i < len; i++) x = (x ^ key[i]) * 1099511628211ull;
    x ^= x >> 29;
    for(size_t i = x % h->cap;; i = (i + 1) % h->cap) {
        bucket *b = &h->data[i];
        if(!b->count) {
            b->key = malloc(len * 4 + 1);
            if(len) memcpy(b->key, key, len * 4);
            b->len = len;
            b->entropy = -1;
            h->len++;
            return b;
        }
        if(b->len == len && (!len || !memcmp(b->key, key, len * 4))) return b;
    }
}

// hist MODE DEPTH SRC N PATTERN
static void cmd_hist(char *line) {
    char *mode = next(&line);
    size_t depth = nextu(&line);
    char *spec = next(&line);
    size_t n = nextu(&line);
    passgen_pattern pattern;
    int rc = do_parse(&pattern, "s", next(&line));
    if(rc == 0) {
        env_ready();
        env.random = open_source(spec, NULL);
        env.depth_limit = depth;
        histogram h = {0};
        collector c = {.stop = SIZE_MAX};
        uint64_t failed = 0;
        for(size_t i = 0; i < n; i++) {
            double entropy = strchr(mode, 'e') ? leftover(i) : -1;
            c.len = 0;
            c.calls = 0;
            int r = passgen_generate(
                &pattern, &env, strchr(mode, 'e') ? &entropy : NULL, &c, collect);
            if(r) {
                failed++;
                continue;
            }
            bucket *b = hist_get(&h, c.data, c.len);
            if(b->count && b->entropy != entropy) b->conflict = 1;
            b->count++;
            b->entropy = entropy;
        }
        fprintf(out, "HF %" PRIu64 "\n", failed);
        for(size_t i = 0; i < h.cap; i++) {
            bucket *b = &h.data[i];
            if(!b->count) continue;
            fprintf(out, "H %" PRIu64 " %.17g %d ", b->count, b->entropy, b->conflict);
            putcps(b->key, b->len);
            fputc('\n', out);
            free(b->key);
        }
        free(h.data);
        free(c.data);
        passgen_random_free(env.random);
        env.random = NULL;
    }
    passgen_pattern_free(&pattern);
}

// ---------------------------------------------------------------- random ops
// rnd SRC OP,OP,...
static void cmd_rnd(char *line) {
    char *spec = next(&line);
    source *src;
    passgen_random *r = open_source(spec, &src);
    if(!r) {
        fprintf(out, "NOSRC\n");
        return;
    }
    char *ops = next(&line), *op;
    while((op = strsep(&ops, ","))) {
        if(!strcmp(op, "-")) continue;
        if(src && src->failed) {
            fprintf(out, "AFTERFAIL\n");
            fflush(out);
        }
        switch(op[0]) {
            case 'r': { // raw read, followed by a guard
                size_t n = strtoull(op + 1, NULL, 10);
                uint8_t *d = malloc(n);
                memset(d, 0, n);
                passgen_random_read(r, d, n);
                fputc('r', out);
                fputc(' ', out);
                puthex(d, n);
                fputc('\n', out);
                free(d);
                break;
            }
            case 'R': { // discard
                size_t n = strtoull(op + 1, NULL, 10);
                uint8_t *d = malloc(n);
                passgen_random_read(r, d, n);
                free(d);
                break;
            }
            case 't':
                fprintf(out, "t %d\n", passgen_random_bool(r));
                break;
            case 'u': {
                uint64_t v = 0;
                switch(op[1]) {
                    case '1': v = passgen_random_u8(r); break;
                    case '2': v = passgen_random_u16(r); break;
                    case '4': v = passgen_random_u32(r); break;
                    case '8': v = passgen_random_u64(r); break;
                }
                fprintf(out, "u %" PRIu64 "\n", v);
                break;
            }
            case 'm': {
                uint64_t max = strtoull(op + 3, NULL, 10), v = 0;
                switch(op[1]) {
                    case '1': v = passgen_random_u8_max(r, max); break;
                    case '2': v = passgen_random_u16_max(r, max); break;
                    case '4': v = passgen_random_u32_max(r, max); break;
                    case '8': v = passgen_random_u64_max(r, max); break;
                }
                fprintf(out, "m %" PRIu64 "\n", v);
                break;
            }
            case 'k':
                passgen_random_chacha20_seek(r, strtoull(op + 1, NULL, 10));
                fprintf(out, "k\n");
                break;
            case 'p':
                if(src) fprintf(out, "p %" PRIu64 "\n", src->pos);
                break;
            case 'z': { // close, then look at the object
                int before = source_closed;
                passgen_random_close(r);
                uint8_t *b = (uint8_t *) r;
                size_t dirty = 0;
                for(size_t i = 0; i < sizeof(*r); i++) dirty += b[i] != 0;
                fprintf(out, "z %zu %d\n", dirty, source_closed - before);
                free(r);
                r = NULL;
                break;
            }
            default: die("bad op");
        }
    }
    if(r) {
        int before = source_closed;
        passgen_random_free(r);
        if(src) fprintf(out, "c %d\n", source_closed - before);
    }
}

// ints SRC WIDTH MAX N BUCKETS: histogram over equal parts of the range. A
// width of 0 means booleans; a MAX of 0 means unbounded.
static void cmd_ints(char *line) {
    char *spec = next(&line);
    int width = nextu(&line);
    uint64_t max = nextu(&line);
    size_t n = nextu(&line);
    size_t buckets = nextu(&line);
    passgen_random *r = open_source(spec, NULL);
    uint64_t *count = calloc(buckets, sizeof(uint64_t));
    unsigned __int128 range = max ? max : (unsigned __int128) 1 << (width ? 8 * width : 1);
    uint64_t over = 0, last = 0;
    uint64_t *repeat = calloc(2, sizeof(uint64_t));
    for(size_t i = 0; i < n; i++) {
        uint64_t v = 0;
        switch(width) {
            case 0: v = passgen_random_bool(r); break;
            case 1: v = max ? passgen_random_u8_max(r, max) : passgen_random_u8(r); break;
            case 2: v = max ? passgen_random_u16_max(r, max) : passgen_random_u16(r); break;
            case 4: v = max ? passgen_random_u32_max(r, max) : passgen_random_u32(r); break;
            case 8: v = max ? passgen_random_u64_max(r, max) : passgen_random_u64(r); break;
        }
        if(v >= range) {
            over++;
            last = v;
            continue;
        }
        count[(size_t) ((unsigned __int128) v * buckets / range)]++;
    }
    fprintf(out, "O %" PRIu64 " %" PRIu64 "\nI", over, last);
    for(size_t i = 0; i < buckets; i++) fprintf(out, " %" PRIu64, count[i]);
    fputc('\n', out);
    free(count);
    free(repeat);
    passgen_random_free(r);
}

static uint64_t draw(passgen_random *r, int width, uint64_t max) {
    switch(width) {
        case 1: return max ? passgen_random_u8_max(r, max) : passgen_random_u8(r);
        case 2: return max ? passgen_random_u16_max(r, max) : passgen_random_u16(r);
        case 4: return max ? passgen_random_u32_max(r, max) : passgen_random_u32(r);
        case 8: return max ? passgen_random_u64_max(r, max) : passgen_random_u64(r);
        default: return passgen_random_bool(r);
    }
}

// mods SRC WIDTH MAX N MOD,...: histograms of values modulo each MOD
static void cmd_mods(char *line) {
    char *spec = next(&line);
    int width = nextu(&line);
    uint64_t max = nextu(&line);
    size_t n = nextu(&line);
    char *list = next(&line), *item;
    size_t mods[32], k = 0;
    uint64_t *count[32];
    while(k < 32 && (item = strsep(&list, ","))) {
        mods[k] = strtoull(item, NULL, 10);
        count[k] = calloc(mods[k], sizeof(uint64_t));
        k++;
    }
    passgen_random *r = open_source(spec, NULL);
    for(size_t i = 0; i < n; i++) {
        uint64_t v = draw(r, width, max);
        for(size_t j = 0; j < k; j++) count[j][v % mods[j]]++;
    }
    for(size_t j = 0; j < k; j++) {
        fprintf(out, "I");
        for(size_t i = 0; i < mods[j]; i++) fprintf(out, " %" PRIu64, count[j][i]);
        fputc('\n', out);
        free(count[j]);
    }
    passgen_random_free(r);
}

// exact WIDTH MAX: feeds all words of this width (1 or 2), twice and in different
// orders, and counts from how many words each value results. Prints X and the
// number of values that result from each number of words, or S if that cannot be
// told (more than one word per value, or not a function of the word).
typedef struct {
    uint64_t next, mul, add, loads;
    int width;
} wordsource;

static uint64_t word_at(const wordsource *w, uint64_t j) {
    return (j * w->mul + w->add) & (w->width == 1 ? 0xff : 0xffff);
}

static size_t word_read(void *context, void *dest, size_t size) {
    wordsource *w = context;
    uint8_t *d = dest;
    for(size_t i = 0; i + w->width <= size; i += w->width) {
        uint64_t v = word_at(w, w->next++);
        for(int b = 0; b < w->width; b++) d[i + b] = v >> (8 * b);
    }
    w->loads++;
    return size;
}

static void word_close(void *context) {
    (void) context;
}

static void cmd_exact(char *line) {
    int width = nextu(&line);
    uint64_t max = nextu(&line);
    int bytes = width ? width : 1;
    size_t words = (size_t) 1 << (8 * bytes);
    size_t values = max ? max : width ? words : 2;
    int32_t *map[2];
    const uint64_t muls[2] = {1, 0x9e35}, adds[2] = {0, 0x1d};
    bool skip = false;
    for(int pass = 0; pass < 2; pass++) {
        map[pass] = malloc(sizeof(int32_t) * words);
        for(size_t i = 0; i < words; i++) map[pass][i] = -2;
        wordsource w = {0, muls[pass] | 1, adds[pass], 0, bytes};
        passgen_random r;
        memset(&r, 0, sizeof(r));
        r.context = &w;
        r.read = word_read;
        r.close = word_close;
        passgen_random_reload(&r);
        uint64_t before = (w.loads - 1) * sizeof(r.buffer) + r.pos;
        while(before < 3 * words * bytes && !skip) {
            uint64_t v = draw(&r, width, max);
            uint64_t after = (w.loads - 1) * sizeof(r.buffer) + r.pos;
            if(v >= values || after <= before || (after - before) % bytes) {
                skip = true;
                break;
            }
            for(uint64_t j = before / bytes; j < after / bytes; j++) {
                int32_t *m = &map[pass][word_at(&w, j)];
                int32_t now = j + 1 == after / bytes ? (int32_t) v : -1;
                if(*m != -2 && *m != now) skip = true;
                *m = now;
            }
            before = after;
        }
        passgen_random_close(&r);
    }
    uint32_t *count = calloc(values, sizeof(uint32_t));
    for(size_t i = 0; i < words && !skip; i++) {
        if(map[0][i] != map[1][i] || map[0][i] == -2) skip = true;
        else if(map[0][i] >= 0) count[map[0][i]]++;
    }
    uint32_t lo = UINT32_MAX, hi = 0;
    size_t lov = 0, hiv = 0;
    for(size_t i = 0; i < values; i++) {
        if(count[i] < lo) lo = count[i], lov = i;
        if(count[i] > hi) hi = count[i], hiv = i;
    }
    if(skip) fprintf(out, "S\n");
    else fprintf(out, "X %u %zu %u %zu\n", lo, lov, hi, hiv);
    free(count);
    free(map[0]);
    free(map[1]);
}

// ---------------------------------------------------------------- files
// Opens PATH, or, for ~CHUNK~FAILAT~SEEKABLE~PATH, the same content delivered in
// chunks, failing (if not negative) once that many bytes were delivered.
typedef struct {
    FILE *file;
    long chunk, failat, pos;
} slowfile;

static ssize_t slow_read(void *cookie, char *buf, size_t size) {
    slowfile *s = cookie;
    if(s->failat >= 0 && s->pos >= s->failat) {
        errno = EIO;
        return -1;
    }
    if(size > (size_t) s->chunk) size = s->chunk;
    if(s->failat >= 0 && s->pos + (long) size > s->failat) size = s->failat - s->pos;
    size = fread(buf, 1, size, s->file);
    s->pos += size;
    return size;
}

static int slow_seek(void *cookie, off64_t *off, int whence) {
    slowfile *s = cookie;
    if(fseek(s->file, *off, whence)) return -1;
    *off = s->pos = ftell(s->file);
    return 0;
}

static int slow_close(void *cookie) {
    slowfile *s = cookie;
    fclose(s->file);
    free(s);
    return 0;
}

static FILE *open_list(const char *path) {
    if(path[0] != '~') return fopen(path, "r");
    char *p;
    slowfile *s = calloc(1, sizeof(*s));
    s->chunk = strtol(path + 1, &p, 10);
    s->failat = strtol(p + 1, &p, 10);
    long seekable = strtol(p + 1, &p, 10);
    s->file = fopen(p + 1, "r");
    if(!s->file) die("cannot open wordlist");
    cookie_io_functions_t f = {slow_read, NULL, seekable ? slow_seek : NULL, slow_close};
    return fopencookie(s, "r", f);
}

// ---------------------------------------------------------------- wordlists
// wl NAME PATH LEVEL
static void cmd_wl(char *line) {
    env_ready();
    char *name = unhex(next(&line), NULL);
    char *path = unhex(next(&line), NULL);
    size_t level = nextu(&line);
    FILE *file = open_list(path);
    if(!file) die("cannot open wordlist");
    int r = passgen_env_wordlist_add(&env, name, file, level);
    fprintf(out, "W %d\n", r);
    free(path);
}

// wload PATH LEVEL SRC N: the wordlist interface without environment
static void cmd_wload(char *line) {
    char *path = unhex(next(&line), NULL);
    size_t level = nextu(&line);
    char *spec = next(&line);
    size_t n = nextu(&line);
    FILE *file = open_list(path);
    if(!file) die("cannot open wordlist");
    passgen_wordlist wl;
    passgen_wordlist_init(&wl, file, level);
    int r = passgen_wordlist_parse(&wl);
    fprintf(out, "W %d\n", r);
    if(r == 0) {
        size_t count = passgen_wordlist_count(&wl);
        fprintf(out, "WC %zu\n", count);
        for(size_t i = 0; i < count; i++) {
            fprintf(out, "WW ");
            puthex(wl.words[i], strlen(wl.words[i]));
            fputc('\n', out);
        }
        if(count) {
            passgen_random *rnd = open_source(spec, NULL);
            for(size_t i = 0; i < n; i++) {
                const char *w = passgen_wordlist_random(&wl, rnd);
                fprintf(out, "WR ");
                if(w) puthex(w, strlen(w)); else fprintf(out, "NULL");
                fputc('\n', out);
            }
            passgen_random_free(rnd);
        }
    }
    passgen_wordlist_free(&wl);
    free(path);
}

// ---------------------------------------------------------------- markov
static passgen_markov mk;
static int mk_open;

static void cmd_mk(char *line) {
    char *sub = next(&line);
    if(!strcmp(sub, "new")) {
        if(mk_open) passgen_markov_free(&mk);
        passgen_markov_init(&mk, nextu(&line));
        mk_open = 1;
    } else if(!strcmp(sub, "add")) {
        size_t weight = nextu(&line), n;
        uint32_t *w = uncps(next(&line), &n);
        passgen_markov_add(&mk, w, n, weight);
        free(w);
    } else if(!strcmp(sub, "next")) {
        // next SRC N WINDOW: histogram of what follows the window
        char *spec = next(&line);
        size_t n = nextu(&line), wn;
        uint32_t *window = uncps(next(&line), &wn);
        if(wn != mk.level) die("bad window");
        passgen_random *r = open_source(spec, NULL);
        histogram h = {0};
        for(size_t i = 0; i < n; i++) {
            double entropy = 1;
            uint32_t cp = passgen_markov_generate(&mk, window, r, &entropy);
            bucket *b = hist_get(&h, &cp, 1);
            if(b->count && b->entropy != entropy) b->conflict = 1;
            b->count++;
            b->entropy = entropy;
        }
        for(size_t i = 0; i < h.cap; i++) {
            if(!h.data[i].count) continue;
            fprintf(out, "H %" PRIu64 " %.17g %d %x\n", h.data[i].count,
                h.data[i].entropy, h.data[i].conflict, h.data[i].key[0]);
            free(h.data[i].key);
        }
        free(h.data);
        free(window);
        passgen_random_free(r);
    } else if(!strcmp(sub, "walk")) {
        // walk SRC N MAXLEN: words generated by following the chain
        char *spec = next(&line);
        size_t n = nextu(&line), maxlen = nextu(&line);
        passgen_random *r = open_source(spec, NULL);
        for(size_t i = 0; i < n; i++) {
            double entropy = 1;
            uint32_t *word = calloc(mk.level + maxlen + 1, 4);
            size_t len = 0;
            while(len < maxlen) {
                uint32_t cp = passgen_markov_generate(&mk, &word[len], r, &entropy);
                word[mk.level + len] = cp;
                if(!cp) break;
                len++;
            }
            fprintf(out, "M %.17g %d ", entropy, len == maxlen);
            putcps(&word[mk.level], len);
            fputc('\n', out);
            free(word);
        }
        passgen_random_free(r);
    } else if(!strcmp(sub, "free")) {
        if(mk_open) passgen_markov_free(&mk);
        mk_open = 0;
    } else if(!strcmp(sub, "leaf")) {
        // leaf CP:W,CP:W,... then counts of queried codepoints
        char *ops = next(&line), *op;
        passgen_markov_leaf *leaf = passgen_markov_leaf_new(0);
        while((op = strsep(&ops, ","))) {
            char *q;
            uint32_t cp = strtoul(op, &q, 16);
            if(*q == ':') {
                leaf = passgen_markov_leaf_insert(leaf, cp, strtoull(q + 1, NULL, 10));
            } else {
                fprintf(out, "Q %u\n", passgen_markov_leaf_count(leaf, cp));
            }
        }
        fprintf(out, "QT %zu\n", leaf->total_count);
        passgen_markov_leaf_free(leaf);
    } else {
        die("bad mk");
    }
}

// ---------------------------------------------------------------- utf8
// dec CAP WIDTHS HEX: decode, resuming as long as output is what is missing
static void cmd_dec(char *line) {
    size_t cap = nextu(&line);
    int widths = nextu(&line);
    int resume = nextu(&line);
    size_t len;
    uint8_t *in = unhex_raw(next(&line), &len);
    size_t pos = 0;
    for(size_t round = 0;; round++) {
        uint32_t *o = malloc(cap * 4);
        uint8_t *w = malloc(cap);
        memset(o, 0xEE, cap * 4);
        memset(w, 0xEE, cap);
        uint32_t *oc = o;
        // exactly sized copy of what is left
        uint8_t *rest = malloc(len - pos);
        if(len != pos) memcpy(rest, in + pos, len - pos);
        const uint8_t *ic = rest;
        int r = passgen_utf8_decode(&oc, cap, widths ? w : NULL, &ic, len - pos);
        fprintf(out, "D %d %td %td ", r, ic - rest, oc - o);
        size_t n = oc >= o && oc <= o + cap ? oc - o : 0;
        putcps(o, n);
        fputc(' ', out);
        if(widths)
            puthex(w, n);
        else
            fputc('-', out);
        fputc('\n', out);
        ptrdiff_t used = ic - rest;
        free(o);
        free(w);
        free(rest);
        if(used > 0) pos += used;
        if(!resume || r <= 0 || (used <= 0 && n == 0) || pos > len) break;
    }
    free(in);
}

// decs HEX,HEX,...: each on its own, into exactly as much space as could be used
static void cmd_decs(char *line) {
    char *list = next(&line), *one;
    while((one = strsep(&list, ","))) {
        size_t len;
        uint8_t *in = unhex_raw(one, &len);
        uint32_t *o = malloc(len * 4);
        uint8_t *w = malloc(len);
        uint32_t *oc = o;
        const uint8_t *ic = in;
        int r = passgen_utf8_decode(&oc, len, w, &ic, len);
        fprintf(out, "%d:%td:", r, ic - in);
        size_t n = oc >= o && oc <= o + len ? oc - o : 0;
        for(size_t i = 0; i < n; i++) fprintf(out, "%x/%d.", o[i], w[i]);
        fputc(list ? ' ' : '\n', out);
        free(o);
        free(w);
        free(in);
    }
}

// enc CAP RESUME CPS
static void cmd_enc(char *line) {
    size_t cap = nextu(&line);
    int resume = nextu(&line);
    size_t n;
    uint32_t *in = uncps(next(&line), &n);
    size_t in_pos = 0;
    for(;;) {
        uint8_t *o = malloc(cap);
        memset(o, 0xEE, cap);
        size_t out_pos = 0, before = in_pos;
        int r = passgen_utf8_encode(o, cap, &out_pos, in, n, &in_pos);
        fprintf(out, "E %d %zu %zu ", r, in_pos, out_pos);
        if(out_pos > cap) {
            fprintf(out, "OVER\n");
            free(o);
            break;
        }
        puthex(o, out_pos);
        // is the remainder untouched, apart from the terminator
        int dirty = 0;
        for(size_t i = out_pos + 1; i < cap; i++) dirty |= o[i] != 0xEE;
        fprintf(out, " %d\n", dirty);
        free(o);
        if(!resume || r <= 0 || in_pos == before) break;
    }
    free(in);
}

static void cmd_enc1(char *line) {
    size_t n;
    uint32_t *in = uncps(next(&line), &n);
    for(size_t i = 0; i < n; i++) {
        uint8_t b[8];
        memset(b, 0xEE, sizeof(b));
        int r = passgen_utf8_encode_codepoint(b, in[i]);
        int dirty = 0;
        for(int j = 4; j < 8; j++) dirty |= b[j] != 0xEE;
        fprintf(out, "e %d %d ", r, dirty);
        puthex(b, r > 0 && r < 8 ? r : 0);
        fputc('\n', out);
    }
    free(in);
}

// encrange FROM TO: checksum-free complete listing, compact
static void cmd_encrange(char *line) {
    uint32_t from = strtoul(next(&line), NULL, 16), to = strtoul(next(&line), NULL, 16);
    for(uint32_t cp = from; cp < to; cp++) {
        uint8_t b[8];
        memset(b, 0, sizeof(b));
        int r = passgen_utf8_encode_codepoint(b, cp);
        if(r <= 0) fputc('!', out);
        else puthex(b, r > 8 ? 8 : r);
        fputc(cp + 1 == to ? '\n' : ' ', out);
    }
}

// ---------------------------------------------------------------- tokens
// tok CP:WIDTH,...
static void cmd_tok(char *line) {
    char *ops = next(&line), *op;
    struct passgen_token_parser parser;
    memset(&parser, 0xEE, sizeof(parser));
    passgen_token_parser_init(&parser);
    struct passgen_token token;
    memset(&token, 0, sizeof(token));
    while((op = strsep(&ops, ","))) {
        if(!strcmp(op, "-")) break;
        char *q;
        uint32_t cp = strtoul(op, &q, 16);
        int w = strtoul(q + 1, NULL, 10);
        int r = passgen_token_parse(&parser, &token, w, cp);
        const char *msg = passgen_token_parse_error_str(r);
        fprintf(out, "K %d %x %zu %zu %d\n", r, token.codepoint,
            (size_t) token.offset, (size_t) token.byte_offset, msg && *msg);
    }
}

static void cmd_tokconst(char *line) {
    (void) line;
    fprintf(out, "%d %d %d %d %d %d %d %x\n", PASSGEN_TOKEN_INIT,
        PASSGEN_TOKEN_ESCAPED, PASSGEN_TOKEN_UNICODE, PASSGEN_TOKEN_UNICODE_PAYLOAD,
        PASSGEN_TOKEN_ERROR_UNICODE_START, PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD,
        PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD_LEN, PASSGEN_TOKEN_ESCAPED_BIT);
}

// ---------------------------------------------------------------- siphash
// sip ALIGN OUTLEN KEY MSG
static void cmd_sip(char *line) {
    size_t align = nextu(&line), outlen = nextu(&line), kl, ml;
    uint8_t *k = unhex_raw(next(&line), &kl);
    uint8_t *m = unhex_raw(next(&line), &ml);
    // the message ends where the allocation ends
    uint8_t *ma = malloc(ml + align), *ka = malloc(kl + align);
    memcpy(ma + align, m, ml);
    memcpy(ka + align, k, kl);
    uint8_t *o = malloc(outlen);
    int r = passgen_siphash(ma + align, ml, ka + align, o, outlen);
    fprintf(out, "X %d ", r);
    puthex(o, outlen);
    fputc('\n', out);
    free(k);
    free(m);
    free(ma);
    free(ka);
    free(o);
}

// ---------------------------------------------------------------- containers
static uint8_t elem_byte(uint64_t id, size_t i) {
    uint64_t z = (id + 1) * 0x9e3779b97f4a7c15ull + (i / 8) * 0xd1b54a32d192ed03ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return (z ^ (z >> 31)) >> (8 * (i % 8));
}

static size_t elem_size;
static size_t each_count;

// prints what element this is: its id is stored as its first up to 4 bytes
static void put_elem(const uint8_t *e) {
    if(!e) {
        fprintf(out, "NULL\n");
        return;
    }
    uint64_t id = 0;
    size_t idb = elem_size < 4 ? elem_size : 4;
    for(size_t i = 0; i < idb; i++) id |= (uint64_t) e[i] << (8 * i);
    int good = 1;
    for(size_t i = idb; i < elem_size; i++) good &= e[i] == elem_byte(id, i);
    fprintf(out, "%" PRIu64 "%s\n", id, good ? "" : " CORRUPT");
}

static void make_elem(uint8_t *e, uint64_t id) {
    size_t idb = elem_size < 4 ? elem_size : 4;
    for(size_t i = 0; i < elem_size; i++)
        e[i] = i < idb ? id >> (8 * i) : elem_byte(id, i);
}

static void each_cb(void *e) {
    each_count++;
    fprintf(out, "i ");
    put_elem(e);
}

// stk SIZE OPS
static void cmd_stk(char *line) {
    elem_size = nextu(&line);
    char *ops = next(&line), *op;
    passgen_stack st;
    passgen_stack_init(&st, elem_size);
    while((op = strsep(&ops, ","))) {
        uint64_t v = op[0] && op[1] ? strtoull(op + 1, NULL, 10) : 0;
        switch(op[0]) {
            case 'p': {
                uint8_t *e = malloc(elem_size);
                make_elem(e, v);
                uint8_t *r = passgen_stack_push(&st, e);
                free(e);
                put_elem(r);
                break;
            }
            case 'n': {
                uint8_t *r = passgen_stack_push(&st, NULL);
                make_elem(r, v);
                break;
            }
            case 'N': { // in place, if there is memory
                uint8_t *r = passgen_stack_push(&st, NULL);
                if(r) make_elem(r, v);
                put_elem(r);
                break;
            }
            case 'o': {
                uint8_t *e = malloc(elem_size);
                memset(e, 0, elem_size);
                uint8_t *r = passgen_stack_pop(&st, e);
                if(r && r != e) fprintf(out, "WRONGPTR ");
                put_elem(r);
                free(e);
                break;
            }
            case 'O':
                passgen_stack_pop(&st, NULL);
                break;
            case 'g': put_elem(passgen_stack_get(&st, v)); break;
            case 't': put_elem(passgen_stack_top(&st)); break;
            case 'w': { // write through the pointer returned by get
                uint8_t *r = passgen_stack_get(&st, v >> 32);
                if(r) make_elem(r, v & 0xffffffff);
                break;
            }
            case 'i':
                each_count = 0;
                passgen_stack_foreach(&st, each_cb);
                fprintf(out, "n %zu\n", each_count);
                break;
            case 'l': fprintf(out, "%zu\n", (size_t) st.len); break;
            default: die("bad stk op");
        }
    }
    passgen_stack_free(&st);
}

// arr CAPACITY OPS
static void cmd_arr(char *line) {
    size_t cap = nextu(&line);
    char *ops = next(&line), *op;
    passgen_array a;
    passgen_array_init(&a, cap);
    while((op = strsep(&ops, ","))) {
        uint64_t v = op[0] && op[1] ? strtoull(op + 1, NULL, 10) : 0;
        switch(op[0]) {
            case 'p': passgen_array_push(&a, (void *) (uintptr_t) v); break;
            case 'o': fprintf(out, "%" PRIuPTR "\n", (uintptr_t) passgen_array_pop(&a)); break;
            case 'g': fprintf(out, "%" PRIuPTR "\n", (uintptr_t) passgen_array_get(&a, v)); break;
            case 'l': fprintf(out, "%zu\n", (size_t) a.items); break;
            default: die("bad arr op");
        }
    }
    passgen_array_free(&a);
}

// hm KIND OPS; keys are hex text or codepoints separated by dots
typedef struct keynode {
    struct keynode *next;
    void *key;
} keynode;
static keynode *hm_keys;
static int hm_kind;

static void *hm_key(const char *s) {
    void *k;
    if(hm_kind == 8) {
        k = unhex(s, NULL);
    } else {
        size_t n = 0;
        uint32_t *r = malloc((strlen(s) + 2) * 4), *e;
        char *p = (char *) s;
        while(*p && *p != '-') {
            r[n++] = strtoul(p, &p, 16);
            if(*p == '.') p++;
        }
        r[n++] = 0;
        e = malloc(n * 4);
        memcpy(e, r, n * 4);
        free(r);
        k = e;
    }
    keynode *node = malloc(sizeof(*node));
    node->key = k;
    node->next = hm_keys;
    hm_keys = node;
    return k;
}

// releases a key again: the latest one, or one the map gave back
static void hm_release(const void *key) {
    for(keynode **n = &hm_keys; *n; n = &(*n)->next) {
        if((*n)->key == key) {
            keynode *next = (*n)->next;
            free((*n)->key);
            free(*n);
            *n = next;
            return;
        }
    }
    fprintf(out, "UNKNOWNKEY\n");
}

static void put_key(const void *key) {
    if(!key) {
        fprintf(out, "NULL");
    } else if(hm_kind == 8) {
        puthex(key, strlen(key));
    } else {
        const uint32_t *k = key;
        if(!*k) fputc('-', out);
        for(size_t i = 0; k[i]; i++) fprintf(out, "%s%x", i ? "." : "", k[i]);
    }
}

static size_t hm_stop;

static int hm_cb(void *user, passgen_hashmap_entry *e) {
    size_t *n = user;
    fprintf(out, "f ");
    put_key(e->key);
    fprintf(out, " %" PRIuPTR "\n", (uintptr_t) e->value);
    ++*n;
    return *n == hm_stop ? 42 : 0;
}

static void cmd_hm(char *line) {
    hm_kind = nextu(&line);
    char *ops = next(&line), *op;
    passgen_hashmap map;
    passgen_hashmap_init(&map,
        hm_kind == 8 ? &passgen_hashmap_context_utf8 :
        hm_kind == 32 ? &passgen_hashmap_context_utf32 : NULL);
    if(hm_kind == 0) hm_kind = 8; // default context
    while((op = strsep(&ops, ","))) {
        char *eq = strchr(op, '=');
        if(eq) *eq++ = 0;
        switch(op[0]) {
            case 'i': {
                void *key = hm_key(op + 1);
                passgen_hashmap_entry e =
                    passgen_hashmap_insert(&map, key, (void *) (uintptr_t) strtoull(eq, NULL, 10));
                fprintf(out, "i ");
                put_key(e.key);
                fprintf(out, " %" PRIuPTR "\n", (uintptr_t) e.value);
                if(e.key) hm_release(e.key);
                break;
            }
            case 'd': {
                void *key = hm_key(op + 1);
                passgen_hashmap_entry e = passgen_hashmap_remove(&map, key);
                hm_release(key);
                fprintf(out, "d ");
                put_key(e.key);
                fprintf(out, " %" PRIuPTR "\n", (uintptr_t) e.value);
                if(e.key) hm_release(e.key);
                break;
            }
            case 'l': {
                void *key = hm_key(op + 1);
                passgen_hashmap_entry *e = passgen_hashmap_lookup(&map, key);
                hm_release(key);
                fprintf(out, "l ");
                put_key(e ? e->key : NULL);
                fprintf(out, " %" PRIuPTR "\n", e ? (uintptr_t) e->value : 0);
                break;
            }
            case 's': { // change a value through the looked up entry
                void *key = hm_key(op + 1);
                passgen_hashmap_entry *e = passgen_hashmap_lookup(&map, key);
                hm_release(key);
                if(e) e->value = (void *) (uintptr_t) strtoull(eq, NULL, 10);
                break;
            }
            case 'f': {
                size_t n = 0;
                hm_stop = op[1] ? strtoull(op + 1, NULL, 10) : SIZE_MAX;
                int r = passgen_hashmap_foreach(&map, &n, hm_cb);
                fprintf(out, "n %zu %d\n", n, r);
                break;
            }
            case 'n': fprintf(out, "%zu\n", (size_t) map.len); break;
            default: die("bad hm op");
        }
    }
    passgen_hashmap_free(&map);
    while(hm_keys) {
        keynode *n = hm_keys->next;
        free(hm_keys->key);
        free(hm_keys);
        hm_keys = n;
    }
}

// ---------------------------------------------------------------- main
static void dispatch(char *line);

// fork SECONDS MEGABYTES COMMAND: in a child, so that it may die
static void cmd_fork(char *line) {
    unsigned seconds = nextu(&line);
    size_t mb = nextu(&line);
    fflush(out);
    fflush(stderr);
    pid_t pid = fork();
    if(pid < 0) die("fork");
    if(!pid) {
        struct rlimit rl = {seconds, seconds + 1};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        if(mb) {
            struct rlimit as = {mb << 20, mb << 20};
            setrlimit(RLIMIT_AS, &as);
        }
        dispatch(line);
        fflush(out);
        _exit(0);
    }
    int status;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if(WIFSIGNALED(status))
        fprintf(out, "\nCHILD signal %d\n", WTERMSIG(status));
    else
        fprintf(out, "\nCHILD exit %d\n", WEXITSTATUS(status));
}

static void dispatch(char *line) {
    char *cmd = next(&line);
    if(!strcmp(cmd, "gen")) cmd_gen(line);
    else if(!strcmp(cmd, "fill")) cmd_fill(line);
    else if(!strcmp(cmd, "fills")) cmd_fills(line);
    else if(!strcmp(cmd, "stop")) cmd_stop(line);
    else if(!strcmp(cmd, "hist")) cmd_hist(line);
    else if(!strcmp(cmd, "rnd")) cmd_rnd(line);
    else if(!strcmp(cmd, "ints")) cmd_ints(line);
    else if(!strcmp(cmd, "mods")) cmd_mods(line);
    else if(!strcmp(cmd, "exact")) cmd_exact(line);
    else if(!strcmp(cmd, "wl")) cmd_wl(line);
    else if(!strcmp(cmd, "wload")) cmd_wload(line);
    else if(!strcmp(cmd, "envnew")) env_close();
    else if(!strcmp(cmd, "mk")) cmd_mk(line);
    else if(!strcmp(cmd, "dec")) cmd_dec(line);
    else if(!strcmp(cmd, "decs")) cmd_decs(line);
    else if(!strcmp(cmd, "enc")) cmd_enc(line);
    else if(!strcmp(cmd, "enc1")) cmd_enc1(line);
    else if(!strcmp(cmd, "encrange")) cmd_encrange(line);
    else if(!strcmp(cmd, "tok")) cmd_tok(line);
    else if(!strcmp(cmd, "tokconst")) cmd_tokconst(line);
    else if(!strcmp(cmd, "sip")) cmd_sip(line);
    else if(!strcmp(cmd, "stk")) cmd_stk(line);
    else if(!strcmp(cmd, "arr")) cmd_arr(line);
    else if(!strcmp(cmd, "hm")) cmd_hm(line);
    else if(!strcmp(cmd, "fork")) cmd_fork(line);
    else die("unknown command");
}

int main(void) {
    // the library may print to stdout, keep that apart
    out = fdopen(dup(1), "w");
    if(!out || dup2(2, 1) < 0) return 99;
    static char buffer[1 << 16];
    setvbuf(out, buffer, _IOFBF, sizeof(buffer));
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    while((n = getline(&line, &cap, stdin)) > 0) {
        if(line[n - 1] == '\n') line[n - 1] = 0;
        if(!*line) continue;
        dispatch(line);
        fputs(".\n", out);
        fflush(out);
    }
    free(line);
    if(mk_open) passgen_markov_free(&mk);
    env_close();
    fputs("END\n", out);
    fclose(out);
    return 0;
}
