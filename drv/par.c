// Executes sets of independent operations alone, in several orders, nested in
// each other and in several threads, and prints a digest of everything each of
// them returned. Only the parts that are compared are printed; judging happens
// elsewhere. One command per line:
//
//   SEED THREADS MODE,... SHARED;...;SHARED OP;OP;...
//
// The library is only used in child processes, so that each mode starts afresh.
#include <passgen/container/array.h>
#include <passgen/container/hashmap.h>
#include <passgen/container/stack.h>
#include <passgen/error.h>
#include <passgen/generate.h>
#include <passgen/markov.h>
#include <passgen/monocypher.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/passgen.h>
#include <passgen/pattern/env.h>
#include <passgen/pattern/pattern.h>
#include <passgen/random.h>
#include <passgen/util/siphash.h>
#include <passgen/util/utf8.h>
#include <passgen/wordlist.h>
#include <inttypes.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAX_OPS 64
#define MAX_SHARED 8

static void die(const char *m) {
    fprintf(stderr, "DRIVER: %s\n", m);
    exit(99);
}

// ------------------------------------------------------------------ helpers
static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

typedef struct {
    uint64_t h, items;
} digest;

static void add(digest *d, const void *data, size_t len) {
    const uint8_t *p = data;
    d->items++;
    for(size_t i = 0; i < len; i++) d->h = (d->h ^ p[i]) * 0x100000001b3ull;
    d->h = (d->h ^ len) * 0x100000001b3ull;
}

static void addu(digest *d, uint64_t v) {
    add(d, &v, sizeof(v));
}

static char *unhex(const char *s, size_t *len) {
    size_t n = !strcmp(s, "-") ? 0 : strlen(s) / 2;
    char *r = malloc(n + 1);
    for(size_t i = 0; i < n; i++) {
        unsigned v;
        if(sscanf(s + 2 * i, "%2x", &v) != 1) die("bad hex");
        r[i] = v;
    }
    r[n] = 0;
    if(len) *len = n;
    return r;
}

// arguments of operations are separated by slashes
typedef struct {
    char *a[16];
    int n;
} args;

static uint64_t num(args *a, int i) {
    if(i >= a->n) die("missing argument");
    return strtoull(a->a[i], NULL, 10);
}

static char *str(args *a, int i) {
    if(i >= a->n) die("missing argument");
    return a->a[i];
}

// ------------------------------------- what happens in between, in each thread
static int threaded;
static unsigned long events, switches, overlaps;
static int last_thread = -1, running;
static __thread int self;
static __thread uint64_t jitter;
static __thread int nesting;
static int nested_mode;
static void nested(void);

// the library is in the middle of something
static void between(void) {
    if(threaded) {
        // relaxed, so that nothing gets ordered by this
        __atomic_fetch_add(&events, 1, __ATOMIC_RELAXED);
        int last = __atomic_exchange_n(&last_thread, self, __ATOMIC_RELAXED);
        if(last != self) __atomic_fetch_add(&switches, 1, __ATOMIC_RELAXED);
        jitter = mix(jitter);
        if(jitter % 8 == 0) sched_yield();
        if(jitter % 256 == 1) usleep(jitter >> 60);
    }
    if(nested_mode && !nesting) {
        jitter = mix(jitter);
        if(jitter % 4 == 0) nested();
    }
}

typedef struct {
    uint64_t pos, seed;
} custom;

static size_t custom_read(void *context, void *dest, size_t size) {
    custom *c = context;
    between();
    for(size_t i = 0; i < size; i++) {
        ((uint8_t *) dest)[i] = mix(c->seed + c->pos / 8) >> (8 * (c->pos % 8));
        c->pos++;
    }
    return size;
}

static void custom_close(void *context) {
    free(context);
}

static passgen_random *source(const char *desc) {
    if(!strncmp(desc, "custom:", 7)) {
        passgen_random *r = malloc(sizeof(*r));
        custom *c = calloc(1, sizeof(*c));
        c->seed = strtoull(desc + 7, NULL, 10);
        r->context = c;
        r->read = custom_read;
        r->close = custom_close;
        passgen_random_reload(r);
        return r;
    }
    return passgen_random_open(NULL, desc);
}

// --------------------------------------------------------------- operations
static passgen_pattern shared[MAX_SHARED];
static int shared_ok[MAX_SHARED], shared_n;
static passgen_hashmap shared_map;
static passgen_stack shared_stack;

static int emit(void *data, uint32_t codepoint) {
    addu(data, codepoint);
    between();
    return 0;
}

static void generate(digest *d, const passgen_pattern *p, passgen_env *env, int n) {
    for(int i = 0; i < n; i++) {
        double e = 0;
        int ret = passgen_generate(p, env, i % 2 ? &e : NULL, d, emit);
        addu(d, ret);
        add(d, &e, sizeof(e));
    }
    uint8_t buffer[512];
    uint32_t codepoints[512];
    memset(codepoints, 0, sizeof(codepoints));
    size_t len = passgen_generate_fill_utf8(p, env, NULL, buffer, sizeof(buffer));
    add(d, buffer, len);
    len = passgen_generate_fill_json_utf8(p, env, NULL, buffer, sizeof(buffer));
    add(d, buffer, len);
    len = passgen_generate_fill_unicode(p, env, NULL, codepoints, 512);
    add(d, codepoints, 4 * len);
}

// gen/PATTERN/SOURCE/LIST/LEVEL/COUNT
static void op_gen(digest *d, args *a) {
    char *text = unhex(str(a, 1), NULL), *desc = unhex(str(a, 2), NULL);
    size_t list_len;
    char *list = unhex(str(a, 3), &list_len);
    passgen_pattern p;
    passgen_error error;
    int ret = passgen_parse(&p, &error, text);
    addu(d, ret);
    if(ret) {
        add(d, error.message, strlen(error.message));
        addu(d, error.offset.codepoint);
        addu(d, error.offset.byte);
        passgen_error_free(&error);
    } else {
        passgen_env env;
        passgen_random *r = source(desc);
        addu(d, r != NULL);
        if(r) {
            passgen_env_init(&env, r);
            if(list_len) {
                FILE *f = fmemopen(list, list_len, "r");
                if(!f) die("fmemopen");
                passgen_env_wordlist_add(&env, strdup("w"), f, num(a, 4));
            }
            generate(d, &p, &env, num(a, 5));
            passgen_env_free(&env);
        }
    }
    passgen_pattern_free(&p);
    free(text);
    free(desc);
    free(list);
}

// shared/INDEX/SOURCE/COUNT: a pattern that is also used by others
static void op_shared(digest *d, args *a) {
    int k = num(a, 1);
    char *desc = unhex(str(a, 2), NULL);
    if(k < shared_n && shared_ok[k]) {
        passgen_env env;
        passgen_env_init(&env, source(desc));
        generate(d, &shared[k], &env, num(a, 3));
        passgen_env_free(&env);
    }
    // what only gets read can be shared as well
    for(int i = 0; i < 40; i++) {
        char key[16];
        snprintf(key, sizeof(key), "k%d", i);
        passgen_hashmap_entry *e = passgen_hashmap_lookup(&shared_map, key);
        addu(d, e ? *(int *) e->value : 12345);
        int *v = passgen_stack_get(&shared_stack, i * 7);
        addu(d, v ? *v : 54321);
    }
    free(desc);
}

// rnd/SOURCE/SIZE,SIZE...: reads
static void op_rnd(digest *d, args *a) {
    char *desc = unhex(str(a, 1), NULL);
    passgen_random *r = source(desc);
    addu(d, r != NULL);
    if(r) {
        static const char *sep = ",";
        char *save, *list = strdup(str(a, 2));
        for(char *t = strtok_r(list, sep, &save); t; t = strtok_r(NULL, sep, &save)) {
            size_t n = strtoull(t, NULL, 10);
            uint8_t *b = malloc(n + 1);
            passgen_random_read(r, b, n);
            add(d, b, n);
            free(b);
            between();
            addu(d, passgen_random_u8(r));
            addu(d, passgen_random_u16_max(r, 1 + n % 60000));
            addu(d, passgen_random_u32_max(r, 1 + n));
            addu(d, passgen_random_u64_max(r, 1 + n * 12345678901ull));
            addu(d, passgen_random_bool(r));
        }
        free(list);
        passgen_random_free(r);
    }
    free(desc);
}

// argon/PASS/DOMAIN/TOKEN/BLOCKS/PASSES/LANES/ALGORITHM
static void op_argon(digest *d, args *a) {
    char *pass = unhex(str(a, 1), NULL), *domain = unhex(str(a, 2), NULL), *token = unhex(str(a, 3), NULL);
    passgen_argon2_config config = {
        .nb_blocks = num(a, 4), .nb_passes = num(a, 5), .nb_lanes = num(a, 6), .algorithm = num(a, 7)};
    passgen_random r;
    passgen_random_chacha20_argon2_open(&r, (uint8_t *) pass, (uint8_t *) domain, (uint8_t *) token, &config);
    uint8_t b[200];
    for(int i = 0; i < 3; i++) {
        passgen_random_read(&r, b, sizeof(b));
        add(d, b, sizeof(b));
        between();
        passgen_random_chacha20_seek(&r, 77 * i + sizeof(b));
    }
    passgen_random_close(&r);
    free(pass);
    free(domain);
    free(token);
}

// crypto/SEED/LENGTH
static void op_crypto(digest *d, args *a) {
    uint64_t seed = num(a, 1);
    size_t n = num(a, 2);
    uint8_t key[64], nonce[24], mac[16], out[64], hash[64], sk[64], pk[32], pk2[32];
    uint8_t *msg = malloc(n + 1), *ct = malloc(n + 1);
    for(int i = 0; i < 64; i++) key[i] = mix(seed + i);
    for(int i = 0; i < 24; i++) nonce[i] = mix(seed + 100 + i);
    for(size_t i = 0; i < n; i++) msg[i] = mix(seed + 200 + i);
    passgen_aead_lock(ct, mac, key, nonce, msg, n / 2, msg, n);
    add(d, ct, n);
    add(d, mac, 16);
    addu(d, passgen_aead_unlock(ct, mac, key, nonce, msg, n / 2, ct, n));
    between();
    passgen_blake2b_keyed(hash, 64, key, seed % 65, msg, n);
    add(d, hash, 64);
    passgen_blake2b_ctx ctx;
    passgen_blake2b_init(&ctx, 32);
    for(size_t i = 0; i < n; i += 50) {
        passgen_blake2b_update(&ctx, msg + i, n - i < 50 ? n - i : 50);
        between();
    }
    passgen_blake2b_final(&ctx, hash);
    add(d, hash, 32);
    passgen_poly1305(mac, msg, n, key);
    add(d, mac, 16);
    addu(d, passgen_chacha20_ietf(ct, msg, n, key, nonce, 7));
    add(d, ct, n);
    addu(d, passgen_chacha20_x(ct, msg, n, key, nonce, 3));
    add(d, ct, n);
    if(seed % 4 == 0) {
        passgen_x25519_public_key(pk, key);
        passgen_x25519(out, nonce < key ? key : key, pk);
        add(d, out, 32);
        between();
        memcpy(out, key, 32);
        passgen_eddsa_key_pair(sk, pk2, out);
        passgen_eddsa_sign(out, sk, msg, n);
        add(d, out, 64);
        between();
        addu(d, passgen_eddsa_check(out, pk2, msg, n));
        passgen_elligator_map(pk, key);
        add(d, pk, 32);
    }
    for(size_t len = 0; len < 40 && len <= n; len++) {
        passgen_siphash(msg, len, key, out, 16);
        add(d, out, 16);
    }
    free(msg);
    free(ct);
}

// utf8/BYTES/CHUNK
static void op_utf8(digest *d, args *a) {
    size_t n, chunk = num(a, 2);
    const uint8_t *bytes = (uint8_t *) unhex(str(a, 1), &n), *pos = bytes;
    int ret;
    do {
        uint32_t cp[64], *out = cp;
        uint8_t widths[64], enc[64 * 4 + 5];
        ret = passgen_utf8_decode(&out, chunk, widths, &pos, bytes + n - pos);
        between();
        addu(d, ret);
        addu(d, pos - bytes);
        add(d, cp, 4 * (out - cp));
        add(d, widths, out - cp);
        size_t op = 0, ip = 0;
        addu(d, passgen_utf8_encode(enc, sizeof(enc), &op, cp, out - cp, &ip));
        add(d, enc, op);
        // tokens
        passgen_token_parser tp;
        passgen_token t = {0};
        passgen_token_parser_init(&tp);
        for(uint32_t *c = cp; c < out; c++) {
            int r = passgen_token_parse(&tp, &t, widths[c - cp], *c);
            addu(d, r);
            if(r < 0) {
                add(d, passgen_token_parse_error_str(r), 4);
                break;
            }
            if(r == PASSGEN_TOKEN_INIT) {
                addu(d, t.codepoint);
                addu(d, t.offset);
                addu(d, t.byte_offset);
            }
        }
    } while(ret > 0);
    free((void *) bytes);
}

static int map_entry(void *user, passgen_hashmap_entry *e) {
    digest *d = user;
    add(d, e->key, strlen(e->key));
    addu(d, *(int *) e->value);
    between();
    return 0;
}

// hold/SEED/COUNT: containers
static void op_hold(digest *d, args *a) {
    uint64_t seed = num(a, 1), n = num(a, 2);
    passgen_hashmap map;
    passgen_stack stack;
    passgen_array array;
    passgen_hashmap_init(&map, NULL);
    passgen_stack_init(&stack, 1 + seed % 40);
    passgen_array_init(&array, seed % 3);
    char(*keys)[24] = calloc(n, sizeof(*keys));
    int *values = calloc(n, sizeof(int));
    uint8_t element[41];
    for(uint64_t i = 0; i < n; i++) {
        uint64_t x = mix(seed + i);
        snprintf(keys[i], sizeof(*keys), "%" PRIu64, x % (n / 2 + 1));
        values[i] = x >> 40;
        passgen_hashmap_entry e;
        if(x >> 62) {
            e = passgen_hashmap_insert(&map, keys[i], &values[i]);
        } else {
            e = passgen_hashmap_remove(&map, keys[i]);
        }
        addu(d, e.key ? *(int *) e.value : -7);
        passgen_hashmap_entry *f = passgen_hashmap_lookup(&map, keys[x % (i + 1)]);
        addu(d, f ? *(int *) f->value : -8);
        if((x >> 50) % 3) {
            memset(element, x >> 20, sizeof(element));
            passgen_stack_push(&stack, element);
            passgen_array_push(&array, keys[i]);
        } else {
            memset(element, 0, sizeof(element));
            addu(d, passgen_stack_pop(&stack, element) != NULL);
            add(d, element, 1 + seed % 40);
            char *k = passgen_array_pop(&array);
            add(d, k ? k : "none", 4);
        }
        if(i % 16 == 0) between();
    }
    passgen_hashmap_foreach(&map, d, map_entry);
    for(size_t i = 0; i < stack.len; i++) add(d, passgen_stack_get(&stack, i), 1 + seed % 40);
    passgen_hashmap_free(&map);
    passgen_stack_free(&stack);
    passgen_array_free(&array);
    free(keys);
    free(values);
}

// chain/SEED/LEVEL/WORDS
static void op_chain(digest *d, args *a) {
    uint64_t seed = num(a, 1), words = num(a, 3), level = num(a, 2);
    passgen_markov m;
    passgen_markov_init(&m, level);
    for(uint64_t i = 0; i < words; i++) {
        uint32_t w[20];
        size_t len = mix(seed + i) % 20;
        for(size_t j = 0; j < len; j++) w[j] = 'a' + mix(seed + i + 1000 * j) % 6 * (1 + seed % 300);
        passgen_markov_add(&m, w, len, 1 + i % 3);
        if(i % 8 == 0) between();
    }
    passgen_random *r = source("xorshift:987654321");
    for(int i = 0; i < 20; i++) {
        uint32_t window[256] = {0};
        double e = 1;
        for(int j = 0; j < 30; j++) {
            uint32_t c = passgen_markov_generate(&m, window, r, i % 2 ? &e : NULL);
            addu(d, c);
            between();
            if(!c) break;
            memmove(window, window + 1, 4 * (level - 1));
            window[level - 1] = c;
        }
        add(d, &e, sizeof(e));
    }
    passgen_random_free(r);
    passgen_markov_free(&m);
}

// feed/TEXT/SOURCE: the incremental parser
static void op_feed(digest *d, args *a) {
    size_t n;
    char *text = unhex(str(a, 1), &n), *desc = unhex(str(a, 2), NULL);
    passgen_parser parser;
    passgen_pattern p;
    passgen_token_parser tp;
    passgen_token token = {0};
    passgen_parser_init(&parser, &p);
    passgen_token_parser_init(&tp);
    int ret = 0;
    for(size_t i = 0; i < n && ret >= 0; i++) {
        ret = passgen_token_parse(&tp, &token, 1, (uint8_t) text[i]);
        addu(d, ret);
        if(ret == PASSGEN_TOKEN_INIT && passgen_parse_token(&parser, &token) != 0) ret = -1;
        between();
    }
    if(ret >= 0) ret = passgen_parse_finish(&parser);
    addu(d, ret);
    passgen_parser_free(&parser);
    if(ret == 0) {
        passgen_env env;
        passgen_env_init(&env, source(desc));
        generate(d, &p, &env, 2);
        passgen_env_free(&env);
    }
    passgen_pattern_free(&p);
    free(text);
    free(desc);
}

// --------------------------------------------------------------- the modes
static char *ops[MAX_OPS];
static int ops_n;
static digest result[MAX_OPS], inner[MAX_OPS];
static uint64_t seed;

static void run_op(int k, digest *d) {
    d->h = 0xcbf29ce484222325ull;
    d->items = 0;
    char *copy = strdup(ops[k]), *p = copy, *t;
    args a = {.n = 0};
    while((t = strsep(&p, "/")) && a.n < 16) a.a[a.n++] = t;
    const char *c = a.a[0];
    if(!strcmp(c, "gen")) op_gen(d, &a);
    else if(!strcmp(c, "shared")) op_shared(d, &a);
    else if(!strcmp(c, "rnd")) op_rnd(d, &a);
    else if(!strcmp(c, "argon")) op_argon(d, &a);
    else if(!strcmp(c, "crypto")) op_crypto(d, &a);
    else if(!strcmp(c, "utf8")) op_utf8(d, &a);
    else if(!strcmp(c, "hold")) op_hold(d, &a);
    else if(!strcmp(c, "chain")) op_chain(d, &a);
    else if(!strcmp(c, "feed")) op_feed(d, &a);
    else die("unknown operation");
    free(copy);
}

static void nested(void) {
    int k = (jitter >> 8) % ops_n;
    if(inner[k].items) return;
    nesting = 1;
    run_op(k, &inner[k]);
    if(!inner[k].items) inner[k].items = 1;
    nesting = 0;
}

// leave something on the stack
static __attribute__((noinline)) void dirty(int value) {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    volatile uint8_t area[100000];
    for(size_t i = 0; i < sizeof(area); i++) area[i] = value;
#endif
}

static void prepare(char *list) {
    static int values[1000];
    shared_n = 0;
    char *save;
    for(char *t = strtok_r(list, ";", &save); t && shared_n < MAX_SHARED; t = strtok_r(NULL, ";", &save)) {
        char *text = unhex(t, NULL);
        passgen_error error;
        shared_ok[shared_n] = passgen_parse(&shared[shared_n], &error, text) == 0;
        shared_n++;
        free(text);
    }
    passgen_hashmap_init(&shared_map, NULL);
    passgen_stack_init(&shared_stack, sizeof(int));
    for(int i = 0; i < 200; i++) {
        values[i] = i * 3;
        if(i < 30) {
            char *key = malloc(16);
            snprintf(key, 16, "k%d", i);
            passgen_hashmap_insert(&shared_map, key, &values[i]);
        }
        passgen_stack_push(&shared_stack, &values[i]);
    }
}

static int next_op, order[MAX_OPS];
static pthread_barrier_t barrier;

static void *worker(void *arg) {
    self = (intptr_t) arg;
    jitter = mix(seed * 1000 + self);
    pthread_barrier_wait(&barrier);
    int k;
    while((k = __atomic_fetch_add(&next_op, 1, __ATOMIC_RELAXED)) < ops_n) {
        if(__atomic_fetch_add(&running, 1, __ATOMIC_RELAXED)) __atomic_fetch_add(&overlaps, 1, __ATOMIC_RELAXED);
        run_op(order[k], &result[order[k]]);
        __atomic_fetch_sub(&running, 1, __ATOMIC_RELAXED);
    }
    return NULL;
}

static void shuffle(uint64_t s) {
    for(int i = 0; i < ops_n; i++) order[i] = i;
    for(int i = ops_n - 1; i > 0; i--) {
        s = mix(s);
        int j = s % (i + 1), t = order[i];
        order[i] = order[j];
        order[j] = t;
    }
}

static void say(const char *mode, digest *d, FILE *f) {
    fprintf(f, "%s", mode);
    for(int i = 0; i < ops_n; i++) {
        if(d[i].items) fprintf(f, " %016" PRIx64, d[i].h);
        else fprintf(f, " -");
    }
    fprintf(f, "\n");
}

// runs one mode in this process
static void mode(const char *m, int which, char *list, int threads, FILE *f) {
    jitter = mix(seed);
    if(!strcmp(m, "alone")) {
        prepare(list);
        run_op(which, &result[which]);
        fprintf(f, "%016" PRIx64 " %" PRIu64 "\n", result[which].h, result[which].items);
    } else if(!strncmp(m, "order", 5)) {
        mallopt(M_PERTURB, which ? 0xA5 : 0x5A);
        dirty(which ? 0xff : 0x33);
        prepare(list);
        shuffle(seed + which);
        for(int i = 0; i < ops_n; i++) {
            dirty(i * 37 + 1);
            run_op(order[i], &result[order[i]]);
        }
        say(m, result, f);
    } else if(!strcmp(m, "twice")) {
        prepare(list);
        for(int i = 0; i < ops_n; i++) {
            digest first;
            run_op(i, &first);
            run_op(i, &result[i]);
            if(first.h != result[i].h) result[i] = first;
        }
        say(m, result, f);
    } else if(!strcmp(m, "nested")) {
        prepare(list);
        nested_mode = 1;
        for(int i = 0; i < ops_n; i++) run_op(i, &result[i]);
        nested_mode = 0;
        say("outer", result, f);
        say("inner", inner, f);
    } else {
        prepare(list);
        shuffle(seed + 99);
        threaded = 1;
        pthread_t t[16];
        pthread_barrier_init(&barrier, NULL, threads);
        for(int i = 0; i < threads; i++) {
            if(pthread_create(&t[i], NULL, worker, (void *) (intptr_t) i)) die("pthread_create");
        }
        for(int i = 0; i < threads; i++) pthread_join(t[i], NULL);
        say("threads", result, f);
        fprintf(f, "observed %lu %lu %lu\n", events, switches, overlaps);
    }
}

// runs one mode in a child, and passes on how that ends
static char *child(const char *m, int which, const char *list, int threads) {
    int fd[2];
    if(pipe(fd)) die("pipe");
    fflush(NULL);
    pid_t pid = fork();
    if(pid < 0) die("fork");
    if(!pid) {
        close(fd[0]);
        // or exiting would rewind what the parent reads
        close(0);
        FILE *f = fdopen(fd[1], "w");
        char *copy = strdup(list);
        mode(m, which, copy, threads, f);
        fclose(f);
        free(copy);
        exit(0);
    }
    close(fd[1]);
    FILE *f = fdopen(fd[0], "r");
    char *text = calloc(1, 65536);
    size_t n = fread(text, 1, 65535, f);
    text[n] = 0;
    fclose(f);
    int status;
    waitpid(pid, &status, 0);
    if(WIFSIGNALED(status)) {
        fprintf(stderr, "mode %s ended by signal %d\n", m, WTERMSIG(status));
        fflush(NULL);
        kill(getpid(), WTERMSIG(status));
        _exit(1);
    }
    if(WEXITSTATUS(status)) {
        fprintf(stderr, "mode %s ended with status %d\n", m, WEXITSTATUS(status));
        _exit(WEXITSTATUS(status));
    }
    return text;
}

int main(void) {
    char *line = NULL;
    size_t cap = 0;
    while(getline(&line, &cap, stdin) > 0) {
        line[strcspn(line, "\n")] = 0;
        char *p = line;
        seed = strtoull(strsep(&p, " "), NULL, 10);
        int threads = atoi(strsep(&p, " "));
        char *modes = strsep(&p, " ");
        char *list = strsep(&p, " ");
        ops_n = 0;
        char *t;
        while((t = strsep(&p, ";")) && ops_n < MAX_OPS) ops[ops_n++] = t;
        uint64_t items = 0;
        char *m;
        while((m = strsep(&modes, ","))) {
            if(!strcmp(m, "alone")) {
                printf("alone");
                for(int i = 0; i < ops_n; i++) {
                    char *text = child("alone", i, list, 0), *end;
                    uint64_t h = strtoull(text, &end, 16), n = strtoull(end, NULL, 10);
                    items += n;
                    if(n) printf(" %016" PRIx64, h);
                    else printf(" -");
                    free(text);
                }
                printf("\n");
            } else {
                char *text = child(m, !strcmp(m, "order1"), list, threads);
                printf("%s", text);
                free(text);
            }
        }
        printf("items %" PRIu64 "\n.\n", items);
        fflush(stdout);
    }
    printf("END\n");
    return 0;
}
