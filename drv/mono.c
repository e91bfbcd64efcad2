// Executes cryptographic primitives with guarded buffers. One command per line:
// a name and arguments, which are hexadecimal bytes or decimal numbers. Prints
// one line per output. Whatever lies around outputs, and the inputs, must not
// be modified; if they are this gets reported as a line starting with "broken".
//
// Inputs that are preceded by an exclamation mark are secret: MemorySanitizer or
// valgrind take them for uninitialised, and so complain about any branch and any
// address that depends on them.
#include <passgen/monocypher.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define HIDE(p, n) __msan_allocated_memory(p, n)
#define REVEAL(p, n) __msan_unpoison(p, n)
#define SEEN() 0
#endif
#endif
#ifndef HIDE
#include <valgrind/memcheck.h>
#define HIDE(p, n) (void) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#define REVEAL(p, n) (void) VALGRIND_MAKE_MEM_DEFINED(p, n)
#define SEEN() VALGRIND_COUNT_ERRORS
#endif

#if defined(__SANITIZE_ADDRESS__)
#define AFTER 0
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define AFTER 0
#endif
#endif
#ifndef AFTER
#define AFTER 40
#endif

static void die(const char *m) {
    fprintf(stderr, "DRIVER: %s\n", m);
    exit(99);
}

typedef struct {
    uint8_t *block, *data, *original;
    size_t before, len;
} guarded;

static guarded all[256];
static int count;
static uint64_t place;

static uint8_t *guard(size_t len, const uint8_t *content) {
    if(count == 256) die("too many");
    guarded *g = &all[count++];
    place = place * 6364136223846793005ull + 1442695040888963407ull;
    g->before = (place >> 40) % 32;
    g->len = len;
    g->block = malloc(g->before + len + AFTER);
    if(!g->block) die("malloc");
    memset(g->block, 0xC3, g->before);
    g->data = g->block + g->before;
    memset(g->data + len, 0x3C, AFTER);
    g->original = NULL;
    if(content) {
        memcpy(g->data, content, len);
        g->original = malloc(len + 1);
        memcpy(g->original, content, len);
    }
    return g->data;
}

// an output, with some content
static uint8_t *out(size_t len) {
    uint8_t *p = guard(len, NULL);
    memset(p, 0xA7, len);
    return p;
}

// may be modified
static void modifiable(uint8_t *p) {
    for(int i = 0; i < count; i++) {
        if(all[i].data == p) {
            free(all[i].original);
            all[i].original = NULL;
        }
    }
}

static void check(void) {
    for(int i = 0; i < count; i++) {
        guarded *g = &all[i];
        for(size_t k = 0; k < g->before; k++) {
            if(g->block[k] != 0xC3) {
                printf("broken before buffer %d of %zu bytes\n", i, g->len);
                break;
            }
        }
        for(size_t k = 0; k < AFTER; k++) {
            if(g->data[g->len + k] != 0x3C) {
                printf("broken after buffer %d of %zu bytes\n", i, g->len);
                break;
            }
        }
        REVEAL(g->data, g->len);
        if(g->original && memcmp(g->original, g->data, g->len)) printf("broken input %d of %zu bytes\n", i, g->len);
        free(g->original);
        free(g->block);
    }
    count = 0;
}

// a context that is not needed any more must not say anything about what it was
// used for
static void blank(const void *context, size_t size, const char *what) {
    const uint8_t *p = context;
    size_t left = 0;
    REVEAL((void *) p, size);
    for(size_t i = 1; i < size; i++) left += p[i] != p[0];
    if(left > 8) printf("broken %s keeps %zu bytes when finished\n", what, left);
}

static char *args[32];
static int argn;

static uint64_t num(int i) {
    if(i >= argn) die("missing argument");
    return strtoull(args[i], NULL, 10);
}

static size_t length;

static uint8_t *in(int i) {
    if(i >= argn) die("missing argument");
    char *s = args[i];
    int secret = *s == '!';
    s += secret;
    size_t n = !strcmp(s, "-") ? 0 : strlen(s) / 2;
    uint8_t *b = malloc(n + 1);
    for(size_t k = 0; k < n; k++) {
        char t[3] = {s[2 * k], s[2 * k + 1], 0}, *end;
        b[k] = strtoul(t, &end, 16);
        if(*end) die("bad hex");
    }
    uint8_t *p = guard(n, b);
    free(b);
    length = n;
    if(secret) HIDE(p, n);
    return p;
}

// input of fixed length
static uint8_t *fixed(int i, size_t n) {
    uint8_t *p = in(i);
    if(length != n) die("wrong length");
    return p;
}

static void show(const uint8_t *p, size_t n) {
    static const char digits[] = "0123456789abcdef";
    REVEAL(p, n);
    if(!n) putchar('-');
    for(size_t i = 0; i < n; i++) {
        putchar(digits[p[i] >> 4]);
        putchar(digits[p[i] & 15]);
    }
    putchar('\n');
}

// return values that depend on secrets
static int value(int n) {
    REVEAL(&n, sizeof(n));
    return n;
}

static int is(const char *name) {
    return !strcmp(args[0], name);
}

// splits data at the given places: "5,7,3" and the rest
static char *parts;
static size_t part(size_t left) {
    if(!parts || !*parts || *parts == '-') return left;
    size_t n = strtoull(parts, &parts, 10);
    if(*parts == ',') parts++;
    return n < left ? n : left;
}

static void run(void) {
    if(is("verify")) {
        uint8_t *a = in(1), *b = in(2);
        switch(length) {
            case 16: printf("%d\n", value(passgen_verify16(a, b))); break;
            case 32: printf("%d\n", value(passgen_verify32(a, b))); break;
            case 64: printf("%d\n", value(passgen_verify64(a, b))); break;
            default: die("wrong length");
        }
    } else if(is("wipe")) {
        // LEN OFFSET SIZE
        uint8_t *p = out(num(1));
        passgen_wipe(p + num(2), num(3));
        show(p, num(1));
    } else if(is("blake")) {
        // SIZE KEY MESSAGE PARTS
        size_t size = num(1);
        uint8_t *key = in(2);
        size_t key_len = length;
        uint8_t *msg = in(3);
        size_t len = length;
        uint8_t *o = out(size);
        passgen_blake2b_keyed(o, size, key, key_len, msg, len);
        show(o, size);
        o = out(size);
        passgen_blake2b_ctx ctx;
        if(key_len) passgen_blake2b_keyed_init(&ctx, size, key, key_len);
        else passgen_blake2b_init(&ctx, size);
        parts = args[4];
        while(len) {
            size_t n = part(len);
            uint8_t *copy = malloc(n);
            memcpy(copy, msg, n);
            passgen_blake2b_update(&ctx, copy, n);
            free(copy);
            msg += n;
            len -= n;
        }
        passgen_blake2b_final(&ctx, o);
        blank(&ctx, sizeof(ctx), "Blake2b");
        show(o, size);
        if(!key_len) {
            o = out(size);
            passgen_blake2b(o, size, all[1].data, all[1].len);
            show(o, size);
        }
    } else if(is("poly")) {
        // KEY MESSAGE PARTS
        uint8_t *key = fixed(1, 32), *msg = in(2);
        size_t len = length;
        uint8_t *o = out(16);
        passgen_poly1305(o, msg, len, key);
        show(o, 16);
        o = out(16);
        passgen_poly1305_ctx ctx;
        passgen_poly1305_init(&ctx, key);
        parts = args[3];
        while(len) {
            size_t n = part(len);
            uint8_t *copy = malloc(n);
            memcpy(copy, msg, n);
            passgen_poly1305_update(&ctx, copy, n);
            free(copy);
            msg += n;
            len -= n;
        }
        passgen_poly1305_final(&ctx, o);
        blank(&ctx, sizeof(ctx), "Poly1305");
        show(o, 16);
    } else if(is("chacha")) {
        // KIND KEY NONCE COUNTER FORM MESSAGE; form: 0 separate, 1 in place, 2 none
        uint8_t *key = fixed(2, 32), *nonce = in(3);
        uint64_t ctr = num(4);
        int form = num(5);
        uint8_t *msg = in(6);
        size_t len = length;
        uint8_t *o = form == 1 ? msg : out(len);
        if(form == 1) modifiable(msg);
        const uint8_t *from = form == 2 ? NULL : msg;
        if(!strcmp(args[1], "djb")) ctr = passgen_chacha20_djb(o, from, len, key, nonce, ctr);
        else if(!strcmp(args[1], "ietf")) ctr = passgen_chacha20_ietf(o, from, len, key, nonce, ctr);
        else ctr = passgen_chacha20_x(o, from, len, key, nonce, ctr);
        show(o, len);
        printf("%" PRIu64 "\n", ctr);
    } else if(is("hchacha")) {
        uint8_t *key = fixed(1, 32), *from = fixed(2, 16), *o = out(32);
        passgen_chacha20_h(o, key, from);
        show(o, 32);
    } else if(is("lock")) {
        // KEY NONCE AD TEXT FORM
        uint8_t *key = fixed(1, 32), *nonce = fixed(2, 24), *ad = in(3);
        size_t ad_len = length;
        uint8_t *text = in(4);
        size_t len = length;
        int form = num(5);
        if(form) modifiable(text);
        uint8_t *o = form ? text : out(len), *mac = out(16);
        passgen_aead_lock(o, mac, key, nonce, ad_len ? ad : NULL, ad_len, text, len);
        show(o, len);
        show(mac, 16);
    } else if(is("unlock")) {
        // KEY NONCE AD MAC TEXT FORM
        uint8_t *key = fixed(1, 32), *nonce = fixed(2, 24), *ad = in(3);
        size_t ad_len = length;
        uint8_t *mac = fixed(4, 16), *text = in(5);
        size_t len = length;
        int form = num(6);
        if(form) modifiable(text);
        uint8_t *o = form ? text : out(len);
        printf("%d\n", passgen_aead_unlock(o, mac, key, nonce, ad_len ? ad : NULL, ad_len, text, len));
        show(o, len);
    } else if(is("stream")) {
        // KIND KEY NONCE, then W:AD:TEXT or R:AD:MAC:TEXT each
        uint8_t *key = fixed(2, 32), *nonce = in(3);
        passgen_aead_ctx ctx;
        if(!strcmp(args[1], "djb")) passgen_aead_init_djb(&ctx, key, nonce);
        else if(!strcmp(args[1], "ietf")) passgen_aead_init_ietf(&ctx, key, nonce);
        else passgen_aead_init_x(&ctx, key, nonce);
        for(int i = 4, n = argn; i < n; i++) {
            char *list = args[i], *kind = strsep(&list, ":");
            // reuse the parser of arguments
            for(argn = 24; argn < 32 && list; argn++) args[argn] = strsep(&list, ":");
            uint8_t *ad = in(24);
            size_t ad_len = length;
            if(*kind == 'W') {
                uint8_t *text = in(25);
                size_t len = length;
                uint8_t *o = out(len), *mac = out(16);
                passgen_aead_write(&ctx, o, mac, ad, ad_len, text, len);
                show(o, len);
                show(mac, 16);
            } else {
                uint8_t *mac = fixed(25, 16), *text = in(26);
                size_t len = length;
                uint8_t *o = out(len);
                printf("%d\n", passgen_aead_read(&ctx, o, mac, ad, ad_len, text, len));
                show(o, len);
            }
        }
    } else if(is("argon")) {
        // KIND BLOCKS PASSES LANES SIZE PASS SALT KEY AD
        passgen_argon2_config config = {num(1), num(2), num(3), num(4)};
        passgen_argon2_inputs inputs = {.pass = in(6), .pass_size = length};
        inputs.salt = in(7);
        inputs.salt_size = length;
        passgen_argon2_extras extras = passgen_argon2_no_extras;
        uint8_t *p = in(8);
        if(length) {
            extras.key = p;
            extras.key_size = length;
        }
        p = in(9);
        if(length) {
            extras.ad = p;
            extras.ad_size = length;
        }
        size_t size = num(5);
        uint8_t *o = out(size);
        // work area is aligned
        void *work = malloc((size_t) config.nb_blocks * 1024);
        passgen_argon2(o, size, work, config, inputs, extras);
        free(work);
        show(o, size);
    } else if(is("x25519")) {
        uint8_t *k = fixed(1, 32), *u = fixed(2, 32), *o = out(32);
        passgen_x25519(o, k, u);
        show(o, 32);
    } else if(is("public")) {
        uint8_t *k = fixed(1, 32), *o = out(32);
        passgen_x25519_public_key(o, k);
        show(o, 32);
    } else if(is("inverse")) {
        uint8_t *k = fixed(1, 32), *u = fixed(2, 32), *o = out(32);
        passgen_x25519_inverse(o, k, u);
        show(o, 32);
    } else if(is("dirty")) {
        // SK OTHER
        uint8_t *k = fixed(1, 32), *b = fixed(2, 32), *o = out(32), *s = out(32);
        passgen_x25519_dirty_small(o, k);
        show(o, 32);
        passgen_x25519(s, b, o);
        show(s, 32);
        o = out(32);
        passgen_x25519_dirty_fast(o, k);
        show(o, 32);
    } else if(is("keypair")) {
        uint8_t *seed = fixed(1, 32), *sk = out(64), *pk = out(32);
        modifiable(seed);
        passgen_eddsa_key_pair(sk, pk, seed);
        show(sk, 64);
        show(pk, 32);
        show(seed, 32);
    } else if(is("sign")) {
        uint8_t *sk = fixed(1, 64), *msg = in(2);
        size_t len = length;
        uint8_t *o = out(64);
        passgen_eddsa_sign(o, sk, msg, len);
        show(o, 64);
    } else if(is("over")) {
        // NAME AREA OFFSET OFFSET OFFSET LEN: buffers that overlap
        uint8_t *p = in(2);
        size_t total = length;
        modifiable(p);
        uint8_t *a = p + num(3), *b = p + num(4), *c = p + num(5);
        size_t len = num(6);
        if(!strcmp(args[1], "sign")) passgen_eddsa_sign(a, b, c, len);
        else if(!strcmp(args[1], "keypair")) passgen_eddsa_key_pair(a, b, c);
        else if(!strcmp(args[1], "trim")) passgen_eddsa_trim_scalar(a, a);
        else if(!strcmp(args[1], "blake")) passgen_blake2b(a, len, a, num(4));
        else die("unknown function");
        show(p, total);
    } else if(is("check")) {
        uint8_t *sig = fixed(1, 64), *pk = fixed(2, 32), *msg = in(3);
        printf("%d\n", passgen_eddsa_check(sig, pk, msg, length));
    } else if(is("equation")) {
        uint8_t *sig = fixed(1, 64), *pk = fixed(2, 32), *h = fixed(3, 32);
        printf("%d\n", passgen_eddsa_check_equation(sig, pk, h));
    } else if(is("convert")) {
        // both directions
        uint8_t *p = fixed(1, 32), *o = out(32);
        passgen_eddsa_to_x25519(o, p);
        show(o, 32);
        o = out(32);
        passgen_x25519_to_eddsa(o, p);
        show(o, 32);
    } else if(is("trim")) {
        uint8_t *p = fixed(1, 32), *o = out(32);
        passgen_eddsa_trim_scalar(o, p);
        show(o, 32);
    } else if(is("reduce")) {
        uint8_t *p = fixed(1, 64), *o = out(32);
        passgen_eddsa_reduce(o, p);
        show(o, 32);
    } else if(is("muladd")) {
        uint8_t *a = fixed(1, 32), *b = fixed(2, 32), *c = fixed(3, 32), *o = out(32);
        passgen_eddsa_mul_add(o, a, b, c);
        show(o, 32);
    } else if(is("base")) {
        uint8_t *p = fixed(1, 32), *o = out(32);
        passgen_eddsa_scalarbase(o, p);
        show(o, 32);
    } else if(is("map")) {
        uint8_t *p = fixed(1, 32), *o = out(32);
        passgen_elligator_map(o, p);
        show(o, 32);
    } else if(is("rev")) {
        // CURVE TWEAK
        uint8_t *p = fixed(1, 32), *o = out(32), *b = out(32);
        uint8_t *tweak = argn > 3 ? fixed(3, 1) : NULL;
        int ret = passgen_elligator_rev(o, p, tweak ? *tweak : num(2));
        printf("%d\n", ret);
        show(o, 32);
        if(!ret) {
            passgen_elligator_map(b, o);
            show(b, 32);
        }
    } else if(is("hidden")) {
        // SEED OTHER
        uint8_t *seed = fixed(1, 32), *b = fixed(2, 32), *h = out(32), *sk = out(32), *u = out(32), *s = out(32);
        modifiable(seed);
        passgen_elligator_key_pair(h, sk, seed);
        show(h, 32);
        show(sk, 32);
        show(seed, 32);
        passgen_elligator_map(u, h);
        passgen_x25519(s, b, u);
        show(s, 32);
    } else {
        die("unknown command");
    }
    if(SEEN()) {
        fprintf(stderr, "%s depends on secrets\n", args[0]);
        exit(77);
    }
    check();
}

int main(void) {
    char *line = NULL;
    size_t cap = 0;
    while(getline(&line, &cap, stdin) > 0) {
        line[strcspn(line, "\n")] = 0;
        for(size_t i = 0; line[i]; i++) place = place * 31 + line[i];
        char *p = line, *t;
        argn = 0;
        while((t = strsep(&p, " ")) && argn < 24) args[argn++] = t;
        run();
        printf(".\n");
        fflush(stdout);
    }
    free(line);
    printf("END\n");
    return 0;
}
