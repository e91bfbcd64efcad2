// Watches what sources of randomness leave behind: replaces the deallocation
// functions by ones that search every block for secrets before it is released.
#include <passgen/pattern/env.h>
#include <passgen/random.h>
#include <inttypes.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

void __libc_free(void *p);
void *__libc_malloc(size_t n);

static FILE *out;
static int watching;
static uint64_t blocks, scanned, findings, big_dirty;

// secrets are searched for by all of their windows of eight bytes
#define SLOTS (1 << 18)
static uint64_t table[SLOTS];
static size_t windows;

static void secret_window(uint64_t w) {
    if(!w) return;
    size_t h = (w * 0x9e3779b97f4a7c15ull) >> 46;
    while(table[h] && table[h] != w) h = (h + 1) % SLOTS;
    if(table[h]) return;
    table[h] = w;
    if(++windows > SLOTS / 2) {
        fprintf(stderr, "DRIVER: too many secrets\n");
        _exit(99);
    }
}

static int known(uint64_t w) {
    if(!w) return 0;
    size_t h = (w * 0x9e3779b97f4a7c15ull) >> 46;
    while(table[h] && table[h] != w) h = (h + 1) % SLOTS;
    return table[h] != 0;
}

static void secret(const void *data, size_t size) {
    const uint8_t *d = data;
    for(size_t i = 0; i + 8 <= size; i++) {
        uint64_t w;
        memcpy(&w, d + i, 8);
        // not those that could be anything
        int distinct = 0;
        for(int k = 1; k < 8; k++) distinct += d[i + k] != d[i];
        if(distinct > 2) secret_window(w);
    }
}

static size_t search(const void *data, size_t size) {
    const uint8_t *d = data;
    size_t n = 0;
    scanned += size;
    for(size_t i = 0; i + 8 <= size; i++) {
        uint64_t w;
        memcpy(&w, d + i, 8);
        n += known(w);
    }
    return n;
}

static void look(void *p, int mode) {
    size_t size = malloc_usable_size(p);
    blocks++;
    size_t n = search(p, size);
    if(n) {
        findings++;
        fprintf(out, "FOUND free %zu %zu\n", size, n);
    }
    if(mode == 2 && size >= 1024) {
        // while a key is derived: nothing but a constant may remain
        const uint64_t *w = p;
        size_t dirty = 0;
        for(size_t i = 1; i < size / 8; i++) dirty += w[i] != w[0] && w[i] != 0;
        // the end of the block may not have been used at all
        if(dirty > 8) fprintf(out, "DIRTY %zu %zu\n", size, dirty);
        big_dirty++;
    }
}

void free(void *p) {
    if(p && watching) {
        int w = watching;
        watching = 0;
        look(p, w);
        watching = w;
    }
    __libc_free(p);
}

void *realloc(void *p, size_t n) {
    if(!p) return __libc_malloc(n);
    void *q = __libc_malloc(n ? n : 1);
    if(!q) return NULL;
    size_t have = malloc_usable_size(p);
    memcpy(q, p, have < n ? have : n);
    free(p);
    return q;
}

static int hexv(int c) {
    return c <= '9' ? c - '0' : c - 'a' + 10;
}

static char *unhex(const char *hex, size_t *len) {
    if(!strcmp(hex, "-")) hex = "";
    size_t n = strlen(hex) / 2;
    char *r = malloc(n + 1);
    for(size_t i = 0; i < n; i++) r[i] = hexv(hex[2 * i]) * 16 + hexv(hex[2 * i + 1]);
    r[n] = 0;
    if(len) *len = n;
    return r;
}

static size_t custom_read(void *context, void *dest, size_t size) {
    uint64_t *s = context;
    uint8_t *d = dest;
    for(size_t i = 0; i < size; i++) {
        *s = *s * 6364136223846793005ull + 1442695040888963407ull;
        d[i] = *s >> 33;
    }
    return size;
}

static void custom_close(void *context) {
    memset(context, 0, 8);
    __asm__ volatile("" ::: "memory");
    free(context);
}

// searches the stack below this frame, which is not in use, for four words in a
// row that are secret
__attribute__((noinline)) static size_t dead_stack(void) {
    volatile uint8_t here[16];
    const uint8_t *top = (const uint8_t *) here - 256;
    size_t n = 0;
    for(const uint8_t *p = top - 60000; p < top - 32; p++) {
        int same = 0;
        for(int i = 0; i < 4; i++) {
            uint64_t w = 0;
            for(int k = 7; k >= 0; k--) w = w << 8 | ((volatile const uint8_t *) p)[8 * i + k];
            if(!known(w)) break;
            same++;
        }
        n += same == 4;
    }
    return n;
}

__attribute__((noinline)) static void fill_stack(void) {
    volatile uint8_t area[80000];
    for(size_t i = 0; i < sizeof(area); i++) area[i] = 0x5a;
}

__attribute__((noinline)) static passgen_random *
open_it(passgen_random *r, const char *kind, char *a[], passgen_argon2_config *config) {
    if(!strcmp(kind, "desc")) return passgen_random_open(r, a[0]);
    if(!strcmp(kind, "xorshift")) return passgen_random_xorshift_open(r, strtoull(a[0], NULL, 10));
    if(!strcmp(kind, "chacha")) return passgen_random_chacha20_open(r, (uint8_t *) a[0], (uint8_t *) a[1]);
    if(!strcmp(kind, "argon"))
        return passgen_random_chacha20_argon2_open(
            r, (uint8_t *) a[0], a[1][0] ? (uint8_t *) a[1] : NULL, a[2][0] ? (uint8_t *) a[2] : NULL, config);
    if(!strcmp(kind, "path")) return passgen_random_path_open(r, a[0]);
    if(!strcmp(kind, "file")) {
        FILE *f = fopen(a[0], "rb");
        setvbuf(f, NULL, _IONBF, 0);
        return passgen_random_file_open(r, f);
    }
    if(!strcmp(kind, "custom")) {
        if(!r) r = malloc(sizeof(*r));
        uint64_t *s = malloc(sizeof(*s));
        *s = strtoull(a[0], NULL, 10);
        r->context = s;
        r->read = custom_read;
        r->close = custom_close;
        passgen_random_reload(r);
        return r;
    }
    return NULL;
}

// KIND STORAGE CLOSE ARG1 ARG2 ARG3 CONFIG SECRETS STACK USES
//   STORAGE heap: allocated by the library, own: passed in
//   CLOSE close, free or env; SECRETS, STACK hex (by comma), the latter looked for
//   on the stack only; USES sizes read (by comma)
int main(void) {
    static char line[1 << 20];
    out = stdout;
    static char outbuf[1 << 16], inbuf[1 << 16];
    setvbuf(stdout, outbuf, _IOFBF, sizeof(outbuf));
    setvbuf(stdin, inbuf, _IOFBF, sizeof(inbuf));
    while(fgets(line, sizeof(line), stdin)) {
        char *t[10], *p = line;
        line[strcspn(line, "\n")] = 0;
        for(int i = 0; i < 10; i++) {
            t[i] = strsep(&p, " ");
            if(!t[i]) {
                fprintf(stderr, "DRIVER: arguments\n");
                return 99;
            }
        }
        watching = 0;
        memset(table, 0, sizeof(table));
        windows = blocks = scanned = findings = big_dirty = 0;
        char *a[3];
        size_t len;
        for(int i = 0; i < 3; i++) a[i] = unhex(t[3 + i], NULL);
        passgen_argon2_config config, *cp = NULL;
        if(strcmp(t[6], "-")) {
            unsigned v[4];
            sscanf(t[6], "%u,%u,%u,%u", &v[0], &v[1], &v[2], &v[3]);
            config.algorithm = v[0];
            config.nb_blocks = v[1];
            config.nb_passes = v[2];
            config.nb_lanes = v[3];
            cp = &config;
        }
        for(char *s; (s = strsep(&t[7], ","));) {
            char *b = unhex(s, &len);
            secret(b, len);
            memset(b, 0, len);
            __asm__ volatile("" ::: "memory");
            free(b);
        }
        char *more[8];
        size_t more_len[8], mores = 0;
        if(strcmp(t[8], "-")) {
            for(char *s; mores < 8 && (s = strsep(&t[8], ",")); mores++) more[mores] = unhex(s, &more_len[mores]);
        }
        passgen_random *storage = NULL, *r;
        if(!strcmp(t[1], "own")) {
            storage = malloc(sizeof(*storage));
            memset(storage, 0xa5, sizeof(*storage));
        }
        fill_stack();
        watching = !strcmp(t[0], "argon") || strstr(a[0], "argon2") ? 2 : 1;
        r = open_it(storage, t[0], a, cp);
        watching = 0;
        size_t stack = 0;
        if(mores) {
            static uint64_t kept[SLOTS];
            memcpy(kept, table, sizeof(table));
            size_t had = windows;
            for(size_t i = 0; i < mores; i++) secret(more[i], more_len[i]);
            stack = dead_stack();
            memcpy(table, kept, sizeof(table));
            windows = had;
            for(size_t i = 0; i < mores; i++) free(more[i]);
        }
        if(!r) {
            fprintf(out, "NOSRC\n");
        } else {
            if(stack) fprintf(out, "STACK %zu\n", stack);
            watching = 1;
            for(char *s; (s = strsep(&t[9], ","));) {
                size_t n = strtoull(s, NULL, 10);
                static uint8_t sink[1 << 17];
                passgen_random_read(r, sink, n);
                if(n >= 8) secret(sink, n > 4096 ? 4096 : n);
            }
            // what is in its buffer now
            secret(r->buffer, sizeof(r->buffer));
            if(r->context && (!strcmp(t[0], "xorshift") || !strncmp(a[0], "xorshift", 8)))
                secret_window(*(uint64_t *) r->context);
            if(!strcmp(t[2], "close")) {
                passgen_random_close(r);
                size_t n = search(r, sizeof(*r));
                if(n) fprintf(out, "OBJECT %zu\n", n);
                size_t left = 0;
                for(size_t i = 0; i < sizeof(r->buffer); i++) left += r->buffer[i] != r->buffer[0];
                if(left > 8) fprintf(out, "LEFT %zu\n", left);
                watching = 0;
                free(r);
            } else if(!strcmp(t[2], "free")) {
                passgen_random_free(r);
            } else {
                passgen_env env;
                passgen_env_init(&env, r);
                passgen_env_free(&env);
                size_t n = search(&env, sizeof(env));
                if(n) fprintf(out, "ENV %zu\n", n);
            }
            watching = 0;
            fprintf(out, "OK %" PRIu64 " %" PRIu64 " %zu %" PRIu64 "\n", blocks, scanned, windows, big_dirty);
        }
        for(int i = 0; i < 3; i++) free(a[i]);
        fprintf(out, ".\n");
        fflush(out);
    }
    fprintf(out, "END\n");
    return 0;
}
