// Secondary interfaces of the library: versions, presets, wordlists loaded in
// one go. Commands on standard input, see checks/c34.py.
#include <passgen/config.h>
#include <passgen/assert.h>
#include <passgen/generate.h>
#include <passgen/markov.h>
#include <passgen/parser/token.h>
#include <passgen/passgen.h>
#include <passgen/pattern/env.h>
#include <passgen/pattern/preset.h>
#include <passgen/random.h>
#include <passgen/util/utf8.h>
#include <passgen/version.h>
#include <passgen/wordlist.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static char *args[16];
static size_t argn;

static void die(const char *why) {
    fprintf(stderr, "DRIVER: %s\n", why);
    exit(99);
}

static char *unhex(const char *t) {
    size_t n = strcmp(t, "-") ? strlen(t) / 2 : 0;
    char *out = malloc(n + 1);
    for(size_t i = 0; i < n; i++) {
        unsigned x;
        if(sscanf(t + 2 * i, "%2x", &x) != 1) die("hex");
        out[i] = x;
    }
    out[n] = 0;
    return out;
}

static void puthex(const void *data, size_t n) {
    const unsigned char *p = data;
    if(!n) putchar('-');
    for(size_t i = 0; i < n; i++) printf("%02x", p[i]);
}

// version: compares with all there are
static void cmd_version(void) {
    passgen_version cur = passgen_version_get();
    printf("V %d %d %d %d\n", cur.major, cur.minor, cur.patch, passgen_is_debug());
    unsigned long wrong = 0, yes = 0, first = 0;
    for(unsigned long v = 0; v < 1ul << 24; v++) {
        unsigned a = v >> 16, b = v >> 8 & 255, c = v & 255;
        passgen_version ask = {.major = a, .minor = b, .patch = c, .build = v & 1 ? "x" : NULL, .prerelease = v & 2 ? "rc1" : NULL};
        bool want = a == cur.major && (b < cur.minor || (b == cur.minor && c <= cur.patch));
        bool got = passgen_version_compatible(ask);
        yes += got;
        if(got != want && !wrong++) first = v;
    }
    printf("C %lu %lu %lu.%lu.%lu\n", yes, wrong, first >> 16, first >> 8 & 255, first & 255);
}

static void outputs(char tag, passgen_pattern *pattern, const char *spec, size_t n) {
    passgen_random *rnd = passgen_random_open(NULL, spec);
    if(!rnd) die("source");
    passgen_env env;
    passgen_env_init(&env, rnd);
    for(size_t i = 0; i < n; i++) {
        static unsigned char buffer[1 << 16];
        double entropy = 1;
        size_t got = passgen_generate_fill_utf8(pattern, &env, &entropy, buffer, sizeof buffer);
        printf("%c ", tag);
        puthex(buffer, got);
        printf(" %.17g\n", entropy);
    }
    passgen_env_free(&env);
}

// preset VALUE SOURCE N TIMES: parsed that often, compared with parsing it
static void cmd_preset(void) {
    char *value = unhex(args[1]), *copy = strdup(value);
    passgen_preset preset;
    passgen_preset_init(&preset, value);
    printf("I %d %d\n", preset.parsed, preset.value == value);
    int ret = 0;
    for(int i = 0; i < atoi(args[4]); i++) {
        ret = passgen_preset_parse(&preset);
        printf("R %d %d %d\n", ret, preset.parsed, !strcmp(value, copy));
    }
    passgen_pattern pattern;
    passgen_error error;
    memset(&error, 0, sizeof error);
    int direct = passgen_parse(&pattern, &error, copy);
    printf("D %d\n", direct);
    if(direct) passgen_error_free(&error);
    if(atoi(args[4]) && !ret && !direct) outputs('P', &preset.pattern, args[2], atoi(args[3]));
    passgen_preset_free(&preset);
    if(!direct) outputs('Q', &pattern, args[2], atoi(args[3]));
    passgen_pattern_free(&pattern);
    free(value);
    free(copy);
}

static void words(char tag, passgen_wordlist *list, const char *spec, size_t n) {
    size_t count = passgen_wordlist_count(list);
    printf("%c %zu %zu %d %d\n", tag, count, list->markov.count, list->parsed, list->parsed_markov);
    for(size_t i = 0; i < count; i++) {
        printf("%c ", tag);
        puthex(list->words[i], strlen(list->words[i]));
        putchar('\n');
    }
    if(!list->parsed_markov || !list->markov.count) return;
    passgen_random *rnd = passgen_random_open(NULL, spec);
    for(size_t i = 0; i < n; i++) {
        uint32_t window[512] = {0};
        size_t level = list->markov.level, len = 0;
        double entropy = 1;
        printf("%c", tag);
        while(len < 200) {
            uint32_t cp = passgen_markov_generate(&list->markov, window + len, rnd, &entropy);
            if(!cp) break;
            window[level + len++] = cp;
            printf(" %x", cp);
        }
        printf(" %.17g\n", entropy);
    }
    passgen_random_free(rnd);
}

// load PATH LEVEL SOURCE N: loading in one go, and step by step
static void cmd_load(void) {
    char *path = unhex(args[1]);
    size_t level = atoi(args[2]);
    for(int i = 0; i < 2; i++) {
        FILE *file = fopen(path, "r");
        if(!file) die("list");
        passgen_wordlist list;
        if(i == 0) {
            passgen_wordlist_load(&list, file, level);
        } else {
            passgen_wordlist_init(&list, file, level);
            passgen_wordlist_parse(&list);
            passgen_wordlist_parse_markov(&list);
        }
        words("LM"[i], &list, args[3], atoi(args[4]));
        passgen_wordlist_free(&list);
    }
    free(path);
}

// names: something is said for all states and errors
static void cmd_names(void) {
    for(int i = -3; i <= 3; i++) {
        const char *a = passgen_token_state_string(i), *b = passgen_token_parse_error_str(i);
        printf("T %d %s\n", i, a && b && *a && !strcmp(a, b) ? "good" : "bad");
    }
    for(int i = -3; i <= 3; i++) {
        const char *a = passgen_utf8_error(i);
        printf("U %d %s\n", i, a && *a ? "good" : "bad");
    }
}

int main(void) {
    char *line = NULL;
    size_t cap = 0;
    while(getline(&line, &cap, stdin) > 0) {
        line[strcspn(line, "\n")] = 0;
        char *p = line, *t;
        argn = 0;
        while((t = strsep(&p, " "))) {
            if(argn == 16) die("too many arguments");
            args[argn++] = t;
        }
        if(!strcmp(args[0], "version")) cmd_version();
        else if(!strcmp(args[0], "preset")) cmd_preset();
        else if(!strcmp(args[0], "load")) cmd_load();
        else if(!strcmp(args[0], "names")) cmd_names();
        else die("command");
        printf(".\n");
        fflush(stdout);
    }
    free(line);
    printf("END\n");
    return 0;
}
