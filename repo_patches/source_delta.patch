From c8a014a54518c77c1febb2522e0a58423e9847f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:55 +0000
Subject: [PATCH 01/66] fix: do not reuse random bytes when a read reaches the
 end of the buffer

When a read needed all (or more) of the bytes left in the buffer, the copy
started at the beginning of the buffer instead of at the current position, so
bytes that had already been handed out were handed out again.
---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index b2f601d..b37bba9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -42,7 +42,7 @@ void passgen_random_read(passgen_random *random, void *data, size_t bytes) {
         } else {
             // if we don't have enough, copy over whatever we have and
             // reload.
-            memcpy(data, random->buffer, left);
+            memcpy(data, &random->buffer[random->pos], left);
             passgen_random_reload(random);
 
             // if there's more to be read, recurse.
-- 
2.43.0


From a5c038e25fb9c54472aec7fcbabbee178e0c9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:58 +0000
Subject: [PATCH 02/66] fix: abort when the randomness source comes up short on
 reload

A failed or short read of the randomness source while refilling the buffer was
only caught by an assertion that release builds compile out, so passwords were
then generated from stale or uninitialised memory. Reads larger than the buffer
already abort in this case; do the same for both.
---
 src/random/random.c | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index b37bba9..0407479 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -15,16 +15,30 @@ static bool _strprefix(const char *prefix, const char *string) {
     return true;
 }
 
+// Read directly from the randomness source. There is no way to continue with
+// less random data than was asked for, so this is always fatal.
+static void
+passgen_random_read_source(passgen_random *random, void *data, size_t bytes) {
+    size_t ret = random->read(random->context, data, bytes);
+    if(ret != bytes) {
+        fprintf(
+            stderr,
+            "Error reading from randomness source: trying to read %zu "
+            "bytes but got %zu",
+            bytes,
+            ret);
+        abort();
+    }
+}
+
 void passgen_random_reload(passgen_random *random) {
     passgen_assert(random != NULL);
 
-    // read random data.
-    size_t bytes =
-        random->read(random->context, &random->buffer, sizeof(random->buffer));
-    (void) bytes;
-
-    // make sure we've read enough.
-    passgen_assert(bytes == sizeof(random->buffer));
+    // read random data, making sure we've read enough.
+    passgen_random_read_source(
+        random,
+        random->buffer,
+        sizeof(random->buffer));
 
     // reset position in ring buffer.
     random->pos = 0;
@@ -51,16 +65,7 @@ void passgen_random_read(passgen_random *random, void *data, size_t bytes) {
             }
         }
     } else {
-        size_t ret = random->read(random->context, data, bytes);
-        if(ret != bytes) {
-            fprintf(
-                stderr,
-                "Error reading from randomness source: trying to read %zu "
-                "bytes but got %zu",
-                bytes,
-                ret);
-            abort();
-        }
+        passgen_random_read_source(random, data, bytes);
     }
 }
 
-- 
2.43.0


From aaa1cc64e1d05a0244d2341d782e4e50d8ef8186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:27 +0000
Subject: [PATCH 03/66] fix: reject overlong fields in chacha20 randomness
 descriptions

The key of a chacha20: source and the passphrase, domain and token of a
chacha20-argon2: source were copied into fixed-size stack buffers without
looking at their length.
---
 src/random/random.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/random/random.c b/src/random/random.c
index 0407479..aee9941 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -109,6 +109,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             key_end = key_ptr + strlen(key_ptr);
         }
         char key[32] = {0};
+        if((size_t) (key_end - key_ptr) > sizeof(key)) {
+            return NULL;
+        }
         memcpy(key, key_ptr, key_end - key_ptr);
 
         char iv[] = "passgen";
@@ -141,6 +144,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             if(!end) { \
                 end = start + strlen(start); \
             } \
+            if((size_t) (end - start) >= sizeof(name)) { \
+                return NULL; \
+            } \
             memcpy(name, start, end - start); \
         }
 
-- 
2.43.0


From fbb0d5be58fa265bcf7d7814b0bdeb3330ee0cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 04/66] fix: use the full 64 bits of xorshift seeds

Seeds of 2^63 and above were all clamped to the same value by atoll.
---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index aee9941..b20823d 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -87,7 +87,7 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             return NULL;
         }
 
-        uint64_t seed = atoll(seed_str);
+        uint64_t seed = strtoull(seed_str, NULL, 10);
         if(seed == 0) {
             return NULL;
         }
-- 
2.43.0


From ab7d9631bdb09c3e5b54df70a93ed20bc54d3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:44 +0000
Subject: [PATCH 05/66] fix: clear the state of deterministic randomness
 sources

Closing a randomness source promises to clear its memory, but the xorshift
state (which predicts all output) was freed as is, and the ChaCha20 key derived
from a master passphrase was left behind on the stack.
---
 src/random/deterministic.c | 7 ++++++-
 src/random/xorshift.c      | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/random/deterministic.c b/src/random/deterministic.c
index 273e30a..c61bf96 100644
--- a/src/random/deterministic.c
+++ b/src/random/deterministic.c
@@ -146,5 +146,10 @@ passgen_random *passgen_random_chacha20_argon2_open(
     passgen_argon2(&hash[0], hash_size, work_area, config, inputs, extras);
     free(work_area);
 
-    return passgen_random_chacha20_open(random, hash, "passgen");
+    random = passgen_random_chacha20_open(random, hash, "passgen");
+
+    // this is the key of the randomness source, don't leave it on the stack
+    passgen_wipe(hash, hash_size);
+
+    return random;
 }
diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index 5e501f9..cba18a6 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -1,4 +1,5 @@
 #include "passgen/random.h"
+#include "passgen/config.h"
 #include "passgen/util/endian.h"
 #include <stdlib.h>
 #include <string.h>
@@ -34,7 +35,9 @@ passgen_random_xorshift_read(void *context, void *dest, size_t size) {
 }
 
 static void passgen_random_xorshift_close(void *context) {
-    free(context);
+    uint64_t *state = context;
+    PASSGEN_CLEAR(state);
+    free(state);
 }
 
 passgen_random *
-- 
2.43.0


From 17ee30add2fd5870e403b67178546e7947de10b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:02 +0000
Subject: [PATCH 06/66] fix: reject truncated UTF-8 sequences at the end of the
 input

The decoder reported success and silently dropped an incomplete multi-byte
sequence at the end of the input.
---
 src/util/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 7d7cac5..f4989ad 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -75,6 +75,11 @@ int passgen_utf8_decode(
         input_offset += 1;
     }
 
+    // the input ended in the middle of a multi-byte sequence.
+    if(state != UTF8_ACCEPT) {
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     *output += output_offset;
     *input += input_offset;
 
-- 
2.43.0


From 79885a12e31b0aab208efc414694dbe6ac5bfebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:06 +0000
Subject: [PATCH 07/66] fix: do not write past short output buffers when
 encoding UTF-8

With an output buffer of less than four bytes the bound underflowed.
---
 src/util/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index f4989ad..729e7c7 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -141,7 +141,7 @@ int passgen_utf8_encode(
     const uint32_t *in,
     size_t in_len,
     size_t *in_pos) {
-    while((*in_pos < in_len) && (*out_pos < (out_len - 4))) {
+    while((*in_pos < in_len) && (*out_pos + 4 < out_len)) {
         int ret = passgen_utf8_encode_codepoint(&out[*out_pos], in[*in_pos]);
         if(ret < 0) {
             return ret;
-- 
2.43.0


From 83b1879e0bc91bbdcea1c01f0a6c781cf6a3bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 08/66] fix: do not encode surrogate codepoints as UTF-8

Patterns such as \u{d800} produced output (and JSON) that is not valid UTF-8.
Surrogates are now an encoding error, as codepoints above U+10FFFF already are,
and one that appears in the name of a special pattern fails the parse.
---
 include/passgen/pattern/special.h |  3 ++-
 src/parser/parser.c               |  2 +-
 src/pattern/special.c             | 10 ++++++++--
 src/util/utf8.c                   |  5 +++++
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/passgen/pattern/special.h b/include/passgen/pattern/special.h
index 3141757..f08d7c0 100644
--- a/include/passgen/pattern/special.h
+++ b/include/passgen/pattern/special.h
@@ -60,6 +60,7 @@ void passgen_pattern_special_free(passgen_pattern_special *special);
 /// @memberof passgen_pattern_special
 /// @param special Special pattern to add codepoint to
 /// @param codepoint Codepoint to add to the pattern
-void passgen_pattern_special_push(
+/// @returns Zero on success, negative if the codepoint cannot be encoded
+int passgen_pattern_special_push(
     passgen_pattern_special *special,
     int32_t codepoint);
diff --git a/src/parser/parser.c b/src/parser/parser.c
index 715562f..dbda93c 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -513,7 +513,7 @@ int passgen_parse_special_name(
     if(token->codepoint == '}') {
         passgen_stack_pop(&parser->state, NULL);
     } else {
-        passgen_pattern_special_push(
+        return passgen_pattern_special_push(
             state->data.special.special,
             token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT);
     }
diff --git a/src/pattern/special.c b/src/pattern/special.c
index 644165f..f5ecc6e 100644
--- a/src/pattern/special.c
+++ b/src/pattern/special.c
@@ -37,7 +37,7 @@ void passgen_pattern_special_free(passgen_pattern_special *special) {
     PASSGEN_CLEAR(special);
 }
 
-void passgen_pattern_special_push(
+int passgen_pattern_special_push(
     passgen_pattern_special *special,
     int32_t codepoint) {
     if(special->parameters_cap == 0) {
@@ -57,11 +57,17 @@ void passgen_pattern_special_push(
         (uint8_t *) &special->parameters[special->parameters_len],
         codepoint);
 
-    passgen_assert(bytes > 0);
+    // not a valid codepoint
+    if(bytes < 0) {
+        return bytes;
+    }
+
     special->parameters_len += bytes;
 
     assert(special->parameters_len < special->parameters_cap);
 
     // always NULL-terminate the string.
     special->parameters[special->parameters_len] = 0;
+
+    return 0;
 }
diff --git a/src/util/utf8.c b/src/util/utf8.c
index 729e7c7..4e3b3c0 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -113,6 +113,11 @@ int passgen_utf8_encode_codepoint(uint8_t *out, uint32_t utf) {
         return 2;
     }
 
+    if(0xD800 <= utf && utf <= 0xDFFF) {
+        // surrogates cannot be represented in UTF-8
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     if(utf <= 0xFFFF) {
         // 3-byte unicode
         out[0] = (uint8_t) (((utf >> 12) & 0x0F) | 0xE0);
-- 
2.43.0


From 8cc32af987a5f4f1da32565f67d3866a5f69b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 09/66] fix: do not mistake unicode codepoints for pattern
 syntax

Codepoints were truncated to eight bits before looking for metacharacters, so
that U+017C was taken to be a pipe and U+0128 an opening parenthesis, for
example.
---
 src/parser/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index dbda93c..f327b35 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -237,7 +237,7 @@ int passgen_parse_group(
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
             case '(':
             case ')':
@@ -254,7 +254,7 @@ int passgen_parse_group(
                 // special token
                 special = passgen_pattern_segment_new_special(
                     state->data.group.segment);
-                passgen_pattern_special_init(special, (char) codepoint);
+                passgen_pattern_special_init(special, codepoint);
                 passgen_parser_state_push_special(parser, special);
                 return 0;
             default:
@@ -262,7 +262,7 @@ int passgen_parse_group(
                 return -1;
         }
     } else {
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
-- 
2.43.0


From c757f59c2464e186048778ac886b6b114da4460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:02 +0000
Subject: [PATCH 10/66] fix: reject unicode literals beyond U+10FFFF

Literals such as \u{ffffff} were accepted even though there is no such
codepoint, and could then not be encoded.
---
 src/parser/token.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/token.c b/src/parser/token.c
index a032cda..ce3aae8 100644
--- a/src/parser/token.c
+++ b/src/parser/token.c
@@ -1,4 +1,5 @@
 #include "passgen/parser/token.h"
+#include "passgen/util/utf8.h"
 
 void passgen_token_parser_init(struct passgen_token_parser *token_parser) {
     token_parser->state = PASSGEN_TOKEN_INIT;
@@ -114,6 +115,13 @@ static inline void token_parse_unicode_payload(
     // once we read the closing brace, the payload is over and we can emit the
     // token.
     if(codepoint == '}') {
+        // there are no codepoints beyond U+10FFFF.
+        if(parser->data.unicode_payload.codepoint > PASSGEN_UNICODE_MAX) {
+            parser->state = PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD_LEN;
+
+            return;
+        }
+
         token->codepoint = parser->data.unicode_payload.codepoint;
         parser->state = PASSGEN_TOKEN_INIT;
 
-- 
2.43.0


From 79c18f35ba2044f5019e6366a89d167a1260fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:06 +0000
Subject: [PATCH 11/66] fix: correct precedence in PASSGEN_TOKEN_UNICODE_MASK

The mask evaluated to 1 << 20, which does not extract the codepoint.
---
 include/passgen/parser/token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/passgen/parser/token.h b/include/passgen/parser/token.h
index 25b1d5c..5408d03 100644
--- a/include/passgen/parser/token.h
+++ b/include/passgen/parser/token.h
@@ -21,7 +21,7 @@
 
 /// Bitmask for extracting only the Unicode codepoint from the parsed @ref
 /// passgen_token.
-#define PASSGEN_TOKEN_UNICODE_MASK (1 << 21 - 1)
+#define PASSGEN_TOKEN_UNICODE_MASK ((1 << 21) - 1)
 
 /// State of the @ref passgen_token_parser.
 ///
-- 
2.43.0


From 66d47040fd8bd54113663da0763e8ef4c3c051ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:10 +0000
Subject: [PATCH 12/66] fix: keep the multiplier sum of groups in step with
 their segments

The sum went wrong when a segment had more than one multiplier, which made
generation run past the last segment, and when a segment followed one that has
been dropped for its zero multiplier, in which case the last segments of the
group were never chosen.
---
 src/parser/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index f327b35..8206c7e 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -273,6 +273,8 @@ int passgen_parse_group(
                     // if the previous segment had a zero multiplier, recycle it
                     passgen_pattern_segment_free(state->data.group.segment);
                     passgen_pattern_segment_init(state->data.group.segment);
+                    state->data.group.group->multiplier_sum +=
+                        state->data.group.segment->multiplier;
                 }
                 return 0;
             case ')':
@@ -308,8 +310,10 @@ int passgen_parse_group(
                     passgen_parser_state_push_repeat(parser, &item->repeat);
                     return 0;
                 } else {
+                    // this replaces the multiplier the segment had so far
+                    state->data.group.group->multiplier_sum -=
+                        state->data.group.segment->multiplier;
                     state->data.group.segment->multiplier = 0;
-                    state->data.group.group->multiplier_sum -= 1;
                     passgen_parser_state_push_multiplier(
                         parser,
                         &state->data.group.segment->multiplier,
-- 
2.43.0


From 36ffbade36c46190dac94599da21bc3657f51573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 13/66] fix: reject repetitions and multipliers that do not fit

Numbers that are too large wrapped around silently, so that for example
a{18446744073709551617} produced a single a.
---
 src/parser/parser.c | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 8206c7e..a37d669 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -182,6 +182,20 @@ last_single_item_taint(passgen_pattern_segment *segment) {
     return item;
 }
 
+// append a decimal digit to a number, making sure that it does not overflow.
+static inline int append_digit(size_t *number, uint32_t codepoint) {
+    size_t digit = codepoint - '0';
+
+    if(*number > (SIZE_MAX - digit) / 10) {
+        return -1;
+    }
+
+    *number *= 10;
+    *number += digit;
+
+    return 0;
+}
+
 int passgen_parse_token(passgen_parser *parser, passgen_token *token) {
     passgen_parser_state *state = passgen_parser_state_last(parser);
 
@@ -264,6 +278,11 @@ int passgen_parse_group(
     } else {
         switch(codepoint) {
             case '|':
+                // no space in the sum for the multiplier of another segment
+                if(state->data.group.group->multiplier_sum == SIZE_MAX) {
+                    return -1;
+                }
+
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
                     state->data.group.segment =
@@ -427,18 +446,18 @@ int passgen_parse_multiplier(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        if(*state->data.multiplier.value >
+           SIZE_MAX - *state->data.multiplier.sum) {
+            return -1;
+        }
+
         *state->data.multiplier.sum += *state->data.multiplier.value;
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
 
     if(token->codepoint >= '0' && token->codepoint <= '9') {
-        uint8_t digit = token->codepoint - '0';
-
-        *state->data.multiplier.value *= 10;
-        *state->data.multiplier.value += digit;
-
-        return 0;
+        return append_digit(state->data.multiplier.value, token->codepoint);
     }
 
     return -1;
@@ -462,12 +481,7 @@ int passgen_parse_repeat(
     }
 
     if(token->codepoint >= '0' && token->codepoint <= '9') {
-        uint8_t digit = token->codepoint - '0';
-
-        state->data.repeat.repeat->min *= 10;
-        state->data.repeat.repeat->min += digit;
-
-        return 0;
+        return append_digit(&state->data.repeat.repeat->min, token->codepoint);
     }
 
     return -1;
@@ -483,12 +497,7 @@ int passgen_parse_repeat_range(
     }
 
     if(token->codepoint >= '0' && token->codepoint <= '9') {
-        uint8_t digit = token->codepoint - '0';
-
-        state->data.repeat.repeat->max *= 10;
-        state->data.repeat.repeat->max += digit;
-
-        return 0;
+        return append_digit(&state->data.repeat.repeat->max, token->codepoint);
     }
 
     return -1;
-- 
2.43.0


From 58a5907441312ca0186fea8f70b3acfbce3f5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 14/66] fix: reject repetition ranges that are empty

Ranges such as a{5,2} or a{5,} were accepted, and the amount of repetitions was
then chosen from a range that wrapped around, typically repeating forever. The
full range of {0,18446744073709551615} cannot be chosen from either.
---
 src/parser/parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index a37d669..827888e 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -492,6 +492,14 @@ int passgen_parse_repeat_range(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        // the range has to contain at least one value, and the amount of values
+        // in it has to be representable.
+        passgen_pattern_repeat *repeat = state->data.repeat.repeat;
+        if(repeat->max < repeat->min ||
+           repeat->max - repeat->min == SIZE_MAX) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
-- 
2.43.0


From 7a9bad67a19785204c8b264b986dd87fa6228e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 15/66] fix: apply modifiers of empty groups to the group

Empty groups were dropped before looking at the modifier following them, which
was then applied to whatever came before the group: a(){3} produced aaa.
---
 src/parser/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 827888e..894b4f1 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -247,7 +247,10 @@ int passgen_parse_group(
     passgen_pattern_special *special;
     passgen_pattern_item *item;
 
-    passgen_pattern_segment_clean(state->data.group.segment);
+    // drop the last item if it is empty, unless a modifier for it follows.
+    if(codepoint != '{' && codepoint != '?') {
+        passgen_pattern_segment_clean(state->data.group.segment);
+    }
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-- 
2.43.0


From c85d6ba378d0298f48f31977108bd271ea2f76a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 16/66] fix: handle escaped characters in sets

An escaped character at the end of a range kept the bit that marks it as
escaped, so that [!-\-] was a range of a billion codepoints, and brackets could
not be escaped at all even though this is documented.
---
 src/parser/parser.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 894b4f1..ef57e55 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -376,6 +376,24 @@ int passgen_parse_group(
     return 0;
 }
 
+// inside sets, there is no reason to expect an escaped token unless it's a
+// dash or a bracket.
+static inline int unescape_set_codepoint(uint32_t *codepoint) {
+    if(*codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
+        switch(*codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT) {
+            case '-':
+            case '[':
+            case ']':
+                *codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
+                break;
+            default:
+                return -1;
+        }
+    }
+
+    return 0;
+}
+
 int passgen_parse_set(
     passgen_parser *parser,
     passgen_token *token,
@@ -404,15 +422,8 @@ int passgen_parse_set(
     }
 
     uint32_t codepoint = token->codepoint;
-    if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
-        // no reason to expect an escaped token here unless it's a dash.
-        switch(codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT) {
-            case '-':
-                codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-                break;
-            default:
-                return -1;
-        }
+    if(0 != unescape_set_codepoint(&codepoint)) {
+        return -1;
     }
 
     passgen_pattern_range *range = passgen_pattern_set_range_append(set);
@@ -434,11 +445,16 @@ int passgen_parse_set_range(
         return -1;
     }
 
-    if(token->codepoint < state->data.set.range->start) {
+    uint32_t codepoint = token->codepoint;
+    if(0 != unescape_set_codepoint(&codepoint)) {
+        return -1;
+    }
+
+    if(codepoint < state->data.set.range->start) {
         return -1;
     }
 
-    state->data.set.range->end = token->codepoint;
+    state->data.set.range->end = codepoint;
     state->type = PASSGEN_PARSER_SET;
 
     return 0;
-- 
2.43.0


From eee45ef6a8b61ab9c5b5b0d12e518c55361c86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:25 +0000
Subject: [PATCH 17/66] fix: allow escaping question marks

The question mark is a modifier, but unlike all other metacharacters it could
not be escaped to be used as text.
---
 src/parser/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index ef57e55..423d979 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -262,6 +262,7 @@ int passgen_parse_group(
             case '}':
             case '[':
             case ']':
+            case '?':
                 // escaped token which would normally do something but
                 // should be treated as text
                 break;
-- 
2.43.0


From 4c485820419c1d920dd82f27e45276a7e3f9186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 18/66] fix: report token errors when parsing unicode data

Invalid and incomplete escape sequences were dropped silently.
---
 src/parser/parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 423d979..e4e5fef 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -591,6 +591,10 @@ int passgen_parser_unicode(
     for(size_t pos = 0; pos < length; pos++) {
         ret = passgen_token_parse(&token_parser, &token, 1, data[pos]);
 
+        if(ret < 0) {
+            return ret;
+        }
+
         if(ret == PASSGEN_TOKEN_INIT) {
             ret = passgen_parse_token(parser, &token);
 
@@ -600,5 +604,10 @@ int passgen_parser_unicode(
         }
     }
 
+    // make sure the data does not end in the middle of a token
+    if(token_parser.state != PASSGEN_TOKEN_INIT) {
+        return -1;
+    }
+
     return 0;
 }
-- 
2.43.0


From 08dbe39ef9eaa444930acf3e6610f7403d747beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 19/66] fix: limit how deeply patterns can be nested

Deeply nested patterns (about a hundred thousand opening parentheses) made
releasing the pattern run out of stack. The parser has a depth limit for this
purpose, it just was not used.
---
 src/passgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/passgen.c b/src/passgen.c
index d20c4b6..caf4117 100644
--- a/src/passgen.c
+++ b/src/passgen.c
@@ -7,6 +7,10 @@
 #include <passgen/passgen.h>
 #include <string.h>
 
+// Patterns are released and generated from recursively, so limit how deeply
+// they can be nested.
+#define PASSGEN_PARSE_DEPTH_LIMIT 4096
+
 int passgen_parse(
     passgen_pattern *output,
     passgen_error *error,
@@ -15,6 +19,7 @@ int passgen_parse(
     passgen_token_parser token_parser = {0};
     passgen_token token = {0};
     passgen_parser_init(&parser, output);
+    parser.limit = PASSGEN_PARSE_DEPTH_LIMIT;
 
     const uint8_t *pattern_raw = (const uint8_t *) string;
     size_t pattern_len = 256;
-- 
2.43.0


From e6f8bc39acda0d5334b73eebc11a01a4963db004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:46 +0000
Subject: [PATCH 20/66] fix: count optional items towards the entropy

Whether an item followed by a question mark is present is a random choice, but
it was not accounted for.
---
 src/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index e6dacb6..606d2e3 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -456,6 +456,11 @@ static int passgen_generate_item(
     // if it is a maybe (has a question mark following it), decide first if we
     // want to emit it or not.
     if(item->maybe) {
+        // keep track of entropy
+        if(context->entropy) {
+            *context->entropy *= 2;
+        }
+
         if(!passgen_random_bool(context->env->random)) {
             return 0;
         }
-- 
2.43.0


From 875227ec917c04a667ca8274c7ce3d07bd46d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 21/66] fix: do not limit the length of markov chain words

Words were generated into a fixed-size buffer on the stack that words of more
than 128 codepoints, or a markov chain length of more than 127, ran over.
---
 src/generate.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 606d2e3..aae4c64 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -370,23 +370,27 @@ static int passgen_generate_special_markov(
         passgen_wordlist_parse_markov(wordlist);
     }
     passgen_markov *markov = &wordlist->markov;
-    uint32_t word[128];
-    size_t pos = markov->level;
-    memset(word, 0, pos * sizeof(uint32_t));
-    double *entropy = context->entropy ? &*context->entropy : NULL;
-    do {
-        word[pos] = passgen_markov_generate(
+    // window into the generated word, contains the codepoints that the next one
+    // depends on.
+    size_t level = markov->level;
+    uint32_t window[level];
+    memset(window, 0, sizeof(window));
+    while(true) {
+        uint32_t codepoint = passgen_markov_generate(
             markov,
-            &word[pos - markov->level],
+            window,
             context->env->random,
-            entropy);
-        pos++;
-    } while(word[pos - 1]);
-
-    pos = markov->level;
-    while(word[pos]) {
-        try(emit(context, word[pos]));
-        pos++;
+            context->entropy);
+
+        // end of word
+        if(!codepoint) {
+            break;
+        }
+
+        try(emit(context, codepoint));
+
+        memmove(&window[0], &window[1], sizeof(window) - sizeof(window[0]));
+        window[level - 1] = codepoint;
     }
 
     return 0;
-- 
2.43.0


From ae56b0c0160134161b37d7f2a368042196b62a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 22/66] fix: fail generation when a wordlist cannot be read

The size of pipes and other special files cannot be determined by seeking, so
read until the end of the file. Reading directories or files that produce read
errors is propagated instead of being ignored.
---
 src/generate.c |  4 ++--
 src/wordlist.c | 59 +++++++++++++++++++++++++++++++++++---------------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index aae4c64..f3ccc17 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -364,7 +364,7 @@ static int passgen_generate_special_markov(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
     if(!wordlist->parsed_markov) {
         passgen_wordlist_parse_markov(wordlist);
@@ -406,7 +406,7 @@ static int passgen_generate_special_wordlist(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
 
     // pick word at random
diff --git a/src/wordlist.c b/src/wordlist.c
index cefec06..f67db16 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -8,6 +8,7 @@
 
 #define ALLOC_INITIAL  256
 #define ALLOC_INCREASE 2
+#define READ_INITIAL   4096
 
 void passgen_wordlist_init(
     passgen_wordlist *wordlist,
@@ -17,14 +18,25 @@ void passgen_wordlist_init(
     wordlist->parsed_markov = false;
     wordlist->file = file;
     wordlist->should_close_file = true;
+    wordlist->data = NULL;
+    wordlist->size = 0;
+    wordlist->words = NULL;
+    wordlist->count = 0;
     passgen_markov_init(&wordlist->markov, markov_length);
 }
 
 int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed);
-    wordlist->parsed = true;
-    try(passgen_wordlist_read(wordlist, wordlist->file));
+
+    // the file is gone if it could not be read previously.
+    if(!wordlist->file) {
+        return 1;
+    }
+
+    FILE *file = wordlist->file;
     wordlist->file = NULL;
+    try(passgen_wordlist_read(wordlist, file));
+    wordlist->parsed = true;
     passgen_wordlist_scan(wordlist);
     return 0;
 }
@@ -70,21 +82,36 @@ void passgen_wordlist_load(
 }
 
 int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
-    // get size of file
-    fseek(file, 0, SEEK_END);
-    wordlist->size = ftell(file);
-    fseek(file, 0, SEEK_SET);
+    // start at the beginning, if this is something that can be seeked (a pipe
+    // is read from where it is).
+    (void) fseek(file, 0, SEEK_SET);
 
-    // allocate buffer to hold entire file and read in (plus zero termination)
-    wordlist->data = malloc(wordlist->size + 1);
+    size_t capacity = READ_INITIAL;
+    wordlist->size = 0;
+    wordlist->data = malloc(capacity);
     passgen_assert(wordlist->data);
 
-    // read in entire wordlist
-    size_t read = fread(wordlist->data, 1, wordlist->size, file);
-    if(read != wordlist->size) {
-        return 1;
+    // read in entire wordlist, growing the buffer as needed and always leaving
+    // space for the null-termination.
+    while(true) {
+        size_t read = fread(
+            &wordlist->data[wordlist->size],
+            1,
+            capacity - wordlist->size - 1,
+            file);
+        wordlist->size += read;
+
+        if(wordlist->size + 1 < capacity) {
+            break;
+        }
+
+        capacity *= ALLOC_INCREASE;
+        wordlist->data = realloc(wordlist->data, capacity);
+        passgen_assert(wordlist->data);
     }
 
+    bool failed = ferror(file);
+
     // null-terminate wordlist
     wordlist->data[wordlist->size] = 0;
 
@@ -92,7 +119,7 @@ int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
         fclose(file);
     }
 
-    return 0;
+    return failed ? 1 : 0;
 }
 
 void passgen_wordlist_scan(passgen_wordlist *wordlist) {
@@ -136,10 +163,8 @@ passgen_wordlist_random(passgen_wordlist *wordlist, passgen_random *random) {
 void passgen_wordlist_free(passgen_wordlist *wordlist) {
     passgen_markov_free(&wordlist->markov);
 
-    if(wordlist->parsed) {
-        free(wordlist->words);
-        free(wordlist->data);
-    }
+    free(wordlist->words);
+    free(wordlist->data);
 
     if(wordlist->should_close_file && wordlist->file) {
         fclose(wordlist->file);
-- 
2.43.0


From 2b19bc94f7c887465830dd80e4c5dcf09759b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 23/66] fix: fail generation from empty wordlists

---
 src/generate.c | 8 ++++++++
 src/wordlist.c | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index f3ccc17..d085d8a 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -369,6 +369,9 @@ static int passgen_generate_special_markov(
     if(!wordlist->parsed_markov) {
         passgen_wordlist_parse_markov(wordlist);
     }
+    if(passgen_wordlist_count(wordlist) == 0) {
+        return -1;
+    }
     passgen_markov *markov = &wordlist->markov;
     // window into the generated word, contains the codepoints that the next one
     // depends on.
@@ -409,6 +412,11 @@ static int passgen_generate_special_wordlist(
         try(passgen_wordlist_parse(wordlist));
     }
 
+    // can't pick a word if there are none
+    if(passgen_wordlist_count(wordlist) == 0) {
+        return -1;
+    }
+
     // pick word at random
     const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
 
diff --git a/src/wordlist.c b/src/wordlist.c
index f67db16..107618a 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -153,7 +153,7 @@ void passgen_wordlist_scan(passgen_wordlist *wordlist) {
 
 const char *
 passgen_wordlist_random(passgen_wordlist *wordlist, passgen_random *random) {
-    if(!wordlist->parsed) {
+    if(!wordlist->parsed || wordlist->count == 0) {
         return NULL;
     }
     size_t index = passgen_random_u64_max(random, wordlist->count);
-- 
2.43.0


From 1bd41897d32f68fe6fa7e576d8018867635d893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 24/66] fix: handle long and invalid words in wordlists

Words longer than 128 codepoints made generation fail, words longer than 256
codepoints or words that are not valid UTF-8 could cause uninitialized memory
to be added to the markov chain.
---
 include/passgen/wordlist.h |  5 +--
 src/generate.c             | 36 +++++++++++++------
 src/wordlist.c             | 72 +++++++++++++++++++++++++-------------
 3 files changed, 75 insertions(+), 38 deletions(-)

diff --git a/include/passgen/wordlist.h b/include/passgen/wordlist.h
index 7683e21..2a2277d 100644
--- a/include/passgen/wordlist.h
+++ b/include/passgen/wordlist.h
@@ -51,10 +51,11 @@ void passgen_wordlist_init(passgen_wordlist *wordlist, FILE *file, size_t markov
 /// @memberof passgen_wordlist
 int passgen_wordlist_parse(passgen_wordlist *wordlist);
 
-/// Generate markov chain from wordlist.
+/// Generate markov chain from wordlist. Returns nonzero if the wordlist is not
+/// valid UTF-8.
 ///
 /// @memberof passgen_wordlist
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
 
 /// Generate random word from this wordlist.
 ///
diff --git a/src/generate.c b/src/generate.c
index d085d8a..413bbf5 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -367,7 +367,7 @@ static int passgen_generate_special_markov(
         try(passgen_wordlist_parse(wordlist));
     }
     if(!wordlist->parsed_markov) {
-        passgen_wordlist_parse_markov(wordlist);
+        try(passgen_wordlist_parse_markov(wordlist));
     }
     if(passgen_wordlist_count(wordlist) == 0) {
         return -1;
@@ -418,18 +418,32 @@ static int passgen_generate_special_wordlist(
     }
 
     // pick word at random
-    const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
+    const uint8_t *word = (const uint8_t *) passgen_wordlist_random(
+        wordlist,
+        context->env->random);
 
-    // UTF8-decode word and write codepoints
-    // TODO: handle longer words
-    size_t word_len = strlen(word);
-    const char *word_pos = &word;
+    // UTF8-decode word and write codepoints, in chunks
+    size_t word_len = strlen((const char *) word);
     uint32_t codepoints[128];
-    uint32_t *codepoints_pos = &codepoints[0];
-    try(passgen_utf8_decode(&codepoints_pos, 128, NULL, word_pos, word_len));
-    for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
-        try(emit(context, codepoints[i]));
-    }
+    int ret;
+    do {
+        const uint8_t *word_pos = word;
+        uint32_t *codepoints_pos = &codepoints[0];
+        ret = passgen_utf8_decode(
+            &codepoints_pos,
+            128,
+            NULL,
+            &word_pos,
+            word_len);
+        if(ret < PASSGEN_UTF8_SUCCESS) {
+            return ret;
+        }
+        for(size_t i = 0; &codepoints[i] < codepoints_pos; i++) {
+            try(emit(context, codepoints[i]));
+        }
+        word_len -= word_pos - word;
+        word = word_pos;
+    } while(ret > PASSGEN_UTF8_SUCCESS);
 
     if(context->entropy) {
         *context->entropy *= passgen_wordlist_count(wordlist);
diff --git a/src/wordlist.c b/src/wordlist.c
index 107618a..fe00fb1 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -41,35 +41,57 @@ int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     return 0;
 }
 
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed_markov);
-    wordlist->parsed_markov = true;
 
-    size_t unicode_buffer_len = 256;
-    uint32_t unicode_buffer[unicode_buffer_len];
+    // find length of longest word, in bytes
+    size_t unicode_buffer_len = 1;
     for(size_t i = 0; i < wordlist->count; i++) {
-        uint32_t *unicode_buffer_pos = &unicode_buffer[0];
-        const uint8_t *word = (const uint8_t *) wordlist->words[i];
-        size_t word_length = strlen((const char *) word);
-
-        // decode utf8
-        int ret = passgen_utf8_decode(
-            &unicode_buffer_pos,
-            unicode_buffer_len,
-            NULL,
-            &word,
-            word_length);
-
-        // make sure the conversion worked
-        passgen_assert(ret == PASSGEN_UTF8_SUCCESS);
-
-        // add word to markov chain
-        passgen_markov_add(
-            &wordlist->markov,
-            unicode_buffer,
-            unicode_buffer_pos - &unicode_buffer[0],
-            1);
+        size_t word_length = strlen(wordlist->words[i]);
+        if(word_length > unicode_buffer_len) {
+            unicode_buffer_len = word_length;
+        }
+    }
+
+    uint32_t *unicode_buffer = malloc(sizeof(uint32_t) * unicode_buffer_len);
+    passgen_assert(unicode_buffer);
+
+    // decode words and add them to markov chain. The first pass makes sure
+    // that all of the words can be decoded, so that the markov chain is not
+    // left partially filled.
+    for(int pass = 0; pass < 2; pass++) {
+        for(size_t i = 0; i < wordlist->count; i++) {
+            uint32_t *unicode_buffer_pos = &unicode_buffer[0];
+            const uint8_t *word = (const uint8_t *) wordlist->words[i];
+
+            // decode utf8
+            int ret = passgen_utf8_decode(
+                &unicode_buffer_pos,
+                unicode_buffer_len,
+                NULL,
+                &word,
+                strlen(wordlist->words[i]));
+
+            // make sure the conversion worked
+            if(ret != PASSGEN_UTF8_SUCCESS) {
+                free(unicode_buffer);
+                return ret;
+            }
+
+            // add word to markov chain
+            if(pass == 1) {
+                passgen_markov_add(
+                    &wordlist->markov,
+                    unicode_buffer,
+                    unicode_buffer_pos - &unicode_buffer[0],
+                    1);
+            }
+        }
     }
+
+    free(unicode_buffer);
+    wordlist->parsed_markov = true;
+    return 0;
 }
 
 void passgen_wordlist_load(
-- 
2.43.0


From 6889d781782e6a08abf2ca2ad9a432f374f995da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 25/66] fix: do not look up wordlists by NULL names

---
 src/generate.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 413bbf5..270099f 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -354,11 +354,20 @@ static int passgen_generate_literal(
     return 0;
 }
 
+// Lookup the wordlist that a special item refers to.
+static inline passgen_hashmap_entry *lookup_wordlist(
+    const passgen_generate_context *context,
+    const passgen_pattern_special *special) {
+    // specials with an empty name don't have any parameters allocated
+    return passgen_hashmap_lookup(
+        &context->env->wordlists,
+        special->parameters ? special->parameters : "");
+}
+
 static int passgen_generate_special_markov(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
-    passgen_hashmap_entry *entry =
-        passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
+    passgen_hashmap_entry *entry = lookup_wordlist(context, special);
     if(!entry) {
         return -1;
     }
@@ -402,8 +411,7 @@ static int passgen_generate_special_markov(
 static int passgen_generate_special_wordlist(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
-    passgen_hashmap_entry *entry =
-        passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
+    passgen_hashmap_entry *entry = lookup_wordlist(context, special);
     if(!entry) {
         return -1;
     }
-- 
2.43.0


From 3f112d6bc3282a73aada782c19b661a09f6d931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 26/66] fix: release wordlists that are replaced

---
 src/env.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/env.c b/src/env.c
index 756ab4f..0454043 100644
--- a/src/env.c
+++ b/src/env.c
@@ -38,9 +38,18 @@ int passgen_env_wordlist_add(
     FILE *file,
     size_t markov_length) {
     passgen_wordlist *wordlist = malloc(sizeof(passgen_wordlist));
-    passgen_hashmap_insert(&env->wordlists, name, wordlist);
+    if(!wordlist) {
+        return 1;
+    }
     passgen_wordlist_init(wordlist, file, markov_length);
 
+    // release previous wordlist with the same name, if there was one
+    passgen_hashmap_entry previous =
+        passgen_hashmap_insert(&env->wordlists, name, wordlist);
+    if(previous.key) {
+        wordlist_entry_free(NULL, &previous);
+    }
+
     return 0;
 }
 
-- 
2.43.0


From c082e156e7e95c98324235f2ae5fc47e4f6a5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 27/66] fix: do not insert duplicate keys into hashmaps

When the first position for a key was free or could be freed by moving its
entry, an existing entry in the second position was not considered.
---
 src/container/hashmap.c | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index a468123..84839e8 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -125,46 +125,32 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         passgen_hashmap_realloc(map, hashmap_sizes[0]);
     }
 
+    // if there is an entry for this key already, in either of the possible
+    // positions, then overwrite it.
+    passgen_hashmap_entry *existing = passgen_hashmap_lookup(map, key);
+    if(existing) {
+        passgen_hashmap_entry entry = *existing;
+        existing->key = key;
+        existing->value = value;
+        return entry;
+    }
+
     size_t hash;
 
     hash = passgen_hashmap_position(map, key, true);
-    if(!map->data[hash].key) {
+    if(!map->data[hash].key || passgen_hashmap_move(map, hash)) {
         map->data[hash].key = key;
         map->data[hash].value = value;
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
-    } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            map->len += 1;
-            return (passgen_hashmap_entry){NULL, NULL};
-        }
     }
 
     hash = passgen_hashmap_position(map, key, false);
-    if(!map->data[hash].key) {
+    if(!map->data[hash].key || passgen_hashmap_move(map, hash)) {
         map->data[hash].key = key;
         map->data[hash].value = value;
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
-    } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            map->len += 1;
-            return (passgen_hashmap_entry){NULL, NULL};
-        }
     }
 
     passgen_hashmap_realloc(map, next_capacity(map));
-- 
2.43.0


From 478247950240821fd8ea54ca2961a1de1f7b808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 28/66] fix: allow removing from hashmaps that are empty

---
 src/container/hashmap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index 84839e8..08b87f9 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -159,6 +159,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
 passgen_hashmap_entry
 passgen_hashmap_remove(passgen_hashmap *map, const void *key) {
+    // make sure the hashmap is not empty
+    if(!map->data) {
+        return (passgen_hashmap_entry){NULL, NULL};
+    }
+
     size_t hash;
 
     // if this key exists
-- 
2.43.0


From 6d2978df3166e664844c580fe6e69d75fad35c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 29/66] fix: read configuration files of any size

Configuration files longer than 10239 bytes were truncated, and the byte past
the end of the buffer was overwritten.
---
 src/cli/passgen.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 37d643b..ea716e8 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -522,9 +522,23 @@ void passgen_cli_opts_free(passgen_cli_opts *opts) {
 
 int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     // TODO: use something like passgen_buffer to do this
-    char *config = malloc(10240);
-    size_t read = fread(config, 1, 10240, file);
-    config[read] = 0;
+    size_t capacity = 10240;
+    size_t length = 0;
+    char *config = NULL;
+
+    // read the entire file, leaving space for the null-termination
+    do {
+        capacity *= 2;
+        char *larger = realloc(config, capacity);
+        if(!larger) {
+            free(config);
+            return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+        }
+        config = larger;
+        length += fread(&config[length], 1, capacity - length - 1, file);
+    } while(length + 1 == capacity);
+
+    config[length] = 0;
     int ret = passgen_cli_opts_config_parse(opts, config);
     free(config);
     return ret;
-- 
2.43.0


From 5710cd2e73498b6df94f3348b1bdace71c23b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 30/66] fix: do not overflow when the path of the configuration
 is long

---
 src/cli/passgen.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index ea716e8..b37c0b3 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -608,19 +608,24 @@ int passgen_cli_opts_config_system(passgen_cli_opts *opts) {
 }
 
 int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
-    char config_path[256];
-    const char *xdg_config_path = getenv("XDG_CONFIG_PATH");
-    if(xdg_config_path) {
-        sprintf(config_path, "%s/passgen.conf", xdg_config_path);
-    } else {
-        const char *home = getenv("HOME");
-        if(!home) {
-            fprintf(stderr, "warning: cannot locate home directory\n");
-            return 0;
-        }
-        sprintf(config_path, "%s/.config/passgen.conf", home);
+    const char *directory = getenv("XDG_CONFIG_PATH");
+    const char *suffix = "/passgen.conf";
+    if(!directory) {
+        directory = getenv("HOME");
+        suffix = "/.config/passgen.conf";
+    }
+    if(!directory) {
+        fprintf(stderr, "warning: cannot locate home directory\n");
+        return 0;
+    }
+    char *config_path = malloc(strlen(directory) + strlen(suffix) + 1);
+    if(!config_path) {
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
     }
+    strcpy(config_path, directory);
+    strcat(config_path, suffix);
     FILE *file = fopen(config_path, "r");
+    free(config_path);
     if(file) {
         int ret = passgen_cli_opts_config_load(opts, file);
         fclose(file);
-- 
2.43.0


From 102d399104617ccb54c637d76ddaddec31065c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 31/66] fix: parse configuration files line by line

Parsing continued past the end of the configuration when the last line was not
terminated, keywords were compared past the end of it, and the documented
syntax of separating names and values with whitespace was not accepted.
---
 src/cli/passgen.c | 88 +++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index b37c0b3..a0fe7ef 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -26,8 +26,7 @@
 #include "passgen/version.h"
 #include "passgen/wordlist.h"
 
-#define UNUSED(x)              (void) x
-#define strprefix(prefix, str) memcmp(prefix, str, strlen(prefix))
+#define UNUSED(x) (void) x
 
 int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
     if(opts->env.random) {
@@ -544,47 +543,54 @@ int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     return ret;
 }
 
+// If this line starts with the keyword, returns the arguments to it.
+static char *config_keyword(char *line, const char *keyword) {
+    size_t length = strlen(keyword);
+    if(0 != strncmp(line, keyword, length)) {
+        return NULL;
+    }
+    line += length;
+
+    if(*line != ' ' && *line != '\t') {
+        return NULL;
+    }
+    while(*line == ' ' || *line == '\t') line++;
+    return line;
+}
+
+// Name and value may be separated by a colon or by whitespace, turn the latter
+// into a colon.
+static char *config_separator(char *arguments) {
+    char *separator = &arguments[strcspn(arguments, ": \t")];
+    if(*separator && *separator != ':') {
+        char *value = &separator[strspn(separator, " \t")];
+        *separator = ':';
+        memmove(&separator[1], value, strlen(value) + 1);
+    }
+    return arguments;
+}
+
 int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
-    // TODO: this code is a mess.
-    for(size_t pos = 0; data[pos]; pos++) {
-        if(data[pos] == '#') {
-            // skip this line, it's a comment
-            while(data[pos] && data[pos] != '\n') pos++;
-            continue;
-        }
-        if(data[pos] == '\n') {
-            // skip this newline
-            continue;
+    while(*data) {
+        // split off a line
+        char *line = data;
+        data = &data[strcspn(data, "\n")];
+        if(*data) {
+            *data = 0;
+            data++;
         }
-        if(0 == strprefix("random", &data[pos])) {
-            pos += 6;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_random(opts, &data[pos]);
-            pos += length;
-            continue;
-        }
-        if(0 == strprefix("wordlist", &data[pos])) {
-            pos += 8;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_wordlist(opts, &data[pos]);
-            pos += length;
-            continue;
-        }
-        if(0 == strprefix("preset", &data[pos])) {
-            pos += 6;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_preset(opts, &data[pos]);
-            pos += length;
-            continue;
+
+        // skip leading whitespace
+        while(*line == ' ' || *line == '\t') line++;
+
+        // lines which are comments, empty or not recognized are ignored.
+        char *arguments;
+        if((arguments = config_keyword(line, "random"))) {
+            passgen_cli_opts_random(opts, arguments);
+        } else if((arguments = config_keyword(line, "wordlist"))) {
+            passgen_cli_opts_wordlist(opts, config_separator(arguments));
+        } else if((arguments = config_keyword(line, "preset"))) {
+            passgen_cli_opts_preset(opts, config_separator(arguments));
         }
     }
     return 0;
-- 
2.43.0


From 65b6e3e62a554ac31632d7cca56041a07c27f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 32/66] fix: escape all control characters in JSON output

---
 src/generate.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 270099f..613cf1e 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -156,8 +156,8 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
         return -1;
     }
 
-    unsigned char buffer[4] = {'\\', 0};
-    size_t bytes = 2;
+    unsigned char buffer[6] = {'\\', 0};
+    int bytes = 2;
     switch(codepoint) {
         case '"':
             buffer[1] = '"';
@@ -181,18 +181,28 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
             buffer[1] = 't';
             break;
         default:
-            bytes = passgen_utf8_encode_codepoint(
-                (uint8_t *) &buffer[0],
-                codepoint);
+            if(codepoint < 0x20) {
+                // other control characters have no short escape sequence.
+                buffer[1] = 'u';
+                buffer[2] = '0';
+                buffer[3] = '0';
+                buffer[4] = '0' + (codepoint >> 4);
+                buffer[5] = "0123456789abcdef"[codepoint & 0xF];
+                bytes = 6;
+            } else {
+                bytes = passgen_utf8_encode_codepoint(
+                    (uint8_t *) &buffer[0],
+                    codepoint);
+            }
     }
 
     // check that no error happened.
-    if(!bytes) {
+    if(bytes < 0) {
         return -1;
     }
 
     // make sure it fits.
-    if(bytes <= (fillpos->len - fillpos->cur)) {
+    if((size_t) bytes <= (fillpos->len - fillpos->cur)) {
         memcpy(&fillpos->buffer[fillpos->cur], &buffer[0], bytes);
         fillpos->cur += bytes;
     } else {
-- 
2.43.0


From d6de221b2103f75e507f979c70afddbd2e625476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 33/66] fix: report when generating from a pattern fails

Patterns which cannot be generated, for example because they reference a
wordlist that is not loaded, or which generated more than 256 bytes, resulted
in an empty line of output and a successful exit. Output is also no longer
cut off at U+0000.
---
 man/passgen.1.in  |   2 +
 src/cli/passgen.c | 126 ++++++++++++++++++++++++++++++++++------------
 src/cli/passgen.h |   1 +
 3 files changed, 98 insertions(+), 31 deletions(-)

diff --git a/man/passgen.1.in b/man/passgen.1.in
index cfa48e2..ef5a213 100644
--- a/man/passgen.1.in
+++ b/man/passgen.1.in
@@ -251,6 +251,8 @@ Unrecognized argument flag. Make sure that you are not using an incorrect flag.
 Preset not found. Make sure that the preset you have specified exists. When it doubt, use the
 .Fl -list
 command to see the full list of all presets that the tool knows about.
+.It Ar 9
+Generating from the pattern failed. Make sure that all of the wordlists that it uses are loaded and readable.
 .El
 .Sh SEE ALSO
 .Xr apg 1 ,
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index a0fe7ef..ec707dc 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -60,16 +60,70 @@ int passgen_cli_run(passgen_cli_opts opts) {
     return ret;
 }
 
+// Buffer for a generated sequence. Grows as needed, because it is not known in
+// advance how long the sequence is.
+typedef struct {
+    uint8_t *data;
+    size_t length;
+    size_t capacity;
+} passgen_cli_buffer;
+
+// Make sure there is space for some more bytes.
+static int
+passgen_cli_buffer_reserve(passgen_cli_buffer *buffer, size_t bytes) {
+    if(buffer->capacity - buffer->length >= bytes) {
+        return 0;
+    }
+
+    size_t capacity = 2 * buffer->capacity + bytes;
+    uint8_t *data = realloc(buffer->data, capacity);
+    if(!data) {
+        return -1;
+    }
+
+    buffer->data = data;
+    buffer->capacity = capacity;
+    return 0;
+}
+
+// Write codepoint UTF-8 encoded into buffer.
+static int passgen_cli_buffer_write(void *data, uint32_t codepoint) {
+    passgen_cli_buffer *buffer = data;
+    try(passgen_cli_buffer_reserve(buffer, 4));
+
+    int bytes = passgen_utf8_encode_codepoint(
+        &buffer->data[buffer->length],
+        codepoint);
+    if(bytes < 0) {
+        return bytes;
+    }
+
+    buffer->length += bytes;
+    return 0;
+}
+
+// Write codepoint UTF-8 encoded and JSON-escaped into buffer.
+static int passgen_cli_buffer_write_json(void *data, uint32_t codepoint) {
+    if(codepoint == '"' || codepoint == '\\') {
+        try(passgen_cli_buffer_write(data, '\\'));
+    } else if(codepoint < 0x20) {
+        passgen_cli_buffer *buffer = data;
+        try(passgen_cli_buffer_reserve(buffer, 7));
+        buffer->length += snprintf(
+            (char *) &buffer->data[buffer->length],
+            7,
+            "\\u%04x",
+            (unsigned int) codepoint);
+        return 0;
+    }
+
+    return passgen_cli_buffer_write(data, codepoint);
+}
+
 int passgen_cli_generate_normal(
     passgen_cli_opts opts,
     passgen_pattern *pattern) {
-    // allocate some space for pass.
-    // size_t pass_len = pattern_maxlen(pattern);
-    size_t pass_len = 256;
-    uint8_t *pass = malloc(pass_len + 1);
-    if(!pass) {
-        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
-    }
+    passgen_cli_buffer pass = {0};
 
     char sep = '\n';
     if(opts.null) {
@@ -77,54 +131,58 @@ int passgen_cli_generate_normal(
     }
 
     for(size_t i = 0; i < opts.amount; ++i) {
-        // get a NULL-terminated, random pass.
+        // get a random pass.
         double entropy;
-        size_t written = passgen_generate_fill_utf8(
+        pass.length = 0;
+        int ret = passgen_generate(
             pattern,
             &opts.env,
             opts.entropy ? &entropy : NULL,
-            pass,
-            pass_len);
-        pass[written] = '\0';
+            &pass,
+            passgen_cli_buffer_write);
+        if(ret != 0) {
+            free(pass.data);
+            return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+        }
 
         if(opts.entropy) {
             fprintf(stderr, "entropy: %.2lf bits\n", log(entropy) / log(2));
         }
 
-        if(i == 0) {
-            printf("%s", pass);
-        } else {
-            printf("%c%s", sep, pass);
+        if(i != 0) {
+            putchar(sep);
         }
+        fwrite(pass.data, 1, pass.length, stdout);
     }
 
     printf("\n");
-    free(pass);
+    free(pass.data);
 
     return 0;
 }
 
 int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
-    // allocate some space for pass.
-    // size_t pass_len = pattern_maxlen(pattern);
-    size_t pass_len = 256;
-    uint8_t *pass = malloc(pass_len + 1);
-    if(!pass) {
-        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
-    }
+    passgen_cli_buffer pass = {0};
 
     printf("[");
     for(size_t i = 0; i < opts.amount; ++i) {
+        // get a random pass.
         double entropy;
-        // get a NULL-terminated, random pass.
-        size_t written = passgen_generate_fill_json_utf8(
+        pass.length = 0;
+        int ret = passgen_generate(
             pattern,
             &opts.env,
             opts.entropy ? &entropy : NULL,
-            pass,
-            pass_len);
-        pass[written] = '\0';
-        printf("%s{\"output\":\"%s\"", (i == 0) ? "" : ",", pass);
+            &pass,
+            passgen_cli_buffer_write_json);
+        if(ret != 0) {
+            free(pass.data);
+            return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+        }
+
+        printf("%s{\"output\":\"", (i == 0) ? "" : ",");
+        fwrite(pass.data, 1, pass.length, stdout);
+        printf("\"");
 
         if(opts.entropy) {
             printf(",\"entropy\":%lf", log(entropy) / log(2));
@@ -134,7 +192,7 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
     }
     printf("]\n");
 
-    free(pass);
+    free(pass.data);
     return 0;
 }
 
@@ -506,6 +564,12 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "\033[1;31merror\033[0m: preset `%s` not found\n",
                 (const char *) data);
             break;
+        case PASSGEN_ERROR_GENERATE:
+            fprintf(
+                stderr,
+                "\033[1;31merror\033[0m: pattern cannot be generated, make "
+                "sure that all wordlists it uses are loaded\n");
+            break;
         default:
             printf("error: unknown error.\n");
             break;
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index b3c1bad..be0e67a 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -26,6 +26,7 @@ typedef enum {
     PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
     PASSGEN_ERROR_UNRECOGNIZED,
     PASSGEN_ERROR_PRESET_NOT_FOUND,
+    PASSGEN_ERROR_GENERATE,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
-- 
2.43.0


From 914c0ec70c808fac82de27347d6fa948ee1b7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 34/66] fix: output valid JSON when the entropy is out of range

---
 src/cli/passgen.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index ec707dc..5cdf458 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -185,7 +185,12 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
         printf("\"");
 
         if(opts.entropy) {
-            printf(",\"entropy\":%lf", log(entropy) / log(2));
+            if(isfinite(entropy)) {
+                printf(",\"entropy\":%lf", log(entropy) / log(2));
+            } else {
+                // too large, JSON does not have infinite numbers
+                printf(",\"entropy\":null");
+            }
         }
 
         printf("}");
-- 
2.43.0


From f47ffeb1f6f38fc5e0572ae179bc214d91d14813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 35/66] fix: allow using character devices in the sandbox

---
 src/cli/passgen.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 5cdf458..89fad76 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -822,6 +822,15 @@ void passgen_cli_seccomp_init() {
         SCMP_CMP(0, SCMP_CMP_EQ, 1),
         SCMP_CMP(1, SCMP_CMP_EQ, TIOCGWINSZ));
 
+    // allow checking if a stream is a terminal (done by stdio for character
+    // devices, such as /dev/null or /dev/urandom)
+    seccomp_rule_add(
+        ctx,
+        SCMP_ACT_ALLOW,
+        SCMP_SYS(ioctl),
+        1,
+        SCMP_CMP(1, SCMP_CMP_EQ, TCGETS));
+
     // apply rules
     seccomp_load(ctx);
     seccomp_release(ctx);
-- 
2.43.0


From c6533deeac112d193a3607d9400f0d8576ac358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 36/66] fix: return documented exit status for invalid
 randomness sources

---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 89fad76..64fa192 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -40,7 +40,7 @@ int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
         printf(
             "\033[1;31merror\033[0m: invalid randomness source '%s'\n",
             random);
-        return 1;
+        return PASSGEN_ERROR_RANDOM_ALLOC;
     }
 
     return 0;
-- 
2.43.0


From 2b4c1ee730e817f09e35894e24b67ebf56c027dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:22 +0000
Subject: [PATCH 37/66] fix: reject markov chain lengths that are too large

The length is stored in eight bits, a length of 256 resulted in a chain of
length zero.
---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 64fa192..f78bcbb 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -403,7 +403,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 break;
             case 'M':
                 opt = atoi(optarg);
-                if(opt < 1) {
+                if(opt < 1 || opt > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
                         &opt);
-- 
2.43.0


From c0163f08268bf18c86c7c70df2e0e39abae4d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 38/66] fix: report wordlists that cannot be opened

They resulted in the exit status for multiple patterns, without any message.
---
 man/passgen.1.in  |  3 +++
 src/cli/passgen.c | 10 +++++++++-
 src/cli/passgen.h |  1 +
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/man/passgen.1.in b/man/passgen.1.in
index ef5a213..2f216dd 100644
--- a/man/passgen.1.in
+++ b/man/passgen.1.in
@@ -253,6 +253,9 @@ Preset not found. Make sure that the preset you have specified exists. When it d
 command to see the full list of all presets that the tool knows about.
 .It Ar 9
 Generating from the pattern failed. Make sure that all of the wordlists that it uses are loaded and readable.
+.It Ar 10
+A wordlist that was specified could not be opened. Make sure that it exists, and that it is specified as
+.Ar name:/path/to/file .
 .El
 .Sh SEE ALSO
 .Xr apg 1 ,
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index f78bcbb..4a2d3f4 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -399,7 +399,9 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 passgen_cli_presets_list(opts);
                 exit(0);
             case 'w':
-                try(passgen_cli_opts_wordlist(opts, optarg));
+                if(passgen_cli_opts_wordlist(opts, optarg) != 0) {
+                    return passgen_cli_bail(PASSGEN_ERROR_WORDLIST, optarg);
+                }
                 break;
             case 'M':
                 opt = atoi(optarg);
@@ -569,6 +571,12 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "\033[1;31merror\033[0m: preset `%s` not found\n",
                 (const char *) data);
             break;
+        case PASSGEN_ERROR_WORDLIST:
+            printf(
+                "\033[1;31merror\033[0m: wordlist `%s` could not be loaded, "
+                "expected name:/path/to/file\n",
+                (const char *) data);
+            break;
         case PASSGEN_ERROR_GENERATE:
             fprintf(
                 stderr,
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index be0e67a..c505d8e 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -27,6 +27,7 @@ typedef enum {
     PASSGEN_ERROR_UNRECOGNIZED,
     PASSGEN_ERROR_PRESET_NOT_FOUND,
     PASSGEN_ERROR_GENERATE,
+    PASSGEN_ERROR_WORDLIST,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
-- 
2.43.0


From 726906409dbb8928ee500ec7fc520221a41b50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:37 +0000
Subject: [PATCH 39/66] fix: do not close wordlist file twice in wordlist tool

---
 src/tools/wordlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/wordlist.c b/src/tools/wordlist.c
index 5dbc494..ca0ed30 100644
--- a/src/tools/wordlist.c
+++ b/src/tools/wordlist.c
@@ -12,8 +12,8 @@ void load(passgen_wordlist *wordlist, const char *filename) {
     FILE *file = fopen(filename, "r");
     passgen_assert(file);
 
+    // closes the file
     passgen_wordlist_load(wordlist, file, 3);
-    fclose(file);
 }
 
 void dump(const char **args, size_t args_len) {
-- 
2.43.0


From 4c77fd81f5a57cb0e5c0dbb84e8ed1beee243c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 40/66] fix: report where in a pattern invalid UTF-8 is

When decoding failed, nothing that was decoded before was accounted for, such
that the error was always reported at the start of the string (or the current
chunk of it).
---
 src/util/utf8.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 4e3b3c0..bc3e080 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -55,7 +55,7 @@ int passgen_utf8_decode(
             utf8_decode(&state, &codepoint, (*input)[input_offset]);
 
         if(status == UTF8_REJECT) {
-            return PASSGEN_UTF8_INVALID_CHAR;
+            break;
         }
 
         if(status == UTF8_ACCEPT) {
@@ -75,12 +75,15 @@ int passgen_utf8_decode(
         input_offset += 1;
     }
 
-    // the input ended in the middle of a multi-byte sequence.
+    *output += output_offset;
+
+    // there is an invalid multi-byte sequence, or the input ended in the middle
+    // of one. leave the input at the start of it.
     if(state != UTF8_ACCEPT) {
+        *input += input_offset - codepoint_width;
         return PASSGEN_UTF8_INVALID_CHAR;
     }
 
-    *output += output_offset;
     *input += input_offset;
 
     if(input_offset != input_len) {
-- 
2.43.0


From d548c508aab40b79d6b9d46af32efc7eed504e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 41/66] fix: reject malformed seeds of xorshift randomness
 sources

A seed followed by something else was cut off there, and a seed that is too
large was replaced by the largest one.
---
 src/random/random.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index b20823d..7c4d3f0 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -2,6 +2,7 @@
 #include "passgen/assert.h"
 #include "passgen/config.h"
 #include "passgen/util/endian.h"
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -83,12 +84,15 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
     // check if we should use the xorshift PRNG with the given seed
     if(_strprefix("xorshift:", desc)) {
         const char *seed_str = &desc[9];
-        if(*seed_str == 0) {
+        if(*seed_str < '0' || *seed_str > '9') {
             return NULL;
         }
 
-        uint64_t seed = strtoull(seed_str, NULL, 10);
-        if(seed == 0) {
+        // make sure that all of it is the seed, and that it is in range
+        char *seed_end = NULL;
+        errno = 0;
+        uint64_t seed = strtoull(seed_str, &seed_end, 10);
+        if(seed == 0 || errno != 0 || *seed_end != 0) {
             return NULL;
         }
 
-- 
2.43.0


From e6cb20d8c3b79062cee4b27265588a4fe23ec48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 42/66] fix: reject chacha20 randomness sources without a key

All of their output is known, as the key consists of only zeroes then.
---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index 7c4d3f0..2c909ab 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -113,7 +113,7 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             key_end = key_ptr + strlen(key_ptr);
         }
         char key[32] = {0};
-        if((size_t) (key_end - key_ptr) > sizeof(key)) {
+        if(key_end == key_ptr || (size_t) (key_end - key_ptr) > sizeof(key)) {
             return NULL;
         }
         memcpy(key, key_ptr, key_end - key_ptr);
-- 
2.43.0


From f0a0172bc050f4e0584a0ca30181af8a38d1442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 43/66] fix: do not pass NULL to fwrite for empty outputs

---
 src/cli/passgen.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 4a2d3f4..ff24e7d 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -152,7 +152,9 @@ int passgen_cli_generate_normal(
         if(i != 0) {
             putchar(sep);
         }
-        fwrite(pass.data, 1, pass.length, stdout);
+        if(pass.length != 0) {
+            fwrite(pass.data, 1, pass.length, stdout);
+        }
     }
 
     printf("\n");
@@ -181,7 +183,9 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
         }
 
         printf("%s{\"output\":\"", (i == 0) ? "" : ",");
-        fwrite(pass.data, 1, pass.length, stdout);
+        if(pass.length != 0) {
+            fwrite(pass.data, 1, pass.length, stdout);
+        }
         printf("\"");
 
         if(opts.entropy) {
-- 
2.43.0


From 56345a39a71379efb6930bc85a4cd10a5436a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 44/66] fix: refuse amounts and markov lengths that are not
 numbers in range

---
 src/cli/passgen.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index ff24e7d..d59ec3c 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -1,7 +1,9 @@
 #include "passgen.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdio.h>
@@ -335,6 +337,18 @@ void passgen_cli_presets_list(const passgen_cli_opts *opts) {
         passgen_cli_preset_show);
 }
 
+// Parse a positive number, returns zero if this is not one or out of range.
+static int passgen_cli_parse_number(const char *arg) {
+    char *end;
+    errno = 0;
+    long number = strtol(arg, &end, 10);
+    if(end == arg || *end != 0 || errno != 0 || number < 0 ||
+       number > INT_MAX) {
+        return 0;
+    }
+    return number;
+}
+
 int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
     const char *short_opts = "a:p:P:d:w:r:m:D:M:t:ezhvjl";
     const char *preset = NULL;
@@ -369,9 +383,11 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
             case 'h':
                 return PASSGEN_SHOW_HELP;
             case 'a':
-                opt = atoi(optarg);
+                opt = passgen_cli_parse_number(optarg);
                 if(opt < 1) {
-                    return passgen_cli_bail(PASSGEN_ERROR_ILLEGAL_AMOUNT, &opt);
+                    return passgen_cli_bail(
+                        PASSGEN_ERROR_ILLEGAL_AMOUNT,
+                        optarg);
                 }
                 opts->amount = opt;
                 break;
@@ -408,11 +424,11 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 }
                 break;
             case 'M':
-                opt = atoi(optarg);
+                opt = passgen_cli_parse_number(optarg);
                 if(opt < 1 || opt > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
-                        &opt);
+                        optarg);
                 }
                 opts->markov_length = opt;
                 break;
@@ -559,14 +575,14 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
             break;
         case PASSGEN_ERROR_ILLEGAL_AMOUNT:
             printf(
-                "\033[1;31merror\033[0m: illegal amount entered (%i)\n",
-                *((const int *) data));
+                "\033[1;31merror\033[0m: illegal amount entered (%s)\n",
+                (const char *) data);
             break;
         case PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH:
             printf(
                 "\033[1;31merror\033[0m: illegal markov chain length entered "
-                "(%i)\n",
-                *((const int *) data));
+                "(%s)\n",
+                (const char *) data);
             break;
         case PASSGEN_ERROR_UNRECOGNIZED:
             break;
-- 
2.43.0


From ddb6e70b42c0625b49fd44b62f173f5f6743d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 45/66] fix: report when the output cannot be written

---
 man/passgen.1.in  |  2 ++
 src/cli/passgen.c | 16 ++++++++++++++--
 src/cli/passgen.h |  1 +
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/man/passgen.1.in b/man/passgen.1.in
index 2f216dd..e4ab7cf 100644
--- a/man/passgen.1.in
+++ b/man/passgen.1.in
@@ -256,6 +256,8 @@ Generating from the pattern failed. Make sure that all of the wordlists that it
 .It Ar 10
 A wordlist that was specified could not be opened. Make sure that it exists, and that it is specified as
 .Ar name:/path/to/file .
+.It Ar 11
+The generated output could not be written completely.
 .El
 .Sh SEE ALSO
 .Xr apg 1 ,
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index d59ec3c..1894d79 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -209,10 +209,17 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
 
 int passgen_cli_generate(passgen_cli_opts opts, passgen_pattern *pattern) {
     if(!opts.json) {
-        return passgen_cli_generate_normal(opts, pattern);
+        try(passgen_cli_generate_normal(opts, pattern));
     } else {
-        return passgen_cli_generate_json(opts, pattern);
+        try(passgen_cli_generate_json(opts, pattern));
     }
+
+    // make sure all of the output was written.
+    if(fflush(stdout) != 0 || ferror(stdout)) {
+        return passgen_cli_bail(PASSGEN_ERROR_OUTPUT, NULL);
+    }
+
+    return 0;
 }
 
 int passgen_cli_opts_wordlist(passgen_cli_opts *opt, const char *input) {
@@ -603,6 +610,11 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "\033[1;31merror\033[0m: pattern cannot be generated, make "
                 "sure that all wordlists it uses are loaded\n");
             break;
+        case PASSGEN_ERROR_OUTPUT:
+            fprintf(
+                stderr,
+                "\033[1;31merror\033[0m: output cannot be written\n");
+            break;
         default:
             printf("error: unknown error.\n");
             break;
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index c505d8e..b5417c5 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -28,6 +28,7 @@ typedef enum {
     PASSGEN_ERROR_PRESET_NOT_FOUND,
     PASSGEN_ERROR_GENERATE,
     PASSGEN_ERROR_WORDLIST,
+    PASSGEN_ERROR_OUTPUT,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
-- 
2.43.0


From 81ef68a1c41fd8e579de5585cf1779c5ca6b4d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:52 +0000
Subject: [PATCH 46/66] fix: fail generation of preset references, which are
 not implemented

---
 src/generate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 613cf1e..c2efdea 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -474,8 +474,9 @@ static int passgen_generate_special_preset(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
     (void) special;
-    // TODO: implement
-    return 0;
+    // TODO: implement. Until then this has to fail, rather than silently
+    // leaving out a part of the sequence.
+    return -1;
 }
 
 static int passgen_generate_special(
-- 
2.43.0


From fb6ecfd2d976982dcea48d66cff52d6c0a6aad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 47/66] fix: don't leave random data behind in stdio buffers

A file that is used as source of randomness was read through a stdio buffer,
which is handed back to the allocator with the random data still in it when the
source is closed.
---
 src/random/system.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/random/system.c b/src/random/system.c
index e58c038..38f172c 100644
--- a/src/random/system.c
+++ b/src/random/system.c
@@ -72,6 +72,10 @@ passgen_random_path_open(passgen_random *random, const char *path) {
         return NULL;
     }
 
+    // don't let stdio buffer any of the random data, because there is no way
+    // to clear it when the file is closed
+    setvbuf(device, NULL, _IONBF, 0);
+
     if(!random) {
         random = malloc(sizeof(passgen_random));
         if(!random) return NULL;
-- 
2.43.0


From 8d6452916d8f356dc80c3e07264dab1960c03de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 48/66] fix: point at the right column when showing pattern
 errors

The mark below the pattern was one column too far to the left, and counted
bytes rather than characters.
---
 src/error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index d48c6f2..ffccd13 100644
--- a/src/error.c
+++ b/src/error.c
@@ -30,7 +30,7 @@ void passgen_error_print(passgen_error *error, const char *pattern) {
     }
     fprintf(stderr, "\033[1;33mpattern\033[0m: %s\n", pattern);
     fprintf(stderr, "         ");
-    for(size_t i = 1; i < error->offset.byte; i++) {
+    for(size_t i = 0; i < error->offset.codepoint; i++) {
         fprintf(stderr, " ");
     }
     fprintf(stderr, "\033[1;31m^\033[0m\n");
-- 
2.43.0


From 2b5100af6f770f4e52b22d6777ff708f8e94d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 49/66] fix: print error messages on standard error

They were printed on standard output, where they mix with (or are taken for)
generated passwords. An invalid randomness source in a configuration file is
not even fatal, so that the output contained the message and a password.
---
 src/cli/passgen.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 1894d79..3216cf2 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -39,7 +39,8 @@ int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
     opts->env.random = passgen_random_open(NULL, random);
 
     if(!opts->env.random) {
-        printf(
+        fprintf(
+            stderr,
             "\033[1;31merror\033[0m: invalid randomness source '%s'\n",
             random);
         return PASSGEN_ERROR_RANDOM_ALLOC;
@@ -247,7 +248,8 @@ int passgen_cli_opts_preset(passgen_cli_opts *opts, const char *arg) {
     memcpy(arg_copy, arg, arg_len + 1);
     char *colon = strstr(arg_copy, ":");
     if(!colon) {
-        printf(
+        fprintf(
+            stderr,
             "Error: expected preset:value for preset definition `%s`\n",
             arg);
         return 1;
@@ -571,22 +573,25 @@ void passgen_cli_show_version(void) {
 int passgen_cli_bail(passgen_cli_error error, const void *data) {
     switch(error) {
         case PASSGEN_ERROR_MULTIPLE_FORMATS:
-            printf(
+            fprintf(
+                stderr,
                 "error: multiple patterns specified (%s).\n",
                 (const char *) data);
             break;
         case PASSGEN_ERROR_RANDOM_ALLOC:
-            printf("error: couldn't open random object.\n");
+            fprintf(stderr, "error: couldn't open random object.\n");
             break;
         case PASSGEN_ERROR_PATTERN_PARSE:
             break;
         case PASSGEN_ERROR_ILLEGAL_AMOUNT:
-            printf(
+            fprintf(
+                stderr,
                 "\033[1;31merror\033[0m: illegal amount entered (%s)\n",
                 (const char *) data);
             break;
         case PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH:
-            printf(
+            fprintf(
+                stderr,
                 "\033[1;31merror\033[0m: illegal markov chain length entered "
                 "(%s)\n",
                 (const char *) data);
@@ -594,12 +599,14 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
         case PASSGEN_ERROR_UNRECOGNIZED:
             break;
         case PASSGEN_ERROR_PRESET_NOT_FOUND:
-            printf(
+            fprintf(
+                stderr,
                 "\033[1;31merror\033[0m: preset `%s` not found\n",
                 (const char *) data);
             break;
         case PASSGEN_ERROR_WORDLIST:
-            printf(
+            fprintf(
+                stderr,
                 "\033[1;31merror\033[0m: wordlist `%s` could not be loaded, "
                 "expected name:/path/to/file\n",
                 (const char *) data);
@@ -616,7 +623,7 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "\033[1;31merror\033[0m: output cannot be written\n");
             break;
         default:
-            printf("error: unknown error.\n");
+            fprintf(stderr, "error: unknown error.\n");
             break;
     }
 
-- 
2.43.0


From 0e9103dd421cee81bb406709263bcc273cfdd7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 50/66] fix: keep the contents of stacks when memory runs out

---
 include/passgen/container/stack.h |  3 ++-
 src/container/stack.c             | 27 ++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/passgen/container/stack.h b/include/passgen/container/stack.h
index 2875e7d..6d7d38d 100644
--- a/include/passgen/container/stack.h
+++ b/include/passgen/container/stack.h
@@ -46,7 +46,8 @@ void passgen_stack_foreach(const passgen_stack *stack, void (*func)(void *elemen
 /// @memberof passgen_stack
 /// @param stack Stack to push into
 /// @param value Pointer to value to insert. If NULL, new space is created on the stack but it is not initialized.
-/// @returns Pointer to the new item on the stack.
+/// @returns Pointer to the new item on the stack, or NULL if there is not
+/// enough memory (in which case the stack is left as it is).
 void *passgen_stack_push(passgen_stack *stack, void *value);
 
 /// Get the nth element on the stack. If the position is invalid, returns NULL.
diff --git a/src/container/stack.c b/src/container/stack.c
index ec04bb2..eb496fa 100644
--- a/src/container/stack.c
+++ b/src/container/stack.c
@@ -72,13 +72,25 @@ void *passgen_stack_push(passgen_stack *stack, void *value) {
     if(!new_bin) {
         if(!stack->len) {
             stack->data = calloc(1, sizeof(void *));
+            if(!stack->data) {
+                return NULL;
+            }
             stack->data[0] =
                 calloc(passgen_stack_cap_init, stack->element_size);
+            if(!stack->data[0]) {
+                free(stack->data);
+                stack->data = NULL;
+                return NULL;
+            }
         }
         if(passgen_stack_bin_count(stack, stack->len) == stack->len) {
             size_t new_size = passgen_stack_bin_count(stack, stack->len + 1);
-            stack->data[0] =
+            void *larger =
                 realloc(stack->data[0], new_size * stack->element_size);
+            if(!larger) {
+                return NULL;
+            }
+            stack->data[0] = larger;
         }
     } else {
         size_t max_bin = passgen_stack_bin(stack, stack->len - 1);
@@ -90,10 +102,15 @@ void *passgen_stack_push(passgen_stack *stack, void *value) {
             if(current_bins != needed_bins) {
                 void **new_data =
                     realloc(stack->data, needed_bins * sizeof(void *));
-                passgen_assert(new_data);
+                if(!new_data) {
+                    return NULL;
+                }
                 stack->data = new_data;
             }
             stack->data[new_bin] = calloc(stack->bin_size, stack->element_size);
+            if(!stack->data[new_bin]) {
+                return NULL;
+            }
         }
     }
 
@@ -141,8 +158,12 @@ void *passgen_stack_pop(passgen_stack *stack, void *element) {
         size_t entry_size = passgen_stack_bin_count(stack, stack->len);
         size_t new_size = passgen_stack_bin_count(stack, stack->len - 1);
         if(entry_size != new_size) {
-            stack->data[0] =
+            // if this fails, what is there already is large enough
+            void *smaller =
                 realloc(stack->data[0], new_size * stack->element_size);
+            if(smaller) {
+                stack->data[0] = smaller;
+            }
         }
     } else {
         size_t max_bin = passgen_stack_bin(stack, stack->len - 1);
-- 
2.43.0


From 9edd9c26a8bd76582d89a13b4b96a6342f80c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 51/66] fix: stop when arrays and hash maps run out of memory

---
 src/container/array.c   | 4 ++++
 src/container/hashmap.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/container/array.c b/src/container/array.c
index edb4ebc..637262a 100644
--- a/src/container/array.c
+++ b/src/container/array.c
@@ -8,6 +8,10 @@
 
 void passgen_array_realloc(passgen_array *array, size_t capacity) {
     array->data = realloc(array->data, capacity * sizeof(void *));
+    if(!array->data) {
+        // there is no way to report this
+        abort();
+    }
     array->capacity = capacity;
 }
 
diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index 08b87f9..3ab1cc2 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -73,6 +73,10 @@ void passgen_hashmap_realloc(passgen_hashmap *map, size_t capacity) {
     passgen_hashmap old = *map;
 
     map->data = calloc(capacity, sizeof(passgen_hashmap_entry));
+    if(!map->data) {
+        // there is no way to report this
+        abort();
+    }
     map->capacity = capacity;
     map->len = 0;
 
-- 
2.43.0


From fa2cc7f5d9e167733b4f403a4fd9206d6f40f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 52/66] fix: fail when there is not enough memory for a
 wordlist

---
 src/wordlist.c | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/wordlist.c b/src/wordlist.c
index fe00fb1..faa1d17 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -36,8 +36,11 @@ int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     FILE *file = wordlist->file;
     wordlist->file = NULL;
     try(passgen_wordlist_read(wordlist, file));
-    wordlist->parsed = true;
     passgen_wordlist_scan(wordlist);
+    if(!wordlist->words) {
+        return 1;
+    }
+    wordlist->parsed = true;
     return 0;
 }
 
@@ -111,11 +114,11 @@ int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
     size_t capacity = READ_INITIAL;
     wordlist->size = 0;
     wordlist->data = malloc(capacity);
-    passgen_assert(wordlist->data);
+    bool failed = !wordlist->data;
 
     // read in entire wordlist, growing the buffer as needed and always leaving
     // space for the null-termination.
-    while(true) {
+    while(!failed) {
         size_t read = fread(
             &wordlist->data[wordlist->size],
             1,
@@ -128,14 +131,22 @@ int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
         }
 
         capacity *= ALLOC_INCREASE;
-        wordlist->data = realloc(wordlist->data, capacity);
-        passgen_assert(wordlist->data);
+        char *larger = realloc(wordlist->data, capacity);
+        if(larger) {
+            wordlist->data = larger;
+        } else {
+            failed = true;
+        }
     }
 
-    bool failed = ferror(file);
+    if(ferror(file)) {
+        failed = true;
+    }
 
     // null-terminate wordlist
-    wordlist->data[wordlist->size] = 0;
+    if(wordlist->data) {
+        wordlist->data[wordlist->size] = 0;
+    }
 
     if(wordlist->should_close_file) {
         fclose(file);
@@ -150,14 +161,24 @@ void passgen_wordlist_scan(passgen_wordlist *wordlist) {
     size_t capacity = ALLOC_INITIAL;
     wordlist->words = malloc(sizeof(char *) * capacity);
     wordlist->count = 0;
+    if(!wordlist->words) {
+        return;
+    }
 
     token = strtok_r(wordlist->data, "\n", &state);
     while(token) {
         // expand array if needed
         if(capacity == wordlist->count) {
             capacity *= ALLOC_INCREASE;
-            wordlist->words =
+            char **larger =
                 realloc(wordlist->words, sizeof(char *) * capacity);
+            if(!larger) {
+                free(wordlist->words);
+                wordlist->words = NULL;
+                wordlist->count = 0;
+                return;
+            }
+            wordlist->words = larger;
         }
 
         // save word
@@ -169,8 +190,13 @@ void passgen_wordlist_scan(passgen_wordlist *wordlist) {
     }
 
     // resize array finally (shrink it down to what is really needed)
-    wordlist->words =
-        realloc(wordlist->words, sizeof(char *) * wordlist->count);
+    if(wordlist->count) {
+        char **smaller =
+            realloc(wordlist->words, sizeof(char *) * wordlist->count);
+        if(smaller) {
+            wordlist->words = smaller;
+        }
+    }
 }
 
 const char *
-- 
2.43.0


From 505bbdcd731f864c2a3bacc070736fc7d3821192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 53/66] fix: fail to parse when there is not enough memory for
 a name

---
 src/pattern/special.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pattern/special.c b/src/pattern/special.c
index f5ecc6e..f6093f3 100644
--- a/src/pattern/special.c
+++ b/src/pattern/special.c
@@ -41,16 +41,23 @@ int passgen_pattern_special_push(
     passgen_pattern_special *special,
     int32_t codepoint) {
     if(special->parameters_cap == 0) {
+        special->parameters = malloc(PARAMETERS_INITIAL_SIZE);
+        if(!special->parameters) {
+            return -1;
+        }
         special->parameters_cap = PARAMETERS_INITIAL_SIZE;
-        special->parameters = malloc(special->parameters_cap);
     }
 
     // always leave enough space for a full UTF8 character (4 bytes) plus a
     // NULL.
     if((special->parameters_len + 5) >= special->parameters_cap) {
-        special->parameters_cap *= PARAMETERS_MULTIPLIER;
-        special->parameters =
-            realloc(special->parameters, special->parameters_cap);
+        size_t larger_cap = special->parameters_cap * PARAMETERS_MULTIPLIER;
+        char *larger = realloc(special->parameters, larger_cap);
+        if(!larger) {
+            return -1;
+        }
+        special->parameters = larger;
+        special->parameters_cap = larger_cap;
     }
 
     int bytes = passgen_utf8_encode_codepoint(
-- 
2.43.0


From 7d0026f43eebe699260d94614fda087ec9e85a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 54/66] fix: do not derive keys without enough memory

---
 src/random/deterministic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random/deterministic.c b/src/random/deterministic.c
index c61bf96..f970945 100644
--- a/src/random/deterministic.c
+++ b/src/random/deterministic.c
@@ -142,7 +142,10 @@ passgen_random *passgen_random_chacha20_argon2_open(
 
     size_t hash_size = CHACHA20_KEY_SIZE;
     uint8_t hash[hash_size];
-    void *work_area = malloc(1024 * config.nb_blocks);
+    void *work_area = malloc((size_t) 1024 * config.nb_blocks);
+    if(!work_area) {
+        return NULL;
+    }
     passgen_argon2(&hash[0], hash_size, work_area, config, inputs, extras);
     free(work_area);
 
-- 
2.43.0


From c51276b62b575ccc3f853870da1551706c038779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 55/66] fix: do not fall back to random output in master
 passphrase mode

---
 src/cli/passgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 3216cf2..e4e9552 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -493,6 +493,9 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
 #ifdef PASSGEN_MONOCYPHER
     if(!opts->env.random && opts->master_passphrase) {
         opts->env.random = passgen_random_chacha20_argon2_open(NULL, opts->master_passphrase, opts->master_domain, opts->master_token, NULL);
+        if(!opts->env.random) {
+            return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+        }
     }
 #endif
 
-- 
2.43.0


From 913de3c81123bd4ebf7eec42fac2f2a62fe2dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 56/66] fix: do not ignore configuration files that cannot be
 read

---
 src/cli/passgen.c | 35 ++++++++++++++++++++++++++++++-----
 src/cli/passgen.h |  1 +
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index e4e9552..799cae7 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -625,6 +625,11 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 stderr,
                 "\033[1;31merror\033[0m: output cannot be written\n");
             break;
+        case PASSGEN_ERROR_CONFIG:
+            fprintf(
+                stderr,
+                "\033[1;31merror\033[0m: configuration file cannot be read\n");
+            break;
         default:
             fprintf(stderr, "error: unknown error.\n");
             break;
@@ -638,6 +643,20 @@ void passgen_cli_opts_free(passgen_cli_opts *opts) {
     passgen_env_free(&opts->env);
 }
 
+// It is fine if there is no configuration file, but not if there might be one
+// which the system is unable to open.
+static int passgen_cli_opts_config_missing() {
+    switch(errno) {
+        case ENOMEM:
+        case EMFILE:
+        case ENFILE:
+        case EIO:
+            return passgen_cli_bail(PASSGEN_ERROR_CONFIG, NULL);
+        default:
+            return 0;
+    }
+}
+
 int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     // TODO: use something like passgen_buffer to do this
     size_t capacity = 10240;
@@ -656,6 +675,13 @@ int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
         length += fread(&config[length], 1, capacity - length - 1, file);
     } while(length + 1 == capacity);
 
+    // only use it as a whole. Directories can be opened but not read, they are
+    // treated as if there was no file.
+    if(ferror(file) && errno != EISDIR) {
+        free(config);
+        return passgen_cli_bail(PASSGEN_ERROR_CONFIG, NULL);
+    }
+
     config[length] = 0;
     int ret = passgen_cli_opts_config_parse(opts, config);
     free(config);
@@ -728,7 +754,7 @@ int passgen_cli_opts_config_system(passgen_cli_opts *opts) {
         fclose(file);
         return ret;
     } else {
-        return 0;
+        return passgen_cli_opts_config_missing();
     }
 }
 
@@ -750,14 +776,13 @@ int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
     strcpy(config_path, directory);
     strcat(config_path, suffix);
     FILE *file = fopen(config_path, "r");
+    int ret = file ? 0 : passgen_cli_opts_config_missing();
     free(config_path);
     if(file) {
-        int ret = passgen_cli_opts_config_load(opts, file);
+        ret = passgen_cli_opts_config_load(opts, file);
         fclose(file);
-        return ret;
-    } else {
-        return 0;
     }
+    return ret;
 }
 
 #ifdef PASSGEN_SECCOMP
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index b5417c5..71b2f70 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -29,6 +29,7 @@ typedef enum {
     PASSGEN_ERROR_GENERATE,
     PASSGEN_ERROR_WORDLIST,
     PASSGEN_ERROR_OUTPUT,
+    PASSGEN_ERROR_CONFIG,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
-- 
2.43.0


From 35607858309672547e714095b2470ba68c8e2a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 57/66] fix: report wordlists of configuration files that
 cannot be opened

---
 src/cli/passgen.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 799cae7..f8cd7bf 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -733,7 +733,11 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
         if((arguments = config_keyword(line, "random"))) {
             passgen_cli_opts_random(opts, arguments);
         } else if((arguments = config_keyword(line, "wordlist"))) {
-            passgen_cli_opts_wordlist(opts, config_separator(arguments));
+            arguments = config_separator(arguments);
+            if(passgen_cli_opts_wordlist(opts, arguments) != 0) {
+                // report it, but carry on
+                passgen_cli_bail(PASSGEN_ERROR_WORDLIST, arguments);
+            }
         } else if((arguments = config_keyword(line, "preset"))) {
             passgen_cli_opts_preset(opts, config_separator(arguments));
         }
-- 
2.43.0


From 05aff122fedaa12c2a1d4174fea867399638fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 58/66] fix: stop if the sandbox cannot be established

---
 src/cli/passgen.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index f8cd7bf..9cb4701 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -797,9 +797,18 @@ int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
 #define O_LARGEFILE 0
 #endif
 
+// There must not be any processing of input without the sandbox.
+static void passgen_cli_seccomp_fail() {
+    fprintf(stderr, "error: cannot enter the sandbox\n");
+    exit(EXIT_FAILURE);
+}
+
 void passgen_cli_seccomp_init() {
     scmp_filter_ctx ctx;
     ctx = seccomp_init(SCMP_ACT_KILL);
+    if(!ctx) {
+        passgen_cli_seccomp_fail();
+    }
 
     // allow open syscalls, as long as they are read-only.
     seccomp_rule_add(
@@ -911,7 +920,9 @@ void passgen_cli_seccomp_init() {
         SCMP_CMP(1, SCMP_CMP_EQ, TCGETS));
 
     // apply rules
-    seccomp_load(ctx);
+    if(seccomp_load(ctx) != 0) {
+        passgen_cli_seccomp_fail();
+    }
     seccomp_release(ctx);
 }
 #endif
-- 
2.43.0


From df70d40a336be5f70a08c6480e2cc723103d0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 59/66] fix: fail if the list of presets cannot be written

---
 src/cli/passgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 9cb4701..67ee6f9 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -426,6 +426,9 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 return PASSGEN_SHOW_VERSION;
             case 'l':
                 passgen_cli_presets_list(opts);
+                if(fflush(stdout) != 0 || ferror(stdout)) {
+                    return passgen_cli_bail(PASSGEN_ERROR_OUTPUT, NULL);
+                }
                 exit(0);
             case 'w':
                 if(passgen_cli_opts_wordlist(opts, optarg) != 0) {
-- 
2.43.0


From d8bd390ecbac1b60931956f9cadd4b1e57c66a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 60/66] fix: master passphrase overrides a randomness source
 from the configuration

---
 src/cli/passgen.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 67ee6f9..12f717b 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -361,6 +361,7 @@ static int passgen_cli_parse_number(const char *arg) {
 int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
     const char *short_opts = "a:p:P:d:w:r:m:D:M:t:ezhvjl";
     const char *preset = NULL;
+    bool random = false;
 
     static struct option long_opts[] = {
         {"amount", required_argument, NULL, 'a'},
@@ -446,6 +447,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 break;
             case 'r':
                 try(passgen_cli_opts_random(opts, optarg));
+                random = true;
                 break;
             case 'P':
                 try(passgen_cli_opts_preset(opts, optarg));
@@ -492,9 +494,13 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
         return PASSGEN_SHOW_HELP;
     }
 
-    // fallback to system randomness if nothing else is defined
+    // the master passphrase overrides a source from a configuration file, but
+    // not one that was asked for explicitly
 #ifdef PASSGEN_MONOCYPHER
-    if(!opts->env.random && opts->master_passphrase) {
+    if(!random && opts->master_passphrase) {
+        if(opts->env.random) {
+            passgen_random_free(opts->env.random);
+        }
         opts->env.random = passgen_random_chacha20_argon2_open(NULL, opts->master_passphrase, opts->master_domain, opts->master_token, NULL);
         if(!opts->env.random) {
             return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
@@ -502,6 +508,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
     }
 #endif
 
+    // fallback to system randomness if nothing else is defined
     if(!opts->env.random) {
         opts->env.random = passgen_random_open(NULL, NULL);
         assert(opts->env.random);
-- 
2.43.0


From 99e7e27fc53c55c6e73c23b5c01734d019d39ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 61/66] fix: presets were never parsed

passgen_preset_parse() was a stub which reported success for every value,
valid or not, and left the pattern empty.
---
 src/pattern/preset.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pattern/preset.c b/src/pattern/preset.c
index 238d2b3..9f9db4a 100644
--- a/src/pattern/preset.c
+++ b/src/pattern/preset.c
@@ -1,5 +1,7 @@
 #include "passgen/pattern/preset.h"
 #include "passgen/config.h"
+#include "passgen/error.h"
+#include "passgen/passgen.h"
 
 void passgen_preset_init(passgen_preset *preset, const char *value) {
     preset->value = value;
@@ -8,6 +10,19 @@ void passgen_preset_init(passgen_preset *preset, const char *value) {
 }
 
 int passgen_preset_parse(passgen_preset *preset) {
+    if(preset->parsed) {
+        return 0;
+    }
+
+    passgen_error error;
+    if(passgen_parse(&preset->pattern, &error, preset->value) != 0) {
+        passgen_error_free(&error);
+        passgen_pattern_free(&preset->pattern);
+        passgen_pattern_init(&preset->pattern);
+        return 1;
+    }
+
+    preset->parsed = true;
     return 0;
 }
 
-- 
2.43.0


From eecf4ab81849c2eed495d1dcd69dc890f58fd3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 62/66] fix: backtraces of failed assertions could overflow the
 stack

The size of the array was passed in bytes rather than in elements.
---
 src/assert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assert.c b/src/assert.c
index c37dbf8..be711fe 100644
--- a/src/assert.c
+++ b/src/assert.c
@@ -31,7 +31,7 @@ void passgen_assert_fail(
     fprintf(stderr, "\nBacktrace:\n");
 
     void *callstack[CALLSTACK_MAX];
-    int frames = backtrace(callstack, sizeof(callstack));
+    int frames = backtrace(callstack, CALLSTACK_MAX);
     char **strs = backtrace_symbols(callstack, frames);
 
     for(int i = 0; i < frames; ++i) {
-- 
2.43.0


From 15f80ba12d51257d64e5d541f6962d642abcf954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 63/66] fix: tokenize reported escape sequences as errors

Being in the middle of a token is not an error, unless the input ends there.
---
 src/tools/tokenize.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tools/tokenize.c b/src/tools/tokenize.c
index 84040be..84cb873 100644
--- a/src/tools/tokenize.c
+++ b/src/tools/tokenize.c
@@ -38,13 +38,21 @@ int main(int argc, char *argv[]) {
 
     for(size_t i = 0; i < codepoints_len; i++) {
         ret = passgen_token_parse(&parser, &token, 1, codepoints[i]);
-        if(ret != 0) {
-            printf("Error: Token parser error %i: %s\n", ret, passgen_token_parse_error_str(ret));
-        } else {
+        if(ret < 0) {
+            break;
+        }
+        if(ret == PASSGEN_TOKEN_INIT) {
             printf("Parsed token: %x\n", token.codepoint);
         }
     }
 
     free(codepoints);
+
+    // stopped at an error, or in the middle of a token
+    if(parser.state != PASSGEN_TOKEN_INIT) {
+        printf("Error: Token parser error %i: %s\n", parser.state, passgen_token_parse_error_str(parser.state));
+        return 1;
+    }
+
     return 0;
 }
-- 
2.43.0


From 43b554b73d6974df19e3c9257c8484773d7308c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 64/66] fix: utf8-recode rejected sequences that span chunks

and accepted invalid ones in builds without assertions.
---
 src/tools/utf8-recode.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/tools/utf8-recode.c b/src/tools/utf8-recode.c
index 3db7104..8ee2137 100644
--- a/src/tools/utf8-recode.c
+++ b/src/tools/utf8-recode.c
@@ -2,15 +2,14 @@
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
-#include "passgen/assert.h"
 #include "passgen/util/utf8.h"
 
 int main(int argc, char *argv[]) {
     size_t input_len = 128;
     uint8_t input[input_len];
 
-    size_t input_start = 0;
     size_t input_end = 0;
 
     size_t decoded_len = 128;
@@ -35,13 +34,14 @@ int main(int argc, char *argv[]) {
         }
 
         // read a chunk of data into the input buffer
-        input_end += fread(
+        size_t input_read = fread(
             input + input_end,
             sizeof(input[0]),
             sizeof(input) - input_end,
             stdin);
+        input_end += input_read;
 
-        printf("read %zu bytes\n", input_end);
+        printf("read %zu bytes\n", input_read);
 
         uint32_t *decoded_pos = &decoded[0];
         const uint8_t *input_pos = &input[0];
@@ -54,15 +54,19 @@ int main(int argc, char *argv[]) {
             input_end);
 
         decoded_total += decoded_pos - &decoded[0];
-        passgen_assert(ret == PASSGEN_UTF8_SUCCESS);
 
-        printf("ret is %i\n", ret);
+        // what remains is the start of a sequence which continues in the next
+        // chunk, unless it is too long for this or there is no next chunk.
+        input_end -= input_pos - &input[0];
+        memmove(input, input_pos, input_end);
+        if(input_end >= 4 || (input_end && feof(stdin))) {
+            fprintf(stderr, "Error: %s\n", passgen_utf8_error(ret));
+            goto error;
+        }
 
-        printf("read %zu codepoints\n", decoded_total);
+        printf("ret is %i\n", input_end ? PASSGEN_UTF8_SUCCESS : ret);
 
-        decoded_pos = 0;
-        input_start = 0;
-        input_end = 0;
+        printf("read %zu codepoints\n", decoded_total);
     }
 
     return EXIT_SUCCESS;
-- 
2.43.0


From 34f3684885c3e3df8b14c103168083c6731a003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 65/66] fix: wordlist tool crashed without a file or without
 words

---
 src/tools/wordlist.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tools/wordlist.c b/src/tools/wordlist.c
index ca0ed30..2ed35a6 100644
--- a/src/tools/wordlist.c
+++ b/src/tools/wordlist.c
@@ -9,8 +9,11 @@ void help(const char **args, size_t args_len) {
 }
 
 void load(passgen_wordlist *wordlist, const char *filename) {
-    FILE *file = fopen(filename, "r");
-    passgen_assert(file);
+    FILE *file = filename ? fopen(filename, "r") : NULL;
+    if(!file) {
+        fprintf(stderr, "Error: wordlist could not be opened.\n");
+        exit(EXIT_FAILURE);
+    }
 
     // closes the file
     passgen_wordlist_load(wordlist, file, 3);
@@ -19,9 +22,7 @@ void load(passgen_wordlist *wordlist, const char *filename) {
 void dump(const char **args, size_t args_len) {
     (void) args_len;
 
-    passgen_assert(args_len == 3);
     const char *filename = args[2];
-    passgen_assert(filename);
 
     passgen_wordlist wordlist;
     load(&wordlist, filename);
@@ -39,9 +40,7 @@ void dump(const char **args, size_t args_len) {
 void random_word(const char **args, size_t args_len) {
     (void) args_len;
 
-    passgen_assert(args_len == 3);
     const char *filename = args[2];
-    passgen_assert(filename);
 
     passgen_random random;
     passgen_random_open(&random, NULL);
@@ -49,6 +48,10 @@ void random_word(const char **args, size_t args_len) {
     load(&wordlist, filename);
 
     const char *word = passgen_wordlist_random(&wordlist, &random);
+    if(!word) {
+        fprintf(stderr, "Error: wordlist contains no words.\n");
+        exit(EXIT_FAILURE);
+    }
     printf("%s\n", word);
 
     passgen_random_close(&random);
-- 
2.43.0


From f9120969001694f284aeb713ac2b502114c967ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:46 +0000
Subject: [PATCH 66/66] fix: preset eff of the shipped configuration repeated
 its separators

---
 data/passgen.conf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/passgen.conf b/data/passgen.conf
index 749ec73..588cf05 100644
--- a/data/passgen.conf
+++ b/data/passgen.conf
@@ -14,4 +14,4 @@ preset firefox:[a-zA-Z0-9]{15}
 preset proquint:(([bdfghjklmnprstvz][aiou]){2}[bdfghjklmnprstvz])-(([bdfghjklmnprstvz][aiou]){2}[bdfghjklmnprstvz])
 
 # eff wordlist recommendation
-preset eff:\w{eff-large}(-\w{eff-large}-){5}
+preset eff:\w{eff-large}(-\w{eff-large}){5}
-- 
2.43.0

