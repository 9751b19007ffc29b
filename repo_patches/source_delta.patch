From 81b3a6f1e67acfaafbe295e327de980e29cbc93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:08 +0000
Subject: [PATCH 01/29] fix: buffer: handle empty and huge sizes without
 overflow

buffer_insert()/buffer_append() of zero bytes into a not yet allocated buffer
reported a failure; buffer_reserve()/buffer_insert_raw()/buffer_remove() with
sizes near SIZE_MAX wrapped around (endless loop or out-of-bounds access).
---
 data/buffer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/data/buffer.c b/data/buffer.c
index 548d355..ff60da3 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -86,6 +86,10 @@ buffer_reserve(BUFFER* buf, size_t n)
 {
     size_t alloc;
 
+    /* Refuse requests which cannot be satisfied as they overflow size_t. */
+    if(n > SIZE_MAX / 4  ||  buf->size > SIZE_MAX / 4)
+        return -1;
+
     if(buf->size + n < buf->alloc)
         return 0;
 
@@ -108,7 +112,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(buf->size + n > buf->alloc) {
+    if(buf->data == NULL  ||  n > buf->alloc - buf->size) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
@@ -136,7 +140,7 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
 void
 buffer_remove(BUFFER* buf, size_t off, size_t n)
 {
-    if(off + n < buf->size) {
+    if(off < buf->size  &&  n < buf->size - off) {
         memmove((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);
         buf->size -= n;
     } else {
-- 
2.43.0


From 96c7da63af3da81d5a7547063d70311d6c025356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:13 +0000
Subject: [PATCH 02/29] fix: array_*_insert_n_raw/append_n: report error if the
 size overflows

---
 data/buffer.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/data/buffer.h b/data/buffer.h
index a15d99c..49c4447 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -516,19 +516,19 @@ BUFFER_INLINE__ int array_int8_insert_n_raw(ARRAY_int8* array, size_t index, siz
 BUFFER_INLINE__ int array_uint8_insert_n_raw(ARRAY_uint8* array, size_t index, size_t n)
         { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_insert_n_raw(ARRAY_int16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int16_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_insert_n_raw(ARRAY_uint16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint16_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_insert_n_raw(ARRAY_int32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int32_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_insert_n_raw(ARRAY_uint32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint32_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_insert_n_raw(ARRAY_int64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int64_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_insert_n_raw(ARRAY_uint64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint64_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_insert_n_raw(ARRAY_ptr* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(void*)  &&  buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ int array_int8_append_raw(ARRAY_int8* array)
         { return (buffer_append_raw(&array->buf, sizeof(int8_t)) != NULL ? 0 : -1); }
@@ -627,19 +627,19 @@ BUFFER_INLINE__ int array_int8_append_n(ARRAY_int8* array, size_t n)
 BUFFER_INLINE__ int array_uint8_append_n(ARRAY_uint8* array, size_t n)
         { return (buffer_append_raw(&array->buf, n * sizeof(uint8_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_append_n(ARRAY_int16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int16_t)  &&  buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_append_n(ARRAY_uint16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint16_t)  &&  buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_append_n(ARRAY_int32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int32_t)  &&  buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_append_n(ARRAY_uint32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint32_t)  &&  buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_append_n(ARRAY_int64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int64_t)  &&  buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_append_n(ARRAY_uint64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint64_t)  &&  buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_append_n(ARRAY_ptr* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(void*)  &&  buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ void array_int8_remove(ARRAY_int8* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(int8_t), sizeof(int8_t)); }
-- 
2.43.0


From 3e7c7d299b3fc8e931026048ba6db2ceaed54426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:17 +0000
Subject: [PATCH 03/29] fix: array_ptr_insert(): take ARRAY_ptr, not
 ARRAY_uint64

---
 data/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.h b/data/buffer.h
index 49c4447..2accfc3 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -502,7 +502,7 @@ BUFFER_INLINE__ int array_uint64_insert(ARRAY_uint64* array, size_t index, uint6
                 *addr = u64;
             return (addr != NULL) ? 0 : -1;
         }
-BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* ptr)
+BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         {
             void** addr;
             addr = (void**) buffer_insert_raw(&array->buf, index * sizeof(void*), sizeof(void*));
-- 
2.43.0


From 4d2b0072ef5288ba7e41490e5834024c6828b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:44 +0000
Subject: [PATCH 04/29] fix: base64_decode(): do not index the table with a
 negative char

Input bytes (or options ch62/ch63) above 0x7f caused out-of-bounds access on
platforms where char is signed.
---
 encode/base64.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/encode/base64.c b/encode/base64.c
index ac5407a..31976be 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -153,13 +153,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Build table. */
     memset(table, 0xff, 256);
     for(i = 0; i < 62; i++)
-        table[(int) base64_table_core[i]] = i;
-    table[(int) options->ch62] = 62;
-    table[(int) options->ch63] = 63;
+        table[(uint8_t) base64_table_core[i]] = i;
+    table[(uint8_t) options->ch62] = 62;
+    table[(uint8_t) options->ch63] = 63;
 
     /* Validate the input. */
     for(in_off = 0; in_off < in_size; in_off++) {
-        if(table[(int) in[in_off]] == 0xff)
+        if(table[(uint8_t) in[in_off]] == 0xff)
             return -EINVAL;
     }
 
@@ -175,13 +175,13 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
 
         case 2:
-            if(table[(int) in[in_size-1]] & 0x4f)
+            if(table[(uint8_t) in[in_size-1]] & 0x4f)
                 return -EINVAL;
             out_size_needed += 1;
             break;
 
         case 3:
-            if(table[(int) in[in_size-1]] & 0xc3)
+            if(table[(uint8_t) in[in_size-1]] & 0xc3)
                 return -EINVAL;
             out_size_needed += 2;
             break;
@@ -197,10 +197,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Main loop. */
     in_off = 0;
     while(in_off + 4 <= in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
-        v |= (unsigned)table[(int) in[in_off++]];
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
+        v |= (unsigned)table[(uint8_t) in[in_off++]];
 
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
@@ -208,13 +208,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     }
 
     if(in_off + 2 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
         out[out_off++] = (v >> 16) & 0xff;
     } else if(in_off + 3 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
     }
-- 
2.43.0


From bc1f4f1a3d970ebd7c431506406cb050f7a0bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:48 +0000
Subject: [PATCH 05/29] fix: base64: report error if the output size does not
 fit into int

---
 encode/base64.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index 31976be..5ab9591 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -26,6 +26,7 @@
 #include "base64.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 
@@ -52,6 +53,10 @@ base64_encode(const void* in_buf, unsigned in_size,
     if(options == NULL)
         options = &base64_def_options;
 
+    /* The output size has to be representable as int. */
+    if(in_size > INT_MAX / 4 * 3)
+        return -EOVERFLOW;
+
     /* Every three bytes are encoded into 4 characters of output.
      * Finally add +1 for zero terminator. */
     out_size_needed = ((in_size + 2) / 3) * 4;
@@ -187,6 +192,10 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
     }
 
+    /* The output size has to be representable as int. */
+    if(out_size_needed > INT_MAX)
+        return -EOVERFLOW;
+
     if(out_buf == NULL)
         return out_size_needed;
 
-- 
2.43.0


From 9e8e51ef245db49436baec0b2f33ab170345e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:51 +0000
Subject: [PATCH 06/29] fix: hex_decode(): reject letters which are not
 hexadecimal digits

---
 encode/hex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode/hex.c b/encode/hex.c
index 7a3e6db..45213eb 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -87,9 +87,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
     while(in < in_end  &&  out < out_end) {
         if('0' <= *in  &&  *in <= '9')
             *out = (*in - '0') << 4;
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out = (*in - 'a' + 10) << 4;
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out = (*in - 'A' + 10) << 4;
         else
             return -1;
@@ -97,9 +97,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
 
         if('0' <= *in  &&  *in <= '9')
             *out |= (*in - '0');
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out |= (*in - 'a' + 10);
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out |= (*in - 'A' + 10);
         else
             return -1;
-- 
2.43.0


From c4ae02831c98f53becf3508ee3ada3c8b9970936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:56 +0000
Subject: [PATCH 07/29] fix: hex_encode(): report error if the output size does
 not fit into int

---
 encode/hex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode/hex.c b/encode/hex.c
index 45213eb..e788df2 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -25,6 +25,8 @@
 
 #include "hex.h"
 
+#include <limits.h>
+
 
 int
 hex_encode(const void* in_buf, unsigned in_size,
@@ -39,6 +41,10 @@ hex_encode(const void* in_buf, unsigned in_size,
     char* out;
     char* out_end;
 
+    /* The output size has to be representable as int. */
+    if(in_size > (INT_MAX - 1) / 2)
+        return -1;
+
     if(out_buf == NULL)
         return in_size * 2 + 1;
 
-- 
2.43.0


From 37442d5350c20148836425cc28d055df1e63e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:07 +0000
Subject: [PATCH 08/29] fix: crc32(): process blocks larger than INT_MAX
 correctly

---
 hash/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/crc32.c b/hash/crc32.c
index 09398c7..7738aff 100644
--- a/hash/crc32.c
+++ b/hash/crc32.c
@@ -122,7 +122,7 @@ crc32(const void* data, size_t n)
 {
     const uint8_t* bytes = (const uint8_t*) data;
     uint32_t crcreg = CRC32_INITXOR;
-    int i;
+    size_t i;
 
     for(i = 0; i < n; i++)
         crcreg = (crcreg >> 8) ^ crc32_table[((crcreg ^ bytes[i]) & 0xffU)];
-- 
2.43.0


From 39352dafcef404fed63cedddcabad1959dcf95c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:42 +0000
Subject: [PATCH 09/29] fix: MALLOCA_(): parenthesize the size parameter

---
 mem/malloca.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index b9fa607..be4cecd 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -83,8 +83,8 @@ malloca_set_mark__(void* ptr, int mark)
  */
 #define MALLOCA_(size, threshold)                                           \
     ((size) < (threshold) - sizeof(void*)                                   \
-        ? malloca_set_mark__(CRE_alloca__(size + sizeof(void*)), 0xcccc)    \
-        : malloca_set_mark__(malloc(size + sizeof(void*)), 0xdddd))
+        ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
+        : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From 5f8371d05091a35931db89fa1b52ea6a3f794c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:01 +0000
Subject: [PATCH 10/29] fix: MALLOCA_(): handle sizes near SIZE_MAX and tiny
 thresholds without overflow

---
 mem/malloca.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index be4cecd..6811a68 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -82,9 +82,10 @@ malloca_set_mark__(void* ptr, int mark)
  * anymore, release it with FREEA().
  */
 #define MALLOCA_(size, threshold)                                           \
-    ((size) < (threshold) - sizeof(void*)                                   \
+    ((threshold) > sizeof(void*)  &&  (size) < (threshold) - sizeof(void*)  \
         ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
-        : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
+        : malloca_set_mark__((size) <= ((size_t) -1) - sizeof(void*)        \
+                ? malloc((size) + sizeof(void*)) : NULL, 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From 25955d5b380e006aaad7fb62d04225f5e358dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:01 +0000
Subject: [PATCH 11/29] fix: FREEA(): do not shadow caller's variable named x

---
 mem/malloca.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index 6811a68..e7b6197 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -94,9 +94,9 @@ malloca_set_mark__(void* ptr, int mark)
 #define FREEA(ptr)                                                          \
     do {                                                                    \
         if((ptr) != NULL) {                                                 \
-            int* x = (int*)((char*)(ptr) - sizeof(void*));                  \
-            if(*x == 0xdddd)                                                \
-                free(x);                                                    \
+            int* malloca_mark__ = (int*)((char*)(ptr) - sizeof(void*));     \
+            if(*malloca_mark__ == 0xdddd)                                   \
+                free(malloca_mark__);                                       \
         }                                                                   \
     } while(0)
 
-- 
2.43.0


From 33886f7eb5e0993ec29d86ff88935eb45451ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:05 +0000
Subject: [PATCH 12/29] fix: memchunk_alloc(): report failure for huge sizes
 instead of wrapping around

---
 mem/memchunk.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index 7682ed3..0d466ef 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -48,8 +48,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
     void* ptr;
 
     /* Not enough free space in the head block? */
-    if(chunk->head == NULL  ||  chunk->free_off + size > chunk->block_size) {
-        if(4 * size > chunk->block_size) {
+    if(chunk->head == NULL  ||  size > chunk->block_size - chunk->free_off) {
+        if(size > chunk->block_size / 4) {
             /* A big allocation.
              *
              * If application asks for more memory than the block size, we
@@ -63,6 +63,9 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
              * future smaller requests. */
             MEMCHUNK_BLOCK* block;
 
+            if(size > ((size_t) -1) - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
+
             block = malloc(sizeof(MEMCHUNK_BLOCK) + size);
             if(block == NULL)
                 return NULL;
@@ -81,6 +84,9 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
             /* Allocate a standard new block. */
             MEMCHUNK_BLOCK* block;
 
+            if(chunk->block_size > ((size_t) -1) - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
+
             block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0


From 2d5c15e2e2ebbf6dfbaf65a36593356bc82ea0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:08 +0000
Subject: [PATCH 13/29] fix: cmdline_read(): ignore shortname of compiler-like
 options also in option groups

---
 misc/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index bf518b7..1a2624e 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -49,7 +49,7 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
 
     for(i = 0; arggroup[i] != '\0'; i++) {
         for(opt = options; opt->id != 0; opt++) {
-            if(arggroup[i] == opt->shortname)
+            if(arggroup[i] == opt->shortname  &&  !(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE))
                 break;
         }
 
-- 
2.43.0


From e808f60822c9fa6a4ad1b4ace955e995fe7ce1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:58 +0000
Subject: [PATCH 14/29] fix: value_string_length(): avoid int overflow for
 strings longer than 2 GiB

---
 data/value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 36ad911..55b2384 100644
--- a/data/value.c
+++ b/data/value.c
@@ -707,11 +707,11 @@ value_string_length(const VALUE* v)
 
     payload = value_payload((VALUE*) v);
     while(payload[off] & 0x80) {
-        len |= (payload[off] & 0x7f) << shift;
+        len |= (size_t)(payload[off] & 0x7f) << shift;
         shift += 7;
         off++;
     }
-    len |= payload[off] << shift;
+    len |= (size_t)payload[off] << shift;
 
     return len;
 }
-- 
2.43.0


From 15d9315f9bc36c3bc195dcc926dbf43386f0d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:01 +0000
Subject: [PATCH 15/29] fix: value_init_string(): treat NULL as an empty string
 instead of passing it to memcpy()

---
 data/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 55b2384..51d8eac 100644
--- a/data/value.c
+++ b/data/value.c
@@ -416,6 +416,9 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     if(v == NULL)
         return -1;
 
+    if(str == NULL)
+        len = 0;
+
     tmplen = len;
     off = 0;
     while(tmplen >= 128) {
@@ -436,7 +439,8 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     }
     payload[off++] = tmplen & 0x7f;
 
-    memcpy(payload + off, str, len);
+    if(len > 0)
+        memcpy(payload + off, str, len);
     payload[off + len] = '\0';
     return 0;
 }
-- 
2.43.0


From 36fd1a2fec1f175a2b8a4335d11212976944860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:05 +0000
Subject: [PATCH 16/29] fix: value getters: round large and almost-half
 floating-point numbers correctly

---
 data/value.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 51d8eac..3f504a7 100644
--- a/data/value.c
+++ b/data/value.c
@@ -92,8 +92,13 @@ struct DICT_tag {
 /* We don't want to include <math.h> just because of roundf() and round().
  * Especially as on some systems it requires explicit linking with math
  * library (-lm). */
-#define ROUNDF(inttype, x)   ((inttype)((x) >= 0.0f ? (x) + 0.5f : (x) - 0.5f))
-#define ROUNDD(inttype, x)   ((inttype)((x) >= 0.0 ? (x) + 0.5 : (x) - 0.5))
+/* Note we cannot simply truncate (x) + 0.5 as that addition might be inexact
+ * (consider e.g. 0.49999997f or 8388609.0f). Subtraction of the integral part
+ * is always exact. */
+#define FRACF(inttype, x)    ((x) - (float)(inttype)(x))
+#define FRACD(inttype, x)    ((x) - (double)(inttype)(x))
+#define ROUNDF(inttype, x)   ((inttype)(x) + (FRACF(inttype, (x)) >= 0.5f) - (FRACF(inttype, (x)) <= -0.5f))
+#define ROUNDD(inttype, x)   ((inttype)(x) + (FRACD(inttype, (x)) >= 0.5) - (FRACD(inttype, (x)) <= -0.5))
 
 
 static void*
-- 
2.43.0


From d005d8bc45d03b2341d25de1a445897df7c28f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:08 +0000
Subject: [PATCH 17/29] fix: value_is_compatible(): check floating-point range
 before conversion to integer

---
 data/value.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/data/value.c b/data/value.c
index 3f504a7..d4833d8 100644
--- a/data/value.c
+++ b/data/value.c
@@ -173,6 +173,21 @@ value_type(const VALUE* v)
     return (VALUE_TYPE)(v->data[0] & TYPE_MASK);
 }
 
+/* Check whether the floating-point value can be converted to the given integer
+ * type without any change. The range has to be checked before the conversion,
+ * as conversion of an out of range value has undefined behavior. */
+static int
+value_is_integral(double d, VALUE_TYPE type)
+{
+    switch(type) {
+        case VALUE_INT32:   return (d >= -2147483648.0  &&  d < 2147483648.0  &&  d == (double)(int32_t)d);
+        case VALUE_UINT32:  return (d >= 0.0  &&  d < 4294967296.0  &&  d == (double)(uint32_t)d);
+        case VALUE_INT64:   return (d >= -9223372036854775808.0  &&  d < 9223372036854775808.0  &&  d == (double)(int64_t)d);
+        case VALUE_UINT64:  return (d >= 0.0  &&  d < 18446744073709551616.0  &&  d == (double)(uint64_t)d);
+        default:            return 0;
+    }
+}
+
 int
 value_is_compatible(const VALUE* v, VALUE_TYPE type)
 {
@@ -208,19 +223,11 @@ value_is_compatible(const VALUE* v, VALUE_TYPE type)
             break;
 
         case VALUE_FLOAT:
-            return (type == VALUE_DOUBLE)  ||
-                   (type == VALUE_INT32 && value_float(v) == (float)value_int32(v))  ||
-                   (type == VALUE_UINT32 && value_float(v) == (float)value_uint32(v))  ||
-                   (type == VALUE_INT64 && value_float(v) == (float)value_int64(v))  ||
-                   (type == VALUE_UINT64 && value_float(v) == (float)value_uint64(v));
+            return (type == VALUE_DOUBLE)  ||  value_is_integral(value_double(v), type);
             break;
 
         case VALUE_DOUBLE:
-            return (type == VALUE_FLOAT)  ||
-                   (type == VALUE_INT32 && value_double(v) == (double)value_int32(v))  ||
-                   (type == VALUE_UINT32 && value_double(v) == (double)value_uint32(v))  ||
-                   (type == VALUE_INT64 && value_double(v) == (double)value_int64(v))  ||
-                   (type == VALUE_UINT64 && value_double(v) == (double)value_uint64(v));
+            return (type == VALUE_FLOAT)  ||  value_is_integral(value_double(v), type);
             break;
 
         default:
-- 
2.43.0


From aaeaf3d7ac84c691142bd6bcea54ab0e6f56e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:12 +0000
Subject: [PATCH 18/29] fix: value_path(): refuse array index overflowing
 size_t

---
 data/value.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/value.c b/data/value.c
index d4833d8..3645755 100644
--- a/data/value.c
+++ b/data/value.c
@@ -277,6 +277,8 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             }
 
             while('0' <= *token_beg  &&  *token_beg <= '9') {
+                if(index > (SIZE_MAX - (*token_beg - '0')) / 10)
+                    return NULL;
                 index = index * 10 + (*token_beg - '0');
                 token_beg++;
             }
-- 
2.43.0


From dd8a3de53da24823561fb0e8525fb589aab09358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:15 +0000
Subject: [PATCH 19/29] fix: value_dict_add(): fail also if the existing value
 is still new

---
 data/value.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 3645755..8f03ccd 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1161,16 +1161,17 @@ value_dict_fix_after_insert(DICT* d, RBTREE** path, int path_len)
 VALUE*
 value_dict_add_(VALUE* v, const char* key, size_t key_len)
 {
+    size_t size = value_dict_size(v);
     VALUE* res;
 
     res = value_dict_get_or_add_(v, key, key_len);
-    return (value_is_new(res) ? res : NULL);
+    return (value_dict_size(v) > size) ? res : NULL;
 }
 
 VALUE*
 value_dict_add(VALUE* v, const char* key)
 {
-    return value_dict_add_(v, key, strlen(key));
+    return value_dict_add_(v, key, (key != NULL) ? strlen(key) : 0);
 }
 
 VALUE*
-- 
2.43.0


From 13be9dee300fcfe05103204f7ba6a5e4348ab0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:18 +0000
Subject: [PATCH 20/29] fix: value_array_remove_range(): avoid overflow of
 index + count

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 8f03ccd..544f735 100644
--- a/data/value.c
+++ b/data/value.c
@@ -864,7 +864,7 @@ value_array_remove_range(VALUE* v, size_t index, size_t count)
     ARRAY* a = value_array_payload(v);
     size_t i;
 
-    if(a == NULL  ||  index + count > a->size)
+    if(a == NULL  ||  index > a->size  ||  count > a->size - index)
         return -1;
 
     for(i = index; i < index + count; i++)
-- 
2.43.0


From f08e1905912538ef6d312d8bdaf42f28bdb1388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:22 +0000
Subject: [PATCH 21/29] fix: value: do not access a pointer inside unaligned
 VALUE directly

---
 data/value.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/data/value.c b/data/value.c
index 544f735..6281e38 100644
--- a/data/value.c
+++ b/data/value.c
@@ -118,7 +118,7 @@ value_init_ex(VALUE* v, VALUE_TYPE type, size_t size, size_t align)
             return NULL;
         }
 
-        *((void**) &v->data[sizeof(void*)]) = buf;
+        memcpy(&v->data[sizeof(void*)], &buf, sizeof(void*));
         return buf;
     }
 }
@@ -148,10 +148,15 @@ value_payload_ex(VALUE* v, size_t align)
     if(v == NULL)
         return NULL;
 
-    if(!(v->data[0] & IS_MALLOCED))
+    if(!(v->data[0] & IS_MALLOCED)) {
         return (void*)(v->data + align);
-    else
-        return *(void**)(v->data + sizeof(void*));
+    } else {
+        void* buf;
+
+        /* VALUE itself does not have to be aligned suitably for a pointer. */
+        memcpy(&buf, v->data + sizeof(void*), sizeof(void*));
+        return buf;
+    }
 }
 
 static uint8_t*
-- 
2.43.0


From 3bdfdc0da8deec4c97c2b0e4783741e07882011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:51 +0000
Subject: [PATCH 22/29] fix: memstream: do not claim support of IDispatch

---
 win32/memstream.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 98acb22..82d4e52 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -52,7 +52,6 @@ static HRESULT STDMETHODCALLTYPE
 memstream_QueryInterface(IStream* self, REFIID riid, void** obj)
 {
     if(IsEqualGUID(riid, &IID_IUnknown)  ||
-       IsEqualGUID(riid, &IID_IDispatch)  ||
        IsEqualGUID(riid, &IID_ISequentialStream)  ||
        IsEqualGUID(riid, &IID_IStream))
     {
-- 
2.43.0


From 4c872425364836b690bbc65dd82859588942730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:51 +0000
Subject: [PATCH 23/29] fix: memstream_create(): return a failing HRESULT when
 out of memory

---
 win32/memstream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 82d4e52..3e0d9ea 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -288,7 +288,7 @@ memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream)
     s = (MEMSTREAM*) malloc(sizeof(MEMSTREAM));
     if(s == NULL) {
         *p_stream = NULL;
-        return ERROR_OUTOFMEMORY;
+        return E_OUTOFMEMORY;
     }
 
     s->buffer = buffer;
-- 
2.43.0


From 3648c74e704b1f406ba240a3321adedc5af8bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:51 +0000
Subject: [PATCH 24/29] fix: memstream: IStream::CopyTo() must not overflow
 when asked for all the data

---
 win32/memstream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 3e0d9ea..a119859 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -179,7 +179,7 @@ memstream_CopyTo(IStream* self, IStream* other, ULARGE_INTEGER n,
     ULONG written;
     HRESULT hr;
 
-    if(s->pos + n.QuadPart >= s->size)
+    if(s->pos >= s->size  ||  n.QuadPart >= s->size - s->pos)
         n.QuadPart = (s->pos < s->size ? s->size - s->pos : 0);
 
     hr = IStream_Write(other, s->buffer + s->pos, (ULONG) n.QuadPart, &written);
-- 
2.43.0


From abb30c22d682f001052e8c952ad49c397f19d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:51 +0000
Subject: [PATCH 25/29] fix: memstream: avoid signed overflow in
 IStream::Seek()

---
 win32/memstream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index a119859..488c31a 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -131,8 +131,8 @@ memstream_Seek(IStream* self, LARGE_INTEGER delta, DWORD origin,
 
     switch(origin) {
         case STREAM_SEEK_SET:  pos.QuadPart = delta.QuadPart; break;
-        case STREAM_SEEK_CUR:  pos.QuadPart = s->pos + delta.QuadPart; break;
-        case STREAM_SEEK_END:  pos.QuadPart = s->size + delta.QuadPart; break;
+        case STREAM_SEEK_CUR:  pos.QuadPart = (LONGLONG) (s->pos + (ULONGLONG) delta.QuadPart); break;
+        case STREAM_SEEK_END:  pos.QuadPart = (LONGLONG) (s->size + (ULONGLONG) delta.QuadPart); break;
         default:               hr = STG_E_INVALIDPARAMETER; goto end;
     }
 
-- 
2.43.0


From c097f93839897432439cf378a6cf12a888ef6362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 26/29] fix: value_init_string_() with a length near SIZE_MAX
 must fail

The computed size of the payload wrapped around, so the function allocated
too little and wrote out of bounds.
---
 data/value.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/value.c b/data/value.c
index 6281e38..00fe54f 100644
--- a/data/value.c
+++ b/data/value.c
@@ -446,6 +446,12 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     }
     off++;
 
+    /* Prevent an overflow when computing the size of the payload. */
+    if(len > SIZE_MAX - off - sizeof(VALUE)) {
+        value_init_null(v);
+        return -1;
+    }
+
     payload = value_init(v, VALUE_STRING, off + len + 1);
     if(payload == NULL)
         return -1;
-- 
2.43.0


From 7b34c4a037b88261952617dc0f16d97d4352cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 27/29] fix: value_build_path() must keep a new value new if
 out of memory

When creating an array or a dictionary in place of a new value failed, the
value lost its 'new' flag, so it acted as if explicitly initialized to
VALUE_NULL and the path could never be built any more.
---
 data/value.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 00fe54f..315b6c2 100644
--- a/data/value.c
+++ b/data/value.c
@@ -249,6 +249,8 @@ value_is_new(const VALUE* v)
 }
 
 
+static void value_init_new(VALUE* v);
+
 static VALUE*
 value_path_ex(VALUE* root, const char* path, int allow_build)
 {
@@ -291,8 +293,10 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 return NULL;
 
             if(allow_build  &&  value_is_new(v)) {
-                if(value_init_array(v) != 0)
+                if(value_init_array(v) != 0) {
+                    value_init_new(v);
                     return NULL;
+                }
             }
 
             if(sign < 0) {
@@ -313,8 +317,10 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
         } else if(token_end - token_beg > 0) {
             if(allow_build) {
                 if(value_is_new(v)) {
-                    if(value_init_dict(v) != 0)
+                    if(value_init_dict(v) != 0) {
+                        value_init_new(v);
                         return NULL;
+                    }
                 }
                 v = value_dict_get_or_add_(v, token_beg, token_end - token_beg);
             } else {
-- 
2.43.0


From 90d4f01f5e786f2669973ed23065b640c82a62ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 28/29] fix: buffer_insert()/buffer_append() of no data passed
 NULL to memcpy()

The data of an empty buffer are NULL, so that appending one (empty) buffer to
another one called memcpy() with a null pointer, which is undefined even when
the size is zero.
---
 data/buffer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index ff60da3..2517044 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -133,7 +133,9 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
     if(ptr == NULL)
         return -1;
 
-    memcpy(ptr, data, n);
+    /* The data may be NULL if there are none (e.g. those of an empty buffer). */
+    if(n > 0)
+        memcpy(ptr, data, n);
     return 0;
 }
 
-- 
2.43.0


From da724b731beb998974416408eec45ecf8076e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 29/29] fix: dictionary functions passed NULL to memcmp() when
 given NULL as the empty key

All of them accept NULL as the key (meaning the empty one), but comparing it
with the keys present called memcmp() with a null pointer, which is undefined
even when the size is zero.
---
 data/value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 315b6c2..215ddda 100644
--- a/data/value.c
+++ b/data/value.c
@@ -950,7 +950,8 @@ value_dict_default_cmp(const char* key1, size_t len1, const char* key2, size_t l
     size_t min_len = (len1 < len2) ? len1 : len2;
     int cmp;
 
-    cmp = memcmp(key1, key2, min_len);
+    /* The empty key may be given as NULL. */
+    cmp = (min_len > 0) ? memcmp(key1, key2, min_len) : 0;
     if(cmp == 0 && len1 != len2)
         cmp = (len1 < len2) ? -1 : +1;
 
-- 
2.43.0

