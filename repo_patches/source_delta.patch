From 7d5eb47aab0d9a1510dc230db4d4ccbd1caf9697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 01/48] hook: verification anchors in hashing.c (empty unless
 ZPL_VERIFY)

---
 code/source/hashing.c | 71 ++++++++++++++++++++++++++++++++++++-------
 code/zpl.h            |  7 +++++
 2 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index e84973d..55a32cd 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -16,8 +16,13 @@ zpl_u32 zpl_adler32(void const *data, zpl_isize len) {
 
     block_len = len % 5552;
 
-    while (len) {
-        for (i = 0; i + 7 < block_len; i += 8) {
+    while (len)
+    ZPL_VERIFY_LOOP(adler32_blocks, data, len, block_len, i, bytes, a, b)
+    {
+        for (i = 0; i + 7 < block_len; i += 8)
+        ZPL_VERIFY_LOOP(adler32_unrolled, data, len, block_len, i, bytes, a, b)
+        {
+            ZPL_VERIFY_GHOST(adler32_unrolled, data, a, b, i)
             a += bytes[0], b += a;
             a += bytes[1], b += a;
             a += bytes[2], b += a;
@@ -29,9 +34,15 @@ zpl_u32 zpl_adler32(void const *data, zpl_isize len) {
 
             bytes += 8;
         }
-        for (; i < block_len; i++) a += *bytes++, b += a;
+        for (; i < block_len; i++)
+        ZPL_VERIFY_LOOP(adler32_rest, data, len, block_len, i, bytes, a, b)
+        {
+            ZPL_VERIFY_GHOST(adler32_rest, data, a, b, i)
+            a += *bytes++, b += a;
+        }
 
         a %= MOD_ALDER, b %= MOD_ALDER;
+        ZPL_VERIFY_GHOST(adler32_reduced, data)
         len -= block_len;
         block_len = 5552;
     }
@@ -121,7 +132,12 @@ zpl_u32 zpl_crc32(void const *data, zpl_isize len) {
     zpl_isize remaining;
     zpl_u32 result = ~(cast(zpl_u32) 0);
     zpl_u8 const *c = cast(zpl_u8 const *) data;
-    for (remaining = len; remaining--; c++) result = (result >> 8) ^ (zpl__crc32_table[(result ^ *c) & 0xff]);
+    for (remaining = len; remaining--; c++)
+    ZPL_VERIFY_LOOP(crc32, data, len, remaining, result, c)
+    {
+        ZPL_VERIFY_GHOST(crc32, data)
+        result = (result >> 8) ^ (zpl__crc32_table[(result ^ *c) & 0xff]);
+    }
     return ~result;
 }
 
@@ -129,7 +145,12 @@ zpl_u64 zpl_crc64(void const *data, zpl_isize len) {
     zpl_isize remaining;
     zpl_u64 result = (cast(zpl_u64)0);
     zpl_u8 const *c = cast(zpl_u8 const *) data;
-    for (remaining = len; remaining--; c++) result = (result >> 8) ^ (zpl__crc64_table[(result ^ *c) & 0xff]);
+    for (remaining = len; remaining--; c++)
+    ZPL_VERIFY_LOOP(crc64, data, len, remaining, result, c)
+    {
+        ZPL_VERIFY_GHOST(crc64, data)
+        result = (result >> 8) ^ (zpl__crc64_table[(result ^ *c) & 0xff]);
+    }
     return result;
 }
 
@@ -138,7 +159,12 @@ zpl_u32 zpl_fnv32(void const *data, zpl_isize len) {
     zpl_u32 h = 0x811c9dc5;
     zpl_u8 const *c = cast(zpl_u8 const *) data;
 
-    for (i = 0; i < len; i++) h = (h * 0x01000193) ^ c[i];
+    for (i = 0; i < len; i++)
+    ZPL_VERIFY_LOOP(fnv32, data, len, i, h)
+    {
+        ZPL_VERIFY_GHOST(fnv32, data)
+        h = (h * 0x01000193) ^ c[i];
+    }
 
     return h;
 }
@@ -148,7 +174,12 @@ zpl_u64 zpl_fnv64(void const *data, zpl_isize len) {
     zpl_u64 h = 0xcbf29ce484222325ull;
     zpl_u8 const *c = cast(zpl_u8 const *) data;
 
-    for (i = 0; i < len; i++) h = (h * 0x100000001b3ll) ^ c[i];
+    for (i = 0; i < len; i++)
+    ZPL_VERIFY_LOOP(fnv64, data, len, i, h)
+    {
+        ZPL_VERIFY_GHOST(fnv64, data)
+        h = (h * 0x100000001b3ll) ^ c[i];
+    }
 
     return h;
 }
@@ -158,7 +189,12 @@ zpl_u32 zpl_fnv32a(void const *data, zpl_isize len) {
     zpl_u32 h = 0x811c9dc5;
     zpl_u8 const *c = cast(zpl_u8 const *) data;
 
-    for (i = 0; i < len; i++) h = (h ^ c[i]) * 0x01000193;
+    for (i = 0; i < len; i++)
+    ZPL_VERIFY_LOOP(fnv32a, data, len, i, h)
+    {
+        ZPL_VERIFY_GHOST(fnv32a, data)
+        h = (h ^ c[i]) * 0x01000193;
+    }
 
     return h;
 }
@@ -168,7 +204,12 @@ zpl_u64 zpl_fnv64a(void const *data, zpl_isize len) {
     zpl_u64 h = 0xcbf29ce484222325ull;
     zpl_u8 const *c = cast(zpl_u8 const *) data;
 
-    for (i = 0; i < len; i++) h = (h ^ c[i]) * 0x100000001b3ll;
+    for (i = 0; i < len; i++)
+    ZPL_VERIFY_LOOP(fnv64a, data, len, i, h)
+    {
+        ZPL_VERIFY_GHOST(fnv64a, data)
+        h = (h ^ c[i]) * 0x100000001b3ll;
+    }
 
     return h;
 }
@@ -336,8 +377,11 @@ zpl_u32 zpl_murmur32_seed(void const *data, zpl_isize len, zpl_u32 seed) {
     zpl_u32 const *blocks = cast(zpl_u32 const *) data;
     zpl_u8 const *tail = cast(zpl_u8 const *)(data) + nblocks * 4;
 
-    for (i = 0; i < nblocks; i++) {
+    for (i = 0; i < nblocks; i++)
+    ZPL_VERIFY_LOOP(murmur32, data, nblocks, i, hash)
+    {
         zpl_u32 k = blocks[i];
+        ZPL_VERIFY_GHOST(murmur32, data)
         k *= c1;
         k = (k << r1) | (k >> (32 - r1));
         k *= c2;
@@ -346,6 +390,7 @@ zpl_u32 zpl_murmur32_seed(void const *data, zpl_isize len, zpl_u32 seed) {
         hash = ((hash << r2) | (hash >> (32 - r2))) * m + n;
     }
 
+    ZPL_VERIFY_GHOST(murmur32_tail, data, len, hash)
     switch (len & 3) {
         case 3: k1 ^= tail[2] << 16;
         case 2: k1 ^= tail[1] << 8;
@@ -378,8 +423,11 @@ zpl_u64 zpl_murmur64_seed(void const *data_, zpl_isize len, zpl_u64 seed) {
     zpl_u8 const *data2 = cast(zpl_u8 const *) data_;
     zpl_u64 const *end = data + (len / 8);
 
-    while (data != end) {
+    while (data != end)
+    ZPL_VERIFY_LOOP(murmur64, data_, len, data, end, h)
+    {
         zpl_u64 k = *data++;
+        ZPL_VERIFY_GHOST(murmur64, data_)
 
         k *= m;
         k ^= k >> r;
@@ -389,6 +437,7 @@ zpl_u64 zpl_murmur64_seed(void const *data_, zpl_isize len, zpl_u64 seed) {
         h *= m;
     }
 
+    ZPL_VERIFY_GHOST(murmur64_tail, data_, len, h)
     switch (len & 7) {
         case 7: h ^= cast(zpl_u64)(data2[6]) << 48;
         case 6: h ^= cast(zpl_u64)(data2[5]) << 40;
diff --git a/code/zpl.h b/code/zpl.h
index 87f773c..f8a2c61 100644
--- a/code/zpl.h
+++ b/code/zpl.h
@@ -84,6 +84,13 @@ License:
 #    endif
 #endif
 
+/* verification anchors: a verifier build defines ZPL_VERIFY and supplies loop
+   invariants and ghost updates for them, every other build drops them */
+#ifndef ZPL_VERIFY
+#    define ZPL_VERIFY_LOOP(...)
+#    define ZPL_VERIFY_GHOST(...)
+#endif
+
 #ifndef ZPL_DEF_INLINE
 #    if defined(ZPL_STATIC)
 #        define ZPL_DEF_INLINE
-- 
2.43.0


From fb9147db4017cdda74a63cf4eabf7c80eec23288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 02/48] fix: base64 decoding rejects malformed text and reads
 only the given length

Texts whose length is not a multiple of four, or with padding anywhere but
at the end, indexed the inverse table out of range and read past the text;
the result size came from strlen instead of the given length, and a rejected
text leaked the result.
---
 code/source/hashing.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index 55a32cd..9853d41 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -254,15 +254,14 @@ zpl_isize zpl__base64_encoded_size(zpl_isize len) {
     return ret;
 }
 
-zpl_isize zpl__base64_decoded_size(void const *data) {
-    zpl_isize len, ret, i;
+zpl_isize zpl__base64_decoded_size(void const *data, zpl_isize len) {
+    zpl_isize ret, i;
     const zpl_u8 *s = cast(const zpl_u8 *)data;
 
     if (s == NULL) {
         return 0;
     }
 
-    len = zpl_strlen(cast(const char*)s);
     ret = len / 4 * 3;
 
     for (i=len; i-- > 0;) {
@@ -334,18 +333,24 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
         return NULL;
     }
 
-    alen = zpl__base64_decoded_size(s);
-    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
-
-    ZPL_ASSERT_NOT_NULL(ret);
-
-    ret[alen] = 0;
+    /* groups of four characters, padding only in place of the last one or two */
+    if (len < 0 || len % 4 != 0)
+        return NULL;
 
     for (i=0; i<len; i++) {
         if (!zpl__base64_valid_char(s[i]))
             return NULL;
+        if (s[i] == '=' && (i < len-2 || s[len-1] != '='))
+            return NULL;
     }
 
+    alen = zpl__base64_decoded_size(s, len);
+    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
+
+    ZPL_ASSERT_NOT_NULL(ret);
+
+    ret[alen] = 0;
+
     for (i=0, j=0; i<len; i+=4, j+=3) {
         v = zpl__base64_dec_table[s[i]-43];
         v = (v << 6) | zpl__base64_dec_table[s[i+1]-43];
-- 
2.43.0


From a310a7807e41d452f0be212a471b1cc3e20e8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 03/48] hook: verification anchors for base64

---
 code/source/hashing.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index 9853d41..3d15ef8 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -264,7 +264,9 @@ zpl_isize zpl__base64_decoded_size(void const *data, zpl_isize len) {
 
     ret = len / 4 * 3;
 
-    for (i=len; i-- > 0;) {
+    for (i=len; i-- > 0;)
+    ZPL_VERIFY_LOOP(base64_padding, s, len, ret, i)
+    {
         if (s[i] == '=') {
             ret--;
         } else {
@@ -301,7 +303,10 @@ zpl_u8 *zpl_base64_encode(zpl_allocator a, void const *data, zpl_isize len) {
     ret = cast(zpl_u8 *)zpl_alloc(a, enc_len+1);
     ret[enc_len] = 0;
 
-    for (i=0, j=0; i < len; i+=3, j+=4) {
+    for (i=0, j=0; i < len; i+=3, j+=4)
+    ZPL_VERIFY_LOOP(base64_encode, s, len, ret, enc_len, i, j, v)
+    {
+        ZPL_VERIFY_GHOST(base64_encode)
         v = s[i];
         v = (i+1 < len) ? (v << 8 | s[i+1]) : (v << 8);
         v = (i+2 < len) ? (v << 8 | s[i+2]) : (v << 8);
@@ -337,7 +342,9 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
     if (len < 0 || len % 4 != 0)
         return NULL;
 
-    for (i=0; i<len; i++) {
+    for (i=0; i<len; i++)
+    ZPL_VERIFY_LOOP(base64_validate, s, len, i)
+    {
         if (!zpl__base64_valid_char(s[i]))
             return NULL;
         if (s[i] == '=' && (i < len-2 || s[len-1] != '='))
@@ -351,7 +358,10 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
 
     ret[alen] = 0;
 
-    for (i=0, j=0; i<len; i+=4, j+=3) {
+    for (i=0, j=0; i<len; i+=4, j+=3)
+    ZPL_VERIFY_LOOP(base64_decode, s, len, ret, alen, i, j, v)
+    {
+        ZPL_VERIFY_GHOST(base64_decode, i)
         v = zpl__base64_dec_table[s[i]-43];
         v = (v << 6) | zpl__base64_dec_table[s[i+1]-43];
         v = (s[i+2] == '=') ? (v << 6) : ((v << 6) | zpl__base64_dec_table[s[i+2]-43]);
-- 
2.43.0


From 3595efe51b2933691553afaab53b27b73a59a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 04/48] fix: zpl_memswap advanced both pointers twice per byte
 for odd sizes below 8 (memory outside the blocks was read and written)

---
 code/source/essentials/memory.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 284492a..83d2490 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -17,7 +17,11 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
         if (a != b) {
-            while (size--) { zpl_swap(zpl_u8, *a++, *b++); }
+            while (size--) {
+                zpl_swap(zpl_u8, *a, *b);
+                a++;
+                b++;
+            }
         }
     } else {
         char buffer[256];
-- 
2.43.0


From 56b84945c994b3ad4adf08bffd3fcf122df9fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:25 +0000
Subject: [PATCH 05/48] hook: verification anchors in the block primitives

---
 code/header/essentials/memory.h | 46 +++++++++++++++++++++++++++------
 code/source/essentials/memory.c | 26 ++++++++++++++-----
 2 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/code/header/essentials/memory.h b/code/header/essentials/memory.h
index 4ca13a6..578f5d3 100644
--- a/code/header/essentials/memory.h
+++ b/code/header/essentials/memory.h
@@ -159,30 +159,46 @@ ZPL_IMPL_INLINE void *zpl_memmove(void *dest, void const *source, zpl_isize n) {
 
     if (d < s) {
         if (cast(zpl_uintptr) s % zpl_size_of(zpl_isize) == cast(zpl_uintptr) d % zpl_size_of(zpl_isize)) {
-            while (cast(zpl_uintptr) d % zpl_size_of(zpl_isize)) {
+            while (cast(zpl_uintptr) d % zpl_size_of(zpl_isize))
+            ZPL_VERIFY_LOOP(memmove_up_head, dest, source, n, d, s)
+            {
                 if (!n--) return dest;
                 *d++ = *s++;
             }
-            while (n >= zpl_size_of(zpl_isize)) {
+            while (n >= zpl_size_of(zpl_isize))
+            ZPL_VERIFY_LOOP(memmove_up_words, dest, source, n, d, s)
+            {
                 *cast(zpl_isize *) d = *cast(zpl_isize *) s;
                 n -= zpl_size_of(zpl_isize);
                 d += zpl_size_of(zpl_isize);
                 s += zpl_size_of(zpl_isize);
             }
         }
-        for (; n; n--) *d++ = *s++;
+        for (; n; n--)
+        ZPL_VERIFY_LOOP(memmove_up_rest, dest, source, n, d, s)
+        {
+            *d++ = *s++;
+        }
     } else {
         if ((cast(zpl_uintptr) s % zpl_size_of(zpl_isize)) == (cast(zpl_uintptr) d % zpl_size_of(zpl_isize))) {
-            while (cast(zpl_uintptr)(d + n) % zpl_size_of(zpl_isize)) {
+            while (cast(zpl_uintptr)(d + n) % zpl_size_of(zpl_isize))
+            ZPL_VERIFY_LOOP(memmove_down_head, dest, source, n, d, s)
+            {
                 if (!n--) return dest;
                 d[n] = s[n];
             }
-            while (n >= zpl_size_of(zpl_isize)) {
+            while (n >= zpl_size_of(zpl_isize))
+            ZPL_VERIFY_LOOP(memmove_down_words, dest, source, n, d, s)
+            {
                 n -= zpl_size_of(zpl_isize);
                 *cast(zpl_isize *)(d + n) = *cast(zpl_isize *)(s + n);
             }
         }
-        while (n) n--, d[n] = s[n];
+        while (n)
+        ZPL_VERIFY_LOOP(memmove_down_rest, dest, source, n, d, s)
+        {
+            n--, d[n] = s[n];
+        }
     }
 
     return dest;
@@ -203,6 +219,7 @@ ZPL_IMPL_INLINE void *zpl_memset(void *dest, zpl_u8 c, zpl_isize n) {
     if (n < 7) return dest;
     s[3] = s[n - 4] = c;
     if (n < 9) return dest;
+    ZPL_VERIFY_GHOST(memset_edge4, dest, s, n, c)
 
     k = -cast(zpl_intptr) s & 3;
     s += k;
@@ -211,20 +228,24 @@ ZPL_IMPL_INLINE void *zpl_memset(void *dest, zpl_u8 c, zpl_isize n) {
 
     *cast(zpl_u32 *)(s + 0) = c32;
     *cast(zpl_u32 *)(s + n - 4) = c32;
+    ZPL_VERIFY_GHOST(memset_edge4w, dest, s, n, c)
     if (n < 9) return dest;
     *cast(zpl_u32 *)(s + 4) = c32;
     *cast(zpl_u32 *)(s + 8) = c32;
     *cast(zpl_u32 *)(s + n - 12) = c32;
     *cast(zpl_u32 *)(s + n - 8) = c32;
+    ZPL_VERIFY_GHOST(memset_edge12, dest, s, n, c)
     if (n < 25) return dest;
     *cast(zpl_u32 *)(s + 12) = c32;
     *cast(zpl_u32 *)(s + 16) = c32;
     *cast(zpl_u32 *)(s + 20) = c32;
     *cast(zpl_u32 *)(s + 24) = c32;
+    ZPL_VERIFY_GHOST(memset_edge28a, dest, s, n, c)
     *cast(zpl_u32 *)(s + n - 28) = c32;
     *cast(zpl_u32 *)(s + n - 24) = c32;
     *cast(zpl_u32 *)(s + n - 20) = c32;
     *cast(zpl_u32 *)(s + n - 16) = c32;
+    ZPL_VERIFY_GHOST(memset_edge28, dest, s, n, c)
 
     k = 24 + (cast(zpl_uintptr) s & 4);
     s += k;
@@ -232,11 +253,17 @@ ZPL_IMPL_INLINE void *zpl_memset(void *dest, zpl_u8 c, zpl_isize n) {
 
     {
         zpl_u64 c64 = (cast(zpl_u64) c32 << 32) | c32;
-        while (n > 31) {
+        while (n > 31)
+        ZPL_VERIFY_LOOP(memset_words, dest, n, s, c, c64)
+        {
             *cast(zpl_u64 *)(s + 0) = c64;
+            ZPL_VERIFY_GHOST(memset_word, dest, s, n, c, 8)
             *cast(zpl_u64 *)(s + 8) = c64;
+            ZPL_VERIFY_GHOST(memset_word, dest, s, n, c, 16)
             *cast(zpl_u64 *)(s + 16) = c64;
+            ZPL_VERIFY_GHOST(memset_word, dest, s, n, c, 24)
             *cast(zpl_u64 *)(s + 24) = c64;
+            ZPL_VERIFY_GHOST(memset_word, dest, s, n, c, 32)
 
             n -= 32;
             s += 32;
@@ -252,7 +279,10 @@ ZPL_IMPL_INLINE zpl_i32 zpl_memcompare(void const *s1, void const *s2, zpl_isize
 
     if (s1 == NULL || s2 == NULL) { return 0; }
 
-    while (size--) {
+    while (size--)
+    ZPL_VERIFY_LOOP(memcompare, s1, s2, size, s1p8, s2p8)
+    {
+        ZPL_VERIFY_GHOST(memcompare, s1, s1p8)
         zpl_isize d;
         if ((d = (*s1p8++ - *s2p8++)) != 0) return cast(zpl_i32) d;
     }
diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 83d2490..62a0c0a 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -17,7 +17,9 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
         if (a != b) {
-            while (size--) {
+            while (size--)
+            ZPL_VERIFY_LOOP(memswap_bytes, i, j, size, a, b)
+            {
                 zpl_swap(zpl_u8, *a, *b);
                 a++;
                 b++;
@@ -26,8 +28,12 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
     } else {
         char buffer[256];
 
-        while (size > zpl_size_of(buffer)) {
+        while (size > zpl_size_of(buffer))
+        ZPL_VERIFY_LOOP(memswap_chunks, i, j, size, buffer)
+        {
+            ZPL_VERIFY_GHOST(memswap_before, i, j)
             zpl_memswap(i, j, zpl_size_of(buffer));
+            ZPL_VERIFY_GHOST(memswap_after, i, j)
             i = zpl_pointer_add(i, zpl_size_of(buffer));
             j = zpl_pointer_add(j, zpl_size_of(buffer));
             size -= zpl_size_of(buffer);
@@ -41,7 +47,9 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
 
 void const *zpl_memchr(void const *data, zpl_u8 c, zpl_isize n) {
     zpl_u8 const *s = cast(zpl_u8 const *) data;
-    while ((cast(zpl_uintptr) s & (sizeof(zpl_usize) - 1)) && n && *s != c) {
+    while ((cast(zpl_uintptr) s & (sizeof(zpl_usize) - 1)) && n && *s != c)
+    ZPL_VERIFY_LOOP(memchr_head, data, c, n, s)
+    {
         s++;
         n--;
     }
@@ -49,12 +57,16 @@ void const *zpl_memchr(void const *data, zpl_u8 c, zpl_isize n) {
         zpl_isize const *w;
         zpl_isize k = ZPL__ONES * c;
         w = cast(zpl_isize const *) s;
-        while (n >= zpl_size_of(zpl_isize) && !ZPL__HAS_ZERO(*w ^ k)) {
+        while (n >= zpl_size_of(zpl_isize) && !ZPL__HAS_ZERO(*w ^ k))
+        ZPL_VERIFY_LOOP(memchr_words, data, c, n, w, k)
+        {
             w++;
             n -= zpl_size_of(zpl_isize);
         }
         s = cast(zpl_u8 const *) w;
-        while (n && *s != c) {
+        while (n && *s != c)
+        ZPL_VERIFY_LOOP(memchr_rest, data, c, n, s)
+        {
             s++;
             n--;
         }
@@ -65,7 +77,9 @@ void const *zpl_memchr(void const *data, zpl_u8 c, zpl_isize n) {
 
 void const *zpl_memrchr(void const *data, zpl_u8 c, zpl_isize n) {
     zpl_u8 const *s = cast(zpl_u8 const *) data;
-    while (n--) {
+    while (n--)
+    ZPL_VERIFY_LOOP(memrchr, data, c, n, s)
+    {
         if (s[n] == c) return cast(void const *)(s + n);
     }
     return NULL;
-- 
2.43.0


From fad88931848377c089f7a0934f892d09cd49b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 06/48] fix: arena blocks overlapped or left the arena when the
 requested alignment exceeded that of the current end; an arena whose backing
 allocation failed handed out addresses

---
 code/header/essentials/memory_custom.h | 2 +-
 code/source/essentials/memory_custom.c | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index ec9b383..6b6742c 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -338,7 +338,7 @@ ZPL_IMPL_INLINE void zpl_arena_init_from_memory(zpl_arena *arena, void *start, z
 ZPL_IMPL_INLINE void zpl_arena_init_from_allocator(zpl_arena *arena, zpl_allocator backing, zpl_isize size) {
     arena->backing = backing;
     arena->physical_start = zpl_alloc(backing, size); // NOTE: Uses default alignment
-    arena->total_size = size;
+    arena->total_size = arena->physical_start ? size : 0;
     arena->total_allocated = 0;
     arena->temp_count = 0;
 }
diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8a14656..4a0eafe 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -172,14 +172,16 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
             void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
-            zpl_isize total_size = zpl_align_forward_i64(size, alignment);
+            zpl_isize total_size;
+
+            ptr = zpl_align_forward(end, alignment);
+            total_size = zpl_pointer_diff(end, ptr) + zpl_align_forward_i64(size, alignment);
 
             // NOTE: Out of memory
-            if (arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
+            if (total_size > cast(zpl_isize) arena->total_size - arena->total_allocated) {
                 return NULL;
             }
 
-            ptr = zpl_align_forward(end, alignment);
             arena->total_allocated += total_size;
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
-- 
2.43.0


From 6afc11a3e797586ee6335054ec0f708d98bfa42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 07/48] fix: pool blocks are aligned and hold the freelist link
 for every geometry; an exhausted or empty pool returns NULL

---
 code/source/essentials/memory_custom.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 4a0eafe..c62434f 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -206,6 +206,11 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
 // Pool Allocator
 //
 
+// NOTE: Distance between blocks: keeps every block aligned and able to hold the freelist link
+zpl_internal zpl_isize zpl__pool_stride(zpl_isize block_size, zpl_isize block_align) {
+    return zpl_align_forward_i64(zpl_max(block_size, zpl_size_of(zpl_uintptr)), block_align);
+}
+
 void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_blocks, zpl_isize block_size, zpl_isize block_align) {
     zpl_isize actual_block_size, pool_size, block_index;
     void *data, *curr;
@@ -218,10 +223,12 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool->block_align = block_align;
     pool->num_blocks = num_blocks;
 
-    actual_block_size = block_size + block_align;
+    actual_block_size = zpl__pool_stride(block_size, block_align);
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
+    pool->physical_start = data;
+    if (data == NULL || num_blocks <= 0) return;
 
     // NOTE: Init intrusive freelist
     curr = data;
@@ -234,7 +241,6 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     end = cast(zpl_uintptr *) curr;
     *end = cast(zpl_uintptr) NULL;
 
-    pool->physical_start = data;
     pool->free_list = data;
 }
 
@@ -249,7 +255,9 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             zpl_uintptr next_free;
             ZPL_ASSERT(size == pool->block_size);
             ZPL_ASSERT(alignment == pool->block_align);
-            ZPL_ASSERT(pool->free_list != NULL);
+
+            // NOTE: Out of blocks
+            if (pool->free_list == NULL) return NULL;
 
             next_free = *cast(zpl_uintptr *) pool->free_list;
             ptr = pool->free_list;
@@ -273,8 +281,9 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             void *curr;
             zpl_uintptr *end;
 
-            actual_block_size = pool->block_size + pool->block_align;
+            actual_block_size = zpl__pool_stride(pool->block_size, pool->block_align);
             pool->total_size = 0;
+            if (pool->physical_start == NULL || pool->num_blocks <= 0) break;
 
             // NOTE: Init intrusive freelist
             curr = pool->physical_start;
-- 
2.43.0


From 1156ddff39fca00548ddd36a2a0aa8fc412b2e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 08/48] fix: stack allocator recorded a wrong size after
 growing, misaligned its blocks and used an uninitialised backing allocator

---
 code/header/essentials/memory_custom.h |  4 +++-
 code/source/essentials/memory_custom.c | 23 +++++++++++++----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index 6b6742c..5b74390 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -435,6 +435,8 @@ ZPL_IMPL_INLINE void zpl_allocation_header_fill(zpl_allocation_header_ev *header
 ZPL_STATIC_ASSERT(ZPL_STACK_ALLOC_OFFSET == 8, "ZPL_STACK_ALLOC_OFFSET != 8");
 
 ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void *start, zpl_isize size) {
+    s->backing.proc = NULL;
+    s->backing.data = NULL;
     s->physical_start = start;
     s->total_size = size;
     s->allocated = 0;
@@ -443,7 +445,7 @@ ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void
 ZPL_IMPL_INLINE void zpl_stack_memory_init(zpl_stack_memory *s, zpl_allocator backing, zpl_isize size) {
     s->backing = backing;
     s->physical_start = zpl_alloc(backing, size);
-    s->total_size = size;
+    s->total_size = s->physical_start ? size : 0;
     s->allocated = 0;
 }
 
diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index c62434f..c67406a 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -413,22 +413,25 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            size += ZPL_STACK_ALLOC_OFFSET;
             zpl_u64 alloc_offset = s->allocated;
+            size += ZPL_STACK_ALLOC_OFFSET;
 
-            void *curr =
-                cast(zpl_u64 *) zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
+            // NOTE: The block itself is aligned, its offset word lies right before it
+            void *curr = zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment);
+            curr = zpl_pointer_sub(curr, ZPL_STACK_ALLOC_OFFSET);
 
-            if (cast(zpl_u64 *) zpl_pointer_add(curr, size) > cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->total_size)) {
+            if (zpl_pointer_diff(s->physical_start, curr) + size > cast(zpl_isize) s->total_size) {
                 if (s->backing.proc) {
-                    void *old_start = s->physical_start;
-                    s->physical_start =
-                        zpl_resize_align(s->backing, s->physical_start, s->total_size, s->total_size + size, alignment);
-                    curr = cast(zpl_u64 *)
-                        zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
-                    s->total_size = zpl_pointer_diff(old_start, s->physical_start);
+                    zpl_isize new_size = s->total_size + size + alignment;
+                    void *new_start = zpl_resize_align(s->backing, s->physical_start, s->total_size, new_size, alignment);
+                    if (!new_start) return NULL;
+                    s->physical_start = new_start;
+                    s->total_size = new_size;
+                    curr = zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment);
+                    curr = zpl_pointer_sub(curr, ZPL_STACK_ALLOC_OFFSET);
                 } else {
                     ZPL_PANIC("Can not resize stack's memory! Allocator not defined!");
+                    return NULL;
                 }
             }
 
-- 
2.43.0


From c5e80abb9aa3f0c994fb4e386a7ad0e361a02588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 09/48] fix: zpl_alloc_str_len wrote through NULL when the
 allocation failed

---
 code/header/essentials/memory_custom.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index 5b74390..e139a56 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -284,6 +284,7 @@ ZPL_IMPL_INLINE void *zpl_alloc_copy_align(zpl_allocator a, void const *src, zpl
 ZPL_IMPL_INLINE char *zpl_alloc_str_len(zpl_allocator a, char const *str, zpl_isize len) {
     char *result;
     result = cast(char *) zpl_alloc(a, len + 1);
+    if (!result) return NULL;
     zpl_memmove(result, str, len);
     result[len] = '\0';
     return result;
-- 
2.43.0


From 9e7ebac2b3bac66b7cd24ed2af10f37cabb86eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 10/48] fix: scratch allocator handed out overlapping blocks
 and walked wrong sizes on free

---
 code/source/essentials/memory_custom.c | 60 +++++++++++++++++---------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index c67406a..a55b88d 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -313,10 +313,15 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
 //
 
 void zpl_scratch_memory_init(zpl_scratch_memory *s, void *start, zpl_isize size) {
-    s->physical_start = start;
-    s->total_size = size;
-    s->alloc_point = start;
-    s->free_point = start;
+    // NOTE: Headers are kept aligned
+    void *aligned = zpl_align_forward(start, zpl_size_of(zpl_allocation_header_ev));
+    size -= zpl_pointer_diff(start, aligned);
+    if (size < 0) size = 0;
+
+    s->physical_start = aligned;
+    s->total_size = size - size % zpl_size_of(zpl_allocation_header_ev);
+    s->alloc_point = aligned;
+    s->free_point = aligned;
 }
 
 zpl_b32 zpl_scratch_memory_is_in_use(zpl_scratch_memory *s, void *ptr) {
@@ -341,28 +346,39 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
         case ZPL_ALLOCATION_ALLOC: {
             void *pt = s->alloc_point;
             zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) pt;
-            void *data = zpl_align_forward(header + 1, alignment);
+            zpl_isize header_size = zpl_size_of(zpl_allocation_header_ev);
             void *end = zpl_pointer_add(s->physical_start, s->total_size);
+            // NOTE: The space to allocate from ends at the oldest block in use once we have wrapped around
+            zpl_b32 wrapped = s->alloc_point < s->free_point;
+            void *data;
 
             ZPL_ASSERT(alignment % 4 == 0);
-            size = ((size + 3) / 4) * 4;
-            pt = zpl_pointer_add(pt, size);
-
-            // NOTE: Wrap around
-            if (pt > end) {
-                header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
-                pt = s->physical_start;
-                header = cast(zpl_allocation_header_ev *) pt;
+            if (size < 0 || size > s->total_size) return NULL;
+            alignment = zpl_max(alignment, header_size);
+            size = ((size + header_size - 1) / header_size) * header_size;
+            data = zpl_align_forward(zpl_pointer_add(pt, header_size), alignment);
+
+            if (zpl_pointer_diff(data, end) < size) {
+                // NOTE: Wrap around
+                if (wrapped) return NULL;
+                wrapped = true;
+                header = cast(zpl_allocation_header_ev *) s->physical_start;
                 data = zpl_align_forward(header + 1, alignment);
-                pt = zpl_pointer_add(pt, size);
             }
 
-            if (!zpl_scratch_memory_is_in_use(s, pt)) {
-                zpl_allocation_header_fill(header, pt, zpl_pointer_diff(header, pt));
-                s->alloc_point = cast(zpl_u8 *) pt;
-                ptr = data;
+            // NOTE: Never catch up with the oldest block, that would look like an empty ring
+            if (wrapped && zpl_pointer_diff(data, s->free_point) <= size) return NULL;
+
+            if (cast(void *) header != pt && pt != end) {
+                zpl_allocation_header_ev *skip = cast(zpl_allocation_header_ev *) pt;
+                skip->size = zpl_pointer_diff(pt, end) | ZPL_ISIZE_HIGH_BIT;
             }
 
+            pt = zpl_pointer_add(data, size);
+            zpl_allocation_header_fill(header, data, zpl_pointer_diff(header, pt));
+            s->alloc_point = pt;
+            ptr = data;
+
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
 
@@ -378,11 +394,13 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
                     h->size = h->size | ZPL_ISIZE_HIGH_BIT;
 
                     while (s->free_point != s->alloc_point) {
-                        zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) s->free_point;
+                        zpl_allocation_header_ev *header;
+                        if (s->free_point == end) { s->free_point = s->physical_start; continue; }
+
+                        header = cast(zpl_allocation_header_ev *) s->free_point;
                         if ((header->size & ZPL_ISIZE_HIGH_BIT) == 0) break;
 
-                        s->free_point = zpl_pointer_add(s->free_point, h->size & (~ZPL_ISIZE_HIGH_BIT));
-                        if (s->free_point == end) s->free_point = s->physical_start;
+                        s->free_point = zpl_pointer_add(s->free_point, header->size & (~ZPL_ISIZE_HIGH_BIT));
                     }
                 }
             }
-- 
2.43.0


From de949bd493bd1b0bc4c40ffba15af45b79952e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:06 +0000
Subject: [PATCH 11/48] fix: arena computes the aligned block only after
 checking that it fits

---
 code/source/essentials/memory_custom.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index a55b88d..debf05c 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -172,16 +172,14 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
             void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
-            zpl_isize total_size;
-
-            ptr = zpl_align_forward(end, alignment);
-            total_size = zpl_pointer_diff(end, ptr) + zpl_align_forward_i64(size, alignment);
+            zpl_isize total_size = zpl_arena_alignment_of(arena, alignment) + zpl_align_forward_i64(size, alignment);
 
             // NOTE: Out of memory
             if (total_size > cast(zpl_isize) arena->total_size - arena->total_allocated) {
                 return NULL;
             }
 
+            ptr = zpl_align_forward(end, alignment);
             arena->total_allocated += total_size;
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
-- 
2.43.0


From 56d8dde0d1651a7f4e30a52ceb997bba1defc64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:31 +0000
Subject: [PATCH 12/48] fix: shrinking an array dropped its items even when the
 allocation failed

---
 code/header/essentials/collections/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index f237874..52ed12e 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -115,14 +115,14 @@ do {
 ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity) {
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
-    if (capacity < h->count) h->count = capacity;
+    zpl_isize count = capacity < h->count ? capacity : h->count;
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
     if (!nh) return false;
-    zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * h->count);
+    zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * count);
     nh->allocator = h->allocator;
     nh->elem_size = h->elem_size;
-    nh->count = h->count;
+    nh->count = count;
     nh->capacity = capacity;
     zpl_free(h->allocator, h);
     *array = nh + 1;
-- 
2.43.0


From f79e43380fb109e590a4124ca1229d06a733b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 13/48] fix: list insertion and removal left the previous link
 of the following element stale

---
 code/header/essentials/collections/list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/list.h b/code/header/essentials/collections/list.h
index 65847a0..f2e0e09 100644
--- a/code/header/essentials/collections/list.h
+++ b/code/header/essentials/collections/list.h
@@ -65,7 +65,10 @@ ZPL_IMPL_INLINE void zpl_list_init(zpl_list *list, void const *ptr) {
 ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
     item->next = NULL;
 
-    if (list->next) { item->next = list->next; }
+    if (list->next) {
+        item->next = list->next;
+        list->next->prev = item;
+    }
 
     list->next = item;
     item->prev = list;
@@ -74,6 +77,7 @@ ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
 
 ZPL_IMPL_INLINE zpl_list *zpl_list_remove(zpl_list *list) {
     if (list->prev) { list->prev->next = list->next; }
+    if (list->next) { list->next->prev = list->prev; }
 
     return list->next;
 }
-- 
2.43.0


From e7e1aa442e5fc39de341fa8d2f59d868c08ec801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 14/48] fix: reading several items from a ring returned one
 fewer than asked for (and everything when asked for none)

---
 code/header/essentials/collections/ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index d4ac319..5645442 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -91,7 +91,7 @@ zpl_array(type)
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
 zpl_array_init(vals, a);                                                                                       \
-while (--max_size && !ZPL_JOIN2(func, empty)(pad)) {                                               \
+while (max_size-- && !ZPL_JOIN2(func, empty)(pad)) {                                               \
 zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
 }                                                                                                              \
 return vals;                                                                                                   \
-- 
2.43.0


From 460577f42e8530afac0425738997304a3d60ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 15/48] fix: hex digits a-f converted to 0-5

---
 code/header/core/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d6f7559..72665fc 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -149,9 +149,9 @@ ZPL_IMPL_INLINE zpl_u8 zpl_char_to_hex_digit(char c) {
     if (c >= '0' && c <= '9')
         return (zpl_u8)(c - '0');
     if (c >= 'a' && c <= 'f')
-        return (zpl_u8)(c - 'a');
+        return (zpl_u8)(c - 'a' + 10);
     if (c >= 'A' && c <= 'F')
-        return (zpl_u8)(c - 'A');
+        return (zpl_u8)(c - 'A' + 10);
     return 0;
 }
 
-- 
2.43.0


From a1608470b7b57deb5e21d14e9983f63b423c564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 16/48] fix: zpl_strcpy and zpl_strcat left the copy
 unterminated

---
 code/header/core/string.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 72665fc..155b11a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -237,6 +237,7 @@ ZPL_IMPL_INLINE char *zpl_strcpy(char *dest, const char *source) {
     if (source) {
         char *str = dest;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
@@ -247,6 +248,7 @@ ZPL_IMPL_INLINE char *zpl_strcat(char *dest, const char *source) {
         char *str = dest;
         while (*str) ++str;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
-- 
2.43.0


From c861990d477b08636f90f7d542a1ea0a57900556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 17/48] fix: zpl_strncmp ordered texts by their addresses

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 155b11a..b1b0c1a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -304,7 +304,7 @@ ZPL_IMPL_INLINE char *zpl_strrev(char *str) {
 ZPL_IMPL_INLINE zpl_i32 zpl_strncmp(const char *s1, const char *s2, zpl_isize len) {
     for (; len > 0; s1++, s2++, len--) {
         if (*s1 != *s2)
-            return ((s1 < s2) ? -1 : +1);
+            return ((*(zpl_u8 *)s1 < *(zpl_u8 *)s2) ? -1 : +1);
         else if (*s1 == '\0')
             return 0;
     }
-- 
2.43.0


From e2078cb2cb92bfb5a21137f8c8653eb47b709f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 18/48] fix: zpl_strdup cleared memory outside its block for
 texts longer than the limit, left them unterminated and wrote through NULL
 without memory

---
 code/header/core/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index b1b0c1a..5aaf896 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -426,10 +426,10 @@ ZPL_IMPL_INLINE zpl_f32 zpl_str_to_f32(const char *str, char **end_ptr) {
 
 ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len) {
     ZPL_ASSERT_NOT_NULL(src);
-    zpl_isize len = zpl_strlen(src);
-    char *dest = cast(char *) zpl_alloc(a, max_len);
-    zpl_memset(dest + len, 0, max_len - len);
+    char *dest = cast(char *) zpl_alloc(a, max_len + 1);
+    if (!dest) return NULL;
     zpl_strncpy(dest, src, max_len);
+    dest[max_len] = 0;
 
     return dest;
 }
-- 
2.43.0


From e04a6c25df444110c8001595e35c8f66299f5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 19/48] fix: zpl_str_split_lines ran over the terminator when
 the last line has no newline and read before the text

---
 code/header/core/string.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 5aaf896..f2f5303 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -439,14 +439,15 @@ ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zp
     zpl_array_init(lines, alloc);
 
     while (*p) {
+        if (*pd == '\0') {
+            // NOTE: The last line does not have to be terminated
+            zpl_array_append(lines, p);
+            break;
+        }
         if (*pd == '\n') {
             *pd = 0;
-            if (*(pd - 1) == '\r') *(pd - 1) = 0;
-            if (strip_whitespace && (pd - p) == 0) {
-                p = pd + 1;
-                continue;
-            }
-            zpl_array_append(lines, p);
+            if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
+            if (!(strip_whitespace && (pd - p) == 0)) zpl_array_append(lines, p);
             p = pd + 1;
         }
         ++pd;
-- 
2.43.0


From a1b7e0ea70f5d4b9aa954579bd710013ba2488b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 20/48] fix: integer parsing accepts exactly the digits of the
 base; the most negative integer is converted without overflow

---
 code/source/core/string.c | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 76d837c..221cce1 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -8,9 +8,19 @@
 
 ZPL_BEGIN_C_DECLS
 
+// NOTE: Value of a digit in the given base (up to 36), negative if it is not one
+zpl_internal zpl_i32 zpl__scan_digit(char c, zpl_i32 base) {
+    zpl_i32 v = -1;
+    if (zpl_char_is_digit(c))
+        v = c - '0';
+    else if (zpl_char_is_alpha(c))
+        v = zpl_char_to_lower(c) - 'a' + 10;
+    return v < base ? v : -1;
+}
+
 zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64 *value) {
     const char *text_begin = text;
-    zpl_i64 result = 0;
+    zpl_u64 result = 0;
     zpl_b32 negative = false;
 
     if (*text == '-') {
@@ -21,13 +31,8 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
     if (base == 16 && zpl_strncmp(text, "0x", 2) == 0) text += 2;
 
     for (;;) {
-        zpl_i64 v;
-        if (zpl_char_is_digit(*text))
-            v = *text - '0';
-        else if (base == 16 && zpl_char_is_hex_digit(*text))
-            v = zpl_hex_digit_to_int(*text);
-        else
-            break;
+        zpl_i32 v = zpl__scan_digit(*text, base);
+        if (v < 0) break;
 
         result *= base;
         result += v;
@@ -35,8 +40,8 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
     }
 
     if (value) {
-        if (negative) result = -result;
-        *value = result;
+        if (negative) result = 0 - result;
+        *value = cast(zpl_i64) result;
     }
 
     return (text - text_begin);
@@ -49,14 +54,8 @@ zpl_internal zpl_isize zpl__scan_zpl_u64(const char *text, zpl_i32 base, zpl_u64
     if (base == 16 && zpl_strncmp(text, "0x", 2) == 0) text += 2;
 
     for (;;) {
-        zpl_u64 v;
-        if (zpl_char_is_digit(*text))
-            v = *text - '0';
-        else if (base == 16 && zpl_char_is_hex_digit(*text))
-            v = zpl_hex_digit_to_int(*text);
-        else {
-            break;
-        }
+        zpl_i32 v = zpl__scan_digit(*text, base);
+        if (v < 0) break;
 
         result *= base;
         result += v;
@@ -112,12 +111,12 @@ void zpl_i64_to_str(zpl_i64 value, char *string, zpl_i32 base) {
     zpl_b32 negative = false;
     zpl_u64 v;
 
+    v = cast(zpl_u64) value;
     if (value < 0) {
         negative = true;
-        value = -value;
+        v = 0 - v;
     }
 
-    v = cast(zpl_u64) value;
     if (v != 0) {
         while (v > 0) {
             *buf++ = zpl__num_to_char_table[v % base];
-- 
2.43.0


From 7d9c6f9defce7ae9e8c6f7c1b516a36049daee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 21/48] fix: counting UTF-8 code points read past the end of
 truncated text

---
 code/header/core/string.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index f2f5303..c86cf90 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -200,14 +200,17 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
         else
             return -1;
 
-        str += inc;
+        while (inc-- > 0) {
+            if (!*str) return -1; // NOTE: truncated
+            str++;
+        }
     }
     return count;
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strnlen(zpl_u8 const *str, zpl_isize max_len) {
     zpl_isize count = 0;
-    for (; *str && max_len > 0; count++) {
+    for (; max_len > 0 && *str; count++) {
         zpl_u8 c = *str;
         zpl_isize inc = 0;
         if (c < 0x80)
@@ -221,8 +224,12 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strnlen(zpl_u8 const *str, zpl_isize max_len)
         else
             return -1;
 
-        str += inc;
+        if (inc > max_len) return -1; // NOTE: truncated
         max_len -= inc;
+        while (inc-- > 0) {
+            if (!*str) return -1;
+            str++;
+        }
     }
     return count;
 }
-- 
2.43.0


From 8d7ca5805e26909696f0d68a1fa1d167bdd9c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 22/48] fix: unpaired high surrogates were converted to garbage
 reading past the terminator; zpl_utf8_codepoint_size always returned 1; shift
 overflow in the decoder

---
 code/source/core/string.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 221cce1..0a81164 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -281,6 +281,7 @@ zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
             str += 1;
         } else if (*str >= 0xd800 && *str < 0xdc00) {
             zpl_rune c;
+            if (str[1] < 0xdc00 || str[1] > 0xdfff) return NULL;
             if (i + 4 > len) return NULL;
             c = ((str[0] - 0xd800) << 10) + ((str[1]) - 0xdc00) + 0x10000;
             buffer[i++] = cast(char)(0xf0 + (c >> 18));
@@ -351,7 +352,7 @@ zpl_isize zpl_utf8_decode(zpl_u8 const *str, zpl_isize str_len, zpl_rune *codepo
         zpl_u8 b1, b2, b3;
         zpl_utf8_accept_range accept;
         if (x >= 0xf0) {
-            zpl_rune mask = (cast(zpl_rune) x << 31) >> 31;
+            zpl_rune mask = -(cast(zpl_rune) x & 1);
             codepoint = (cast(zpl_rune) s0 & (~mask)) | (ZPL_RUNE_INVALID & mask);
             width = 1;
             goto end;
@@ -403,11 +404,7 @@ zpl_isize zpl_utf8_decode(zpl_u8 const *str, zpl_isize str_len, zpl_rune *codepo
 }
 
 zpl_isize zpl_utf8_codepoint_size(zpl_u8 const *str, zpl_isize str_len) {
-    zpl_isize i = 0;
-    for (; i < str_len && str[i]; i++) {
-        if ((str[i] & 0xc0) != 0x80) break;
-    }
-    return i + 1;
+    return zpl_utf8_decode(str, str_len, NULL);
 }
 
 zpl_isize zpl_utf8_encode_rune(zpl_u8 buf[4], zpl_rune r) {
-- 
2.43.0


From 2fdce2383b0e9fcc4109e8e98df19fad84365c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 23/48] fix: zpl_string_join used a missing string after an
 allocation failure

---
 code/source/core/stringlib.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 6db304b..67832fe 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -88,12 +88,16 @@ ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts
 
     ret = zpl_string_make(a, NULL);
 
-    for (i=0; i<count; ++i) {
-        ret = zpl_string_appendc(ret, parts[i]);
+    for (i=0; ret && i<count; ++i) {
+        zpl_string next = zpl_string_appendc(ret, parts[i]);
 
-        if ((i+1) < count) {
-            ret = zpl_string_appendc(ret, glue);
+        if (next) {
+            ret = next;
+            if ((i+1) < count) next = zpl_string_appendc(ret, glue);
         }
+
+        if (!next) zpl_string_free(ret);
+        ret = next;
     }
 
     return ret;
-- 
2.43.0


From ed7dcf5a57c18adcdf8973c9b03c48521d23d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:38 +0000
Subject: [PATCH 24/48] fix: the quadratic residue permutation truncated before
 reducing, so unique random sequences repeated values

---
 code/source/core/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 87c38a7..34a905a 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -33,7 +33,7 @@ zpl_internal ZPL_ALWAYS_INLINE zpl_u32 zpl__permute_qpr(zpl_u32 x) {
     if (x >= prime) {
         return x;
     } else {
-        zpl_u32 residue = cast(zpl_u32)(cast(zpl_u64) x * x) % prime;
+        zpl_u32 residue = cast(zpl_u32)((cast(zpl_u64) x * x) % prime);
         if (x <= prime / 2)
             return residue;
         else
-- 
2.43.0


From f9b3cc14bb232a1ef362e526d8ff00489854959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:38 +0000
Subject: [PATCH 25/48] fix: random integers from wide ranges overflowed and
 the full range divided by zero

---
 code/source/core/random.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 34a905a..2188962 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -121,11 +121,12 @@ zpl_isize zpl_random_gen_isize(zpl_random *r) {
 
 zpl_i64 zpl_random_range_i64(zpl_random *r, zpl_i64 lower_inc, zpl_i64 higher_inc) {
     zpl_u64 u = zpl_random_gen_u64(r);
-    zpl_i64 diff = higher_inc-lower_inc+1;
-    u %= diff;
+    // NOTE: unsigned, the range can be wider than the signed type; 0 stands for the full range
+    zpl_u64 diff = cast(zpl_u64)higher_inc - cast(zpl_u64)lower_inc + 1;
+    if (diff) u %= diff;
+    u += cast(zpl_u64)lower_inc;
     zpl_i64 i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
@@ -135,11 +136,11 @@ zpl_isize zpl_random_range_isize(zpl_random *r, zpl_isize lower_inc, zpl_isize h
 #else
     zpl_u64 u = zpl_random_gen_u64(r);
 #endif
-    zpl_isize diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_usize diff = cast(zpl_usize)higher_inc - cast(zpl_usize)lower_inc + 1;
+    if (diff) u %= diff;
+    u += cast(zpl_usize)lower_inc;
     zpl_isize i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
-- 
2.43.0


From 0135b9fe60d5bcc2a59fc146e111134755e3ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:38 +0000
Subject: [PATCH 26/48] fix: radix sort of bytes left the sorted items in the
 scratch array

---
 code/source/core/sort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 5b7df2e..80a0011 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -142,6 +142,8 @@ ZPL_RADIX_SORT_PROC(Type) {
         }                                                                                                          \
         zpl_swap(zpl_##Type *, source, dest);                                                                            \
     }                                                                                                              \
+    /* NOTE: An odd number of passes leaves the result in the scratch array */                                     \
+    if (source != items) zpl_memcopy(items, source, count * zpl_size_of(zpl_##Type));                              \
 }
 
 ZPL_RADIX_SORT_PROC_GEN(u8);
-- 
2.43.0


From 6a4af73568000cdfdf22b896db14f10b5e657318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:38 +0000
Subject: [PATCH 27/48] fix: shuffling used negative indices

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 80a0011..9a2acde 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -159,7 +159,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
     a = cast(zpl_u8 *) base + (count - 1) * size;
     for (i = count; i > 1; i--) {
-        j = zpl_random_gen_isize(&random) % i;
+        j = cast(zpl_isize)(zpl_random_gen_u64(&random) % cast(zpl_u64) i);
         zpl_memswap(a, cast(zpl_u8 *) base + j * size, size);
         a -= size;
     }
-- 
2.43.0


From 3e183f6758203d9542fd98aa843d7a881ae28146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:38 +0000
Subject: [PATCH 28/48] fix: reversing moved both cursors forwards and left the
 array

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 9a2acde..503e932 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -167,7 +167,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
 void zpl_reverse(void *base, zpl_isize count, zpl_isize size) {
     zpl_isize i, j = count - 1;
-    for (i = 0; i < j; i++, j++) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
+    for (i = 0; i < j; i++, j--) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From a5eafb1e4430a3d2d8f666da5c4ef975f314c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 29/48] fix: zpl_mat2_copy read and wrote 20 bytes beyond both
 matrices

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index fcb3fcf..7a7968a 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -588,7 +588,7 @@ void zpl_float22_identity(zpl_f32 m[2][2]) {
 }
 
 void zpl_mat2_copy(zpl_mat2* out, zpl_mat2* m) {
-    zpl_memcopy(out, m, sizeof(zpl_mat3));
+    zpl_memcopy(out, m, sizeof(zpl_mat2));
 }
 
 void zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in) { zpl_float22_mul_vec2(out, zpl_float22_m(m), in); }
-- 
2.43.0


From 619bb91b1314b6295f8e9033d24c4375c3058482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 30/48] fix: signed shift overflow for negative half floats

---
 code/source/math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 7a7968a..5bfe5dd 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -271,7 +271,7 @@ zpl_f32 zpl_half_to_float(zpl_half value) {
     if (e == 0) {
         if (m == 0) {
             /* Plus or minus zero */
-            result.i = (unsigned int)(s << 31);
+            result.i = (unsigned int)s << 31;
             return result.f;
         } else {
             /* Denormalized number */
@@ -286,11 +286,11 @@ zpl_f32 zpl_half_to_float(zpl_half value) {
     } else if (e == 31) {
         if (m == 0) {
             /* Positive or negative infinity */
-            result.i = (unsigned int)((s << 31) | 0x7f800000);
+            result.i = ((unsigned int)s << 31) | 0x7f800000;
             return result.f;
         } else {
             /* Nan */
-            result.i = (unsigned int)((s << 31) | 0x7f800000 | (m << 13));
+            result.i = ((unsigned int)s << 31) | 0x7f800000 | (unsigned int)(m << 13);
             return result.f;
         }
     }
@@ -298,7 +298,7 @@ zpl_f32 zpl_half_to_float(zpl_half value) {
     e = e + (127 - 15);
     m = m << 13;
 
-    result.i = (unsigned int)((s << 31) | (e << 23) | m);
+    result.i = ((unsigned int)s << 31) | (unsigned int)(e << 23) | (unsigned int)m;
     return result.f;
 }
 
-- 
2.43.0


From 67eb29741c66314961edb8539f9aaf4e944431ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:50 +0000
Subject: [PATCH 31/48] hook: verification anchor in the binary search

---
 code/header/core/sort.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/header/core/sort.h b/code/header/core/sort.h
index 78ff261..caccb6c 100644
--- a/code/header/core/sort.h
+++ b/code/header/core/sort.h
@@ -77,7 +77,9 @@ ZPL_IMPL_INLINE zpl_isize zpl_binary_search(void const *base, zpl_isize count, z
     zpl_isize start = 0;
     zpl_isize end = count;
 
-    while (start < end) {
+    while (start < end)
+    ZPL_VERIFY_LOOP(binary_search, base, count, size, key, start, end)
+    {
         zpl_isize mid = start + (end - start) / 2;
         zpl_isize result = compare_proc(key, cast(zpl_u8 *) base + mid * size);
         if (result < 0)
-- 
2.43.0


From cfcfd2b8b0abfad1982926ea6b816a73a0cfb6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:03 +0000
Subject: [PATCH 32/48] fix: bounded text length read past the terminator of
 texts shorter than the bound

---
 code/header/core/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index c86cf90..0b906a3 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -179,9 +179,9 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlen(const char *str) {
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_strnlen(const char *str, zpl_isize max_len) {
-    const char *end = cast(const char *) zpl_memchr(str, 0, max_len);
-    if (end) return end - str;
-    return max_len;
+    zpl_isize len = 0;
+    while (len < max_len && str[len]) len++;
+    return len;
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
-- 
2.43.0


From 19a5d952532aafa68b7f2fa2f0b6c15e18c89dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:03 +0000
Subject: [PATCH 33/48] fix: formatted printing wrote outside the buffer,
 misread literal text as conversions when full, and misplaced signs and zero
 padding

---
 code/source/core/print.c | 215 +++++++++++++++++++--------------------
 1 file changed, 107 insertions(+), 108 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b01e199..ab37f2e 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -14,7 +14,7 @@ zpl_isize zpl_printf_err_va(char const *fmt, va_list va) {
 zpl_isize zpl_fprintf_va(struct zpl_file *f, char const *fmt, va_list va) {
     zpl_local_persist zpl_thread_local char buf[ZPL_PRINTF_MAXLEN];
     zpl_isize len = zpl_snprintf_va(buf, zpl_size_of(buf), fmt, va);
-    zpl_b32 res = zpl_file_write(f, buf, len - 1); // NOTE: prevent extra whitespace
+    zpl_b32 res = zpl_file_write(f, buf, (len < 0 ? zpl_size_of(buf) : len) - 1); // NOTE: prevent extra whitespace
     return res ? len : -1;
 }
 
@@ -122,15 +122,17 @@ typedef struct {
     zpl_i32 precision;
 } zpl__format_info;
 
+// NOTE: The helpers below write at most max_len characters and no terminator
+zpl_internal zpl_isize zpl__print_pad(char *text, zpl_isize max_len, char pad, zpl_isize count) {
+    zpl_isize res = 0;
+    while (res < count && res < max_len) ZPL_VERIFY_LOOP(print_pad, text, max_len, pad, count, res) { text[res++] = pad; }
+    return res;
+}
+
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
-    zpl_isize res = 0, len = 0;
-    zpl_isize remaining = max_len;
-    char *begin = text;
+    zpl_isize res = 0, len = 0, padding = 0;
 
-    if (str == NULL && max_len >= 6) {
-        res += zpl_strlcpy(text, "(null)", 6);
-        return res;
-    }
+    if (str == NULL) str = "(null)";
 
     if (info && info->precision >= 0)
         len = zpl_strnlen(str, info->precision);
@@ -141,35 +143,16 @@ zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__for
         return res;
     }
 
-    if (info && (info->width == 0 || info->flags & ZPL_FMT_MINUS)) {
-        if (info->precision > 0) len = info->precision < len ? info->precision : len;
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
-        text += res;
-
-        if (info->width > res) {
-            zpl_isize padding = info->width - len;
+    if (info && info->width > len) padding = info->width - len;
 
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
-    } else {
-        if (info && (info->width > res)) {
-            zpl_isize padding = info->width - len;
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
+    if (info && !(info->flags & ZPL_FMT_MINUS))
+        res += zpl__print_pad(text, max_len, (info->flags & ZPL_FMT_ZERO) ? '0' : ' ', padding);
 
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
-    }
+    if (len > max_len - res) return res;
+    res += zpl_strlcpy(text + res, str, len);
 
-    if (info) {
-        if (info->flags & ZPL_FMT_UPPER)
-            zpl_str_to_upper(begin);
-        else if (info->flags & ZPL_FMT_LOWER)
-            zpl_str_to_lower(begin);
-    }
+    if (info && (info->flags & ZPL_FMT_MINUS))
+        res += zpl__print_pad(text + res, max_len - res, ' ', padding);
 
     return res;
 }
@@ -181,116 +164,132 @@ zpl_internal zpl_isize zpl__print_char(char *text, zpl_isize max_len, zpl__forma
 }
 
 zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, zpl__format_info *info, char arg) {
-    zpl_isize res = 0;
-    zpl_i32 rem = (info) ? (info->width > 0) ? info->width : 1 : 1;
-    res = rem;
-    while (rem-- > 0) *text++ = arg;
+    return zpl__print_pad(text, max_len, arg, (info && info->width > 0) ? info->width : 1);
+}
+
+zpl_internal zpl_isize zpl__print_num(char *text, zpl_isize max_len, zpl__format_info *info, char *num, char sign) {
+    zpl_isize res = 0, len, zeros, padding;
+
+    if (info->flags & ZPL_FMT_LOWER) zpl_str_to_lower(num);
+
+    len = zpl_strlen(num);
+    if (info->precision == 0 && len == 1 && *num == '0') len = 0;
+
+    if (info->width == 0 && info->flags & ZPL_FMT_WIDTH) {
+        return res;
+    }
+
+    zeros = zpl_max(0, info->precision - len);
+    padding = zpl_max(0, info->width - len - zeros - (sign ? 1 : 0));
+
+    if ((info->flags & ZPL_FMT_ZERO) && !(info->flags & ZPL_FMT_MINUS)) {
+        zeros += padding;
+        padding = 0;
+    }
+
+    if (!(info->flags & ZPL_FMT_MINUS)) res += zpl__print_pad(text, max_len, ' ', padding);
+    if (sign) res += zpl__print_pad(text + res, max_len - res, sign, 1);
+    res += zpl__print_pad(text + res, max_len - res, '0', zeros);
+    if (len > max_len - res) return res;
+    res += zpl_strlcpy(text + res, num, len);
+    if (info->flags & ZPL_FMT_MINUS) res += zpl__print_pad(text + res, max_len - res, ' ', padding);
 
     return res;
 }
 
 zpl_internal zpl_isize zpl__print_i64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_i64 value) {
-    char num[130];
-    zpl_i64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    char num[130], sign = 0;
+    zpl_i64_to_str(value, num, info->base);
+    if (value < 0) sign = '-';
+    else if (info->flags & ZPL_FMT_PLUS) sign = '+';
+    else if (info->flags & ZPL_FMT_SPACE) sign = ' ';
+    return zpl__print_num(text, max_len, info, num + (value < 0), sign);
 }
 
 zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_u64 value) {
     char num[130];
     zpl_u64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    if (!info) return zpl__print_string(text, max_len, NULL, num);
+    return zpl__print_num(text, max_len, info, num, 0);
 }
 
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
-    zpl_isize width, len, remaining = max_len;
-    char *text_begin = text;
+    zpl_isize width, len = 0;
+    zpl_unused(is_hexadecimal);
 
-    if (arg) {
+    if (arg != arg) {
+        len += zpl__print_string(text, max_len, NULL, "nan");
+    } else if (arg) {
         zpl_u64 value;
+        zpl_isize zeros = 0;
         if (arg < 0) {
-            if (remaining > 1) *text = '-', remaining--;
-            text++;
+            len += zpl__print_pad(text, max_len, '-', 1);
             arg = -arg;
-        } else if (info->flags & ZPL_FMT_MINUS) {
-            if (remaining > 1) *text = '+', remaining--;
-            text++;
+        } else if (info->flags & ZPL_FMT_PLUS) {
+            len += zpl__print_pad(text, max_len, '+', 1);
         }
 
-        value = cast(zpl_u64) arg;
-        len = zpl__print_u64(text, remaining, NULL, value);
-        text += len;
+        if (arg > 1.7976931348623157e308) {
+            len += zpl__print_string(text + len, max_len - len, NULL, "inf");
+        } else {
+            while (arg >= 18446744073709551616.0) {
+                arg /= 10;
+                zeros++;
+            }
 
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
-        arg -= value;
-
-        if (info->precision < 0) info->precision = 6;
-
-        if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
-            zpl_i64 mult = 10;
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
-            while (info->precision-- > 0) {
-                value = cast(zpl_u64)(arg * mult);
-                len = zpl__print_u64(text, remaining, NULL, value);
-                text += len;
-                if (len >= remaining)
-                    remaining = zpl_min(remaining, 1);
-                else
-                    remaining -= len;
-                arg -= cast(zpl_f64) value / mult;
-                mult *= 10;
+            value = cast(zpl_u64) arg;
+            len += zpl__print_u64(text + len, max_len - len, NULL, value);
+            len += zpl__print_pad(text + len, max_len - len, '0', zeros);
+            arg = zeros ? 0 : arg - value;
+
+            if (info->precision < 0) info->precision = 6;
+
+            if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
+                zpl_i64 mult = 10;
+                len += zpl__print_pad(text + len, max_len - len, '.', 1);
+                while (info->precision-- > 0 && len < max_len) {
+                    value = cast(zpl_u64)(arg * mult);
+                    len += zpl__print_u64(text + len, max_len - len, NULL, value);
+                    arg -= cast(zpl_f64) value / mult;
+                    if (mult <= ZPL_I64_MAX / 10) mult *= 10;
+                    else arg = 0;
+                }
             }
         }
     } else {
-        if (remaining > 1) *text = '0', remaining--;
-        text++;
+        len += zpl__print_pad(text, max_len, '0', 1);
         if (info->flags & ZPL_FMT_ALT) {
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
+            len += zpl__print_pad(text + len, max_len - len, '.', 1);
         }
     }
 
-    width = info->width - (text - text_begin);
+    width = zpl_min(info->width - len, max_len - len);
     if (width > 0) {
-        char fill = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-        char *end = text + remaining - 1;
-        len = (text - text_begin);
-
-        for (len = (text - text_begin); len--;) {
-            if ((text_begin + len + width) < end) *(text_begin + len + width) = *(text_begin + len);
-        }
-
-        len = width;
-        text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
-
-        while (len--) {
-            if (text_begin + len < end) text_begin[len] = fill;
-        }
+        zpl_memmove(text + width, text, len);
+        zpl__print_pad(text, width, (info->flags & ZPL_FMT_ZERO) ? '0' : ' ', width);
+        len += width;
     }
 
-    return (text - text_begin);
+    return len;
 }
 
 ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char const *fmt, va_list va) {
     char const *text_begin = text;
-    zpl_isize remaining = max_len, res;
+    zpl_isize remaining = max_len - 1, res; // NOTE: one character is kept for the terminator
+
+    if (max_len <= 0) return -1;
 
     while (*fmt) {
         zpl__format_info info = { 0 };
         zpl_isize len = 0;
         info.precision = -1;
 
-        while (*fmt && *fmt != '%' && remaining) *text++ = *fmt++;
+        while (*fmt && *fmt != '%' && remaining > 0) *text++ = *fmt++, remaining--;
+
+        if (*fmt != '%') break; // NOTE: end of the format or no space left
 
-        if (*fmt == '%') {
+        {
             do {
                 switch (*++fmt) {
                 case '-': {info.flags |= ZPL_FMT_MINUS; break;}
@@ -308,7 +307,7 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             int width = va_arg(va, int);
             if (width < 0) {
                 info.flags |= ZPL_FMT_MINUS;
-                info.width = -width;
+                info.width = (width == ZPL_I32_MIN) ? ZPL_I32_MAX : -width;
             } else {
                 info.width = width;
             }
@@ -371,7 +370,10 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             case 'd':
             case 'i': info.base = 10; break;
 
-            case 'o': info.base = 8; break;
+            case 'o':
+                info.base = 8;
+                info.flags |= ZPL_FMT_UNSIGNED;
+                break;
 
             case 'x':
                 info.base = 16;
@@ -442,10 +444,7 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
         }
 
         text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+        remaining -= len;
     }
 
     *text++ = '\0';
-- 
2.43.0


From 45c90477596f127bf70781bd92eb91ee46952322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:52 +0000
Subject: [PATCH 34/48] fix: memory streams read and wrote outside their
 buffer, started at an unset position and leaked when opening failed

---
 code/header/core/file.h        |  4 ++--
 code/source/core/file_stream.c | 33 ++++++++++++++++++++++++++-------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/code/header/core/file.h b/code/header/core/file.h
index 5a6a911..b9c16ee 100644
--- a/code/header/core/file.h
+++ b/code/header/core/file.h
@@ -383,14 +383,14 @@ ZPL_IMPL_INLINE zpl_i64 zpl_file_tell(zpl_file *f) {
 ZPL_IMPL_INLINE zpl_b32 zpl_file_read(zpl_file *f, void *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
     zpl_b32 result = zpl_file_read_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    if (result) zpl_file_seek(f, cur_offset + size);
     return result;
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_write(zpl_file *f, void const *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
     zpl_b32 result = zpl_file_write_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    if (result) zpl_file_seek(f, cur_offset + size);
     return result;
 }
 
diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index bbf0651..65a8d2c 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -45,7 +45,11 @@ zpl_b8 zpl_file_stream_new(zpl_file* file, zpl_allocator allocator) {
     d->alloc = allocator;
     d->flags = ZPL_FILE_STREAM_CLONE_WRITABLE;
     d->cap = 0;
-    if (!zpl_array_init(d->buf, allocator)) return false;
+    d->cursor = 0;
+    if (!zpl_array_init(d->buf, allocator)) {
+        zpl_free(allocator, d);
+        return false;
+    }
     file->ops = zpl_memory_file_operations;
     file->fd = zpl__file_stream_fd_make(d);
     file->dir = NULL;
@@ -62,8 +66,12 @@ zpl_b8 zpl_file_stream_open(zpl_file* file, zpl_allocator allocator, zpl_u8 *buf
     d->magic = ZPL__FILE_STREAM_FD_MAGIC;
     d->alloc = allocator;
     d->flags = flags;
+    d->cursor = 0;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if (!zpl_array_init_reserve(d->buf, allocator, size)) return false;
+        if (!zpl_array_init_reserve(d->buf, allocator, size)) {
+            zpl_free(allocator, d);
+            return false;
+        }
         zpl_memcopy(d->buf, buffer, size);
         d->cap = zpl_array_count(d->buf) = size;
     } else {
@@ -95,7 +103,10 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
     else if (whence == ZPL_SEEK_WHENCE_END)
         d->cursor = buflen;
 
-    d->cursor = zpl_max(0, zpl_clamp(d->cursor + offset, 0, buflen));
+    if (offset < 0)
+        d->cursor = (offset < -d->cursor) ? 0 : d->cursor + offset;
+    else
+        d->cursor = (offset > buflen - d->cursor) ? buflen : d->cursor + offset;
     if (new_offset) *new_offset = d->cursor;
     return true;
 }
@@ -103,7 +114,9 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
 zpl_internal ZPL_FILE_READ_AT_PROC(zpl__memory_file_read) {
     zpl_unused(stop_at_newline);
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
-    zpl_memcopy(buffer, d->buf + offset, size);
+    if (offset < 0 || size < 0) return false;
+    size = zpl_max(0, zpl_min(size, d->cap - offset));
+    if (size > 0) zpl_memcopy(buffer, d->buf + offset, size);
     if (bytes_read) *bytes_read = size;
     return true;
 }
@@ -113,15 +126,21 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     if (!(d->flags & (ZPL_FILE_STREAM_CLONE_WRITABLE|ZPL_FILE_STREAM_WRITABLE)))
         return false;
     zpl_isize buflen = d->cap;
-    zpl_isize extralen = zpl_max(0, size-(buflen-offset));
+    if (offset < 0 || size < 0 || offset > ZPL_ISIZE_MAX - size) return false;
+    if (offset > buflen && (size == 0 || !(d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE))) {
+        if (bytes_written) *bytes_written = 0;
+        return true;
+    }
+    zpl_isize extralen = zpl_clamp(size-(buflen-offset), 0, size);
     zpl_isize rwlen = size-extralen;
-    zpl_isize new_cap = buflen+extralen;
+    zpl_isize new_cap = zpl_max(buflen, offset+size);
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
         if(zpl_array_capacity(d->buf) < new_cap) {
             if (!zpl_array_grow(d->buf, (zpl_i64)(new_cap))) return false;
         }
     }
-    zpl_memcopy(d->buf + offset, buffer, rwlen);
+    if (offset > buflen) zpl_memset(d->buf + buflen, 0, offset - buflen);
+    if (rwlen > 0) zpl_memcopy(d->buf + offset, buffer, rwlen);
 
     if ((d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) && extralen > 0) {
         zpl_memcopy(d->buf + offset + rwlen, zpl_ptr_add_const(buffer, rwlen), extralen);
-- 
2.43.0


From 34dfbc78e51370bc2a65fe265fc318864f458412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:52 +0000
Subject: [PATCH 35/48] fix: a successful stat was reported as no modification
 time

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0cebc0d..57982ab 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -90,7 +90,7 @@ ZPL_BEGIN_C_DECLS
         time_t result = 0;
         struct stat file_stat;
 
-        if (stat(filepath, &file_stat)) result = file_stat.st_mtime;
+        if (stat(filepath, &file_stat) == 0) result = file_stat.st_mtime;
 
         return cast(zpl_file_time) result;
     }
-- 
2.43.0


From 44880f07f2f3972b408b40177fe9445e83be469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:52 +0000
Subject: [PATCH 36/48] fix: tar archives cut names to 11 characters; damaged
 archives looped forever or delivered records outside the archive

---
 code/source/core/file_tar.c | 69 ++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 911a8a9..d9cdb5d 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -14,6 +14,9 @@ typedef struct {
   char _padding[255];
 } zpl__tar_header;
 
+// NOTE: 11 octal digits
+#define ZPL__TAR_MAX_NUMBER ((cast(zpl_i64)1 << 33) - 1)
+
 zpl_internal zpl_usize zpl__tar_checksum(zpl__tar_header *hr) {
     zpl_usize i;
     zpl_usize res = 256;
@@ -25,6 +28,13 @@ zpl_internal zpl_usize zpl__tar_checksum(zpl__tar_header *hr) {
     return res;
 }
 
+/* NOTE: header fields are not necessarily terminated */
+zpl_internal zpl_i64 zpl__tar_number(char const *field, zpl_isize len) {
+    char num[16] = {0};
+    zpl_memcopy(num, field, len);
+    return zpl_str_to_i64(num, 0, 8);
+}
+
 zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
     char *out = zpl_bprintf("%*r", cnt, '\0');
     if (!zpl_file_write(archive, out, cnt))
@@ -48,14 +58,22 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         }
 
         zpl_i64 file_size = zpl_file_size(&file);
-        zpl_snprintf(hr.name, 12, "%s", paths[i]);
-        zpl_snprintf(hr.size, 12, "%o", file_size);
+        zpl_i64 mtime = cast(zpl_i64)zpl_fs_last_write_time(paths[i]);
+        if (zpl_strlen(paths[i]) >= zpl_size_of(hr.name) || file_size > ZPL__TAR_MAX_NUMBER) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
+        zpl_strncpy(hr.name, paths[i], zpl_size_of(hr.name));
+        zpl_snprintf(hr.size, 12, "%llo", file_size);
         zpl_snprintf(hr.mode, 8, "%o", 0664);
-        zpl_snprintf(hr.mtime, 12, "%o", zpl_fs_last_write_time(paths[i]));
+        zpl_snprintf(hr.mtime, 12, "%llo", zpl_clamp(mtime, 0, ZPL__TAR_MAX_NUMBER));
         hr.type = ZPL_TAR_TYPE_REGULAR;
-        zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
+        zpl_snprintf(hr.checksum, 8, "%o", cast(zpl_u32)zpl__tar_checksum(&hr));
 
-        zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header));
+        if (!zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header))) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
 
         // write data
         {
@@ -65,19 +83,17 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
             char buf[4096] = {0};
             zpl_i64 pos = 0;
             zpl_isize bytes_read = 0;
-            do {
-                if (!zpl_file_read_at_check(&file, buf, 4096, pos, &bytes_read)) {
+            while (remaining_data > 0) {
+                if (!zpl_file_read_at_check(&file, buf, zpl_min(4096, remaining_data), pos, &bytes_read)
+                    || bytes_read == 0
+                    || !zpl_file_write(archive, buf, bytes_read)) {
                     zpl_file_close(&file);
                     return -(ZPL_TAR_ERROR_IO_ERROR);
-                } else if (bytes_read == 0) {
-                    break;
                 }
 
-                zpl_file_write(archive, buf, bytes_read);
                 pos += bytes_read;
                 remaining_data -= bytes_read;
             }
-            while (remaining_data > 0);
 
             if (padding > 0) {
                 if (!zpl__tar_write_null(archive, padding)) {
@@ -111,30 +127,43 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
     ZPL_ASSERT_NOT_NULL(unpack_proc);
 
     zpl_i64 pos = zpl_file_tell(archive);
+    zpl_i64 archive_size = zpl_file_size(archive);
     zpl__tar_header hr = {0};
     zpl_isize err = ZPL_TAR_ERROR_NONE;
 
-    do {
-        if (!zpl_file_read(archive, cast(void*)&hr, zpl_size_of(hr))) {
+    while (err == ZPL_TAR_ERROR_NONE)
+    ZPL_VERIFY_LOOP(tar_unpack, archive, pos, archive_size, hr, err)
+    {
+        zpl_isize bytes_read = 0;
+        char name[zpl_size_of(hr.name) + 1] = {0};
+
+        if (!zpl_file_read_at_check(archive, cast(void*)&hr, zpl_size_of(hr), pos, &bytes_read) || bytes_read != zpl_size_of(hr)) {
             err = ZPL_TAR_ERROR_IO_ERROR;
             break;
         }
         else if (*hr.checksum == 0) {
             break;
         }
-        pos = zpl_file_tell(archive);
+        pos += zpl_size_of(hr);
+        zpl_memcopy(name, hr.name, zpl_size_of(hr.name));
 
         zpl_tar_record rec = {0};
         rec.type = hr.type;
-        rec.path = hr.name;
+        rec.path = name;
         rec.offset = pos;
-        rec.length = zpl_str_to_i64(hr.size, 0, 8);
+        rec.length = zpl__tar_number(hr.size, zpl_size_of(hr.size));
         rec.error = ZPL_TAR_ERROR_NONE;
 
-        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(hr.checksum, 0, 8));
+        if (rec.length < 0 || rec.length > archive_size - pos) {
+            err = ZPL_TAR_ERROR_INVALID_INPUT;
+            break;
+        }
+
+        zpl_usize checksum1 = cast(zpl_usize)zpl__tar_number(hr.checksum, zpl_size_of(hr.checksum));
         zpl_usize checksum2 = zpl__tar_checksum(&hr);
         rec.error = (checksum1 != checksum2) ? cast(zpl_isize)ZPL_TAR_ERROR_BAD_CHECKSUM : rec.error;
 
+        zpl_file_seek(archive, pos);
         rec.error = unpack_proc(archive, &rec, user_data);
 
         if (rec.error > 0) {
@@ -143,9 +172,9 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
         }
 
         /* tar rounds files to 512 byte boundary */
-        zpl_file_seek(archive, pos + zpl_align_forward_i64(rec.length, 512));
+        pos += zpl_align_forward_i64(rec.length, 512);
+        zpl_file_seek(archive, pos);
     }
-    while(err == ZPL_TAR_ERROR_NONE);
 
     return -(err);
 }
@@ -178,7 +207,7 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     char *base_path = cast(char*)user_data;
     zpl_isize base_len = zpl_strlen(base_path);
     zpl_isize len = zpl_strlen(file->path);
-    ZPL_ASSERT(base_len+len-2 < ZPL_MAX_PATH); /* todo: account for missing leading path sep */
+    if (base_len+len+2 > ZPL_MAX_PATH) return 1;
 
     zpl_strcpy(tmp, base_path);
     zpl_path_fix_slashes(tmp); /* todo: need to do twice as base_path is checked before concat */
-- 
2.43.0


From 8d64aef875f09bdc98f2f9bdeb29a05d406c6787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:39 +0000
Subject: [PATCH 37/48] fix: word-wise fill and move broke the aliasing rules,
 so optimised callers could see stale objects

---
 code/header/essentials/memory.h | 51 ++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/code/header/essentials/memory.h b/code/header/essentials/memory.h
index 578f5d3..83f2876 100644
--- a/code/header/essentials/memory.h
+++ b/code/header/essentials/memory.h
@@ -143,6 +143,17 @@ ZPL_IMPL_INLINE zpl_isize zpl_pointer_diff(void const *begin, void const *end) {
 
 ZPL_IMPL_INLINE void zpl_zero_size(void *ptr, zpl_isize size) { zpl_memset(ptr, 0, size); }
 
+/* NOTE: The block operations below access the memory in words, whatever the type of the objects stored there. */
+#if defined(__GNUC__) || defined(__clang__)
+typedef zpl_u32 __attribute__((__may_alias__)) zpl__alias_u32;
+typedef zpl_u64 __attribute__((__may_alias__)) zpl__alias_u64;
+typedef zpl_isize __attribute__((__may_alias__)) zpl__alias_isize;
+#else
+typedef zpl_u32 zpl__alias_u32;
+typedef zpl_u64 zpl__alias_u64;
+typedef zpl_isize zpl__alias_isize;
+#endif
+
 #if defined(_MSC_VER) && !defined(__clang__)
 #pragma intrinsic(__movsb)
 #endif
@@ -168,7 +179,7 @@ ZPL_IMPL_INLINE void *zpl_memmove(void *dest, void const *source, zpl_isize n) {
             while (n >= zpl_size_of(zpl_isize))
             ZPL_VERIFY_LOOP(memmove_up_words, dest, source, n, d, s)
             {
-                *cast(zpl_isize *) d = *cast(zpl_isize *) s;
+                *cast(zpl__alias_isize *) d = *cast(zpl__alias_isize *) s;
                 n -= zpl_size_of(zpl_isize);
                 d += zpl_size_of(zpl_isize);
                 s += zpl_size_of(zpl_isize);
@@ -191,7 +202,7 @@ ZPL_IMPL_INLINE void *zpl_memmove(void *dest, void const *source, zpl_isize n) {
             ZPL_VERIFY_LOOP(memmove_down_words, dest, source, n, d, s)
             {
                 n -= zpl_size_of(zpl_isize);
-                *cast(zpl_isize *)(d + n) = *cast(zpl_isize *)(s + n);
+                *cast(zpl__alias_isize *)(d + n) = *cast(zpl__alias_isize *)(s + n);
             }
         }
         while (n)
@@ -226,25 +237,25 @@ ZPL_IMPL_INLINE void *zpl_memset(void *dest, zpl_u8 c, zpl_isize n) {
     n -= k;
     n &= -4;
 
-    *cast(zpl_u32 *)(s + 0) = c32;
-    *cast(zpl_u32 *)(s + n - 4) = c32;
+    *cast(zpl__alias_u32 *)(s + 0) = c32;
+    *cast(zpl__alias_u32 *)(s + n - 4) = c32;
     ZPL_VERIFY_GHOST(memset_edge4w, dest, s, n, c)
     if (n < 9) return dest;
-    *cast(zpl_u32 *)(s + 4) = c32;
-    *cast(zpl_u32 *)(s + 8) = c32;
-    *cast(zpl_u32 *)(s + n - 12) = c32;
-    *cast(zpl_u32 *)(s + n - 8) = c32;
+    *cast(zpl__alias_u32 *)(s + 4) = c32;
+    *cast(zpl__alias_u32 *)(s + 8) = c32;
+    *cast(zpl__alias_u32 *)(s + n - 12) = c32;
+    *cast(zpl__alias_u32 *)(s + n - 8) = c32;
     ZPL_VERIFY_GHOST(memset_edge12, dest, s, n, c)
     if (n < 25) return dest;
-    *cast(zpl_u32 *)(s + 12) = c32;
-    *cast(zpl_u32 *)(s + 16) = c32;
-    *cast(zpl_u32 *)(s + 20) = c32;
-    *cast(zpl_u32 *)(s + 24) = c32;
+    *cast(zpl__alias_u32 *)(s + 12) = c32;
+    *cast(zpl__alias_u32 *)(s + 16) = c32;
+    *cast(zpl__alias_u32 *)(s + 20) = c32;
+    *cast(zpl__alias_u32 *)(s + 24) = c32;
     ZPL_VERIFY_GHOST(memset_edge28a, dest, s, n, c)
-    *cast(zpl_u32 *)(s + n - 28) = c32;
-    *cast(zpl_u32 *)(s + n - 24) = c32;
-    *cast(zpl_u32 *)(s + n - 20) = c32;
-    *cast(zpl_u32 *)(s + n - 16) = c32;
+    *cast(zpl__alias_u32 *)(s + n - 28) = c32;
+    *cast(zpl__alias_u32 *)(s + n - 24) = c32;
+    *cast(zpl__alias_u32 *)(s + n - 20) = c32;
+    *cast(zpl__alias_u32 *)(s + n - 16) = c32;
     ZPL_VERIFY_GHOST(memset_edge28, dest, s, n, c)
 
     k = 24 + (cast(zpl_uintptr) s & 4);
@@ -256,13 +267,13 @@ ZPL_IMPL_INLINE void *zpl_memset(void *dest, zpl_u8 c, zpl_isize n) {
         while (n > 31)
         ZPL_VERIFY_LOOP(memset_words, dest, n, s, c, c64)
         {
-            *cast(zpl_u64 *)(s + 0) = c64;
+            *cast(zpl__alias_u64 *)(s + 0) = c64;
             ZPL_VERIFY_GHOST(memset_word, dest, s, n, c, 8)
-            *cast(zpl_u64 *)(s + 8) = c64;
+            *cast(zpl__alias_u64 *)(s + 8) = c64;
             ZPL_VERIFY_GHOST(memset_word, dest, s, n, c, 16)
-            *cast(zpl_u64 *)(s + 16) = c64;
+            *cast(zpl__alias_u64 *)(s + 16) = c64;
             ZPL_VERIFY_GHOST(memset_word, dest, s, n, c, 24)
-            *cast(zpl_u64 *)(s + 24) = c64;
+            *cast(zpl__alias_u64 *)(s + 24) = c64;
             ZPL_VERIFY_GHOST(memset_word, dest, s, n, c, 32)
 
             n -= 32;
-- 
2.43.0


From c45cf7780c4efaf3221fadbc1fa840d3a50df0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:32 +0000
Subject: [PATCH 38/48] fix: editing document trees left children linked to
 moved or freed parents and ignored failed requests

---
 code/source/adt.c | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index e8df32b..83405b2 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -17,8 +17,11 @@ zpl_u8 zpl_adt_make_branch(zpl_adt_node *node, zpl_allocator backing, char const
     node->type = type;
     node->name = name;
     node->parent = parent;
-    if (!zpl_array_init(node->nodes, backing))
+    if (!zpl_array_init(node->nodes, backing)) {
+        node->nodes = NULL;
+        node->type = ZPL_ADT_TYPE_UNINITIALISED;
         return ZPL_ADT_ERROR_OUT_OF_MEMORY;
+    }
     return 0;
 }
 
@@ -48,7 +51,7 @@ zpl_adt_node *zpl_adt_find(zpl_adt_node *node, char const *name, zpl_b32 deep_se
     }
 
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             return (node->nodes + i);
         }
     }
@@ -216,6 +219,15 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     return found_node;
 }
 
+/* NOTE: Children keep a pointer to their parent, which has to follow the nodes that were moved. */
+zpl_internal void zpl__adt_relink(zpl_adt_node *parent, zpl_isize from, zpl_isize to) {
+    for (zpl_isize i = from; i < to; i++) {
+        zpl_adt_node *node = parent->nodes + i;
+        if ((node->type != ZPL_ADT_TYPE_OBJECT && node->type != ZPL_ADT_TYPE_ARRAY) || !node->nodes) continue;
+        for (zpl_isize j = 0; j < zpl_array_count(node->nodes); j++) node->nodes[j].parent = node;
+    }
+}
+
 zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
     if (!parent || (parent->type != ZPL_ADT_TYPE_OBJECT && parent->type != ZPL_ADT_TYPE_ARRAY)) {
         return NULL;
@@ -229,9 +241,11 @@ zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
 
     zpl_adt_node o = {0};
     o.parent = parent;
+    zpl_isize old_capacity = zpl_array_capacity(parent->nodes);
     if (!zpl_array_append_at(parent->nodes, o, index))
         return NULL;
 
+    zpl__adt_relink(parent, zpl_array_capacity(parent->nodes) != old_capacity ? 0 : index + 1, zpl_array_count(parent->nodes));
     return parent->nodes + index;
 }
 
@@ -273,11 +287,30 @@ zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent,
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(new_parent);
     zpl_adt_node *old_parent = node->parent;
+    zpl_isize old_index = 0, parent_index = -1;
+    if (old_parent) {
+        old_index = zpl_pointer_diff(old_parent->nodes, node) / zpl_size_of(zpl_adt_node);
+        if (old_parent->parent == new_parent)
+            parent_index = zpl_pointer_diff(new_parent->nodes, old_parent) / zpl_size_of(zpl_adt_node);
+    }
+
     zpl_adt_node *new_node = zpl_adt_alloc_at(new_parent, index);
+    if (!new_node) return NULL;
+
+    /* making space might have moved the node or its parent */
+    if (old_parent) {
+        if (parent_index >= 0) old_parent = new_parent->nodes + parent_index + (parent_index >= index ? 1 : 0);
+        if (old_parent == new_parent && old_index >= index) old_index++;
+        node = old_parent->nodes + old_index;
+    }
+
     *new_node = *node;
     new_node->parent = new_parent;
+    index = zpl_pointer_diff(new_parent->nodes, new_node) / zpl_size_of(zpl_adt_node);
+    zpl__adt_relink(new_parent, index, index + 1);
     if (old_parent) {
         zpl_adt_remove_node(node);
+        if (old_parent == new_parent && old_index < index) new_node--;
     }
     return new_node;
 }
@@ -301,6 +334,8 @@ void zpl_adt_swap_nodes(zpl_adt_node *node, zpl_adt_node *other_node) {
     other_parent->nodes[index2].parent = parent;
     parent->nodes[index] = other_parent->nodes[index2];
     other_parent->nodes[index2] = temp;
+    zpl__adt_relink(parent, index, index + 1);
+    zpl__adt_relink(other_parent, index2, index2 + 1);
 }
 
 void zpl_adt_remove_node(zpl_adt_node *node) {
@@ -309,6 +344,7 @@ void zpl_adt_remove_node(zpl_adt_node *node) {
     zpl_adt_node *parent = node->parent;
     zpl_isize index = (zpl_pointer_diff(parent->nodes, node) / zpl_size_of(zpl_adt_node));
     zpl_array_remove_at(parent->nodes, index);
+    zpl__adt_relink(parent, index, zpl_array_count(parent->nodes));
 }
 
 
-- 
2.43.0


From 209665ac567b3199530e868da444d7f687021bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:32 +0000
Subject: [PATCH 39/48] fix: document queries compared the name of unnamed
 nodes

---
 code/source/adt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 83405b2..05702cc 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -103,7 +103,7 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
 
 zpl_internal zpl_adt_node *zpl__adt_get_field(zpl_adt_node *node, char *name, char *value) {
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             zpl_adt_node *child = &node->nodes[i];
             if (zpl__adt_get_value(child, value)) {
                 return node; /* this object does contain a field of a specified value! */
-- 
2.43.0


From e3068e9ba83572b76932b5e22326a0b81d12993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:32 +0000
Subject: [PATCH 40/48] fix: parsing long numbers wrote outside the conversion
 buffers

---
 code/source/adt.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 05702cc..75c53b4 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -442,7 +442,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
         lead_digit = false;
         buf[ib++] = '0';
         do {
-            buf[ib++] = *e;
+            if (ib < zpl_size_of(buf) - 2) buf[ib++] = *e; /* further digits are below the precision */
         } while (zpl_char_is_digit(*++e));
     } else {
         if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) { node_props = ZPL_ADT_PROPS_IS_HEX; }
@@ -452,7 +452,10 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             return ++base_str;
         }
 
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') { buf[ib++] = *e++; }
+        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') {
+            if (ib >= zpl_size_of(buf) - 4) return ++base_str; /* not a number we can represent */
+            buf[ib++] = *e++;
+        }
 
         if (*e == '.') {
             node_type = ZPL_ADT_TYPE_REAL;
@@ -460,7 +463,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             zpl_u32 step = 0;
 
             do {
-                buf[ib++] = *e;
+                if (ib < zpl_size_of(buf) - 2) buf[ib++] = *e;
                 ++step;
             } while (zpl_char_is_digit(*++e));
 
@@ -482,7 +485,10 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
         if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
             if (*e == '-') { eb = 0.1f; }
             if (!zpl_char_is_digit(*e)) { ++e; }
-            while (zpl_char_is_digit(*e)) { expbuf[expi++] = *e++; }
+            while (zpl_char_is_digit(*e)) {
+                if (expi < zpl_size_of(expbuf) - 1) expbuf[expi++] = *e;
+                ++e;
+            }
         }
 
         orig_exp = exp = (zpl_u8)zpl_str_to_i64(expbuf, NULL, 10);
@@ -496,7 +502,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             neg_zero = true;
         }
 #endif
-        while (orig_exp-- > 0) { node->integer *= (zpl_i64)eb; }
+        while (orig_exp-- > 0) { node->integer = cast(zpl_i64)(cast(zpl_u64)node->integer * cast(zpl_u64)eb); }
     } else {
         node->real = zpl_str_to_f64(buf, 0);
 
-- 
2.43.0


From b5eaeeb23ce974c7f70e5222dc18074c940cf19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:59 +0000
Subject: [PATCH 41/48] fix: array lookups took any text that is not an index
 for element 0

---
 code/source/adt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 75c53b4..57f562c 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -205,8 +205,9 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     }
     /* handle array index lookup */
     else {
-        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, NULL, 10);
-        if (idx >= 0 && idx < zpl_array_count(node->nodes)) {
+        char *idx_end = buf;
+        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, &idx_end, 10);
+        if (idx_end != buf && !*idx_end && idx >= 0 && idx < zpl_array_count(node->nodes)) {
             found_node = &node->nodes[idx];
 
             /* go deeper if uri continues */
-- 
2.43.0


From ede4ef2e6c5f751b4974ef3c0b188feb994fe31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:44 +0000
Subject: [PATCH 42/48] fix: JSON parsing ran past the end of unterminated
 texts, accepted missing values, dropped text after comments, and lost memory
 and parent links

---
 code/source/parsers/json.c | 126 ++++++++++++++++++++++++++++++-------
 1 file changed, 104 insertions(+), 22 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 5b6e675..fc5a8e8 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -29,6 +29,43 @@ do {
 
 #define zpl___ind(x) if (x > 0) zpl__json_fprintf(f, "%*r", x, ' ');
 
+/* NOTE: Nodes move while their container grows, so they are linked to their parent once the tree is complete. */
+zpl_internal void zpl__json_link(zpl_adt_node *node) {
+    if ((node->type != ZPL_ADT_TYPE_OBJECT && node->type != ZPL_ADT_TYPE_ARRAY) || !node->nodes) return;
+    for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
+        node->nodes[i].parent = node;
+        zpl__json_link(node->nodes + i);
+    }
+}
+
+static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c);
+
+/* NOTE: Puts back the characters of the text that were overwritten by terminators, so that the text can be parsed again
+   once there is enough memory. */
+zpl_internal void zpl__json_restore(zpl_adt_node *node) {
+    if (node->type == ZPL_ADT_TYPE_STRING || node->type == ZPL_ADT_TYPE_MULTISTRING) {
+        char *s = cast(char *)node->string;
+        s[zpl_strlen(s)] = s[-1];
+    } else if ((node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) && node->nodes) {
+        for (zpl_isize i = zpl_array_count(node->nodes) - 1; i >= 0; i--) zpl__json_restore(node->nodes + i);
+    }
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+    if (node->name) {
+        char *s = cast(char *)node->name, *e = s + zpl_strlen(s);
+        if (node->name_style != ZPL_ADT_NAME_STYLE_NO_QUOTES) *e = s[-1];
+        else {
+            char *p = zpl__json_trim(e + 1, false);
+            *e = *p && zpl__json_is_assign_char(*p) ? ' ' : ':';
+        }
+    }
+#endif
+}
+
+zpl_internal void zpl__json_discard(zpl_adt_node *node, zpl_u8 err_code) {
+    if (err_code == ZPL_JSON_ERROR_OUT_OF_MEMORY) zpl__json_restore(node);
+    zpl_adt_destroy_branch(node);
+}
+
 zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_u8 err_code = ZPL_JSON_ERROR_NONE;
     ZPL_ASSERT(root);
@@ -43,6 +80,8 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
 #endif
 
     zpl__json_parse_object(root, text, a, &err_code);
+    zpl__json_link(root);
+    if (err_code == ZPL_JSON_ERROR_OUT_OF_MEMORY) zpl__json_restore(root);
     return err_code;
 }
 
@@ -54,8 +93,10 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    if (!zpl_json_write(&tmp, obj, indent))
+    if (!zpl_json_write(&tmp, obj, indent)) {
+        zpl_file_close(&tmp);
         return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -69,12 +110,9 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
 do {\
 if (!zpl_array_append(x, item)) {\
     *err_code = ZPL_JSON_ERROR_OUT_OF_MEMORY;\
+    zpl__json_discard(&item, *err_code);\
     return NULL;\
 }\
-if (item.type == ZPL_ADT_TYPE_OBJECT || item.type == ZPL_ADT_TYPE_ARRAY) {\
-for (zpl_isize i = 0; i < zpl_array_count(item.nodes); i++)\
-item.nodes[i].parent = zpl_array_end(x);\
-}\
 } while (0);
 
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c) { return !!zpl_strchr(":=|", c); }
@@ -122,11 +160,19 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         if (*p == ']') {
             return p;
         }
+        else if (*p == '}' || *p == 0) {
+            ZPL_JSON_ASSERT("end of array unfulfilled");
+            *err_code = ZPL_JSON_ERROR_ARRAY_LEFT_OPEN;
+            return NULL;
+        }
 
         zpl_adt_node elem = { 0 };
         p = zpl__json_parse_value(&elem, p, a, err_code);
 
-        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code != ZPL_JSON_ERROR_NONE) {
+            zpl__json_discard(&elem, *err_code);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, elem);
 
@@ -154,12 +200,17 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     char *p = base, *b = p, *e = p;
 
     /* handle quoted strings */
-    if (!!zpl_strchr("`\"'", *p)) {
+    if (*p && !!zpl_strchr("`\"'", *p)) {
         char c = *p;
         obj->type = (c == '`') ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING;
         b = e = p + 1;
         obj->string = b;
         e = cast(char *)zpl_str_skip_literal(e, c);
+        if (!*e) {
+            ZPL_JSON_ASSERT("string left open");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
         *e = '\0', p = e + 1;
     } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
         /* handle constants */
@@ -207,10 +258,20 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         /* handle numbers */
         /* defer operation to our helper method. */
         p = zpl_adt_parse_number(obj, p);
-    } else if (!!zpl_strchr("[{", *p)) {
+        if (obj->type == ZPL_ADT_TYPE_UNINITIALISED) {
+            ZPL_JSON_ASSERT("invalid number");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
+    } else if (*p && !!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
+        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
+    } else {
+        ZPL_JSON_ASSERT("value expected");
+        *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+        return NULL;
     }
 
     return p;
@@ -219,9 +280,10 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base;
+    zpl_b32 braced = false;
 
     p = zpl__json_trim(p, false);
-    /**/ if (*p == '{') { ++p; }
+    /**/ if (*p == '{') { ++p; braced = true; }
     else if (*p == '[') { /* special case for when we call this func on an array. */
         ++p;
         obj->type = ZPL_ADT_TYPE_ARRAY;
@@ -250,7 +312,14 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
         p = zpl__json_parse_value(&node, p, a, err_code);
-        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (err_code && *err_code == ZPL_JSON_ERROR_NONE && !node.name) {
+            ZPL_JSON_ASSERT("unnamed member");
+            *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+        }
+        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) {
+            zpl__json_discard(&node, *err_code);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, node);
 
@@ -271,12 +340,18 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
             }
 #endif
             if (*p == 0) {
-                return p;
+                continue;
             }
             ++p;
         }
         p = zpl__json_trim(p, false);
     } while (*p);
+
+    if (braced) {
+        ZPL_JSON_ASSERT("object left open");
+        *err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
+        return NULL;
+    }
     return p;
 }
 
@@ -298,6 +373,12 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             e = cast(char *)zpl_str_control_skip(b, c);
             node->name = b;
 
+            if (!*e) {
+                ZPL_JSON_ASSERT("name left open");
+                *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+                return NULL;
+            }
+
             /* we can safely null-terminate here, since "e" points to the quote pair end. */
             *e++ = '\0';
         }
@@ -315,7 +396,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
         node->assign_line_width = cast(zpl_u8)(p-assign_p);
 #endif
 
-        if (*p && !zpl__json_is_assign_char(*p)) {
+        if (!*p || !zpl__json_is_assign_char(*p)) {
             ZPL_JSON_ASSERT("invalid assignment");
             *err_code = ZPL_JSON_ERROR_INVALID_ASSIGNMENT;
             return NULL;
@@ -352,17 +433,15 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     ZPL_ASSERT_NOT_NULL(base);
     char *p = base;
-    do {
+    while (*p) {
         if (zpl_str_has_prefix(p, "//")) {
-            const char *e = zpl_str_skip(p, '\n');
-            p += (e-p);
+            p = cast(char *)zpl_str_skip(p, '\n');
         }
         else if (zpl_str_has_prefix(p, "/*")) {
-            const char *e = zpl_str_skip(p+2, '*');
-            if (*e && *(e+1) == '/') {
-                e+=2; /* advance past end comment block */
-                p += (e-p);
-            }
+            char *e = p + 2;
+            while (*e && !zpl_str_has_prefix(e, "*/")) { ++e; }
+            if (!*e) { return p; } /* comment block left open */
+            p = e + 2; /* advance past end comment block */
         }
         else if (*p == '\n' && catch_newline) {
             return p;
@@ -370,8 +449,11 @@ char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
         else if (!zpl_char_is_space(*p)) {
             return p;
         }
-    } while (*p++);
-    return NULL;
+        else {
+            ++p;
+        }
+    }
+    return p;
 }
 
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
-- 
2.43.0


From 57a3e4eba4c15bd0ed1fc959e902b61aa2864011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:43 +0000
Subject: [PATCH 43/48] fix: strict number parsing took texts with a numeric
 prefix for numbers

---
 code/source/adt.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 57f562c..f190358 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -400,7 +400,12 @@ char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
     }
 
     if (p >= e) {
-        return zpl_adt_parse_number(node, base_str);
+        zpl_adt_node number = *node;
+        p = zpl_adt_parse_number(&number, base_str);
+        if (p == e && (number.type == ZPL_ADT_TYPE_INTEGER || number.type == ZPL_ADT_TYPE_REAL)) {
+            *node = number;
+            return p;
+        }
     }
 
     return base_str;
@@ -453,7 +458,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             return ++base_str;
         }
 
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') {
+        while (zpl_char_is_digit(*e) || (node_props == ZPL_ADT_PROPS_IS_HEX && (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x'))) {
             if (ib >= zpl_size_of(buf) - 4) return ++base_str; /* not a number we can represent */
             buf[ib++] = *e++;
         }
-- 
2.43.0


From bf33c4adc8e3a10e5528dfbdbf9bf7ccc397c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:43 +0000
Subject: [PATCH 44/48] fix: CSV parsing misplaced empty last cells, changed
 text after empty cells, accepted uneven rows and took numbers for column
 names

---
 code/source/parsers/csv.c | 70 +++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4a1a5b3..92f4215 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -10,19 +10,25 @@
 
 ZPL_BEGIN_C_DECLS
 
+/* NOTE: A whitespace delimiter is not to be skipped. */
+zpl_internal char *zpl__csv_trim(char *p, zpl_b32 catch_newline, char delim) {
+    while (*p && *p != delim && zpl_char_is_space(*p) && !(catch_newline && *p == '\n')) { ++p; }
+    return p;
+}
+
 zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim) {
     zpl_csv_error err = ZPL_CSV_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     ZPL_ASSERT_NOT_NULL(text);
     zpl_zero_item(root);
-    zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
+    if (zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true)) return ZPL_CSV_ERROR_INTERNAL;
     char *p = text, *b = p, *e = p;
-    zpl_isize colc = 0, total_colc = 0;
+    zpl_isize colc = 0, total_colc = -1;
 
     do {
         char d = 0;
-        p = cast(char *)zpl_str_trim(p, false);
-        if (*p == 0) break;
+        p = zpl__csv_trim(p, colc > 0, delim);
+        if (*p == 0 && colc == 0) break;
         zpl_adt_node row_item = {0};
         row_item.type = ZPL_ADT_TYPE_STRING;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -49,62 +55,47 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 return err;
             }
             *e = 0;
-            p = cast(char *)zpl_str_trim(e+1, true);
+            p = zpl__csv_trim(e+1, true, delim);
             d = *p;
 
             /* unescape escaped quotes (so that unescaped text escapes :) */
             {
                 char *ep = b;
-                do {
+                while (*ep) {
                     if (*ep == '"' && *(ep+1) == '"') {
                         zpl_memmove(ep, ep+1, zpl_strlen(ep));
                     }
                     ep++;
-                } while (*ep);
+                }
             }
         }
-        else if (*p == delim) {
+        else if (*p == delim || *p == '\n' || *p == 0) {
             d = *p;
             row_item.string = "";
         }
-        else if (*p) {
+        else {
             /* regular data */
             b = e = p;
             row_item.string = b;
             do {
                 e++;
             } while (*e && *e != delim && *e != '\n');
-            if (*e) {
-                p = cast(char *)zpl_str_trim(e, true);
-                while (zpl_char_is_space(*(e-1))) { e--; }
-                d = *p;
-                *e = 0;
-            }
-            else {
-                d = 0;
-                p = e;
-            }
-
-            /* check if number and process if so */
-            zpl_b32 skip_number = false;
-            char *num_p = b;
-            do {
-                if (!zpl_char_is_hex_digit(*num_p) && (!zpl_strchr("+-.eExX", *num_p))) {
-                    skip_number = true;
-                    break;
-                }
-            } while (*num_p++);
+            p = e;
+            d = *p;
+            while (zpl_char_is_space(*(e-1))) { e--; }
+            *e = 0;
 
-            if (!skip_number) {
-                zpl_adt_str_to_number(&row_item);
+            /* check if number and process if so, column names stay texts */
+            if (!(has_header && total_colc < 0)) {
+                zpl_adt_str_to_number_strict(&row_item);
             }
         }
 
         if (colc >= zpl_array_count(root->nodes)) {
-            zpl_adt_append_arr(root, NULL);
+            if (!zpl_adt_append_arr(root, NULL)) return ZPL_CSV_ERROR_INTERNAL;
         }
 
-        zpl_array_append(root->nodes[colc].nodes, row_item);
+        if (!zpl_array_append(root->nodes[colc].nodes, row_item)) return ZPL_CSV_ERROR_INTERNAL;
 
         if (d == delim) {
             colc++;
@@ -112,7 +103,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
         }
         else if (d == '\n' || d == 0) {
             /* check if number of rows is not mismatched */
-            if (total_colc < colc) total_colc = colc;
+            if (total_colc < 0) total_colc = colc;
             else if (total_colc != colc) {
                 ZPL_CSV_ASSERT("mismatched rows");
                 err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
@@ -121,7 +112,12 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             colc = 0;
             if (d != 0) p++;
         }
-    } while(*p);
+        else {
+            ZPL_CSV_ASSERT("unexpected text after a quoted string");
+            err = ZPL_CSV_ERROR_INTERNAL;
+            return err;
+        }
+    } while (*p || colc > 0);
 
     if (zpl_array_count(root->nodes) == 0) {
         ZPL_CSV_ASSERT("unexpected end of input. stream is empty.");
@@ -139,6 +135,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
         }
     }
 
+    zpl__adt_relink(root, 0, zpl_array_count(root->nodes));
     return err;
 }
 void zpl_csv_free(zpl_csv_object *obj) {
@@ -214,7 +211,8 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
     zpl_csv_write_delimiter(&tmp, obj, delimiter);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From d03c524f25daae1fa52abab38f95280a55584c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:56 +0000
Subject: [PATCH 45/48] fix: URI decoding overflowed its buffer and read past
 texts ending in a percent sign; the base was written as a format string

---
 code/source/parsers/uri.c | 49 +++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 846b84f..6a2aa6b 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -3,40 +3,31 @@
 ZPL_BEGIN_C_DECLS
 
 void zpl__uri_decode_str(char *text) {
-    char buf[ZPL_PRINTF_MAXLEN] = {0}, *p = buf;
-    char *tp = text;
-    
-    char ch = -1;
+    char *p = text, *tp = text;
+
+    /* the decoded text is never longer than the encoded one */
     while (*tp) {
-        ch = *tp++;
-        
-        if (ch != '%') {
-            if (ch == '+') {
-                *(p++) = ' ';
-            } else {
-                *(p++) = ch;
-            }
-        } else {
-            char hex[3] = {0};
-            hex[0] = tp[0];
-            hex[1] = tp[1];
-            char b = (char)zpl_str_to_i64(hex, NULL, 16);
-            *(p++) = b;
+        char ch = *tp++;
+
+        if (ch == '+') {
+            *p++ = ' ';
+        } else if (ch == '%' && zpl_char_is_hex_digit(tp[0]) && zpl_char_is_hex_digit(tp[1])) {
+            *p++ = (char)(zpl_hex_digit_to_int(tp[0]) * 16 + zpl_hex_digit_to_int(tp[1]));
             tp += 2;
+        } else {
+            *p++ = ch;
         }
     }
-    
-    zpl_strcpy(text, buf);
-    text[p-buf] = 0;
+
+    *p = 0;
 }
 
 zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
     zpl_u8 err_code = ZPL_URI_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     zpl_zero_item(root);
-    zpl_adt_set_obj(root, NULL, a);
-    if (origin)
-        zpl_adt_append_str(root, "__zpl_origin__", origin);
+    if (zpl_adt_set_obj(root, NULL, a)) return ZPL_URI_ERROR_INTERNAL;
+    if (origin && !zpl_adt_append_str(root, "__zpl_origin__", origin)) return ZPL_URI_ERROR_INTERNAL;
     return err_code;
 }
 
@@ -47,7 +38,7 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_zero_item(root);
     text = (char *)zpl_str_trim(text, false);
     
-    zpl_adt_set_obj(root, NULL, a);
+    if (zpl_adt_set_obj(root, NULL, a)) return ZPL_URI_ERROR_INTERNAL;
     
     char *p = text, *b = p;
 
@@ -61,7 +52,7 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         char c = *p;
         *p = 0;
 
-        zpl_adt_append_str(root, "__zpl_origin__", b);
+        if (!zpl_adt_append_str(root, "__zpl_origin__", b)) return ZPL_URI_ERROR_INTERNAL;
         
         if (!c) {
             // NOTE(zaklaus): URI has no query params, bail
@@ -94,9 +85,11 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
             field_value = b;
             zpl__uri_decode_str(field_value);
             zpl_adt_node *obj = zpl_adt_append_str(root, field_name, field_value);
+            if (!obj) return ZPL_URI_ERROR_INTERNAL;
             zpl_adt_str_to_number_strict(obj);
         } else {
             zpl_adt_node *obj = zpl_adt_append_flt(root, field_name, 1);
+            if (!obj) return ZPL_URI_ERROR_INTERNAL;
             obj->props = ZPL_ADT_PROPS_TRUE;
         }
         
@@ -148,7 +141,7 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
         if (origin) {
-            zpl_fprintf(f, origin->string);
+            zpl_fprintf(f, "%s", origin->string);
         }
     }
     
@@ -185,7 +178,7 @@ void zpl_uri_free(zpl_adt_node *obj) {
 
 zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a)) return NULL;
     zpl_uri_write(&tmp, obj);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From 74652a1e1e1b462f54d82c93cbd3245786fe101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:42 +0000
Subject: [PATCH 46/48] fix: option parsing read past the arguments and their
 terminators, ignored text after option names, leaked repeated values and lost
 moved positional entries

---
 code/source/opts.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index bd4bf43..c9374ce 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -42,7 +42,14 @@ void zpl_opts_add(zpl_opts *opts, char const *name, char const *lname, const cha
     e.met = false;
     e.pos = false;
 
+    // NOTE: appending might move the entries, the positionals have to follow them
+    zpl_uintptr old_base = (zpl_uintptr)opts->entries;
     zpl_array_append(opts->entries, e);
+
+    for (zpl_isize i = 0; i < zpl_array_count(opts->positioned); ++i) {
+        zpl_uintptr offset = (zpl_uintptr)opts->positioned[i] - old_base;
+        opts->positioned[i] = (zpl_opts_entry *)((zpl_u8 *)opts->entries + offset);
+    }
 }
 
 zpl_opts_entry *zpl__opts_find(zpl_opts *opts, char const *name, zpl_usize len, zpl_b32 longname) {
@@ -93,6 +100,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
 
     switch (t->type) {
         case ZPL_OPTS_STRING: {
+            if (t->text) { zpl_string_free(t->text); }
             t->text = zpl_string_make(opts->alloc, b);
         } break;
 
@@ -106,7 +114,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
     }
 
     for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
-        if (!zpl_strcmp(opts->positioned[i]->lname, t->lname)) {
+        if (opts->positioned[i] == t) {
             zpl_array_remove_at(opts->positioned, i);
             break;
         }
@@ -124,7 +132,7 @@ zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
 void zpl_opts_print_help(zpl_opts *opts) {
     zpl_printf("USAGE: %s", opts->appname);
 
-    for (zpl_isize i = zpl_array_count(opts->entries); i >= 0; --i) {
+    for (zpl_isize i = zpl_array_count(opts->entries) - 1; i >= 0; --i) {
         zpl_opts_entry *e = opts->entries + i;
 
         if (e->pos == (zpl_b32) true) { zpl_printf(" [%s]", e->lname); }
@@ -204,11 +212,11 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
 
                         b = e = e + 1;
                     } else if (*e == '\0') {
-                        char *sp = argv[i+1];
+                        char *sp = (i+1 < argc) ? argv[i+1] : NULL;
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
-                                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_EXTRA_VALUE);
+                                zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
                                 had_errors = true;
                                 continue;
                             }
@@ -225,9 +233,12 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
                             t->met = true;
                             continue;
                         }
+                    } else {
+                        zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_OPTION);
+                        had_errors = true;
+                        continue;
                     }
 
-                    e = cast(char *)zpl_str_control_skip(e, '\0');
                     zpl__opts_set_value(opts, t, b);
                 } else {
                     zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_OPTION);
-- 
2.43.0


From 8e80214ae63d5f5097226603a6c0db161240ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:53 +0000
Subject: [PATCH 47/48] fix: a job worker starting its job overwrote the
 request to terminate and never stopped

---
 code/source/jobs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index d402475..a659a2b 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -21,7 +21,10 @@ zpl_isize zpl__jobs_entry(struct zpl_thread *thread) {
 
         switch (status) {
             case ZPL_JOBS_STATUS_READY: {
-                zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_BUSY);
+                // NOTE: the pool might have asked us to terminate in the meantime
+                if (zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_READY, ZPL_JOBS_STATUS_BUSY) != ZPL_JOBS_STATUS_READY) {
+                    break;
+                }
                 tw->job.proc(tw->job.data);
                 zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_BUSY, ZPL_JOBS_STATUS_WAITING);
 
-- 
2.43.0


From 79106826e24a506afc3c69fa27deb971c7d227c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:53 +0000
Subject: [PATCH 48/48] fix: compare-exchange through compiler builtins
 returned a success flag instead of the previous value

---
 code/source/threading/atomic.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 333b13e..e5872c5 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -346,7 +346,9 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i32 zpl_atomic32_compare_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) expected, zpl_atomicarg(zpl_i32) desired) {
-        return __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        // NOTE: the builtin leaves the previous value in expected
+        __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected;
     }
 
     zpl_i32 zpl_atomic32_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) desired) {
@@ -374,7 +376,9 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i64 zpl_atomic64_compare_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) expected, zpl_atomicarg(zpl_i64) desired) {
-        return __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        // NOTE: the builtin leaves the previous value in expected
+        __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected;
     }
 
     zpl_i64 zpl_atomic64_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) desired) {
-- 
2.43.0

