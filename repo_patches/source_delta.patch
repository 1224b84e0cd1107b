From e4759fe8b369e68d5f0cc3de0831fd412e2411c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 01/51] hook: name loops under contract (JSV_LOOP/JSV_GHOST,
 no-ops unless JSV_CONTRACTS)

---
 src/jsiCmds.c |  8 +++++---
 src/jsiInt.h  | 10 ++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 58061ec..5c9d88a 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -4204,7 +4204,8 @@ uint32_t Jsi_Crc32(uint32_t crc, const void *ptr, size_t buf_len)
     uchar *uptr = (uchar *)ptr;
     if (!uptr) return 0;
     crcu32 = ~crcu32;
-    while (buf_len--) {
+    while (buf_len--) JSV_LOOP(crc32) {
+        JSV_GHOST(crc32)
         uchar b = *uptr++;
         crcu32 = (crcu32 >> 4) ^ s_crc32[(crcu32 & 0xF) ^ (b & 0xF)];
         crcu32 = (crcu32 >> 4) ^ s_crc32[(crcu32 & 0xF) ^ (b >> 4)];
@@ -4258,7 +4259,8 @@ static void B64DecodeDStr(const char *inbuffer, int ilen, Jsi_DString *dStr)
     
     pos = 0; 
     atend = 0;
-    while (!atend) {
+    while (!atend) JSV_LOOP(b64dec) {
+        JSV_GHOST(b64dec)
         if (inbuffer[pos]=='\n' ||inbuffer[pos]=='\r') { pos++; continue; }
         c[0] = b64getidx(inbuffer, ilen, &pos);
         c[1] = b64getidx(inbuffer, ilen, &pos);
@@ -4302,7 +4304,7 @@ B64EncodeDStr(const char *ib, int ilen, Jsi_DString *dStr)
     int i=0, pos=0;
     char c[74];
     
-    while (pos<ilen) {
+    while (pos<ilen) JSV_LOOP(b64enc) {
 #define PPDCS(n,s) ((pos+n)>ilen?'=':b64ev[s])
         c[i++]=b64ev[(ib[pos]>>2)&0x3f];
         c[i++]=PPDCS(1,((ib[pos]<<4)&0x30)|((ib[pos+1]>>4)&0x0f));
diff --git a/src/jsiInt.h b/src/jsiInt.h
index 3598052..d0ace20 100644
--- a/src/jsiInt.h
+++ b/src/jsiInt.h
@@ -212,6 +212,16 @@
 #define JSI_HAS___PROTO__ 1  // Enable setting and getting prototypes. 1=set/get funcs, 2=__proto__ assign.
 #endif
 
+/* Verification hooks: loops under contract are named in place, ghost steps are marked; the contracts
+   (loop invariants, frames, variants) are supplied by the verifier when JSV_CONTRACTS is defined. */
+#ifdef JSV_CONTRACTS
+#define JSV_LOOP(id) JSV_LOOP_##id
+#define JSV_GHOST(id) JSV_GHOST_##id
+#else
+#define JSV_LOOP(id)
+#define JSV_GHOST(id)
+#endif
+
 #ifdef NDEBUG
 #define JSI_NOWARN(v) v=v
 #else
-- 
2.43.0


From 385f9d612478f59e88b570aea9845818088b2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 02/51] fix: SHA3 digests: right variant, digest length and
 padding of the last block

---
 src/jsiCrypto.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index 37c3807..a3797b3 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -583,15 +583,15 @@ static void sha256_final(jsi_SHA256_CTX *ctx, uchar hash[])
 #define SHA3_224_DIGEST_LENGTH  28
 #define SHA3_224_CBLOCK        144
 
-#define SHA3_256                 1
+#define SHA3_256                 3
 #define SHA3_256_DIGEST_LENGTH  32
 #define SHA3_256_CBLOCK        136
 
-#define SHA3_384                 2
+#define SHA3_384                 1
 #define SHA3_384_DIGEST_LENGTH  48
 #define SHA3_384_CBLOCK        104
 
-#define SHA3_512                3
+#define SHA3_512                2
 #define SHA3_512_DIGEST_LENGTH 64
 #define SHA3_512_CBLOCK        72
 
@@ -731,6 +731,7 @@ static void SHA3_Final (void* dgst, SHA3_CTX* ctx)
   // add 3 bits, Keccak uses 1
   // a lot of online implementations are using 1 instead of 6
   // since the NIST specifications haven't been finalized.
+  memset (&ctx->blk[ctx->index], 0, ctx->blklen-ctx->index);
   ctx->blk[ctx->index] = 6;
   // or the end bit
   ctx->blk[ctx->blklen-1] |= 0x80;
@@ -762,7 +763,7 @@ static int jsi_Sha3Digest(unsigned char *digest, const char *str, int len, int t
         len = Jsi_Strlen(str);
     SHA3_Update(&ctx, (unsigned char*)str, len);
     SHA3_Final(digest, &ctx);
-    return 64;
+    return ctx.dgstlen;
 }
 #endif
 
-- 
2.43.0


From a68976ebc38b58da673eeac3d7d20d0a798a2286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 03/51] hook: digest loops under contract

---
 src/jsiCrypto.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index a3797b3..168cf5c 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -41,7 +41,7 @@ static void jsi_MD5_byteReverse (unsigned char *buf, unsigned longs) {
 
 /* This is the central step in the MD5 algorithm. */
 #define _JSI_MD5STEP(f, w, x, y, z, data, s) \
-        ( w += f(x, y, z) + data,  w = w<<s | w>>(32-s),  w += x )
+        ( w += f(x, y, z) + data,  w = w<<s | w>>(32-s),  w += x JSV_GHOST(md5_step) )
 
 /*
  * The core of the MD5 algorithm, this alters an existing MD5 hash to
@@ -181,7 +181,7 @@ void jsi_MD5Update(jsi_MD5Context *pCtx, const unsigned char *buf, unsigned int
 
     /* Process data in 64-byte chunks */
 
-    while (len >= 64) {
+    while (len >= 64) JSV_LOOP(md5_upd) {
         memcpy(ctx->in, buf, 64);
         jsi_MD5_byteReverse(ctx->in, 16);
         jsi_MD5Transform(ctx->buf, (uint *)ctx->in);
@@ -282,6 +282,7 @@ void sha1_transform(jsi_SHA1_CTX *ctx, const uchar data[])
         m[i] = (m[i - 3] ^ m[i - 8] ^ m[i - 14] ^ m[i - 16]);
         m[i] = (m[i] << 1) | (m[i] >> 31);
     }
+    JSV_GHOST(sha1_w)
 
     a = ctx->state[0];
     b = ctx->state[1];
@@ -296,6 +297,7 @@ void sha1_transform(jsi_SHA1_CTX *ctx, const uchar data[])
         c = ROTLEFT(b, 30);
         b = a;
         a = t;
+        JSV_GHOST(sha1_r)
     }
     for ( ; i < 40; ++i) {
         t = ROTLEFT(a, 5) + (b ^ c ^ d) + e + ctx->k[1] + m[i];
@@ -304,6 +306,7 @@ void sha1_transform(jsi_SHA1_CTX *ctx, const uchar data[])
         c = ROTLEFT(b, 30);
         b = a;
         a = t;
+        JSV_GHOST(sha1_r)
     }
     for ( ; i < 60; ++i) {
         t = ROTLEFT(a, 5) + ((b & c) ^ (b & d) ^ (c & d))  + e + ctx->k[2] + m[i];
@@ -312,6 +315,7 @@ void sha1_transform(jsi_SHA1_CTX *ctx, const uchar data[])
         c = ROTLEFT(b, 30);
         b = a;
         a = t;
+        JSV_GHOST(sha1_r)
     }
     for ( ; i < 80; ++i) {
         t = ROTLEFT(a, 5) + (b ^ c ^ d) + e + ctx->k[3] + m[i];
@@ -320,6 +324,7 @@ void sha1_transform(jsi_SHA1_CTX *ctx, const uchar data[])
         c = ROTLEFT(b, 30);
         b = a;
         a = t;
+        JSV_GHOST(sha1_r)
     }
 
     ctx->state[0] += a;
@@ -348,7 +353,7 @@ void sha1_update(jsi_SHA1_CTX *ctx, const uchar data[], size_t len)
 {
     size_t i;
 
-    for (i = 0; i < len; ++i) {
+    for (i = 0; i < len; ++i) JSV_LOOP(sha1_upd) {
         ctx->data[ctx->datalen] = data[i];
         ctx->datalen++;
         if (ctx->datalen == 64) {
@@ -458,6 +463,7 @@ static void sha256_transform(jsi_SHA256_CTX *ctx, const uchar data[])
         m[i] = (data[j] << 24) | (data[j + 1] << 16) | (data[j + 2] << 8) | (data[j + 3]);
     for ( ; i < 64; ++i)
         m[i] = SIG1(m[i - 2]) + m[i - 7] + SIG0(m[i - 15]) + m[i - 16];
+    JSV_GHOST(sha256_w)
 
     a = ctx->state[0];
     b = ctx->state[1];
@@ -479,6 +485,7 @@ static void sha256_transform(jsi_SHA256_CTX *ctx, const uchar data[])
         c = b;
         b = a;
         a = t1 + t2;
+        JSV_GHOST(sha256_r)
     }
 
     ctx->state[0] += a;
@@ -509,7 +516,7 @@ static void sha256_update(jsi_SHA256_CTX *ctx, const uchar data[], size_t len)
 {
     uint i;
 
-    for (i = 0; i < len; ++i) {
+    for (i = 0; i < len; ++i) JSV_LOOP(sha256_upd) {
         ctx->data[ctx->datalen] = data[i];
         ctx->datalen++;
         if (ctx->datalen == 64) {
@@ -699,6 +706,7 @@ static void SHA3_Transform (SHA3_CTX *ctx)
     
     //  Iota
     st[0] ^= keccakf_rndc[round];
+    JSV_GHOST(sha3_r)
   }
 }
 
@@ -710,6 +718,7 @@ static void SHA3_Update (SHA3_CTX* ctx, void *in, size_t len) {
   idx = ctx->index;
   
   do {
+    JSV_GHOST(sha3_upd)
     r = ctx->blklen - idx;
     if (len<r)
         r = len;
-- 
2.43.0


From 7d5b317d25102f5b1ef93e0d2eaf3f3da2eed211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 04/51] hook: digest round ghosts

---
 src/jsiCrypto.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index 168cf5c..479b1b3 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -297,7 +297,7 @@ void sha1_transform(jsi_SHA1_CTX *ctx, const uchar data[])
         c = ROTLEFT(b, 30);
         b = a;
         a = t;
-        JSV_GHOST(sha1_r)
+        JSV_GHOST(sha1_r0)
     }
     for ( ; i < 40; ++i) {
         t = ROTLEFT(a, 5) + (b ^ c ^ d) + e + ctx->k[1] + m[i];
@@ -306,7 +306,7 @@ void sha1_transform(jsi_SHA1_CTX *ctx, const uchar data[])
         c = ROTLEFT(b, 30);
         b = a;
         a = t;
-        JSV_GHOST(sha1_r)
+        JSV_GHOST(sha1_r1)
     }
     for ( ; i < 60; ++i) {
         t = ROTLEFT(a, 5) + ((b & c) ^ (b & d) ^ (c & d))  + e + ctx->k[2] + m[i];
@@ -315,7 +315,7 @@ void sha1_transform(jsi_SHA1_CTX *ctx, const uchar data[])
         c = ROTLEFT(b, 30);
         b = a;
         a = t;
-        JSV_GHOST(sha1_r)
+        JSV_GHOST(sha1_r2)
     }
     for ( ; i < 80; ++i) {
         t = ROTLEFT(a, 5) + (b ^ c ^ d) + e + ctx->k[3] + m[i];
@@ -324,7 +324,7 @@ void sha1_transform(jsi_SHA1_CTX *ctx, const uchar data[])
         c = ROTLEFT(b, 30);
         b = a;
         a = t;
-        JSV_GHOST(sha1_r)
+        JSV_GHOST(sha1_r3)
     }
 
     ctx->state[0] += a;
@@ -677,6 +677,7 @@ static void SHA3_Transform (SHA3_CTX *ctx)
   
   for (round = 0; round < ctx->rounds; round++) 
   {
+    JSV_GHOST(sha3_rh)
     // Theta
     for (i = 0; i < 5; i++)     
     bc[i] = st[i] ^ st[i + 5] ^ st[i + 10] ^ st[i + 15] ^ st[i + 20];
-- 
2.43.0


From a1107b38b5d242b6be1b871146bc6ddac099c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 05/51] hook: XXTEA rounds

---
 src/jsiCrypto.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index 479b1b3..637b2c4 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -873,14 +873,19 @@ static void jsi_btea(uint32_t *v, int n, uint32_t const key[8]) {
         sum = 0;
         z = v[n-1];
         do {
+            JSV_GHOST(btea_eo)
             sum += DELTA;
             e = (sum >> 2) & 7;
             for (p=0; p<(uint)(n-1); p++) {
+                JSV_GHOST(btea_ei)
                 y = v[p+1];
                 z = v[p] += _JSI_XXTEA_MX;
+                JSV_GHOST(btea_ei2)
             }
+            JSV_GHOST(btea_el)
             y = v[0];
             z = v[n-1] += _JSI_XXTEA_MX;
+            JSV_GHOST(btea_el2)
         } while (--rounds);
     } else if (n < -1) {  /* Decoding Part */
         n = -n;
@@ -888,13 +893,18 @@ static void jsi_btea(uint32_t *v, int n, uint32_t const key[8]) {
         sum = rounds*DELTA;
         y = v[0];
         do {
+            JSV_GHOST(btea_do)
             e = (sum >> 2) & 7;
             for (p=n-1; p>0; p--) {
+                JSV_GHOST(btea_di)
                 z = v[p-1];
                 y = v[p] -= _JSI_XXTEA_MX;
+                JSV_GHOST(btea_di2)
             }
+            JSV_GHOST(btea_dl)
             z = v[n-1];
             y = v[0] -= _JSI_XXTEA_MX;
+            JSV_GHOST(btea_dl2)
             sum -= DELTA;
         } while (--rounds);
     }
-- 
2.43.0


From 5acbaa4a92810d8955a5cb5189b65ac3cfb971ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 06/51] fix: Jsi_Encrypt: pad byte of a cipher text is unsigned
 (negative pad exposed uninitialised bytes)

---
 src/jsiCrypto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiCrypto.c b/src/jsiCrypto.c
index 637b2c4..fb44bb3 100644
--- a/src/jsiCrypto.c
+++ b/src/jsiCrypto.c
@@ -919,7 +919,7 @@ Jsi_RC Jsi_Encrypt(Jsi_Interp *interp, Jsi_DString *inout, const char *key, uint
     if (nlen<2)
         goto badlen;
     if (decrypt) {
-        pad = (uint)buf[--nlen];
+        pad = (uchar)buf[--nlen];
         Jsi_DSSetLength(inout, nlen);
     } else {
         while (nlen%4) {
-- 
2.43.0


From b25e8ba0cb89abea9b44e1d6d55bc4f84393de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 07/51] fix: Jsi_DSPrintf/Jsi_DSSetLength: length and
 terminator kept for long or directly formatted output

---
 src/jsiDString.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 7335fe7..da356f6 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -159,28 +159,33 @@ Jsi_DSPrintf(Jsi_DString *dsPtr, const char *fmt, ...)
     }
     va_start(argList, fmt);
     n = vsnprintf(bPtr, bsiz, fmt, argList);
-    if ((n+len)>JSI_MAX_ALLOC_BUF) {
+    va_end(argList);
+    if (n>JSI_MAX_ALLOC_BUF || (n+len)>JSI_MAX_ALLOC_BUF) {
         LogError("vsnprintf error: rc=%d, len=%d", n, len);
-        va_end(argList);
+        dstr[len] = 0;
         return dstr;
     }
     if (n >= bsiz) {
         uint m = len+n+1;
         if (Jsi_DSSetLength(dsPtr, m) < m) {
-            va_end(argList);
-            return jsi_DSValue(dsPtr);
+            dstr = jsi_DSValue(dsPtr);
+            dstr[len] = 0;
+            return dstr;
         }
         dstr = jsi_DSValue(dsPtr);
-        m = vsnprintf(dstr+len, len+1, fmt, argList);
+        va_start(argList, fmt);
+        m = vsnprintf(dstr+len, n+1, fmt, argList);
+        va_end(argList);
         if (m != n) {
             LogError("len mismatch: %d != %d",  m, n);
-            va_end(argList);
+            dstr[len] = 0;
             return dstr;
         }
-    } else if (needAppend) {
+        dsPtr->len += n;
+    } else if (needAppend)
         Jsi_DSAppendLen(dsPtr, buf, n);
-    }
-    va_end(argList);
+    else
+        dsPtr->len += n;
     return jsi_DSValue(dsPtr);
 }
 
@@ -207,7 +212,7 @@ uint Jsi_DSSetLength(Jsi_DString *dsPtr, uint length)
                 LogError("malloc failed %d", dsPtr->spaceAvl+1);
                 return -1;
             }
-            if (isStatic && dsPtr->len>0)
+            if (isStatic)
                 memcpy(newString, dsPtr->Str, (size_t) (dsPtr->len+1));
             dsPtr->strA = newString;
         }
-- 
2.43.0


From ceac33eaed59baf0a55a3e20f9db6987f4a9746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 08/51] fix: Jsi_DSAppendLen dropped data once doubling the
 buffer passed the allocation limit

---
 src/jsiDString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index da356f6..316b494 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -100,7 +100,7 @@ char *Jsi_DSAppendLen(Jsi_DString *dsPtr, const char *string, int length)
         uint nsiz = length + len+1;
     
         if (nsiz >= dsPtr->spaceAvl) {
-            if (nsiz < dsPtr->spaceAvl*2)
+            if (nsiz < dsPtr->spaceAvl*2 && dsPtr->spaceAvl*2 < JSI_MAX_ALLOC_BUF)
                 nsiz = dsPtr->spaceAvl*2;
             if (Jsi_DSSetLength(dsPtr, nsiz) < nsiz)
                 return jsi_DSValue(dsPtr);
-- 
2.43.0


From 751fd582ed22adc1b263b144153e7dbded4f78ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 09/51] fix: Jsi_DString initialised from a long literal
 recorded more space than it owns

---
 src/jsiDString.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiDString.c b/src/jsiDString.c
index 316b494..2e96e04 100644
--- a/src/jsiDString.c
+++ b/src/jsiDString.c
@@ -38,8 +38,10 @@ static void jsi_DsDoInit(Jsi_DString *dsPtr) {
         if ((dsPtr->len = Jsi_Strlen(dsPtr->strA))<dsPtr->spaceAvl) {
             Jsi_Strcpy(dsPtr->Str, dsPtr->strA);
             dsPtr->strA = NULL;
-        } else
+        } else {
             dsPtr->strA = Jsi_Strdup(dsPtr->strA);
+            dsPtr->spaceAvl = dsPtr->len;
+        }
     } else 
         dsPtr->len = Jsi_Strlen(dsPtr->Str);
 }
-- 
2.43.0


From 23b8b3d49551455de2cd1f7bd16d663c3d7f02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 10/51] fix: Jsi_UtfSubstr: substring of multi-byte text
 included bytes of the next characters

---
 src/jsiUtf8.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index c7e3b05..cce5a41 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -103,7 +103,7 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
     ustart = n;
     ulen = len;
 #else
-    int m, e, l;
+    int m, e;
     ulen = ustart = 0;
     m = Jsi_UtfIndexToOffset(str, n);
     if (m>=0) {
@@ -112,11 +112,9 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
             ulen = Jsi_Strlen(str+m);
         } else {
             e = Jsi_UtfIndexToOffset(str+m, len);
-            l = Jsi_NumUtfBytes(str[m]);
-            if (l<0) l = 1;
-            if (e>=0 && l>0) {
+            if (e>=0) {
                 ustart = m;
-                ulen = e+l-1;
+                ulen = e;
             }
         }
     }
-- 
2.43.0


From 3406c1843b0ebe3caeb570ade973bf09a92a8039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 11/51] hook: UTF-8 loops

---
 src/jsiUtf8.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index cce5a41..445372a 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -55,13 +55,14 @@ uint Jsi_NumUtfChars(const char *s, int length) {
 #else
     uint i = 0;
     if (length<0) {
-        while (*s)
+        while (*s) JSV_LOOP(utf_cnt0)
             if ((*s++ & 0xc0) != 0x80)
                 i++;
         return i;
     }
     const char *so = s;
-    while (1) {
+    while (1) JSV_LOOP(utf_cnt) {
+        JSV_GHOST(utf_cnt)
         if ((*s++ & 0xc0) != 0x80)
             i++;
         if ((s-so)>=length)
@@ -97,7 +98,7 @@ char* Jsi_UtfSubstr(const char *str, int bLen, int n, int len, Jsi_DString *dStr
         int lenofa = Jsi_NumUtfChars(str, -1);
         if (lenofa<=0)
             return Jsi_DSValue(dStr);
-        while (n < 0) n += lenofa;
+        while (n < 0) JSV_LOOP(utf_neg) n += lenofa;
     }
 #if !JSI__UTF8
     ustart = n;
@@ -135,8 +136,9 @@ int Jsi_UtfIndexToOffset(const char *str, int index)
     return index;
 #else
     const char *s = str;
-    while (index-- && *s) {
+    while (index-- && *s) JSV_LOOP(utf_i2o) {
         int c;
+        JSV_GHOST(utf_i2o)
         if (*s&0x80)
             s += Jsi_UtfToUniChar(s, &c);
         else
@@ -153,8 +155,9 @@ const char* Jsi_UtfAtIndex(const char *str, int index)
     return (index<slen?str+index:NULL);
 #else
     const char *s = str;
-    while (index-- && *s) {
+    while (index-- && *s) JSV_LOOP(utf_at) {
         int c;
+        JSV_GHOST(utf_at)
         if (*s&0x80)
             s += Jsi_UtfToUniChar(s, &c);
         else
-- 
2.43.0


From 393c94d63c606ce3c4c53ac1e1bf9744e224632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 12/51] fix: case conversion dropped a final multi-byte
 character and skipped bytes after an invalid one

---
 src/jsiString.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index c8bd24d..b339603 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -399,10 +399,10 @@ char *jsi_utf_tocase(const char *cp, int blen, int upper, Jsi_DString *dsPtr)
 #if JSI__UTF8
         if (*cp&0x80) {
             int32_t c;
-            Jsi_UtfToUniChar(cp, &c);
-            int n = Jsi_UniCharToUtf(c, unibuf);
-            if ((m+n)>=blen)
+            int n = Jsi_UtfToUniChar(cp, &c);
+            if ((m+n)>blen)
                 break;
+            memcpy(unibuf, cp, n);
             unibuf[n] = 0;
             cp += n;
             m += n;
-- 
2.43.0


From 2fe01ae2249df3c3231f53c4eef8eaf6a3586f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 13/51] fix: negative substring start on an empty string looped
 forever

---
 src/jsiChar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index 25457a0..422996b 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -86,6 +86,7 @@ empty:
     
     if (alen<0)
         alen = Jsi_Strlen(a);
+    if (alen<=0) goto empty;
     while (start < 0) start += alen;
     if (start >= alen) goto empty;
     
-- 
2.43.0


From 8d6890f37ade1976a338dfe072042c3e841f5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 14/51] hook: case conversion loop

---
 src/jsiString.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiString.c b/src/jsiString.c
index b339603..6947541 100644
--- a/src/jsiString.c
+++ b/src/jsiString.c
@@ -395,7 +395,8 @@ char *jsi_utf_tocase(const char *cp, int blen, int upper, Jsi_DString *dsPtr)
 {
     char unibuf[10];
     int m = 0;
-    while (m<blen && *cp) {
+    while (m<blen && *cp) JSV_LOOP(utf_case) {
+        JSV_GHOST(utf_case)
 #if JSI__UTF8
         if (*cp&0x80) {
             int32_t c;
-- 
2.43.0


From 2c2555659c015ea4ff33f34966415f1eab5efde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 15/51] hook: UTF-8 count

---
 src/jsiUtf8.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiUtf8.c b/src/jsiUtf8.c
index 445372a..287c40b 100644
--- a/src/jsiUtf8.c
+++ b/src/jsiUtf8.c
@@ -55,9 +55,11 @@ uint Jsi_NumUtfChars(const char *s, int length) {
 #else
     uint i = 0;
     if (length<0) {
-        while (*s) JSV_LOOP(utf_cnt0)
+        while (*s) JSV_LOOP(utf_cnt0) {
+            JSV_GHOST(utf_cnt0)
             if ((*s++ & 0xc0) != 0x80)
                 i++;
+        }
         return i;
     }
     const char *so = s;
-- 
2.43.0


From 2bdefd032eb9208228cdf5d179bbf0e7fcff4ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 16/51] fix: hash tables with STRINGKEY keys lost entries on
 growing and on delete

---
 src/jsiHash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index 6f09d95..e3221d9 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -371,7 +371,7 @@ RebuildTable(Jsi_Hash *tablePtr)
     tablePtr->mask = tablePtr->numBuckets - 1;
 
  
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
 
         for (oldChainPtr = oldBuckets; oldChainPtr < endPtr; oldChainPtr++) {
             for (hPtr = *oldChainPtr; hPtr != NULL; hPtr = nextPtr) {
@@ -459,7 +459,7 @@ Jsi_HashEntryDelete(Jsi_HashEntry *entryPtr)
 #endif
     if (tablePtr->opts.lockHashProc && (*tablePtr->opts.lockHashProc)(tablePtr, 1) != JSI_OK)
         return 0;
-    if (tablePtr->keyType == JSI_KEYS_ONEWORD) {
+    if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
         hindex = RANDOM_INDEX(tablePtr, (const void *)entryPtr->hval);
     } else {
         hindex = (entryPtr->hval & tablePtr->mask);
-- 
2.43.0


From cd617cbc045cbad94322b1bd33086d12b1ace2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 17/51] fix: Jsi_HashClear left a freed bucket array and a
 stale entry count behind

---
 src/jsiHash.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index e3221d9..ceadc42 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -513,7 +513,14 @@ Jsi_HashClear(Jsi_Hash *tablePtr)
     
     if (tablePtr->buckets != tablePtr->staticBuckets) {
         Jsi_Free(tablePtr->buckets);
+        tablePtr->buckets = tablePtr->staticBuckets;
+        memset(tablePtr->staticBuckets, 0, sizeof(tablePtr->staticBuckets));
+        tablePtr->numBuckets = JSI_SMALL_HASH_TABLE;
+        tablePtr->rebuildSize = JSI_SMALL_HASH_TABLE * REBUILD_MULTIPLIER;
+        tablePtr->downShift = DOWNSHIFT_START;
+        tablePtr->mask = (jsi_Hash)(tablePtr->numBuckets - 1);
     }
+    tablePtr->numEntries = 0;
     if (tablePtr->opts.lockHashProc)
         (*tablePtr->opts.lockHashProc)(tablePtr, 0);
 }
-- 
2.43.0


From c68b4941f65361593bff841e2575da17aa693717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 18/51] hook: hash map loops

---
 src/jsiHash.c | 57 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index ceadc42..df549dc 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -45,8 +45,10 @@ HashString( const char *string)
 {
     jsi_Hash result = 0;
     jsi_Hash c;
-    while ((c = *string++) != 0)
+    while ((c = *string++) != 0) JSV_LOOP(hash_str) {
+        JSV_GHOST(hash_str)
         result += (result << 3) + c;
+    }
 
     return (jsi_Hash)result;
 }
@@ -65,11 +67,13 @@ HashStringFind( Jsi_Hash *tablePtr, const void *key)
      */
 
     for (hPtr = tablePtr->buckets[hindex]; hPtr != NULL;
-            hPtr = hPtr->nextPtr) {
+            hPtr = hPtr->nextPtr) JSV_LOOP(hash_chain) {
+        JSV_GHOST(hash_chain)
         if (hPtr->hval == hval) {
             const char *p1, *p2;
 
-            for (p1 = (char*)key, p2 = hPtr->key.string; ; p1++, p2++) {
+            for (p1 = (char*)key, p2 = hPtr->key.string; ; p1++, p2++) JSV_LOOP(hash_cmp) {
+                JSV_GHOST(hash_cmp)
                 if (*p1 != *p2) {
                     break;
                 }
@@ -94,11 +98,13 @@ HashStringCreate( Jsi_Hash *tablePtr, const void *key, bool *newPtr)
     hindex = hval & tablePtr->mask;
 
     for (hPtr = tablePtr->buckets[hindex]; hPtr != NULL;
-            hPtr = hPtr->nextPtr) {
+            hPtr = hPtr->nextPtr) JSV_LOOP(hash_chain) {
+        JSV_GHOST(hash_chain)
         if (hPtr->hval == hval) {
             const char *p1, *p2;
 
-            for (p1 = (const char*)key, p2 = hPtr->key.string; ; p1++, p2++) {
+            for (p1 = (const char*)key, p2 = hPtr->key.string; ; p1++, p2++) JSV_LOOP(hash_cmp) {
+                JSV_GHOST(hash_cmp)
                 if (*p1 != *p2) {
                     break;
                 }
@@ -211,7 +217,8 @@ HashOneWordFind( Jsi_Hash *tablePtr,  const void *key)
      * Search all of the entries in the appropriate bucket.
      */
     for (hPtr = tablePtr->buckets[hindex]; hPtr != NULL;
-        hPtr = hPtr->nextPtr) {
+        hPtr = hPtr->nextPtr) JSV_LOOP(hash_chain) {
+        JSV_GHOST(hash_chain)
     if (hPtr->key.oneWordValue == key) {
         return hPtr;
     }
@@ -230,7 +237,8 @@ HashOneWordCreate( Jsi_Hash *tablePtr, const void *key, bool *newPtr)
 
 
     for (hPtr = tablePtr->buckets[hindex]; hPtr != NULL;
-        hPtr = hPtr->nextPtr) {
+        hPtr = hPtr->nextPtr) JSV_LOOP(hash_chain) {
+        JSV_GHOST(hash_chain)
         if (hPtr->key.oneWordValue == key) {
             if (newPtr)
                 *newPtr = 0;
@@ -265,7 +273,8 @@ jsi_HashArray(const void *key, size_t length )
     unsigned int result = 0;
     int i;
 
-     for (i=0 ; i<(int)length; i++) {
+     for (i=0 ; i<(int)length; i++) JSV_LOOP(hash_arr) {
+        JSV_GHOST(hash_arr)
         result += (result<<3) + string[i];
     }
     return (jsi_Hash)result;
@@ -278,9 +287,11 @@ jsi_HashArrayFind( Jsi_Hash *tablePtr, const void *key)
     size_t hindex = hval & tablePtr->mask;
     Jsi_HashEntry *hPtr = tablePtr->buckets[hindex];
 
-    for (; hPtr != NULL; hPtr = hPtr->nextPtr)
+    for (; hPtr != NULL; hPtr = hPtr->nextPtr) JSV_LOOP(hash_chain) {
+        JSV_GHOST(hash_chain)
         if (hPtr->hval == hval && !memcmp(hPtr->key.string, key, tablePtr->keyType))
             return hPtr;
+    }
 
     return NULL;
 }
@@ -292,12 +303,14 @@ jsi_HashArrayCreate( Jsi_Hash *tablePtr,  const void *key, bool *newPtr)
     size_t size, hindex = hval & tablePtr->mask;
     Jsi_HashEntry *hPtr = tablePtr->buckets[hindex];
 
-    for (; hPtr != NULL; hPtr = hPtr->nextPtr)
+    for (; hPtr != NULL; hPtr = hPtr->nextPtr) JSV_LOOP(hash_chain) {
+        JSV_GHOST(hash_chain)
         if (hPtr->hval == hval && !memcmp(hPtr->key.string, key, tablePtr->keyType)) {
             if (newPtr)
                 *newPtr = 0;
             return hPtr;
         }
+    }
 
     /* Entry not found.  Add a new one to the bucket. */
     if (newPtr)
@@ -373,8 +386,10 @@ RebuildTable(Jsi_Hash *tablePtr)
  
     if (tablePtr->keyType == JSI_KEYS_ONEWORD || tablePtr->keyType == JSI_KEYS_STRINGKEY) {
 
-        for (oldChainPtr = oldBuckets; oldChainPtr < endPtr; oldChainPtr++) {
-            for (hPtr = *oldChainPtr; hPtr != NULL; hPtr = nextPtr) {
+        for (oldChainPtr = oldBuckets; oldChainPtr < endPtr; oldChainPtr++) JSV_LOOP(hash_rb) {
+            JSV_GHOST(hash_rb)
+            for (hPtr = *oldChainPtr; hPtr != NULL; hPtr = nextPtr) JSV_LOOP(hash_rbc) {
+            JSV_GHOST(hash_rbc)
             nextPtr = hPtr->nextPtr;
             hindex = RANDOM_INDEX(tablePtr, hPtr->key.oneWordValue);
             bucketPtr = tablePtr->buckets + hindex;
@@ -383,8 +398,10 @@ RebuildTable(Jsi_Hash *tablePtr)
             }
         }
     } else {
-        for (oldChainPtr = oldBuckets; oldChainPtr < endPtr; oldChainPtr++) {
-            for (hPtr = *oldChainPtr; hPtr != NULL; hPtr = nextPtr) {
+        for (oldChainPtr = oldBuckets; oldChainPtr < endPtr; oldChainPtr++) JSV_LOOP(hash_rb) {
+            JSV_GHOST(hash_rb)
+            for (hPtr = *oldChainPtr; hPtr != NULL; hPtr = nextPtr) JSV_LOOP(hash_rbc) {
+            JSV_GHOST(hash_rbc)
             nextPtr = hPtr->nextPtr;
             hindex = hPtr->hval & tablePtr->mask;
             bucketPtr = tablePtr->buckets + hindex;
@@ -469,7 +486,8 @@ Jsi_HashEntryDelete(Jsi_HashEntry *entryPtr)
         *bucketPtr = entryPtr->nextPtr;
         cnt++;
     } else {
-        for (prevPtr = *bucketPtr; /*empty*/; prevPtr = prevPtr->nextPtr) {
+        for (prevPtr = *bucketPtr; /*empty*/; prevPtr = prevPtr->nextPtr) JSV_LOOP(hash_del) {
+            JSV_GHOST(hash_del)
             if (prevPtr == NULL) {
                 Jsi_LogBug("malformed bucket chain in Jsi_HashEntryDelete");
             }
@@ -499,9 +517,11 @@ Jsi_HashClear(Jsi_Hash *tablePtr)
         return;
     if (tablePtr->opts.lockHashProc && (*tablePtr->opts.lockHashProc)(tablePtr, 1) != JSI_OK)
         return;
-    for (i = 0; i < (size_t)tablePtr->numBuckets; i++) {
+    for (i = 0; i < (size_t)tablePtr->numBuckets; i++) JSV_LOOP(hash_clr) {
+        JSV_GHOST(hash_clr)
         hPtr = tablePtr->buckets[i];
-        while (hPtr != NULL) {
+        while (hPtr != NULL) JSV_LOOP(hash_clrc) {
+            JSV_GHOST(hash_clrc)
             nextPtr = hPtr->nextPtr;
             if (tablePtr->opts.freeHashProc && hPtr->clientData)
                 (tablePtr->opts.freeHashProc)(tablePtr->opts.interp, hPtr, hPtr->clientData);
@@ -568,7 +588,8 @@ Jsi_HashSearchNext(Jsi_HashSearch *searchPtr)
     Jsi_Hash *tablePtr = searchPtr->tablePtr;
     int locked = 0;
     
-    while (searchPtr->nextEntryPtr == NULL) {
+    while (searchPtr->nextEntryPtr == NULL) JSV_LOOP(hash_next) {
+        JSV_GHOST(hash_next)
         if (searchPtr->nextIndex >= (size_t)tablePtr->numBuckets) {
             if (tablePtr->opts.lockHashProc && locked)
                 (*tablePtr->opts.lockHashProc)(tablePtr, 0);
-- 
2.43.0


From 182f52a3521ebfc742f3d5ee6e6dacfed2c7c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 19/51] hook: hash bucket index

---
 src/jsiHash.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jsiHash.c b/src/jsiHash.c
index df549dc..1a5cd7e 100644
--- a/src/jsiHash.c
+++ b/src/jsiHash.c
@@ -61,6 +61,7 @@ HashStringFind( Jsi_Hash *tablePtr, const void *key)
 
     hval = HashString((char *)key);
     hindex = hval & tablePtr->mask;
+    JSV_GHOST(hash_idx)
 
     /*
      * Search all of the entries in the appropriate bucket.
@@ -96,6 +97,7 @@ HashStringCreate( Jsi_Hash *tablePtr, const void *key, bool *newPtr)
 
     hval = HashString((const char*)key);
     hindex = hval & tablePtr->mask;
+    JSV_GHOST(hash_idx)
 
     for (hPtr = tablePtr->buckets[hindex]; hPtr != NULL;
             hPtr = hPtr->nextPtr) JSV_LOOP(hash_chain) {
@@ -212,6 +214,7 @@ HashOneWordFind( Jsi_Hash *tablePtr,  const void *key)
     size_t hindex;
 
     hindex = RANDOM_INDEX(tablePtr, key);
+    JSV_GHOST(hash_idx)
 
     /*
      * Search all of the entries in the appropriate bucket.
@@ -234,6 +237,7 @@ HashOneWordCreate( Jsi_Hash *tablePtr, const void *key, bool *newPtr)
     size_t hindex;
 
     hindex = RANDOM_INDEX(tablePtr, key);
+    JSV_GHOST(hash_idx)
 
 
     for (hPtr = tablePtr->buckets[hindex]; hPtr != NULL;
@@ -285,6 +289,7 @@ jsi_HashArrayFind( Jsi_Hash *tablePtr, const void *key)
 {
     jsi_Hash hval = jsi_HashArray(key, tablePtr->keyType);
     size_t hindex = hval & tablePtr->mask;
+    JSV_GHOST(hash_idx)
     Jsi_HashEntry *hPtr = tablePtr->buckets[hindex];
 
     for (; hPtr != NULL; hPtr = hPtr->nextPtr) JSV_LOOP(hash_chain) {
@@ -301,6 +306,7 @@ jsi_HashArrayCreate( Jsi_Hash *tablePtr,  const void *key, bool *newPtr)
 {
     jsi_Hash hval = jsi_HashArray(key, tablePtr->keyType);
     size_t size, hindex = hval & tablePtr->mask;
+    JSV_GHOST(hash_idx)
     Jsi_HashEntry *hPtr = tablePtr->buckets[hindex];
 
     for (; hPtr != NULL; hPtr = hPtr->nextPtr) JSV_LOOP(hash_chain) {
@@ -392,6 +398,7 @@ RebuildTable(Jsi_Hash *tablePtr)
             JSV_GHOST(hash_rbc)
             nextPtr = hPtr->nextPtr;
             hindex = RANDOM_INDEX(tablePtr, hPtr->key.oneWordValue);
+            JSV_GHOST(hash_rbi)
             bucketPtr = tablePtr->buckets + hindex;
             hPtr->nextPtr = *bucketPtr;
             *bucketPtr = hPtr;
@@ -404,6 +411,7 @@ RebuildTable(Jsi_Hash *tablePtr)
             JSV_GHOST(hash_rbc)
             nextPtr = hPtr->nextPtr;
             hindex = hPtr->hval & tablePtr->mask;
+            JSV_GHOST(hash_rbi)
             bucketPtr = tablePtr->buckets + hindex;
             hPtr->nextPtr = *bucketPtr;
             *bucketPtr = hPtr;
@@ -481,6 +489,7 @@ Jsi_HashEntryDelete(Jsi_HashEntry *entryPtr)
     } else {
         hindex = (entryPtr->hval & tablePtr->mask);
     }
+    JSV_GHOST(hash_didx)
     bucketPtr = tablePtr->buckets + hindex;
     if (*bucketPtr == entryPtr) {
         *bucketPtr = entryPtr->nextPtr;
-- 
2.43.0


From 8379aa5966b94e40c99d87df63790edb5d04e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 20/51] fix: dictionary comparison was not transitive for
 mixed-case text with characters between 'Z' and 'a'

---
 src/jsiChar.c | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/jsiChar.c b/src/jsiChar.c
index 422996b..c8f9127 100644
--- a/src/jsiChar.c
+++ b/src/jsiChar.c
@@ -250,23 +250,14 @@ Jsi_DictionaryCompare( const char *left, const char *right)
     }
     diff = UCHAR(*left) - UCHAR(*right);
     if (diff) {
-      if (isupper(UCHAR(*left)) && islower(UCHAR(*right))) {
-        diff = UCHAR(tolower(*left)) - UCHAR(*right);
-        if (diff) {
-          return diff;
-        } else if (secondaryDiff == 0) {
-          secondaryDiff = -1;
-        }
-      } else if (isupper(UCHAR(*right)) && islower(UCHAR(*left))) {
-        diff = UCHAR(*left) - UCHAR(tolower(UCHAR(*right)));
-        if (diff) {
-          return diff;
-        } else if (secondaryDiff == 0) {
-          secondaryDiff = 1;
-        }
-      } else {
-        return diff;
+      /* Fold both sides, so that characters between 'Z' and 'a' sort consistently. */
+      int lower = tolower(UCHAR(*left)) - tolower(UCHAR(*right));
+      if (lower) {
+        return lower;
+      } else if (secondaryDiff == 0) {
+        secondaryDiff = (isupper(UCHAR(*left)) ? -1 : 1);
       }
+      diff = 0;
     }
     if (*left == 0) {
       break;
-- 
2.43.0


From 32f6a744c8abfc81c226e7f00a1734aae3d9fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 21/51] fix: tree keys comparing equal although distinct
 (one-word keys truncated to int, dictionary-equal strings)

---
 src/jsiTree.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index ba250f7..f671ed7 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -264,13 +264,14 @@ static int StringPtrCompare(Jsi_Tree *treePtr, const void *key1, const void *key
 
 static int StringCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 {
-    return Jsi_DictionaryCompare((char*)key1, (char*)key2);
-    //return Jsi_Strcmp((char*)key1, (char*)key2);
+    int rc = Jsi_DictionaryCompare((char*)key1, (char*)key2);
+    return (rc ? rc : Jsi_Strcmp((char*)key1, (char*)key2)); // Distinct keys may be dictionary-equal.
 }
 
 static int OneWordCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
 {
-    return ((uintptr_t )key1 - (uintptr_t)key2);
+    uintptr_t k1 = (uintptr_t)key1, k2 = (uintptr_t)key2;
+    return (k1 < k2 ? -1 : k1 > k2);
 }
 
 static int TreeArrayCompare(Jsi_Tree *treePtr, const void *key1, const void *key2)
-- 
2.43.0


From 94c3849e6c624ed4ec1d55f570954ccd16d1cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 22/51] fix: deleting a tree node with two children moved flags
 between keys and lost nodes of struct-keyed trees

---
 src/jsiTree.c | 33 ++-------------------------------
 1 file changed, 2 insertions(+), 31 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index f671ed7..46cc742 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -595,37 +595,8 @@ int Jsi_TreeEntryDelete (Jsi_TreeEntry *entryPtr)
         return -1;
     entryPtr->treePtr->epoch++;
     if (n->left != NULL && n->right != NULL) {
-        /* swap key/values delete pred instead */
-        Jsi_TreeEntry* pred = maximum_node(n->left);
-        switch (treePtr->keyType) {
-        case JSI_KEYS_STRINGKEY:
-        case JSI_KEYS_ONEWORD: {
-            void *nv = n->value;
-            n->value = pred->value;
-            pred->value = nv;
-            nv = n->key.oneWordValue;
-            n->key.oneWordValue = pred->key.oneWordValue;
-            pred->key.oneWordValue = nv;
-            n = pred;
-            break;
-        }
-        case JSI_KEYS_STRING:
-            SwapNodes(n,pred);
-            break;
-        default: { // Struct keys have the same length so we swap bytes.
-            uint i;
-            void *nv = n->value;
-            n->value = pred->value;
-            pred->value = nv;
-            char ct, *cs = (char*)(n->key.string), *cd = (char*)(pred->key.string);
-            for (i=0; i<treePtr->keyType; i++, cs++, cd++) {
-                ct = *cd;
-                *cd = *cs;
-                *cs = ct;
-            }
-        }
-                
-        }
+        /* Swap positions with pred, then delete: nodes keep their key, value and flags. */
+        SwapNodes(n, maximum_node(n->left));
     }
     delete_one_child(n);
     cnt++;
-- 
2.43.0


From bbfa53f7006c07b68c2968f38de3f63becc02185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 23/51] fix: Jsi_TreeClear re-balanced the tree while walking
 it and left entries behind

---
 src/jsiTree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 46cc742..daa0128 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -502,8 +502,11 @@ void Jsi_TreeClear (Jsi_Tree *treePtr)
     SIGASSERTV(treePtr, TREE);
     if (treePtr->opts.lockTreeProc && (*treePtr->opts.lockTreeProc)(treePtr, 1) != JSI_OK)
         return;
+    treePtr->flags.destroyed = 1; /* No re-balancing while nodes are visited. */
     destroy_node(treePtr->opts.interp, treePtr->root);
+    treePtr->flags.destroyed = 0;
     treePtr->root = NULL;
+    treePtr->epoch++;
     if (treePtr->opts.lockTreeProc)
         (*treePtr->opts.lockTreeProc)(treePtr, 0);
 }
-- 
2.43.0


From cbebc296437314b030a9860831f8eaf2eb893514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 24/51] fix: tree search: pre-order visited entries repeatedly,
 a stack over 200 entries was dropped, pre-order flag clashed with the key
 flag

---
 src/jsi.h     |  2 +-
 src/jsiTree.c | 13 +++++--------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/jsi.h b/src/jsi.h
index bfe25a0..015583d 100644
--- a/src/jsi.h
+++ b/src/jsi.h
@@ -181,7 +181,7 @@ typedef enum {
     
     JSI_TREE_ORDER_IN=0, JSI_TREE_ORDER_PRE=0x10, JSI_TREE_ORDER_POST=0x20, // Jsi_TreeSearchFirst()
     JSI_TREE_ORDER_LEVEL=0x30, JSI_TREE_ORDER_MASK=0x30,
-    JSI_TREE_SEARCH_KEY=0x10, // Use key even if NULL
+    JSI_TREE_SEARCH_KEY=0x100, // Use key even if NULL
     JSI_TREE_USERFLAG_MASK=0x7f,
     JSI_LIST_REVERSE=0x8, // Jsi_ListSearchFirst
     JSI_MUTEX_RECURSIVE=2,
diff --git a/src/jsiTree.c b/src/jsiTree.c
index daa0128..6e283d1 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -618,14 +618,12 @@ dodel:
 static void searchSpace(Jsi_TreeSearch *searchPtr, int n)
 {
     if ((searchPtr->top+n) >= searchPtr->max) {
-        int i, cnt = (searchPtr->max *= 2);
-        if (searchPtr->Ptrs == searchPtr->staticPtrs)
+        int cnt = (searchPtr->max *= 2);
+        if (searchPtr->Ptrs == searchPtr->staticPtrs) {
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Calloc(cnt, sizeof(Jsi_TreeEntry*));
-        else
+            memcpy(searchPtr->Ptrs, searchPtr->staticPtrs, searchPtr->top*sizeof(Jsi_TreeEntry*));
+        } else
             searchPtr->Ptrs = (Jsi_TreeEntry**)Jsi_Realloc(searchPtr->Ptrs, cnt* sizeof(Jsi_TreeEntry*));
-        for (i=0; i<cnt; i++)
-            SIGINIT((searchPtr->Ptrs[i]),TREEENTRY);
-
     }
 }
 
@@ -683,10 +681,9 @@ static Jsi_TreeEntry *searchAdd(Jsi_TreeSearch *searchPtr,  Jsi_TreeEntry *hPtr)
                 if (searchPtr->top<=0) return NULL;
                 hPtr = searchPtr->Ptrs[--searchPtr->top];
             }
-            searchPtr->Ptrs[searchPtr->top++] = hPtr;
             if (hPtr->left) searchPtr->Ptrs[searchPtr->top++] = hPtr->left;
             if (hPtr->right) searchPtr->Ptrs[searchPtr->top++] = hPtr->right;
-            break;
+            return hPtr;
             
         case JSI_TREE_ORDER_IN:
             while (1) {
-- 
2.43.0


From 8dcb228717ea9c8a122f443c75a34265e0fec6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:12 +0000
Subject: [PATCH 25/51] hook: tree loops

---
 src/jsiTree.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jsiTree.c b/src/jsiTree.c
index 6e283d1..c3927ac 100644
--- a/src/jsiTree.c
+++ b/src/jsiTree.c
@@ -136,7 +136,8 @@ static void insert_case1(Jsi_TreeEntry* n) {
 
 static Jsi_TreeEntry* maximum_node(Jsi_TreeEntry* n) {
     Assert (n != NULL);
-    while (n->right != NULL) {
+    while (n->right != NULL) JSV_LOOP(tree_max) {
+        JSV_GHOST(tree_max)
         n = n->right;
     }
     return n;
@@ -374,7 +375,8 @@ Jsi_TreeEntry *Jsi_TreeEntryFind (Jsi_Tree *treePtr, const void *key)
         return NULL;
     if (treePtr->opts.lockTreeProc && (*treePtr->opts.lockTreeProc)(treePtr, 1) != JSI_OK)
         return NULL;
-    while (hPtr != NULL) {
+    while (hPtr != NULL) JSV_LOOP(tree_find) {
+        JSV_GHOST(tree_find)
         rc = treePtr->opts.compareTreeProc(treePtr, Jsi_TreeKeyGet(hPtr), key);
         if (rc == 0) {
             break;
@@ -414,7 +416,8 @@ Jsi_TreeEntry *Jsi_TreeEntryNew(Jsi_Tree *treePtr, const void *key, bool *isNew)
         treePtr->root = hPtr;
     } else {
         Jsi_TreeEntry* n = treePtr->root;
-        while (1) {
+        while (1) JSV_LOOP(tree_ins) {
+            JSV_GHOST(tree_ins)
             int rc = treePtr->opts.compareTreeProc(treePtr, Jsi_TreeKeyGet(n) , key);
             if (rc == 0) {
                 Assert(0);
-- 
2.43.0


From b95859b904db425d555a3a064395aa3fcf9f59c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:43 +0000
Subject: [PATCH 26/51] fix: Jsi_HexStr: decode flag was inverted, every hex
 string was rejected, the result length was never set

---
 src/jsiUtils.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 704bb71..d97f823 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2523,10 +2523,12 @@ void jsi_ToHexStr(const uchar *indata, int dlen, char *out) {
     out[n] = 0;
 }
 
-static int jsi_FromHexStr(const char *in, uchar *outdata) {
+static int jsi_FromHexStr(const char *in, int len, uchar *outdata) {
     int n = 0;
-    while (in[0] && in[1]) {
-        if (!isxdigit(in[0]) || isxdigit(in[0]))
+    if (len%2)
+        return -1;
+    while (n < len/2) {
+        if (!isxdigit((uchar)in[0]) || !isxdigit((uchar)in[1]))
             return -1;
         outdata[n++] = jsi_fromHexChar(in[0]) << 4 | jsi_fromHexChar(in[1]);
         in+=2;
@@ -2538,10 +2540,15 @@ static int jsi_FromHexStr(const char *in, uchar *outdata) {
 int Jsi_HexStr(const uchar *data, int len, Jsi_DString *dStr, bool decode) {
     int olen = (decode?(len/2+1):(len*2+1));
     Jsi_DSSetLength(dStr, olen);
-    if (!decode)
-        return jsi_FromHexStr((const char*)data, (uchar*)Jsi_DSValue(dStr));
-    jsi_ToHexStr((const uchar*)data, len, Jsi_DSValue(dStr));
-    return olen-1;
+    if (decode)
+        olen = jsi_FromHexStr((const char*)data, len, (uchar*)Jsi_DSValue(dStr));
+    else {
+        jsi_ToHexStr((const uchar*)data, len, Jsi_DSValue(dStr));
+        olen--;
+    }
+    dStr->len = (olen<0?0:olen);
+    Jsi_DSValue(dStr)[dStr->len] = 0;
+    return olen;
 }
 #ifndef JSI_LITE_ONLY
 
-- 
2.43.0


From ead25d406c0c299d59a231b447a1b62d6cabfc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 27/51] fix: encodeURI/decodeURI: the encoder escaped the
 unreserved characters instead of the others, the decoder dropped '%' and
 accepted non-hex escapes: decode(encode(s)) was not s

---
 src/jsiCmds.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 5c9d88a..2f217a9 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1180,9 +1180,9 @@ static char *url_encode(char *str, bool comp) {
 
   char *pstr = str, *buf = (char*)Jsi_Malloc(Jsi_Strlen(str) * 3 + 1), *pbuf = buf;
   while (*pstr) {
-    if (isalnum(*pstr) || (!Jsi_Strchr(ncomps, *pstr) && (!comp || !Jsi_Strchr(comps, *pstr))))
+    if ((*pstr & 0x80) || isalnum(*pstr) || Jsi_Strchr(ncomps, *pstr) || (!comp && Jsi_Strchr(comps, *pstr)))
       *pbuf++ = *pstr;
-    else if (*pstr == ' ') 
+    else if (comp && *pstr == ' ') 
       *pbuf++ = '+';
     else 
       *pbuf++ = '%', *pbuf++ = jsi_toHexChar(*pstr >> 4), *pbuf++ = jsi_toHexChar(*pstr & 15);
@@ -1199,7 +1199,9 @@ static char *url_decode(char *str, int *len, bool comp) {
   char cc = 0, *pstr = str, *buf = (char*)Jsi_Malloc(Jsi_Strlen(str) + 1), *pbuf = buf;
   while (*pstr) {
     if (*pstr == '%') {
-      if (pstr[1] && pstr[2]) {
+      if (!isxdigit((uchar)pstr[1]) || !isxdigit((uchar)pstr[2]))
+        *pbuf++ = '%';
+      else {
         cc = jsi_fromHexChar(pstr[1]) << 4 | jsi_fromHexChar(pstr[2]);
         if (!comp && Jsi_Strchr(comps, cc))
             *pbuf++ = '%';
@@ -1208,7 +1210,7 @@ static char *url_decode(char *str, int *len, bool comp) {
             *pbuf++ = cc;
         }
       }
-    } else if (*pstr == '+') { 
+    } else if (comp && *pstr == '+') { 
       *pbuf++ = ' ';
     } else {
       *pbuf++ = *pstr;
-- 
2.43.0


From f2ee2965deffba8cf686461bedc0899d56c161e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:18 +0000
Subject: [PATCH 28/51] hook: URL and hex loops

---
 src/jsiCmds.c  | 6 ++++--
 src/jsiUtils.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/jsiCmds.c b/src/jsiCmds.c
index 2f217a9..3db6e77 100644
--- a/src/jsiCmds.c
+++ b/src/jsiCmds.c
@@ -1179,7 +1179,8 @@ static char *url_encode(char *str, bool comp) {
   const char *ncomps = "-_.!~*'()", *comps = ";,/?:@&=+$#";
 
   char *pstr = str, *buf = (char*)Jsi_Malloc(Jsi_Strlen(str) * 3 + 1), *pbuf = buf;
-  while (*pstr) {
+  while (*pstr) JSV_LOOP(urlenc) {
+    JSV_GHOST(urlenc)
     if ((*pstr & 0x80) || isalnum(*pstr) || Jsi_Strchr(ncomps, *pstr) || (!comp && Jsi_Strchr(comps, *pstr)))
       *pbuf++ = *pstr;
     else if (comp && *pstr == ' ') 
@@ -1197,7 +1198,8 @@ static char *url_encode(char *str, bool comp) {
 static char *url_decode(char *str, int *len, bool comp) {
   const char *comps = ";,/?:@&=+$#";
   char cc = 0, *pstr = str, *buf = (char*)Jsi_Malloc(Jsi_Strlen(str) + 1), *pbuf = buf;
-  while (*pstr) {
+  while (*pstr) JSV_LOOP(urldec) {
+    JSV_GHOST(urldec)
     if (*pstr == '%') {
       if (!isxdigit((uchar)pstr[1]) || !isxdigit((uchar)pstr[2]))
         *pbuf++ = '%';
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index d97f823..85824ac 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2515,7 +2515,8 @@ char jsi_toHexChar(char code) {
 void jsi_ToHexStr(const uchar *indata, int dlen, char *out) {
     static char hex[] = "0123456789abcdef";
     int i, n=0;
-    for (i=0; i<dlen; i++) {
+    for (i=0; i<dlen; i++) JSV_LOOP(tohex) {
+        JSV_GHOST(tohex)
         int c = indata[i];
         out[n++] = hex[(c>>4)&0xf];
         out[n++] = hex[c&0xf];
@@ -2527,7 +2528,8 @@ static int jsi_FromHexStr(const char *in, int len, uchar *outdata) {
     int n = 0;
     if (len%2)
         return -1;
-    while (n < len/2) {
+    while (n < len/2) JSV_LOOP(fromhex) {
+        JSV_GHOST(fromhex)
         if (!isxdigit((uchar)in[0]) || !isxdigit((uchar)in[1]))
             return -1;
         outdata[n++] = jsi_fromHexChar(in[0]) << 4 | jsi_fromHexChar(in[1]);
-- 
2.43.0


From 46b0dfc65655ba44e572b4cc46aca903c2e61fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 29/51] fix: Jsi_NormalPath: '..' components were never removed
 (or the wrong ones), trailing '.' kept, long paths cut

---
 src/jsiFilesys.c | 82 +++++++++++++-----------------------------------
 1 file changed, 21 insertions(+), 61 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 3d38a24..2f47d33 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1200,7 +1200,6 @@ const char *jsi_GetHomeDir(Jsi_Interp *interp) {
 #endif
 }
 
-/* TODO: reconcile with NormalizeUnixPath */
 char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
     char cdbuf[PATH_MAX];
     Jsi_DSInit(dStr);
@@ -1228,72 +1227,33 @@ char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
             Jsi_DSAppend(dStr, getcwd(cdbuf, sizeof(cdbuf)), "/", path, NULL);
         }
     }
-    Jsi_DString sStr = {};
-    char *cp = Jsi_DSValue(dStr);
+    char *cp = Jsi_DSValue(dStr), *ss, *op, *start;
+    int n;
 #ifdef __WIN32
-    if (isalpha(*cp) && cp[1] == ':') {
-        /* Drive prefix for windows. */
-        Jsi_DSAppendLen(&sStr, cp, 2);
-        cp += 2;
-    }
+    if (isalpha(*cp) && cp[1] == ':')
+        cp += 2; /* Drive prefix for windows. */
 #endif
-    int i=0, n=0, m, nmax, unclean=0, slens[PATH_MAX];
-    char *ss;
-    char *sptrs[PATH_MAX];
-    while (*cp && n<PATH_MAX) {
-        while (*cp && *cp == '/') {
+    if (*cp != '/')
+        return Jsi_DSValue(dStr);
+    /* Remove //, /./ and /../ in place: op never passes cp. */
+    start = op = cp;
+    while (*cp) {
+        while (*cp == '/')
             cp++;
-            if (*cp == '/')
-                unclean = 1;
+        for (ss = cp; *ss && *ss != '/'; ss++);
+        n = ss-cp;
+        if (n == 2 && cp[0] == '.' && cp[1] == '.') {
+            while (op > start && *--op != '/');
+        } else if (n && !(n == 1 && cp[0] == '.')) {
+            *op++ = '/';
+            memmove(op, cp, n);
+            op += n;
         }
-        sptrs[n] = cp;
-        if (cp[0] == '.' && (cp[1] == '.' || cp[1] == '/'))
-            unclean = 1;
-        ss = cp++;
-        while (*ss && *ss != '/')
-            ss++;
-        slens[n++] = (ss-cp) + 1;
         cp = ss;
     }
-    if (!unclean)
-        goto done;
-    /* Need to remove //, /./, /../ */
-    nmax = n--;
-    while (n>0) {
-        if (slens[n]<=0) {
-            n--;
-            continue;
-        }
-        if (Jsi_Strncmp(sptrs[n],".",slens[n])==0)
-            slens[n] = 0;
-        else if (Jsi_Strncmp(ss,"..",slens[n])==0) {
-            int cnt = 0;
-            m = n-1;
-            while (m>=0 && cnt<1) {
-                if (slens[m])
-                    cnt++;
-                slens[m] = 0;
-                m--;
-            }
-            if (cnt<1)
-                goto done;  /* Can't fix it */
-        }
-        n--;
-    }
-    for (i=0; i<nmax; i++) {
-        if (slens[i]) {
-#ifdef __WIN32
-            Jsi_DSAppend(&sStr, "/" /*"\\"*/, NULL);
-#else
-            Jsi_DSAppend(&sStr, "/", NULL);
-#endif
-            Jsi_DSAppendLen(&sStr, sptrs[i], slens[i]);
-        }
-    }
-    Jsi_DSSetLength(dStr, 0);
-    Jsi_DSAppend(dStr, Jsi_DSValue(&sStr), NULL);
-done:
-    Jsi_DSFree(&sStr);
+    if (op == start)
+        *op++ = '/';
+    Jsi_DSSetLength(dStr, op-Jsi_DSValue(dStr));
     return Jsi_DSValue(dStr);
 }
 
-- 
2.43.0


From 3848f4daa30e51bf3daa52282bfe9f57162fa74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 30/51] fix: Jsi_Rename compared the file system of the source
 with itself

---
 src/jsiFilesys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 2f47d33..e5f90ae 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -395,7 +395,7 @@ int Jsi_Remove(Jsi_Interp *interp, Jsi_Value* path, int flags) {
 int Jsi_Rename(Jsi_Interp *interp, Jsi_Value *src, Jsi_Value *dst) {
     void *data;
     Jsi_Filesystem *fsPtr = Jsi_FilesystemForPath(interp, src, &data);
-    if (fsPtr != Jsi_FilesystemForPath(interp, src, &data)) return -1;
+    if (fsPtr != Jsi_FilesystemForPath(interp, dst, &data)) return -1;
     if (fsPtr == NULL || !fsPtr->renameProc) return -1;
     return fsPtr->renameProc(interp, src,dst);
 }
-- 
2.43.0


From 99d523acf7e453cc537d46a92e3ac535acbd4812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 31/51] fix: safe mode: resolve paths to missing files through
 links, '..' at the root and the home directory as the kernel does (writes
 escaped safeWriteDirs, long paths overflowed the stack)

---
 src/jsiFilesys.c | 115 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 74 insertions(+), 41 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index e5f90ae..69f34bc 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1275,45 +1275,69 @@ static void DeBackSlashify(char *cp) {
 
 #else
 
-static void NormalizeUnixPath(Jsi_Interp *interp, char *path) {
-    char **argv; int argc, i;
-    if (!Jsi_Strstr(path, "./")) return;
-    Jsi_DString dStr = {}, eStr = {};
-    if (path[0] != '/' && Jsi_Strstr(path, "..")) {
-        char *npath = Jsi_GetCwd(interp, &eStr);
-        if (npath && Jsi_Strcmp(npath,"/")) {
-            Jsi_DSAppend(&eStr, "/", path, NULL);
-            path = Jsi_DSValue(&eStr);
+/* Resolve a path that does not (fully) exist: links in the existing part are
+ * followed (also those whose target is missing), "." and ".." are removed.
+ * Returns out (of size PATH_MAX), or NULL if it can not be resolved. */
+static char *ResolveUnixPath(Jsi_Interp *interp, const char *path, char *out) {
+    char cand[PATH_MAX], rest[PATH_MAX], target[PATH_MAX];
+    struct stat sb;
+    int l, links = 0;
+    size_t len = Jsi_Strlen(path), olen, n, m;
+    if (len >= PATH_MAX) return NULL;
+    memcpy(rest, path, len+1);
+    path = rest;
+    if (path[0] == '/')
+        out[0] = 0;
+    else {
+        Jsi_DString cStr;
+        const char *cwd = Jsi_GetCwd(interp, &cStr);
+        n = Jsi_Strlen(cwd);
+        if (n && cwd[n-1] == '/') n--;
+        if (n < PATH_MAX) {
+            memcpy(out, cwd, n);
+            out[n] = 0;
         }
+        Jsi_DSFree(&cStr);
+        if (n >= PATH_MAX) return NULL;
     }
-    Jsi_DString sStr;
-    Jsi_DSInit(&sStr);
-    Jsi_SplitStr(path, &argc, &argv, "/", &sStr);
-    char *cp = path;
-    *cp = 0;
-    for (i=0; i<argc; i++) {
-        if (i == 0 && argv[0][0] == 0) {
-            continue;
-        } else if (argv[i][0] == 0) {
-            continue;
-        } else if (i && !Jsi_Strcmp(argv[i],".")) {
-            continue;
-        } else if (!Jsi_Strcmp(argv[i],"..")) {
-            char *pcp = Jsi_DSValue(&dStr), *lcp = pcp;
-            pcp = Jsi_Strrchr(pcp, '/');
-            if (pcp && pcp != Jsi_DSValue(&dStr)) {
-                *pcp = 0;
-                Jsi_DSSetLength(&dStr, Jsi_Strlen(lcp));
+    /* out is an absolute path in resolved form, without trailing slash */
+    while (*path) {
+        for (n=0; path[n] && path[n] != '/'; n++);
+        olen = Jsi_Strlen(out);
+        if (n == 2 && path[0] == '.' && path[1] == '.') {
+            while (olen > 0 && out[--olen] != '/');
+            out[olen] = 0;
+        } else if (n && !(n == 1 && path[0] == '.')) {
+            if (olen+n+1 >= PATH_MAX) return NULL;
+            memcpy(cand, out, olen);
+            cand[olen] = '/';
+            memcpy(cand+olen+1, path, n);
+            cand[olen+n+1] = 0;
+            if (realpath(cand, target)) {
+                m = (target[1] ? Jsi_Strlen(target) : 0);
+                memcpy(out, target, m);
+                out[m] = 0;
+            } else {
+                if (lstat(cand, &sb) == 0 && S_ISLNK(sb.st_mode)) {
+                    l = readlink(cand, target, sizeof(target)-1);
+                    m = Jsi_Strlen(path+n);
+                    if (l <= 0 || ++links > 40 || l+m >= PATH_MAX) return NULL;
+                    memmove(rest+l, path+n, m+1);
+                    memcpy(rest, target, l);
+                    path = rest;
+                    if (path[0] == '/')
+                        out[0] = 0;
+                    continue;
+                }
+                memcpy(out, cand, olen+n+2);
             }
-            continue;
-        } else {
-            Jsi_DSAppend(&dStr, (i>0?"/":""), argv[i], NULL);
         }
+        path += n;
+        if (*path) path++;
     }
-    Jsi_DSFree(&sStr);
-    Jsi_Strcpy(path, Jsi_DSValue(&dStr));
-    Jsi_DSFree(&dStr);
-    Jsi_DSFree(&eStr);
+    if (!out[0])
+        memcpy(out, "/", 2);
+    return out;
 }
 #endif
 
@@ -1338,11 +1362,15 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
     Jsi_DSInit(&dStr); Jsi_DSInit(&eStr);
     if (*path == '~') {
 #ifndef __WIN32
-        struct passwd pw, *pwp; /* TODO: could fallback to using env HOME. */
+        /* Same home directory as used by the file system procs. */
+        struct passwd pw, *pwp = NULL;
         char buf[JSI_BUFSIZ];
-        int n = getpwuid_r(getuid(), &pw, buf, sizeof(buf), &pwp);
-        const char *homedir = (n == 0 ? pwp->pw_dir : "");
-        Jsi_DSAppend(&dStr, homedir, path[1] == '/' ? "" : "/", path+1, NULL);
+        const char *homedir = NULL;
+        if (interp)
+            homedir = jsi_GetHomeDir(interp);
+        else if (getpwuid_r(getuid(), &pw, buf, sizeof(buf), &pwp) == 0 && pwp)
+            homedir = pwp->pw_dir;
+        Jsi_DSAppend(&dStr, (homedir ? homedir : ""), path[1] == '/' ? "" : "/", path+1, NULL);
 #else
         const char *homedir = getenv("HOMEPATH");
         if (!homedir) homedir = "/";
@@ -1369,13 +1397,18 @@ char *Jsi_FileRealpathStr(Jsi_Interp *interp, const char *path, char *newname)
         }
     }
     if (!apath) {
+#ifndef __WIN32
+        /* Path does not exist: resolve the part that does, and eliminate ../ and /./ */
+        char rbuf[PATH_MAX];
+        if (ResolveUnixPath(interp, npath, (newname?newname:rbuf)))
+            apath = (newname ? newname : Jsi_Strdup(rbuf));
+        Jsi_DSFree(&dStr); Jsi_DSFree(&eStr);
+        return apath;
+#else
         if (newname)
             Jsi_Strcpy(apath=newname, npath);
         else
             apath = Jsi_Strdup(npath);
-#ifndef __WIN32
-        /* If path not exists on unix we try to eliminate ../ and /./ etc.*/
-        NormalizeUnixPath(interp, apath);
 #endif
     }
 #ifdef __WIN32
-- 
2.43.0


From 0d26c34415045ea827bb5932823ecb62e96eba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 32/51] fix: File.mknod used the mode as device number

---
 src/jsiFileCmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index 17a5332..b39b648 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -402,7 +402,7 @@ static Jsi_RC FileMknodCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         return Jsi_LogError("expected numbers for arg 2 & 3");
     SAFEACCESS(fname, 1, 1)
     mode_t mode = (mode_t)m;
-    dev_t dev = (dev_t)m;
+    dev_t dev = (dev_t)d;
     if (mknod(nam, mode, dev))
         return Jsi_LogError("mknod failed: %s", strerror(errno));
     return JSI_OK;
-- 
2.43.0


From 9bc836d482145ed592c075f31d95cf2674a51bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 33/51] fix: safe mode: File.glob and
 File.exists/isfile/mtime... reached files outside safeReadDirs, '~' was
 checked as home but used literally

---
 src/jsiFileCmds.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index b39b648..ddb95f7 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -167,7 +167,10 @@ static Jsi_RC _FileSubstat(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     Jsi_StatBuf st = {}, lst = {};
     char smode[30];
     st.st_uid = -1;
-    rc = Jsi_Stat(interp, fnam, &st) | Jsi_Lstat(interp, fnam, &lst);
+    if (interp->isSafe && Jsi_InterpAccess(interp, fnam, JSI_INTACCESS_READ) != JSI_OK)
+        rc = -1;
+    else
+        rc = Jsi_Stat(interp, fnam, &st) | Jsi_Lstat(interp, fnam, &lst);
     switch (sub) {
         case FSS_Exists: Jsi_ValueMakeBool(interp, ret, (rc == 0)); break;
         case FSS_Atime: Jsi_ValueMakeNumber(interp, ret, st.st_atime); break;
@@ -300,6 +303,9 @@ static Jsi_RC FileMkdirCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     SAFEACCESS(path, 1, 1)
     if (vf)
         force = vf->d.val;
+    Jsi_DString dStr = {};
+    if (*spath == '~')
+        spath = Jsi_NormalPath(interp, spath, &dStr);
     if (force==0)
         rc = MKDIR_DEFAULT(spath);
     else {
@@ -308,8 +314,9 @@ static Jsi_RC FileMkdirCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
         Jsi_ValueFree(interp, npath);
     }
     if (rc != 0) 
-        return Jsi_LogError("can't create directory \"%s\": %s", spath, strerror(errno));    
-    return JSI_OK;
+        Jsi_LogError("can't create directory \"%s\": %s", spath, strerror(errno));    
+    Jsi_DSFree(&dStr);
+    return (rc != 0 ? JSI_ERROR : JSI_OK);
 }
 
 
@@ -324,7 +331,9 @@ static Jsi_RC FileTempfileCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_t
     if (vt && (tp = Jsi_ValueString(interp, vt, NULL))) {
         templ = tp;
     }
-    filename = Jsi_Strdup(templ);
+    Jsi_DString dStr = {};
+    filename = Jsi_Strdup(*templ == '~' ? Jsi_NormalPath(interp, templ, &dStr) : templ);
+    Jsi_DSFree(&dStr);
     if (Jsi_InterpSafe(interp)) {
         Jsi_Value *fname = Jsi_ValueNewStringConst(interp, templ, -1);
         Jsi_IncrRefCount(interp, fname);
@@ -403,7 +412,12 @@ static Jsi_RC FileMknodCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     SAFEACCESS(fname, 1, 1)
     mode_t mode = (mode_t)m;
     dev_t dev = (dev_t)d;
-    if (mknod(nam, mode, dev))
+    Jsi_DString dStr = {};
+    if (nam && *nam == '~')
+        nam = Jsi_NormalPath(interp, nam, &dStr);
+    int rc = mknod(nam, mode, dev);
+    Jsi_DSFree(&dStr);
+    if (rc)
         return Jsi_LogError("mknod failed: %s", strerror(errno));
     return JSI_OK;
 #endif
@@ -975,7 +989,8 @@ static Jsi_RC SubGlobsDirectory(Jsi_Interp *interp, Jsi_Obj* obj, Jsi_Value *reg
     if (dcp) {
         Jsi_ValueMakeString(interp, &rpPath, dcp);
     }*/
-    if ((n=Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort)) < 0) {
+    if ((interp->isSafe && Jsi_InterpAccess(interp, rpPath, JSI_INTACCESS_READ) != JSI_OK)
+        || (n=Jsi_Scandir(interp, rpPath, &namelist, 0, alphasort)) < 0) {
         if (opts->recurse && deep) goto done;
         Jsi_LogError("bad directory");
         Jsi_DecrRefCount(interp, rpPath);
-- 
2.43.0


From 5e1686f8dcd20639b5bd3f3194dcbafc19b3aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 34/51] hook: path resolution and access loops

---
 src/jsiFilesys.c | 24 +++++++++++++++++++-----
 src/jsiInterp.c  |  1 +
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 69f34bc..e739435 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1238,12 +1238,20 @@ char* Jsi_NormalPath(Jsi_Interp *interp, const char *path, Jsi_DString *dStr) {
     /* Remove //, /./ and /../ in place: op never passes cp. */
     start = op = cp;
     while (*cp) {
-        while (*cp == '/')
+        JSV_GHOST(norm_comp)
+        while (*cp == '/') {
+            JSV_GHOST(norm_skip)
             cp++;
-        for (ss = cp; *ss && *ss != '/'; ss++);
+        }
+        for (ss = cp; *ss && *ss != '/'; ss++) {
+            JSV_GHOST(norm_scan)
+        }
+        JSV_GHOST(norm_scanned)
         n = ss-cp;
         if (n == 2 && cp[0] == '.' && cp[1] == '.') {
-            while (op > start && *--op != '/');
+            while (op > start && *--op != '/') {
+                JSV_GHOST(norm_pop)
+            }
         } else if (n && !(n == 1 && cp[0] == '.')) {
             *op++ = '/';
             memmove(op, cp, n);
@@ -1302,10 +1310,16 @@ static char *ResolveUnixPath(Jsi_Interp *interp, const char *path, char *out) {
     }
     /* out is an absolute path in resolved form, without trailing slash */
     while (*path) {
-        for (n=0; path[n] && path[n] != '/'; n++);
+        JSV_GHOST(res_comp)
+        for (n=0; path[n] && path[n] != '/'; n++) {
+            JSV_GHOST(res_scan)
+        }
+        JSV_GHOST(res_scanned)
         olen = Jsi_Strlen(out);
         if (n == 2 && path[0] == '.' && path[1] == '.') {
-            while (olen > 0 && out[--olen] != '/');
+            while (olen > 0 && out[--olen] != '/') {
+                JSV_GHOST(res_pop)
+            }
             out[olen] = 0;
         } else if (n && !(n == 1 && path[0] == '.')) {
             if (olen+n+1 >= PATH_MAX) return NULL;
diff --git a/src/jsiInterp.c b/src/jsiInterp.c
index 3ad7609..6531f35 100644
--- a/src/jsiInterp.c
+++ b/src/jsiInterp.c
@@ -2983,6 +2983,7 @@ Jsi_RC Jsi_InterpAccess(Jsi_Interp *interp, Jsi_Value* resource, int aflag)
     if (!dstr)
         return JSI_ERROR;
     for (i=0; i<argc; i++) {
+        JSV_GHOST(acc_dirs)
         v = Jsi_ValueArrayIndex(interp, dirs, i);
         if (!v) continue;
         str = Jsi_ValueString(interp, v, &m);
-- 
2.43.0


From 61fe598fae1f0afaf0bd5831f8a59d926598a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:12 +0000
Subject: [PATCH 35/51] hook: File read/write/copy loops

---
 src/jsiFileCmds.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index ddb95f7..d7b012d 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -467,6 +467,7 @@ static Jsi_RC FileReadCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     Jsi_DString dStr = {};
     char buf[JSI_BUFSIZ];
     while (cnt++ < MAX_LOOP_COUNT && (n = Jsi_Read(interp, chan, buf, sizeof(buf))) > 0) {
+        JSV_GHOST(read_chunk)
         Jsi_DSAppendLen(&dStr, buf, n);
         sum += n;
     }
@@ -496,6 +497,7 @@ static Jsi_RC FileWriteCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this
     if (!chan) 
         return Jsi_LogError("failed open for write: %s", GSVal(fname));
     while (cnt < MAX_LOOP_COUNT && len > 0 && (n = Jsi_Write(interp, chan, data+sum, len)) > 0) {
+        JSV_GHOST(write_chunk)
         len -= n;
         sum += n;
         cnt++;
@@ -544,6 +546,7 @@ static int FileCopy(Jsi_Interp *interp, Jsi_Value* src, Jsi_Value* dest, int for
     if (!och)
         return -1;
     while (1) {
+        JSV_GHOST(copy_chunk)
         char buf[JSI_BUFSIZ];
         int n;
         n = Jsi_Read(interp, ich, buf, JSI_BUFSIZ);
-- 
2.43.0


From 0db0b624b911e4fb5efc09e14e0a7ff81b5d940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 36/51] fix: safe mode: denied reads through source() in a
 sub-interpreter dereferenced a missing argv

---
 src/jsiFilesys.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index e739435..4cd6eba 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -520,9 +520,12 @@ Jsi_Channel Jsi_Open(Jsi_Interp *interp, Jsi_Value *file, const char *modeString
             Jsi_LogError("File open failed '%s'", fileName);
     } else {
         if (interp->isSafe) {
+            const char *script = (interp->opts.argv ? interp->opts.argv[0] : NULL);
+            if (script)
+                script = Jsi_FileRealpathStr(interp, script, pbuf);
             if ((rc && Jsi_InterpAccess(interp, file, JSI_INTACCESS_CREATE) != JSI_OK)
             || (Jsi_InterpAccess(interp, file, aflag) != JSI_OK
-                && (aflag || !interp->opts.argv[0] || Jsi_Strcmp(fileName, Jsi_FileRealpathStr(interp, interp->opts.argv[0], pbuf))))
+                && (aflag || !script || Jsi_Strcmp(fileName, script)))
             ) {
                 if (writ || Jsi_Strcmp(fileName, jsiIntData.execName)) {
                     Jsi_LogError("%s access denied: %s", writ?"write":"read", fileName);
-- 
2.43.0


From 0a608cd63b0efd4f9da7642ef031b7268df1c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:27 +0000
Subject: [PATCH 37/51] hook: end of path resolution

---
 src/jsiFilesys.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiFilesys.c b/src/jsiFilesys.c
index 4cd6eba..65522c6 100644
--- a/src/jsiFilesys.c
+++ b/src/jsiFilesys.c
@@ -1352,6 +1352,7 @@ static char *ResolveUnixPath(Jsi_Interp *interp, const char *path, char *out) {
         path += n;
         if (*path) path++;
     }
+    JSV_GHOST(res_end)
     if (!out[0])
         memcpy(out, "/", 2);
     return out;
-- 
2.43.0


From e5fbd0bb11d113ba692020ea750e417ad7cea714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 38/51] fix: safe mode: File.remove, rename and copy acted on
 links in directories that are not writable

---
 src/jsiFileCmds.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/jsiFileCmds.c b/src/jsiFileCmds.c
index d7b012d..b0be40c 100644
--- a/src/jsiFileCmds.c
+++ b/src/jsiFileCmds.c
@@ -58,6 +58,30 @@ static Jsi_RC jsi_SAFEACCESS(Jsi_Interp *interp, Jsi_Value *fname, bool write, b
     return JSI_OK;
 }
 
+/* Removing, renaming or replacing a link acts on the link, not on the file it
+ * points to: the directory the link is in must be writable. */
+static Jsi_RC jsi_LinkAccess(Jsi_Interp *interp, Jsi_Value *fname)
+{
+    Jsi_RC rc = JSI_OK;
+#ifndef __WIN32
+    Jsi_StatBuf sb;
+    if (!interp->isSafe || Jsi_Lstat(interp, fname, &sb) != 0 || !S_ISLNK(sb.st_mode))
+        return JSI_OK;
+    const char *path = GSVal(fname), *cp = Jsi_Strrchr(path, '/');
+    Jsi_DString dStr = {};
+    if (cp)
+        Jsi_DSAppendLen(&dStr, path, cp-path+1);
+    else
+        Jsi_DSAppend(&dStr, ".", NULL);
+    Jsi_Value *dir = Jsi_ValueNewStringDup(interp, Jsi_DSValue(&dStr));
+    Jsi_IncrRefCount(interp, dir);
+    rc = jsi_SAFEACCESS(interp, dir, 1, 0);
+    Jsi_DecrRefCount(interp, dir);
+    Jsi_DSFree(&dStr);
+#endif
+    return rc;
+}
+
 static char* getFileTypeCh(int mode, char smode[])
 {
     char c = '-';
@@ -520,6 +544,8 @@ static Jsi_RC FileRenameCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
 
     SAFEACCESS(source, 1, 0)
     SAFEACCESS(dest, 1, 1)
+    if (jsi_LinkAccess(interp, source) != JSI_OK || jsi_LinkAccess(interp, dest) != JSI_OK)
+        return JSI_ERROR;
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
         return Jsi_LogError("expected boolean");
     if (vf)
@@ -582,6 +608,8 @@ static Jsi_RC FileCopyCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_this,
     int force = 0; 
     SAFEACCESS(source, 0, 0)
     SAFEACCESS(dest, 1, 1)
+    if (jsi_LinkAccess(interp, dest) != JSI_OK)
+        return JSI_ERROR;
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
         return Jsi_LogError("expected boolean");
     if (vf)
@@ -674,6 +702,8 @@ static Jsi_RC FileRemoveCmd(Jsi_Interp *interp, Jsi_Value *args, Jsi_Value *_thi
     const char *spath = GSVal(source);
     int rc, force = 0; 
     SAFEACCESS(source, 1, 0)
+    if (jsi_LinkAccess(interp, source) != JSI_OK)
+        return JSI_ERROR;
 
     Jsi_StatBuf st;
     if (vf && !Jsi_ValueIsBoolean(interp, vf)) 
-- 
2.43.0


From 469299949a51799dff0199792da4eb647af7cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 39/51] fix: Jsi_GlobMatch: '?' against an empty string read
 past its end

---
 src/jsiUtils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 85824ac..c1ef85a 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -2186,10 +2186,14 @@ bool Jsi_GlobMatch(const char *pattern, const char *string, int nocase)
                 return 0;       /* no match */
 
             case '?':
+                if (!*string)
+                    return 0;
                 string += Jsi_UtfToUniChar(string, &c);
                 break;
 
             case '[': {
+                    if (!*string)
+                        return 0;
                     string += Jsi_UtfToUniChar(string, &c);
                     pattern = JsiCharsetMatch(pattern + 1, c, nocase ? JSI_CMP_NOCASE : 0);
                     if (!pattern) {
-- 
2.43.0


From b8bb3adf296cb137bc97567fd70d5cfdd43873ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 40/51] hook: glob matching loops

---
 src/jsiUtils.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index c1ef85a..bce5143 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1995,6 +1995,7 @@ static const char *JsiCharsetMatch(const char *pattern, int c, int flags)
     }
 
     while (*pattern && *pattern != ']') {
+        JSV_GHOST(cs_item)
         /* Exact match */
         if (pattern[0] == '\\') {
 first:
@@ -2023,6 +2024,7 @@ first:
             match = 1;
         }
     }
+    JSV_GHOST(cs_end)
     if (inot) {
         match = !match;
     }
@@ -2169,9 +2171,11 @@ bool Jsi_GlobMatch(const char *pattern, const char *string, int nocase)
     int c;
     int pchar;
     while (*pattern) {
+        JSV_GHOST(glob_step)
         switch (pattern[0]) {
             case '*':
                 while (pattern[1] == '*') {
+                    JSV_GHOST(glob_stars)
                     pattern++;
                 }
                 pattern++;
@@ -2179,6 +2183,7 @@ bool Jsi_GlobMatch(const char *pattern, const char *string, int nocase)
                     return 1;   /* match */
                 }
                 while (*string) {
+                    JSV_GHOST(glob_star)
                     if (Jsi_GlobMatch(pattern, string, nocase))
                         return 1;       /* match */
                     string += Jsi_UtfToUniChar(string, &c);
@@ -2219,8 +2224,10 @@ bool Jsi_GlobMatch(const char *pattern, const char *string, int nocase)
                 break;
         }
         pattern += Jsi_UtfToUniCharCase(pattern, &pchar, nocase);
+        JSV_GHOST(glob_next)
         if (!*string) {
             while (*pattern == '*') {
+                JSV_GHOST(glob_tail)
                 pattern++;
             }
             break;
-- 
2.43.0


From c70e36910434e69e3accf4f4c65fb3d364a56944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:47 +0000
Subject: [PATCH 41/51] fix: JSON: an undefined member before others left a
 comma at the start of the object

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index bce5143..610de52 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -683,9 +683,9 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
 {
     Jsi_DString *dStr = ow->dStr;
     int isfmt = ow->quote&JSI_JSON_FORMAT;
-    ow->subcnt++;
     if ((ow->quote&JSI_OUTPUT_JSON) && v && v->vt == JSI_VT_UNDEF)
         return JSI_OK;
+    ow->subcnt++;
     if (ow->subcnt>1)
         Jsi_DSAppend(dStr, ", ", NULL);
     if (isfmt)
-- 
2.43.0


From 8ea4f28ff502cfb3c51dc1d0bdd43e1bfcb33eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:47 +0000
Subject: [PATCH 42/51] fix: JSON: numbers below the smallest normal one were
 written as null

---
 src/jsiUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 610de52..e87bb5c 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -751,7 +751,7 @@ static Jsi_RC jsiValueGetString(Jsi_Interp *interp, Jsi_Value* v, Jsi_DString *d
         case JSI_VT_NUMBER:
             num = v->d.num;
 outnum:
-            if (isjson && !Jsi_NumberIsNormal(num)) {
+            if (isjson && !Jsi_NumberIsNormal(num) && !Jsi_NumberIsSubnormal(num)) {
                 Jsi_DSAppend(dStr, "null", NULL);
             } else if (Jsi_NumberIsInteger(num)) {
                 Jsi_NumberItoA10((Jsi_Wide)num, buf, sizeof(buf));
-- 
2.43.0


From e6ca4815082808e75b59eb084efedb26a3c6873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:47 +0000
Subject: [PATCH 43/51] fix: JSON: object keys were written without escapes and
 read without decoding them

---
 src/jsiJSON.c  |  2 +-
 src/jsiUtils.c | 70 +++++++++++++++++++++++++++-----------------------
 2 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index ff6a0da..90ffb54 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -132,7 +132,7 @@ jsonGenObject(Jsi_Interp *interp, Jsi_JsonParser *p, const char *js, uint pos, u
             nv = jsonGen1Value(interp, p, js, i, &i, 0);
         Jsi_DSInit(&dStr);
         if (t)
-            Jsi_DSAppendLen(&dStr, t, len);
+            jsonNewDString(interp, &dStr, t, len);
         Jsi_ObjInsert(interp, obj, Jsi_DSValue(&dStr), nv, 0);
         Jsi_DSFree(&dStr);
     }
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index e87bb5c..d26b015 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -669,6 +669,41 @@ char *jsi_TrimStr(char *str) {
 
 static Jsi_RC jsiValueGetString(Jsi_Interp *interp, Jsi_Value* v, Jsi_DString *dStr, objwalker *owPtr);
 
+/* Append str in double quotes, with the escapes the output type calls for. */
+static void jsiQuoteString(Jsi_DString *dStr, const char *str, int len, int quote)
+{
+    int i = 0, isjson = quote&JSI_OUTPUT_JSON;
+    Jsi_DSAppend(dStr,"\"", NULL);
+    while (i++<len) {
+        if ((*str == '\'' && (!isjson)) || *str == '\\'|| *str == '\"'|| (*str == '\n'
+            && (!(quote&JSI_OUTPUT_NEWLINES)))
+            || *str == '\r' || *str == '\t' || *str == '\f' || *str == '\b'  ) {
+            char pcp[2];
+            *pcp = *str;
+            pcp[1] = 0;
+            Jsi_DSAppendLen(dStr,"\\", 1);
+            switch (*str) {
+                case '\r': *pcp = 'r'; break;
+                case '\n': *pcp = 'n'; break;
+                case '\t': *pcp = 't'; break;
+                case '\f': *pcp = 'f'; break;
+                case '\b': *pcp = 'b'; break;
+            }
+            Jsi_DSAppendLen(dStr,pcp, 1);
+        } else if (isprint(*str) || !isjson)
+            Jsi_DSAppendLen(dStr,str, 1);
+        else {
+            char ubuf[10];
+            int l = Jsi_UtfEncode(str, ubuf);
+            Jsi_DSAppend(dStr,ubuf, NULL);
+            str += l-1;
+            i += l-1;
+        }
+        str++;
+    }
+    Jsi_DSAppend(dStr,"\"", NULL);
+}
+
 static void jsiJsonIndent(objwalker *ow) {
     Jsi_DString *dStr = ow->dStr;
     int i, n, ind = ow->indent;
@@ -695,7 +730,7 @@ static Jsi_RC jsi_ObjectGetFmt(Jsi_Interp *interp, const char *key, Jsi_Value *v
         Jsi_DSAppend(dStr, key, NULL);
     else
         /* JSON/spaces, etc requires quoting the name. */
-        Jsi_DSAppend(dStr, "\"", key, "\"", NULL);
+        jsiQuoteString(dStr, key, Jsi_Strlen(key), ow->quote);
     Jsi_DSAppend(dStr, ":", NULL);
     Jsi_RC rc = jsiValueGetString(interp, v, dStr, ow);
     return rc;
@@ -731,7 +766,7 @@ static Jsi_RC jsiValueGetString(Jsi_Interp *interp, Jsi_Value* v, Jsi_DString *d
     Jsi_DSInit(&eStr);
     if (interp->maxDepth>0 && owPtr->depth > interp->maxDepth)
         return Jsi_LogError("recursive ToString");
-    int quote = owPtr->quote, len = -1, i;
+    int quote = owPtr->quote, len = -1;
     int isjson = owPtr->quote&JSI_OUTPUT_JSON;
     int isfmt = owPtr->quote&JSI_JSON_FORMAT;
     Jsi_Number num;
@@ -780,36 +815,7 @@ outstr:
                 Jsi_DSAppendLen(dStr, str, len);
                 return JSI_OK;
             }
-            Jsi_DSAppend(dStr,"\"", NULL);
-            i = 0;
-            while (i++<len) {
-                if ((*str == '\'' && (!isjson)) || *str == '\\'|| *str == '\"'|| (*str == '\n'
-                    && (!(owPtr->quote&JSI_OUTPUT_NEWLINES)))
-                    || *str == '\r' || *str == '\t' || *str == '\f' || *str == '\b'  ) {
-                    char pcp[2];
-                    *pcp = *str;
-                    pcp[1] = 0;
-                    Jsi_DSAppendLen(dStr,"\\", 1);
-                    switch (*str) {
-                        case '\r': *pcp = 'r'; break;
-                        case '\n': *pcp = 'n'; break;
-                        case '\t': *pcp = 't'; break;
-                        case '\f': *pcp = 'f'; break;
-                        case '\b': *pcp = 'b'; break;
-                    }
-                    Jsi_DSAppendLen(dStr,pcp, 1);
-                } else if (isprint(*str) || !isjson)
-                    Jsi_DSAppendLen(dStr,str, 1);
-                else {
-                    char ubuf[10];
-                    int l = Jsi_UtfEncode(str, ubuf);
-                    Jsi_DSAppend(dStr,ubuf, NULL);
-                    str += l-1;
-                    i += l-1;
-                }
-                str++;
-            }
-            Jsi_DSAppend(dStr,"\"", NULL);
+            jsiQuoteString(dStr, str, len, owPtr->quote);
             Jsi_DSFree(&eStr);
             return JSI_OK;
         case JSI_VT_OBJECT: {
-- 
2.43.0


From 5b3ded907b10381efd00e30df4ff30f73f915166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:47 +0000
Subject: [PATCH 44/51] fix: JSON: characters beyond \uFFFF were cut to 16 bits
 on output and surrogate pairs not joined on input

---
 src/jsiJSON.c  | 14 ++++++++++++--
 src/jsiUtils.c |  5 ++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 90ffb54..d73dc59 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -22,8 +22,15 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case '\\': *dp++ = '\\'; break;
                 case 'u': 
                     if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
-                        dp += ulen;
+                        char lo[4];
                         cp += 4;
+                        if (ulen==3 && (dp[0]&0xff)==0xED && (dp[1]&0x30)==0x20 && cp[2]=='\\' && cp[3]=='u'
+                            && Jsi_UtfDecode(cp+4, lo)==3 && (lo[0]&0xff)==0xED && (lo[1]&0x30)==0x30) {
+                            /* Surrogate pair. */
+                            ulen = Jsi_UniCharToUtf(0x10000 + (((dp[1]&0xf)<<16)|((dp[2]&0x3f)<<10)|((lo[1]&0xf)<<6)|(lo[2]&0x3f)), dp);
+                            cp += 6;
+                        }
+                        dp += ulen;
                     } else {                    
                         *dp++ = '\\';
                         *dp++ = 'u';
@@ -424,7 +431,10 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
                 case '\t': Jsi_DSAppend(dsPtr,"\\t",NULL); break;
                 default:
                     if ((ilen = Jsi_UtfEncode(cp, cbuf))) {
-                        Jsi_DSAppend(dsPtr,cbuf,NULL);
+                        if (ilen>3)    /* Beyond \uNNNN. */
+                            Jsi_DSAppendLen(dsPtr, cp, ilen);
+                        else
+                            Jsi_DSAppend(dsPtr,cbuf,NULL);
                         cp += (ilen-1);
                     }
             }
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index d26b015..b2ad023 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -695,7 +695,10 @@ static void jsiQuoteString(Jsi_DString *dStr, const char *str, int len, int quot
         else {
             char ubuf[10];
             int l = Jsi_UtfEncode(str, ubuf);
-            Jsi_DSAppend(dStr,ubuf, NULL);
+            if (l>3)    /* Beyond \uNNNN. */
+                Jsi_DSAppendLen(dStr, str, l);
+            else
+                Jsi_DSAppend(dStr,ubuf, NULL);
             str += l-1;
             i += l-1;
         }
-- 
2.43.0


From ffc29a5a4935547074bb0eeea9437547d43b0e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:47 +0000
Subject: [PATCH 45/51] fix: Jsi_JSONQuote counted characters against a length
 in bytes

---
 src/jsiJSON.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index d73dc59..72961d5 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -410,12 +410,11 @@ char *
 Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
 {
     const char *cp = str;
-    int i = 0;
     if (len<0)
         len = Jsi_Strlen(str);
     char cbuf[10];
     Jsi_DSAppend(dsPtr,"\"",NULL);
-    while (*cp && i++<len) {
+    while (*cp && (cp-str)<len) {
         if (*cp == '\\' /* || *cp == '/' */ || *cp == '\"') {
             cbuf[0] = '\\';
             cbuf[1] = *cp;
-- 
2.43.0


From 802e99e6b55f61a4ca071b6245a55280474896ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:47 +0000
Subject: [PATCH 46/51] fix: JSON: the escape \/ was dropped

---
 src/jsiJSON.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 72961d5..e8d594c 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -20,6 +20,7 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
                 case 't': *dp++ = '\t'; break;
                 case '\"': *dp++ = '\"'; break;
                 case '\\': *dp++ = '\\'; break;
+                case '/': *dp++ = '/'; break;
                 case 'u': 
                     if ((ulen=Jsi_UtfDecode(cp+2, dp))) {
                         char lo[4];
-- 
2.43.0


From 6845104de75eb2242815a83fc12f6bf5ecef7609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:47 +0000
Subject: [PATCH 47/51] fix: JSON: true, false and null followed by white space
 gave undefined

---
 src/jsiJSON.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index e8d594c..0f5c446 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -216,10 +216,10 @@ Jsi_RC Jsi_JSONParse(Jsi_Interp *interp, const char *js, Jsi_Value **ret, int fl
         result = JSI_ERROR;
         goto done;
     }
-    if (!ret)
+    if (!ret || p->toknext<=0)
         goto done;
     tok = p->tokens;
-    if (tok->size<=0) {
+    if (tok->size<=0 && tok->type != JSI_JTYPE_PRIMITIVE) {
         if (!*ret)
             *ret = Jsi_ValueNew(interp);
         if (tok->type == JSI_JTYPE_OBJECT)
-- 
2.43.0


From 9aaa789985f4c489e94a4faa7964d6e66d7e725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 48/51] hook: JSON loops

---
 src/jsiJSON.c  | 4 ++++
 src/jsiUtils.c | 2 ++
 src/jsmn.c     | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/src/jsiJSON.c b/src/jsiJSON.c
index 0f5c446..a2075f8 100644
--- a/src/jsiJSON.c
+++ b/src/jsiJSON.c
@@ -11,6 +11,7 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
     int ulen;
     
     while ((cp-str)<len) {
+        JSV_GHOST(jd_head)
         if (*cp == '\\') {
             switch (cp[1]) {
                 case 'b': *dp++ = '\b'; break;
@@ -48,6 +49,7 @@ static void jsonNewDString(Jsi_Interp *interp, Jsi_DString *dStr, const char* st
             dp = buf;
         }
     }
+    JSV_GHOST(jd_end)
     *dp = 0;
     Jsi_DSAppendLen(dStr, buf, dp-buf);
 }
@@ -416,6 +418,7 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
     char cbuf[10];
     Jsi_DSAppend(dsPtr,"\"",NULL);
     while (*cp && (cp-str)<len) {
+        JSV_GHOST(jq_head)
         if (*cp == '\\' /* || *cp == '/' */ || *cp == '\"') {
             cbuf[0] = '\\';
             cbuf[1] = *cp;
@@ -445,6 +448,7 @@ Jsi_JSONQuote(Jsi_Interp *interp, const char *str, int len, Jsi_DString *dsPtr)
         }
         cp++;
     }
+    JSV_GHOST(jq_end)
     
     Jsi_DSAppend(dsPtr,"\"", NULL);
     return Jsi_DSValue(dsPtr);;
diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index b2ad023..2d09ab2 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -675,6 +675,7 @@ static void jsiQuoteString(Jsi_DString *dStr, const char *str, int len, int quot
     int i = 0, isjson = quote&JSI_OUTPUT_JSON;
     Jsi_DSAppend(dStr,"\"", NULL);
     while (i++<len) {
+        JSV_GHOST(qs_head)
         if ((*str == '\'' && (!isjson)) || *str == '\\'|| *str == '\"'|| (*str == '\n'
             && (!(quote&JSI_OUTPUT_NEWLINES)))
             || *str == '\r' || *str == '\t' || *str == '\f' || *str == '\b'  ) {
@@ -704,6 +705,7 @@ static void jsiQuoteString(Jsi_DString *dStr, const char *str, int len, int quot
         }
         str++;
     }
+    JSV_GHOST(qs_end)
     Jsi_DSAppend(dStr,"\"", NULL);
 }
 
diff --git a/src/jsmn.c b/src/jsmn.c
index 9ab6024..49a28fd 100644
--- a/src/jsmn.c
+++ b/src/jsmn.c
@@ -71,6 +71,7 @@ static Jsi_JsonErrEnum Jsi_JsonParse_primitive(Jsi_JsonParser *parser, const cha
     start = parser->pos;
 
     for (; js[parser->pos] != '\0'; parser->pos++) {
+        JSV_GHOST(jp_prim)
         switch (js[parser->pos]) {
             /* In strict mode primitive must be followed by "," or "}" or "]" */
             case ':':
@@ -114,6 +115,7 @@ static Jsi_JsonErrEnum Jsi_JsonParse_string(Jsi_JsonParser *parser, const char *
 
     /* Skip starting quote */
     for (; js[parser->pos] != '\0'; parser->pos++) {
+        JSV_GHOST(jp_str)
         char c = js[parser->pos];
 
         /* Quote: end of string */
@@ -167,6 +169,7 @@ Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
         char c;
         int match;
         Jsi_JsonTypeEnum type;
+        JSV_GHOST(jp_head)
 
         c = js[parser->pos];
         match = 0;
@@ -206,6 +209,7 @@ Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
                 }
 #else
                 for (i = parser->toknext - 1; i >= 0; i--) {
+                    JSV_GHOST(jp_close)
                     token = &parser->tokens[i];
                     if (token->start != -1 && token->end == -1) {
                         if (token->type != type) {
@@ -220,6 +224,7 @@ Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
                 if (i == -1)
                     return jsmn_error(parser,JSI_JSON_ERR_INVAL, "unmatched closing bracket");
                 for (; i >= 0; i--) {
+                    JSV_GHOST(jp_super)
                     token = &parser->tokens[i];
                     if (token->start != -1 && token->end == -1) {
                         parser->toksuper = i;
@@ -270,7 +275,9 @@ Jsi_JsonErrEnum Jsi_JsonParse(Jsi_JsonParser *parser, const char *js) {
         }
     }
 
+    JSV_GHOST(jp_end)
     for (i = parser->toknext - 1; i >= 0; i--) {
+        JSV_GHOST(jp_open)
         /* Unmatched opened object or array */
         if (parser->tokens[i].start != -1 && parser->tokens[i].end == -1) {
             return jsmn_error(parser,JSI_JSON_ERR_PART,"");
-- 
2.43.0


From 53ff288cb51da386e2851932eaf1db7602f6c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:13 +0000
Subject: [PATCH 49/51] fix: removing the first list entry left its successor
 pointing back at it

---
 src/jsiUtils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index 2d09ab2..de92dcc 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1573,8 +1573,10 @@ Jsi_ListEntry* Jsi_ListPop(Jsi_List *list, Jsi_ListEntry *item)
     if (item == list->head) {
         if (list->head == list->tail)
             list->head = list->tail = NULL;
-        else
+        else {
             list->head = list->head->next;
+            list->head->prev = NULL;
+        }
     }
     else if (item == list->tail) {
         list->tail = list->tail->prev;
-- 
2.43.0


From b07bb0889e747d51ee224693a07f8caf4b10bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:13 +0000
Subject: [PATCH 50/51] fix: clearing a list, or deleting its only entry, left
 a pointer to freed memory in it

---
 src/jsiUtils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index de92dcc..d012f8b 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1524,6 +1524,7 @@ void Jsi_ListClear(Jsi_List *list) {
             (list->opts.freeListProc)(list->opts.interp, l, l->value);
         Jsi_ListEntryDelete(l);
     }
+    list->tail = NULL;
     list->numEntries = 0;
 }
  
@@ -1604,7 +1605,7 @@ Jsi_ListEntry *Jsi_ListEntryNew(Jsi_List* list, const void *value, Jsi_ListEntry
 
 int Jsi_ListEntryDelete(Jsi_ListEntry *l) {
     SIGASSERT(l, LISTENTRY);
-    if (l->next || l->prev)
+    if (l->next || l->prev || (l->list && l->list->head == l))
         Jsi_ListPop(l->list, l);
     Jsi_Free(l);
     return 1;
-- 
2.43.0


From 10229df9aeac8ecb843992afc1b18ea23690e91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:13 +0000
Subject: [PATCH 51/51] hook: list and stack loops

---
 src/jsiUtils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jsiUtils.c b/src/jsiUtils.c
index d012f8b..91316f2 100644
--- a/src/jsiUtils.c
+++ b/src/jsiUtils.c
@@ -1517,6 +1517,7 @@ int Jsi_ListDelete(Jsi_List *list) {
 void Jsi_ListClear(Jsi_List *list) {
     Jsi_ListEntry *l;
     while (list->head) {
+        JSV_GHOST(list_clear)
         l = list->head;
         list->head = list->head->next;
         l->next = l->prev = NULL;
@@ -2317,8 +2318,10 @@ void *Jsi_StackHead(Jsi_Stack *stack)
 void Jsi_StackFreeElements(Jsi_Interp *interp, Jsi_Stack *stack, Jsi_DeleteProc *freeProc)
 {
     int i;
-    for (i = 0; i < stack->len; i++)
+    for (i = 0; i < stack->len; i++) {
+        JSV_GHOST(stack_free)
         freeProc(interp, stack->vector[i]);
+    }
     stack->len = 0;
 }
 
-- 
2.43.0

