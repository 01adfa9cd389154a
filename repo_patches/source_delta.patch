From 9cf583ccf414ad8376722b32deef412e96206a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 01/24] fix: propagate the folded carry through all words when
 serialising redundant Fp25519 elements

---
 src/eltfp25519_1w_redradix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b2e733e..d50d266 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -411,6 +411,11 @@ DECL(void, ser)(uint8_t *buf, argElement_1w a) {
   "xorl  %%ecx, %%ecx ;"
   "addq  %%rax,  %%r8 ;"
   "adcq  %%rcx,  %%r9 ;"
+  "adcq  %%rcx, %%r10 ;"
+  "adcq  %%rcx, %%r11 ;"
+  "sbbq  %%rax, %%rax ;"
+  "andq    $38, %%rax ;"
+  "addq  %%rax,  %%r8 ;"
 
   "movq  %%r8,   (%0) ;"
   "movq  %%r9,  8(%0) ;"
-- 
2.43.0


From 1e481963adf7986837116f290f4b69ee6f265c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 02/24] fix: propagate the folded carry when serialising
 redundant Fp448 elements

---
 src/eltfp448_1w_redradix.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 26fecfa..da91e0b 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -402,7 +402,7 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
 	* It only accepts positive coefficients.
 	* In order to remove negative coefficients, compute compress()
 	*/
-  int i;
+  int i,j;
   int64_t *pA = (int64_t*)puA;
   __int128_t a[NUM_DIGITS_FP448];
   __int128_t c[NUM_DIGITS_FP448_X64];
@@ -426,9 +426,21 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
   c[5] = (c[4]>>64) + (a[11]<<(16+BASE_FP448))  + (a[9 ]<<16);
   c[6] = (c[5]>>64) + (a[15]<<(8+BASE_FP448))   + (a[13]<<8);
 
-  tmp = (c[6]>>64);
-  c[0] += tmp;
-  c[3] += tmp<<(4+BASE_FP448);
+  /**
+   * The carry out of c[6] is added at 2^0 and at 2^224. It can produce
+   * another (unit) carry, so it is folded twice.
+   */
+  for(j=0;j<2;j++)
+  {
+    tmp = (c[6]>>64);
+    c[0] = (uint64_t)c[0] + tmp;
+    c[1] = (uint64_t)c[1] + (c[0]>>64);
+    c[2] = (uint64_t)c[2] + (c[1]>>64);
+    c[3] = (uint64_t)c[3] + (c[2]>>64) + (tmp<<(4+BASE_FP448));
+    c[4] = (uint64_t)c[4] + (c[3]>>64);
+    c[5] = (uint64_t)c[5] + (c[4]>>64);
+    c[6] = (uint64_t)c[6] + (c[5]>>64);
+  }
 
   for(i=0;i<NUM_DIGITS_FP448_X64;i++)
   {
-- 
2.43.0


From 17b1618728891448436bcdff66ebdeccd3b67bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 03/24] fix: Fp25519 comparison of redundant elements must
 report every difference, not only odd ones

---
 src/eltfp25519_1w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index d50d266..3e8afd1 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -439,7 +439,7 @@ DECL(int, cmp)(argElement_1w a, argElement_1w b) {
   ALIGN uint8_t b_bytes[SIZE_FP25519];
   FN(ser)(a_bytes, a);
   FN(ser)(b_bytes, b);
-  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) & 0x1;
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519);
 }
 
 DECL(void, cmv)(int bit, argElement_1w c, argElement_1w a, argElement_1w b) {
-- 
2.43.0


From 2d69fb29d0021ec96e98f984e924ddfa5656042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 04/24] fix: 4-way Fp25519 negation slot must use the 4-way
 implementation

---
 src/fp255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp255.c b/src/fp255.c
index 8fe2fce..7ec4d7f 100644
--- a/src/fp255.c
+++ b/src/fp255.c
@@ -138,7 +138,7 @@ const PrimeField Fp25519 = {
             .add = SUFFIX(add,4,redradix),
             .cmp = SUFFIX(cmp,4,redradix),
             .mul = SUFFIX(mul,4,redradix),
-            .neg = SUFFIX(neg,2,redradix),
+            .neg = SUFFIX(neg,4,redradix),
             .ngz = SUFFIX(ngz,4,redradix),
             .sqr = SUFFIX(sqr,4,redradix),
             .srt = SUFFIX(srt,4,redradix),
-- 
2.43.0


From 961e562e166abde0c4b5786b8e64d93460cb03f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 05/24] fix: element strides of the two-fold Fp448 integer
 multiplication, squaring and reduction

---
 src/eltfp448_1w_fullradix.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 2fc565e..38a751e 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -863,17 +863,17 @@ DECL(void, reduce)(argElement_1w c, argElement_1w a) {
 
 DECL(void, intmul2_mulxadx)(argElement_1w c, argElement_1w a, argElement_1w b)  {
   FN(intmul_mulxadx)(c,a,b);
-  FN(intmul_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulx)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulx)(c,a,b);
-  FN(intmul_mulx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulq)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulq)(c,a,b);
-  FN(intmul_mulq)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
@@ -890,17 +890,17 @@ DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, intsqr2_mulxadx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulxadx)(c,a);
-  FN(intsqr_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulx)(c,a);
-  FN(intsqr_mulx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulq)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulq)(c,a);
-  FN(intsqr_mulq)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
@@ -917,12 +917,12 @@ DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
 
 DECL(void, reduce2_adx)(argElement_1w c, argElement_1w a) {
   FN(reduce_adx)(c,a);
-  FN(reduce_adx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_adx)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2_leg)(argElement_1w c, argElement_1w a) {
   FN(reduce_leg)(c,a);
-  FN(reduce_leg)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_leg)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 3718c1431e6d362179737f2a32e14acbcccd8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 06/24] fix: inline assembly that reads or writes memory must
 say so

---
 include/simd_avx2.h         | 2 +-
 src/eltfp448_1w_fullradix.c | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/simd_avx2.h b/include/simd_avx2.h
index ee20907..9a1d6ee 100644
--- a/include/simd_avx2.h
+++ b/include/simd_avx2.h
@@ -107,7 +107,7 @@
   __asm__ __volatile(        \
     "vpbroadcastq (%1), %0;" \
   :/* out  */ "=x" (X)       \
-  :/* in   */ "r" (Y)        \
+  :/* in   */ "r" (Y), "m" (*(Y)) \
   :/* regs */);
 
 #endif /* SIMD_AVX2_H */
diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 38a751e..3980c93 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -1178,8 +1178,8 @@ DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
-        "%r13", "%r15");
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11",
+        "%r12", "%r13", "%r15");
 }
 
 DECL(void, mula24_mulq)(argElement_1w c, argElement_1w a) {
@@ -1225,8 +1225,8 @@ DECL(void, mula24_mulq)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
-        "%r13", "%r15");
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11",
+        "%r12", "%r13", "%r15");
 }
 
 DECL(void, mula24)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 4427b244852cc04d5d2925943b93317744e71731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 07/24] fix: sponge state lanes alias its bytes (Ed448 was
 miscompiled under -O2)

---
 third_party/sha3.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 74ce6bc..9c43aba 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -37,7 +37,10 @@ static const uint64_t KeccakF21600RoundConstants[24] =
 				(uint64_t) 0x8000000080008008ULL
 		};
 
-static void KeccakF2(uint64_t *state) {
+/* The sponge state is also accessed as bytes. */
+typedef uint64_t __attribute__((__may_alias__)) lane_t;
+
+static void KeccakF2(lane_t *state) {
 
 	uint64_t Ba, Be, Bi, Bo, Bu;
 	uint64_t Ca, Ce, Ci, Co, Cu;
@@ -399,7 +402,7 @@ HashReturn Update(hashState *state, const BitSequence *data, DataLength databitl
 			state->s[i] = state->s[i] ^ tmp[j];
 		}
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((lane_t *) state->s);
 
 		tmp += ((state->r - state->statebitlen) / 8);
 		lentmp -= (state->r - state->statebitlen);
@@ -429,7 +432,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 	state->s[sbytelen] ^= 0x06;
 	state->s[(state->r / 8) - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((lane_t *) state->s);
 
 	memcpy(hashval, state->s, state->r / 8);
 
@@ -447,14 +450,14 @@ HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	state->s[sbytelen] ^= 0x1F;
 	state->s[r - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((lane_t *) state->s);
 
 
 	while (d_byte > r) {
 
 		memcpy((hashval + j), state->s, r);
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((lane_t *) state->s);
 		j += r;
 		d_byte -= r;
 	}
@@ -506,7 +509,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((lane_t *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -518,7 +521,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((lane_t *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -527,7 +530,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2((lane_t *) s);
 		j += r;
 		d_byte -= r;
 	}
@@ -555,7 +558,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((lane_t *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -567,7 +570,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((lane_t *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -576,7 +579,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2((lane_t *) s);
 		j += r;
 		d_byte -= r;
 	}
-- 
2.43.0


From fce7569dc295b528fa27707f0585f32ab0aa727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 08/24] fix: digit order of the prime in redundant Fp448
 elements

---
 src/eltfp448_1w_redradix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index da91e0b..859004c 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -768,14 +768,14 @@ DECL(argElement_1w, alloc)(void) {
 
 DECL(void, prime)(argElement_1w a) {
   a[0] = 0xfffffff;
-  a[1] = 0xfffffff;
+  a[1] = 0xffffffe;
   a[2] = 0xfffffff;
   a[3] = 0xfffffff;
   a[4] = 0xfffffff;
   a[5] = 0xfffffff;
   a[6] = 0xfffffff;
   a[7] = 0xfffffff;
-  a[8] = 0xffffffe;
+  a[8] = 0xfffffff;
   a[9] = 0xfffffff;
   a[10] = 0xfffffff;
   a[11] = 0xfffffff;
-- 
2.43.0


From ab3eaa5a7c909910f647c7a7b856bd2a4514226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 09/24] fix: Ed25519 point decoding must fail on strings that
 encode no point

---
 src/edwards255.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 9cc99e6..b613f40 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -18,6 +18,7 @@
 
 #if defined(ED255)
 
+#include <string.h>
 #include "edwards255.h"
 #include "table_verf_w7_ed25519.h"
 
@@ -1092,7 +1093,7 @@ static inline int point_decoding_ed25519(
       0x8cc740797779e898,
       0x52036cee2b6ffe73
   };
-  EltFp25519_1w_fullradix X, Y, T, u, v;
+  EltFp25519_1w_fullradix X, Y, T, u, v, w, vx2;
   EltFp25519_1w_fullradix one = {0};
   uint8_t bit_X;
 
@@ -1102,6 +1103,11 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.misc.copy(u, (argElement_1w) A);
   u[3] &= ((uint64_t) 1 << 63) - 1;
   Fp25519._1w_full.arith.misc.copy(Y, u);
+  modp_Fp255_1w_fullradix(u);
+  if (memcmp(u, Y, sizeof(u)) != 0) {
+    /* the encoding of y is not canonical */
+    return -1;
+  }
   /*  u = y^2    */
   Fp25519._1w_full.arith.sqr(u);
   /*  v = dy^2   */
@@ -1111,11 +1117,26 @@ static inline int point_decoding_ed25519(
   /*  v = dy^2+1 */
   Fp25519._1w_full.arith.add(v, v, one);
   /*  X = sqrt(u/v) */
+  Fp25519._1w_full.arith.misc.copy(w, u);
   invsqrt_Fp255_1w_fullradix(X, u, v);
+  /*  Checking whether
+   *      v*X^2 == u
+   */
+  Fp25519._1w_full.arith.misc.copy(vx2, X);
+  Fp25519._1w_full.arith.sqr(vx2);
+  Fp25519._1w_full.arith.mul(vx2, vx2, v);
+  if (Fp25519._1w_full.arith.cmp(vx2, w) != 0) {
+    /* no square root exists */
+    return -1;
+  }
   /*  Checking whether
    *  X is positive or negative
    */
   modp_Fp255_1w_fullradix(X);
+  if (bit_X == 1 && (X[0] | X[1] | X[2] | X[3]) == 0) {
+    /* X = 0 has no negative */
+    return -1;
+  }
   if (bit_X == (X[0] & 0x1)) {
     Fp25519._1w_full.arith.neg(X);
   }
-- 
2.43.0


From 6488c9f835d966f4431ff6a8587b4bd9af6ff0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 10/24] fix: EdDSA verification must reject signatures whose
 scalar is not below the group order

---
 src/sign255.c | 25 +++++++++++++++++++++++++
 src/sign448.c | 29 +++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/src/sign255.c b/src/sign255.c
index b4618ca..5f93156 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -258,6 +258,27 @@ static inline void calculate_s_ed25519(uint8_t *s_mod_l, uint8_t *r, uint8_t *k,
   }
 }
 
+/**
+ * Tells whether the scalar of a signature is
+ * canonically encoded, i.e., 0 <= s < \ell.
+ * The scalar is public.
+ */
+static inline int is_canonical_s_ed25519(const uint8_t *s) {
+  const uint8_t order[ED25519_KEY_SIZE_BYTES_PARAM] = {
+      0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+      0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+  };
+  int i;
+  for (i = ED25519_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != order[i]) {
+      return s[i] < order[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param public_key
@@ -487,6 +508,10 @@ static inline int ed25519_verify_all(
   if(point_decoding_ed25519(&A, NULL, (uint8_t *) public_key)!=0)
     return EDDSA_ERROR_PUBLICKEY;
 
+  if (!is_canonical_s_ed25519(signature + ED25519_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   sph_sha512_init(&hash_context);
   if (pureEdDSA == 0) {
     sph_sha512(&hash_context, prefix, 34);
diff --git a/src/sign448.c b/src/sign448.c
index 997e7c8..1e24c6a 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -94,6 +94,31 @@ static inline void calculate_s_ed448(uint8_t *s_mod_l, uint8_t *r, uint8_t *h, u
   s_mod_l[56] = 0;
 }
 
+/**
+ * Tells whether the scalar of a signature is
+ * canonically encoded, i.e., 0 <= s < order.
+ * The scalar is public.
+ */
+static inline int is_canonical_s_ed448(const uint8_t *s) {
+  const uint8_t order[ED448_KEY_SIZE_BYTES_PARAM] = {
+      0xf3, 0x44, 0x58, 0xab, 0x92, 0xc2, 0x78, 0x23,
+      0x55, 0x8f, 0xc5, 0x8d, 0x72, 0xc2, 0x6c, 0x21,
+      0x90, 0x36, 0xd6, 0xae, 0x49, 0xdb, 0x4e, 0xc4,
+      0xe9, 0x23, 0xca, 0x7c, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f,
+      0x00
+  };
+  int i;
+  for (i = ED448_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != order[i]) {
+      return s[i] < order[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param public_key
@@ -297,6 +322,10 @@ static int ed448_verify_all(
     return EDDSA_ERROR_PUBLICKEY;
   }
 
+  if (!is_canonical_s_ed448(signature + ED448_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   double_point_mult_4w_ed448(Q, signature + ED448_KEY_SIZE_BYTES_PARAM, H_RAM, &A);
   return (memcmp(signature, Q, ED448_KEY_SIZE_BYTES_PARAM) == 0) ? EDDSA_VERIFICATION_OK : EDDSA_INVALID_SIGNATURE;
 }
-- 
2.43.0


From 5b9a86690e06d9f8309d875d5cc635fa648d45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 11/24] fix: Ed448 point decoding must reject non-canonical
 strings and use the canonical parity of x

---
 src/edwards448.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 53c9743..bdb4569 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -792,13 +792,19 @@ static int point_decoding_ed448(
   EltFp448_1w_redradix u, v, v2;
   EltFp448_1w_redradix uv, u2, u3v, u5v, u5v3, u5v3_exp;
   Ed448_PublicKey buf;
+  ALIGN uint8_t bytes[SIZE_FP448];
+  ALIGN uint8_t zero[SIZE_FP448] = {0};
 
   memcpy(buf, A, ED448_KEY_SIZE_BYTES_PARAM);
   int8_t bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
 
   buf[ED448_KEY_SIZE_BYTES_PARAM - 1] &= 0x7F;
   Fp448._1w_red.arith.misc.unser(Y, buf);
-  buf[ED448_KEY_SIZE_BYTES_PARAM - 1] |= bit_X << 7;
+  Fp448._1w_red.arith.misc.ser(bytes, Y);
+  if (buf[ED448_KEY_SIZE_BYTES_PARAM - 1] != 0 || memcmp(bytes, buf, SIZE_FP448) != 0) {
+    /* the encoding of y is not canonical */
+    return -1;
+  }
 
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
@@ -835,7 +841,12 @@ static int point_decoding_ed448(
    * Checking whether
    *      X is positive or negative
    **/
-  if ((unsigned) bit_X != (X[0] & 0x1)) {
+  Fp448._1w_red.arith.misc.ser(bytes, X);
+  if (bit_X != 0 && memcmp(bytes, zero, SIZE_FP448) == 0) {
+    /* X = 0 has no negative */
+    return -1;
+  }
+  if ((bit_X != 0) != (bytes[0] & 0x1)) {
     Fp448._1w_red.arith.neg(X);
     Fp448._1w_red.arithex.compressfast(X);
   }
-- 
2.43.0


From aa46a3ba0309667bf9a706651904f242618c1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 12/24] fix: random bytes must come from the device or not at
 all

---
 third_party/prng.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/third_party/prng.c b/third_party/prng.c
index 17afcde..9c3c36d 100644
--- a/third_party/prng.c
+++ b/third_party/prng.c
@@ -9,24 +9,28 @@
  * @param buffer
  * @param num_bytes
  */
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
   size_t l = 0;
-  int c, fd = open("/dev/urandom", O_RDONLY);
+  int fd = open("/dev/urandom", O_RDONLY);
 
   if (fd == -1) {
     printf("Error opening /dev/urandom\n");
+    abort();
   }
 
-  l = 0;
-  do {
-    c = read(fd, buffer + l, num_bytes - l);
-    l += c;
-    if (c == -1) {
+  while (l < num_bytes) {
+    ssize_t c = read(fd, buffer + l, num_bytes - l);
+    if (c > 0) {
+      l += (size_t) c;
+    } else if (c == 0 || errno != EINTR) {
+      /* Keys must never be built from bytes that were not generated. */
       printf("Error reading /dev/urandom\n");
+      abort();
     }
-  } while (l < num_bytes);
+  }
 
   close(fd);
 }
-- 
2.43.0


From 7c34ae6a4f707bbbff8e73d0eaa5a4c294b6197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 13/24] fix: hashing to the curve must not write through a
 failed allocation

---
 src/hash255.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hash255.c b/src/hash255.c
index e897662..7fb5480 100644
--- a/src/hash255.c
+++ b/src/hash255.c
@@ -42,6 +42,14 @@ void hash_to_field_2w(argElement_1w u0, argElement_1w u1,
   Digest h0_msg, h1_msg;
   message[0] = (uint8_t *)_mm_malloc(mlen + 1, ALIGN_BYTES);
   message[1] = (uint8_t *)_mm_malloc(mlen + 1, ALIGN_BYTES);
+  if (message[0] == NULL || message[1] == NULL) {
+    /* without memory for two copies of the message, hash them one by one */
+    _mm_free(message[0]);
+    _mm_free(message[1]);
+    hash_to_field(u0, 0, msg, mlen);
+    hash_to_field(u1, 1, msg, mlen);
+    return;
+  }
   digest[0] = h0_msg;
   digest[1] = h1_msg;
   memcpy(message[0] + 1, msg, mlen);
-- 
2.43.0


From bdeb4c273daba0b04fd3e5c29f47777ad78768ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 14/24] fix: two-way SHA-512 must not truncate the length of
 its messages

---
 third_party/multi_hash.h  | 2 +-
 third_party/sha512_2way.c | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/third_party/multi_hash.h b/third_party/multi_hash.h
index 2556105..84e554b 100644
--- a/third_party/multi_hash.h
+++ b/third_party/multi_hash.h
@@ -76,7 +76,7 @@
 :/* in   */ "r" (Y)\
 :/* regs */);
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length, uint8_t *digest_2x[2]);
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length, uint8_t *digest_2x[2]);
 
 ALIGN static const uint64_t KSHA512[80] =
 {
diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index b22d99e..2219ca7 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -265,17 +265,17 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     }
 }
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length_bytes, uint8_t *digest_2x[2])
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length_bytes, uint8_t *digest_2x[2])
 {
     const __m128i big_endian = _mm_set_epi64x(0x08090a0b0c0d0e0f,0x0001020304050607);
-    const unsigned int num_blocks = message_length_bytes>>7;
-    const unsigned int remainder_bytes = message_length_bytes-(num_blocks<<7);
+    const size_t num_blocks = message_length_bytes>>7;
+    const size_t remainder_bytes = message_length_bytes-(num_blocks<<7);
     const __uint128_t mlen_bits = (__uint128_t)message_length_bytes*8;
     ALIGN __m128i state[8];
     ALIGN __m128i block[80];
     ALIGN uint8_t buffer[BLOCK_SIZE_BYTES*NUM_MSG] = {0};
     int i=0,msg=0;
-    unsigned int b=0;
+    size_t b=0;
 
     initialize(state);
     for(b=0;b<num_blocks;b++)
-- 
2.43.0


From 389f8f93511cf1ede7639f94a40957a037285e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 15/24] fix: local constants that are read as vectors must be
 aligned as vectors

---
 src/edwards255.c             | 2 +-
 src/eltfp25519_4w_redradix.c | 2 +-
 src/eltfp448_4w_redradix.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index b613f40..8f24b5c 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -439,7 +439,7 @@ static inline void _1way_fulladd_2w_H0H5(PointXYZT_2w_H0H5 *Q, PointXYZT_2w_H0H5
 	argElement_2w XY2 = P->XY;
 	argElement_2w TZ2 = P->TZ;
 
-	const uint64_t param_curve_2d_02[20] = {
+	const ALIGN uint64_t param_curve_2d_02[20] = {
 			0x2b2f159,0x0f3d130,0x2,0x0,
 			0x1a6e509,0x3407977,0x0,0x0,
 			0x22add7a,0x19ce331,0x0,0x0,
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index cc68d79..c95d4ab 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -218,7 +218,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
       0x0000000,0x0000000,0x7ffffda,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 67cf7f1..934ed86 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -257,7 +257,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
       0x0000000,0x0000000,0x3ffffffc,0x0000000,
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
-- 
2.43.0


From 3662de24d4b414e571e0a0f16c3daed74b24452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 16/24] fix: multi-word multiplication must propagate carries
 through the whole accumulator

---
 src/bytestring.c | 24 ++++++++++++++++++------
 src/edwards448.c | 10 +++++-----
 src/sign255.c    |  2 +-
 src/sign448.c    |  2 +-
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/bytestring.c b/src/bytestring.c
index 0f9f3dc..adf09ee 100644
--- a/src/bytestring.c
+++ b/src/bytestring.c
@@ -65,32 +65,44 @@ static void deallocate_bytes(void *a) {
 }
 
 /**
+ * Calculates:
+ *     C = C+A*B  (mod 2^(64*numC))
  *
  * @param C
+ * @param numC at least numA+numB
  * @param A
  * @param numA
  * @param B
  * @param numB
  */
 static inline void word64_multiplier(
-    uint64_t *C,
+    uint64_t *C, const int numC,
     const uint64_t *A, const int numA,
     const uint64_t *B, const int numB) {
   int i, j;
+  uint64_t carry;
+  /* (carry,Z) = Z+X*Y+carry never exceeds 128 bits */
 #define mul64x64(Z, X, Y)    __asm__ __volatile__ (\
-            "movq 0(%3), %%rax     ;"\
-            "mulq 0(%4)            ;"\
+            "movq 0(%2), %%rax     ;"\
+            "mulq 0(%3)            ;"\
+            "addq %1, %%rax        ;"\
+            "adcq $0x0, %%rdx      ;"\
             "addq %%rax, %0        ;"\
-            "adcq %%rdx, %1        ;"\
-            "adcq $0x0,  %2        ;"\
-    :/* out  */ "+r" ((Z)[0]),"+r" ((Z)[1]),"+r" ((Z)[2])\
+            "adcq $0x0, %%rdx      ;"\
+            "movq %%rdx, %1        ;"\
+    :/* out  */ "+r" ((Z)[0]),"+r" (carry)\
     :/* in   */ "r" (X),"r" (Y)\
     :/* regs */ "memory","cc","%rax","%rdx");
 
   for (i = 0; i < numA; i++) {
+    carry = 0;
     for (j = 0; j < numB; j++) {
       mul64x64(C + i + j, A + i, B + j);
     }
+    for (j = i + numB; j < numC; j++) {
+      C[j] += carry;
+      carry = C[j] < carry;
+    }
   }
 #undef mul64x64
 }
diff --git a/src/edwards448.c b/src/edwards448.c
index bdb4569..351b564 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -57,23 +57,23 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 		product[i] = 0;
 	}
 
-	word64_multiplier(product,ellx4,4,high,8);
+	word64_multiplier(product,13,ellx4,4,high,8);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,4);
+	word64_multiplier(product,13,ellx4,4,high,4);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,1);
+	word64_multiplier(product,13,ellx4,4,high,1);
 
 	high[0] = product[6]>>62;
 	product[6] &= (((uint64_t)1)<<62)-1;
-	word64_multiplier(product,ell,4,high,1);
+	word64_multiplier(product,13,ell,4,high,1);
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
@@ -108,7 +108,7 @@ static inline void div4(uint8_t * number_div_4,const uint8_t * number) {
 	{
 		((uint8_t*)a)[i] = number[i];
 	}
-	word64_multiplier(product,ifour,7,a,7);
+	word64_multiplier(product,16,ifour,7,a,7);
 	modular_reduction_ed448((uint8_t*)product);
 	for(i=0;i<56;i++)
 	{
diff --git a/src/sign255.c b/src/sign255.c
index 5f93156..49b1a00 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -251,7 +251,7 @@ static inline void calculate_s_ed25519(uint8_t *s_mod_l, uint8_t *r, uint8_t *k,
     product[i] = ((uint64_t *) r)[i];
   }
 
-  word64_multiplier(product, (uint64_t *) k, 4, (uint64_t *) a, 4);
+  word64_multiplier(product, 12, (uint64_t *) k, 4, (uint64_t *) a, 4);
   modular_reduction_ed25519((uint8_t *) product);
   for (i = 0; i < 4; i++) {
     ((uint64_t *) s_mod_l)[i] = product[i];
diff --git a/src/sign448.c b/src/sign448.c
index 1e24c6a..dbf1b47 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -85,7 +85,7 @@ static inline void calculate_s_ed448(uint8_t *s_mod_l, uint8_t *r, uint8_t *h, u
     product[i] = 0;
   }
 
-  word64_multiplier(product, hh, 7, aa, 7);
+  word64_multiplier(product, 16, hh, 7, aa, 7);
   modular_reduction_ed448((uint8_t *) product);
 
   for (i = 0; i < 56; i++) {
-- 
2.43.0


From 0f7c7e691644f39d29a16bbba3cb0b66395cee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 17/24] fix: reduction modulo the order of Ed25519 must add the
 order back after a borrow

---
 src/sign255.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sign255.c b/src/sign255.c
index 49b1a00..53a28f7 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -207,13 +207,27 @@ static inline void reduce64bits(uint64_t *a) {
   "sbbq    %%rdx,  %%r8  \n\t"
   "sbbq     $0x0,  %%r9  \n\t"
 
+  /* add the order of the group back to a negative value */
+  "movq     %%r9, %%rax  \n\t"
+  "sarq      $63, %%rax  \n\t"
+  "movq    0(%1), %%rdx  \n\t"
+  "andq    %%rax, %%rdx  \n\t"
+  "movq    8(%1), %%r10  \n\t"
+  "andq    %%rax, %%r10  \n\t"
+  "shrq      $63, %%rax  \n\t"
+  "shlq      $60, %%rax  \n\t"
+  "addq    %%rdx, %%rbx  \n\t"
+  "adcq    %%r10, %%rcx  \n\t"
+  "adcq     $0x0,  %%r8  \n\t"
+  "adcq    %%rax,  %%r9  \n\t"
+
   "movq    %%rbx,  0(%0) \n\t"
   "movq    %%rcx,  8(%0) \n\t"
   "movq     %%r8, 16(%0) \n\t"
   "movq     %%r9, 24(%0) \n\t"
   :/* out  */
   :/* in   */ "r" (a), "r" (ell)
-  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9"
+  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9", "%r10"
   );
 }
 
-- 
2.43.0


From 7d5b8109a3615f8fab515108edbd78d0089fad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 18/24] fix: reduction modulo the order of Ed448 must keep the
 last carry and deliver the canonical scalar

---
 src/edwards448.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 351b564..d80034d 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -38,6 +38,7 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 	int i;
 	const uint64_t ellx4[4] = {0x721cf5b5529eec34,0x7a4cf635c8e9c2ab,0xeec492d944a725bf,0x20cd77058};
 	const uint64_t ell[4]   = {0xdc873d6d54a7bb0d,0xde933d8d723a70aa,0x3bb124b65129c96f,0x08335dc16};
+	const uint64_t one[1]   = {0x1};
 	uint64_t *pA = (uint64_t *)a;
 
 	ALIGN uint64_t product[15];
@@ -71,9 +72,20 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 	}
 	word64_multiplier(product,13,ellx4,4,high,1);
 
-	high[0] = product[6]>>62;
+	high[0] = (product[7]<<2) | (product[6]>>62);
+	product[7] = 0;
 	product[6] &= (((uint64_t)1)<<62)-1;
 	word64_multiplier(product,13,ell,4,high,1);
+
+	/* subtract the order once more unless product+ell < 2^446 */
+	for(i=0;i<8;i++)
+	{
+		high[i] = product[i];
+	}
+	word64_multiplier(high,8,ell,4,one,1);
+	high[0] = high[6]>>62;
+	word64_multiplier(product,13,ell,4,high,1);
+	product[6] &= (((uint64_t)1)<<62)-1;
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
-- 
2.43.0


From f73bae67905368df93d5a52bff9c6146a300f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:26 +0000
Subject: [PATCH 19/24] fix: Ed448 point decoding let a limb underflow when y^2
 or d*y^2 has a zero low limb (y = 0 was refused)

---
 src/edwards448.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index d80034d..c818d26 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -799,6 +799,7 @@ static int point_decoding_ed448(
       0xfffffff, 0xfffffff,
       0xfffffff, 0xfffffff
   };
+  const EltFp448_1w_redradix one = {1};
   EltFp448_1w_redradix X, Y, Z, T;
   EltFp448_1w_redradix a, b, c, d;
   EltFp448_1w_redradix u, v, v2;
@@ -821,8 +822,10 @@ static int point_decoding_ed448(
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
   Fp448._1w_red.arith.mul(v, u, (argElement_1w) param_curve_d);/* dy^2 */
-  u[0] = u[0] - 1;  /* u=y^2-1 */
-  v[0] = v[0] - 1;  /* v=dy^2-1 */
+  Fp448._1w_red.arith.sub(u, u, (argElement_1w) one);  /* u=y^2-1 */
+  Fp448._1w_red.arithex.compressfast(u);
+  Fp448._1w_red.arith.sub(v, v, (argElement_1w) one);  /* v=dy^2-1 */
+  Fp448._1w_red.arithex.compressfast(v);
 
   Fp448._1w_red.arith.mul(uv, u, v);      /* uv */
   Fp448._1w_red.arith.misc.copy(u2, u);
-- 
2.43.0


From c7fd82593cd5e3fa94e9f9531f0c62bc80c7e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:26 +0000
Subject: [PATCH 20/24] fix: Ed448 point decoding subtracted squares whose
 limbs may exceed those of 2p

---
 src/edwards448.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edwards448.c b/src/edwards448.c
index c818d26..3cd8d18 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -879,7 +879,9 @@ static int point_decoding_ed448(
   Fp448._1w_red.arith.neg(a);
   Fp448._1w_red.arithex.compressfast(a);
   Fp448._1w_red.arith.sqr(X);
+  Fp448._1w_red.arithex.compressfast(X);
   Fp448._1w_red.arith.sqr(Y);
+  Fp448._1w_red.arithex.compressfast(Y);
   Fp448._1w_red.arith.add(b, Y, X);
   new_compressfast_Fp448_1w_redradix(b);
   Fp448._1w_red.arith.sub(c, Y, X);
-- 
2.43.0


From dc27972f3c1b547a7593ab81a9ad7598c5b56d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:57 +0000
Subject: [PATCH 21/24] fix: subtraction of unreduced products in 4-way Fp448
 must not wrap

addsublar added 2^34*P before subtracting a product, but the product of a
difference (limbs up to 3*2^28, 5*2^28 at limb 8) and a table entry reaches
114*2^56 at limb 8, above 2^34*P's 63*2^56, so _4way_mixadd_ed448 could lose
a borrow out of a 64-bit limb. Use 2^35*P, as everywhere else.
---
 src/eltfp448_4w_redradix.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 934ed86..8f1439f 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -236,21 +236,21 @@ DECL(void, addsub)(argElement_4w  C,argElement_4w  D, argElement_4w  A, argEleme
 }
 
 DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
-  const __m256i _2_to_34P[NUM_DIGITS_FP448] = {
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffff800000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000)
+  const __m256i _2_to_35P[NUM_DIGITS_FP448] = {
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff000000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000)
   };
   int i=0;
   for(i=0;i<NUM_DIGITS_FP448;i++)
   {
       __m256i add = ADD(A[i],B[i]);
-      __m256i sub = ADD(A[i],SUB(_2_to_34P[i], B[i]));
+      __m256i sub = ADD(A[i],SUB(_2_to_35P[i], B[i]));
       A[i] = add;
       B[i] = sub;
   }
-- 
2.43.0


From c78cd9e252ca126a2664a19f76a80166e5eb273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:11 +0000
Subject: [PATCH 22/24] fix: 4-way mixed addition of Ed25519 verification must
 not underflow

The products subtracted in the mixed addition can exceed 2^34 p limb by limb, so
the difference wrapped and genuine signatures were rejected for some keys (with the
private key 03 00.. | 717125 | 00.. two thirds of them). Use 2^35 p.
---
 src/edwards255.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 8f24b5c..43740d3 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1219,16 +1219,16 @@ static inline int wnaf_256bits(int8_t *K, const uint8_t *p8_r, int w) {
 }
 
 static const ALIGN uint64_t CONST_2_to_35P_4w[4*NUM_DIGITS_FP25519] = {
-		0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000
+		0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000
 };
 /**
  * Computes the doubling of ONE point
-- 
2.43.0


From 42a5982890d60941878189897021e850302a29b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:11 +0000
Subject: [PATCH 23/24] fix: 4-way mixed addition of Ed448 verification must
 not underflow

The product of two unreduced sums reaches almost 2^63 in a limb, more than the
2^34 p it was subtracted from: for some public keys verification computed a wrong
point. Use 2^35 p in the lanes that subtract.
---
 src/edwards448.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 3cd8d18..8f82a5b 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -513,15 +513,16 @@ static inline void _1way_doubling_2w_H0H8(PointXYZT_2w_H0H8 * P) {
 static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precompute_4w_H0H8 * P) {
   int i;
   EltFp448_4w_redradix ABCD, subYX_addYX_T_Z;
-  const __m256i CONST_2_to_34P[NUM_DIGITS_FP448] = {
-      SET164(0x3ffffffc00000000), SET164(0x3ffffff800000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000)
+  /* subtracted products reach almost 2^63; added ones must not exceed 2^64 */
+  const __m256i CONST_2_to_35P_00_00_2_to_35P[NUM_DIGITS_FP448] = {
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff000000000, 0, 0, 0x7ffffff000000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000), SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000)
   };
 
   const __m256i CONST_2P_00_00_00[NUM_DIGITS_FP448] = {
@@ -535,7 +536,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
       SET64(0, 0, 0, 0x1ffffffe), SET64(0, 0, 0, 0x1ffffffe)
   };
 
-  argElement_4w _2_to_34P = (argElement_2w) CONST_2_to_34P;
+  argElement_4w _2_to_35P = (argElement_4w) CONST_2_to_35P_00_00_2_to_35P;
   argElement_4w _2P_00_00_00 = (argElement_2w) CONST_2P_00_00_00;
   argElement_4w XYTZ = Q->XYTZ;
   argElement_4w EGHF = subYX_addYX_T_Z;
@@ -555,7 +556,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
   for (i = 0; i < NUM_DIGITS_FP448; i++) {
     __m256i BDBD = PERM64(ABCD[i], 0xDD);
     __m256i ACAC = PERM64(ABCD[i], 0x88);
-    EGHF[i] = ADD(ADD(BDBD, _2_to_34P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
+    EGHF[i] = ADD(ADD(BDBD, _2_to_35P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
   }
   Fp448._4w_red.arithex.compress(EGHF);
 
-- 
2.43.0


From 7f9b3049a2e5dfbb492442a63675be9c6a2ed9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:35 +0000
Subject: [PATCH 24/24] fix: doubling of two points at once must not underflow

---
 src/eltfp25519_2w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_2w_redradix.c b/src/eltfp25519_2w_redradix.c
index 60f8b7b..419bb4e 100644
--- a/src/eltfp25519_2w_redradix.c
+++ b/src/eltfp25519_2w_redradix.c
@@ -711,7 +711,7 @@ DECL(void, naddsub)(argElement_2w C, argElement_2w D,argElement_2w A, argElement
   for(i=0;i<(NUM_DIGITS_FP25519/2);i++)
   {
     __m256i T = SUB(_2P[i],A[i]);
-    C[i] = SUB(T,B[i]);
+    C[i] = ADD(T,SUB(_2P[i],B[i]));
     D[i] = ADD(T,B[i]);
   }
 }
-- 
2.43.0

