From 0ce2cd417059354bfcbb31823567c2db2fc3d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:07 +0000
Subject: [PATCH 01/11] hook: POIK_MODEL_CHECK lets a verification harness
 supply reduced parameters

---
 c-impl/PQCrypto-SIDH/src/fpx.c  |  3 +++
 c-impl/PQCrypto-SIDH/src/poik.h | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/fpx.c b/c-impl/PQCrypto-SIDH/src/fpx.c
index a668fea..861a8aa 100644
--- a/c-impl/PQCrypto-SIDH/src/fpx.c
+++ b/c-impl/PQCrypto-SIDH/src/fpx.c
@@ -773,6 +773,9 @@ void fpinv_chain_mont(digit_t* a)
         fpmul_mont(t[26], tt, tt);
     }
     fpcopy(tt, a);  
+#elif defined(POIK_MODEL_CHECK)
+    fpinv_chain_model(a);   // supplied by the verification harness
+    (void)i, (void)j;
 #endif
 }
 
diff --git a/c-impl/PQCrypto-SIDH/src/poik.h b/c-impl/PQCrypto-SIDH/src/poik.h
index dbc1919..80b510b 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.h
+++ b/c-impl/PQCrypto-SIDH/src/poik.h
@@ -1,5 +1,7 @@
 
-#if POIK_BITS == 434
+#ifdef POIK_MODEL_CHECK
+#include "poik_model.h"     // reduced parameters, supplied by the verification harness
+#elif POIK_BITS == 434
 #include "P434/P434_poik_api.h"
 #elif POIK_BITS == 503
 #include "P503/P503_poik_api.h"
@@ -44,6 +46,21 @@
 #error "please #define POIK_BITS to {434,503,610,751} prior to including <poik.h>"
 #endif
 
+#ifdef POIK_MODEL_CHECK
+    #ifdef POIK_MODEL_REPS
+        #undef POIK_REPS
+        #define POIK_REPS       POIK_MODEL_REPS
+    #endif
+    #ifdef POIK_MODEL_WIDTH
+        #undef POIK_WIDTH
+        #define POIK_WIDTH      POIK_MODEL_WIDTH
+    #endif
+    #ifdef POIK_MODEL_HEIGHT
+        #undef POIK_HEIGHT
+        #define POIK_HEIGHT     POIK_MODEL_HEIGHT
+    #endif
+#endif
+
 ////////////////////////////////////////////////////////////////
 
 typedef union {
-- 
2.43.0


From 2d6f62f9c8c971ee70c138357ef8de3ff50755fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 02/11] fix: public-key validation compared only part of the
 two points

publickey_validation() compared 2*NBITS_TO_NBYTES(NBITS_FIELD) bytes from the
start of an f2elm_t, but the second component starts at the word-aligned
offset sizeof(felm_t), so its most significant bytes were never looked at and
independent points differing only there were taken for dependent ones.
---
 c-impl/PQCrypto-SIDH/src/sidh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/sidh.c b/c-impl/PQCrypto-SIDH/src/sidh.c
index acd5d68..ff42bca 100644
--- a/c-impl/PQCrypto-SIDH/src/sidh.c
+++ b/c-impl/PQCrypto-SIDH/src/sidh.c
@@ -294,7 +294,7 @@ static int publickey_validation(const f2elm_t* PKB, const f2elm_t A, const f2elm
     fp2mul_mont(P->Z, Q->X, tmp2);
     fp2correction(tmp1);
     fp2correction(tmp2);
-    if (memcmp((uint8_t*)tmp1, (uint8_t*)tmp2, 2*NBITS_TO_NBYTES(NBITS_FIELD)) == 0)
+    if (memcmp((uint8_t*)tmp1, (uint8_t*)tmp2, sizeof(f2elm_t)) == 0)
         return 1;
 
     // Check that Ord(P) = Ord(Q) = 3^(e_3)
-- 
2.43.0


From 3aed32fff38e63f7a58117efc8ad0dff68cd07fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:16 +0000
Subject: [PATCH 03/11] fix: do not blind a kernel generator with an unfilled
 buffer

Pack_Chain_A() ignored a failure of random_mod_order_A() and carried on with
an uninitialised scalar.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index cc88941..22d786e 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -954,7 +954,8 @@ static void Pack_Chain_A(chain_A const *in, packed_chain_A *out)
         digit_t scalar[NWORDS_ORDER];
         {
             unsigned char buf[SIDH_SECRETKEYBYTES_A];
-            random_mod_order_A(buf);
+            if (random_mod_order_A(buf))
+                fail("random_mod_order_A() failed");
             buf[0] |= 1;    // make it odd
             decode_to_digits(buf, scalar, SECRETKEY_A_BYTES, NWORDS_ORDER);
         }
-- 
2.43.0


From 55e8b9156bfb8b5293b0467bdef2cc0b723ad45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:16 +0000
Subject: [PATCH 04/11] fix: report a failure to write a response tag

Dump() ignored the result of writing the tag and could return success for a
proof file that lacks it.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 22d786e..f1ede5a 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1550,7 +1550,8 @@ bool Dump(FILE *file, struct proof const *prf) {
     for (size_t i = 0; i < POIK_REPS; ++i) {
         struct response const *const r = &prf->resp[i];
 
-        fprintf(file, "%d\n", r->tag);
+        if (0 > fprintf(file, "%d\n", r->tag))
+            return false;
 
         switch (r->tag) {
         case RESP_LEFT:
-- 
2.43.0


From b7c22d8b44b1a24b3afafe0ce28e02d6406d3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:16 +0000
Subject: [PATCH 05/11] fix: notice when buffered output cannot be written

prove and verify exited with status 0 when the last buffer of their output was
lost, e.g. because the disk is full.
---
 c-impl/prove.c  | 2 +-
 c-impl/verify.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c-impl/prove.c b/c-impl/prove.c
index 00d17dd..77f5d46 100644
--- a/c-impl/prove.c
+++ b/c-impl/prove.c
@@ -32,7 +32,7 @@ int main(int argc, char **argv)
 
     Prove(&sec, prf);
 
-    if (!Dump(stdout, prf)) {
+    if (!Dump(stdout, prf) || fflush(stdout)) {
         fputs("could not write proof to output file\n", stderr);
         free(prf);
         return 3;
diff --git a/c-impl/verify.c b/c-impl/verify.c
index 669e2d0..7da4188 100644
--- a/c-impl/verify.c
+++ b/c-impl/verify.c
@@ -27,7 +27,8 @@ int main()
     }
 
     if (!Dump_Fp2(stdout, &prf->E0) \
-     || !Dump_Fp2(stdout, &prf->E1)) {
+     || !Dump_Fp2(stdout, &prf->E1) \
+     || fflush(stdout)) {
         fputs("could not write curve to output file\n", stderr);
         free(prf);
         return 3;
-- 
2.43.0


From c53f579dfc43d0e64fa7ca8880c0280b09e50d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:16 +0000
Subject: [PATCH 06/11] fix: data race on the descriptor of the random source

The workers of Prove() call randombytes() concurrently; when none was called
before they all read and write the descriptor without synchronisation.
---
 c-impl/PQCrypto-SIDH/src/random/random.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/random/random.c b/c-impl/PQCrypto-SIDH/src/random/random.c
index b8c7e02..f6817aa 100644
--- a/c-impl/PQCrypto-SIDH/src/random/random.c
+++ b/c-impl/PQCrypto-SIDH/src/random/random.c
@@ -12,7 +12,8 @@
 #elif defined(__NIX__)
     #include <unistd.h>
     #include <fcntl.h>
-    static int lock = -1;
+    #include <stdatomic.h>
+    static atomic_int lock = -1;
 #endif
 
 #define passed 0 
-- 
2.43.0


From 4246caefbee84fb4dd8054036fc95a046c674318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:27 +0000
Subject: [PATCH 07/11] fix: requests of 2^31 and more random bytes

The length was truncated to an int, so that such a request could report success
with no byte, or too few bytes, written.
---
 c-impl/PQCrypto-SIDH/src/random/random.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/random/random.c b/c-impl/PQCrypto-SIDH/src/random/random.c
index f6817aa..da9cb07 100644
--- a/c-impl/PQCrypto-SIDH/src/random/random.c
+++ b/c-impl/PQCrypto-SIDH/src/random/random.c
@@ -29,7 +29,8 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
     }
 
 #elif defined(__NIX__)
-    int r, n = (int)nbytes, count = 0;
+    ssize_t r;
+    unsigned long long n = nbytes, count = 0;
     
     if (lock == -1) {
         do {
-- 
2.43.0


From 7843ddb049cf997b585ea0dc0ffe40c5bb2a982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:48 +0000
Subject: [PATCH 08/11] fix: implicit rejection of compressed ciphertexts

cmp_f2elm() is documented to return -1 for different elements but returned 1,
so that ct_cmov() replaced only the lowest bit of every byte of the decrypted
message by the secret seed: rejected ciphertexts got a key derived from the
decrypted message instead of the implicit-rejection key.
---
 c-impl/PQCrypto-SIDH/src/fpx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/fpx.c b/c-impl/PQCrypto-SIDH/src/fpx.c
index 861a8aa..f89a71a 100644
--- a/c-impl/PQCrypto-SIDH/src/fpx.c
+++ b/c-impl/PQCrypto-SIDH/src/fpx.c
@@ -1066,7 +1066,7 @@ int8_t cmp_f2elm(const f2elm_t x, const f2elm_t y)
     for (int i = NWORDS_FIELD-1; i >= 0; i--)
         r |= (a[0][i] ^ b[0][i]) | (a[1][i] ^ b[1][i]);
 
-    return (int8_t)(((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1));
+    return -(int8_t)(((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1));
 }
 
 
-- 
2.43.0


From 93f93fa1ca0aa4e36d6255a3870db258d4b7647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:25 +0000
Subject: [PATCH 09/11] fix: compressed decapsulation accepted degenerate
 ciphertexts

A ciphertext with curve coefficient 0 makes every reconstructed basis point
degenerate, the recovered point is (0:0), and the projective comparison in
validate_ciphertext holds trivially: decapsulation then returned H(m'||ct) with
an m' anybody can compute instead of the implicit-rejection key.
---
 c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c b/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c
index 858381a..0d133cf 100644
--- a/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c
+++ b/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c
@@ -492,6 +492,12 @@ static int PKBDecompression_extended(const unsigned char* SecretKeyA, const unsi
     
     fp2div2(A, Atmp);  // A/2
     xTPLe_fast(R, R, Atmp, OBOB_EXPON);    
+
+    // An honest ciphertext yields a point of order 2^eA; a degenerate (0:0) would pass the equation check
+    fp2copy(R->Z, Atmp);
+    fp2correction(Atmp);
+    if (is_felm_zero(Atmp[0]) && is_felm_zero(Atmp[1]))
+        return 1;
     
     fp2_encode(R->X, tphiBKA_t);
     fp2_encode(R->Z, &tphiBKA_t[FP2_ENCODED_BYTES]);
-- 
2.43.0


From 5d166d4f79bbb7bcf4ec7782d5c653366809d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:06 +0000
Subject: [PATCH 10/11] fix: response tags beyond the range of int

Parse() read the tag with %d, which overflows: 4294967297 was accepted as tag 1.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index f1ede5a..217f5c0 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1641,8 +1641,10 @@ bool Parse(FILE *file, struct proof *prf)
     for (size_t i = 0; i < POIK_REPS; ++i) {
         struct response *const r = &prf->resp[i];
 
-        if (1 != fscanf(file, " %d", &r->tag))
+        long long tag;  // wider than r->tag, so that large values do not wrap around to valid ones
+        if (1 != fscanf(file, " %lld", &tag) || tag < RESP_LEFT || tag > RESP_RIGHT)
             return false;
+        r->tag = tag;
 
         switch (r->tag) {
         case RESP_LEFT:
-- 
2.43.0


From 87aba30873614adb26d16320648b2704a8091d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:33 +0000
Subject: [PATCH 11/11] fix: Check_Curve compared an uninitialized point when a
 sampled point has trivial 2- or 3-part

---
 c-impl/PQCrypto-SIDH/src/poik.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 217f5c0..74bd627 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -792,7 +792,7 @@ static bool Check_Curve(curve_proj const *E)
         point_proj P, Q;
         random_point(E->A, &P);
 
-        struct torsion_data cur2, cur3;
+        struct torsion_data cur2 = {0}, cur3 = {0};
 
         // determine 2-valuation of order
         xTPLe(&P, &Q, A24minus, A24plus, OBOB_EXPON);
-- 
2.43.0

