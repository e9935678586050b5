From 4df73c564946a971343c98e2e08d4161a4b5a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 01/13] fix: K1600x8-AVX512-u4 does not compile

The KT128/KT256 leaf functions use rounds12 without the loop counter and the
semicolon that its 4-round unrolling needs.
---
 .../AVX512/KeccakP-1600-times8-SIMD512.c           | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
index 9784f5a..ffd56e3 100644
--- a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
+++ b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
@@ -1208,6 +1208,9 @@ size_t KeccakP1600times8_12rounds_FastLoop_Absorb(KeccakP1600times8_SIMD512_stat
 void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned char *output)
 {
     KeccakP_DeclareVars;
+    #if (KeccakP1600times8_unrolling < 12)
+    unsigned int i;
+    #endif
     unsigned int j;
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
@@ -1219,14 +1222,14 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT128_rateInBytes); j += KT128_rateInBytes) {
         XORdata21(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT128_rateInBytes;
     }
 
     XORdata16(_, index, (const uint64_t *)input);
     XOReq(_me, CONST_64(0x0BULL));
     XOReq(_sa, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*4, 6*4, 5*4, 4*4, 3*4, 2*4, 1*4, 0*4);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
@@ -1238,6 +1241,9 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
 void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned char *output)
 {
     KeccakP_DeclareVars;
+    #if (KeccakP1600times8_unrolling < 12)
+    unsigned int i;
+    #endif
     unsigned int j;
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
@@ -1249,14 +1255,14 @@ void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT256_rateInBytes); j += KT256_rateInBytes) {
         XORdata17(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT256_rateInBytes;
     }
 
     XORdata4(_, index, (const uint64_t *)input);
     XOReq(_bu, CONST_64(0x0BULL));
     XOReq(_me, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*8, 6*8, 5*8, 4*8, 3*8, 2*8, 1*8, 0*8);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
-- 
2.43.0


From 4e096ceb07ef0e15539dcae59368558e1b250653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 02/13] fix: Duplexing further output of zero bytes writes
 before the output buffer

When the rate is not a multiple of 8 and all output bytes were fetched (or
before the first duplexing call), the mask on the last byte was applied to
output[-1].
---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index cdacc0a..3af1a61 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -161,7 +161,7 @@ int DuplexingGetFurtherOutput(DuplexInstance *instance, unsigned char *output, u
 
     SnP_ExtractBytes(&instance->state, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
@@ -175,7 +175,7 @@ int DuplexingGetFurtherOutputAndAdd(DuplexInstance *instance, const unsigned cha
 
     SnP_ExtractAndAddBytes(&instance->state, input, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
-- 
2.43.0


From 0b8acafe552a60867f77371608448e703c2b9f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 03/13] fix: Duplexing accepts too long a last input part after
 partial input was fed

The number of bits left for delimitedSigmaEnd did not count the bytes fed
before, so that the input could reach the inner part of the state.
---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index 3af1a61..9732642 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -60,8 +60,8 @@ int Duplexing(DuplexInstance *instance, const unsigned char *sigmaBegin, unsigne
         return 1;
     if ((instance->byteInputIndex+sigmaBeginByteLen)*8 > rho_max)
         return 1;
-    if (rho_max - sigmaBeginByteLen*8 < 7) {
-        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - sigmaBeginByteLen*8;
+    if (rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8 < 7) {
+        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8;
         if (delimitedSigmaEnd >= (1 << (maxBitsInDelimitedSigmaEnd+1)))
             return 1;
     }
-- 
2.43.0


From 26e7489969c1d422a66f2d6dadf2032eb0d8cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 04/13] fix: ParallelHash with a very large block size
 overflows the parallel loop bound

Parallellism * blockLen wraps for power-of-two block sizes of 2^61 bytes and
more (2^29 on 32-bit platforms), so that the fast loops never end and read
and write out of bounds. Compare inputByteLen / Parallellism instead.
---
 lib/high/Keccak/SP800-185/SP800-185.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index 0c6d4c8..8c859d2 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -237,7 +237,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
 #define ParallelHash_Squeeze      JOIN(ParallelHash,_Squeeze)
 
 #define ParallelSpongeFastLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( (inputByteLen / Parallellism) >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
@@ -263,7 +263,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
     }
 
 #define ParallelSpongeLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( (inputByteLen / Parallellism) >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
-- 
2.43.0


From d725f7ae29922a6c0946b25a86638acf6692c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 05/13] fix: Kravatte, Xoofff: ignore the unused bits of an
 incomplete last input byte

The last byte of a message whose length is not a multiple of 8 was used without masking, so bits beyond
the end of the message changed the result (and could cancel the padding bit).
---
 lib/high/Kravatte/Kravatte.c | 2 +-
 lib/high/Xoofff/Xoofff.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Kravatte/Kravatte.c b/lib/high/Kravatte/Kravatte.c
index 6cd49d1..b3192f1 100644
--- a/lib/high/Kravatte/Kravatte.c
+++ b/lib/high/Kravatte/Kravatte.c
@@ -328,7 +328,7 @@ static const unsigned char * Kra_Compress( unsigned char *k, unsigned char *x, c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            KeccakP1600_AddByte(&state, *message++ | (1 << *messageBitLen), (unsigned int)messageByteLen);
+            KeccakP1600_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), (unsigned int)messageByteLen);
         else
             KeccakP1600_AddByte(&state, 1, (unsigned int)messageByteLen);
         KeccakP1600_Permute_Nrounds(&state, 6);
diff --git a/lib/high/Xoofff/Xoofff.c b/lib/high/Xoofff/Xoofff.c
index 5069627..2205a62 100644
--- a/lib/high/Xoofff/Xoofff.c
+++ b/lib/high/Xoofff/Xoofff.c
@@ -430,7 +430,7 @@ static const unsigned char * Xoodoo_CompressBlocks( unsigned char *k, unsigned c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            Xoodoo_AddByte(&state, *message++ | (1 << *messageBitLen), messageByteLen);
+            Xoodoo_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), messageByteLen);
         else
             Xoodoo_AddByte(&state, 1, messageByteLen);
         Xoodoo_Permute_6rounds(&state);
-- 
2.43.0


From 4b7eccef417b08d59460058f02d261a9bc0a5e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 06/13] fix: Kravatte-SANE, Xoofff-SANE: ignore the unused bits
 of an incomplete last byte of associated data

As SANSE already does. Otherwise bits beyond the end of the data run into the domain separation bits.
---
 lib/high/Kravatte/KravatteModes.c | 4 ++--
 lib/high/Xoofff/XoofffModes.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 50cc5f7..33d1029 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -151,11 +151,11 @@ static int Kravatte_SANE_AddToHistory(Kravatte_SANE_Instance *kp, const BitSeque
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << 7));
         if ( Kra(&kp->kravatte, lastByte, 8, KRAVATTE_FLAG_NONE) != 0) {
             return 1;
         }
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index bc6180b..6c164f1 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -278,11 +278,11 @@ static int XoofffSANE_AddToHistory(XoofffSANE_Instance *xp, const BitSequence *d
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << 7));
         if ( Xoofff_Compress(&xp->xoofff, lastByte, 8, Xoofff_FlagNone) != 0) {
             return 1;
         }
-- 
2.43.0


From 5cbed574941eae0d903ca47f1273509feaec94f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 07/13] fix: Xoodyak ARMv6-M: take the unaligned path when
 either buffer is unaligned

EncryptFullBlocks and DecryptFullBlocks tested the AND of the two addresses, so ldm/stm faulted when only one of them was unaligned.
---
 lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s | 4 ++--
 lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s
index 41981b0..d12d654 100644
--- a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s
+++ b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s
@@ -877,7 +877,7 @@ Xoodyak_EncryptFullBlocks_Ret
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_EncryptFullBlocks_Unaligned
 Xoodyak_EncryptFullBlocks_Aligned
@@ -1047,7 +1047,7 @@ Xoodyak_DecryptFullBlocks_Ret
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_DecryptFullBlocks_Unaligned
 Xoodyak_DecryptFullBlocks_Aligned
diff --git a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s
index 994affa..f11bf8f 100644
--- a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s
+++ b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s
@@ -878,7 +878,7 @@ Xoodyak_EncryptFullBlocks_Ret:
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_EncryptFullBlocks_Unaligned
 Xoodyak_EncryptFullBlocks_Aligned:
@@ -1049,7 +1049,7 @@ Xoodyak_DecryptFullBlocks_Ret:
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_DecryptFullBlocks_Unaligned
 Xoodyak_DecryptFullBlocks_Aligned:
-- 
2.43.0


From 8fac9e09c031107944d38128e21a04876b0587e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 08/13] fix: Xoodyak SSE2, AVX512: decrypting in place gives
 wrong plaintext

---
 .../AVX512/Xoodyak-full-block-SIMD512.c       | 17 +++++++----
 .../Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c  | 29 +++++++++++--------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
index c5275d8..02fa496 100644
--- a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
+++ b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
@@ -298,6 +298,11 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
 
     State2Vars(state);
     do {
+#if defined(__i386__) || defined(_M_IX86)
+        uint32_t i4 = *((uint32_t*)(I+16)), i5 = *((uint32_t*)(I+20)); /* read before O is written, as O may be I */
+#else
+        uint64_t i2 = *((uint64_t*)(I+16)); /* read before O is written, as O may be I */
+#endif
         Round(_rc12);
         Round(_rc11);
         Round(_rc10);
@@ -312,13 +317,13 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         Round(_rc1);
         o0 = XOR(a0, LOAD128u(I[0]));
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        *((uint32_t*)(O+16)) = i4 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = i5 ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, i4, 0);
+        a1 = _mm_insert_epi32(a1, i5, 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        *((uint64_t*)(O+16)) = i2 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, i2, 0);
 #endif
         STORE128u(O[0], o0);
         a0 = XOR(a0, o0); 
diff --git a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
index 3306823..0c22691 100644
--- a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
+++ b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
@@ -321,6 +321,11 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
 
     State2Vars(state);
     do {
+#if defined(__i386__) || defined(_M_IX86)
+        uint32_t i4 = *((uint32_t*)(I+16)), i5 = *((uint32_t*)(I+20)); /* read before O is written, as O may be I */
+#else
+        uint64_t i2 = *((uint64_t*)(I+16)); /* read before O is written, as O may be I */
+#endif
         Round(_rc12);
         Round(_rc11);
         Round(_rc10);
@@ -336,30 +341,30 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         o0 = XOR128(a0, LOAD128u(I[0]));
 #if defined(__SSE41__) || defined(__SSE4_1__)
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        *((uint32_t*)(O+16)) = i4 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = i5 ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, i4, 0);
+        a1 = _mm_insert_epi32(a1, i5, 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        *((uint64_t*)(O+16)) = i2 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, i2, 0);
 #endif
 #else
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_cvtsi128_si32(a1);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
+        *((uint32_t*)(O+16)) = i4 ^ _mm_cvtsi128_si32(a1);
+        *((uint32_t*)(O+20)) = i5 ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
         a1 = _mm_set_epi32(
             // preserve high words
             _mm_cvtsi128_si32(_mm_srli_si128(a1,12), 3),
             _mm_cvtsi128_si32(_mm_srli_si128(a1,8), 2),
-            *((uint32_t*)(I+20)),
-            *((uint32_t*)(I+16)));
+            i5,
+            i4);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_cvtsi128_si64(a1);
+        *((uint64_t*)(O+16)) = i2 ^ _mm_cvtsi128_si64(a1);
         a1 = _mm_set_epi64x(
             // preserve high words
              _mm_cvtsi128_si64(_mm_srli_si128(a1,8)),
-            *((uint64_t*)(I+16)));
+            i2);
 #endif
 #endif
         STORE128u(O[0], o0);
-- 
2.43.0


From 4c23551c2970bf6e701a3b9876e9792ce1938d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 09/13] fix: SANE, SANSE: a refused initialization leaves a
 running session as it was

---
 lib/high/Kravatte/KravatteModes.c | 6 ++++--
 lib/high/Xoofff/XoofffModes.c     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 33d1029..2bcab0f 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -129,9 +129,9 @@ static void memxor(BitSequence *target, const BitSequence *source1, const BitSeq
 int Kravatte_SANE_Initialize(Kravatte_SANE_Instance *kp, const BitSequence *Key, BitLength KeyBitLen, 
                             const BitSequence *Nonce, BitLength NonceBitLen, unsigned char *tag)
 {
-    kp->e = 0;
     if (Kravatte_MaskDerivation(&kp->kravatte, Key, KeyBitLen) != 0)
         return 1;
+    kp->e = 0;
     if (Kra(&kp->kravatte, Nonce, NonceBitLen, KRAVATTE_FLAG_INIT | KRAVATTE_FLAG_LAST_PART) != 0)
         return 1;
     return Vatte(&kp->kravatte, tag, Kravatte_SANE_TagLength * 8, KRAVATTE_FLAG_NONE);
@@ -229,8 +229,10 @@ int Kravatte_SANE_Unwrap(Kravatte_SANE_Instance *kp, const BitSequence *cipherte
 
 int Kravatte_SANSE_Initialize(Kravatte_SANSE_Instance *kp, const BitSequence *Key, BitLength KeyBitLen)
 {
+    if (Kravatte_MaskDerivation(&kp->kravatte, Key, KeyBitLen) != 0)
+        return 1;
     kp->e = 0;
-    return Kravatte_MaskDerivation(&kp->kravatte, Key, KeyBitLen);
+    return 0;
 }
 
 static int Kravatte_SANSE_AddToHistory(Kravatte_SANSE_Instance *kp, const BitSequence *data, BitLength dataBitLen, unsigned char appendix, unsigned int appendixLen)
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index 6c164f1..9eaa156 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -256,9 +256,9 @@ int XoofffWBCAE_Decipher(Xoofff_Instance *xp, const BitSequence *ciphertext, Bit
 int XoofffSANE_Initialize(XoofffSANE_Instance *xp, const BitSequence *Key, BitLength KeyBitLen, 
                             const BitSequence *Nonce, BitLength NonceBitLen, unsigned char *tag)
 {
-    xp->e = 0;
     if (Xoofff_MaskDerivation(&xp->xoofff, Key, KeyBitLen) != 0)
         return 1;
+    xp->e = 0;
     if (Xoofff_Compress(&xp->xoofff, Nonce, NonceBitLen, Xoofff_FlagInit | Xoofff_FlagLastPart) != 0)
         return 1;
     return Xoofff_Expand(&xp->xoofff, tag, XoofffSANE_TagLength * 8, Xoofff_FlagNone);
@@ -388,8 +388,10 @@ static int XoofffSANSE_AddToHistory(XoofffSANSE_Instance *xp, const BitSequence
 
 int XoofffSANSE_Initialize(XoofffSANSE_Instance *xp, const BitSequence *Key, BitLength KeyBitLen)
 {
+    if (Xoofff_MaskDerivation(&xp->xoofff, Key, KeyBitLen) != 0)
+        return 1;
     xp->e = 0;
-    return Xoofff_MaskDerivation(&xp->xoofff, Key, KeyBitLen);
+    return 0;
 }
 
 int XoofffSANSE_Wrap(XoofffSANSE_Instance *xp, const BitSequence *plaintext, BitSequence *ciphertext, BitLength dataBitLen, 
-- 
2.43.0


From e9e30f5af0beb4a5dff4f382a29c2f1b5833726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 10/13] fix: reference Keccak-p[1600]: initializing the
 constants again disturbed calls of other threads

---
 .../KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c   | 7 +++++--
 lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c b/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c
index da12dfb..0ebf7f8 100644
--- a/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c
+++ b/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c
@@ -105,7 +105,7 @@ void KeccakP1600_InitializeRoundConstants(void)
 {
     uint8_t LFSRstate = 0x01;
     unsigned int i, j, bitPosition;
-    uint32_t low, high;
+    uint32_t low, high, even, odd;
 
     for(i=0; i<maxNrRounds; i++) {
         low = high = 0;
@@ -118,7 +118,10 @@ void KeccakP1600_InitializeRoundConstants(void)
                     high ^= (uint32_t)1 << (bitPosition-32);
             }
         }
-        toBitInterleaving(low, high, &(KeccakRoundConstants[i][0]), &(KeccakRoundConstants[i][1]));
+        toBitInterleaving(low, high, &even, &odd);
+        /* Only the final values are stored, as another thread may be using the constants */
+        KeccakRoundConstants[i][0] = even;
+        KeccakRoundConstants[i][1] = odd;
     }
 }
 
diff --git a/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c b/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c
index 9cca99f..2d6e0ea 100644
--- a/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c
+++ b/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c
@@ -66,14 +66,17 @@ void KeccakP1600_InitializeRoundConstants(void)
 {
     uint8_t LFSRstate = 0x01;
     unsigned int i, j, bitPosition;
+    tKeccakLane constant;
 
     for(i=0; i<maxNrRounds; i++) {
-        KeccakRoundConstants[i] = 0;
+        constant = 0;
         for(j=0; j<7; j++) {
             bitPosition = (1<<j)-1; /* 2^j-1 */
             if (LFSR86540(&LFSRstate))
-                KeccakRoundConstants[i] ^= (tKeccakLane)1<<bitPosition;
+                constant ^= (tKeccakLane)1<<bitPosition;
         }
+        /* Only the final value is stored, as another thread may be using the constants */
+        KeccakRoundConstants[i] = constant;
     }
 }
 
-- 
2.43.0


From 05737d598c7c38eb858932db95328c5bf3dc3cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 11/13] fix: KeccakSum: pass the security level to
 KangarooTwelve_Initialize(), the program did not compile

---
 util/KeccakSum/KeccakSum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index f921259..440d6c8 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -67,7 +67,7 @@ int hashInitialize(Instance *instance, const Specifications *specs)
             return 0;
     }
     else if (specs->algorithm == algorithm_K12) {
-        if (KangarooTwelve_Initialize(&instance->k12, specs->hashbitlen/8)) {
+        if (KangarooTwelve_Initialize(&instance->k12, 128, specs->hashbitlen/8)) {
             printf("Incorrect KangarooTwelve parameters.\n");
             return -1;
         }
-- 
2.43.0


From c5bab1c461efa99e48863f9121186d166b98b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 12/13] fix: KeccakSum: selecting a FIPS 202 function after
 --k12, --ph128 or --ph256 left those in force

---
 util/KeccakSum/KeccakSum.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index 440d6c8..ccc31ba 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -269,6 +269,7 @@ int process(int argc, char* argv[])
             }
         }
         else if (strcmp("--shake128", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1344;
             specs.capacity = 256;
             specs.hashbitlen = 264;
@@ -276,6 +277,7 @@ int process(int argc, char* argv[])
             base64 = 1;
         }
         else if (strcmp("--shake256", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 528;
@@ -283,6 +285,7 @@ int process(int argc, char* argv[])
             base64 = 1;
         }
         else if (strcmp("--sha3-224", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1152;
             specs.capacity = 448;
             specs.hashbitlen = 224;
@@ -290,6 +293,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-256", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 256;
@@ -297,6 +301,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-384", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 832;
             specs.capacity = 768;
             specs.hashbitlen = 384;
@@ -304,6 +309,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-512", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 576;
             specs.capacity = 1024;
             specs.hashbitlen = 512;
@@ -314,6 +320,7 @@ int process(int argc, char* argv[])
             specs.delimitedSuffix = 0x01;
         }
         else if (strcmp("--ethereum", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 256;
-- 
2.43.0


From e90c757a04c46176a671b5f3d474f44d4fb22ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 13/13] fix: KeccakSum: digests of 65536 bytes were refused in
 hexadecimal, the room for the final zero was not counted

---
 util/KeccakSum/KeccakSum.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index ccc31ba..9f5343d 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -162,13 +162,13 @@ int processFile(const char *fileName, const Specifications *specs, int base64)
     }
     hashFinal(&instance, specs, buffer);
     if (base64) {
-        if (base64encode(buffer, (specs->hashbitlen+7)/8, display, bufferSize*2)) {
+        if (base64encode(buffer, (specs->hashbitlen+7)/8, display, sizeof(display))) {
             printf("Error while converting to base64.\n");
             return -1;
         }
     }
     else {
-        if (hexencode(buffer, (specs->hashbitlen+7)/8, display, bufferSize*2)) {
+        if (hexencode(buffer, (specs->hashbitlen+7)/8, display, sizeof(display))) {
             printf("Error while converting to hex.\n");
             return -1;
         }
@@ -194,13 +194,13 @@ int processString(const char *input, const Specifications *specs, int base64)
     hashUpdate(&instance, specs, input, strlen(input));
     hashFinal(&instance, specs, buffer);
     if (base64) {
-        if (base64encode(buffer, (specs->hashbitlen+7)/8, display, bufferSize*2)) {
+        if (base64encode(buffer, (specs->hashbitlen+7)/8, display, sizeof(display))) {
             printf("Error while converting to base64.\n");
             return -1;
         }
     }
     else {
-        if (hexencode(buffer, (specs->hashbitlen+7)/8, display, bufferSize*2)) {
+        if (hexencode(buffer, (specs->hashbitlen+7)/8, display, sizeof(display))) {
             printf("Error while converting to hex.\n");
             return -1;
         }
-- 
2.43.0

