From 94ff770077230822486b4fec9688ba5104f09194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 1/4] fix: ParallelHash: avoid overflow of
 Parallellism*blockLen for huge block lengths

---
 lib/high/Keccak/SP800-185/SP800-185.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index 0c6d4c8..ac1cd4e 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -237,7 +237,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
 #define ParallelHash_Squeeze      JOIN(ParallelHash,_Squeeze)
 
 #define ParallelSpongeFastLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( inputByteLen / Parallellism >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
@@ -263,7 +263,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
     }
 
 #define ParallelSpongeLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( inputByteLen / Parallellism >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
-- 
2.43.0


From 23da1b6b36499b5a46e5bcc2913bebdff17bbc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 2/4] fix: Keccak duplex: bound delimitedSigmaEnd by the rate
 left after partial input

---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index cdacc0a..66d692c 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -60,8 +60,8 @@ int Duplexing(DuplexInstance *instance, const unsigned char *sigmaBegin, unsigne
         return 1;
     if ((instance->byteInputIndex+sigmaBeginByteLen)*8 > rho_max)
         return 1;
-    if (rho_max - sigmaBeginByteLen*8 < 7) {
-        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - sigmaBeginByteLen*8;
+    if (rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8 < 7) {
+        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8;
         if (delimitedSigmaEnd >= (1 << (maxBitsInDelimitedSigmaEnd+1)))
             return 1;
     }
-- 
2.43.0


From a0c7dd110b5ea384d4e9fa841e9e70552dbf68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 3/4] fix: Keccak duplex: do not mask a byte before an empty
 output

---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index 66d692c..a1a546a 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -161,7 +161,7 @@ int DuplexingGetFurtherOutput(DuplexInstance *instance, unsigned char *output, u
 
     SnP_ExtractBytes(&instance->state, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen != 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
@@ -175,7 +175,7 @@ int DuplexingGetFurtherOutputAndAdd(DuplexInstance *instance, const unsigned cha
 
     SnP_ExtractAndAddBytes(&instance->state, input, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen != 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
-- 
2.43.0


From 7106ce729b40758e6c88004a169ee88cb582b35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 4/4] fix: Xoodyak: decrypt in place with the SSE2 and AVX512
 full-block loops

---
 .../AVX512/Xoodyak-full-block-SIMD512.c       | 19 ++++++++----
 .../Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c  | 31 ++++++++++++-------
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
index c5275d8..d4dbcba 100644
--- a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
+++ b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
@@ -298,6 +298,13 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
 
     State2Vars(state);
     do {
+        /* The input is read before the output is written, as both may be the same buffer. */
+#if defined(__i386__) || defined(_M_IX86)
+        uint32_t c0 = *((uint32_t*)(I+16));
+        uint32_t c1 = *((uint32_t*)(I+20));
+#else
+        uint64_t c0 = *((uint64_t*)(I+16));
+#endif
         Round(_rc12);
         Round(_rc11);
         Round(_rc10);
@@ -312,13 +319,13 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         Round(_rc1);
         o0 = XOR(a0, LOAD128u(I[0]));
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        *((uint32_t*)(O+16)) = c0 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = c1 ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, c0, 0);
+        a1 = _mm_insert_epi32(a1, c1, 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        *((uint64_t*)(O+16)) = c0 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, c0, 0);
 #endif
         STORE128u(O[0], o0);
         a0 = XOR(a0, o0); 
diff --git a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
index 3306823..25ad532 100644
--- a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
+++ b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
@@ -321,6 +321,13 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
 
     State2Vars(state);
     do {
+        /* The input is read before the output is written, as both may be the same buffer. */
+#if defined(__i386__) || defined(_M_IX86)
+        uint32_t c0 = *((uint32_t*)(I+16));
+        uint32_t c1 = *((uint32_t*)(I+20));
+#else
+        uint64_t c0 = *((uint64_t*)(I+16));
+#endif
         Round(_rc12);
         Round(_rc11);
         Round(_rc10);
@@ -336,30 +343,30 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         o0 = XOR128(a0, LOAD128u(I[0]));
 #if defined(__SSE41__) || defined(__SSE4_1__)
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        *((uint32_t*)(O+16)) = c0 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = c1 ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, c0, 0);
+        a1 = _mm_insert_epi32(a1, c1, 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        *((uint64_t*)(O+16)) = c0 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, c0, 0);
 #endif
 #else
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_cvtsi128_si32(a1);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
+        *((uint32_t*)(O+16)) = c0 ^ _mm_cvtsi128_si32(a1);
+        *((uint32_t*)(O+20)) = c1 ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
         a1 = _mm_set_epi32(
             // preserve high words
             _mm_cvtsi128_si32(_mm_srli_si128(a1,12), 3),
             _mm_cvtsi128_si32(_mm_srli_si128(a1,8), 2),
-            *((uint32_t*)(I+20)),
-            *((uint32_t*)(I+16)));
+            c1,
+            c0);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_cvtsi128_si64(a1);
+        *((uint64_t*)(O+16)) = c0 ^ _mm_cvtsi128_si64(a1);
         a1 = _mm_set_epi64x(
             // preserve high words
              _mm_cvtsi128_si64(_mm_srli_si128(a1,8)),
-            *((uint64_t*)(I+16)));
+            c0);
 #endif
 #endif
         STORE128u(O[0], o0);
-- 
2.43.0

