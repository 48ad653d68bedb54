From f8118203df0201e4f99bdc2f4de89659f5ead78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:57 +0000
Subject: [PATCH 01/27] fix: multi-byte encoders no longer match a symbol past
 the end of the input

---
 src/rle128_extreme_cpu.h               | 2 +-
 src/rle24_extreme_cpu_encode.h         | 2 +-
 src/rle48_extreme_cpu_encode.h         | 2 +-
 src/rleX_Xsl_multibyte_encoder.h       | 4 ++--
 src/rleX_Xsl_short.h                   | 4 ++--
 src/rleX_Xsl_short_multibyte_encoder.h | 4 ++--
 src/rleX_extreme_cpu_encode.h          | 2 +-
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 006952d..61d5110 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -267,7 +267,7 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 
 			symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
 
-			if (i + symbolSize <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
+			if (i + symbolSize * 2 <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
 			{
 				count = symbolSize * 2;
 				i += symbolSize * 2;
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 5fac1a6..0d8ef25 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -354,7 +354,7 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 
       symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
 
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
       {
         count = symbolSize * 2;
         i += symbolSize * 2;
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 82321b6..e209435 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -353,7 +353,7 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 
       symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
 
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
       {
         count = symbolSize * 2;
         i += symbolSize * 2;
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 2792827..faf951f 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -322,9 +322,9 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
 #endif
 
 #ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
 #else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
 #endif
       {
         state.count = (TYPE_SIZE / 8) * 2;
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 1553dc0..37b0268 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -867,9 +867,9 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
       const bool symbolWouldFit = i + (TYPE_SIZE / 8) <= inSize;
 
 #ifndef SYMBOL_MASK
-      if (symbolWouldFit && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
 #else
-      if (symbolWouldFit && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
 #endif
       {
         state.count = (TYPE_SIZE / 8) * 2;
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index e971f8f..74d8044 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -328,9 +328,9 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
 #endif
 
 #ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
 #else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
 #endif
       {
         state.count = (TYPE_SIZE / 8) * 2;
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index bab39a5..4d0890c 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -368,7 +368,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
 
       symbol = *(symbol_t *)(&pIn[i]);
 
-      if (i + sizeof(symbol_t) <= inSize && ((symbol_t *)(&pIn[i]))[1] == symbol)
+      if (i + sizeof(symbol_t) * 2 <= inSize && ((symbol_t *)(&pIn[i]))[1] == symbol)
       {
         count = sizeof(symbol_t) * 2;
         i += sizeof(symbol_t) * 2;
-- 
2.43.0


From 16c91bf051ac3a36830f43f20e2cdabb2d66da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:57 +0000
Subject: [PATCH 02/27] fix: decompressors reject streams that are too short to
 hold the size header

---
 src/rle128_extreme_cpu.h         | 2 +-
 src/rle24_extreme_cpu.h          | 2 +-
 src/rle48_extreme_cpu.h          | 2 +-
 src/rle8_extreme_cpu.h           | 2 +-
 src/rle8_low_entropy_cpu.c       | 4 ++--
 src/rle8_low_entropy_short_cpu.c | 2 +-
 src/rle8_mmtf.c                  | 2 +-
 src/rleX_Xsl.h                   | 2 +-
 src/rleX_Xsl_short.h             | 2 +-
 src/rleX_extreme_cpu.h           | 2 +-
 src/rle_sh.c                     | 2 +-
 11 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 61d5110..f724e67 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -777,7 +777,7 @@ static void CONCAT3(rle128_, CODEC, _decompress_avx512f)(IN const uint8_t *pInSt
 
 uint32_t CONCAT3(rle128_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-	if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+	if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
 		return 0;
 
 	const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index a453a1b..c29b9aa 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -83,7 +83,7 @@ uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t
 
 uint32_t CONCAT3(rle24_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index 17d79a2..0f69302 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -83,7 +83,7 @@ uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t
 
 uint32_t CONCAT3(rle48_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 097b5f2..13802fa 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -701,7 +701,7 @@ uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint
 
 uint32_t CONCAT3(rle8, CODEC, decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((rle_extreme_t *)pIn)->compressedLength;
diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index d5ee063..39ed071 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -100,7 +100,7 @@ uint32_t rle8_low_entropy_decompressed_size(IN const uint8_t *pIn, const uint32_
 
 uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
@@ -192,7 +192,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
 uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index d02033c..f4ee913 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -102,7 +102,7 @@ uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pI
 
 uint32_t rle8_low_entropy_short_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index c5cb7ca..1ec6513 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -648,7 +648,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
 
 uint32_t rle8_mmtf128_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedOutSize = ((uint32_t *)pIn)[0];
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index 217936e..1650af9 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -1847,7 +1847,7 @@ static void CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, decompress_avx512f)(IN co
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 37b0268..8db41f4 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -2614,7 +2614,7 @@ uint32_t CONCAT3(rle8_, CODEC, decompress)(IN const uint8_t *pIn, const uint32_t
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, decompress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 #endif
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index 49b5125..e809b57 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -81,7 +81,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _decompress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle_sh.c b/src/rle_sh.c
index f113437..d19a032 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -508,7 +508,7 @@ uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
 uint32_t rle8_sh_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const uint32_t expectedOutSize = ((uint32_t *)pIn)[0];
-- 
2.43.0


From 41d3b5e1e70d4dae47b67558a4d55b560c8d0729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:33 +0000
Subject: [PATCH 03/27] fix: rle8m_decompress decodes the last section up to
 the end of the stream, not of the buffer

---
 src/rle8_low_entropy_cpu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 39ed071..509fbbe 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -238,7 +238,7 @@ uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
   // Decode last section.
   {
-    const uint8_t *pEnd = pIn + inSize;
+    const uint8_t *pEnd = pIn + expectedInSize;
 
     const uint32_t size = rle8_low_entropy_decompress_with_info(pCIn, pEnd, &decompressInfo, pOut, (uint32_t)remainingSize);
 
-- 
2.43.0


From e7581dfbe88974c1ba8b70523ad54ae5332669a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:33 +0000
Subject: [PATCH 04/27] fix: low entropy decoders no longer miscount if all 256
 symbols are run length encoded

---
 src/rle8_low_entropy_cpu.c       | 2 +-
 src/rle8_low_entropy_short_cpu.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 509fbbe..a596eb4 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -937,7 +937,7 @@ uint32_t rle8_low_entropy_decompress_with_info(IN const uint8_t *pIn, IN const u
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index f4ee913..27cf925 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -447,7 +447,7 @@ uint32_t rle8_low_entropy_short_decompress_with_info(IN const uint8_t *pIn, IN c
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
-- 
2.43.0


From 6389d1b5475845dbe0a69f03f8132d9e8a1a00dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:33 +0000
Subject: [PATCH 05/27] fix: low entropy encoders stay within their advertised
 compress bounds

---
 src/rle8_low_entropy_cpu.c       | 6 +++---
 src/rle8_low_entropy_short_cpu.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index a596eb4..5f54d15 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -5,7 +5,7 @@
 
 uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2 + sizeof(uint8_t) * 2; // the end of the last run may need an extra (symbol, count) pair.
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -293,7 +293,7 @@ bool rle8_low_entropy_get_compress_info(IN const uint8_t *pIn, const uint32_t in
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -380,7 +380,7 @@ bool rle8_low_entropy_get_compress_info_only_max_frequency(IN const uint8_t * pI
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 27cf925..37279b0 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -15,7 +15,7 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
 
 uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2 + sizeof(uint8_t) * 2; // the end of the last run may need an extra (symbol, count) pair.
 }
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -575,7 +575,7 @@ bool rle8_low_entropy_short_get_compress_info(IN const uint8_t *pIn, const uint3
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -662,7 +662,7 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
-- 
2.43.0


From 9ac8ed80453901eb6fa2cd82ad5571e146343057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:33 +0000
Subject: [PATCH 06/27] fix: rle8m_compress stays within its advertised
 compress bounds

---
 src/rle8_low_entropy_cpu.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 5f54d15..3587f1a 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -125,12 +125,12 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
 
 uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1);
+  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1) + sizeof(uint8_t) * 4 * subSections; // every section may split a run at its start and its end.
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0 || subSections > inSize)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
-- 
2.43.0


From 05738228f90f3efe8988285994c91ec189b3ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:33 +0000
Subject: [PATCH 07/27] fix: rle8_mmtf128_compress_bounds accounts for the size
 header

---
 src/rle8_mmtf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index 1ec6513..86595f3 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -28,7 +28,7 @@ uint32_t rle8_mmtf128_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint32_t) + 1;
+  return inSize + sizeof(uint32_t) * 2 + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint32_t) + 1;
 }
 
 uint32_t rle8_mmtf256_compress_bounds(const uint32_t inSize)
-- 
2.43.0


From 254a69df1dee259c2be473a0dcfb11b2dd066127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:33 +0000
Subject: [PATCH 08/27] fix: rle8_mmtf128_compress no longer uses an
 uninitialized value

---
 src/rle8_mmtf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index 86595f3..777d5c6 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -179,7 +179,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
     const __m128i hi5BitMask = _mm_set1_epi8((uint8_t)0b11111000);
     const __m128i hi6BitMask = _mm_set1_epi8((uint8_t)0b11111100);
 
-    __m128i currentBitMask = _mm_undefined_si128();
+    __m128i currentBitMask = _mm_setzero_si128();
     //__m128i lastOut = _mm_xor_si128(_mm_set1_epi8((int8_t)-1), _mm_loadu_si128((const __m128i *)pIn));
 
     uint8_t *pLastHeader = pOut;
-- 
2.43.0


From 596a46f9ed64df15e4dc173bee7bd347ca89d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:33 +0000
Subject: [PATCH 09/27] fix: rle8_sh_compress checks (and rle8_sh_bounds
 reports) the space it really needs

---
 src/rle_sh.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rle_sh.c b/src/rle_sh.c
index d19a032..8102ce8 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -92,7 +92,10 @@ inline void rle8_sh_consume_bits(rle8_sh_read_header *pHeader, const int8_t bits
 
 uint32_t rle8_sh_bounds(const uint32_t size)
 {
-  return size + sizeof(uint32_t) * 2 + 1 + sizeof(uint32_t);
+  if (size > (1 << 30))
+    return 0;
+
+  return size + (size >> 7) + sizeof(uint32_t) * 2 + sizeof(uint32_t) * 4 + 8; // size header, size of a large copy / rle block & terminator, bit header.
 }
 
 inline void rle8_sh_encoded_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, const size_t copyCount, rle8_sh_header_state *pHeader, const uint8_t lastRleSymbol, uint8_t *pSecondMostImportant, uint8_t *pThirdMostImportant, uint8_t *pLastOccuredSymbol)
@@ -268,7 +271,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || inSize > (1 << 30) || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From 41180d0e988bdf004f6643b556c87ae1a0e67b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:33 +0000
Subject: [PATCH 10/27] fix: mmtf encode / decode reject missing buffers

---
 src/mmtf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmtf.c b/src/mmtf.c
index a29bd7d..b86bdf8 100644
--- a/src/mmtf.c
+++ b/src/mmtf.c
@@ -34,7 +34,7 @@ uint32_t mmtf_bounds(const uint32_t inSize)
 
 uint32_t mmtf128_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -50,7 +50,7 @@ uint32_t mmtf128_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf128_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -68,7 +68,7 @@ uint32_t mmtf128_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf256_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -87,7 +87,7 @@ uint32_t mmtf256_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf256_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
-- 
2.43.0


From 515761f63b1c75154e404f368665f303fd32affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:40 +0000
Subject: [PATCH 11/27] fix: rle8m_compress no longer fails if an earlier
 section expanded

---
 src/rle8_low_entropy_cpu.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 3587f1a..273e67c 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -163,7 +163,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
   for (uint32_t i = 0; i < subSections - 1; i++)
   {
-    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * i, subSectionSize, &compressInfo, pOut + index, (uint32_t)(outSize - index));
+    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * i, subSectionSize, &compressInfo, pOut + index, outSize); // a single section may expand, but `rle8m_compress_bounds` holds for all sections combined.
 
     if (size == 0)
       return 0;
@@ -177,7 +177,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
   // Compress last block.
   {
-    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * (subSections - 1), (uint32_t)remainingSize, &compressInfo, pOut + index, (uint32_t)(outSize - index));
+    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * (subSections - 1), (uint32_t)remainingSize, &compressInfo, pOut + index, outSize);
 
     if (size == 0)
       return 0;
-- 
2.43.0


From f92f7c25fe15675bb10fe5239c54bb083cf29084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:20 +0000
Subject: [PATCH 12/27] fix: the tool reports failure if the file could not be
 read or memory ran out

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 89de070..3141827 100644
--- a/src/main.c
+++ b/src/main.c
@@ -690,6 +690,7 @@ int main(int argc, char **pArgv)
     }
   }
 
+  int result = 1;
   size_t fileSize = 0;
   uint32_t compressedBufferSize = 0;
   uint8_t *pUncompressedData = NULL;
@@ -1078,6 +1079,7 @@ int main(int argc, char **pArgv)
 
   //////////////////////////////////////////////////////////////////////////
 
+  result = 0;
   goto epilogue;
 
 epilogue:
@@ -1088,7 +1090,7 @@ epilogue:
   ALIGNED_FREE(pDecompressedData);
   ALIGNED_FREE(pCompressedData);
 
-  return 0;
+  return result;
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 884642528b07bd37fb0cc653b76df60b300d02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:20 +0000
Subject: [PATCH 13/27] fix: test runs detect wrong decompressed sizes and
 decoders that don't write anything

---
 src/main.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 3141827..4e1c21d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -945,7 +945,9 @@ int main(int argc, char **pArgv)
         for (size_t i = compressedSize; i < compressedBufferSize; i++)
           pCompressedData[i] = ~pCompressedData[i];
 
-        memset(pDecompressedData, 0, decompressedSize);
+        // Make sure that nothing that's left over from a previous codec could be mistaken for the output of this one.
+        for (size_t i = 0; i < fileSize; i++)
+          pDecompressedData[i] = ~pUncompressedData[i];
       }
 
       if (noDelays)
@@ -1069,6 +1071,14 @@ int main(int argc, char **pArgv)
 
       puts("");
 
+      if (decompressedSize != fileSize32)
+      {
+        puts("Decompressed to incorrect size.");
+
+        if (isTestRun)
+          return -1;
+      }
+
       if (!Validate(pUncompressedData, pDecompressedData, fileSize))
       {
         if (isTestRun)
-- 
2.43.0


From 053c7e25562cd13e45f4e9d5a6e0518a090ee15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:20 +0000
Subject: [PATCH 14/27] fix: the tool passes the real size of the decompression
 buffer

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4e1c21d..5c84de4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -970,7 +970,7 @@ int main(int argc, char **pArgv)
         switch (currentCodec)
         {
         default:
-          decompressedSize = codecCallbacks[currentCodec].decompress_func(pCompressedData, compressedSize, pDecompressedData, compressedBufferSize);
+          decompressedSize = codecCallbacks[currentCodec].decompress_func(pCompressedData, compressedSize, pDecompressedData, fileSize32);
           break;
 
         case MemCopy:
-- 
2.43.0


From 4a26c929f890f668f394542567e00780015cc4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:20 +0000
Subject: [PATCH 15/27] fix: the tool allocates readable space behind its input
 buffers

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 5c84de4..b67b528 100644
--- a/src/main.c
+++ b/src/main.c
@@ -729,9 +729,9 @@ int main(int argc, char **pArgv)
     compressedBufferSize = max(compressedBufferSize, rle8_low_entropy_compress_bounds((uint32_t)fileSize));
     compressedBufferSize = max(compressedBufferSize, rle8_low_entropy_short_compress_bounds((uint32_t)fileSize));
 
-    pUncompressedData = (uint8_t *)ALIGNED_ALLOC(32, fileSize);
+    pUncompressedData = (uint8_t *)ALIGNED_ALLOC(32, fileSize + rle_decompress_additional_size()); // encoders read whole SIMD registers past the end.
     pDecompressedData = (uint8_t *)ALIGNED_ALLOC(32, fileSize + rle_decompress_additional_size());
-    pCompressedData = (uint8_t *)ALIGNED_ALLOC(32, compressedBufferSize);
+    pCompressedData = (uint8_t *)ALIGNED_ALLOC(32, compressedBufferSize + rle_decompress_additional_size()); // decoders read whole SIMD registers past the end.
 
     if (!pUncompressedData || !pDecompressedData || !pCompressedData)
     {
-- 
2.43.0


From 57cd342b30e3e48df30fd881480880daea5b3cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:20 +0000
Subject: [PATCH 16/27] fix: the fuzzer no longer ignores differences in all
 but the highest bit of a byte

---
 src/rle_fuzz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index d786f95..3a80a01 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -481,7 +481,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_load_si256((__m256i *)(pBufferA + offset)), _mm256_load_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
     else
@@ -507,7 +507,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_loadu_si256((__m256i *)(pBufferA + offset)), _mm256_loadu_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
   }
-- 
2.43.0


From 37b6e3d48b21154be0120d1823219721546214a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:46 +0000
Subject: [PATCH 17/27] fix: the analysis no longer reads past the end of the
 file content

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b67b528..ed9f7e3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1304,7 +1304,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       if (i < j)
         continue;
 
-      const bool match = memcmp(pData + i, pData + i - j, j) == 0;
+      const bool match = i + j <= size && memcmp(pData + i, pData + i - j, j) == 0;
 
       rle_data_t *pRLE = &byRLE[j - 1];
 
-- 
2.43.0


From b4163555045cfede285bfd15655229f69a1fcb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:46 +0000
Subject: [PATCH 18/27] fix: the analysis no longer depends on the bit scan
 result of zero

---
 src/main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/main.c b/src/main.c
index ed9f7e3..ba18128 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1338,7 +1338,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
             pRLE->emptyLengthByBits[index]++;
@@ -1368,7 +1368,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
           unsigned long index;
           _BitScanReverse64(&index, pRLE->currentLength);
 #else
-          const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+          const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
           pRLE->rleLengthByBits[index]++;
@@ -1381,9 +1381,9 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
 
 #ifdef _MSC_VER
           unsigned long lastNonLengthBits;
-          _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength);
+          _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength | 1);
 #else
-          const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->lastNonLength);
+          const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->lastNonLength | 1);
 #endif
 
           pRLE->copyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1429,7 +1429,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
               unsigned long index;
               _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-              const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+              const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
               pRLE->alignedEmptyLengthByBits[index]++;
@@ -1459,7 +1459,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
             pRLE->alignedRleLengthByBits[index]++;
@@ -1472,9 +1472,9 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
 
 #ifdef _MSC_VER
             unsigned long lastNonLengthBits;
-            _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength);
+            _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength | 1);
 #else
-            const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->alignedLastNonLength);
+            const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->alignedLastNonLength | 1);
 #endif
 
             pRLE->alignedCopyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1513,7 +1513,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
       pRLE->emptyLengthByBits[index]++;
@@ -1529,7 +1529,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
       pRLE->rleLengthByBits[index]++;
@@ -1547,7 +1547,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
       pRLE->alignedEmptyLengthByBits[index]++;
@@ -1563,7 +1563,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
       pRLE->alignedRleLengthByBits[index]++;
-- 
2.43.0


From 34fa759d32b9c6d06e55ae05fb791aa2668b8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:57 +0000
Subject: [PATCH 19/27] fix: the random fuzzer no longer re-seeds itself from
 the clock for every value

---
 src/rle_fuzz.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index 3a80a01..8a1b262 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -102,6 +102,8 @@ void fuzz_read_rand(__m128i *pOut)
   {
     last[0] = _mm_set_epi64x(GetCurrentTimeTicks(), __rdtsc());
     last[1] = _mm_set_epi64x(~__rdtsc(), ~GetCurrentTimeTicks());
+
+    initialized = true;
   }
 
   const __m128i r = _mm_aesdec_si128(last[0], last[1]);
-- 
2.43.0


From 8dfbe8072f0ab184b7a7cb416d37da408c25db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:51 +0000
Subject: [PATCH 20/27] fix: the tool rejects files whose size can't be
 retrieved or represented

---
 src/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index ba18128..109c6c9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -710,14 +710,16 @@ int main(int argc, char **pArgv)
     }
 
     fseek(pFile, 0, SEEK_END);
-    fileSize = ftell(pFile);
+    const int64_t fileLength = (int64_t)ftell(pFile);
 
-    if (fileSize <= 0)
+    if (fileLength <= 0 || fileLength > (int64_t)UINT32_MAX)
     {
       puts("Invalid File size / failed to read file.");
       goto epilogue;
     }
 
+    fileSize = (size_t)fileLength;
+
     fseek(pFile, 0, SEEK_SET);
 
     compressedBufferSize = rle_compress_bounds((uint32_t)fileSize);
-- 
2.43.0


From 02986ee2df0733ea2c2f7e04c3cdf6651512e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:43 +0000
Subject: [PATCH 21/27] fix: AVX and AVX-512 are only used if the operating
 system preserves their registers

---
 src/simd_platform.c | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/simd_platform.c b/src/simd_platform.c
index eef735e..5744ece 100644
--- a/src/simd_platform.c
+++ b/src/simd_platform.c
@@ -61,6 +61,10 @@ void _DetectCPUFeatures()
   cpuid(info, 0);
   int32_t idCount = info[0];
 
+  // Extensions using ymm / zmm registers are only usable if the operating system preserves that register state.
+  bool osSupportsAVX = false;
+  bool osSupportsAVX512 = false;
+
   if (idCount >= 0x1)
   {
     int32_t cpuInfo[4];
@@ -72,16 +76,19 @@ void _DetectCPUFeatures()
     if (osUsesXSAVE_XRSTORE && cpuAVXSuport)
     {
       uint64_t xcrFeatureMask = _xgetbv(_XCR_XFEATURE_ENABLED_MASK);
-      avxSupported = (xcrFeatureMask & 0x6) != 0;
+      osSupportsAVX = (xcrFeatureMask & 0x6) == 0x6;
+      osSupportsAVX512 = (xcrFeatureMask & 0xE6) == 0xE6;
     }
 
+    avxSupported = osSupportsAVX;
+
     sseSupported = (cpuInfo[3] & (1 << 25)) != 0;
     sse2Supported = (cpuInfo[3] & (1 << 26)) != 0;
     sse3Supported = (cpuInfo[2] & (1 << 0)) != 0;
     ssse3Supported = (cpuInfo[2] & (1 << 9)) != 0;
     sse41Supported = (cpuInfo[2] & (1 << 19)) != 0;
     sse42Supported = (cpuInfo[2] & (1 << 20)) != 0;
-    fma3Supported = (cpuInfo[2] & (1 << 12)) != 0;
+    fma3Supported = osSupportsAVX && (cpuInfo[2] & (1 << 12)) != 0;
     aesNiSupported = (cpuInfo[2] & (1 << 25)) != 0;
   }
 
@@ -90,22 +97,22 @@ void _DetectCPUFeatures()
     int32_t cpuInfo[4];
     cpuid(cpuInfo, 7);
 
-    avx2Supported = (cpuInfo[1] & (1 << 5)) != 0;
-    avx512FSupported = (cpuInfo[1] & 1 << 16) != 0;
-    avx512PFSupported = (cpuInfo[1] & 1 << 26) != 0;
-    avx512ERSupported = (cpuInfo[1] & 1 << 27) != 0;
-    avx512CDSupported = (cpuInfo[1] & 1 << 28) != 0;
-    avx512BWSupported = (cpuInfo[1] & 1 << 30) != 0;
-    avx512DQSupported = (cpuInfo[1] & 1 << 17) != 0;
-    avx512VLSupported = (cpuInfo[1] & 1 << 31) != 0;
-    avx512IFMASupported = (cpuInfo[1] & 1 << 21) != 0;
-    avx512VBMISupported = (cpuInfo[2] & 1 << 1) != 0;
-    avx512VNNISupported = (cpuInfo[2] & 1 << 11) != 0;
-    avx512VBMI2Supported = (cpuInfo[2] & 1 << 6) != 0;
-    avx512POPCNTDQSupported = (cpuInfo[2] & 1 << 14) != 0;
-    avx512BITALGSupported = (cpuInfo[2] & 1 << 12) != 0;
-    avx5124VNNIWSupported = (cpuInfo[3] & 1 << 2) != 0;
-    avx5124FMAPSSupported = (cpuInfo[3] & 1 << 3) != 0;
+    avx2Supported = osSupportsAVX && (cpuInfo[1] & (1 << 5)) != 0;
+    avx512FSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 16) != 0;
+    avx512PFSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 26) != 0;
+    avx512ERSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 27) != 0;
+    avx512CDSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 28) != 0;
+    avx512BWSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 30) != 0;
+    avx512DQSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 17) != 0;
+    avx512VLSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 31) != 0;
+    avx512IFMASupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 21) != 0;
+    avx512VBMISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 1) != 0;
+    avx512VNNISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 11) != 0;
+    avx512VBMI2Supported = osSupportsAVX512 && (cpuInfo[2] & 1 << 6) != 0;
+    avx512POPCNTDQSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 14) != 0;
+    avx512BITALGSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 12) != 0;
+    avx5124VNNIWSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 2) != 0;
+    avx5124FMAPSSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 3) != 0;
   }
 
   _CpuFeaturesDetected = true;
-- 
2.43.0


From f5406dba6c4c5b8d65b6650dde0142485b054146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:34 +0000
Subject: [PATCH 22/27] fix: the OpenCL decoder no longer writes its section
 offsets before they are allocated

---
 src/rle8_ocl.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 0ae3045..696a7c4 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -290,13 +290,6 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
 
   const uint32_t subSectionSize = (uint32_t)(expectedOutSize / subSections);
 
-  pSubSectionOffsets[0] = 0;
-
-  for (size_t i = 1; i < subSections; i++)
-    pSubSectionOffsets[i] = ((uint32_t *)(&pIn[subSectionIndex]))[i - 1] - (uint32_t)index;
-
-  pSubSectionOffsets[subSections] = (uint32_t)expectedInSize - (uint32_t)index;
-
   uint8_t rleSymbolCount = 0;
   uint8_t symbol;
 
@@ -328,6 +321,14 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
 
   success = false;
 
+  // The initialization provides `pSubSectionOffsets`.
+  pSubSectionOffsets[0] = 0;
+
+  for (size_t i = 1; i < subSections; i++)
+    pSubSectionOffsets[i] = ((uint32_t *)(&pIn[subSectionIndex]))[i - 1] - (uint32_t)index;
+
+  pSubSectionOffsets[subSections] = (uint32_t)expectedInSize - (uint32_t)index;
+
 #ifdef ENABLE_LOGGING
   time = clock();
 #endif
-- 
2.43.0


From 149f359483484fcb99247b9f87208e53f3952569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:19 +0000
Subject: [PATCH 23/27] fix: the OpenCL initialization no longer frees the
 platform list twice

---
 src/rle8_ocl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 696a7c4..315a25e 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -178,6 +178,7 @@ epilogue:
     rle8m_opencl_destroy();
 
   free(pPlatforms);
+  pPlatforms = NULL;
 
   return success;
 }
-- 
2.43.0


From 04a9695d915bf0f871d9f3fc67ae83a46203812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:19 +0000
Subject: [PATCH 24/27] fix: the OpenCL initialization no longer uses a
 platform it failed to retrieve

---
 src/rle8_ocl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 315a25e..787dc1f 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -81,8 +81,10 @@ bool rle8m_opencl_init(const size_t inputDataSize, const size_t outputDataSize,
   if (pPlatforms == NULL)
     goto epilogue;
 
-  ret = clGetPlatformIDs(platformCount, pPlatforms, NULL);
-  ret |= clGetDeviceIDs(pPlatforms[0], CL_DEVICE_TYPE_GPU, 1, &deviceID, &platformCount);
+  if (CL_SUCCESS != (ret = clGetPlatformIDs(platformCount, pPlatforms, NULL)))
+    goto epilogue;
+
+  ret = clGetDeviceIDs(pPlatforms[0], CL_DEVICE_TYPE_GPU, 1, &deviceID, &platformCount);
 
   if (ret != CL_SUCCESS)
     goto epilogue;
-- 
2.43.0


From eec0712d253bff8fd2a0ce3e2eddc6e06f049230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:19 +0000
Subject: [PATCH 25/27] fix: the OpenCL decoder no longer ignores that decoding
 failed

---
 src/rle8_ocl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 787dc1f..f696503 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -400,7 +400,8 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
   }
 
 #ifdef ENABLE_LOGGING
-  clFinish(commandQueue);
+  if (CL_SUCCESS != (ret = clFinish(commandQueue)))
+    goto epilogue;
 
   time = clock() - time;
 
-- 
2.43.0


From f3babc9021191719a8b46c830fb7e51c001e28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:19 +0000
Subject: [PATCH 26/27] fix: the OpenCL decoder no longer returns while queued
 transfers read memory of the caller

---
 src/rle8_ocl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index f696503..4427b0d 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -414,6 +414,9 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
   success = true;
 
 epilogue:
+  if (!success && commandQueue != NULL)
+    clFinish(commandQueue); // queued transfers must not access `pIn`, `decompressInfo` or `pSubSectionOffsets` after returning.
+
   return success ? (uint32_t)expectedOutSize : 0;
 }
 
-- 
2.43.0


From dcf62855b664275150ee30f4267e11313eb934dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:19 +0000
Subject: [PATCH 27/27] fix: the OpenCL decoder no longer reads a header that
 has not been received completely

---
 src/rle8_ocl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 4427b0d..c009c8c 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -267,7 +267,7 @@ void rle8m_opencl_destroy()
 
 uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 3 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
-- 
2.43.0

