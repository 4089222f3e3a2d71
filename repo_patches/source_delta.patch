From 8f8703ca91383f459d1a581080243bf2a2c76f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 01/11] contracts: loop annotations for deductive verification
 (BRUNSLI_CONTRACTS, off by default)

---
 c/common/contracts.h | 34 ++++++++++++++++++++++++++++++++++
 c/dec/ans_decode.cc  | 18 +++++++++++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)
 create mode 100644 c/common/contracts.h

diff --git a/c/common/contracts.h b/c/common/contracts.h
new file mode 100644
index 0000000..8d09214
--- /dev/null
+++ b/c/common/contracts.h
@@ -0,0 +1,34 @@
+// Copyright (c) Google LLC 2019
+//
+// Use of this source code is governed by an MIT-style
+// license that can be found in the LICENSE file or at
+// https://opensource.org/licenses/MIT.
+
+// Annotations for deductive verification. They expand to nothing unless
+// BRUNSLI_CONTRACTS is defined.
+
+#ifndef BRUNSLI_COMMON_CONTRACTS_H_
+#define BRUNSLI_COMMON_CONTRACTS_H_
+
+#if defined(BRUNSLI_CONTRACTS)
+
+#include <stdint.h>
+
+extern "C" {
+// Marks a loop invariant; interpreted by the verifier.
+void v_invariant(bool condition);
+// Universally quantified ghost values.
+extern uint64_t v_ghost[16];
+}
+
+// To be placed in front of the loop condition.
+#define BRUNSLI_LOOP_INVARIANT(X) v_invariant(X),
+#define BRUNSLI_GHOST(N) v_ghost[N]
+
+#else
+
+#define BRUNSLI_LOOP_INVARIANT(X)
+
+#endif
+
+#endif  // BRUNSLI_COMMON_CONTRACTS_H_
diff --git a/c/dec/ans_decode.cc b/c/dec/ans_decode.cc
index da8e3b0..69b464a 100644
--- a/c/dec/ans_decode.cc
+++ b/c/dec/ans_decode.cc
@@ -8,6 +8,7 @@
 
 #include <vector>
 
+#include "../common/contracts.h"
 #include <brunsli/types.h>
 
 namespace brunsli {
@@ -15,7 +16,22 @@ namespace brunsli {
 bool ANSDecodingData::Init(const std::vector<uint32_t>& counts) {
   size_t pos = 0;
   for (size_t i = 0; i < counts.size(); ++i) {
-    for (size_t j = 0; j < counts[i]; ++j, ++pos) {
+    for (size_t j = 0;
+         BRUNSLI_LOOP_INVARIANT(j <= counts[i])
+         BRUNSLI_LOOP_INVARIANT(BRUNSLI_GHOST(0) >= pos ||
+                                BRUNSLI_GHOST(0) < pos - j ||
+                                (map_[BRUNSLI_GHOST(0)].symbol_ == i &&
+                                 map_[BRUNSLI_GHOST(0)].freq_ == counts[i] &&
+                                 map_[BRUNSLI_GHOST(0)].offset_ ==
+                                     BRUNSLI_GHOST(0) - (pos - j)))
+         BRUNSLI_LOOP_INVARIANT(BRUNSLI_GHOST(0) >= pos - j ||
+                                (map_[BRUNSLI_GHOST(0)].symbol_ ==
+                                     BRUNSLI_GHOST(1) &&
+                                 map_[BRUNSLI_GHOST(0)].freq_ ==
+                                     BRUNSLI_GHOST(2) &&
+                                 map_[BRUNSLI_GHOST(0)].offset_ ==
+                                     BRUNSLI_GHOST(3)))
+         j < counts[i]; ++j, ++pos) {
       map_[pos].symbol_ = static_cast<uint8_t>(i);
       map_[pos].freq_ = static_cast<uint16_t>(counts[i]);
       map_[pos].offset_ = static_cast<uint16_t>(j);
-- 
2.43.0


From 615ce689023eb97cede9199e66c28e0ebd118a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 02/11] fix: EncodeBrunsli reports short writes of the output
 callback

encode.h documents that any return value not equal to the input size is an
error, but only 0 was treated as one.
---
 c/enc/encode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/enc/encode.cc b/c/enc/encode.cc
index 944641e..3cec696 100644
--- a/c/enc/encode.cc
+++ b/c/enc/encode.cc
@@ -28,8 +28,8 @@ int EncodeBrunsli(size_t insize, const unsigned char* in, void* outdata,
     return 0;
   }
   output.resize(output_size);
-  if (!outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
-      output.size())) {
+  if (outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
+      output.size()) != output.size()) {
     return 0;
   }
   return 1;  /* ok */
-- 
2.43.0


From b42145a8dd13c68284f6b282aa32c9cd9f3f3325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 03/11] fix: refuse known header fields with a length-delimited
 payload

The result of Fail() was dropped, so such a field counted as present and its
value was read uninitialised.
---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 2f96aa4..03f0846 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1146,7 +1146,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
         const uint32_t tag_bit = 1u << hs.section.tag;
         if (hs.section.is_section) {
           if (kKnownHeaderVarintTags & tag_bit) {
-            Fail(state, BRUNSLI_INVALID_BRN);
+            return Fail(state, BRUNSLI_INVALID_BRN);
           }
           hs.stage = HeaderState::ITEM_ENTER_SECTION;
           break;
-- 
2.43.0


From f0fd96a4885ee832d31774b33c1d8f78a25b16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 04/11] fix: streaming decoder keeps no reference to the
 caller's input

In fallback mode the serializer kept pointing into the input chunk (already
returned to the caller as consumed), and asked for more output space without
using what was available.
---
 c/dec/brunsli_decode.cc   | 8 ++++++++
 c/dec/jpeg_data_writer.cc | 4 +---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 03f0846..a697fd5 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2531,6 +2531,14 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
   // All the input given input should be consumed.
   BRUNSLI_DCHECK(*available_in == 0);
 
+  // Input is owned by caller; it should not be referenced after return.
+  FallbackState& fs = state->internal->fallback;
+  if (jpg->original_jpg != nullptr && fs.storage.empty()) {
+    fs.storage.assign(jpg->original_jpg,
+                      jpg->original_jpg + jpg->original_jpg_size);
+    jpg->original_jpg = fs.storage.data();
+  }
+
   SerializationStatus serialization_status =
       SerializeJpeg(state, *jpg, available_out, next_out);
   if (serialization_status == SerializationStatus::ERROR) {
diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index de6304c..c2ab015 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1018,10 +1018,8 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
             ss.stage = SerializationState::ERROR;
             break;
           }
-          // TODO(eustas): investigate if bad things can happen when complete
-          //               file is passed to parser, but it is impossible to
-          //               push complete output.
           ss.output_queue.emplace_back(jpg.original_jpg, jpg.original_jpg_size);
+          maybe_push_output();
           ss.stage = SerializationState::DONE;
           break;
         }
-- 
2.43.0


From 1e5915cc52ad8736e5a497c62dbdced02d7f4345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 05/11] fix: bypass encoder does not write past a too small
 buffer

Section headers and the brunsli header were written without looking at the
space left, and the remaining size then wrapped around.
---
 c/enc/brunsli_encode.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 0f991e7..abd75b4 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -823,12 +823,16 @@ bool EncodeHeader(const JPEGData& jpg, State* state, uint8_t* data,
   size_t version_comp = (jpg.components.size() - 1) | (version << 2);
   size_t subsampling = FrameTypeCode(jpg);
 
+  // 4x tag + EncodeBase128() call.
+  uint8_t header[4 * 11];
   size_t pos = 0;
-  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, data, &pos);
-  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, data, &pos);
-  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, data, &pos);
-  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, data, &pos);
+  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, header, &pos);
+  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, header, &pos);
+  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, header, &pos);
+  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, header, &pos);
 
+  if (pos > *len) return false;
+  memcpy(data, header, pos);
   *len = pos;
   return true;
 }
@@ -968,6 +972,7 @@ bool EncodeSection(const JPEGData& jpg, State* s, uint8_t tag,
                    size_t len, uint8_t* data, size_t* pos) {
   // Write the marker byte for the section.
   const size_t pos_start = *pos;
+  if (*pos > len || len - *pos < 1 + section_size_bytes) return false;
   const uint8_t marker = SectionMarker(tag);
   data[(*pos)++] = marker;
 
-- 
2.43.0


From 65a25398863d80aa09a75a13467473dc767f6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 06/11] fix: streaming serialization waits for the sections it
 depends on

Meeting the tag of DC / AC section does not mean that tables are parsed and
storage is allocated; metadata section could also follow the DC section.
---
 c/dec/jpeg_data_writer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index c2ab015..68ec175 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1005,8 +1005,9 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
         bool can_start_serialization = (state->stage == Stage::DONE);
         // Parsing of AC/DC has started; i.e. quant/huffman/metadata is ready
         // to be used.
-        if (HasSection(state, kBrunsliDCDataTag) ||
-            HasSection(state, kBrunsliACDataTag)) {
+        if (state->internal->is_meta_warm &&
+            state->internal->metadata.decompression_stage ==
+                MetadataDecompressionStage::DONE) {
           can_start_serialization = true;
         }
         if (!can_start_serialization) {
-- 
2.43.0


From 8393e3bbc9abe1ccbddaaa828da4000d689e8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 07/11] fix: streaming decoder is not done until the whole
 stream is parsed

A JPEG without AC scans is serialized before the AC section is checked, so
truncated and corrupted streams were reported as completely decoded.
---
 c/dec/brunsli_decode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index a697fd5..d4fba67 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2547,8 +2547,8 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
 
   switch (serialization_status) {
     case SerializationStatus::DONE:
-      // Should be impossible to finish serialization without finishing parsing.
-      BRUNSLI_DCHECK(parse_status == BRUNSLI_OK);
+      // DC-only JPEG could be serialized before the AC section is parsed.
+      if (parse_status != BRUNSLI_OK) return BrunsliDecoder::NEEDS_MORE_INPUT;
       return BrunsliDecoder::DONE;
 
     case SerializationStatus::NEEDS_MORE_INPUT:
-- 
2.43.0


From b4412f86458ae487c739e0b70aeed93ed9245690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 08/11] fix: streaming decoder refuses garbage behind the end
 of stream

It was accepted when the stream ended exactly at the end of the bytes borrowed
for the internal buffer.
---
 c/dec/brunsli_decode.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index d4fba67..7b713ed 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2449,6 +2449,11 @@ BrunsliStatus ProcessJpeg(State* state, JPEGData* jpg) {
 
     if (!UnloadInput(state, result)) break;
   }
+  // End of stream might coincide with the end of borrowed input.
+  if (result == BRUNSLI_OK && s.buffer.external_pos != s.buffer.external_len) {
+    result = BRUNSLI_INVALID_BRN;
+    state->stage = Fail(state, result);
+  }
   UnchargeBuffer(state);
   return result;
 }
-- 
2.43.0


From 3e3bad6f2030ff48adca79f55e5747ba1420a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 09/11] contracts: loop annotation in FindBestMatrix

---
 c/common/quant_matrix.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/common/quant_matrix.cc b/c/common/quant_matrix.cc
index 2f38c9b..2e7b910 100644
--- a/c/common/quant_matrix.cc
+++ b/c/common/quant_matrix.cc
@@ -7,6 +7,7 @@
 #include "./quant_matrix.h"
 
 #include "./constants.h"
+#include "./contracts.h"
 #include "./platform.h"
 #include <brunsli/types.h>
 
@@ -31,7 +32,8 @@ uint32_t FindBestMatrix(const int* src, bool is_chroma,
   const size_t kMaxDiffCost = 33;
   const size_t kWorstLen = (kDCTBlockSize + 1) * (kMaxDiffCost + 1);
   size_t best_len = kWorstLen;
-  for (uint32_t q = 0; q < kQFactorLimit; ++q) {
+  for (uint32_t q = 0; BRUNSLI_LOOP_INVARIANT(best_q < kQFactorLimit)
+       q < kQFactorLimit; ++q) {
     FillQuantMatrix(is_chroma, q, dst);
     // Copycat encoder behavior.
     int last_diff = 0;  // difference predictor
-- 
2.43.0


From c4e785970dfe42585fee988447db993c80f87aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:18 +0000
Subject: [PATCH 10/11] fix: refuse header versions beyond 32 bits

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 7b713ed..b0761d4 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1205,7 +1205,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
           return Fail(state, BRUNSLI_INVALID_BRN);
         }
         // Unknown mode - only 3 bits are defined.
-        if ((version & ~0x7u) != 0) {
+        if ((version & ~size_t(0x7)) != 0) {
           return Fail(state, BRUNSLI_INVALID_BRN);
         }
 
-- 
2.43.0


From 2c31571bf09d814ebb0d533d5fa033a41ca04031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 11/11] contracts: name the element in the loops over a
 histogram's mantissas

---
 c/common/contracts.h      | 4 ++++
 c/dec/histogram_decode.cc | 2 ++
 c/enc/histogram_encode.cc | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/c/common/contracts.h b/c/common/contracts.h
index 8d09214..d652c1f 100644
--- a/c/common/contracts.h
+++ b/c/common/contracts.h
@@ -17,6 +17,8 @@
 extern "C" {
 // Marks a loop invariant; interpreted by the verifier.
 void v_invariant(bool condition);
+// Tells the verifier which element of a list is processed next, and the total so far.
+void v_index(uint64_t index, uint64_t total);
 // Universally quantified ghost values.
 extern uint64_t v_ghost[16];
 }
@@ -24,10 +26,12 @@ extern uint64_t v_ghost[16];
 // To be placed in front of the loop condition.
 #define BRUNSLI_LOOP_INVARIANT(X) v_invariant(X),
 #define BRUNSLI_GHOST(N) v_ghost[N]
+#define BRUNSLI_GHOST_INDEX(I, TOTAL) v_index(I, TOTAL);
 
 #else
 
 #define BRUNSLI_LOOP_INVARIANT(X)
+#define BRUNSLI_GHOST_INDEX(I, TOTAL)
 
 #endif
 
diff --git a/c/dec/histogram_decode.cc b/c/dec/histogram_decode.cc
index 1fd6301..682f2d1 100644
--- a/c/dec/histogram_decode.cc
+++ b/c/dec/histogram_decode.cc
@@ -7,6 +7,7 @@
 #include "./histogram_decode.h"
 
 #include "../common/ans_params.h"
+#include "../common/contracts.h"
 #include "../common/histogram.h"
 #include "../common/platform.h"
 #include <brunsli/types.h>
@@ -79,6 +80,7 @@ bool ReadHistogram(uint32_t precision_bits, std::vector<uint32_t>* counts,
     }
     BRUNSLI_DCHECK(omit_pos >= 0);
     for (size_t i = 0; i < real_length; ++i) {
+      BRUNSLI_GHOST_INDEX(i, total_count)
       uint32_t code = log_counts[i];
       if (i == omit_pos) {
         continue;
diff --git a/c/enc/histogram_encode.cc b/c/enc/histogram_encode.cc
index e28ede5..e6420df 100644
--- a/c/enc/histogram_encode.cc
+++ b/c/enc/histogram_encode.cc
@@ -9,6 +9,7 @@
 #include <algorithm>
 
 #include "../common/ans_params.h"
+#include "../common/contracts.h"
 #include "../common/histogram.h"
 #include "../common/platform.h"
 #include <brunsli/types.h>
@@ -178,6 +179,7 @@ void EncodeCounts(const int* counts, const int omit_pos, const int num_symbols,
                 kLogCountSymbols[logcounts[i]], storage);
     }
     for (int i = 0; i < length; ++i) {
+      BRUNSLI_GHOST_INDEX(i, 0)
       if (logcounts[i] > 1 && i != omit_pos) {
         int bitcount = GetPopulationCountPrecision(logcounts[i] - 1);
         int drop_bits = logcounts[i] - 1 - bitcount;
-- 
2.43.0

