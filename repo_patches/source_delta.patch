From 6d214f4769c451cc67372d2f59972c7f8e15bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 01/24] fix: let ParallelExecutor workers wake up and exit on
 destruction

---
 c/experimental/groups.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index b1075bd..8228235 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -84,7 +84,8 @@ ParallelExecutor::ParallelExecutor(size_t num_threads)
 ParallelExecutor::~ParallelExecutor() {
   std::unique_lock<std::mutex> lock(this->lock);
   terminate = true;
-  next_task.store(1);
+  // Workers wake up only when "next_task" is less than "num_tasks".
+  next_task.store(0);
   this->num_tasks = 1;
   this->runnable = nullptr;
   start_latch.notify_all();
-- 
2.43.0


From 5a803716cc26103372b36f67c24b3e195ff0881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 02/24] fix: do not share status variable between parallel
 group decoding tasks

---
 c/experimental/groups.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 8228235..e11da0c 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -484,8 +484,8 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&dc_state, jpg);
-    if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
+    BrunsliStatus group_status = ProcessJpeg(&dc_state, jpg);
+    if (group_status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_dc, dc_section_start.size());
   if (failed.load()) return false;
@@ -527,8 +527,8 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&ac_state, jpg);
-    if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
+    BrunsliStatus group_status = ProcessJpeg(&ac_state, jpg);
+    if (group_status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_ac, ac_section_start.size());
   if (failed.load()) return false;
-- 
2.43.0


From c7803691107be93cf0334d9b7e427715d052c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 03/24] fix: reject header value tags encoded as sections

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 2f96aa4..03f0846 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1146,7 +1146,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
         const uint32_t tag_bit = 1u << hs.section.tag;
         if (hs.section.is_section) {
           if (kKnownHeaderVarintTags & tag_bit) {
-            Fail(state, BRUNSLI_INVALID_BRN);
+            return Fail(state, BRUNSLI_INVALID_BRN);
           }
           hs.stage = HeaderState::ITEM_ENTER_SECTION;
           break;
-- 
2.43.0


From 53cb791dae1c6efb2c6e1131ae92e82bdd2c9a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 04/24] fix: EncodeBrunsli treats partial consumption by the
 sink as an error

---
 c/enc/encode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/enc/encode.cc b/c/enc/encode.cc
index 944641e..3cec696 100644
--- a/c/enc/encode.cc
+++ b/c/enc/encode.cc
@@ -28,8 +28,8 @@ int EncodeBrunsli(size_t insize, const unsigned char* in, void* outdata,
     return 0;
   }
   output.resize(output_size);
-  if (!outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
-      output.size())) {
+  if (outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
+      output.size()) != output.size()) {
     return 0;
   }
   return 1;  /* ok */
-- 
2.43.0


From c0af858a926ba96ca1451b6fb4a4edfc3f7bc030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 05/24] fix: restore empty payload of fallback (bypass) stream

---
 c/dec/jpeg_data_writer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index de6304c..32e8d6a 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1014,6 +1014,11 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
         }
         // JpegBypass is a very simple / special case.
         if (jpg.version == kFallbackVersion) {
+          if (jpg.original_jpg_size == 0) {
+            // Edge case - empty payload.
+            ss.stage = SerializationState::DONE;
+            break;
+          }
           if (jpg.original_jpg == nullptr) {
             ss.stage = SerializationState::ERROR;
             break;
-- 
2.43.0


From 66929fb839646c01a86c528edd4e3eb326d3d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 06/24] fix: streaming decoder keeps own copy of fallback
 payload

---
 c/dec/brunsli_decode.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 03f0846..87f06f2 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2531,6 +2531,17 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
   // All the input given input should be consumed.
   BRUNSLI_DCHECK(*available_in == 0);
 
+  // Parser does not copy fallback payload if it is available as a whole, but
+  // input is guaranteed to be alive only during this call.
+  if (jpg->original_jpg_size > 0 && jpg->original_jpg != nullptr) {
+    std::vector<uint8_t>& storage = state->internal->fallback.storage;
+    if (storage.empty()) {
+      storage.assign(jpg->original_jpg,
+                     jpg->original_jpg + jpg->original_jpg_size);
+      jpg->original_jpg = storage.data();
+    }
+  }
+
   SerializationStatus serialization_status =
       SerializeJpeg(state, *jpg, available_out, next_out);
   if (serialization_status == SerializationStatus::ERROR) {
-- 
2.43.0


From ae669f80fce3115ff633bdb03cd5b07a0c8efcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 07/24] fix: fill available output with fallback payload before
 asking for more

---
 c/dec/jpeg_data_writer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 32e8d6a..565312f 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1027,6 +1027,7 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
           //               file is passed to parser, but it is impossible to
           //               push complete output.
           ss.output_queue.emplace_back(jpg.original_jpg, jpg.original_jpg_size);
+          maybe_push_output();
           ss.stage = SerializationState::DONE;
           break;
         }
-- 
2.43.0


From f032fd40bf3ea40034670c63c7347074b2f01746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 08/24] fix: streaming decoder does not report completion on
 truncated input

---
 c/dec/brunsli_decode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 87f06f2..dbb5a7d 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2550,8 +2550,8 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
 
   switch (serialization_status) {
     case SerializationStatus::DONE:
-      // Should be impossible to finish serialization without finishing parsing.
-      BRUNSLI_DCHECK(parse_status == BRUNSLI_OK);
+      // If JPEG has no scans, then serialization could finish before parsing.
+      if (parse_status != BRUNSLI_OK) return BrunsliDecoder::NEEDS_MORE_INPUT;
       return BrunsliDecoder::DONE;
 
     case SerializationStatus::NEEDS_MORE_INPUT:
-- 
2.43.0


From e79e9d58b305f016691cdad97478bdd037fd5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 09/24] fix: streaming decoder waits for metadata before
 serialization

---
 c/dec/jpeg_data_writer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 565312f..576721e 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1003,11 +1003,14 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
       case SerializationState::INIT: {
         // If parsing is complete, serialization is possible.
         bool can_start_serialization = (state->stage == Stage::DONE);
-        // Parsing of AC/DC has started; i.e. quant/huffman/metadata is ready
-        // to be used.
+        // Parsing of AC/DC has started; i.e. quant/huffman is ready to be used.
+        // Metadata section might be located anywhere; wait until it is parsed.
         if (HasSection(state, kBrunsliDCDataTag) ||
             HasSection(state, kBrunsliACDataTag)) {
-          can_start_serialization = true;
+          can_start_serialization =
+              can_start_serialization ||
+              (HasSection(state, kBrunsliMetaDataTag) &&
+               state->internal->section.tag != kBrunsliMetaDataTag);
         }
         if (!can_start_serialization) {
           return SerializationStatus::NEEDS_MORE_INPUT;
-- 
2.43.0


From a6b6743dcfad5ce0ccefcf20674ae797340a4c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 10/24] fix: encoder reports buffer overflow instead of writing
 out of bounds

---
 c/enc/brunsli_encode.cc | 20 ++++++++++++++++++++
 c/enc/write_bits.cc     | 10 ++++++----
 c/enc/write_bits.h      | 17 +++++++++++++++--
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 0f991e7..191f099 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -705,6 +705,14 @@ void DataStream::EncodeCodeWords(EntropyCodes* s, Storage* storage) {
     }
   }
   const uint32_t state = ans.GetState();
+  size_t num_words = 2;
+  for (int i = 0; i < pos_; ++i) {
+    if (code_words_[i].nbits) ++num_words;
+  }
+  if (num_words * 2 > storage->length) {
+    storage->overflow = true;
+    return;
+  }
   uint16_t* out = reinterpret_cast<uint16_t*>(storage->data);
   const uint16_t* out_start = out;
   // Mixed-endian for historical reasons.
@@ -823,6 +831,10 @@ bool EncodeHeader(const JPEGData& jpg, State* state, uint8_t* data,
   size_t version_comp = (jpg.components.size() - 1) | (version << 2);
   size_t subsampling = FrameTypeCode(jpg);
 
+  size_t header_size = 4 + Base128Size(jpg.width) + Base128Size(jpg.height) +
+                       Base128Size(version_comp) + Base128Size(subsampling);
+  if (header_size > *len) return false;
+
   size_t pos = 0;
   EncodeValue(kBrunsliHeaderWidthTag, jpg.width, data, &pos);
   EncodeValue(kBrunsliHeaderHeightTag, jpg.height, data, &pos);
@@ -872,12 +884,14 @@ bool EncodeMetaData(const JPEGData& jpg, State* state, uint8_t* data,
     *len = 0;
     return true;
   } else if (metadata.size() == 1) {
+    if (*len < 1) return false;
     *len = 1;
     data[0] = metadata[0];
     return true;
   }
 
   // Write base-128 encoding of the original metadata size.
+  if (Base128Size(metadata.size()) > *len) return false;
   size_t pos = EncodeBase128(metadata.size(), data);
 
   // Write the compressed metadata directly to the output.
@@ -904,6 +918,7 @@ bool EncodeJPEGInternals(const JPEGData& jpg, State* state, uint8_t* data,
   if (!EncodeAuxData(jpg, &storage)) {
     return false;
   }
+  if (!storage.IsHealthy()) return false;
 
   *len = storage.GetBytesUsed();
   return true;
@@ -917,6 +932,7 @@ bool EncodeQuantData(const JPEGData& jpg, State* state, uint8_t* data,
   if (!EncodeQuantTables(jpg, &storage)) {
     return false;
   }
+  if (!storage.IsHealthy()) return false;
 
   *len = storage.GetBytesUsed();
   return true;
@@ -933,6 +949,7 @@ bool EncodeHistogramData(const JPEGData& jpg, State* state, uint8_t* data,
   state->entropy_codes->EncodeContextMap(&storage);
 
   state->entropy_codes->BuildAndStoreEntropyCodes(&storage);
+  if (!storage.IsHealthy()) return false;
 
   *len = storage.GetBytesUsed();
   return true;
@@ -944,6 +961,7 @@ bool EncodeDCData(const JPEGData& jpg, State* state, uint8_t* data,
   Storage storage(data, *len);
 
   state->data_stream_dc.EncodeCodeWords(state->entropy_codes, &storage);
+  if (!storage.IsHealthy()) return false;
 
   *len = storage.GetBytesUsed();
   return true;
@@ -955,6 +973,7 @@ bool EncodeACData(const JPEGData& jpg, State* state, uint8_t* data,
   Storage storage(data, *len);
 
   state->data_stream_ac.EncodeCodeWords(state->entropy_codes, &storage);
+  if (!storage.IsHealthy()) return false;
 
   *len = storage.GetBytesUsed();
   return true;
@@ -968,6 +987,7 @@ bool EncodeSection(const JPEGData& jpg, State* s, uint8_t tag,
                    size_t len, uint8_t* data, size_t* pos) {
   // Write the marker byte for the section.
   const size_t pos_start = *pos;
+  if (len - pos_start < 1 + section_size_bytes) return false;
   const uint8_t marker = SectionMarker(tag);
   data[(*pos)++] = marker;
 
diff --git a/c/enc/write_bits.cc b/c/enc/write_bits.cc
index 0a2c730..ff95bd1 100644
--- a/c/enc/write_bits.cc
+++ b/c/enc/write_bits.cc
@@ -10,14 +10,16 @@
 namespace brunsli {
 
 Storage::Storage(uint8_t* data, size_t length)
-    : data(data), length(length), pos(0) {
-  BRUNSLI_CHECK(length > 0);
-  data[0] = 0;
+    : data(data), length(length), pos(0), overflow(length == 0) {
+  if (length > 0) data[0] = 0;
 }
 
 void Storage::AppendBytes(const uint8_t* src, size_t len) {
+  if (overflow || len > length - GetBytesUsed()) {
+    overflow = true;
+    return;
+  }
   BRUNSLI_DCHECK((pos & 7) == 0);
-  BRUNSLI_DCHECK(GetBytesUsed() + len <= length);
   memcpy(data + (pos >> 3), src, len);
   pos += 8 * len;
 }
diff --git a/c/enc/write_bits.h b/c/enc/write_bits.h
index 27ee199..55b1720 100644
--- a/c/enc/write_bits.h
+++ b/c/enc/write_bits.h
@@ -27,6 +27,11 @@ class Storage {
     return (pos + 7) >> 3;
   }
 
+  /**
+   * Returns false if there were attempts to write past the end of buffer.
+   */
+  bool IsHealthy() const { return !overflow; }
+
   void AppendBytes(const uint8_t* src, size_t len);
 
   uint8_t* const data;
@@ -34,6 +39,8 @@ class Storage {
   const size_t length;
   // Number of bits written.
   size_t pos;
+  // True, if some data did not fit and was dropped.
+  bool overflow;
 };
 
 /* This function writes bits into bytes in increasing addresses, and within
@@ -58,7 +65,10 @@ BRUNSLI_INLINE void WriteBits(size_t n_bits, uint64_t bits, Storage* storage) {
   BRUNSLI_DCHECK((bits >> n_bits) == 0);
   BRUNSLI_DCHECK(n_bits <= 56);
 #if defined(BRUNSLI_LITTLE_ENDIAN)
-  BRUNSLI_DCHECK(((storage->pos + n_bits) >> 3) + 7 < storage->length);
+  if (((storage->pos + n_bits) >> 3) + 7 >= storage->length) {
+    storage->overflow = true;
+    return;
+  }
   /* This branch of the code can write up to 56 bits at a time,
      7 bits are lost by being perhaps already in *p and at least
      1 bit is needed to initialize the bit-stream ahead (i.e. if 7
@@ -71,7 +81,10 @@ BRUNSLI_INLINE void WriteBits(size_t n_bits, uint64_t bits, Storage* storage) {
   storage->pos += n_bits;
 #else
   /* implicit & 0xFF is assumed for uint8_t arithmetics */
-  BRUNSLI_DCHECK(((storage->pos + n_bits) >> 3) < storage->length);
+  if (((storage->pos + n_bits) >> 3) >= storage->length) {
+    storage->overflow = true;
+    return;
+  }
   uint8_t* BRUNSLI_RESTRICT array_pos = storage->data + (storage->pos >> 3);
   const size_t bits_reserved_in_first_byte = (storage->pos & 7);
   bits <<= bits_reserved_in_first_byte;
-- 
2.43.0


From 54e7022a183264325fa5f9c760ed0c06c7425d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 11/24] fix: raise upper bound of encoded block size

---
 c/enc/brunsli_encode.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 191f099..1df6496 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -80,8 +80,9 @@ size_t GetMaximumBrunsliEncodedSize(const JPEGData& jpg) {
   for (const auto& component : jpg.components) {
     num_blocks += component.num_blocks;
   }
-  // Currently established upper bound is 82 bytes per block.
-  constexpr size_t kBytesPerBlock = 82 + 2;
+  // Uniformly distributed 12-bit coefficients take about 96 bytes per block;
+  // round it up to have a reserve for adaptive models inefficiency.
+  constexpr size_t kBytesPerBlock = 128;
   size_t entropy_size = num_blocks * kBytesPerBlock;
   return entropy_size + hdr_size;
 }
-- 
2.43.0


From c136dba0dcadbc354c205972d459d4824c36b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 12/24] fix: allocate enough space for parts of group encoding

---
 c/experimental/groups.cc | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index e11da0c..3078423 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -300,18 +300,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
   {
     std::vector<uint8_t>& part = output[0];
     state.entropy_codes = entropy_codes.get();
-    size_t part_size = 20480;
-    for (size_t i = 0; i < jpg.inter_marker_data.size(); ++i) {
-      part_size += 5 + jpg.inter_marker_data[i].size();
-    }
-    for (const std::vector<uint8_t>& chunk : jpg.app_data) {
-      part_size += chunk.size();
-    }
-    for (const std::vector<uint8_t>& chunk : jpg.com_data) {
-      part_size += chunk.size();
-    }
-    part_size += jpg.tail_data.size();
-    // TODO(eustas): take into account histograms.
+    size_t part_size = GetMaximumBrunsliEncodedSize(jpg);
     part.resize(part_size);
     uint32_t skip_flags =
         (1u << brunsli::kBrunsliDCDataTag) | (1u << brunsli::kBrunsliACDataTag);
@@ -321,6 +310,14 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     part.resize(part_size);
   }
 
+  const auto num_group_blocks = [](const State& s) {
+    size_t result = 0;
+    for (const ComponentMeta& m : s.meta) {
+      result += static_cast<size_t>(m.width_in_blocks) * m.height_in_blocks;
+    }
+    return result;
+  };
+
   const auto serialize = [&](size_t idx) {
     if (failed.load()) return;
     std::vector<uint8_t>& part = output[idx];
@@ -328,8 +325,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx--;
     if (idx < dc_state.size()) {
       State& s = dc_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 128 * (128 + 16) * jpg.components.size();
+      size_t part_size = 1024 + 8 * num_group_blocks(s);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliDCDataTag);
@@ -344,8 +340,8 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx -= dc_state.size();
     if (idx < ac_state.size()) {
       State& s = ac_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 32 * 32 * 63 * jpg.components.size();
+      // Entropy codes are shared, so groups could be coded inefficiently.
+      size_t part_size = 2048 + 256 * num_group_blocks(s);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliACDataTag);
-- 
2.43.0


From a99f06773fe6a6f5158cbea191c3202ebfd393a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 13/24] fix: do not start serialization of streams without DC
 section

---
 c/dec/jpeg_data_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 576721e..dc2aa91 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1003,10 +1003,10 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
       case SerializationState::INIT: {
         // If parsing is complete, serialization is possible.
         bool can_start_serialization = (state->stage == Stage::DONE);
-        // Parsing of AC/DC has started; i.e. quant/huffman is ready to be used.
+        // Parsing of DC has started; i.e. quant/huffman is ready to be used.
+        // AC section without preceding DC section is invalid; it does not count.
         // Metadata section might be located anywhere; wait until it is parsed.
-        if (HasSection(state, kBrunsliDCDataTag) ||
-            HasSection(state, kBrunsliACDataTag)) {
+        if (HasSection(state, kBrunsliDCDataTag)) {
           can_start_serialization =
               can_start_serialization ||
               (HasSection(state, kBrunsliMetaDataTag) &&
-- 
2.43.0


From f916a3be6cad9fb7671589479a9b8345ab19685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 14/24] fix: skip application and comment segments when only
 tables are read

Otherwise payload of those segments (e.g. thumbnails) was parsed as markers.
---
 c/enc/jpeg_data_reader.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/c/enc/jpeg_data_reader.cc b/c/enc/jpeg_data_reader.cc
index 0ece595..5e897e5 100644
--- a/c/enc/jpeg_data_reader.cc
+++ b/c/enc/jpeg_data_reader.cc
@@ -419,6 +419,17 @@ bool ProcessCOM(const uint8_t* data, const size_t len, size_t* pos,
   return true;
 }
 
+// Skips the contents of the marker segment.
+bool SkipMarkerSegment(const uint8_t* data, const size_t len, size_t* pos,
+                       JPEGData* jpg) {
+  BRUNSLI_VERIFY_LEN(2);
+  size_t marker_len = ReadUint16(data, pos);
+  BRUNSLI_VERIFY_INPUT(marker_len, 2, 65535, MARKER_LEN);
+  BRUNSLI_VERIFY_LEN(marker_len - 2);
+  *pos += marker_len - 2;
+  return true;
+}
+
 // Helper structure to read bits from the entropy coded data segment.
 struct BitReaderState {
   BitReaderState(const uint8_t* data, const size_t len, size_t pos)
@@ -1108,11 +1119,15 @@ bool ReadJpeg(const uint8_t* data, const size_t len, JpegReadMode mode,
       case 0xef:
         if (mode != JPEG_READ_TABLES) {
           ok = ProcessAPP(data, len, &pos, jpg);
+        } else {
+          ok = SkipMarkerSegment(data, len, &pos, jpg);
         }
         break;
       case 0xfe:
         if (mode != JPEG_READ_TABLES) {
           ok = ProcessCOM(data, len, &pos, jpg);
+        } else {
+          ok = SkipMarkerSegment(data, len, &pos, jpg);
         }
         break;
       default:
-- 
2.43.0


From e0a8f06b81f4c678bfa7c6cf78c1aad261015e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 15/24] fix: padding bits limit takes number of scans into
 account

---
 c/include/brunsli/jpeg_data.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/include/brunsli/jpeg_data.h b/c/include/brunsli/jpeg_data.h
index 13f1496..750a311 100644
--- a/c/include/brunsli/jpeg_data.h
+++ b/c/include/brunsli/jpeg_data.h
@@ -280,7 +280,11 @@ inline uint64_t PaddingBitsLimit(const JPEGData& jpg) {
   // Just rough estimate, with MCU = 16px.
   const uint64_t num_blocks = ((static_cast<uint64_t>(jpg.width) + 15u) >> 3u) *
                               ((static_cast<uint64_t>(jpg.height) + 15u) >> 3u);
-  return 7u * num_blocks * jpg.components.size() + 256u;
+  // Every scan could contain up to num_blocks restart intervals.
+  const size_t num_parts = jpg.scan_info.size() > jpg.components.size()
+                               ? jpg.scan_info.size()
+                               : jpg.components.size();
+  return 7u * num_blocks * num_parts + 256u;
 }
 
 }  // namespace brunsli
-- 
2.43.0


From 5eaf3edcbc35dfcdaa5bb29652e628ff10f86bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 16/24] fix: skip scan headers when only tables are read

---
 c/enc/jpeg_data_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/enc/jpeg_data_reader.cc b/c/enc/jpeg_data_reader.cc
index 5e897e5..a1e6f38 100644
--- a/c/enc/jpeg_data_reader.cc
+++ b/c/enc/jpeg_data_reader.cc
@@ -1093,6 +1093,8 @@ bool ReadJpeg(const uint8_t* data, const size_t len, JpegReadMode mode,
         if (mode == JPEG_READ_ALL) {
           ok = ProcessScan(data, len, dc_huff_lut, ac_huff_lut,
                            scan_progression, is_progressive, &pos, jpg);
+        } else {
+          ok = SkipMarkerSegment(data, len, &pos, jpg);
         }
         break;
       case 0xdb:
-- 
2.43.0


From d578ba28fb5bd0e1767f2c6fcd3a6729acd8414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 17/24] fix: tools report failure when size of input can not be
 determined

---
 c/tools/cbrunsli.cc | 8 +++++++-
 c/tools/dbrunsli.cc | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/c/tools/cbrunsli.cc b/c/tools/cbrunsli.cc
index ac3ca79..1d7147f 100644
--- a/c/tools/cbrunsli.cc
+++ b/c/tools/cbrunsli.cc
@@ -4,6 +4,7 @@
 // license that can be found in the LICENSE file or at
 // https://opensource.org/licenses/MIT.
 
+#include <climits>
 #include <cstdio>
 #include <cstdlib>
 #include <string>
@@ -31,7 +32,12 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  const long input_size = ftell(file);
+  // Some platforms report maximal value for directories.
+  if (input_size < 0 || input_size == LONG_MAX) {
+    fprintf(stderr, "Failed to get size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
diff --git a/c/tools/dbrunsli.cc b/c/tools/dbrunsli.cc
index 7d15c2a..8551e32 100644
--- a/c/tools/dbrunsli.cc
+++ b/c/tools/dbrunsli.cc
@@ -4,6 +4,7 @@
 // license that can be found in the LICENSE file or at
 // https://opensource.org/licenses/MIT.
 
+#include <climits>
 #include <cstdio>
 #include <cstdlib>
 #include <string>
@@ -38,7 +39,12 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  const long input_size = ftell(file);
+  // Some platforms report maximal value for directories.
+  if (input_size < 0 || input_size == LONG_MAX) {
+    fprintf(stderr, "Failed to get size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
-- 
2.43.0


From c672363bfa85db4a3b612aad276414068a8d60a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 18/24] fix: group decoding requires all preceding sections

---
 c/experimental/groups.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 3078423..5a9b50e 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -38,6 +38,8 @@ bool SkipSection(const uint8_t** data, size_t len) {
     section_len |= (b & 0x7Fu) << (i * 7);
   }
   if ((b & 0x80u) != 0) return false;
+  const uint8_t wiring_type = **data & 0x7u;
+  if (wiring_type != kBrunsliWiringTypeLengthDelimited) return false;
   off += section_len;
   if (off > len) return false;
   *data += off;
@@ -377,6 +379,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
   using ::brunsli::BrunsliStatus;
   using ::brunsli::internal::dec::BlockI32;
   using ::brunsli::internal::dec::ComponentMeta;
+  using ::brunsli::internal::dec::HasSection;
   using ::brunsli::internal::dec::PrepareMeta;
   using ::brunsli::internal::dec::ProcessJpeg;
   using ::brunsli::internal::dec::Stage;
@@ -403,6 +406,11 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
 
   BrunsliStatus status = ProcessJpeg(&state, jpg);
   if (status != BrunsliStatus::BRUNSLI_NOT_ENOUGH_DATA) return false;
+  // Groups need everything that precedes them.
+  if (!HasSection(&state, brunsli::kBrunsliHeaderTag)) return false;
+  if (!HasSection(&state, brunsli::kBrunsliJPEGInternalsTag)) return false;
+  if (!HasSection(&state, brunsli::kBrunsliQuantDataTag)) return false;
+  if (!HasSection(&state, brunsli::kBrunsliHistogramDataTag)) return false;
   WarmupMeta(jpg, &state);
 
   if ((ac_group_dim % jpg->max_h_samp_factor) != 0) return false;
-- 
2.43.0


From ef6338891c5969070e74bba3b8db3b7d3b36720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 19/24] fix: memory estimate of missing input is 0

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index dbb5a7d..9d3152d 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2469,7 +2469,7 @@ BrunsliStatus BrunsliDecodeJpeg(const uint8_t* data, const size_t len,
 
 size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
                                              const size_t len) {
-  if (!data) return BRUNSLI_INVALID_PARAM;
+  if (!data) return 0;
 
   State state;
   state.data = data;
-- 
2.43.0


From c6aa6fde14c746a9b423f6322aa6bdbf429c518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:46 +0000
Subject: [PATCH 20/24] fix: ngx_brunsli: find image/x-j anywhere in the Accept
 header

The last argument of ngx_strcasestrn is the length of the searched string
less one; with the full length the terminating zero is compared as well,
so the type was only found at the very end of the header.
---
 contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
index 9de7018..48a5be7 100644
--- a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
+++ b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
@@ -296,7 +296,7 @@ static ngx_int_t ngx_http_brunsli_accept(ngx_str_t *ae) {
   u_char *p;
 
   p = ngx_strcasestrn(ae->data, (char *)ngx_http_brunsli_mime_type.data,
-                      ngx_http_brunsli_mime_type.len);
+                      ngx_http_brunsli_mime_type.len - 1);
   if (p == NULL) {
     return NGX_DECLINED;
   }
-- 
2.43.0


From 8e0814b40fe88dd40dc43b210ad918db929e340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:02 +0000
Subject: [PATCH 21/24] fix: ngx_brunsli: look past longer types that start
 with image/x-j

Only the first place where the type's name occurs in the Accept header was
looked at, so 'image/x-jng, image/x-j' was taken for a client that does not
accept image/x-j.  The character before the name was also compared with ';'
through the wrong pointer; parameters do not precede a type.
---
 .../src/ngx_http_brunsli_static_module.c      | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
index 48a5be7..2c485b8 100644
--- a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
+++ b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
@@ -293,23 +293,24 @@ static ngx_int_t ngx_http_brunsli_ok(ngx_http_request_t *r) {
 }
 
 static ngx_int_t ngx_http_brunsli_accept(ngx_str_t *ae) {
-  u_char *p;
+  u_char *p, *type;
 
-  p = ngx_strcasestrn(ae->data, (char *)ngx_http_brunsli_mime_type.data,
-                      ngx_http_brunsli_mime_type.len - 1);
-  if (p == NULL) {
-    return NGX_DECLINED;
-  }
+  p = ae->data;
 
-  if (p == ae->data || (*(p - 1) == ',' || *p == ';' || *(p - 1) == ' ')) {
-    p += ngx_http_brunsli_mime_type.len;
+  for ( ;; ) {
+    type = ngx_strcasestrn(p, (char *)ngx_http_brunsli_mime_type.data,
+                           ngx_http_brunsli_mime_type.len - 1);
+    if (type == NULL) {
+      return NGX_DECLINED;
+    }
 
-    if (p == ae->data + ae->len || *p == ',' || *p == ';' || *p == ' ') {
+    p = type + ngx_http_brunsli_mime_type.len;
+
+    if ((type == ae->data || *(type - 1) == ',' || *(type - 1) == ' ') &&
+        (p == ae->data + ae->len || *p == ',' || *p == ';' || *p == ' ')) {
       return NGX_OK;
     }
   }
-
-  return NGX_DECLINED;
 }
 
 static void *ngx_http_brunsli_static_create_conf(ngx_conf_t *cf) {
-- 
2.43.0


From fb6103b19be3cd584c847a30dc3fffe0d3722a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 22/24] fix: mod_brunsli: do not crash on media range without
 type

apr_strtok returns NULL if the token consists only of delimiters, so a
request with 'Accept: ;' made apr_collapse_spaces dereference NULL.
---
 contrib/mod_brunsli/mod_brunsli.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contrib/mod_brunsli/mod_brunsli.c b/contrib/mod_brunsli/mod_brunsli.c
index c0a2988..8701c4f 100644
--- a/contrib/mod_brunsli/mod_brunsli.c
+++ b/contrib/mod_brunsli/mod_brunsli.c
@@ -18,6 +18,7 @@ static int accept_brunsli(char* const accept) {
        token = apr_strtok(NULL, sep, &last)) {
     char* qlast;
     char* const mime_type = apr_strtok(token, qsep, &qlast);
+    if (mime_type == NULL) continue;
     apr_collapse_spaces(mime_type, mime_type);
     if (strcmp(mime_type, brunsli_mime_type) == 0) {
       return 1;
-- 
2.43.0


From bc47fa45f6c30245aa0ad2c2d979148760f0fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:17 +0000
Subject: [PATCH 23/24] fix: jxl_library_patches: skip empty entries of
 sys.modules

As in the other places that look through the loaded modules; a module whose
import was blocked or failed made the import of the patches fail.
---
 contrib/py/jxl_library_patches/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index 9b15f38..aa74b78 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -200,7 +200,7 @@ def _try_patch_all(debug=False):
   # imports PIL as needed, e.g. for jpeg. We address this by loading PIL
   # straightaway if we find that matplotlib.image has been loaded. Afterwards,
   # we patch up all modules (including PIL).
-  if any(m.__name__ == _MATPLOTLIB_IMAGE_SELF_NAME
+  if any(m is not None and m.__name__ == _MATPLOTLIB_IMAGE_SELF_NAME
          for m in sys.modules.values()):
     # Just make sure the PIL image module gets entered into sys.modules.
     # It is actually OK to do this even if we are not quite sure that
-- 
2.43.0


From 982ee610383d0bf4b096b905f4062931d99d879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:17 +0000
Subject: [PATCH 24/24] fix: jxl_library_patches: pass positional arguments to
 cv2.imread

imread(filename, flags) is the usual way to call it; the wrapper accepted
only keyword arguments, so such calls failed for every file.
---
 contrib/py/jxl_library_patches/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index aa74b78..de7fe2d 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -63,18 +63,18 @@ def _get_opencv_wrapped_imread(cv2_imread, debug=False):
   if wrapper:
     return wrapper
   # Otherwise, there was not yet a wrapper-function. Create one.
-  def imread(filename, **kwargs):  # Has same name as replaced function.
+  def imread(filename, *args, **kwargs):  # Has same name as replaced function.
     """[Docstring will get replaced]."""
     # For now, this wrapper does nothing - it just wraps the original imread().
     if debug:
       sys.stderr.write(
-          'DDD wrapped OpenCV imread(filename=%r, **kwargs=%r)\n' % (
-              filename, kwargs))
+          'DDD wrapped OpenCV imread(filename=%r, *args=%r, **kwargs=%r)\n' % (
+              filename, args, kwargs))
     if jxl_utils.is_jpegxl_recompressed_jpeg_file(filename):
       return jxl_utils.call_with_jxl_filename_arg1_replaced_by_temp_jpeg_file(
-          cv2_imread, filename, **kwargs)
+          cv2_imread, filename, *args, **kwargs)
     else:
-      return cv2_imread(filename, **kwargs)
+      return cv2_imread(filename, *args, **kwargs)
   # We even fake the docstring.
   imread.__doc__ = cv2_imread.__doc__
   # Make both the old and the new function point to the wrapper in the global
-- 
2.43.0

