From c2d8bd5d6d2d5bc88919fdfdf761b1e610069e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 01/17] fix: encode INT64_MIN varint deltas without colliding
 with the NaN marker

---
 cloudini_lib/include/cloudini_lib/encoding_utils.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 0eb976c..2941054 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -56,6 +56,13 @@ inline size_t encodeVarint64(int64_t value, uint8_t* ptr) {
   uint64_t val = static_cast<uint64_t>((value << 1) ^ (value >> 63));  // Zig-zag encoding
   val++;                                                               // reserving value 0 for NaN
   uint8_t* ptr_start = ptr;
+  if (val == 0) {
+    // value == INT64_MIN: the shifted code is 2^64, which does not fit in 64 bits (and would be
+    // mistaken for the NaN marker). Write its 10 byte varint directly.
+    memset(ptr, 0x80, 9);
+    ptr[9] = 0x02;
+    return 10;
+  }
   while (val > 0x7F) {
     *ptr = (static_cast<uint8_t>((val & 0x7F) | 0x80));
     val >>= 7;
@@ -124,6 +131,11 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
       uint8_t byte = *ptr;
       ptr++;
       const uint8_t payload = byte & 0x7f;
+      if (shift == 63 && byte == 0x02 && uval == 0) {
+        // 2^64: the only code that needs 65 bits, see encodeVarint64
+        val = std::numeric_limits<int64_t>::min();
+        return static_cast<size_t>(ptr - buf);
+      }
       if (shift >= 64 || (shift == 63 && payload > 1)) {
         throw std::runtime_error("decodeVarint: value overflow");
       }
-- 
2.43.0


From 6b728839b951f9c9ea8bbb99985182f603ed0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 02/17] fix: size worst-case chunks by what the first stage can
 produce

---
 cloudini_lib/src/cloudini.cpp     | 14 +++++---------
 cloudini_lib/src/codec_common.cpp | 13 +++++++++++++
 cloudini_lib/src/codec_common.hpp |  3 +++
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e8301fb..b3ad26b 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -254,20 +254,13 @@ size_t MaxCompressedSize(const EncodingInfo& info, size_t points_count, bool inc
   constexpr size_t chunk_points = detail::kPointsPerChunk;
   const size_t chunks_count = (points_count / chunk_points) + ((points_count % chunk_points) ? 1 : 0);
 
-  const size_t max_serialized_point_size = detail::MaxSerializedPointSize(info);
   size_t total_size = include_header ? (kMagicHeaderLength + 2 + 1 + EncodingInfoToYAML(info).size() + 1) : 0;
 
   size_t points_left = points_count;
   for (size_t chunk_idx = 0; chunk_idx < chunks_count; ++chunk_idx) {
     const size_t points_in_chunk = std::min(points_left, chunk_points);
     points_left -= points_in_chunk;
-    size_t max_chunk_input_size = points_in_chunk * max_serialized_point_size;
-    if (detail::UsesV5Codec(info)) {
-      // V5 adaptive integer sections add mode/header bytes. Adaptive sections
-      // compete using their full encoded size, so any selected mode remains
-      // bounded by the delta-varint section plus this fixed slack.
-      max_chunk_input_size += info.fields.size() * 32u + 1024u;
-    }
+    const size_t max_chunk_input_size = detail::MaxStage1ChunkSize(info, points_in_chunk);
 
     total_size += sizeof(uint32_t);  // chunk size prefix
     switch (info.compression_opt) {
@@ -669,8 +662,11 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
 
 void PointcloudDecoder::decodeChunk(
     const EncodingInfo& info, ConstBufferView chunk_data, BufferView& output_buffer, size_t expected_points) {
+  // The first stage can expand the data (for instance, the varint of a random 16 bits value takes 3 bytes).
+  const size_t points_in_chunk =
+      (expected_points > 0) ? expected_points : static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
   const size_t max_decompressed_size =
-      static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step;
+      std::max(points_in_chunk * info.point_step, detail::MaxStage1ChunkSize(info, points_in_chunk));
   ConstBufferView encoded_view = detail::DecompressChunk(
       info.compression_opt, chunk_data, decompressed_buffer_, max_decompressed_size);
 
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index f447ac3..8bbf59e 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -22,6 +22,7 @@
 #include <stdexcept>
 
 #include "lz4.h"
+#include "v5_codec.hpp"
 #include "zstd.h"
 
 namespace Cloudini::detail {
@@ -66,6 +67,18 @@ size_t MaxSerializedPointSize(const EncodingInfo& info) {
   return max_point_size;
 }
 
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_count) {
+  size_t max_point_size = MaxSerializedPointSize(info);
+  size_t sections_overhead = 0;
+  if (UsesV5Codec(info)) {
+    // An adaptive integer section is at most a mode byte and a run count, plus, per point,
+    // the worst case of a Delta-RLE run: a 10 bytes delta and a 1 byte run length.
+    max_point_size += info.fields.size();
+    sections_overhead = info.fields.size() * 32u + 1024u;
+  }
+  return points_count * max_point_size + sections_overhead;
+}
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info) {
   if (info.encoding_opt != EncodingOptions::LOSSY) {
     return 0;
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 104feb0..f6e8cd7 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -30,6 +30,9 @@ constexpr size_t kPointsPerChunk = 32 * 1024;
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
 
+// Upper bound of the size of a first stage chunk that contains points_count points.
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_count);
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info);
 
 size_t AppendLeadingLossyFloatEncoder(
-- 
2.43.0


From 1e167e72ee60501c68a0dc04b5d697be3d133e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 03/17] fix: V5 adaptive sections honor kDecodeButSkipStore and
 reject wrapping run lengths

---
 cloudini_lib/src/v5_codec.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 9f41f3a..dc6cb97 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -775,6 +775,13 @@ void decodeV5AdaptiveIntSection(
   }
   const auto mode = static_cast<AdaptiveIntMode>(mode_byte);
 
+  const bool skip_store = (field.offset == kDecodeButSkipStore);
+  auto store = [&](size_t point_index, uint64_t value) {
+    if (!skip_store) {
+      writeRawBitsToPoint(value, field.bytes_per_value, output_base + point_index * point_step + field.offset);
+    }
+  };
+
   switch (mode) {
     case AdaptiveIntMode::DeltaVarint: {
       int64_t prev = 0;
@@ -784,9 +791,7 @@ void decodeV5AdaptiveIntSection(
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
-        writeRawBitsToPoint(
-            static_cast<uint64_t>(value), field.bytes_per_value,
-            output_base + i * point_step + field.offset);
+        store(i, static_cast<uint64_t>(value));
       }
     } break;
 
@@ -817,7 +822,7 @@ void decodeV5AdaptiveIntSection(
         if (idx >= palette.size()) {
           throw std::runtime_error("V5 adaptive int: palette index out of range");
         }
-        writeRawBitsToPoint(palette[idx], field.bytes_per_value, output_base + i * point_step + field.offset);
+        store(i, palette[idx]);
       }
       input.trim_front(index_bytes);
     } break;
@@ -833,11 +838,11 @@ void decodeV5AdaptiveIntSection(
         const uint64_t value = readRawBits(input.data(), field.bytes_per_value);
         input.trim_front(field.bytes_per_value);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          writeRawBitsToPoint(value, field.bytes_per_value, output_base + out_index * point_step + field.offset);
+          store(out_index, value);
           ++out_index;
         }
       }
@@ -856,15 +861,13 @@ void decodeV5AdaptiveIntSection(
         const auto consumed = decodeVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
           const int64_t value = prev + diff;
           prev = value;
-          writeRawBitsToPoint(
-              static_cast<uint64_t>(value), field.bytes_per_value,
-              output_base + out_index * point_step + field.offset);
+          store(out_index, static_cast<uint64_t>(value));
           ++out_index;
         }
       }
-- 
2.43.0


From d6bed8808880aa9ac244f5cd36506776ed51c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 04/17] fix: reject fields that lie outside of the point

---
 cloudini_lib/src/cloudini.cpp     |  2 ++
 cloudini_lib/src/codec_common.cpp | 11 +++++++++++
 cloudini_lib/src/codec_common.hpp |  4 ++++
 3 files changed, 17 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index b3ad26b..578ef20 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -519,6 +519,7 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
   if (cloud_data.size() % info_.point_step != 0) {
     throw std::runtime_error("Input cloud_data size is not a multiple of point_step");
   }
+  detail::CheckFieldsLayout(info_, /*allow_skip_store=*/false);
   const size_t points_count = cloud_data.size() / info_.point_step;
   // Use header_.size() directly to avoid redundant YAML serialization inside MaxCompressedSize
   const size_t required_capacity = MaxCompressedSize(info_, points_count, false) + (write_header ? header_.size() : 0);
@@ -618,6 +619,7 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
 //------------------------------------------------------------------------------------------
 
 void PointcloudDecoder::updateDecoders(const EncodingInfo& info) {
+  detail::CheckFieldsLayout(info, /*allow_skip_store=*/true);
   if (detail::UsesV5Codec(info)) {
     detail::BuildV5Decoders(info, decoders_, min_encoded_point_bytes_);
   } else {
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index 8bbf59e..71fa8d4 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -79,6 +79,17 @@ size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_count) {
   return points_count * max_point_size + sections_overhead;
 }
 
+void CheckFieldsLayout(const EncodingInfo& info, bool allow_skip_store) {
+  for (const auto& field : info.fields) {
+    if (allow_skip_store && field.offset == kDecodeButSkipStore) {
+      continue;
+    }
+    if (static_cast<size_t>(field.offset) + static_cast<size_t>(SizeOf(field.type)) > info.point_step) {
+      throw std::runtime_error("Field '" + field.name + "' doesn't fit inside point_step");
+    }
+  }
+}
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info) {
   if (info.encoding_opt != EncodingOptions::LOSSY) {
     return 0;
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index f6e8cd7..a7771a1 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -33,6 +33,10 @@ size_t MaxSerializedPointSize(const EncodingInfo& info);
 // Upper bound of the size of a first stage chunk that contains points_count points.
 size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_count);
 
+// Throws if a field doesn't fit inside point_step. Fields marked with kDecodeButSkipStore
+// have no location in the point, and can be accepted only when decoding.
+void CheckFieldsLayout(const EncodingInfo& info, bool allow_skip_store);
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info);
 
 size_t AppendLeadingLossyFloatEncoder(
-- 
2.43.0


From 7aa10b8e51cbaa17e8c305e2b1aec7535f5c35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 05/17] fix: field decoders never read past the end of a
 truncated chunk

---
 .../include/cloudini_lib/field_decoder.hpp         | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index c690275..b6d1234 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -60,7 +60,11 @@ class FieldDecoderCopy : public FieldDecoder {
   }
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
-    // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+    // The per-point check of PointcloudDecoder is not sufficient: variable size fields of the same
+    // point may have consumed more than their minimum.
+    if (input.size() < field_size_) {
+      throw std::runtime_error("FieldDecoderCopy: truncated input");
+    }
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, input.data(), field_size_);
     }
@@ -329,7 +333,9 @@ class FieldDecoderFloatN_Lossy : public FieldDecoder {
 //------------------------------------------------------------------------------------------
 template <typename FloatType>
 inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point min_encoded_point_bytes_ check
+  if (input.empty()) {
+    throw std::runtime_error("FieldDecoderFloat_Lossy: truncated input");
+  }
   if (input.data()[0] == 0) {
     constexpr auto nan_value = std::numeric_limits<FloatType>::quiet_NaN();
     if (offset_ != kDecodeButSkipStore) {
@@ -354,7 +360,9 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
 template <typename FloatType>
 inline void FieldDecoderFloat_XOR<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+  if (input.size() < sizeof(IntType)) {
+    throw std::runtime_error("FieldDecoderFloat_XOR: truncated input");
+  }
   IntType residual = 0;
   memcpy(&residual, input.data(), sizeof(IntType));
   input.trim_front(sizeof(IntType));
-- 
2.43.0


From b8678bb6a7dd7f90310f2c82cb38861e778751ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 06/17] fix: compute the size of the decoded cloud with 64 bits

---
 cloudini_lib/include/cloudini_lib/cloudini.hpp | 2 +-
 cloudini_lib/src/ros_msg_utils.cpp             | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/cloudini.hpp b/cloudini_lib/include/cloudini_lib/cloudini.hpp
index a2beac8..615a578 100644
--- a/cloudini_lib/include/cloudini_lib/cloudini.hpp
+++ b/cloudini_lib/include/cloudini_lib/cloudini.hpp
@@ -227,7 +227,7 @@ class PointcloudDecoder {
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, BufferView output);
 
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, std::vector<uint8_t>& output) {
-    output.resize(info.width * info.height * info.point_step);
+    output.resize(static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step);
     BufferView output_view(output.data(), output.size());
     decode(info, compressed_data, output_view);
   }
diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 2978571..3153fff 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -134,7 +134,11 @@ Cloudini::EncodingInfo toEncodingInfo(const RosPointCloud2& pc_info) {
 
 void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vector<uint8_t>& pc2_dds_msg) {
   // We need to reserve enough space in the output buffer
-  const size_t cloud_data_size = pc_info.width * pc_info.height * pc_info.point_step;
+  const size_t cloud_data_size =
+      static_cast<size_t>(pc_info.width) * static_cast<size_t>(pc_info.height) * pc_info.point_step;
+  if (cloud_data_size > std::numeric_limits<uint32_t>::max()) {
+    throw std::runtime_error("convertCompressedCloudToPointCloud2: cloud too large for a DDS message");
+  }
 
   pc2_dds_msg.clear();
   nanocdr::Encoder cdr_encoder(pc_info.cdr_header, pc2_dds_msg);
-- 
2.43.0


From 7fffcf478473d470a4648909487b7c0d02f70470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 07/17] fix: do not mistake the binary header of a cloud with
 width 10 for YAML

---
 cloudini_lib/src/cloudini.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 578ef20..7f8d9fa 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -369,7 +369,11 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
 
   // YAML payload starts with newline followed by a non-brace; legacy binary
   // payload starts with the brace of an inline schema.
-  if (input.size() >= 2 && input.data()[0] == '\n' && input.data()[1] != '{') {
+  // A binary payload starts with the 4 bytes of the width, and the first one can be equal to newline too.
+  // The next three tell them apart: they are text in YAML, never in the width of a realistic cloud.
+  auto is_text = [](uint8_t c) { return c >= ' ' || c == '\n' || c == '\r' || c == '\t'; };
+  if (input.size() >= 2 && input.data()[0] == '\n' && input.data()[1] != '{' &&
+      std::all_of(input.data() + 1, input.data() + std::min<size_t>(input.size(), 4), is_text)) {
     input.trim_front(1);  // consume newline
     std::string_view yaml_str(reinterpret_cast<const char*>(input.data()), input.size());
     size_t null_pos = yaml_str.find('\0');
-- 
2.43.0


From 1c42cccc37a5368b13af607e89dc985a2f998528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 08/17] fix: store the exact resolution in the YAML header

---
 cloudini_lib/src/cloudini.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 7f8d9fa..65f71c7 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,7 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cstdlib>
 #include <cstring>
 #include <limits>
 #include <sstream>
@@ -162,6 +163,20 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
   throw std::runtime_error("Invalid CompressionOption string: " + std::string(str));
 }
 
+namespace {
+// The default 6 digits are kept when they are sufficient to restore the same value
+std::string floatToYAML(float value) {
+  std::ostringstream str;
+  str << value;
+  if (std::strtof(str.str().c_str(), nullptr) != value) {
+    str.str("");
+    str.precision(std::numeric_limits<float>::max_digits10);
+    str << value;
+  }
+  return str.str();
+}
+}  // namespace
+
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
   yaml << "version: " << static_cast<int>(info.version) << "\n";
@@ -181,7 +196,7 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
-      yaml << "    resolution: " << field.resolution.value() << "\n";
+      yaml << "    resolution: " << floatToYAML(field.resolution.value()) << "\n";
     } else {
       yaml << "    resolution: null\n";
     }
-- 
2.43.0


From 338ccb7fd6e02a98cdff599172e12fff969c2f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 09/17] fix: reject invalid windows in the Gorilla decoder

---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index b6d1234..22073d8 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -275,6 +275,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
       IntType xor_val;
       if (control == 0) {
         // Reuse previous window.
+        if (prev_leading_ == kLeadingSentinel) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: missing window");
+        }
         const uint8_t meaningful = static_cast<uint8_t>(kTypeBits - prev_leading_ - prev_trailing_);
         const uint64_t bits = getBits(meaningful, input);
         xor_val = static_cast<IntType>(bits << prev_trailing_);
@@ -282,6 +285,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
         // New window: read leading(5), meaningful-1(6), meaningful bits.
         const uint8_t stored_leading = static_cast<uint8_t>(getBits(5, input));
         const uint8_t meaningful = static_cast<uint8_t>(getBits(6, input) + 1);
+        if (stored_leading + meaningful > static_cast<int>(kTypeBits)) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: invalid window");
+        }
         const uint64_t bits = getBits(meaningful, input);
         const uint8_t trailing = static_cast<uint8_t>(kTypeBits - stored_leading - meaningful);
         xor_val = static_cast<IntType>(bits << trailing);
-- 
2.43.0


From eef342cf6241591d1f5991b60385adfb6fe88cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 10/17] fix: do not loop forever when a version 2 payload has
 no fields

---
 cloudini_lib/src/v4_codec.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/src/v4_codec.cpp b/cloudini_lib/src/v4_codec.cpp
index 726e6e1..ff82723 100644
--- a/cloudini_lib/src/v4_codec.cpp
+++ b/cloudini_lib/src/v4_codec.cpp
@@ -108,10 +108,14 @@ void DecodeV4Stage1Chunk(
     }
   } else {
     while (!encoded_view.empty()) {
+      const size_t prev_encoded_size = encoded_view.size();
       if (encoded_view.size() < min_encoded_point_bytes) {
         throw std::runtime_error("Truncated encoded data: not enough bytes for a complete point");
       }
       decode_point();
+      if (encoded_view.size() == prev_encoded_size) {
+        throw std::runtime_error("Encoded data doesn't contain any field");
+      }
     }
   }
 }
-- 
2.43.0


From 10fcb27c3b4c994df8ccfc227de648499c094569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 11/17] fix: check the size of the buffer before reading the
 CDR header

---
 cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index e73b72a..be72df7 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -250,6 +250,9 @@ inline void swapEndianness(T& val) {
 }
 
 inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer), origin_(buffer.data() + 4) {
+  if (buffer_.size() < 4) {
+    throw std::runtime_error("Invalid CDR header: buffer too small");
+  }
   const auto* ptr = buffer_.data();
   uint8_t dummy = ptr[0];
   if (dummy != 0) {
-- 
2.43.0


From 84ebb80b77c239e719665c3c7824bb41bd9225fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 12/17] fix: write the size of the compressed data with the
 endianness of the message

---
 cloudini_lib/src/ros_msg_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 3153fff..a20427f 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -206,7 +206,11 @@ void convertPointCloud2ToCompressedCloud(
   const size_t compressed_size = cloud_encoder.encode(pc_info.data, compressed_data_view, true);
 
   // we can finally write the actual size of the compressed data
-  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size, sizeof(uint32_t));
+  uint32_t compressed_size_u32 = static_cast<uint32_t>(compressed_size);
+  if (pc_info.cdr_header.endianness != nanocdr::getCurrentEndianness()) {
+    nanocdr::swapEndianness(compressed_size_u32);
+  }
+  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size_u32, sizeof(uint32_t));
 
   // Resize the output buffer to the actual size used
   compressed_dds_msg.resize(prev_size + compressed_size);
-- 
2.43.0


From 7ff2219732bd64c94c687fa43cce75f0e5e4b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 13/17] fix: decode PCL points with the stride of the
 destination type

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 5 ++++-
 cloudini_lib/src/pcl_conversion.cpp                  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index d46e2fd..f157254 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -128,7 +128,7 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
   // decode the header
   EncodingInfo header_info = DecodeHeader(serialized_data);
   // resize the cloud to the decoded size
-  cloud.points.resize(header_info.width * header_info.height);
+  cloud.points.resize(static_cast<size_t>(header_info.width) * header_info.height);
   cloud.width = header_info.width;
   cloud.height = header_info.height;
 
@@ -155,6 +155,9 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
     }
   }
 
+  // the offsets refer to PointT now, therefore its size is the distance between decoded points
+  header_info.point_step = sizeof(PointT);
+
   // decode the data
   BufferView output_view(reinterpret_cast<uint8_t*>(cloud.points.data()), cloud.points.size() * sizeof(PointT));
   PointcloudDecoder decoder;
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index da61953..64d6fd5 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -252,7 +252,7 @@ void PCLPointCloudDecode(ConstBufferView serialized_data, pcl::PCLPointCloud2& c
   cloud.is_bigendian = false;
 
   // Resize data
-  cloud.data.resize(cloud.width * cloud.height * cloud.point_step);
+  cloud.data.resize(static_cast<size_t>(cloud.width) * cloud.height * cloud.point_step);
 
   // Convert fields
   cloud.fields.clear();
-- 
2.43.0


From 26cc12e04cdd6732050e357106ac1555a602ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 14/17] fix: recognize 64 bits signed integers and doubles in
 the header of PCD files

---
 cloudini_lib/src/pcl_conversion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 64d6fd5..f39fb12 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -76,7 +76,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     const std::string name = std::string(fields_name[i]);
     const int bytes = std::stoi(std::string(fields_size[i]));
     FieldType type = FieldType::UNKNOWN;
-    if (fields_type[i] == "F" && bytes == 4) {
+    if (fields_type[i] == "F") {
       if (bytes == 4) {
         type = FieldType::FLOAT32;
       } else if (bytes == 8) {
@@ -89,6 +89,8 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
         type = FieldType::INT16;
       } else if (bytes == 4) {
         type = FieldType::INT32;
+      } else if (bytes == 8) {
+        type = FieldType::INT64;
       }
     } else if (fields_type[i] == "U") {
       if (bytes == 1) {
-- 
2.43.0


From ed57c318c36511818f93a535a3f1793a418d7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 15/17] fix: voxel deduplication keeps points that are out of
 the range of the voxel key

---
 cloudini_lib/src/ros_msg_utils.cpp | 32 +++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index a20427f..13ab450 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -36,9 +36,8 @@ namespace {
 // signed values in [-2^20, 2^20-1] ≈ [-1.04M, 1.04M] ticks. At 1mm resolution
 // that's ±1km per axis; at 1cm it's ±10km. Any realistic LIDAR fits.
 //
-// Out-of-range coords silently truncate (would cause false dedup positives).
-// For our DATA corpus (200m max range × 1mm) this is well within the safe
-// region; if encountered, bumping resolution to 1cm gives 10× headroom.
+// Out-of-range coords would truncate (and cause false dedup positives): the
+// caller must check voxelFits21 first.
 inline uint64_t packVoxelKey21(int32_t qx, int32_t qy, int32_t qz) {
   constexpr int64_t kBias = int64_t{1} << 20;
   constexpr uint64_t kAxisMask = (uint64_t{1} << 21) - 1;
@@ -48,6 +47,13 @@ inline uint64_t packVoxelKey21(int32_t qx, int32_t qy, int32_t qz) {
   return ux | (uy << 21) | (uz << 42);
 }
 
+// True if the coordinate (in ticks) can be represented by packVoxelKey21. The limit is one
+// tick tighter than needed, to account for rounding.
+inline bool voxelFits21(float ticks) {
+  constexpr float kLimit = static_cast<float>((1 << 20) - 1);
+  return ticks > -kLimit && ticks < kLimit;
+}
+
 }  // namespace
 
 
@@ -279,6 +285,9 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
   }
   const float inv_res = 1.0f / xyz_res;
   const uint32_t xyz_off[3] = {f0.offset, f1.offset, f2.offset};
+  if (static_cast<size_t>(f0.offset) + 12u > pc_info.point_step) {
+    return;
+  }
 
   const size_t n_in = (pc_info.data.size() == 0) ? 0 : (pc_info.data.size() / pc_info.point_step);
   if (n_in == 0) {
@@ -319,12 +328,17 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
     if (!std::isfinite(fx) || !std::isfinite(fy) || !std::isfinite(fz)) {
       continue;  // drop NaN/inf
     }
-    const uint64_t key = packVoxelKey21(
-        static_cast<int32_t>(std::lround(fx * inv_res)),
-        static_cast<int32_t>(std::lround(fy * inv_res)),
-        static_cast<int32_t>(std::lround(fz * inv_res)));
-    if (!seen.insert(key).second) {
-      continue;  // voxel duplicate
+    const float tx = fx * inv_res;
+    const float ty = fy * inv_res;
+    const float tz = fz * inv_res;
+    // points that are too far to have a unique key are kept, without deduplication
+    if (voxelFits21(tx) && voxelFits21(ty) && voxelFits21(tz)) {
+      const uint64_t key = packVoxelKey21(
+          static_cast<int32_t>(std::lround(tx)), static_cast<int32_t>(std::lround(ty)),
+          static_cast<int32_t>(std::lround(tz)));
+      if (!seen.insert(key).second) {
+        continue;  // voxel duplicate
+      }
     }
     const size_t before = out.size();
     out.resize(before + pc_info.point_step);
-- 
2.43.0


From bc9634587235edcacf3c9223054d89fc068d6c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 16/17] fix: read the header of PCD files that start with a
 comment

---
 cloudini_lib/src/pcl_conversion.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index f39fb12..658b379 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -42,8 +42,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
   std::vector<std::string> fields_size;
   std::vector<std::string> fields_type;
 
-  do {
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
     line = line.substr(0, line.find('#'));   // Remove comments
     line = line.substr(0, line.find('\r'));  // Remove carriage return if present
     line = line.substr(0, line.find('\n'));  // Remove newline if present
@@ -62,7 +61,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     } else if (line_key == "DATA") {
       break;
     }
-  } while (!line.empty());
+  }
 
   const size_t num_fields = fields_name.size();
 
-- 
2.43.0


From d057d58811baae6df0f1650172f47ddbca8f3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 17/17] fix: size the V5 stage buffer for the worst case of
 clouds with many fields

---
 cloudini_lib/src/v5_codec.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index dc6cb97..822b024 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -896,8 +896,9 @@ bool UsesV5Codec(const EncodingInfo& info) {
 
 size_t V5StageBufferSize(const EncodingInfo& info, size_t points_per_chunk) {
   const size_t max_per_point = MaxSerializedPointSize(info);
-  return points_per_chunk * (std::max<size_t>(info.point_step, max_per_point) + 64u) +
-         info.fields.size() * 64u + 1024u;
+  const size_t with_slack = points_per_chunk * (std::max<size_t>(info.point_step, max_per_point) + 64u) +
+                            info.fields.size() * 64u + 1024u;
+  return std::max(with_slack, MaxStage1ChunkSize(info, points_per_chunk));
 }
 
 void EncodeV5Stage1(
-- 
2.43.0

