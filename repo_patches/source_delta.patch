From ea857d5b7ee50cb7981f06ea41723e2b40c99c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 01/29] fix: field decoders check the remaining input before
 reading it

---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index c690275..b5e138e 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -60,7 +60,9 @@ class FieldDecoderCopy : public FieldDecoder {
   }
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
-    // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+    if (input.size() < field_size_) {
+      throw std::runtime_error("FieldDecoderCopy: truncated input");
+    }
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, input.data(), field_size_);
     }
@@ -329,7 +331,9 @@ class FieldDecoderFloatN_Lossy : public FieldDecoder {
 //------------------------------------------------------------------------------------------
 template <typename FloatType>
 inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point min_encoded_point_bytes_ check
+  if (input.empty()) {
+    throw std::runtime_error("FieldDecoder(Float/Lossy): truncated input");
+  }
   if (input.data()[0] == 0) {
     constexpr auto nan_value = std::numeric_limits<FloatType>::quiet_NaN();
     if (offset_ != kDecodeButSkipStore) {
@@ -354,7 +358,9 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
 template <typename FloatType>
 inline void FieldDecoderFloat_XOR<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+  if (input.size() < sizeof(IntType)) {
+    throw std::runtime_error("FieldDecoderFloat_XOR: truncated input");
+  }
   IntType residual = 0;
   memcpy(&residual, input.data(), sizeof(IntType));
   input.trim_front(sizeof(IntType));
-- 
2.43.0


From 3a5e450752e79fb847fc9dca55b863a2c0310294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 02/29] fix: refuse field layouts that do not fit in the point
 step when encoding and decoding

---
 cloudini_lib/src/cloudini.cpp     |  2 ++
 cloudini_lib/src/codec_common.cpp | 12 ++++++++++++
 cloudini_lib/src/codec_common.hpp |  4 ++++
 3 files changed, 18 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e8301fb..16367cb 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -428,6 +428,7 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
 }
 
 PointcloudEncoder::PointcloudEncoder(const EncodingInfo& info) : info_(info) {
+  detail::ValidateFieldLayout(info_, /*allow_skip_store=*/false);
   EncodeHeader(info_, header_);
 
   if (!detail::UsesV5Codec(info_)) {
@@ -633,6 +634,7 @@ void PointcloudDecoder::updateDecoders(const EncodingInfo& info) {
 }
 
 void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compressed_data, BufferView output) {
+  detail::ValidateFieldLayout(info, /*allow_skip_store=*/true);
   // read the header
   updateDecoders(info);
 
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index f447ac3..e8cfdd4 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -66,6 +66,18 @@ size_t MaxSerializedPointSize(const EncodingInfo& info) {
   return max_point_size;
 }
 
+void ValidateFieldLayout(const EncodingInfo& info, bool allow_skip_store) {
+  for (const auto& field : info.fields) {
+    if (allow_skip_store && field.offset == kDecodeButSkipStore) {
+      continue;
+    }
+    const size_t field_end = static_cast<size_t>(field.offset) + static_cast<size_t>(SizeOf(field.type));
+    if (field_end > info.point_step) {
+      throw std::runtime_error("Field '" + field.name + "' does not fit in the point (offset + size > point_step)");
+    }
+  }
+}
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info) {
   if (info.encoding_opt != EncodingOptions::LOSSY) {
     return 0;
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 104feb0..f3fc319 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -30,6 +30,10 @@ constexpr size_t kPointsPerChunk = 32 * 1024;
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
 
+// Throws if a field would lie (partially) outside the point, i.e. outside [0, point_step).
+// Fields marked with kDecodeButSkipStore have no storage: they are accepted only when allow_skip_store is true.
+void ValidateFieldLayout(const EncodingInfo& info, bool allow_skip_store);
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info);
 
 size_t AppendLeadingLossyFloatEncoder(
-- 
2.43.0


From 021b0b4f217a8ae771e9438055f3664ebd005b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 03/29] fix: V5 run lengths near 2^64 no longer wrap the
 point-count check

---
 cloudini_lib/src/v5_codec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 9f41f3a..83e2327 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -833,7 +833,7 @@ void decodeV5AdaptiveIntSection(
         const uint64_t value = readRawBits(input.data(), field.bytes_per_value);
         input.trim_front(field.bytes_per_value);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
@@ -856,7 +856,7 @@ void decodeV5AdaptiveIntSection(
         const auto consumed = decodeVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-- 
2.43.0


From a6eb1a526f1fec840658869b4e178e363641ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 04/29] fix: V5 adaptive integer sections honour
 kDecodeButSkipStore

---
 cloudini_lib/src/v5_codec.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 83e2327..eb9e32d 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -775,6 +775,8 @@ void decodeV5AdaptiveIntSection(
   }
   const auto mode = static_cast<AdaptiveIntMode>(mode_byte);
 
+  const bool store_value = (field.offset != kDecodeButSkipStore);
+
   switch (mode) {
     case AdaptiveIntMode::DeltaVarint: {
       int64_t prev = 0;
@@ -784,9 +786,11 @@ void decodeV5AdaptiveIntSection(
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
-        writeRawBitsToPoint(
-            static_cast<uint64_t>(value), field.bytes_per_value,
-            output_base + i * point_step + field.offset);
+        if (store_value) {
+          writeRawBitsToPoint(
+              static_cast<uint64_t>(value), field.bytes_per_value,
+              output_base + i * point_step + field.offset);
+        }
       }
     } break;
 
@@ -817,7 +821,9 @@ void decodeV5AdaptiveIntSection(
         if (idx >= palette.size()) {
           throw std::runtime_error("V5 adaptive int: palette index out of range");
         }
-        writeRawBitsToPoint(palette[idx], field.bytes_per_value, output_base + i * point_step + field.offset);
+        if (store_value) {
+          writeRawBitsToPoint(palette[idx], field.bytes_per_value, output_base + i * point_step + field.offset);
+        }
       }
       input.trim_front(index_bytes);
     } break;
@@ -837,7 +843,9 @@ void decodeV5AdaptiveIntSection(
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          writeRawBitsToPoint(value, field.bytes_per_value, output_base + out_index * point_step + field.offset);
+          if (store_value) {
+            writeRawBitsToPoint(value, field.bytes_per_value, output_base + out_index * point_step + field.offset);
+          }
           ++out_index;
         }
       }
@@ -862,9 +870,11 @@ void decodeV5AdaptiveIntSection(
         for (uint64_t k = 0; k < run_len; ++k) {
           const int64_t value = prev + diff;
           prev = value;
-          writeRawBitsToPoint(
-              static_cast<uint64_t>(value), field.bytes_per_value,
-              output_base + out_index * point_step + field.offset);
+          if (store_value) {
+            writeRawBitsToPoint(
+                static_cast<uint64_t>(value), field.bytes_per_value,
+                output_base + out_index * point_step + field.offset);
+          }
           ++out_index;
         }
       }
-- 
2.43.0


From d73f761071fdf73a9c020b1e107039891c154b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 05/29] fix: Gorilla decoder rejects undefined or oversized bit
 windows

---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index b5e138e..4db4049 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -273,6 +273,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
       IntType xor_val;
       if (control == 0) {
         // Reuse previous window.
+        if (prev_leading_ == kLeadingSentinel) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: window reused before being defined");
+        }
         const uint8_t meaningful = static_cast<uint8_t>(kTypeBits - prev_leading_ - prev_trailing_);
         const uint64_t bits = getBits(meaningful, input);
         xor_val = static_cast<IntType>(bits << prev_trailing_);
@@ -280,6 +283,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
         // New window: read leading(5), meaningful-1(6), meaningful bits.
         const uint8_t stored_leading = static_cast<uint8_t>(getBits(5, input));
         const uint8_t meaningful = static_cast<uint8_t>(getBits(6, input) + 1);
+        if (static_cast<size_t>(stored_leading) + meaningful > kTypeBits) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: window larger than the value");
+        }
         const uint64_t bits = getBits(meaningful, input);
         const uint8_t trailing = static_cast<uint8_t>(kTypeBits - stored_leading - meaningful);
         xor_val = static_cast<IntType>(bits << trailing);
-- 
2.43.0


From 1c1411be636d66afa09e37281aae624745ec427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 06/29] fix: MaxCompressedSize covers the run length byte of
 committed V5 Delta-RLE sections

---
 cloudini_lib/src/cloudini.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 16367cb..302dd49 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -263,10 +263,10 @@ size_t MaxCompressedSize(const EncodingInfo& info, size_t points_count, bool inc
     points_left -= points_in_chunk;
     size_t max_chunk_input_size = points_in_chunk * max_serialized_point_size;
     if (detail::UsesV5Codec(info)) {
-      // V5 adaptive integer sections add mode/header bytes. Adaptive sections
-      // compete using their full encoded size, so any selected mode remains
-      // bounded by the delta-varint section plus this fixed slack.
-      max_chunk_input_size += info.fields.size() * 32u + 1024u;
+      // V5 adaptive integer sections add mode/header bytes. A mode committed on earlier
+      // points may be a poor fit for later ones: a Delta-RLE run of a single value costs
+      // its varint plus one byte of run length.
+      max_chunk_input_size += info.fields.size() * (points_in_chunk + 32u) + 1024u;
     }
 
     total_size += sizeof(uint32_t);  // chunk size prefix
-- 
2.43.0


From 63ad791b6fbc60c2319ca84dd9ea1e865fc3723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 07/29] fix: decompression limit covers clouds whose first
 stage expands the data

---
 cloudini_lib/src/cloudini.cpp     |  7 +++++--
 cloudini_lib/src/codec_common.cpp | 11 +++++++++++
 cloudini_lib/src/codec_common.hpp |  2 ++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 302dd49..ed92f85 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -671,8 +671,11 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
 
 void PointcloudDecoder::decodeChunk(
     const EncodingInfo& info, ConstBufferView chunk_data, BufferView& output_buffer, size_t expected_points) {
-  const size_t max_decompressed_size =
-      static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step;
+  // The first encoding stage may expand the data (e.g. varints of random integers), therefore the bound
+  // is the size of the stage buffer used by the encoder for the same number of points.
+  const size_t chunk_points =
+      (expected_points > 0) ? expected_points : static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
+  const size_t max_decompressed_size = detail::MaxStage1ChunkSize(info, chunk_points);
   ConstBufferView encoded_view = detail::DecompressChunk(
       info.compression_opt, chunk_data, decompressed_buffer_, max_decompressed_size);
 
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index e8cfdd4..a580ea0 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -66,6 +66,17 @@ size_t MaxSerializedPointSize(const EncodingInfo& info) {
   return max_point_size;
 }
 
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t chunk_points) {
+  const size_t fixed_bytes = info.fields.size() * 64u + 1024u;
+  // one additional byte per field and point: run lengths of the V5 adaptive sections
+  const size_t bytes_per_point =
+      std::max<size_t>(info.point_step, MaxSerializedPointSize(info) + info.fields.size());
+  if (bytes_per_point > 0 && chunk_points > (std::numeric_limits<size_t>::max() - fixed_bytes) / bytes_per_point) {
+    throw std::runtime_error("Point cloud too large");
+  }
+  return chunk_points * bytes_per_point + fixed_bytes;
+}
+
 void ValidateFieldLayout(const EncodingInfo& info, bool allow_skip_store) {
   for (const auto& field : info.fields) {
     if (allow_skip_store && field.offset == kDecodeButSkipStore) {
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index f3fc319..85dfc33 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -29,6 +29,8 @@ constexpr size_t kPointsPerChunk = 32 * 1024;
 
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
+// Upper bound of the first stage output (before compression) of a chunk, for any version of the format.
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t chunk_points);
 
 // Throws if a field would lie (partially) outside the point, i.e. outside [0, point_step).
 // Fields marked with kDecodeButSkipStore have no storage: they are accepted only when allow_skip_store is true.
-- 
2.43.0


From abe7f243806624da6b4376bd31ac2f8f4235d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 08/29] fix: version 2 clouds must supply exactly the declared
 number of points

---
 cloudini_lib/src/cloudini.cpp |  7 +++----
 cloudini_lib/src/v4_codec.cpp | 17 ++++-------------
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index ed92f85..3c6b1ff 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -665,7 +665,8 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
       throw std::runtime_error("Encoded data ended before all declared points were decoded");
     }
   } else {
-    decodeChunk(info, compressed_data, output, /*expected_points=*/0);
+    const size_t points_count = static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
+    decodeChunk(info, compressed_data, output, points_count);
   }
 }
 
@@ -673,9 +674,7 @@ void PointcloudDecoder::decodeChunk(
     const EncodingInfo& info, ConstBufferView chunk_data, BufferView& output_buffer, size_t expected_points) {
   // The first encoding stage may expand the data (e.g. varints of random integers), therefore the bound
   // is the size of the stage buffer used by the encoder for the same number of points.
-  const size_t chunk_points =
-      (expected_points > 0) ? expected_points : static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
-  const size_t max_decompressed_size = detail::MaxStage1ChunkSize(info, chunk_points);
+  const size_t max_decompressed_size = detail::MaxStage1ChunkSize(info, expected_points);
   ConstBufferView encoded_view = detail::DecompressChunk(
       info.compression_opt, chunk_data, decompressed_buffer_, max_decompressed_size);
 
diff --git a/cloudini_lib/src/v4_codec.cpp b/cloudini_lib/src/v4_codec.cpp
index 726e6e1..69403bf 100644
--- a/cloudini_lib/src/v4_codec.cpp
+++ b/cloudini_lib/src/v4_codec.cpp
@@ -99,20 +99,11 @@ void DecodeV4Stage1Chunk(
     output_buffer.trim_front(point_step);
   };
 
-  if (expected_points > 0) {
-    for (size_t p = 0; p < expected_points; ++p) {
-      if (encoded_view.size() < min_encoded_point_bytes) {
-        throw std::runtime_error("Truncated encoded data: not enough bytes for a complete point");
-      }
-      decode_point();
-    }
-  } else {
-    while (!encoded_view.empty()) {
-      if (encoded_view.size() < min_encoded_point_bytes) {
-        throw std::runtime_error("Truncated encoded data: not enough bytes for a complete point");
-      }
-      decode_point();
+  for (size_t p = 0; p < expected_points; ++p) {
+    if (encoded_view.size() < min_encoded_point_bytes) {
+      throw std::runtime_error("Truncated encoded data: not enough bytes for a complete point");
     }
+    decode_point();
   }
 }
 
-- 
2.43.0


From 8012a577a76ee0fec08219499ec6cf4907ba9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 09/29] fix: cloud sizes are computed in 64 bits

---
 .../include/cloudini_lib/cloudini.hpp         |  2 +-
 .../include/cloudini_lib/pcl_conversion.hpp   |  2 +-
 cloudini_lib/src/pcl_conversion.cpp           |  2 +-
 cloudini_lib/src/ros_msg_utils.cpp            |  5 ++++-
 cloudini_lib/src/wasm_functions.cpp           | 20 +++++++++++++------
 .../src/cloudini_subscriber_plugin.cpp        |  2 +-
 6 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/cloudini.hpp b/cloudini_lib/include/cloudini_lib/cloudini.hpp
index a2beac8..1ba7f79 100644
--- a/cloudini_lib/include/cloudini_lib/cloudini.hpp
+++ b/cloudini_lib/include/cloudini_lib/cloudini.hpp
@@ -227,7 +227,7 @@ class PointcloudDecoder {
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, BufferView output);
 
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, std::vector<uint8_t>& output) {
-    output.resize(info.width * info.height * info.point_step);
+    output.resize(static_cast<size_t>(info.width) * info.height * info.point_step);
     BufferView output_view(output.data(), output.size());
     decode(info, compressed_data, output_view);
   }
diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index d46e2fd..6d2bada 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -128,7 +128,7 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
   // decode the header
   EncodingInfo header_info = DecodeHeader(serialized_data);
   // resize the cloud to the decoded size
-  cloud.points.resize(header_info.width * header_info.height);
+  cloud.points.resize(static_cast<size_t>(header_info.width) * header_info.height);
   cloud.width = header_info.width;
   cloud.height = header_info.height;
 
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index da61953..64d6fd5 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -252,7 +252,7 @@ void PCLPointCloudDecode(ConstBufferView serialized_data, pcl::PCLPointCloud2& c
   cloud.is_bigendian = false;
 
   // Resize data
-  cloud.data.resize(cloud.width * cloud.height * cloud.point_step);
+  cloud.data.resize(static_cast<size_t>(cloud.width) * cloud.height * cloud.point_step);
 
   // Convert fields
   cloud.fields.clear();
diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 2978571..a391c81 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -134,7 +134,10 @@ Cloudini::EncodingInfo toEncodingInfo(const RosPointCloud2& pc_info) {
 
 void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vector<uint8_t>& pc2_dds_msg) {
   // We need to reserve enough space in the output buffer
-  const size_t cloud_data_size = pc_info.width * pc_info.height * pc_info.point_step;
+  const uint64_t cloud_data_size = static_cast<uint64_t>(pc_info.width) * pc_info.height * pc_info.point_step;
+  if (cloud_data_size > std::numeric_limits<uint32_t>::max()) {
+    throw std::runtime_error("Point cloud too large for a PointCloud2 message");
+  }
 
   pc2_dds_msg.clear();
   nanocdr::Encoder cdr_encoder(pc_info.cdr_header, pc2_dds_msg);
diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 78079b3..48bcf8e 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -73,7 +73,7 @@ uint32_t cldn_ComputeCompressedSize(uintptr_t dds_msg_ptr, uint32_t dds_msg_size
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const uint64_t expected_size = static_cast<uint64_t>(pc_info.width) * pc_info.height * pc_info.point_step;
 
     if (pc_info.data.size() != expected_size) {
       // Check if dimensions are valid
@@ -94,7 +94,9 @@ uint32_t cldn_GetDecompressedSize(uintptr_t encoded_dds_ptr, uint32_t encoded_dd
     const uint8_t* compressed_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
     Cloudini::ConstBufferView raw_dds_msg(compressed_data, encoded_dds_size);
     auto compressed_cloud = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
-    return compressed_cloud.height * compressed_cloud.width * compressed_cloud.point_step;
+    const uint64_t decoded_size =
+        static_cast<uint64_t>(compressed_cloud.height) * compressed_cloud.width * compressed_cloud.point_step;
+    return (decoded_size <= UINT32_MAX) ? static_cast<uint32_t>(decoded_size) : 0;
   } catch (const std::exception& e) {
     EM_ASM({ console.error('Exception in cldn_GetDecompressedSize:', UTF8ToString($0)); }, e.what());
     return 0;
@@ -152,7 +154,11 @@ uint32_t cldn_DecodeCompressedData(uintptr_t encoded_data_ptr, uint32_t encoded_
     return 0;
   }
 
-  size_t decoded_size = info.width * info.height * info.point_step;
+  const uint64_t decoded_size = static_cast<uint64_t>(info.width) * info.height * info.point_step;
+  if (decoded_size > UINT32_MAX) {
+    EM_ASM({ console.error('Decoded point cloud too large'); });
+    return 0;
+  }
   uint8_t* decoded_data = reinterpret_cast<uint8_t*>(output_data);
   Cloudini::BufferView decoded_view(decoded_data, decoded_size);
 
@@ -183,7 +189,7 @@ uint32_t cldn_EncodePointcloudMessage(
     }
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const uint64_t expected_size = static_cast<uint64_t>(pc_info.width) * pc_info.height * pc_info.point_step;
 
     if (pc_info.data.size() != expected_size) {
       return 0;
@@ -220,10 +226,12 @@ uint32_t cldn_EncodePointcloudData(
     const Cloudini::EncodingInfo encoding_info = Cloudini::EncodingInfoFromYAML(header_as_yaml);
 
     // Verify data size matches expected size
-    uint32_t expected_size = encoding_info.width * encoding_info.height * encoding_info.point_step;
+    const uint64_t expected_size =
+        static_cast<uint64_t>(encoding_info.width) * encoding_info.height * encoding_info.point_step;
 
     if (pc_data_size != expected_size) {
-      EM_ASM({ console.error('Data size mismatch: expected', $0, 'but got', $1); }, expected_size, pc_data_size);
+      EM_ASM({ console.error('Data size mismatch: expected', $0, 'but got', $1); }, static_cast<double>(expected_size),
+             pc_data_size);
       return 0;
     }
 
diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index c8d8675..236b8d5 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -70,7 +70,7 @@ CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
   result->is_dense = msg.is_dense;
 
   // prepare buffer for decompression
-  result->data.resize(msg.point_step * msg.width * msg.height);
+  result->data.resize(static_cast<size_t>(msg.point_step) * msg.width * msg.height);
   Cloudini::BufferView output(result->data.data(), result->data.size());
 
   decoder_->decode(info, input, output);
-- 
2.43.0


From cac376589d5e177ab21d115a27071a30629d0746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 10/29] fix: CDR decoder checks that the encapsulation header
 is complete

---
 cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index e73b72a..d1c7f16 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -250,6 +250,9 @@ inline void swapEndianness(T& val) {
 }
 
 inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer), origin_(buffer.data() + 4) {
+  if (buffer_.size() < 4) {
+    throw std::runtime_error("Decode: not enough data to decode (CDR header)");
+  }
   const auto* ptr = buffer_.data();
   uint8_t dummy = ptr[0];
   if (dummy != 0) {
-- 
2.43.0


From 941329b9d11a49151b2554cbbbc35906181782ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 11/29] fix: patched DDS data size uses the byte order of the
 message

---
 cloudini_lib/src/ros_msg_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index a391c81..89c7dd8 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -205,7 +205,11 @@ void convertPointCloud2ToCompressedCloud(
   const size_t compressed_size = cloud_encoder.encode(pc_info.data, compressed_data_view, true);
 
   // we can finally write the actual size of the compressed data
-  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size, sizeof(uint32_t));
+  uint32_t compressed_size_field = static_cast<uint32_t>(compressed_size);
+  if (pc_info.cdr_header.endianness != nanocdr::getCurrentEndianness()) {
+    nanocdr::swapEndianness(compressed_size_field);
+  }
+  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size_field, sizeof(uint32_t));
 
   // Resize the output buffer to the actual size used
   compressed_dds_msg.resize(prev_size + compressed_size);
-- 
2.43.0


From 5ca1b1d95cafb8f602ee14f8f6c4e06429769e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 12/29] fix: message conversion keeps the is_bigendian flag

---
 cloudini_lib/src/ros_msg_utils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 89c7dd8..a1f9cc4 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -80,8 +80,7 @@ void readPointCloud2MessageCommon(nanocdr::Decoder& cdr, RosPointCloud2& result)
     result.fields.push_back(std::move(field));
   }
 
-  bool is_bigendian = false;  // not used
-  cdr.decode(is_bigendian);
+  cdr.decode(result.is_bigendian);
 
   cdr.decode(result.point_step);
   cdr.decode(result.row_step);
@@ -115,7 +114,7 @@ void writePointCloudHeader(nanocdr::Encoder& encoder, const RosPointCloud2& pc_i
     encoder.encode(static_cast<uint32_t>(1));  // count, not used
   }
 
-  encoder.encode(false);  // is_bigendian, not used
+  encoder.encode(pc_info.is_bigendian);
   encoder.encode(pc_info.point_step);
   encoder.encode(static_cast<uint32_t>(pc_info.point_step * pc_info.width));
 }
-- 
2.43.0


From 0a04ec41f27cc5344f13d9b1696714422c5f2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 13/29] fix: WASM size query and decoding use the same header
 and never throw

---
 cloudini_lib/src/ros_msg_utils.cpp  |  4 ++++
 cloudini_lib/src/wasm_functions.cpp | 11 ++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index a1f9cc4..1c31860 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -160,6 +160,10 @@ void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vec
   Cloudini::PointcloudDecoder cloud_decoder;
   Cloudini::ConstBufferView compressed_data = pc_info.data;
   auto restored_header = Cloudini::DecodeHeader(compressed_data);
+  if (restored_header.width != pc_info.width || restored_header.height != pc_info.height ||
+      restored_header.point_step != pc_info.point_step) {
+    throw std::runtime_error("The dimensions of the compressed data do not match those of the message");
+  }
   cloud_decoder.decode(restored_header, compressed_data, decoded_buffer);
 
   // add last field
diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 48bcf8e..0cbbda5 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -94,8 +94,9 @@ uint32_t cldn_GetDecompressedSize(uintptr_t encoded_dds_ptr, uint32_t encoded_dd
     const uint8_t* compressed_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
     Cloudini::ConstBufferView raw_dds_msg(compressed_data, encoded_dds_size);
     auto compressed_cloud = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
-    const uint64_t decoded_size =
-        static_cast<uint64_t>(compressed_cloud.height) * compressed_cloud.width * compressed_cloud.point_step;
+    // use the same header that will be used to decode the data
+    const auto info = Cloudini::DecodeHeader(compressed_cloud.data);
+    const uint64_t decoded_size = static_cast<uint64_t>(info.width) * info.height * info.point_step;
     return (decoded_size <= UINT32_MAX) ? static_cast<uint32_t>(decoded_size) : 0;
   } catch (const std::exception& e) {
     EM_ASM({ console.error('Exception in cldn_GetDecompressedSize:', UTF8ToString($0)); }, e.what());
@@ -124,10 +125,10 @@ uint32_t cldn_ConvertCompressedMsgToPointCloud2Msg(
 uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encoded_dds_size, uintptr_t output_data) {
   const uint8_t* dds_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
 
-  Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
-  const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
-
   try {
+    Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
+    const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
+
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
-- 
2.43.0


From 447bbf107b47ed507eda55642d25c08ad33c9993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 14/29] fix: encode() waits for the compression thread also
 when it throws

---
 cloudini_lib/src/cloudini.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 3c6b1ff..e063c03 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -588,6 +588,15 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
     cv_ready_to_compress_.notify_one();
   };
 
+  // If the first stage fails, do not return before the worker has finished: it writes in the output of the caller.
+  struct WorkerGuard {
+    PointcloudEncoder& self;
+    ~WorkerGuard() {
+      std::unique_lock<std::mutex> lock(self.mutex_);
+      self.cv_done_compressing_.wait(lock, [this] { return self.compression_done_ || self.worker_failed_; });
+    }
+  } worker_guard{*this};
+
   if (detail::UsesV5Codec(info_)) {
     const size_t stage_capacity = detail::V5StageBufferSize(info_, detail::kPointsPerChunk);
     ensureScratchBuffer(buffer_, buffer_capacity_, stage_capacity);
-- 
2.43.0


From cf66e378f7cf5d39408e2fa7f9607a55e0faeaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 15/29] fix: resolutions in text headers are exact and
 independent of the locale

---
 .../include/cloudini_lib/yaml_parser.hpp      |  2 +
 cloudini_lib/src/cloudini.cpp                 | 39 ++++++++++++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
index 6abbe20..07f687c 100644
--- a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
+++ b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cctype>
+#include <locale>
 #include <map>
 #include <memory>
 #include <sstream>
@@ -100,6 +101,7 @@ class Node {
   template <typename T>
   static T parseScalar(const std::string& str) {
     std::istringstream iss(str);
+    iss.imbue(std::locale::classic());
     T value;
     iss >> value;
     if (iss.fail()) {
diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e063c03..9fdf268 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -18,7 +18,9 @@
 
 #include <algorithm>
 #include <cstring>
+#include <iomanip>
 #include <limits>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 
@@ -162,8 +164,41 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
   throw std::runtime_error("Invalid CompressionOption string: " + std::string(str));
 }
 
+namespace {
+
+// Shortest decimal representation that is parsed back to exactly the same value.
+std::string resolutionToString(float value) {
+  std::string text;
+  for (int precision = 6; precision <= std::numeric_limits<float>::max_digits10; ++precision) {
+    std::ostringstream stream;
+    stream.imbue(std::locale::classic());
+    stream << std::setprecision(precision) << value;
+    text = stream.str();
+    float parsed = 0.0f;
+    std::istringstream parser(text);
+    parser.imbue(std::locale::classic());
+    if ((parser >> parsed) && parsed == value) {
+      break;
+    }
+  }
+  return text;
+}
+
+float resolutionFromString(const std::string& text) {
+  std::istringstream stream(text);
+  stream.imbue(std::locale::classic());
+  float value = 0.0f;
+  if (!(stream >> value)) {
+    return std::stof(text);  // values that are not decimal numbers, or throw
+  }
+  return value;
+}
+
+}  // namespace
+
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
+  yaml.imbue(std::locale::classic());
   yaml << "version: " << static_cast<int>(info.version) << "\n";
   yaml << "width: " << info.width << "\n";
   yaml << "height: " << info.height << "\n";
@@ -181,7 +216,7 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
-      yaml << "    resolution: " << field.resolution.value() << "\n";
+      yaml << "    resolution: " << resolutionToString(field.resolution.value()) << "\n";
     } else {
       yaml << "    resolution: null\n";
     }
@@ -220,7 +255,7 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
 
       std::string res_str = field_node["resolution"].as<std::string>();
       if (res_str != "null") {
-        field.resolution = std::stof(res_str);
+        field.resolution = resolutionFromString(res_str);
       }
       info.fields.push_back(field);
     }
-- 
2.43.0


From 193a641241b0d2ffc8389b35a750cf3659d03950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 16/29] fix: binary headers whose width starts with a newline
 byte are not taken for text

---
 cloudini_lib/src/cloudini.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 9fdf268..4da6a24 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -409,9 +409,10 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
   // Note: version 4 adds Gorilla bit-packing for lossless FLOAT32/FLOAT64 XOR residuals.
   // Versions 2 and 3 keep the raw-XOR path (8 bytes per double, 4 bytes per float).
 
-  // YAML payload starts with newline followed by a non-brace; legacy binary
-  // payload starts with the brace of an inline schema.
-  if (input.size() >= 2 && input.data()[0] == '\n' && input.data()[1] != '{') {
+  // YAML payload starts with a newline followed by the "version" key. A newline alone is not
+  // enough: a binary header starts with the width, whose first byte can have the same value.
+  constexpr std::string_view yaml_prefix = "\nversion:";
+  if (input.size() >= yaml_prefix.size() && memcmp(input.data(), yaml_prefix.data(), yaml_prefix.size()) == 0) {
     input.trim_front(1);  // consume newline
     std::string_view yaml_str(reinterpret_cast<const char*>(input.data()), input.size());
     size_t null_pos = yaml_str.find('\0');
-- 
2.43.0


From 879165ef0ba2c7034fc22af73f294b04b0356b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 17/29] fix: binary headers refuse counts and names that do not
 fit their 16 bit length

---
 cloudini_lib/include/cloudini_lib/encoding_utils.hpp | 3 +++
 cloudini_lib/src/cloudini.cpp                        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 0eb976c..9465f9b 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -43,6 +43,9 @@ inline void encode(const T& val, BufferView& buff) {
 // specialization for std::string
 template <>
 inline void encode(const std::string& str, BufferView& buff) {
+  if (str.size() > UINT16_MAX) {
+    throw std::runtime_error("encode(string): string too long");
+  }
   uint16_t len = static_cast<uint16_t>(str.size());
   encode(len, buff);
   if (buff.size() < len) {
diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 4da6a24..57fa227 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -352,6 +352,9 @@ void EncodeHeader(const EncodingInfo& header, std::vector<uint8_t>& output, Head
     encode('\0', output_buffer);  // null terminator
   } else {
     // Binary encoding
+    if (header.fields.size() > UINT16_MAX) {
+      throw std::runtime_error("Too many fields for a binary header");
+    }
     output.resize(ComputeHeaderSize(header.fields));
     BufferView output_buffer(output.data(), output.size());
     write_magic(output_buffer);
-- 
2.43.0


From 214214b5a25594e08678a80865fc4f1a30d13043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 18/29] fix: PCD headers with comments or 64 bit fields are
 read correctly

---
 cloudini_lib/src/pcl_conversion.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 64d6fd5..658b379 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -42,8 +42,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
   std::vector<std::string> fields_size;
   std::vector<std::string> fields_type;
 
-  do {
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
     line = line.substr(0, line.find('#'));   // Remove comments
     line = line.substr(0, line.find('\r'));  // Remove carriage return if present
     line = line.substr(0, line.find('\n'));  // Remove newline if present
@@ -62,7 +61,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     } else if (line_key == "DATA") {
       break;
     }
-  } while (!line.empty());
+  }
 
   const size_t num_fields = fields_name.size();
 
@@ -76,7 +75,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     const std::string name = std::string(fields_name[i]);
     const int bytes = std::stoi(std::string(fields_size[i]));
     FieldType type = FieldType::UNKNOWN;
-    if (fields_type[i] == "F" && bytes == 4) {
+    if (fields_type[i] == "F") {
       if (bytes == 4) {
         type = FieldType::FLOAT32;
       } else if (bytes == 8) {
@@ -89,6 +88,8 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
         type = FieldType::INT16;
       } else if (bytes == 4) {
         type = FieldType::INT32;
+      } else if (bytes == 8) {
+        type = FieldType::INT64;
       }
     } else if (fields_type[i] == "U") {
       if (bytes == 1) {
-- 
2.43.0


From 3bee7c45db4e4ee857046edd5aafec569ea9b468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 19/29] fix: Python decoder knows 64 bit integers and empty
 clouds

---
 cloudini_py/cloudini_decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index de6a7af..bb5b43d 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -309,7 +309,7 @@ class CloudiniDecoder:
         # For now, just take the last expected_data_size bytes
         if len(pc2_msg) >= expected_data_size:
             # Extract the last expected_data_size bytes (the data field)
-            data_bytes = pc2_msg[-expected_data_size:]
+            data_bytes = pc2_msg[len(pc2_msg) - expected_data_size:]
             return self.bytes_to_numpy(data_bytes, header_info)
         else:
             print(f"Warning: PC2 message size {len(pc2_msg)} < expected data size {expected_data_size}")
@@ -343,9 +343,11 @@ class CloudiniDecoder:
             'UINT8': np.uint8,
             'UINT16': np.uint16,
             'UINT32': np.uint32,
+            'UINT64': np.uint64,
             'INT8': np.int8,
             'INT16': np.int16,
             'INT32': np.int32,
+            'INT64': np.int64,
         }
 
         # Create structured dtype from fields
-- 
2.43.0


From 2c020515194c1d1455a0730772a078065bb19502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 20/29] fix: resolution profiles apply only to floating point
 fields

---
 cloudini_lib/src/ros_msg_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 1c31860..59b8c9c 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -238,6 +238,9 @@ void applyResolutionProfile(
       fields.end());
 
   for (auto& field : fields) {
+    if (field.type != Cloudini::FieldType::FLOAT32 && field.type != Cloudini::FieldType::FLOAT64) {
+      continue;  // only floating point fields can be quantized
+    }
     auto profile_it = profile.find(field.name);
     if (profile_it != profile.end()) {
       field.resolution = profile_it->second;
-- 
2.43.0


From 5bce5e3666033e093aace742a0fb0d096567fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 21/29] fix: preprocessing and PCL decoding keep offsets and
 point step consistent

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 3 +++
 cloudini_lib/src/ros_msg_utils.cpp                   | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index 6d2bada..0f18d78 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -134,6 +134,9 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
 
   const EncodingInfo cloud_info = ConvertToEncodingInfo<PointT>(cloud, 1.0);  // 1.0 is a placeholder resolution
 
+  // the points are stored with the layout of PointT
+  header_info.point_step = static_cast<uint32_t>(sizeof(PointT));
+
   // adapt the offset in the fields of "header_info" to match those in  cloud_info
   for (size_t i = 0; i < header_info.fields.size(); ++i) {
     auto& field = header_info.fields[i];
diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 59b8c9c..02564d3 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -278,6 +278,13 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
     return;
   }
 
+  if (static_cast<uint64_t>(f2.offset) + sizeof(float) > pc_info.point_step) {
+    throw std::runtime_error("applyVizLossyPreprocessing: fields do not fit in the point step");
+  }
+  if (f0.offset > f2.offset) {
+    throw std::runtime_error("applyVizLossyPreprocessing: invalid field offsets");
+  }
+
   const float xyz_res = f0.resolution.value();
   if (!(xyz_res > 0.0f) || !std::isfinite(xyz_res)) {
     return;
-- 
2.43.0


From 09df83aa832ec3319651d284852265f20f900e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 22/29] fix: MCAP and PCD conversion report read and write
 failures and keep channel metadata

---
 cloudini_lib/tools/src/mcap_converter.cpp     | 21 ++++++++++++-------
 cloudini_lib/tools/src/mcap_cutter.cpp        |  6 ++++--
 .../tools/src/pcd_to_cloudini_converter.cpp   |  4 ++++
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 22432d6..e1cd211 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -46,7 +46,8 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
 
   for (const auto& [channel_id, channel_ptr] : reader_->channels()) {
     const auto& schema_ptr = reader_->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name) {
+    if (schema_ptr &&
+        (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name)) {
       topics[channel_ptr->topic] = schema_ptr->name;
     }
   }
@@ -99,8 +100,10 @@ void McapConverter::duplicateSchemasAndChannels(
 
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
-    auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
-    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id);
+    // schema id 0 is reserved to channels without schema
+    const mcap::SchemaId new_schema_id =
+        (channel_ptr->schemaId == 0) ? mcap::SchemaId(0) : old_to_new_schema_id_.at(channel_ptr->schemaId);
+    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
   }
@@ -163,7 +166,9 @@ void McapConverter::encodePointClouds(
   duplicateSchemasAndChannels(*reader_, writer, true);
 
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::ProblemCallback problem = [](const mcap::Status& status) {
+    throw std::runtime_error("Error reading MCAP file: " + status.message);
+  };
 
   std::vector<uint8_t> compressed_dds_msg;
 
@@ -171,7 +176,7 @@ void McapConverter::encodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != pointcloud_schema_name) {
+    if (!msg.schema || msg.schema->name != pointcloud_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
@@ -259,7 +264,9 @@ void McapConverter::decodePointClouds(
   duplicateSchemasAndChannels(*reader_, writer, false);
 
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::ProblemCallback problem = [](const mcap::Status& status) {
+    throw std::runtime_error("Error reading MCAP file: " + status.message);
+  };
 
   std::vector<uint8_t> decoded_cloud;
   std::vector<uint8_t> decoded_dds_msg;
@@ -268,7 +275,7 @@ void McapConverter::decodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != compressed_schema_name) {
+    if (!msg.schema || msg.schema->name != compressed_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index ab730b0..8b894d5 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -61,7 +61,7 @@ void McapCutter::cut(
 
   for (const auto& [channel_id, channel_ptr] : reader->channels()) {
     const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name) {
+    if (schema_ptr && schema_ptr->name == pointcloud_schema_name) {
       pointcloud_channels.push_back({channel_id, channel_ptr->topic});
       std::cout << "Found PointCloud2 topic: " << channel_ptr->topic << std::endl;
     }
@@ -99,7 +99,9 @@ void McapCutter::cut(
 
   // Process messages
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::ProblemCallback problem = [](const mcap::Status& status) {
+    throw std::runtime_error("Error reading MCAP file: " + status.message);
+  };
 
   std::unordered_map<mcap::ChannelId, int> message_counts;
   int total_messages_written = 0;
diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 8f67512..64cb56e 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -140,6 +140,10 @@ int main(int argc, char** argv) {
       }
       output_stream.write(reinterpret_cast<const char*>(serialized_cloud.data()), serialized_cloud.size());
       output_stream.close();
+      if (!output_stream) {
+        std::cerr << "Error: Failed to write output file: " << output_file << std::endl;
+        return false;
+      }
       return true;
 
     } catch (const std::exception& e) {
-- 
2.43.0


From 4e225c5c87f7b6ae28c6b302114686f7f6165ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 23/29] fix: bag conversion reports metadata files that cannot
 be read or written

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 66428ba..5390d90 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -38,6 +38,9 @@ void generateMetadataYaml(
     const std::filesystem::path& input_metadata, const std::filesystem::path& output_dir,
     const std::string& new_mcap_filename, bool encoding) {
   std::ifstream in(input_metadata);
+  if (!in) {
+    throw std::runtime_error("Error opening metadata file: " + input_metadata.string());
+  }
   std::string content((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
 
   // Replace topic types
@@ -70,6 +73,10 @@ void generateMetadataYaml(
   std::filesystem::path output_metadata = output_dir / "metadata.yaml";
   std::ofstream out(output_metadata);
   out << content;
+  out.close();
+  if (!out) {
+    throw std::runtime_error("Error writing metadata file: " + output_metadata.string());
+  }
   std::cout << "Metadata file saved as: " << output_metadata << std::endl;
 }
 
-- 
2.43.0


From b8a6456339aa3e336b45fe104a1ae6caa0954c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 24/29] fix: refuse headers whose version number is not made of
 digits

---
 cloudini_lib/src/cloudini.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 57fa227..f83dcf2 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -385,7 +385,7 @@ auto char_to_num = [](char c) -> uint8_t {
   if (c >= '0' && c <= '9') {
     return c - '0';
   }
-  return 0;
+  throw std::runtime_error("Invalid version number in the header");
 };
 
 EncodingInfo DecodeHeader(ConstBufferView& input) {
-- 
2.43.0


From b5d96f9e01c9578f6d7bc5448cb44898a9dd9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 25/29] fix: refuse to encode versions the decoder reads
 without chunk prefixes

---
 cloudini_lib/src/cloudini.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index f83dcf2..c1ba2b4 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -467,6 +467,10 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
 }
 
 PointcloudEncoder::PointcloudEncoder(const EncodingInfo& info) : info_(info) {
+  // Version 2 can still be decoded, but its data has no chunk prefixes, which the encoder always writes.
+  if (info_.version < 3 || info_.version > kEncodingVersion) {
+    throw std::runtime_error("Unsupported encoding version: " + std::to_string(info_.version));
+  }
   detail::ValidateFieldLayout(info_, /*allow_skip_store=*/false);
   EncodeHeader(info_, header_);
 
-- 
2.43.0


From 57cc5d8fa6bff43d834dd7a845874237af2a5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 26/29] fix: keep the failure flag of the worker until its
 replacement exists

---
 cloudini_lib/src/cloudini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index c1ba2b4..c55f17d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -587,12 +587,13 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
       if (compressing_thread_.joinable()) {
         compressing_thread_.join();
       }
+      // If the thread cannot be created, the flag stays set and the next call tries again.
+      compressing_thread_ = std::thread(&PointcloudEncoder::compressionWorker, this);
       {
         std::lock_guard<std::mutex> lock(mutex_);
         worker_failed_ = false;
         worker_exception_ = nullptr;
       }
-      compressing_thread_ = std::thread(&PointcloudEncoder::compressionWorker, this);
     }
   }
 
-- 
2.43.0


From fcc3ed3a2a60b9dcbba70319824a26e78452c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 27/29] fix: read the version of a textual description as a
 number

---
 cloudini_lib/src/cloudini.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index c55f17d..27e0600 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -231,7 +231,11 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
   auto root = YAML::parse(yaml);
 
   // Read top-level fields
-  info.version = root["version"].as<uint8_t>();
+  const auto version = root["version"].as<uint32_t>();  // as a number: uint8_t would be read as a character
+  if (version > UINT8_MAX) {
+    throw std::runtime_error("Invalid version in header");
+  }
+  info.version = static_cast<uint8_t>(version);
   info.width = root["width"].as<uint32_t>();
   info.height = root["height"].as<uint32_t>();
   info.point_step = root["point_step"].as<uint32_t>();
@@ -425,8 +429,7 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
     yaml_str = yaml_str.substr(0, null_pos);
     input.trim_front(null_pos + 1);  // consume header + null terminator
     EncodingInfo yaml_header = EncodingInfoFromYAML(yaml_str);
-    // The magic-header version is authoritative. YAML's parseScalar<uint8_t> reads a
-    // single character (e.g. "3" -> 51), so the YAML-parsed info.version is unreliable.
+    // The magic-header version is authoritative.
     yaml_header.version = version;
     return yaml_header;
   }
-- 
2.43.0


From 732ead9e13505408f87ddd822d6c2bd4135e68db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:52 +0000
Subject: [PATCH 28/29] fix: size the V5 stage buffer for the run lengths of
 every adaptive field

---
 cloudini_lib/src/v5_codec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index eb9e32d..ebc1e0c 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -902,7 +902,8 @@ bool UsesV5Codec(const EncodingInfo& info) {
 }
 
 size_t V5StageBufferSize(const EncodingInfo& info, size_t points_per_chunk) {
-  const size_t max_per_point = MaxSerializedPointSize(info);
+  // one additional byte per field and point: run lengths of the adaptive sections
+  const size_t max_per_point = MaxSerializedPointSize(info) + info.fields.size();
   return points_per_chunk * (std::max<size_t>(info.point_step, max_per_point) + 64u) +
          info.fields.size() * 64u + 1024u;
 }
-- 
2.43.0


From 885fc2c536d0897c499b43ff29e4f5eaf959f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:15 +0000
Subject: [PATCH 29/29] fix: let LZ4 compress into outputs larger than 2 GB

---
 cloudini_lib/src/codec_common.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index a580ea0..b18e9af 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -248,13 +248,15 @@ uint32_t CompressChunk(CompressionOption compression, ConstBufferView input, Buf
   uint32_t chunk_size = 0;
   switch (compression) {
     case CompressionOption::LZ4: {
-      if (input.size() > static_cast<size_t>(std::numeric_limits<int>::max()) ||
-          output.size() > static_cast<size_t>(std::numeric_limits<int>::max())) {
+      constexpr size_t max_lz4_size = static_cast<size_t>(std::numeric_limits<int>::max());
+      if (input.size() > max_lz4_size) {
         throw std::runtime_error("Chunk size too large for LZ4");
       }
+      // LZ4 takes the capacity as an int; a single chunk never needs more than that.
+      const size_t capacity = std::min(output.size(), max_lz4_size);
       const int cs = LZ4_compress_default(
           reinterpret_cast<const char*>(input.data()), reinterpret_cast<char*>(output.data()),
-          static_cast<int>(input.size()), static_cast<int>(output.size()));
+          static_cast<int>(input.size()), static_cast<int>(capacity));
       if (cs <= 0) {
         throw std::runtime_error("LZ4 compression failed");
       }
-- 
2.43.0

