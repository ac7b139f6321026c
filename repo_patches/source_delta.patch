From 804a266dd20a6cbe7bf6479f06b28ca57853490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 01/45] fix: Points::PointSourceId bulk accessors keep all 16
 bits

The vector getter and setter went through uint8_t, truncating every point
source id above 255.
---
 cpp/include/copc-lib/las/points.hpp | 10 +++++++---
 python/bindings.cpp                 |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/points.hpp b/cpp/include/copc-lib/las/points.hpp
index ff76f28..0eba3d4 100644
--- a/cpp/include/copc-lib/las/points.hpp
+++ b/cpp/include/copc-lib/las/points.hpp
@@ -134,15 +134,15 @@ class Points
             points_[i]->Classification(in[i]);
     }
 
-    std::vector<uint8_t> PointSourceId() const
+    std::vector<uint16_t> PointSourceId() const
     {
-        std::vector<uint8_t> out;
+        std::vector<uint16_t> out;
         out.resize(Size());
         std::transform(points_.begin(), points_.end(), out.begin(),
                        [](const std::shared_ptr<Point> &p) { return p->PointSourceId(); });
         return out;
     }
-    void PointSourceId(const std::vector<uint8_t> &in)
+    void PointSourceId(const std::vector<uint16_t> &in)
     {
         if (in.size() != Size())
             throw std::runtime_error("PointSourceId setter array must be same size as Points array!");
@@ -150,6 +150,10 @@ class Points
         for (unsigned i = 0; i < points_.size(); ++i)
             points_[i]->PointSourceId(in[i]);
     }
+    void PointSourceId(const std::vector<uint8_t> &in)
+    {
+        PointSourceId(std::vector<uint16_t>(in.begin(), in.end()));
+    }
 
     std::vector<uint16_t> Red() const
     {
diff --git a/python/bindings.cpp b/python/bindings.cpp
index b054fe3..8d60588 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -303,7 +303,7 @@ PYBIND11_MODULE(_core, m)
         .def_property("classification", py::overload_cast<>(&las::Points::Classification, py::const_),
                       py::overload_cast<const std::vector<uint8_t> &>(&las::Points::Classification))
         .def_property("point_source_id", py::overload_cast<>(&las::Points::PointSourceId, py::const_),
-                      py::overload_cast<const std::vector<uint8_t> &>(&las::Points::PointSourceId))
+                      py::overload_cast<const std::vector<uint16_t> &>(&las::Points::PointSourceId))
         .def_property("red", py::overload_cast<>(&las::Points::Red, py::const_),
                       py::overload_cast<const std::vector<uint16_t> &>(&las::Points::Red))
         .def_property("green", py::overload_cast<>(&las::Points::Green, py::const_),
-- 
2.43.0


From e2849659742d6813803348bf33177c96a6a515fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 02/45] fix: Writer::ChangeNodePage records the page a node was
 moved to

---
 cpp/src/io/copc_writer_public.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ef33802..c30a1c0 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -168,6 +168,8 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
     // If old page has no nodes left then remove it, unless it is root page
     if (node->page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[node->page_key]->nodes.empty())
         hierarchy_->seen_pages_.erase(node->page_key);
+
+    node->page_key = new_page_key;
 }
 
 void FileWriter::Close()
-- 
2.43.0


From f51d5b041241914a0ef4b5fddf38fa1c167510f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 03/45] fix: decompression buffers hold point records longer
 than 255 bytes

---
 cpp/include/copc-lib/laz/decompressor.hpp | 6 +++---
 cpp/src/io/laz_reader.cpp                 | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/laz/decompressor.hpp b/cpp/include/copc-lib/laz/decompressor.hpp
index 034d6ac..d939c60 100644
--- a/cpp/include/copc-lib/laz/decompressor.hpp
+++ b/cpp/include/copc-lib/laz/decompressor.hpp
@@ -28,11 +28,11 @@ class Decompressor
         las_decompressor::ptr decompressor = build_las_decompressor(stre.cb(), point_format_id, eb_byte_size);
 
         int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);
-        char buff[255];
+        std::vector<char> buff(point_size);
         for (int i = 0; i < point_count; i++)
         {
-            decompressor->decompress(buff);
-            out.insert(out.end(), buff, buff + point_size);
+            decompressor->decompress(buff.data());
+            out.insert(out.end(), buff.begin(), buff.end());
         }
         // clear the EOF flag, since lazperf may read too large of a buffer
         in_stream.clear();
diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 60a48d9..6682656 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -10,11 +10,11 @@ std::vector<char> LazReader::GetPointData()
 
     std::vector<char> out;
     int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());
-    char buff[255];
+    std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
     {
-        reader_->readPoint(buff);
-        out.insert(out.end(), buff, buff + point_size);
+        reader_->readPoint(buff.data());
+        out.insert(out.end(), buff.begin(), buff.end());
     }
 
     return out;
-- 
2.43.0


From fce108a5f66e8f9bcad09dc6e726c1f791d4871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 04/45] fix: LasHeader::FromLazPerf handles identifiers that
 fill their field

---
 cpp/src/las/header.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 85472d4..6e76867 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -50,6 +50,9 @@ void LasHeader::SetGpsTimeBit() { global_encoding |= 1; }
 
 uint16_t LasHeader::EbByteSize() const { return copc::las::EbByteSize(point_format_id_, point_record_length_); }
 
+// The header's character fields are only NUL-terminated when they are shorter than the field
+static std::string FixedString(const char *field, size_t size) { return std::string(field, std::find(field, field + size, '\0')); }
+
 LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
 {
     LasHeader h;
@@ -58,11 +61,11 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    h.guid_ = header.guid;
+    h.guid_ = FixedString(header.guid, sizeof(header.guid));
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
-    h.system_identifier_ = header.system_identifier;
-    h.generating_software_ = header.generating_software;
+    h.system_identifier_ = FixedString(header.system_identifier, sizeof(header.system_identifier));
+    h.generating_software_ = FixedString(header.generating_software, sizeof(header.generating_software));
     h.creation_day = header.creation.day;
     h.creation_year = header.creation.year;
     if (header.header_size != HEADER_SIZE_BYTES)
-- 
2.43.0


From f7aaac6e7e506e156754676233deb266da97e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 05/45] fix: LasHeader::ApplyInverseScale is the inverse of
 ApplyScale

---
 cpp/include/copc-lib/las/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index f7fc0e6..0d67bd7 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -108,7 +108,7 @@ class LasHeader
 
     // Apply Las scale factors to Vector3 or double
     Vector3 ApplyScale(const Vector3 &unscaled_value) const { return unscaled_value * scale_ + offset_; }
-    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return scaled_value / scale_ - offset_; }
+    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return (scaled_value - offset_) / scale_; }
     double ApplyScaleX(double unscaled_value) const { return unscaled_value * scale_.x + offset_.x; }
     double ApplyScaleY(double unscaled_value) const { return unscaled_value * scale_.y + offset_.y; }
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
-- 
2.43.0


From d0af2c0b1ed8bb402e7a95b9c46867b3f8ed54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 06/45] fix: extra byte descriptor equality compares whole
 arrays

---
 cpp/include/copc-lib/las/vlr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 363e595..9bd29b2 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -70,9 +70,9 @@ namespace lazperf
 inline bool operator==(const eb_vlr::ebfield &a, const eb_vlr::ebfield &b)
 {
     return std::memcmp(a.reserved, b.reserved, 2) == 0 && a.data_type == b.data_type && a.options == b.options &&
-           a.name == b.name && std::memcmp(a.no_data, b.no_data, 3) == 0 && std::memcmp(a.minval, b.minval, 3) == 0 &&
-           std::memcmp(a.maxval, b.maxval, 3) == 0 && std::memcmp(a.scale, b.scale, 3) == 0 &&
-           std::memcmp(a.offset, b.offset, 3) == 0 && a.description == b.description;
+           a.name == b.name && std::memcmp(a.no_data, b.no_data, sizeof(a.no_data)) == 0 && std::memcmp(a.minval, b.minval, sizeof(a.minval)) == 0 &&
+           std::memcmp(a.maxval, b.maxval, sizeof(a.maxval)) == 0 && std::memcmp(a.scale, b.scale, sizeof(a.scale)) == 0 &&
+           std::memcmp(a.offset, b.offset, sizeof(a.offset)) == 0 && a.description == b.description;
 }
 } // namespace lazperf
 
-- 
2.43.0


From a1e919207e8c478771de1372708692fb3618ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 07/45] fix: coordinates that are NaN or do not fit 32 bits are
 rejected by every RemoveScale

---
 cpp/include/copc-lib/las/header.hpp | 7 ++++---
 cpp/include/copc-lib/las/utils.hpp  | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index 0d67bd7..34a8195 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -9,6 +9,7 @@
 #include <string>
 
 #include "copc-lib/geometry/vector3.hpp"
+#include "copc-lib/las/utils.hpp"
 #include <lazperf/header.hpp>
 #include <lazperf/readers.hpp>
 
@@ -114,15 +115,15 @@ class LasHeader
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
     int32_t RemoveScaleX(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.x) / scale_.x));
+        return las::RemoveScale<int32_t>(scaled_value, scale_.x, offset_.x);
     }
     int32_t RemoveScaleY(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.y) / scale_.y));
+        return las::RemoveScale<int32_t>(scaled_value, scale_.y, offset_.y);
     }
     int32_t RemoveScaleZ(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.z) / scale_.z));
+        return las::RemoveScale<int32_t>(scaled_value, scale_.z, offset_.z);
     }
 
     uint16_t file_source_id{};
diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index 75af069..256f9fc 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -3,6 +3,9 @@
 
 #include <cmath>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
+#include <string>
 
 namespace copc::las
 {
@@ -19,7 +22,8 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 {
     double val = std::round((value - offset) / scale);
 
-    if (val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+    // Negated so that NaN is rejected too
+    if (!(val >= std::numeric_limits<T>::min() && val <= std::numeric_limits<T>::max()))
         throw std::runtime_error("The value " + std::to_string(value) +
                                  " is too large to save into the requested format." +
                                  " Your scale and/or offset may be incorrect.");
-- 
2.43.0


From 175aec2065d110f6e616bb6f3204e87a49c2ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 08/45] fix: compressed chunks with a negative point count are
 rejected

---
 cpp/src/io/copc_writer_public.cpp | 2 +-
 cpp/src/io/laz_writer.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index c30a1c0..3347cc7 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -126,7 +126,7 @@ Node Writer::AddNode(const VoxelKey &key, std::vector<char> const &uncompressed_
 Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &compressed_data, int32_t point_count,
                                const VoxelKey &page_key)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     return DoAddNode(key, compressed_data, point_count, true, page_key);
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 509cfcc..5dc91ee 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -29,7 +29,7 @@ void LazWriter::WritePoints(const las::Points &points)
 // Write a group of points as a chunk
 void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data, int32_t point_count)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     WriteChunk(compressed_data, point_count, true);
-- 
2.43.0


From cbcce03fb30dbba2700fe279ab81b13f456fe7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 09/45] fix: WriteChunk reports a failed stream and a closed
 writer

---
 cpp/src/io/laz_base_writer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index dc72d9e..b964d79 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -112,7 +112,11 @@ void BaseWriter::WriteWKT()
 int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count, bool compressed, uint64_t *offset,
                                int32_t *byte_size)
 {
-    uint64_t startpos = out_stream_.tellp();
+    if (!open_)
+        throw std::runtime_error("BaseWriter::WriteChunk: Writer is closed!");
+
+    // tellp() is -1 when the stream has failed
+    int64_t startpos = out_stream_.tellp();
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
     if (offset != nullptr)
@@ -123,13 +127,12 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     else
         point_count = laz::Compressor::CompressBytes(out_stream_, config_->LasHeader(), in);
 
-    point_count_ += point_count;
-
-    uint64_t endpos = out_stream_.tellp();
+    int64_t endpos = out_stream_.tellp();
     if (endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), endpos});
+    point_count_ += point_count;
+    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
 
     auto size = endpos - startpos;
     if (size > (std::numeric_limits<int32_t>::max)())
-- 
2.43.0


From a91f530d29a7e9700b6d92606a987e53be0feb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 10/45] fix: WKT and extra-byte records are found whether they
 are VLRs or EVLRs

---
 cpp/src/io/base_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9a5d2f1..6eee1ca 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -68,7 +68,7 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     auto offset = FetchVlr(vlrs, "LASF_Projection", 2112);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::EVLR_HEADER_SIZE);
+        in_stream_->seekg(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
         return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::WktVlr();
@@ -79,7 +79,7 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     auto offset = FetchVlr(vlrs, "LASF_Spec", 4);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
         return las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::EbVlr();
-- 
2.43.0


From 5b0e730d004a574e4479813296ac7e0cd5c5ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 11/45] fix: undefined extra byte data types are rejected
 instead of indexing past the size table

---
 cpp/src/las/vlr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index f3c1f4a..6039d9d 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -14,6 +14,8 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
     {
         if (item.data_type == 0)
             out += item.options;
+        else if (item.data_type >= sizeof(EXTRA_BYTE_DATA_TYPE))
+            throw std::runtime_error("NumBytesFromExtraBytes: Extra byte data type must be 0-30");
         else
             out += EXTRA_BYTE_DATA_TYPE[item.data_type];
     }
-- 
2.43.0


From 05b6784254d1b9ae3cd1526c432d9223f2868178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 12/45] fix: adding a node again under another page does not
 leave it in both pages

---
 cpp/src/io/copc_writer_public.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 3347cc7..782e940 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -77,7 +77,6 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
 {
     if (!page_key.IsValid() || !key.IsValid())
         throw std::runtime_error("Invalid page or node key!");
-    // TODO[leo]: Check if node already loaded
 
     if (!key.ChildOf(page_key))
         throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());
@@ -85,6 +84,10 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
     Entry e = writer_->WriteNode(in, point_count, compressed_data);
     e.key = key;
 
+    // If the key was already added then the new node replaces it, so move it to the new page first
+    if (hierarchy_->NodeExists(key))
+        ChangeNodePage(key, page_key);
+
     auto node = std::make_shared<Node>(e, page_key);
     hierarchy_->loaded_nodes_[key] = node;
     // If page doesn't exist then create it
-- 
2.43.0


From 9bd15a7aa1529bb390681eac26049d3c69877503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 13/45] fix: hierarchies that reference a page twice are
 rejected instead of recursing forever

---
 cpp/src/io/copc_base_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 2aea847..15e070f 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -56,6 +56,12 @@ void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &pag
     {
         if (e.IsPage())
         {
+            // A page that is referenced twice would be parsed forever if it contained itself
+            if (hierarchy_->PageExists(e.key))
+            {
+                page->loaded = false;
+                throw std::runtime_error("BaseIO::ReadAndParsePage: Page is referenced more than once. " + e.ToString());
+            }
             auto subpage = std::make_shared<Internal::PageInternal>(e);
             hierarchy_->seen_pages_[e.key] = subpage;
             page->sub_pages.insert(subpage);
-- 
2.43.0


From 2a7d84512cad70950db7258ddc992b062649d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 14/45] fix: truncated pages, extents and VLR headers are
 rejected instead of using uninitialised values

---
 cpp/include/copc-lib/las/utils.hpp | 2 +-
 cpp/src/io/base_reader.cpp         | 4 ++++
 cpp/src/io/copc_reader.cpp         | 2 ++
 cpp/src/las/vlr.cpp                | 2 ++
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index 256f9fc..93c55ac 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -33,7 +33,7 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 
 template <typename T> T unpack(std::istream &in_stream)
 {
-    T value;
+    T value{};
     in_stream.read(reinterpret_cast<char *>(&value), sizeof(T));
     return value;
 }
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 6eee1ca..90e3918 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -43,6 +43,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
+        if (!in_stream_->good())
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: VLR headers are truncated.");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
@@ -56,6 +58,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
+        if (!in_stream_->good())
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: VLR headers are truncated.");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index a18e7b4..2c3cc8f 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -81,6 +81,8 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
     for (int i = 0; i < num_entries; i++)
     {
         Entry e = Entry::Unpack(*in_stream_);
+        if (!in_stream_->good())
+            throw std::runtime_error("Reader::ReadPage: Page is truncated.");
         if (!e.IsValid())
             throw std::runtime_error("Entry is invalid! " + e.ToString());
 
diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index 6039d9d..d766b64 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -89,6 +89,8 @@ void CopcExtentsVlr::read(std::istream &in, int byteSize)
     {
         in.read(reinterpret_cast<char *>(&minimum), sizeof(double));
         in.read(reinterpret_cast<char *>(&maximum), sizeof(double));
+        if (!in.good())
+            throw std::runtime_error("CopcExtentsVlr::read: VLR is truncated.");
         items.emplace_back(minimum, maximum);
     }
 }
-- 
2.43.0


From 7f5bf16b569561547db9cc657105cb54879154d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 15/45] fix: CopcExtent built from a list rejects a negative
 variance

---
 cpp/src/copc/extents.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index c2cb88a..8f1a46f 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -26,6 +26,8 @@ CopcExtent::CopcExtent(const std::vector<double> &vec)
 
     if (vec.size() == 4)
     {
+        if (vec[3] < 0)
+            throw std::runtime_error("CopcExtent: Variance must be >= 0.");
         mean = vec[2];
         var = vec[3];
     }
-- 
2.43.0


From f35b574d67eb29889645fa76d261eb67775ec193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 16/45] fix: CopcExtents converted to another format do not
 share extents with the original

---
 cpp/src/copc/extents.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index 8f1a46f..ff2ca5c 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -76,19 +76,19 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
 {
     // Copy generic extents
     for (int i{0}; i <= 13; i++)
-        extents_[i] = other.extents_[i];
+        *extents_[i] = *other.extents_[i];
 
     // Copy RGB
     if (point_format_id > 6 && other.point_format_id_ > 6)
     {
-        extents_[14] = other.extents_[14];
-        extents_[15] = other.extents_[15];
-        extents_[16] = other.extents_[16];
+        *extents_[14] = *other.extents_[14];
+        *extents_[15] = *other.extents_[15];
+        *extents_[16] = *other.extents_[16];
     }
 
     // Copy NIR
     if (point_format_id == 8 && other.point_format_id_ == 8)
-        extents_[17] = other.extents_[17];
+        *extents_[17] = *other.extents_[17];
 
     // Copy EBs
     auto other_num_eb = other.NumberOfExtents() - PointBaseNumberExtents(other.PointFormatId());
@@ -99,8 +99,8 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
     else
     {
         for (int i{0}; i < num_eb_items; i++)
-            extents_[PointBaseNumberExtents(point_format_id_) + i] =
-                other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
+            *extents_[PointBaseNumberExtents(point_format_id_) + i] =
+                *other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
     }
 }
 
-- 
2.43.0


From 54a032f93a493d1491f1c295173d2dee1712cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 17/45] fix: default extents of a file without an extents VLR
 cover its extra bytes

---
 cpp/src/io/copc_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 2c3cc8f..04bc9b4 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -63,7 +63,8 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     }
     else
     {
-        return CopcExtents(reader_->header().point_format_id);
+        return CopcExtents(static_cast<int8_t>(reader_->header().point_format_id),
+                           static_cast<uint16_t>(eb_vlr.items.size()));
     }
 }
 
-- 
2.43.0


From 7f3bef9f12844e4edb11f7c3764ae5e755832c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 18/45] fix: the extra bytes VLR is written exactly when space
 was reserved for it

---
 cpp/src/io/laz_base_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index b964d79..85c07fa 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -28,7 +28,7 @@ void BaseWriter::WriteLasHeader(bool extended_stats_flag)
 {
     // Write LAS header
     auto las_header = config_->LasHeader().ToLazPerf(OffsetToPointData(), point_count_, evlr_offset_, evlr_count_,
-                                                     config_->LasHeader().EbByteSize(), extended_stats_flag);
+                                                     config_->ExtraBytesVlr().size() > 0, extended_stats_flag);
     out_stream_.seekp(0);
     las_header.write(out_stream_);
 }
@@ -37,7 +37,7 @@ void BaseWriter::WriteLazAndEbVlrs()
 {
 
     // Write optional LAS Extra Byte VLR
-    if (config_->LasHeader().EbByteSize() > 0)
+    if (config_->ExtraBytesVlr().size() > 0)
     {
         auto ebVlr = this->config_->ExtraBytesVlr();
         ebVlr.header().write(out_stream_);
-- 
2.43.0


From ee7db3ab3366f44ed0d116bff1ba90a02c762057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 19/45] fix: copies of configurations do not share their
 header, extra bytes, info and extents

---
 cpp/include/copc-lib/copc/copc_config.hpp | 10 ++++++++++
 cpp/include/copc-lib/las/laz_config.hpp   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/cpp/include/copc-lib/copc/copc_config.hpp b/cpp/include/copc-lib/copc/copc_config.hpp
index 5bd503b..ff93b73 100644
--- a/cpp/include/copc-lib/copc/copc_config.hpp
+++ b/cpp/include/copc-lib/copc/copc_config.hpp
@@ -30,6 +30,16 @@ class CopcConfig : public las::LazConfig
           copc_info_(std::make_shared<copc::CopcInfo>(copc_info)),
           copc_extents_(std::make_shared<copc::CopcExtents>(copc_extents)){};
 
+    // Copies own their info and extents
+    CopcConfig(const CopcConfig &other) : LazConfig() { *this = other; }
+    CopcConfig &operator=(const CopcConfig &other)
+    {
+        LazConfig::operator=(other);
+        copc_info_ = other.copc_info_ ? std::make_shared<copc::CopcInfo>(*other.copc_info_) : nullptr;
+        copc_extents_ = other.copc_extents_ ? std::make_shared<copc::CopcExtents>(*other.copc_extents_) : nullptr;
+        return *this;
+    }
+
     virtual copc::CopcInfo CopcInfo() const { return *copc_info_; }
 
     virtual copc::CopcExtents CopcExtents() const { return *copc_extents_; }
diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index 3686ec8..842190a 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -26,6 +26,16 @@ class LazConfig
         eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
     }
 
+    // Copies own their header and extra bytes VLR
+    LazConfig(const LazConfig &other) { *this = other; }
+    LazConfig &operator=(const LazConfig &other)
+    {
+        header_ = other.header_ ? std::make_shared<las::LasHeader>(*other.header_) : nullptr;
+        wkt_ = other.wkt_;
+        eb_vlr_ = other.eb_vlr_ ? std::make_shared<las::EbVlr>(*other.eb_vlr_) : nullptr;
+        return *this;
+    }
+
     virtual las::LasHeader LasHeader() const { return *header_; }
 
     std::string Wkt() const { return wkt_; }
-- 
2.43.0


From 48b882de783b6a4dd54f3b33405b00ab1b38ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 20/45] fix: configurations of plain LAZ files are not marked
 COPC

---
 cpp/src/io/base_reader.cpp | 2 +-
 cpp/src/las/laz_config.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 90e3918..8cb1306 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -28,7 +28,7 @@ void BaseReader::InitReader()
     auto wkt = ReadWktVlr(vlrs_);
     auto eb = ReadExtraBytesVlr(vlrs_);
 
-    las_config_ = las::LazConfig(header, wkt.wkt, eb);
+    las_config_ = las::LazConfig(las::LasHeader(header, false), wkt.wkt, eb);
 }
 
 std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
diff --git a/cpp/src/las/laz_config.cpp b/cpp/src/las/laz_config.cpp
index 8452046..40f47c2 100644
--- a/cpp/src/las/laz_config.cpp
+++ b/cpp/src/las/laz_config.cpp
@@ -22,7 +22,7 @@ LazConfig::LazConfig(const int8_t &point_format_id, const Vector3 &scale, const
 // Copy constructor from CopcConfig
 LazConfig::LazConfig(const copc::CopcConfig &copc_config)
 {
-    header_ = std::make_shared<copc::las::LasHeader>(copc_config.LasHeader());
+    header_ = std::make_shared<copc::las::LasHeader>(copc_config.LasHeader(), false);
     wkt_ = copc_config.Wkt();
     eb_vlr_ = std::make_shared<copc::las::EbVlr>(copc_config.ExtraBytesVlr());
 }
-- 
2.43.0


From 829fb2990bffbf96a62991e29eb9f9f8f3bf5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 21/45] fix: subtree listings load every page above the key

---
 cpp/src/io/copc_reader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 04bc9b4..d3f1b7d 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -169,6 +169,14 @@ std::vector<Node> Reader::GetAllChildrenOfPage(const VoxelKey &key)
 
     // Load all pages upto the current key
     auto node = FindNode(key);
+    // The node may be stored in a page above the page with this key, so make sure that all the pages above are loaded
+    auto parents_list = key.GetParents(true);
+    auto nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    while (nearest_page != nullptr && !nearest_page->loaded)
+    {
+        ReadAndParsePage(nearest_page);
+        nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    }
     // If a page with this key doesn't exist, check if the node itself exists and return it
     if (!hierarchy_->PageExists(key))
     {
-- 
2.43.0


From 73e3b4296be76d15604f56a583a54d6d9fd9e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 22/45] fix: LazReader returns the points again when they are
 read twice

---
 cpp/src/io/laz_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 6682656..e2c4c75 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -5,6 +5,10 @@ namespace copc::laz
 std::vector<char> LazReader::GetPointData()
 {
     auto las_header = las_config_.LasHeader();
+    // The laz-perf reader only goes forward, so start over with a new one
+    in_stream_->clear();
+    in_stream_->seekg(0);
+    reader_ = std::make_unique<lazperf::reader::generic_file>(*in_stream_);
     // Seek to the end of the chunk table offset/start of the points
     in_stream_->seekg(las_header.PointOffset() + sizeof(int64_t));
 
-- 
2.43.0


From a6e9b982369d9adb709ed8c0ddeb963f2c6ada70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 23/45] fix: EVLR lengths that don't fit a stream offset are
 rejected

---
 cpp/src/io/base_reader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 8cb1306..9c560c5 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -2,6 +2,7 @@
 
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 #include "copc-lib/copc/copc_config.hpp"
@@ -58,7 +59,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
-        if (!in_stream_->good())
+        // A length that doesn't fit a stream offset would move the stream backwards
+        if (!in_stream_->good() || h.data_length > static_cast<uint64_t>((std::numeric_limits<int64_t>::max)()))
             throw std::runtime_error("BaseReader::ReadVlrHeaders: VLR headers are truncated.");
         out.insert({cur_pos, h});
 
-- 
2.43.0


From 17dd26b231da3fbd1c3dd5cdbc9f6f3dff61b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 24/45] fix: point records shorter than their format are
 rejected

---
 cpp/src/las/header.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 6e76867..2c30466 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -76,6 +76,8 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (header.point_format_id < 6 || header.point_format_id > 8)
         throw std::runtime_error("LasHeader::FromLazPerf: Supported point formats are 6 to 8.");
     h.point_format_id_ = static_cast<int8_t>(header.point_format_id);
+    if (header.point_record_length < PointBaseByteSize(h.point_format_id_))
+        throw std::runtime_error("LasHeader::FromLazPerf: Point record length is too short for the point format.");
     h.point_record_length_ = header.point_record_length;
     std::copy(std::begin(header.points_by_return), std::end(header.points_by_return), std::begin(h.points_by_return));
     h.scale_.x = header.scale.x;
-- 
2.43.0


From c82c61ca22c2b657a1354289a595eec6d0b63fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 25/45] fix: descriptors that don't fit their VLR are rejected

---
 cpp/src/las/laz_config.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/las/laz_config.cpp b/cpp/src/las/laz_config.cpp
index 40f47c2..d806dc8 100644
--- a/cpp/src/las/laz_config.cpp
+++ b/cpp/src/las/laz_config.cpp
@@ -1,5 +1,6 @@
 #include "copc-lib/las/laz_config.hpp"
 
+#include <limits>
 #include <stdexcept>
 #include <utility>
 
@@ -13,6 +14,9 @@ LazConfig::LazConfig(const int8_t &point_format_id, const Vector3 &scale, const
 {
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("LasConfig: Supported point formats are 6 to 8.");
+    // The length of a VLR is stored in 16 bits
+    if (extra_bytes_vlr.size() > (std::numeric_limits<uint16_t>::max)())
+        throw std::runtime_error("LasConfig: Too many extra bytes descriptors.");
     header_ = std::make_shared<las::LasHeader>(
         point_format_id, las::PointBaseByteSize(point_format_id) + las::NumBytesFromExtraBytes(extra_bytes_vlr.items),
         scale, offset, copc_flag);
-- 
2.43.0


From 4fefe4839c37587faf30821d4d83787f38d1d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 26/45] fix: extra bytes that don't fit the record length are
 rejected

---
 cpp/src/las/laz_config.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cpp/src/las/laz_config.cpp b/cpp/src/las/laz_config.cpp
index d806dc8..1037ac9 100644
--- a/cpp/src/las/laz_config.cpp
+++ b/cpp/src/las/laz_config.cpp
@@ -17,9 +17,13 @@ LazConfig::LazConfig(const int8_t &point_format_id, const Vector3 &scale, const
     // The length of a VLR is stored in 16 bits
     if (extra_bytes_vlr.size() > (std::numeric_limits<uint16_t>::max)())
         throw std::runtime_error("LasConfig: Too many extra bytes descriptors.");
-    header_ = std::make_shared<las::LasHeader>(
-        point_format_id, las::PointBaseByteSize(point_format_id) + las::NumBytesFromExtraBytes(extra_bytes_vlr.items),
-        scale, offset, copc_flag);
+    int point_record_length =
+        las::PointBaseByteSize(point_format_id) + las::NumBytesFromExtraBytes(extra_bytes_vlr.items);
+    // The record length is stored in 16 bits
+    if (point_record_length > (std::numeric_limits<uint16_t>::max)())
+        throw std::runtime_error("LasConfig: Point records are too long.");
+    header_ = std::make_shared<las::LasHeader>(point_format_id, static_cast<uint16_t>(point_record_length), scale,
+                                               offset, copc_flag);
     eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
 }
 
-- 
2.43.0


From e09f880fe4c0fc04ebbc95762f7f6b5935835c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 27/45] fix: root hierarchy pages that don't fit a page size
 are rejected

---
 cpp/src/io/copc_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index d3f1b7d..c717361 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -1,6 +1,7 @@
 #include <cmath>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 #include "copc-lib/copc/copc_config.hpp"
@@ -24,6 +25,10 @@ void Reader::InitCopcReader()
     auto copc_info = ReadCopcInfoVlr(vlrs_);
     auto copc_extents = ReadCopcExtentsVlr(vlrs_, las_config_.ExtraBytesVlr());
 
+    // Page sizes are 32 bits, a larger one would be cut
+    if (copc_info.root_hier_size > static_cast<uint64_t>((std::numeric_limits<int32_t>::max)()))
+        throw std::runtime_error("Reader::InitReader: Root hierarchy page is too large.");
+
     config_ = copc::CopcConfig(las_config_, copc_info, copc_extents);
     hierarchy_ = std::make_shared<Internal::Hierarchy>(copc_info.root_hier_offset, copc_info.root_hier_size);
 }
-- 
2.43.0


From 1b4ef5b6906d249060896b934b787b746e6f2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 28/45] fix: headers whose identifiers aren't UTF-8 text can be
 pickled

---
 python/bindings.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 8d60588..87a27b8 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -506,11 +506,11 @@ PYBIND11_MODULE(_core, m)
         .def(py::pickle(
             [](const las::LasHeader &h) { // __getstate__
                 /* Return a tuple that fully encodes the state of the object */
-                return py::make_tuple(h.file_source_id, h.global_encoding, h.GUID(), h.SystemIdentifier(),
-                                      h.GeneratingSoftware(), h.creation_day, h.creation_year, h.PointOffset(),
-                                      h.VlrCount(), h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(),
-                                      h.max, h.min, h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return,
-                                      h.IsCopc());
+                return py::make_tuple(h.file_source_id, h.global_encoding, py::bytes(h.GUID()),
+                                      py::bytes(h.SystemIdentifier()), py::bytes(h.GeneratingSoftware()),
+                                      h.creation_day, h.creation_year, h.PointOffset(), h.VlrCount(),
+                                      h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(), h.max, h.min,
+                                      h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return, h.IsCopc());
             },
             [](const py::tuple &t) { // __setstate__
                 if (t.size() != 20)
-- 
2.43.0


From a6785a1b79a12e2402e6422508a6c2263905e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 29/45] fix: an empty slice of points is an empty collection

---
 python/bindings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 87a27b8..30ed001 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -360,7 +360,9 @@ PYBIND11_MODULE(_core, m)
                      start += step;
                  }
 
-                 auto *seq = new las::Points(new_points);
+                 // An empty slice has no point to take the format from
+                 auto *seq = new_points.empty() ? new las::Points(s.PointFormatId(), s.EbByteSize())
+                                                : new las::Points(new_points);
                  return seq;
              })
         .def("__setitem__",
-- 
2.43.0


From 679a5f5b2d97bf42326963ccd3c0e1278c791ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 30/45] fix: assigning a collection to a slice of itself keeps
 its points

---
 python/bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 30ed001..23897d4 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -366,7 +366,7 @@ PYBIND11_MODULE(_core, m)
                  return seq;
              })
         .def("__setitem__",
-             [](las::Points &s, const py::slice &slice, const las::Points &value) {
+             [](las::Points &s, const py::slice &slice, las::Points value) {
                  size_t start = 0, stop = 0, step = 0, slicelength = 0;
                  if (!slice.compute(s.Size(), &start, &stop, &step, &slicelength))
                      throw py::error_already_set();
-- 
2.43.0


From 305df3f63a5198929d422460d1b923ca00056b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 31/45] fix: destroying a writer whose output failed ended the
 program

---
 cpp/include/copc-lib/io/copc_writer.hpp       | 24 +++++++++++++++++--
 .../io/internal/copc_writer_internal.hpp      | 12 +++++++++-
 cpp/include/copc-lib/io/laz_base_writer.hpp   | 12 +++++++++-
 cpp/include/copc-lib/io/laz_writer.hpp        | 12 +++++++++-
 cpp/src/io/copc_writer_internal.cpp           |  4 ++--
 cpp/src/io/laz_base_writer.cpp                |  4 ++--
 6 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_writer.hpp b/cpp/include/copc-lib/io/copc_writer.hpp
index 482c1e7..3ff16c3 100644
--- a/cpp/include/copc-lib/io/copc_writer.hpp
+++ b/cpp/include/copc-lib/io/copc_writer.hpp
@@ -49,7 +49,17 @@ class Writer : public BaseIO
 
     std::shared_ptr<CopcConfigWriter> CopcConfig() { return config_; }
 
-    ~Writer() { Close(); }
+    ~Writer()
+    {
+        // Errors can only be reported by calling Close()
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
   protected:
     Writer() = default;
@@ -89,7 +99,17 @@ class FileWriter : public Writer, laz::BaseFileWriter
     }
 
     void Close() override;
-    ~FileWriter() { Close(); }
+    ~FileWriter()
+    {
+        // Errors can only be reported by calling Close()
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
index 8ca65fd..d7fc58e 100644
--- a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
+++ b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
@@ -20,7 +20,17 @@ class WriterInternal : laz::BaseWriter
     // Writes the header and COPC vlrs
     void Close() override;
     // Call close on destructor if needed
-    ~WriterInternal() { Close(); }
+    ~WriterInternal()
+    {
+        // Errors can only be reported by calling Close()
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
     // Writes a chunk to the laz file
     Entry WriteNode(const std::vector<char> &in, int32_t point_count, bool compressed);
diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index fb09a7a..5f74402 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -41,7 +41,17 @@ class BaseWriter
     virtual void WriteHeader();
 
     virtual void Close();
-    ~BaseWriter() { Close(); }
+    ~BaseWriter()
+    {
+        // Errors can only be reported by calling Close()
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
   protected:
     static const uint32_t VARIABLE_CHUNK_SIZE = std::numeric_limits<uint32_t>::max();
diff --git a/cpp/include/copc-lib/io/laz_writer.hpp b/cpp/include/copc-lib/io/laz_writer.hpp
index 1586a2e..3dc3725 100644
--- a/cpp/include/copc-lib/io/laz_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_writer.hpp
@@ -51,7 +51,17 @@ class LazFileWriter : BaseFileWriter, public LazWriter
         LazWriter::Close();
         BaseFileWriter::Close();
     };
-    ~LazFileWriter() { Close(); };
+    ~LazFileWriter()
+    {
+        // Errors can only be reported by calling Close()
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    }
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index deab4e8..bd25ff6 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -46,6 +46,8 @@ void WriterInternal::Close()
 {
     if (!open_)
         return;
+    // A close that fails can't be repeated: the base class would write its own header, and the chunks are relative now
+    open_ = false;
 
     WriteChunkTable();
 
@@ -63,8 +65,6 @@ void WriterInternal::Close()
     WriteWKT();
 
     WriteHeader();
-
-    open_ = false;
 }
 
 // Writes the LAS header and VLRs
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 85c07fa..488e71b 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -148,6 +148,8 @@ void BaseWriter::Close()
 {
     if (!open_)
         return;
+    // A close that fails can't be repeated: the base class would write its own header, and the chunks are relative now
+    open_ = false;
 
     WriteChunkTable();
 
@@ -158,8 +160,6 @@ void BaseWriter::Close()
     WriteWKT();
 
     WriteHeader();
-
-    open_ = false;
 }
 
 BaseFileWriter::BaseFileWriter(const std::string &file_path)
-- 
2.43.0


From f4a8a689eb8585353ccd58fcaba68b4546613a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 32/45] fix: files with truncated VLRs are rejected

---
 cpp/src/io/base_reader.cpp | 2 ++
 cpp/src/io/copc_reader.cpp | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9c560c5..af41ce1 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -28,6 +28,8 @@ void BaseReader::InitReader()
     vlrs_ = ReadVlrHeaders();
     auto wkt = ReadWktVlr(vlrs_);
     auto eb = ReadExtraBytesVlr(vlrs_);
+    if (!in_stream_->good())
+        throw std::runtime_error("BaseReader::InitReader: VLRs are truncated.");
 
     las_config_ = las::LazConfig(las::LasHeader(header, false), wkt.wkt, eb);
 }
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index c717361..e59763f 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -43,7 +43,10 @@ CopcInfo Reader::ReadCopcInfoVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
                                  "offset 375 as per COPC specs.");
 
     in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
-    return lazperf::copc_info_vlr::create(*in_stream_);
+    auto copc_info = lazperf::copc_info_vlr::create(*in_stream_);
+    if (!in_stream_->good())
+        throw std::runtime_error("Reader::ReadCopcInfoVlr: COPC Info VLR is truncated.");
+    return copc_info;
 }
 
 CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs, const las::EbVlr &eb_vlr) const
-- 
2.43.0


From cf8df55e6a0fd4c475367ff887623730af9dedc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 33/45] fix: a truncated node isn't returned as zero bytes

---
 cpp/src/io/copc_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index e59763f..c536f89 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -153,6 +153,8 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
     std::vector<char> out;
     out.resize(node.byte_size);
     in_stream_->read(&out[0], node.byte_size);
+    if (!in_stream_->good())
+        throw std::runtime_error("Reader::GetPointDataCompressed: Node is truncated.");
     return out;
 }
 
-- 
2.43.0


From 2ddcc34482f0b1a59331c70d4861a9b4bb6b5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 34/45] fix: file readers keep their stream: closed readers
 raise, failed openings close the file

Close() deleted the stream, so any later call on the reader used freed
memory; a constructor that threw (not a COPC file, truncated, ...) leaked
the stream with its open descriptor.
---
 cpp/include/copc-lib/io/copc_reader.hpp | 12 ++++++------
 cpp/include/copc-lib/io/laz_reader.hpp  | 13 +++++++------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index 75a2652..c0bf395 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -1,6 +1,7 @@
 #ifndef COPCLIB_IO_COPC_READER_H_
 #define COPCLIB_IO_COPC_READER_H_
 
+#include <fstream>
 #include <istream>
 #include <limits>
 #include <map>
@@ -86,12 +87,11 @@ class FileReader : public Reader
   public:
     FileReader(const std::string &file_path) : is_open_(true)
     {
-        auto f_stream = new std::fstream;
         this->file_path_ = file_path;
-        f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
-        if (!f_stream->good())
+        f_stream_.open(file_path.c_str(), std::ios::in | std::ios::binary);
+        if (!f_stream_.good())
             throw std::runtime_error("FileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = &f_stream_;
 
         InitReader();
         InitCopcReader();
@@ -101,8 +101,7 @@ class FileReader : public Reader
     {
         if (is_open_)
         {
-            dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
+            f_stream_.close();
             is_open_ = false;
         }
     }
@@ -113,6 +112,7 @@ class FileReader : public Reader
 
   private:
     bool is_open_;
+    std::fstream f_stream_;
     std::string file_path_;
 };
 
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index faf4edb..eb06097 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -1,6 +1,8 @@
 #ifndef COPCLIB_IO_LAZ_READER_H_
 #define COPCLIB_IO_LAZ_READER_H_
 
+#include <fstream>
+
 #include "copc-lib/io/base_reader.hpp"
 
 namespace copc::laz
@@ -25,12 +27,11 @@ class LazFileReader : public LazReader
   public:
     LazFileReader(const std::string &file_path) : is_open_(true)
     {
-        auto f_stream = new std::fstream;
         this->file_path_ = file_path;
-        f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
-        if (!f_stream->good())
+        f_stream_.open(file_path.c_str(), std::ios::in | std::ios::binary);
+        if (!f_stream_.good())
             throw std::runtime_error("LazFileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = &f_stream_;
 
         InitReader();
     }
@@ -39,8 +40,7 @@ class LazFileReader : public LazReader
     {
         if (is_open_)
         {
-            dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
+            f_stream_.close();
             is_open_ = false;
         }
     }
@@ -51,6 +51,7 @@ class LazFileReader : public LazReader
 
   private:
     bool is_open_;
+    std::fstream f_stream_;
     std::string file_path_;
 };
 
-- 
2.43.0


From 8bb354de44e5ee07bd947f2f6354774e6799e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 35/45] fix: FileWriter::Close reports a failed final flush

The last buffered data is written by closing the file stream, whose failure
was ignored, so a truncated file was left without an error.
---
 cpp/src/io/laz_base_writer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 488e71b..837da7c 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -172,7 +172,10 @@ BaseFileWriter::BaseFileWriter(const std::string &file_path)
 
 void BaseFileWriter::Close()
 {
-    if (f_stream_.is_open())
-        f_stream_.close();
+    if (!f_stream_.is_open())
+        return;
+    f_stream_.close();
+    if (f_stream_.fail())
+        throw std::runtime_error("FileWriterBase: Error while closing file.");
 }
 } // namespace copc::laz
-- 
2.43.0


From 1e50fcd49b43facf8e4c812274c10cd67aa92d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:53 +0000
Subject: [PATCH 36/45] fix: ValidateSpatialBounds(verbose) counts every point
 outside the header bounds

The points of a node whose cube lies within the header bounds were not checked
against the header bounds, so a point outside both its node and the header
was missing from the reported count.
---
 cpp/src/io/copc_reader.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index c536f89..0256c59 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -382,21 +382,19 @@ bool Reader::ValidateSpatialBounds(bool verbose)
         else
         {
             auto points = GetPoints(node);
-            // If node not within las header bounds then check individual points
-            if (!Box(node.key, header).Within(header.Bounds()))
+            // Check that points fall within the las header bounds. A point can be outside of its node, so this is
+            // needed even if the node is within the las header bounds
+            for (auto const &point : points)
             {
-                for (auto const &point : points)
+                if (!point->Within(header.Bounds()))
                 {
-                    if (!point->Within(header.Bounds()))
-                    {
-                        is_valid = false;
-                        if (!verbose)
-                            return false;
-                        std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z() << ") from node "
-                                  << node.key << " is outside of las header bounds (" << header.Bounds() << ")."
-                                  << std::endl;
-                        total_points_outside_header_bounds++;
-                    }
+                    is_valid = false;
+                    if (!verbose)
+                        return false;
+                    std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z() << ") from node "
+                              << node.key << " is outside of las header bounds (" << header.Bounds() << ")."
+                              << std::endl;
+                    total_points_outside_header_bounds++;
                 }
             }
             // Check that points fall within the node bounds
-- 
2.43.0


From 02248b902a73f21ff96dbf1490506d0214d37ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:31 +0000
Subject: [PATCH 37/45] fix: read COPC extents and extended statistics stored
 as EVLRs behind their own header

---
 cpp/src/io/copc_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 0256c59..44b2d51 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -55,7 +55,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     auto extended_offset = FetchVlr(vlrs, "rock_robotic", 10001);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
         CopcExtents extents(las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length)),
                             static_cast<int8_t>(reader_->header().point_format_id),
                             static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);
@@ -63,7 +63,8 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
         // Load mean/var if they exist
         if (extended_offset != 0)
         {
-            in_stream_->seekg(extended_offset + las::VLR_HEADER_SIZE);
+            in_stream_->seekg(extended_offset +
+                              (vlrs[extended_offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
             extents.SetExtendedStats(
                 las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length)));
         }
-- 
2.43.0


From e3b47809c3fe2ac12bd614e06c9910a50f0fbbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:29 +0000
Subject: [PATCH 38/45] fix: scan angles in degrees are set to the nearest step
 and must fit their field

---
 cpp/include/copc-lib/las/point.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/point.hpp b/cpp/include/copc-lib/las/point.hpp
index 9e3c53f..cc31e13 100644
--- a/cpp/include/copc-lib/las/point.hpp
+++ b/cpp/include/copc-lib/las/point.hpp
@@ -1,7 +1,10 @@
 #ifndef COPCLIB_LAS_POINT_H_
 #define COPCLIB_LAS_POINT_H_
 
+#include <cmath>
+#include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 
 #include "copc-lib/hierarchy/key.hpp"
@@ -66,7 +69,14 @@ class Point
 
     float ScanAngleDegrees() const { return 0.006f * float(scan_angle_); }
 
-    void ScanAngleDegrees(const float &scan_angle) { scan_angle_ = static_cast<int16_t>(scan_angle / 0.006f); }
+    void ScanAngleDegrees(const float &scan_angle)
+    {
+        float steps = std::round(scan_angle / 0.006f);
+        // Negated so that NaN is rejected too
+        if (!(steps >= std::numeric_limits<int16_t>::min() && steps <= std::numeric_limits<int16_t>::max()))
+            throw std::runtime_error("Scan angle doesn't fit its field.");
+        scan_angle_ = static_cast<int16_t>(steps);
+    }
 
     uint8_t UserData() const { return user_data_; }
     void UserData(const uint8_t &user_data) { user_data_ = user_data; }
-- 
2.43.0


From a79a4553744a413689ee522671f6637c5ca2c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:29 +0000
Subject: [PATCH 39/45] fix: a writer's own extra bytes and format must fit the
 16-bit record and VLR lengths

---
 cpp/src/io/copc_writer_public.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 782e940..ec69b6a 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "copc-lib/hierarchy/internal/hierarchy.hpp"
 #include "copc-lib/hierarchy/internal/page.hpp"
 #include "copc-lib/io/copc_writer.hpp"
@@ -41,10 +43,16 @@ void Writer::InitWriter(std::ostream &out_stream, const CopcConfigWriter &copc_c
         if (has_extended_stats)
             new_has_extended_stats = *has_extended_stats;
 
+        // The lengths of a VLR and of a point record are stored in 16 bits
+        if (new_extra_bytes_vlr.size() > (std::numeric_limits<uint16_t>::max)())
+            throw std::runtime_error("Writer: Too many extra bytes descriptors.");
+        int new_point_record_length = las::PointBaseByteSize(new_point_format_id) +
+                                      las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items);
+        if (new_point_record_length > (std::numeric_limits<uint16_t>::max)())
+            throw std::runtime_error("Writer: Point records are too long.");
+
         las::LasHeader new_header(copc_config_writer.LasHeader(), new_point_format_id,
-                                  las::PointBaseByteSize(new_point_format_id) +
-                                      las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items),
-                                  new_scale, new_offset);
+                                  static_cast<uint16_t>(new_point_record_length), new_scale, new_offset);
 
         copc::CopcExtents new_extents(copc_config_writer.CopcExtents(), new_point_format_id,
                                       new_extra_bytes_vlr.items.size(), new_has_extended_stats);
-- 
2.43.0


From bf5ee2d25ecc3cb925d576cf23ab248bf5ee64a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:29 +0000
Subject: [PATCH 40/45] fix: reading the points of a file without nodes gives
 an empty array

---
 python/copclib/mp/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/copclib/mp/read.py b/python/copclib/mp/read.py
index e2a90df..2dbc182 100644
--- a/python/copclib/mp/read.py
+++ b/python/copclib/mp/read.py
@@ -191,7 +191,7 @@ def read_concat_xyz_class_limit(
 
     # Concatenate all the points in the end, and return one large array of
     # all the points in the file
-    return np.concatenate(all_xyz)
+    return np.concatenate(all_xyz) if all_xyz else np.empty((0, 3))
 
 
 def read_map_xyz_class_limit(
-- 
2.43.0


From 7f3ced4208a26742183ea13605263f91430496f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:29 +0000
Subject: [PATCH 41/45] fix: transformed files' bounds are those of the points
 as written

---
 python/copclib/mp/transform.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/python/copclib/mp/transform.py b/python/copclib/mp/transform.py
index cc2a00b..8aab2d5 100644
--- a/python/copclib/mp/transform.py
+++ b/python/copclib/mp/transform.py
@@ -209,14 +209,18 @@ def _transform_node(
         points = ret
         return_vals = {}
 
+    point_count = len(points)
+    # Repack and compress the points using the new writer header
+    packed_points = points.Pack(writer_header)
+    compressed_points = copc.CompressBytes(packed_points, writer_header)
+
     # compute the minimum and maximum of the node's points, if necessary
     xyz_min = None
     xyz_max = None
-    if update_minmax and len(points) > 0:
-        xyz_min = [min(points.x), min(points.y), min(points.z)]
-        xyz_max = [max(points.x), max(points.y), max(points.z)]
+    if update_minmax and point_count > 0:
+        # packing rounds the coordinates to the scale of the writer, so take the points as they are written
+        written_points = copc.Points.Unpack(packed_points, writer_header)
+        xyz_min = [min(written_points.x), min(written_points.y), min(written_points.z)]
+        xyz_max = [max(written_points.x), max(written_points.y), max(written_points.z)]
 
-    point_count = len(points)
-    # Repack and compress the points using the new writer header
-    compressed_points = copc.CompressBytes(points.Pack(writer_header), writer_header)
     return compressed_points, node, point_count, xyz_min, xyz_max, return_vals
-- 
2.43.0


From 2567e5815a378a7cc6b6fca564add244a785dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:29 +0000
Subject: [PATCH 42/45] fix: transformed points of another format or length
 than the writer's are rejected

---
 python/copclib/mp/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/copclib/mp/transform.py b/python/copclib/mp/transform.py
index 8aab2d5..5baab81 100644
--- a/python/copclib/mp/transform.py
+++ b/python/copclib/mp/transform.py
@@ -210,6 +210,14 @@ def _transform_node(
         return_vals = {}
 
     point_count = len(points)
+    # The packed points are written as they are, so records of another format or length would be read wrong
+    if point_count > 0 and (
+        points.point_format_id != writer_header.point_format_id
+        or points.point_record_length != writer_header.point_record_length
+    ):
+        raise RuntimeError(
+            "The points of the transform_function must be of the format and size of the writer!"
+        )
     # Repack and compress the points using the new writer header
     packed_points = points.Pack(writer_header)
     compressed_points = copc.CompressBytes(packed_points, writer_header)
-- 
2.43.0


From 3063a3468b0bbbf240437bcea5229c0043cd8874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:18 +0000
Subject: [PATCH 43/45] fix: a failed read does not make the reader's later
 reads fail

---
 cpp/src/io/copc_reader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 44b2d51..54b43fa 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -83,7 +83,8 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
     if (!page->IsValid())
         throw std::runtime_error("Reader::ReadPage: Cannot load an invalid page.");
 
-    // reset the stream to the page's offset
+    // reset the stream to the page's offset, also when an earlier read failed
+    in_stream_->clear();
     in_stream_->seekg(page->offset);
 
     // Iterate through each Entry in the page
@@ -124,6 +125,8 @@ std::vector<char> Reader::GetPointData(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointData: Cannot load an invalid node.");
 
+    // An earlier read that failed must not make this one fail
+    in_stream_->clear();
     in_stream_->seekg(node.offset);
 
     auto las_header = config_.LasHeader();
@@ -149,6 +152,8 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointDataCompressed: Cannot load an invalid node.");
 
+    // An earlier read that failed must not make this one fail
+    in_stream_->clear();
     in_stream_->seekg(node.offset);
 
     std::vector<char> out;
-- 
2.43.0


From 4fff170c238215c857df27b851f557b8938e9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:20 +0000
Subject: [PATCH 44/45] fix: point records longer than 65535 bytes are
 rejected, not counted modulo 65536

---
 cpp/src/las/point.cpp  | 4 ++--
 cpp/src/las/points.cpp | 6 +++---
 cpp/src/las/utils.cpp  | 5 ++++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cpp/src/las/point.cpp b/cpp/src/las/point.cpp
index bb78b47..0873476 100644
--- a/cpp/src/las/point.cpp
+++ b/cpp/src/las/point.cpp
@@ -8,7 +8,7 @@ Point::Point(const int8_t &point_format_id, const uint16_t &eb_byte_size) : poin
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point: Point format must be 6-8");
 
-    point_record_length_ = PointBaseByteSize(point_format_id) + eb_byte_size;
+    point_record_length_ = PointByteSize(point_format_id, eb_byte_size);
 
     has_rgb_ = FormatHasRgb(point_format_id);
     has_nir_ = FormatHasNir(point_format_id);
@@ -143,10 +143,10 @@ void Point::ToPointFormat(const int8_t &point_format_id)
 {
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point format must be 6-8.");
+    point_record_length_ = PointByteSize(point_format_id, extra_bytes_.size());
     // Update flags
     has_rgb_ = FormatHasRgb(point_format_id);
     has_nir_ = FormatHasNir(point_format_id);
-    point_record_length_ = PointBaseByteSize(point_format_id) + extra_bytes_.size();
     point_format_id_ = point_format_id;
 }
 
diff --git a/cpp/src/las/points.cpp b/cpp/src/las/points.cpp
index 57e34b1..b398992 100644
--- a/cpp/src/las/points.cpp
+++ b/cpp/src/las/points.cpp
@@ -32,11 +32,11 @@ void Points::ToPointFormat(const int8_t &point_format_id)
 {
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point format must be 6-8.");
-    for (auto &point : points_)
-        point->ToPointFormat(point_format_id);
     unsigned int eb_byte_size = point_record_length_ - PointBaseByteSize(point_format_id_);
-    point_format_id_ = point_format_id;
     point_record_length_ = PointByteSize(point_format_id, eb_byte_size);
+    point_format_id_ = point_format_id;
+    for (auto &point : points_)
+        point->ToPointFormat(point_format_id);
 }
 
 void Points::AddPoint(const std::shared_ptr<Point> &point)
diff --git a/cpp/src/las/utils.cpp b/cpp/src/las/utils.cpp
index 5e59d0a..6febf5b 100644
--- a/cpp/src/las/utils.cpp
+++ b/cpp/src/las/utils.cpp
@@ -68,7 +68,10 @@ uint16_t EbByteSize(const int8_t &point_format_id, const uint32_t &point_record_
 
 uint16_t PointByteSize(const int8_t &point_format_id, const uint16_t &eb_byte_size)
 {
-    return PointBaseByteSize(point_format_id) + eb_byte_size;
+    uint32_t size = PointBaseByteSize(point_format_id) + static_cast<uint32_t>(eb_byte_size);
+    if (size > std::numeric_limits<uint16_t>::max())
+        throw std::runtime_error("PointByteSize: Point records can't be longer than 65535 bytes");
+    return size;
 }
 
 } // namespace copc::las
-- 
2.43.0


From bee60707c899bd8d244490a247eeab8c9555f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:59 +0000
Subject: [PATCH 45/45] fix: validation counts more than 2^31 points outside
 the bounds

---
 cpp/src/io/copc_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 54b43fa..8e338c5 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -355,8 +355,8 @@ bool Reader::ValidateSpatialBounds(bool verbose)
     bool is_valid = true;
     auto header = config_.LasHeader();
 
-    int total_points_outside_header_bounds{0};
-    int total_points_outside_node_bounds{0};
+    int64_t total_points_outside_header_bounds{0};
+    int64_t total_points_outside_node_bounds{0};
 
     // If verbose, set precision and print the las header.
     if (verbose)
-- 
2.43.0

