From 61ff2df43d636041856095139112fa6a6e7eb354 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 01/20] fix: FullBox::removeFlag() no longer sets a flag that
 was not set

---
 src/box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box.cpp b/src/box.cpp
index 87bfa9b..00068ed 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -148,7 +148,7 @@ void FullBox::addFlag(std::uint32_t flag) {
 }
 
 void FullBox::removeFlag(std::uint32_t flag) {
-  setFlags(getFlags() ^ flag);
+  setFlags(getFlags() & ~flag);
 }
 
 std::uint64_t FullBox::writeVersionAndFlag(bitio::Writer* writer) const {
-- 
2.43.0


From 561fd229fa0bfa8562d6f8a2c6b2a03ba373d08f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 02/20] fix: Hdlr::readData() counts the padding after the name
 in bytes

---
 src/box/hdlr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index 343d481..ffc0cde 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -77,7 +77,7 @@ std::uint64_t Hdlr::readData(std::istream& is) {
         fmt::format("Hdlr::readData(): invalid name_rbits: offset_to_end={} name_rbits={}", offset_to_end, name_rbits));
   }
   rbits += name_rbits;
-  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, (offset_to_end * 8) - name_rbits, &m_padding);
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, offset_to_end - name_rbits / 8, &m_padding);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 981ab1b5eed12bc3fd6f46c5422a9d4dc20bc05f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 03/20] fix: Esds::readData() no longer counts the tag of an
 unknown descriptor twice

---
 src/box/esds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index ed8d5e9..c5581b6 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -339,7 +339,7 @@ std::uint64_t Esds::readData(std::istream& is) {
         break;
       default:
         spdlog::info("Esds::readData(): unknown tag: {}", tag);
-        return rbits + static_cast<std::uint64_t>(offset_to_end) * 8;
+        return rbits + (static_cast<std::uint64_t>(offset_to_end) - 1) * 8;
     }
     rbits += p->readData(&reader);
     m_descriptors.push_back(p);
-- 
2.43.0


From 74be700a661cf9b8570487f8f1691490152de1cc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 04/20] fix: time::format_epoch_19040101() no longer crashes on
 times far beyond the supported range

---
 src/time/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time.cpp b/src/time/time.cpp
index ce8670a..854ef48 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -10,11 +10,11 @@
 namespace shiguredo::mp4::time {
 
 std::string format_epoch_19040101(const std::uint64_t t) {
-  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
-  if (from1970 > std::numeric_limits<std::uint32_t>::max()) {
+  if (t > SECONDS_19040101_to_19700101 + static_cast<std::uint64_t>(std::numeric_limits<std::uint32_t>::max())) {
     // cannot handle big values.
     return "0000-00-00T00:00:00Z";
   }
+  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
   std::tm tm;
 
   return fmt::format("{:%FT%TZ}", *gmtime_r(&from1970, &tm));
-- 
2.43.0


From c5acf8b82054d1610816af89fd43845fa3afd6ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 05/20] fix: SimpleReader rejects a box whose contents claim to
 be longer than the box

---
 src/reader/reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 55d4433..bbc028a 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -69,6 +69,10 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
 
   const auto rbits = box->readData(ss);
   std::uint64_t rbytes = rbits / 8;
+  if (rbytes > header->getDataSize()) {
+    throw std::runtime_error(fmt::format("corrupt file? box declares more contents({}) than its data size({})", rbytes,
+                                         header->getDataSize()));
+  }
   m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));
   if (!m_is.good()) {
     throw std::runtime_error(
-- 
2.43.0


From d193e8ac7e2f433bf9cc3a9089903a26eac5e41f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 06/20] fix: Meta::readData() leaves the first child of a
 QuickTime style meta box unread

---
 src/box/meta.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/box/meta.cpp b/src/box/meta.cpp
index 5c91881..a891bb1 100644
--- a/src/box/meta.cpp
+++ b/src/box/meta.cpp
@@ -34,6 +34,8 @@ std::uint64_t Meta::readData(std::istream& is) {
   if ((m_version | m_flags[0] | m_flags[1] | m_flags[2]) != 0) {
     m_version = 0;
     m_flags = {0, 0, 0};
+    // QuickTime: meta has no version and flags, its children start here
+    return 0;
   }
 
   return rbits;
-- 
2.43.0


From 2c0b9850c23ab43c0b7569b5cf7351e74e27fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 07/20] fix: Stsz keeps the sample count when all samples have
 the same size

---
 include/shiguredo/mp4/box/stsz.hpp |  1 +
 src/box/stsz.cpp                   | 14 ++++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/shiguredo/mp4/box/stsz.hpp b/include/shiguredo/mp4/box/stsz.hpp
index f59290d..41f3d0c 100644
--- a/include/shiguredo/mp4/box/stsz.hpp
+++ b/include/shiguredo/mp4/box/stsz.hpp
@@ -32,6 +32,7 @@ class Stsz : public FullBox {
 
  private:
   std::uint32_t m_sample_size;
+  std::uint32_t m_sample_count = 0;
   std::vector<std::uint32_t> m_entry_sizes;
 };
 
diff --git a/src/box/stsz.cpp b/src/box/stsz.cpp
index c9281c7..b101577 100644
--- a/src/box/stsz.cpp
+++ b/src/box/stsz.cpp
@@ -24,7 +24,10 @@ Stsz::Stsz() {
   m_type = box_type_stsz();
 }
 
-Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_entry_sizes(params.entry_sizes) {
+Stsz::Stsz(const StszParameters& params)
+    : m_sample_size(params.sample_size),
+      m_sample_count(static_cast<std::uint32_t>(std::size(params.entry_sizes))),
+      m_entry_sizes(params.entry_sizes) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_stsz();
@@ -32,14 +35,14 @@ Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_
 
 std::string Stsz::toStringOnlyData() const {
   return fmt::format("{} SampleSize={} SampleCount={} EntrySizes=[{}]", getVersionAndFlagsString(), m_sample_size,
-                     std::size(m_entry_sizes), fmt::join(m_entry_sizes, ", "));
+                     m_sample_count, fmt::join(m_entry_sizes, ", "));
 }
 
 std::uint64_t Stsz::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_size);
-  wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entry_sizes)));
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   if (m_sample_size == 0) {
     wbits += bitio::write_vector_uint<std::uint32_t>(&writer, m_entry_sizes);
   }
@@ -54,10 +57,9 @@ std::uint64_t Stsz::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_size);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   if (m_sample_size == 0) {
-    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, sample_count, &m_entry_sizes);
+    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, m_sample_count, &m_entry_sizes);
   } else {
     m_entry_sizes.clear();
   }
-- 
2.43.0


From b2049ada07cb854faa18d3b51569184d747df816 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 08/20] fix: AudioSampleEntry read from a wave box is written
 back as it was read

---
 include/shiguredo/mp4/box/sample_entry.hpp | 1 +
 src/box/sample_entry.cpp                   | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/shiguredo/mp4/box/sample_entry.hpp b/include/shiguredo/mp4/box/sample_entry.hpp
index 2a7a91a..ca3104c 100644
--- a/include/shiguredo/mp4/box/sample_entry.hpp
+++ b/include/shiguredo/mp4/box/sample_entry.hpp
@@ -109,6 +109,7 @@ class AudioSampleEntry : public SampleEntry {
   bool m_is_quick_time_compatible;
   std::vector<std::uint8_t> m_quick_time_data;
   bool m_under_wave;
+  bool m_has_only_quick_time_data = false;
 
   void checkLengthOfQuickTimeData(std::uint64_t size) const;
   std::uint64_t getLengthOfQuickTimeData(std::uint64_t size) const;
diff --git a/src/box/sample_entry.cpp b/src/box/sample_entry.cpp
index 8e67cfc..c3b031c 100644
--- a/src/box/sample_entry.cpp
+++ b/src/box/sample_entry.cpp
@@ -149,6 +149,9 @@ std::string AudioSampleEntry::toStringOnlyData() const {
 
 std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
+  if (m_has_only_quick_time_data) {
+    return bitio::write_vector_uint<std::uint8_t>(&writer, m_quick_time_data);
+  }
   std::uint64_t wbits = writeReservedAndDataReferenceIndex(&writer);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_entry_version);
   for (const auto r : m_reserved2) {
@@ -166,6 +169,9 @@ std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
 }
 
 std::uint64_t AudioSampleEntry::getDataSize() const {
+  if (m_has_only_quick_time_data) {
+    return std::size(m_quick_time_data);
+  }
   std::uint64_t size = 8 + 8 + 8 + 4;
   if (!m_is_quick_time_compatible) {
     return size;
@@ -175,6 +181,7 @@ std::uint64_t AudioSampleEntry::getDataSize() const {
 
 std::uint64_t AudioSampleEntry::readData(std::istream& is) {
   bitio::Reader reader(is);
+  m_has_only_quick_time_data = m_under_wave;
   if (m_under_wave) {
     const std::uint64_t offset_to_end =
         static_cast<std::uint64_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is));
-- 
2.43.0


From 4ab2b7822a11a6243cdc7e8db68f95bb601fdcbc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 09/20] fix: report errors on writing headers and media data

---
 src/box_header.cpp              | 5 ++++-
 src/writer/faststart_writer.cpp | 6 +++++-
 src/writer/simple_writer.cpp    | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 5cc2e9e..f3932fc 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -105,7 +105,10 @@ std::uint64_t BoxHeader::write(std::ostream& os) {
   data[6] = type_data[2];
   data[7] = type_data[3];
 
-  std::copy(std::begin(data), std::end(data), std::ostreambuf_iterator<char>(os));
+  os.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(std::size(data)));
+  if (!os.good()) {
+    throw std::runtime_error(fmt::format("BoxHeader::write() ostream::write() failed: rdstate={}", os.rdstate()));
+  }
   m_size += std::size(data) - m_header_size;
   m_header_size = std::size(data);
   return m_size;
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index c109a70..508ef12 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,7 +150,11 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
-    std::copy_n(buffer, size, std::ostreambuf_iterator<char>(m_os));
+    if (std::ferror(m_mdat_fd)) {
+      throw std::runtime_error(
+          fmt::format("FaststartWriter::copyMdatData(): cannot read the intermediate file: {}", m_mdat_path.string()));
+    }
+    m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index e15648d..27b7efb 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -92,7 +92,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
 }
 
 void SimpleWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
-  std::copy_n(data, data_size, std::ostreambuf_iterator<char>(m_os));
+  m_os.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(data_size));
   if (!m_os.good()) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::addMdatData(): ostream::write() failed: rdstate={}", m_os.rdstate()));
-- 
2.43.0


From 39d9290ff50a3c88de4ea22b76ab20f9918cab08 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 10/20] fix: H264Track splits off short NAL units at the end of
 the data and NAL units with header 0

---
 src/track/h264.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 0a3efac..ba1b8f0 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -161,11 +161,12 @@ std::ostream& operator<<(std::ostream& os, const NalUnit& nu) {
 NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size, const std::size_t start) {
   // start から NalUnit が始まっていることを期待する
   auto index = start;
-  std::size_t start_code_size;
+  std::size_t start_code_size = 0;
   std::uint8_t header = 0;
-  while (index + 5 < data_size) {
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 & data[index + 3] == 1) {
-      if (header == 0) {
+  while (index + 3 < data_size) {
+    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
+        data[index + 3] == 1) {
+      if (start_code_size == 0) {
         start_code_size = 4;
         header = data[index + 4];
       } else {
@@ -175,7 +176,7 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       continue;
     }
     if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
-      if (header == 0) {
+      if (start_code_size == 0) {
         start_code_size = 3;
         header = data[index + 3];
       } else {
@@ -184,12 +185,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       index += 3;
       continue;
     }
-    if (index == start && header == 0) {
+    if (index == start && start_code_size == 0) {
       throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
     }
     ++index;
   }
-  if (header == 0) {
+  if (start_code_size == 0) {
     throw std::runtime_error("nalunit not found");
   }
   return NalUnit{start_code_size, start, data_size, header};
-- 
2.43.0


From b824833e655d6e8f87c20b523194a449067ef208 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 11/20] fix: a count in a corrupt file no longer makes the
 reader allocate memory for entries that are not there

---
 include/shiguredo/mp4/bitio/bitio.hpp |  6 ++++--
 src/box/ctts.cpp                      |  4 ++--
 src/box/elst.cpp                      |  4 ++--
 src/box/pssh.cpp                      |  4 ++--
 src/box/sbgp.cpp                      |  4 ++--
 src/box/sgpd.cpp                      | 20 ++++++++++----------
 src/box/stsc.cpp                      |  4 ++--
 src/box/stts.cpp                      |  4 ++--
 src/box/tfra.cpp                      |  4 ++--
 src/box/trun.cpp                      |  4 ++--
 10 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index ff7e1ec..4e1c83c 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -129,9 +129,11 @@ std::uint64_t write_vector_uint(Writer* writer, const std::vector<T>& v) {
 template <typename T>
 std::uint64_t read_vector_uint(Reader* reader, const std::size_t size, std::vector<T>* v) {
   std::uint64_t rbits = 0;
-  v->resize(size);
+  v->clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += read_uint<T>(reader, &((*v)[i]));
+    T val;
+    rbits += read_uint<T>(reader, &val);
+    v->push_back(val);
   }
   return rbits;
 }
diff --git a/src/box/ctts.cpp b/src/box/ctts.cpp
index ec1dae0..a5cba9a 100644
--- a/src/box/ctts.cpp
+++ b/src/box/ctts.cpp
@@ -76,9 +76,9 @@ std::uint64_t Ctts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/elst.cpp b/src/box/elst.cpp
index d0aa4fc..978041e 100644
--- a/src/box/elst.cpp
+++ b/src/box/elst.cpp
@@ -88,11 +88,11 @@ std::uint64_t Elst::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
     ElstEntry entry;
     rbits += entry.readData(&reader, m_version);
-    m_entries[i] = entry;
+    m_entries.push_back(entry);
   }
   return rbits;
 }
diff --git a/src/box/pssh.cpp b/src/box/pssh.cpp
index 28cc2c6..006df29 100644
--- a/src/box/pssh.cpp
+++ b/src/box/pssh.cpp
@@ -93,11 +93,11 @@ std::uint64_t Pssh::readData(std::istream& is) {
   if (m_version != 0) {
     std::uint32_t kid_count;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &kid_count);
-    m_kids.resize(static_cast<std::size_t>(kid_count));
+    m_kids.clear();
     for (std::uint32_t i = 0; i < kid_count; ++i) {
       PsshKID kid;
       rbits += kid.readData(&reader);
-      m_kids[i] = kid;
+      m_kids.push_back(kid);
     }
   }
 
diff --git a/src/box/sbgp.cpp b/src/box/sbgp.cpp
index c25300b..dfade29 100644
--- a/src/box/sbgp.cpp
+++ b/src/box/sbgp.cpp
@@ -87,9 +87,9 @@ std::uint64_t Sbgp::readData(std::istream& is) {
 
   std::uint32_t size;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-  m_entries.resize(size);
+  m_entries.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
 
   return rbits;
diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index 28bbadb..f225d29 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -174,36 +174,36 @@ std::uint64_t Sgpd::readData(std::istream& is) {
   if (m_grouping_type == GroupingTypeRoll || m_grouping_type == GroupingTypeProl) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_roll_distances.resize(size);
+    m_roll_distances.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_roll_distances[i].readData(&reader, no_default_length);
+      rbits += m_roll_distances.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeAlst) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_alternative_startup_entries.resize(size);
+    m_alternative_startup_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_alternative_startup_entries[i].readData(&reader, m_default_length, no_default_length);
+      rbits += m_alternative_startup_entries.emplace_back().readData(&reader, m_default_length, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeRap) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_visual_random_access_entries.resize(size);
+    m_visual_random_access_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_visual_random_access_entries[i].readData(&reader, no_default_length);
+      rbits += m_visual_random_access_entries.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeTele) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_temporal_level_entries.resize(size);
+    m_temporal_level_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_temporal_level_entries[i].readData(&reader, no_default_length);
+      rbits += m_temporal_level_entries.emplace_back().readData(&reader, no_default_length);
     }
     return rbits;
   }
@@ -329,9 +329,9 @@ std::uint64_t AlternativeStartupEntry::readData(bitio::Reader* reader,
         fmt::format("AlternativeStartupEntry::readData(): invalid offset of AlternativeStartupEntry: {}", offset));
   }
   size = static_cast<std::size_t>(offset / 32);
-  m_opts.resize(size);
+  m_opts.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_opts[i].readData(reader);
+    rbits += m_opts.emplace_back().readData(reader);
   }
   return rbits;
 }
diff --git a/src/box/stsc.cpp b/src/box/stsc.cpp
index 694a978..421723e 100644
--- a/src/box/stsc.cpp
+++ b/src/box/stsc.cpp
@@ -60,9 +60,9 @@ std::uint64_t Stsc::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/stts.cpp b/src/box/stts.cpp
index a5c3dea..c105104 100644
--- a/src/box/stts.cpp
+++ b/src/box/stts.cpp
@@ -60,9 +60,9 @@ std::uint64_t Stts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    rbits += m_entries.emplace_back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/tfra.cpp b/src/box/tfra.cpp
index f890935..4c70f9d 100644
--- a/src/box/tfra.cpp
+++ b/src/box/tfra.cpp
@@ -83,9 +83,9 @@ std::uint64_t Tfra::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_length_size_of_sample_num, 2);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader, m_version, m_length_size_of_traf_num, m_length_size_of_trun_num,
+    rbits += m_entries.emplace_back().readData(&reader, m_version, m_length_size_of_traf_num, m_length_size_of_trun_num,
                                    m_length_size_of_sample_num);
   }
   return rbits;
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index dcd0896..fbf853d 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -92,9 +92,9 @@ std::uint64_t Trun::readData(std::istream& is) {
   if (flags & 0x4) {
     rbits += bitio::read_uint<std::uint32_t>(&reader, &m_first_sample_flags);
   }
-  m_entries.resize(sample_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < sample_count; ++i) {
-    rbits += m_entries[i].readData(&reader, flags);
+    rbits += m_entries.emplace_back().readData(&reader, flags);
   }
   return rbits;
 }
-- 
2.43.0


From e2786a9d3fd261f98037cdf92fcf78e54b8aae45 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 12/20] fix: VPCodecConfiguration::readData() drops old
 initialization data when reading version 0

---
 src/box/vpc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index dae7534..03b357b 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -70,6 +70,7 @@ std::uint64_t VPCodecConfiguration::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_transfer_characteristics);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_matrix_coefficients);
   if (m_version == 0) {
+    m_codec_initialization_data.clear();
     return rbits;
   }
   std::uint16_t size;
-- 
2.43.0


From 2b7d77b86a005f63eb4e7b3b4583a87ddf0f4118 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 13/20] fix: durations, times and media times beyond 32 bits
 are no longer cut off

---
 include/shiguredo/mp4/time/time.hpp |  2 ++
 src/time/time.cpp                   |  5 +++++
 src/track/soun.cpp                  |  4 +++-
 src/track/track.cpp                 | 10 ++++++++--
 src/track/vide.cpp                  |  2 ++
 src/writer/faststart_writer.cpp     |  3 ++-
 src/writer/simple_writer.cpp        |  3 ++-
 7 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/time/time.hpp b/include/shiguredo/mp4/time/time.hpp
index 4d27a70..bfefb2f 100644
--- a/include/shiguredo/mp4/time/time.hpp
+++ b/include/shiguredo/mp4/time/time.hpp
@@ -9,5 +9,7 @@ const std::uint64_t SECONDS_19040101_to_19700101 = 2082844800;  // 24107 * 86400
 
 std::string format_epoch_19040101(const std::uint64_t t);
 std::uint64_t convert_to_epoch_19040101(const std::uint64_t t);
+// 時刻と長さを格納する box の version. 32 bit に収まらない場合は 1 になる
+std::uint8_t select_version(const std::uint64_t t, const std::uint64_t duration);
 
 }  // namespace shiguredo::mp4::time
diff --git a/src/time/time.cpp b/src/time/time.cpp
index 854ef48..59efcb8 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -24,4 +24,9 @@ std::uint64_t convert_to_epoch_19040101(const std::uint64_t t) {
   return t + SECONDS_19040101_to_19700101;
 }
 
+std::uint8_t select_version(const std::uint64_t t, const std::uint64_t duration) {
+  const std::uint64_t max = std::numeric_limits<std::uint32_t>::max();
+  return t > max || duration > max ? 1 : 0;
+}
+
 }  // namespace shiguredo::mp4::time
diff --git a/src/track/soun.cpp b/src/track/soun.cpp
index a7b21c6..08911c7 100644
--- a/src/track/soun.cpp
+++ b/src/track/soun.cpp
@@ -2,6 +2,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 
 namespace shiguredo::mp4::track {
 
@@ -11,7 +12,8 @@ SounTrack::SounTrack() {
 
 void SounTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   new BoxInfo({.parent = trak,
-               .box = new box::Tkhd({.flags = 0x000003,
+               .box = new box::Tkhd({.version = time::select_version(m_time_from_epoch, getDurationInMvhdTimescale()),
+                                     .flags = 0x000003,
                                      .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .track_id = m_track_id,
diff --git a/src/track/track.cpp b/src/track/track.cpp
index 9348463..9359a22 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -9,6 +9,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 #include "shiguredo/mp4/writer/writer.hpp"
 
 namespace shiguredo::mp4::track {
@@ -172,8 +173,12 @@ BoxInfo* Track::makeEdtsBoxInfo(BoxInfo* trak) {
 }
 
 void Track::makeElstBoxInfo(BoxInfo* edts) {
+  const bool is_large = getDurationInMvhdTimescale() > std::numeric_limits<std::uint32_t>::max() ||
+                        m_media_time > std::numeric_limits<std::int32_t>::max() ||
+                        m_media_time < std::numeric_limits<std::int32_t>::min();
   new BoxInfo({.parent = edts,
-               .box = new box::Elst({.entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
+               .box = new box::Elst({.version = static_cast<std::uint8_t>(is_large ? 1 : 0),
+                                     .entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
                                                                  .media_time = m_media_time})}})});
 }
 
@@ -183,7 +188,8 @@ BoxInfo* Track::makeMdiaBoxInfo(BoxInfo* trak) {
 
 void Track::makeMdhdBoxInfo(BoxInfo* mdia) {
   new BoxInfo({.parent = mdia,
-               .box = new box::Mdhd({.creation_time = m_time_from_epoch,
+               .box = new box::Mdhd({.version = time::select_version(m_time_from_epoch, getDurationInTimescale()),
+                                     .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .timescale = m_timescale,
                                      .duration = getDurationInTimescale()})});
diff --git a/src/track/vide.cpp b/src/track/vide.cpp
index 4f46495..8b95875 100644
--- a/src/track/vide.cpp
+++ b/src/track/vide.cpp
@@ -2,6 +2,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 
 namespace shiguredo::mp4::track {
 
@@ -12,6 +13,7 @@ VideTrack::VideTrack() {
 void VideTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({
+                   .version = time::select_version(m_time_from_epoch, getDurationInMvhdTimescale()),
                    .flags = 0x000003,
                    .creation_time = m_time_from_epoch,
                    .modification_time = m_time_from_epoch,
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 508ef12..7788ab6 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -54,7 +54,8 @@ void FaststartWriter::recreateMoovBoxInfo() {
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  m_mvhd_box = new box::Mvhd({.version = time::select_version(m_time_from_epoch, mvhd_duration),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 27b7efb..dd233c3 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -31,7 +31,8 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
   const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  m_mvhd_box = new box::Mvhd({.version = time::select_version(m_time_from_epoch, mvhd_duration),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
-- 
2.43.0


From 13cde4014f33422bf82929feeb062bc360f06e58 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 14/20] fix: SimpleWriter::tellCurrentMdatOffset() reports an
 output stream that cannot tell its position

---
 src/writer/simple_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index dd233c3..7fdf455 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -108,7 +108,7 @@ void SimpleWriter::setOffsetAndSize() {
 
 std::uint64_t SimpleWriter::tellCurrentMdatOffset() {
   const auto offset = m_os.tellp();
-  if (!m_os.good()) {
+  if (!m_os.good() || offset == std::ostream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::tellCurrentMdatOffset(): ostream::tellp() failed: rdstate={}", m_os.rdstate()));
   }
-- 
2.43.0


From 2248e9f9f9c084f950e974df663cc9d00ce4947c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 15/20] fix: FaststartWriter::copyMdatData() reports an
 intermediate file that is too short

---
 src/writer/faststart_writer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 7788ab6..59fe754 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -148,6 +148,7 @@ void FaststartWriter::copyMdatData() {
     throw std::runtime_error("fseek failed");
   }
 
+  std::uint64_t copied_size = 0;
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
@@ -160,6 +161,12 @@ void FaststartWriter::copyMdatData() {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
     }
+    copied_size += static_cast<std::uint64_t>(size);
+  }
+  if (copied_size != m_mdat_data_size) {
+    throw std::runtime_error(
+        fmt::format("FaststartWriter::copyMdatData(): the intermediate file is incomplete: {} copied={} expected={}",
+                    m_mdat_path.string(), copied_size, m_mdat_data_size));
   }
 
   if (auto ret = std::fclose(m_mdat_fd); ret == EOF) {
-- 
2.43.0


From 50fd0c69ea14886a9bb7718a31525094ccf7ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:28:15 +0000
Subject: [PATCH 16/20] fix: a stream that ends early while a file is read is
 an error

read_box_header() and SimpleReader::readBox() copied bytes with
istreambuf_iterator, which is undefined past the end of the data: a stream
that stops delivering data before its end crashed the reader or was read as
0xff bytes. Read through the stream and look at its state.
---
 src/box_header.cpp    | 11 ++++++++---
 src/reader/reader.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index f3932fc..ee4aa80 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -38,7 +38,10 @@ BoxHeader* read_box_header(std::istream& is) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   std::array<std::uint8_t, 8> buf;
-  std::copy_n(std::istreambuf_iterator<char>(is), 8, std::begin(buf));
+  is.read(reinterpret_cast<char*>(buf.data()), Constants::SMALL_HEADER_SIZE);
+  if (!is.good()) {
+    throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+  }
   std::uint64_t header_size = Constants::SMALL_HEADER_SIZE;
   std::uint64_t size = endian::be_to_uint32(buf[0], buf[1], buf[2], buf[3]);
   BoxType type;
@@ -57,8 +60,10 @@ BoxHeader* read_box_header(std::istream& is) {
     if (!is.good()) {
       throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
     }
-    std::copy_n(std::istreambuf_iterator<char>(is), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE,
-                std::begin(buf));
+    is.read(reinterpret_cast<char*>(buf.data()), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE);
+    if (!is.good()) {
+      throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+    }
     header_size = Constants::LARGE_HEADER_SIZE;
     size = endian::be_to_uint64(buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]);
   }
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index bbc028a..01a8486 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -7,10 +7,10 @@
 #include <cstdint>
 #include <iostream>
 #include <istream>
-#include <iterator>
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 #include "shiguredo/mp4/box.hpp"
 #include "shiguredo/mp4/box_header.hpp"
@@ -54,7 +54,13 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
     throw std::runtime_error(fmt::format("corrupt file? box data size({}) is greater than remaining_size({})",
                                          header->getDataSize(), remaining_size));
   }
-  std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
+  std::string data(header->getDataSize(), '\0');
+  m_is.read(data.data(), static_cast<std::streamsize>(std::size(data)));
+  if (!m_is.good()) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::readBox(): istream::read() failed: rdstate={}", m_is.rdstate()));
+  }
+  ss.str(std::move(data));
 
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
 
-- 
2.43.0


From c600b8a41718f33a9847817220087f87b74ca227 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 17/20] fix: get_istream_offset_to_end() notices that tellg()
 failed

tellg() reports a failed positioning by its value and leaves the state of the
stream alone; with the end unknown optional fields of a box were taken as
absent.
---
 src/stream/stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/stream.cpp b/src/stream/stream.cpp
index e99ca18..3563d0f 100644
--- a/src/stream/stream.cpp
+++ b/src/stream/stream.cpp
@@ -2,13 +2,14 @@
 
 #include <fmt/core.h>
 
+#include <istream>
 #include <stdexcept>
 
 namespace shiguredo::mp4::stream {
 
 std::streamoff get_istream_offset_to_end(std::istream& is) {
   const auto offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
@@ -18,7 +19,7 @@ std::streamoff get_istream_offset_to_end(std::istream& is) {
         fmt::format("stream::get_istream_offset_to_end(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   const auto end_offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || end_offset == std::istream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
-- 
2.43.0


From c163dc24b7fbb80fb20c353d072774972aba962d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 18/20] fix: H264Track stores repeated parameter sets once and
 refuses what an avcC box cannot hold

---
 include/shiguredo/mp4/box/avc.hpp |  1 +
 src/track/h264.cpp                | 23 +++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/avc.hpp b/include/shiguredo/mp4/box/avc.hpp
index adeead5..9bfd5ca 100644
--- a/include/shiguredo/mp4/box/avc.hpp
+++ b/include/shiguredo/mp4/box/avc.hpp
@@ -52,6 +52,7 @@ class AVCParameterSet {
   std::uint64_t writeData(bitio::Writer*) const;
   std::uint64_t getSize() const;
   std::uint64_t readData(bitio::Reader*);
+  bool operator==(const AVCParameterSet&) const = default;
 
  private:
   std::vector<std::uint8_t> m_nal_unit;
diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index ba1b8f0..6f3a40c 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -4,6 +4,8 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <iterator>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 
@@ -196,12 +198,29 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
   return NalUnit{start_code_size, start, data_size, header};
 }
 
+// エンコーダーはキーフレームごとに同じ SPS, PPS を出力することがあるので, 重複は登録しない
+// avcC に収まらないものを登録すると読めないファイルになるので, エラーにする
+static void append_parameter_set(std::vector<box::AVCParameterSet>* sets,
+                                 const box::AVCParameterSet& params,
+                                 const std::size_t max_count) {
+  if (std::find(std::begin(*sets), std::end(*sets), params) != std::end(*sets)) {
+    return;
+  }
+  if (params.getSize() - 2 > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("parameter set is too large: size={}", params.getSize() - 2));
+  }
+  if (std::size(*sets) >= max_count) {
+    throw std::runtime_error(fmt::format("too many parameter sets: max_count={}", max_count));
+  }
+  sets->emplace_back(params);
+}
+
 void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_sequence_parameter_sets.emplace_back(params);
+  append_parameter_set(&m_sequence_parameter_sets, params, 31);
 }
 
 void H264Track::appendPictureParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_picture_parameter_sets.emplace_back(params);
+  append_parameter_set(&m_picture_parameter_sets, params, 255);
 }
 
 }  // namespace shiguredo::mp4::track
-- 
2.43.0


From da358841a513962c38f05369286967390e5bfc42 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:29:13 +0000
Subject: [PATCH 19/20] fix: boxes refuse lists their count fields cannot
 express (avcC, vpcC, sidx)

---
 src/box/avc.cpp  | 13 +++++++++++++
 src/box/sidx.cpp |  5 +++++
 src/box/vpc.cpp  |  7 +++++++
 3 files changed, 25 insertions(+)

diff --git a/src/box/avc.cpp b/src/box/avc.cpp
index 5f2e4ca..756dce4 100644
--- a/src/box/avc.cpp
+++ b/src/box/avc.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <stdexcept>
@@ -52,6 +53,10 @@ std::string AVCParameterSet::toString() const {
 }
 
 std::uint64_t AVCParameterSet::writeData(bitio::Writer* writer) const {
+  if (std::size(m_nal_unit) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(
+        fmt::format("AVCParameterSet::writeData(): nal_unit is too long: {}", std::size(m_nal_unit)));
+  }
   auto wbits = bitio::write_uint<std::uint16_t>(writer, static_cast<std::uint16_t>(std::size(m_nal_unit)));
   wbits += bitio::write_vector_uint<std::uint8_t>(writer, m_nal_unit);
   return wbits;
@@ -126,6 +131,14 @@ std::string AVCDecoderConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t AVCDecoderConfiguration::writeData(std::ostream& os) const {
+  // 個数のフィールドは順に 5, 8, 8 ビット
+  if (std::size(m_sequence_parameter_sets) > 31 || std::size(m_picture_parameter_sets) > 255 ||
+      std::size(m_sequence_parameter_sets_ext) > 255) {
+    throw std::runtime_error(fmt::format(
+        "AVCDecoderConfiguration::writeData(): too many parameter sets: sps={} pps={} sps_ext={}",
+        std::size(m_sequence_parameter_sets), std::size(m_picture_parameter_sets),
+        std::size(m_sequence_parameter_sets_ext)));
+  }
   bitio::Writer writer(os);
   auto wbits = bitio::write_uint<std::uint8_t>(&writer, m_configuration_version);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index d9f9f39..f567389 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -7,8 +7,10 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -50,6 +52,9 @@ std::string Sidx::toStringOnlyData() const {
 }
 
 std::uint64_t Sidx::writeData(std::ostream& os) const {
+  if (std::size(m_references) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("Sidx::writeData(): too many references: {}", std::size(m_references)));
+  }
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_reference_id);
diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index 03b357b..d1d1883 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -5,7 +5,9 @@
 
 #include <cstdint>
 #include <istream>
+#include <limits>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -33,6 +35,11 @@ std::string VPCodecConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t VPCodecConfiguration::writeData(std::ostream& os) const {
+  if (m_version != 0 && std::size(m_codec_initialization_data) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(
+        fmt::format("VPCodecConfiguration::writeData(): codec_initialization_data is too long: {}",
+                    std::size(m_codec_initialization_data)));
+  }
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
-- 
2.43.0


From e89beabe00b16ba3f5f9fd4b151e31c1bb227906 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:29:13 +0000
Subject: [PATCH 20/20] fix: a file of deeply nested boxes crashed the reader
 or kept it busy for minutes

---
 src/reader/reader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 01a8486..d4f04a7 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -20,6 +20,9 @@
 
 namespace shiguredo::mp4::reader {
 
+// far beyond what files need; every level takes stack, and memory for what is left of its parent
+constexpr std::size_t MAX_NESTING_DEPTH = 128;
+
 SimpleReader::SimpleReader(std::istream& t_is) : m_is(t_is) {
   register_box_map(&m_box_map);
   m_is.seekg(0, std::ios_base::end);
@@ -45,6 +48,10 @@ void SimpleReader::read() {
 }
 
 std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
+  if (parent != nullptr && std::size(parent->getPath()) >= MAX_NESTING_DEPTH) {
+    throw std::runtime_error(
+        fmt::format("corrupt file? boxes are nested more than {} levels deep", MAX_NESTING_DEPTH));
+  }
   BoxHeader* header = read_box_header(m_is);
   header->seekToData(m_is);
   std::stringstream ss;
-- 
2.43.0

