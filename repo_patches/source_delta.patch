From fe6e4ff92ded8e2166e988c1d471eb4a979352fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 01/22] hooks: settable limits and sink access under
 cfg(tsfile_verif)

---
 tsfile-writer/src/sync/sync_sender.rs     | 22 ++++++++++
 tsfile-writer/src/writer/chunk_writer.rs  | 14 ++++---
 tsfile-writer/src/writer/mod.rs           | 13 ++++++
 tsfile-writer/src/writer/tsfile_writer.rs |  8 ++--
 tsfile-writer/src/writer/verif.rs         | 49 +++++++++++++++++++++++
 5 files changed, 97 insertions(+), 9 deletions(-)
 create mode 100644 tsfile-writer/src/writer/verif.rs

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 8224cda..fe63749 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -240,6 +240,28 @@ impl
     }
 }
 
+/// Hooks for verification builds (`--cfg tsfile_verif`)
+#[cfg(tsfile_verif)]
+impl
+    SyncSender<
+        TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>,
+        TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,
+    >
+{
+    pub fn verif_sync(
+        &mut self,
+        filename: &str,
+        storage_group: &str,
+        schema: Schema,
+    ) -> Result<(), SyncSenderError> {
+        self.sync(filename, storage_group, schema)
+    }
+
+    pub fn verif_mlog(storage_group: &str, schema: Schema) -> Result<Vec<u8>, TsFileError> {
+        Self::write_mlog(storage_group, schema)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::sync::sync_sender::SyncSender;
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 32decf5..77868ed 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -113,7 +113,10 @@ impl ChunkWriter {
             page_buffer: vec![],
             num_pages: 0,
             first_page_statistics: None,
-            value_count_in_one_page_for_next_check: VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK,
+            value_count_in_one_page_for_next_check: limit!(
+                first_page_check,
+                VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK
+            ),
             size_without_statistics: 0,
         }
     }
@@ -306,12 +309,12 @@ impl ChunkWriter {
             return;
         }
         let page_writer = self.current_page_writer.as_mut().unwrap();
-        if page_writer.point_number > MAX_NUMBER_OF_POINTS_IN_PAGE {
+        if page_writer.point_number > limit!(max_points_in_page, MAX_NUMBER_OF_POINTS_IN_PAGE) {
             self.write_page_to_buffer();
         } else if page_writer.point_number >= self.value_count_in_one_page_for_next_check {
             let current_page_size = page_writer.estimate_max_mem_size();
 
-            if current_page_size > PAGE_SIZE_THRESHOLD {
+            if current_page_size > limit!(page_size, PAGE_SIZE_THRESHOLD) {
                 log::trace!(
             "enough size, write page {}, pageSizeThreshold:{}, currentPateSize:{}, valueCountInOnePage:{}",
             self.measurement_id.clone(),
@@ -319,12 +322,13 @@ impl ChunkWriter {
             current_page_size,
             page_writer.point_number);
                 self.write_page_to_buffer();
-                self.value_count_in_one_page_for_next_check = MINIMUM_RECORD_COUNT_FOR_CHECK;
+                self.value_count_in_one_page_for_next_check =
+                    limit!(min_page_check, MINIMUM_RECORD_COUNT_FOR_CHECK);
             } else {
                 // valueCountInOnePageForNextCheck =
                 //     (int) (((float) pageSizeThreshold / currentPageSize) * pageWriter.getPointNumber());
                 self.value_count_in_one_page_for_next_check =
-                    ((PAGE_SIZE_THRESHOLD as f32) / (current_page_size as f32)
+                    ((limit!(page_size, PAGE_SIZE_THRESHOLD) as f32) / (current_page_size as f32)
                         * (page_writer.point_number as f32)) as u32;
             }
         }
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index d047714..e7c65b7 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -91,6 +91,17 @@ use std::hash::Hash;
 use std::io::Write;
 use std::{io, vec};
 
+/// A limit: the given constant, unless a verification build (`--cfg tsfile_verif`) overrides it.
+macro_rules! limit {
+    ($name:ident, $default:expr) => {{
+        #[cfg(tsfile_verif)]
+        let limit = crate::writer::verif::limits().$name.unwrap_or($default);
+        #[cfg(not(tsfile_verif))]
+        let limit = $default;
+        limit
+    }};
+}
+
 mod chunk_writer;
 pub mod compression;
 pub mod encoding;
@@ -105,6 +116,8 @@ pub mod ts_file_config;
 mod tsfile_io_writer;
 pub mod tsfile_writer;
 mod utils;
+#[cfg(tsfile_verif)]
+pub mod verif;
 
 use crate::writer::chunk_writer::ChunkMetadata;
 use crate::writer::compression::CompressionType;
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index dc2a561..7e4f8e0 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -177,9 +177,9 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 mem_size,
                 CHUNK_GROUP_SIZE_THRESHOLD_BYTE
             );
-            if mem_size > CHUNK_GROUP_SIZE_THRESHOLD_BYTE {
+            if mem_size > limit!(group_size, CHUNK_GROUP_SIZE_THRESHOLD_BYTE) {
                 self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
-                    * CHUNK_GROUP_SIZE_THRESHOLD_BYTE as u64
+                    * limit!(group_size, CHUNK_GROUP_SIZE_THRESHOLD_BYTE) as u64
                     / mem_size as u64)
                     as u32;
                 return self.flush_all_chunk_groups();
@@ -187,7 +187,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 // println!("Record Count: {}, CHUNK_GROUP_SIZE_THRESHOLD_BYTE: {}, memsize: {}", self.record_count_for_next_mem_check, CHUNK_GROUP_SIZE_THRESHOLD_BYTE, mem_size);
                 // in the java impl there can be an overflow...
                 self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
-                    * CHUNK_GROUP_SIZE_THRESHOLD_BYTE as u64
+                    * limit!(group_size, CHUNK_GROUP_SIZE_THRESHOLD_BYTE) as u64
                     / mem_size as u64)
                     as u32;
                 log::trace!(
@@ -339,7 +339,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             chunk_group_metadata: vec![],
             timeseries_metadata_map: HashMap::new(),
             record_count: 0,
-            record_count_for_next_mem_check: 100,
+            record_count_for_next_mem_check: limit!(first_mem_check, 100),
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             file_io_writer: io_writer,
diff --git a/tsfile-writer/src/writer/verif.rs b/tsfile-writer/src/writer/verif.rs
new file mode 100644
index 0000000..8885ee5
--- /dev/null
+++ b/tsfile-writer/src/writer/verif.rs
@@ -0,0 +1,49 @@
+//! Hooks for verification builds (`--cfg tsfile_verif`): settable limits and a
+//! writer over an arbitrary sink. Not part of any normal build.
+use crate::writer::errors::TsFileError;
+use crate::writer::ts_file_config::TsFileConfig;
+use crate::writer::tsfile_writer::TsFileWriter;
+use crate::writer::{Schema, WriteWrapper};
+use std::cell::Cell;
+use std::io::Write;
+
+/// Overrides for the built-in limits, `None` meaning the built-in one.
+#[derive(Clone, Copy, Default, Debug)]
+pub struct Limits {
+    pub first_page_check: Option<u32>,
+    pub min_page_check: Option<u32>,
+    pub max_points_in_page: Option<u32>,
+    pub page_size: Option<u32>,
+    pub group_size: Option<u32>,
+    pub first_mem_check: Option<u32>,
+}
+
+thread_local! {
+    static LIMITS: Cell<Limits> = Cell::new(Limits::default());
+}
+
+/// Sets the limits of all writers of this thread.
+pub fn set_limits(limits: Limits) {
+    LIMITS.with(|l| l.set(limits));
+}
+
+pub(crate) fn limits() -> Limits {
+    LIMITS.with(|l| l.get())
+}
+
+/// A configuration with the given maximal number of children of an index node.
+pub fn config_with_degree(degree: usize) -> TsFileConfig {
+    TsFileConfig {
+        max_degree_of_index_node: degree,
+        ..Default::default()
+    }
+}
+
+/// A writer over an arbitrary sink.
+pub fn new_writer<T: Write>(
+    schema: Schema<'_>,
+    sink: T,
+    config: TsFileConfig,
+) -> Result<TsFileWriter<'_, WriteWrapper<T>>, TsFileError> {
+    TsFileWriter::new_from_writer(schema, WriteWrapper::new(sink), config)
+}
-- 
2.43.0


From a06532894762161b4faf2f6d2342ec481d4f9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 02/22] fix: bloom filter bits are rounded up to whole bytes

Closing a file panicked for numbers of series whose filter size modulo 8
was less than 4 (for example 44 series).
---
 tsfile-writer/src/writer/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index e7c65b7..da19d92 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -748,11 +748,7 @@ impl BloomFilter {
     }
 
     fn serialize_bits(&self) -> Vec<u8> {
-        let number_of_bytes = if self.bit_set.len() % 8 == 0 {
-            self.bit_set.len() / 8
-        } else {
-            (self.bit_set.len() + (self.bit_set.len() % 8)) / 8
-        };
+        let number_of_bytes = (self.bit_set.len() + 7) / 8;
 
         let mut result = vec![0_u8; number_of_bytes];
 
-- 
2.43.0


From 2f7bda54fc5f46df2017bec53458a4b63b27ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 03/22] fix: murmur hash wraps instead of overflowing

Building the bloom filter panicked in builds with overflow checks for most
paths of 9 or more bytes, and in all builds for a hash of i32::MIN.
---
 tsfile-writer/src/writer/mod.rs       |  2 +-
 tsfile-writer/src/writer/murmur128.rs | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index da19d92..cf8101c 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -682,7 +682,7 @@ impl HashFunction {
 
     fn hash(&self, value: &str) -> usize {
         // return Math.abs(Murmur128Hash.hash(value, seed)) % cap;
-        (self._murmur_hash(value, self.seed).abs() % self.cap) as usize
+        (self._murmur_hash(value, self.seed).unsigned_abs() % self.cap as u32) as usize
     }
 }
 
diff --git a/tsfile-writer/src/writer/murmur128.rs b/tsfile-writer/src/writer/murmur128.rs
index 6b3b217..c9c5016 100644
--- a/tsfile-writer/src/writer/murmur128.rs
+++ b/tsfile-writer/src/writer/murmur128.rs
@@ -57,20 +57,20 @@ impl Murmur128 {
         for i in 0..nblocks {
             let mut k1 = Self::get_block(key, offset, i * 2);
             let mut k2 = Self::get_block(key, offset, i * 2 + 1);
-            k1 *= c1;
+            k1 = k1.wrapping_mul(c1);
             k1 = Self::rotl64(k1, 31);
-            k1 *= c2;
+            k1 = k1.wrapping_mul(c2);
             h1 ^= k1;
             h1 = Self::rotl64(h1, 27);
-            h1 += h2;
-            h1 = h1 * 5 + 0x52dce729;
-            k2 *= c2;
+            h1 = h1.wrapping_add(h2);
+            h1 = h1.wrapping_mul(5).wrapping_add(0x52dce729);
+            k2 = k2.wrapping_mul(c2);
             k2 = Self::rotl64(k2, 33);
-            k2 *= c1;
+            k2 = k2.wrapping_mul(c1);
             h2 ^= k2;
             h2 = Self::rotl64(h2, 31);
-            h2 += h1;
-            h2 = h2 * 5 + 0x38495ab5;
+            h2 = h2.wrapping_add(h1);
+            h2 = h2.wrapping_mul(5).wrapping_add(0x38495ab5);
         }
         // ----------
         // tail
@@ -143,8 +143,8 @@ impl Murmur128 {
         // finalization
         h1 ^= length as i64;
         h2 ^= length as i64;
-        h1 += h2;
-        h2 += h1;
+        h1 = h1.wrapping_add(h2);
+        h2 = h2.wrapping_add(h1);
         h1 = Self::fmix(h1);
         h2 = Self::fmix(h2);
         h1 = ((h1 as i128) + (h2 as i128)) as i64;
-- 
2.43.0


From 5663ec9b90a9215f8fbb8c65b115bab97ddfeba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 04/22] fix: devices in the metadata index are sorted

The entries followed the random order of a HashMap, so that a reader's binary
search could miss devices and two runs gave different files.
---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index cf8101c..e996ee3 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -520,7 +520,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
     ) -> MetadataIndexNode {
-        let mut device_metadata_index_map: HashMap<String, MetadataIndexNode> = HashMap::new();
+        let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
             if list_metadata.is_empty() {
-- 
2.43.0


From ea8447a06a57862acd60a1f35970b8c7794d7edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 05/22] fix: metadata index with more than one level

With more series per device than fit in an index node the leaf nodes were taken
in reverse order and never written, and more devices than fit in a node
panicked. Follows the algorithm of the Java implementation quoted in the
comments.
---
 tsfile-writer/src/writer/mod.rs | 54 ++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index e996ee3..987e26e 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -341,6 +341,7 @@ enum MetadataIndexNodeType {
     LeafMeasurement,
     InternalMeasurement,
     LeafDevice,
+    InternalDevice,
 }
 
 impl Serializable for MetadataIndexNodeType {
@@ -360,6 +361,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::LeafMeasurement => 0x03,
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
+            MetadataIndexNodeType::InternalDevice => 0x00,
         };
         file.write(&[byte]);
 
@@ -474,17 +476,14 @@ impl MetadataIndexNode {
 
         while queue_size != 1 {
             for i in 0..queue_size {
-                metadata_index_node = measurement_metadata_index_queue.last().unwrap().clone();
-                let device = match metadata_index_node.children.get(0) {
-                    None => {
-                        panic!("...")
-                    }
-                    Some(inner) => inner.name.clone(),
-                };
-                measurement_metadata_index_queue.remove(measurement_metadata_index_queue.len() - 1);
+                metadata_index_node = measurement_metadata_index_queue.remove(0);
                 if current_index_metadata.is_full(config) {
-                    current_index_metadata.end_offset = file.get_position() as usize;
-                    measurement_metadata_index_queue.push(current_index_metadata.clone());
+                    Self::add_current_index_node_to_queue(
+                        &mut current_index_metadata,
+                        &mut measurement_metadata_index_queue,
+                        file,
+                    );
+                    current_index_metadata = MetadataIndexNode::new(node_type.clone());
                 }
                 // ...
                 let name = match metadata_index_node.children.get(0) {
@@ -497,6 +496,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position() as usize,
                 });
+                metadata_index_node.serialize(file);
             }
             // ...
             Self::add_current_index_node_to_queue(
@@ -585,7 +585,39 @@ impl MetadataIndexNode {
             return metadata_index_node;
         }
 
-        panic!("This is not yet implemented!");
+        // else, build level index for devices
+        let mut device_metadata_index_queue: Vec<MetadataIndexNode> = vec![];
+        let mut current_index_node = MetadataIndexNode::new(LeafDevice);
+
+        for (s, value) in device_metadata_index_map {
+            // when constructing from internal node, each node is related to an entry
+            if current_index_node.is_full(config) {
+                Self::add_current_index_node_to_queue(
+                    &mut current_index_node,
+                    &mut device_metadata_index_queue,
+                    file,
+                );
+                current_index_node = MetadataIndexNode::new(LeafDevice);
+            }
+            current_index_node.children.push(MetadataIndexEntry {
+                name: s,
+                offset: file.get_position() as usize,
+            });
+            value.serialize(file);
+        }
+        Self::add_current_index_node_to_queue(
+            &mut current_index_node,
+            &mut device_metadata_index_queue,
+            file,
+        );
+        let mut root_node = Self::generate_root_node(
+            device_metadata_index_queue,
+            file,
+            MetadataIndexNodeType::InternalDevice,
+            config,
+        );
+        root_node.end_offset = file.get_position() as usize;
+        root_node
 
         // // if not exceed the max child nodes num, ignore the device index and directly point to the
         // // measurement
-- 
2.43.0


From 0a1108f6293a76c6d04672f0e3ba71d882c5f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 06/22] fix: index nodes survive short writes

They were written with write, which may take only part of the buffer.
---
 tsfile-writer/src/writer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 987e26e..131ddb5 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -363,7 +363,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write(&[byte]);
+        file.write_all(&[byte]);
 
         Ok(())
     }
@@ -384,7 +384,7 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
         write_str(file, self.name.as_str());
-        file.write(&self.offset.to_be_bytes());
+        file.write_all(&self.offset.to_be_bytes());
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -414,7 +414,7 @@ impl Serializable for MetadataIndexNode {
             metadata_index_entry.serialize(file);
         }
 
-        file.write(&self.end_offset.to_be_bytes());
+        file.write_all(&self.end_offset.to_be_bytes());
         self.node_type.serialize(file);
 
         Ok(())
-- 
2.43.0


From acb3310ee43e83f20f481cd6ffa21541e6a9ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 07/22] fix: values and encodings not matching the declared
 type are refused

Writing them panicked.
---
 tsfile-writer/src/writer/chunk_writer.rs | 6 ++++++
 tsfile-writer/src/writer/group_writer.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 77868ed..ec576db 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -285,6 +285,12 @@ impl ChunkWriter {
 
     pub fn write(&mut self, timestamp: i64, mut value: IoTDBValue) -> Result<u32, TsFileError> {
         // self.statistics.update(timestamp, &value);
+        match (self.data_type, &value) {
+            (TSDataType::INT32, IoTDBValue::INT(_))
+            | (TSDataType::INT64, IoTDBValue::LONG(_))
+            | (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
+            _ => return Err(TsFileError::WrongTypeForSeries),
+        }
         match &mut self.current_page_writer {
             None => {
                 // Create a page
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 4c422c3..5bc6107 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -92,7 +92,7 @@ impl<'a> GroupWriter<'a> {
         self.check_is_history_data(measurement_id, timestamp)?;
 
         let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
-            Some(chunk_writer) => chunk_writer.write(timestamp, value).unwrap(),
+            Some(chunk_writer) => chunk_writer.write(timestamp, value)?,
             None => {
                 return Err(TsFileError::IllegalState {
                     source: Some("Unknown measurement id".to_owned()),
-- 
2.43.0


From 23b4c649d2b9f8f2a1be3470b4c88a1c17c9afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 08/22] fix: last times are kept under the schema's measurement
 id

They were kept under the caller's string, which the C interface lets the
caller overwrite after the call, and also for unknown measurements.
---
 tsfile-writer/src/writer/group_writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 5bc6107..5a8ab85 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -88,6 +88,15 @@ impl<'a> GroupWriter<'a> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<u32, TsFileError> {
+        // From here on use the id owned by the schema, the given one may not outlive this call
+        let measurement_id = match self.chunk_writers.get_key_value(measurement_id) {
+            Some((&id, _)) => id,
+            None => {
+                return Err(TsFileError::IllegalState {
+                    source: Some("Unknown measurement id".to_owned()),
+                });
+            }
+        };
         // Check is historic
         self.check_is_history_data(measurement_id, timestamp)?;
 
-- 
2.43.0


From 41c94bc86158b9e2b19298f151b5b50e0279f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 09/22] fix: order of timestamps is enforced across flushes

The last times were forgotten by an automatic flush.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 7e4f8e0..a3fcfd4 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -265,7 +265,12 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                                 )
                             })
                             .collect(),
-                        last_time_map: BTreeMap::new(),
+                        // data that was flushed still counts for the order of timestamps
+                        last_time_map: self
+                            .non_aligned_timeseries_last_time_map
+                            .get(path)
+                            .cloned()
+                            .unwrap_or_default(),
                     },
                 )
             })
-- 
2.43.0


From 7262f9864d879d513d85cb9d44f95c86bade3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 10/22] fix: points before a refused one of a batch are counted

They were accepted but not counted, so that they were lost if nothing else was
written before close.
---
 tsfile-writer/src/writer/group_writer.rs  | 9 ++++++---
 tsfile-writer/src/writer/tsfile_writer.rs | 9 +++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 5a8ab85..a0c8593 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -16,12 +16,15 @@ impl<'a> GroupWriter<'a> {
         &mut self,
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
-    ) -> Result<u32, TsFileError> {
+    ) -> (u32, Result<(), TsFileError>) {
         let mut records = 0;
         for dp in values {
-            records += self.write(dp.measurement_id, timestamp, dp.value)?;
+            match self.write(dp.measurement_id, timestamp, dp.value) {
+                Ok(records_written) => records += records_written,
+                Err(e) => return (records, Err(e)),
+            }
         }
-        Ok(records)
+        (records, Ok(()))
     }
 }
 
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index a3fcfd4..75e2896 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -156,15 +156,16 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
-        match self.group_writers.get_mut(device) {
+        let result = match self.group_writers.get_mut(device) {
             Some(group) => {
-                let records_written = group.write_many(timestamp, values)?;
+                let (records_written, result) = group.write_many(timestamp, values);
                 self.record_count += records_written;
+                result
             }
             None => return Err(TsFileError::IllegalState { source: None }),
-        }
+        };
         self.check_memory_size_and_may_flush_chunks();
-        Ok(())
+        result
     }
 
     fn check_memory_size_and_may_flush_chunks(&mut self) -> Result<bool, TsFileError> {
-- 
2.43.0


From 7581283e4bd43d7f4eca85fe873cc9d2cb770b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 11/22] fix: series are indexed under their own device

The device was taken from the path up to its last dot, which filed measurements
with a dot in their name under another device and merged different series of
the same path.
---
 tsfile-writer/src/writer/tsfile_io_writer.rs | 49 ++++++--------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index aa85257..b336db1 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -141,16 +141,14 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         //     .collect();
 
         // Create metadata list
-        let mut chunk_metadata_map: BTreeMap<Path, Vec<ChunkMetadata>> = BTreeMap::new();
+        let mut chunk_metadata_map: BTreeMap<(String, String), Vec<ChunkMetadata>> =
+            BTreeMap::new();
         for group_metadata in &self.chunk_group_metadata_list {
             for chunk_metadata in &group_metadata.chunk_metadata {
-                let device_path = format!(
-                    "{}.{}",
-                    &group_metadata.device_id, &chunk_metadata.measurement_id
+                let path = (
+                    group_metadata.device_id.clone(),
+                    chunk_metadata.measurement_id.clone(),
                 );
-                let path = Path {
-                    path: device_path.clone(),
-                };
                 if !&chunk_metadata_map.contains_key(&path) {
                     chunk_metadata_map.insert(path.clone(), vec![]);
                 }
@@ -177,7 +175,12 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         // Now serialize the Bloom Filter ?!
 
-        let paths = chunk_metadata_map.keys().into_iter().cloned().collect();
+        let paths = chunk_metadata_map
+            .keys()
+            .map(|(device, measurement)| Path {
+                path: format!("{}.{}", device, measurement),
+            })
+            .collect();
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
@@ -193,22 +196,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
     fn flush_metadata_index(
         &mut self,
-        chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
+        chunk_metadata_list: &BTreeMap<(String, String), Vec<ChunkMetadata>>,
     ) -> MetadataIndexNode {
-        let mut last_path: Option<String> = None;
-        for (path, metadata) in chunk_metadata_list.iter() {
-            // TODO do we really need this check here?
-            // ensure that paths are printed in alphabetical order
-            match &last_path {
-                None => last_path = Some(path.path.clone()),
-                Some(p) => {
-                    assert!(
-                        p < &path.path,
-                        "Something went wrong.. footer was written in wrong order"
-                    );
-                }
-            }
-            // Now regular operation starts
+        for ((device_id, _), metadata) in chunk_metadata_list.iter() {
             let data_type = metadata.get(0).unwrap().data_type;
             let serialize_statistic = metadata.len() > 1;
             let mut statistics = Statistics::new(data_type);
@@ -240,22 +230,13 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             };
 
             // Add to the global struct
-            let split = path.path.split('.').collect::<Vec<&str>>();
-            let mut device_id = "".to_owned();
-            for i in 0..split.len() - 1 {
-                if i > 0 {
-                    device_id.push('.');
-                }
-                device_id.push_str(*split.get(i).unwrap());
-            }
-
-            if !self.timeseries_metadata_map.contains_key(&device_id) {
+            if !self.timeseries_metadata_map.contains_key(device_id) {
                 self.timeseries_metadata_map
                     .insert(device_id.clone(), vec![]);
             }
 
             self.timeseries_metadata_map
-                .get_mut(&device_id)
+                .get_mut(device_id)
                 .unwrap()
                 .push(Box::new(timeseries_metadata));
         }
-- 
2.43.0


From a6d2821aa68a8b04a20bd5b2ad96249db9d19b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 12/22] fix: TS2DIFF differences wrap instead of overflowing

Neighbouring values further apart than the type's maximum panicked in builds
with overflow checks.
---
 tsfile-writer/src/writer/encoding/time_encoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tsfile-writer/src/writer/encoding/time_encoder.rs b/tsfile-writer/src/writer/encoding/time_encoder.rs
index 1b2780d..bc4b93a 100644
--- a/tsfile-writer/src/writer/encoding/time_encoder.rs
+++ b/tsfile-writer/src/writer/encoding/time_encoder.rs
@@ -37,7 +37,7 @@ macro_rules! ts2diff_encoder {
 
         impl Encoder for $name {
             fn write(&mut self, value: &IoTDBValue) -> Result<(), TsFileError> {
-                let value = value.try_into()?;
+                let value: $type = value.try_into()?;
                 match self.first_value {
                     None => {
                         self.first_value = Some(value);
@@ -45,7 +45,7 @@ macro_rules! ts2diff_encoder {
                     }
                     Some(_) => {
                         // calc delta
-                        let delta = value - self.previous_value;
+                        let delta = value.wrapping_sub(self.previous_value);
                         // If delta is min, store it
                         if delta < self.min_delta {
                             self.min_delta = delta;
@@ -124,7 +124,7 @@ macro_rules! ts2diff_encoder {
                 let mut delta_block_buffer: Vec<$type> = vec![];
 
                 for delta in &self.values {
-                    delta_block_buffer.push(delta - self.min_delta);
+                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                 }
 
                 let write_width =
-- 
2.43.0


From 746335fe072100677f50660b8ab658c56fd0e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 13/22] fix: statistics of infinities and of the largest
 timestamp

Minimum and maximum of infinite values were the largest finite values, and the
first value at the largest timestamp was 0.
---
 tsfile-writer/src/writer/statistics.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 2411ce8..483e3c8 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -120,14 +120,14 @@ impl StatisticsStruct<f32, f64> {
 }
 
 macro_rules! implement_statistics {
-    ( $type:ty, $sum:ty ) => {
+    ( $type:ty, $sum:ty, $largest:expr, $smallest:expr ) => {
         impl StatisticsStruct<$type, $sum> {
             pub(crate) fn new() -> StatisticsStruct<$type, $sum> {
                 StatisticsStruct {
                     ts_first: i64::MAX,
                     ts_last: i64::MIN,
-                    min_value: <$type>::MAX,
-                    max_value: <$type>::MIN,
+                    min_value: $largest,
+                    max_value: $smallest,
                     first_value: 0 as $type,
                     last_value: 0 as $type,
                     count: 0,
@@ -136,7 +136,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn merge(&mut self, statistics: &StatisticsStruct<$type, $sum>) {
-                if statistics.ts_first < self.ts_first {
+                if self.count == 0 || statistics.ts_first < self.ts_first {
                     self.ts_first = statistics.ts_first;
                     self.first_value = statistics.first_value;
                 }
@@ -155,7 +155,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn update(&mut self, timestamp: i64, value: $type) {
-                if timestamp < self.ts_first {
+                if self.count == 0 || timestamp < self.ts_first {
                     self.ts_first = timestamp;
                     self.first_value = value;
                 }
@@ -193,8 +193,8 @@ macro_rules! implement_statistics {
     };
 }
 
-implement_statistics!(i32, i64);
-implement_statistics!(i64, f64);
-implement_statistics!(f32, f64);
+implement_statistics!(i32, i64, i32::MAX, i32::MIN);
+implement_statistics!(i64, f64, i64::MAX, i64::MIN);
+implement_statistics!(f32, f64, f32::INFINITY, f32::NEG_INFINITY);
 // TODO Implement / use
 // implement_statistics!(f64);
-- 
2.43.0


From 58f8f36838f032a59f89b1a42df04aa6cf5702ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 14/22] fix: failures to write the file are reported

Errors of automatic flushes and of close were dropped, so that an incomplete
file looked like success. After a failure the writer refuses further calls, as
what it buffered is partly written.
---
 tsfile-writer-c/src/lib.rs                   |  2 +-
 tsfile-writer/src/writer/chunk_writer.rs     | 32 +++++-----
 tsfile-writer/src/writer/group_writer.rs     | 13 ++--
 tsfile-writer/src/writer/mod.rs              | 66 ++++++++++----------
 tsfile-writer/src/writer/tsfile_io_writer.rs | 29 +++++----
 tsfile-writer/src/writer/tsfile_writer.rs    | 36 ++++++++---
 6 files changed, 104 insertions(+), 74 deletions(-)

diff --git a/tsfile-writer-c/src/lib.rs b/tsfile-writer-c/src/lib.rs
index 95b0108..66af4ed 100644
--- a/tsfile-writer-c/src/lib.rs
+++ b/tsfile-writer-c/src/lib.rs
@@ -131,6 +131,6 @@ pub extern "C" fn file_writer_write_int32(
 pub extern "C" fn file_writer_close(writer: *mut TsFileWriter<WriteWrapper<File>>) {
     if !writer.is_null() {
         let mut _b = unsafe { Box::from_raw(writer) };
-        _b.close();
+        _b.close().unwrap();
     }
 }
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index ec576db..9103507 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -180,15 +180,16 @@ impl ChunkWriter {
         }
     }
 
-    pub(crate) fn seal_current_page(&mut self) {
+    pub(crate) fn seal_current_page(&mut self) -> Result<(), TsFileError> {
         match &self.current_page_writer {
             None => {}
             Some(pw) => {
                 if pw.point_number > 0 {
-                    self.write_page_to_buffer();
+                    self.write_page_to_buffer()?;
                 }
             }
         }
+        Ok(())
     }
 
     pub(crate) fn get_serialized_chunk_size(&self) -> u64 {
@@ -211,24 +212,25 @@ impl ChunkWriter {
     pub(crate) fn write_to_file_writer<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) {
-        self.seal_current_page();
-        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics);
+    ) -> Result<(), TsFileError> {
+        self.seal_current_page()?;
+        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics)?;
 
         // re-init this chunk writer
         self.page_buffer.clear();
         self.num_pages = 0;
         self.first_page_statistics = None;
         self.statistics = Statistics::new(self.data_type);
+        Ok(())
     }
 
     fn write_all_pages_of_chunk_to_ts_file<T: PositionedWrite>(
         &self,
         file_writer: &mut TsFileIoWriter<T>,
         statistics: &Statistics,
-    ) {
+    ) -> Result<(), TsFileError> {
         if statistics.count() == 0 {
-            return;
+            return Ok(());
         }
         file_writer.start_flush_chunk(
             self.measurement_id.clone(),
@@ -239,13 +241,13 @@ impl ChunkWriter {
             self.page_buffer.len() as u32,
             self.num_pages,
             0,
-        );
+        )?;
 
         let data_offset = file_writer.out.get_position();
         log::trace!("Dumping pages at offset {}", data_offset);
 
         // Write the full page
-        file_writer.out.write_all(&self.page_buffer);
+        file_writer.out.write_all(&self.page_buffer)?;
 
         log::trace!("Offset after {}", file_writer.out.get_position());
 
@@ -261,6 +263,7 @@ impl ChunkWriter {
         // }
         //
         file_writer.end_current_chunk();
+        Ok(())
     }
 
     pub(crate) fn estimate_max_series_mem_size(&mut self) -> u32 {
@@ -306,17 +309,17 @@ impl ChunkWriter {
             }
             Some(page_writer) => page_writer.write(timestamp, &mut value).unwrap(),
         };
-        self.check_page_size_and_may_open_new_page();
+        self.check_page_size_and_may_open_new_page()?;
         Ok(records_written)
     }
 
-    fn check_page_size_and_may_open_new_page(&mut self) {
+    fn check_page_size_and_may_open_new_page(&mut self) -> Result<(), TsFileError> {
         if self.current_page_writer.is_none() {
-            return;
+            return Ok(());
         }
         let page_writer = self.current_page_writer.as_mut().unwrap();
         if page_writer.point_number > limit!(max_points_in_page, MAX_NUMBER_OF_POINTS_IN_PAGE) {
-            self.write_page_to_buffer();
+            self.write_page_to_buffer()?;
         } else if page_writer.point_number >= self.value_count_in_one_page_for_next_check {
             let current_page_size = page_writer.estimate_max_mem_size();
 
@@ -327,7 +330,7 @@ impl ChunkWriter {
             PAGE_SIZE_THRESHOLD,
             current_page_size,
             page_writer.point_number);
-                self.write_page_to_buffer();
+                self.write_page_to_buffer()?;
                 self.value_count_in_one_page_for_next_check =
                     limit!(min_page_check, MINIMUM_RECORD_COUNT_FOR_CHECK);
             } else {
@@ -338,6 +341,7 @@ impl ChunkWriter {
                         * (page_writer.point_number as f32)) as u32;
             }
         }
+        Ok(())
     }
 
     //   private void checkPageSizeAndMayOpenANewPage() {
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index a0c8593..42ad821 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -38,18 +38,18 @@ impl<'a> GroupWriter<'a> {
     pub(crate) fn flush_to_filewriter<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) -> u64 {
+    ) -> Result<u64, TsFileError> {
         log::info!("Start flush device id: {}", &self.path);
 
-        self.seal_all_chunks();
+        self.seal_all_chunks()?;
 
         let current_chunk_group_size = self.get_current_chunk_group_size();
 
         for (_, series_writer) in self.chunk_writers.iter_mut() {
-            series_writer.write_to_file_writer(file_writer);
+            series_writer.write_to_file_writer(file_writer)?;
         }
 
-        current_chunk_group_size
+        Ok(current_chunk_group_size)
     }
 
     pub(crate) fn update_max_group_mem_size(&mut self) -> u32 {
@@ -65,10 +65,11 @@ impl<'a> GroupWriter<'a> {
         }
         buffer_size
     }
-    fn seal_all_chunks(&mut self) {
+    fn seal_all_chunks(&mut self) -> Result<(), TsFileError> {
         for (_, writer) in self.chunk_writers.iter_mut() {
-            writer.seal_current_page();
+            writer.seal_current_page()?;
         }
+        Ok(())
     }
     fn get_current_chunk_group_size(&mut self) -> u64 {
         // long size = 0;
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 131ddb5..e27dc17 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -363,7 +363,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write_all(&[byte]);
+        file.write_all(&[byte])?;
 
         Ok(())
     }
@@ -383,8 +383,8 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.writeVar(name, outputStream);
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
-        write_str(file, self.name.as_str());
-        file.write_all(&self.offset.to_be_bytes());
+        write_str(file, self.name.as_str())?;
+        file.write_all(&self.offset.to_be_bytes())?;
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -408,14 +408,14 @@ impl Serializable for MetadataIndexNode {
         // byteLen += ReadWriteIOUtils.write(endOffset, outputStream);
         // byteLen += ReadWriteIOUtils.write(nodeType.serialize(), outputStream);
         // return byteLen;
-        write_var_u32(self.children.len() as u32, file);
+        write_var_u32(self.children.len() as u32, file)?;
 
         for metadata_index_entry in self.children.iter() {
-            metadata_index_entry.serialize(file);
+            metadata_index_entry.serialize(file)?;
         }
 
-        file.write_all(&self.end_offset.to_be_bytes());
-        self.node_type.serialize(file);
+        file.write_all(&self.end_offset.to_be_bytes())?;
+        self.node_type.serialize(file)?;
 
         Ok(())
     }
@@ -448,7 +448,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         // int queueSize = metadataIndexNodeQueue.size();
         // MetadataIndexNode metadataIndexNode;
         // MetadataIndexNode currentIndexNode = new MetadataIndexNode(type);
@@ -496,7 +496,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position() as usize,
                 });
-                metadata_index_node.serialize(file);
+                metadata_index_node.serialize(file)?;
             }
             // ...
             Self::add_current_index_node_to_queue(
@@ -511,7 +511,7 @@ impl MetadataIndexNode {
             };
             queue_size = measurement_metadata_index_queue.len();
         }
-        return measurement_metadata_index_queue.get(0).unwrap().clone();
+        Ok(measurement_metadata_index_queue.get(0).unwrap().clone())
     }
 
     #[allow(unused_variables)]
@@ -519,7 +519,7 @@ impl MetadataIndexNode {
         device_timeseries_metadata_map: &BTreeMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
@@ -552,7 +552,7 @@ impl MetadataIndexNode {
                         offset: file.get_position() as usize,
                     });
                 }
-                timeseries_metadata.serialize(file);
+                timeseries_metadata.serialize(file)?;
             }
             // addCurrentIndexNodeToQueue(currentIndexNode, measurementMetadataIndexQueue, out);
             // deviceMetadataIndexMap.put(
@@ -567,7 +567,7 @@ impl MetadataIndexNode {
                 file,
                 MetadataIndexNodeType::InternalMeasurement,
                 config,
-            );
+            )?;
             device_metadata_index_map.insert(device.clone(), root_node);
         }
 
@@ -579,10 +579,10 @@ impl MetadataIndexNode {
                     name: s.to_owned(),
                     offset: file.get_position() as usize,
                 });
-                value.serialize(file);
+                value.serialize(file)?;
             }
             metadata_index_node.end_offset = file.get_position() as usize;
-            return metadata_index_node;
+            return Ok(metadata_index_node);
         }
 
         // else, build level index for devices
@@ -603,7 +603,7 @@ impl MetadataIndexNode {
                 name: s,
                 offset: file.get_position() as usize,
             });
-            value.serialize(file);
+            value.serialize(file)?;
         }
         Self::add_current_index_node_to_queue(
             &mut current_index_node,
@@ -615,9 +615,9 @@ impl MetadataIndexNode {
             file,
             MetadataIndexNodeType::InternalDevice,
             config,
-        );
+        )?;
         root_node.end_offset = file.get_position() as usize;
-        root_node
+        Ok(root_node)
 
         // // if not exceed the max child nodes num, ignore the device index and directly point to the
         // // measurement
@@ -658,7 +658,7 @@ impl MetadataIndexNode {
 
 trait TimeSeriesMetadatable {
     fn get_measurement_id(&self) -> String;
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()>;
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError>;
 }
 
 impl TimeSeriesMetadatable for TimeSeriesMetadata {
@@ -666,13 +666,13 @@ impl TimeSeriesMetadatable for TimeSeriesMetadata {
         self.measurement_id.clone()
     }
 
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()> {
-        file.write_all(&[self.time_series_metadata_type]);
-        write_str(file, self.measurement_id.as_str());
-        file.write_all(&[self.data_type.serialize()]);
-        write_var_u32(self.chunk_meta_data_list_data_size as u32, file);
-        self.statistics.serialize(file);
-        file.write_all(&self.buffer);
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
+        file.write_all(&[self.time_series_metadata_type])?;
+        write_str(file, self.measurement_id.as_str())?;
+        file.write_all(&[self.data_type.serialize()])?;
+        write_var_u32(self.chunk_meta_data_list_data_size as u32, file)?;
+        self.statistics.serialize(file)?;
+        file.write_all(&self.buffer)?;
         Ok(())
     }
 }
@@ -817,10 +817,10 @@ impl Serializable for BloomFilter {
         // Real
         let bytes = self.serialize_bits();
 
-        write_var_u32(bytes.len() as u32, file);
-        file.write_all(bytes.as_slice());
-        write_var_u32(self.size as u32, file);
-        write_var_u32(self.hash_function_size as u32, file);
+        write_var_u32(bytes.len() as u32, file)?;
+        file.write_all(bytes.as_slice())?;
+        write_var_u32(self.size as u32, file)?;
+        write_var_u32(self.hash_function_size as u32, file)?;
 
         Ok(())
     }
@@ -844,15 +844,15 @@ impl Serializable for TsFileMetadata {
     fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
         match self.metadata_index.clone() {
             Some(index) => {
-                index.serialize(file);
+                index.serialize(file)?;
             }
             None => {
                 // Write 0 as 4 bytes (u32)
-                file.write_all(&0x00_u32.to_be_bytes());
+                file.write_all(&0x00_u32.to_be_bytes())?;
             }
         }
         // Meta Offset
-        file.write_all(&self.meta_offset.to_be_bytes());
+        file.write_all(&self.meta_offset.to_be_bytes())?;
 
         Ok(())
     }
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index b336db1..ae59e8d 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -43,7 +43,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         data_size: u32,
         num_pages: u32,
         mask: u8,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.current_chunk_metadata = Some(ChunkMetadata::new(
             measurement_id.clone(),
             data_type,
@@ -60,7 +60,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             num_pages,
             mask,
         );
-        header.serialize(&mut self.out);
+        header.serialize(&mut self.out)
     }
 }
 
@@ -112,9 +112,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
     //     chunkMetadataList = null;
     //     out.flush();
     //   }
-    pub(crate) fn end_chunk_group(&mut self) {
+    pub(crate) fn end_chunk_group(&mut self) -> Result<(), TsFileError> {
         if self.current_chunk_group_device_id == None || self.chunk_metadata_list.is_empty() {
-            return;
+            return Ok(());
         }
         let device_id = self.current_chunk_group_device_id.unwrap();
         // for chunk_metadata in &self.chunk_metadata_list {
@@ -128,10 +128,11 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         ));
         self.current_chunk_group_device_id = None;
         self.chunk_metadata_list.clear();
-        self.out.flush();
+        self.out.flush()?;
+        Ok(())
     }
 
-    pub(crate) fn end_file(&mut self) {
+    pub(crate) fn end_file(&mut self) -> Result<(), TsFileError> {
         // Statistics
         // Fetch all metadata
         // self.chunk_group_metadata = self
@@ -163,15 +164,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let meta_offset = self.out.get_position();
 
         // Write Marker 0x02
-        self.out.write_all(&[0x02]);
+        self.out.write_all(&[0x02])?;
 
-        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map);
+        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
 
         let ts_file_metadata = TsFileMetadata::new(Some(metadata_index_node), meta_offset);
 
         let footer_index = self.out.get_position();
 
-        ts_file_metadata.serialize(&mut self.out);
+        ts_file_metadata.serialize(&mut self.out)?;
 
         // Now serialize the Bloom Filter ?!
 
@@ -184,20 +185,22 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
-        bloom_filter.serialize(&mut self.out);
+        bloom_filter.serialize(&mut self.out)?;
 
         let size_of_footer = (self.out.get_position() - footer_index) as u32;
 
-        self.out.write_all(&size_of_footer.to_be_bytes());
+        self.out.write_all(&size_of_footer.to_be_bytes())?;
 
         // Footer
-        self.out.write_all("TsFile".as_bytes());
+        self.out.write_all("TsFile".as_bytes())?;
+        self.out.flush()?;
+        Ok(())
     }
 
     fn flush_metadata_index(
         &mut self,
         chunk_metadata_list: &BTreeMap<(String, String), Vec<ChunkMetadata>>,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         for ((device_id, _), metadata) in chunk_metadata_list.iter() {
             let data_type = metadata.get(0).unwrap().data_type;
             let serialize_statistic = metadata.len() > 1;
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 75e2896..e5e23ff 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -117,13 +117,30 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     pub schema: Schema<'a>,
     #[allow(dead_code)]
     config: TsFileConfig,
+    // Set while writing to the file, thus remains set if that fails
+    failed: bool,
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
-    pub fn close(&mut self) {
+    /// Writes everything that is still buffered and finishes the file.
+    /// The file is complete only if this returns `Ok`.
+    pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
-        self.flush_all_chunk_groups();
-        self.file_io_writer.end_file();
+        self.check_state()?;
+        self.flush_all_chunk_groups()?;
+        self.failed = true;
+        self.file_io_writer.end_file()?;
+        self.failed = false;
+        Ok(())
+    }
+
+    fn check_state(&self) -> Result<(), TsFileError> {
+        if self.failed {
+            return Err(TsFileError::IllegalState {
+                source: Some("Writing to the file failed".to_owned()),
+            });
+        }
+        Ok(())
     }
 }
 
@@ -135,6 +152,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
+        self.check_state()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 let records_written = group.write(measurement_id, timestamp, value)?;
@@ -146,7 +164,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 });
             }
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -156,6 +174,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
+        self.check_state()?;
         let result = match self.group_writers.get_mut(device) {
             Some(group) => {
                 let (records_written, result) = group.write_many(timestamp, values);
@@ -164,7 +183,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         };
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         result
     }
 
@@ -203,12 +222,13 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
 
     fn flush_all_chunk_groups(&mut self) -> Result<bool, TsFileError> {
         if self.record_count > 0 {
+            self.failed = true;
             for (&device_id, group_writer) in self.group_writers.iter_mut() {
                 // self.file_writer.start_chunk_group(device_id);
                 // self.file_writer
                 self.file_io_writer.start_chunk_group(device_id)?;
                 let pos = self.file_io_writer.out.get_position();
-                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer);
+                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer)?;
 
                 if self.file_io_writer.out.get_position() - pos != data_size {
                     return Err(TsFileError::IllegalState {
@@ -216,12 +236,13 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     });
                 }
 
-                self.file_io_writer.end_chunk_group();
+                self.file_io_writer.end_chunk_group()?;
 
                 self.non_aligned_timeseries_last_time_map
                     .insert(device_id, group_writer.get_last_time_map());
             }
             self.reset();
+            self.failed = false;
         }
         Ok(true)
     }
@@ -349,6 +370,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             file_io_writer: io_writer,
+            failed: false,
         })
     }
 }
-- 
2.43.0


From 1d0503bbff69f16f7ea9e1367ca7d4fdd72d0bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 15/22] fix: a closed file is not written to

Writes after close were accepted and lost or appended after the footer, and a
second close appended a second footer.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index e5e23ff..4e4a959 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -119,18 +119,23 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     config: TsFileConfig,
     // Set while writing to the file, thus remains set if that fails
     failed: bool,
+    closed: bool,
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     /// Writes everything that is still buffered and finishes the file.
-    /// The file is complete only if this returns `Ok`.
+    /// The file is complete only if this returns `Ok`, closing it again has no effect.
     pub fn close(&mut self) -> Result<(), TsFileError> {
+        if self.closed {
+            return Ok(());
+        }
         log::info!("start close file");
         self.check_state()?;
         self.flush_all_chunk_groups()?;
         self.failed = true;
         self.file_io_writer.end_file()?;
         self.failed = false;
+        self.closed = true;
         Ok(())
     }
 
@@ -140,6 +145,11 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 source: Some("Writing to the file failed".to_owned()),
             });
         }
+        if self.closed {
+            return Err(TsFileError::IllegalState {
+                source: Some("The file is closed".to_owned()),
+            });
+        }
         Ok(())
     }
 }
@@ -371,6 +381,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             config,
             file_io_writer: io_writer,
             failed: false,
+            closed: false,
         })
     }
 }
-- 
2.43.0


From 5669296a976c1ca9d81bef27fd981f0efe201216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 16/22] fix: a file that cannot be created is an error

It panicked.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 4e4a959..1e08c32 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -324,9 +324,9 @@ impl<'a> TsFileWriter<'a, WriteWrapper<File>> {
                 return Err(TsFileError::Error { source: None });
             }
         };
-        create_dir_all(folder);
+        create_dir_all(folder)?;
         // Create the file
-        let file = WriteWrapper::new(File::create(filename).expect("create failed"));
+        let file = WriteWrapper::new(File::create(filename)?);
 
         TsFileWriter::new_from_writer(schema, file, config)
     }
-- 
2.43.0


From a5b5785e3effddfc8689ef242c26a18ec7bb312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 17/22] fix: a refused handshake is an error

The status of the receiver was ignored.
---
 tsfile-writer/src/sync/sync_sender.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index fe63749..4f91a50 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -19,6 +19,9 @@ use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClie
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
 
+// Code of the status of a failed request
+const FAILURE_CODE: i32 = -1;
+
 pub struct SyncSender<IP, OP>
 where
     IP: TInputProtocol,
@@ -118,8 +121,8 @@ impl
         let result = self.client.check(confirm);
 
         match result {
-            Ok(_) => Ok(()),
-            Err(_) => Err(SyncSenderError::HandshakeError),
+            Ok(status) if status.code != FAILURE_CODE => Ok(()),
+            _ => Err(SyncSenderError::HandshakeError),
         }
     }
 
-- 
2.43.0


From f2cdc325cd25e24e0f116f2f0a47010ced75d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 18/22] fix: a sync session succeeds only if every step did

Refused steps and a wrong digest of the data file were ignored, other failures
panicked, and the data file was read under its prefixed name, which does not
exist.
---
 tsfile-writer/src/sync/sync_sender.rs | 52 ++++++++++++---------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 4f91a50..4b54379 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -14,7 +14,7 @@ use crate::writer::errors::TsFileError;
 use crate::writer::Schema;
 
 use crate::sync::mlog::MLog;
-use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClient};
+use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, SyncStatus, TSyncServiceSyncClient};
 
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
@@ -39,6 +39,7 @@ pub enum SyncSenderError {
     UnableGenerateUuid,
     ConnectionError,
     HandshakeError,
+    SyncError,
 }
 
 impl From<thrift::Error> for SyncSenderError {
@@ -133,50 +134,43 @@ impl
         storage_group: &str,
         schema: Schema,
     ) -> Result<(), SyncSenderError> {
-        self.client.start_sync().expect("");
-        self.client.init(std::string::String::from(storage_group))?;
+        Self::check_status(self.client.start_sync()?)?;
+        Self::check_status(self.client.init(std::string::String::from(storage_group))?)?;
 
         // First sync a schema
-        self.client
-            .init_sync_data(std::string::String::from("mlog.bin"))?;
+        Self::check_status(
+            self.client
+                .init_sync_data(std::string::String::from("mlog.bin"))?,
+        )?;
 
         // Create the mlog
         let mlog_bytes: Vec<u8> =
-            Self::write_mlog(storage_group, schema).expect("Unable to write mlog");
+            Self::write_mlog(storage_group, schema).map_err(|_| SyncSenderError::SyncError)?;
 
-        self.client.sync_data(mlog_bytes.clone())?;
+        Self::check_status(self.client.sync_data(mlog_bytes.clone())?)?;
 
         let digest = Self::calculate_digest(&mlog_bytes);
         println!("Digest of Sender: {}", digest);
 
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-                if result.code == -1 {
-                    panic!("Digest does not match!")
-                }
-            }
-            _ => {
-                panic!("Error on digest!")
-            }
-        }
+        Self::check_status(self.client.check_data_digest(digest)?)?;
 
+        let bytes = fs::read(filename).map_err(|_| SyncSenderError::SyncError)?;
         let filename = format!("0_0_{}", filename); // 1654074550252-1-0-0.tsfile";
 
-        self.client.init_sync_data(filename.to_string()).expect("");
-        let bytes = fs::read(filename).expect("");
-        self.client.sync_data(bytes.clone()).expect("");
+        Self::check_status(self.client.init_sync_data(filename)?)?;
+        Self::check_status(self.client.sync_data(bytes.clone())?)?;
         let digest = Self::calculate_digest(&bytes);
         println!("Digest of Sender: {}", digest);
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-            }
-            _ => {
-                println!("Error on digest!")
-            }
+        Self::check_status(self.client.check_data_digest(digest)?)?;
+        Self::check_status(self.client.end_sync()?)?;
+        Ok(())
+    }
+
+    fn check_status(status: SyncStatus) -> Result<(), SyncSenderError> {
+        println!("Result: {}, {}", status.code, status.msg);
+        if status.code == FAILURE_CODE {
+            return Err(SyncSenderError::SyncError);
         }
-        self.client.end_sync()?;
         Ok(())
     }
 
-- 
2.43.0


From 192f1113c7e763fb73034789a18e40ee85d06faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:55 +0000
Subject: [PATCH 19/22] fix: the sender's identity is stored in one step

A sender that was stopped while storing it, or could not write it completely, left an
empty or partial identity that later senders used, and of two first senders in a
directory each could use an identity of its own.
---
 tsfile-writer/src/sync/sync_sender.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 4b54379..ae5d10e 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -222,11 +222,20 @@ impl
             Err(_) => {
                 println!("Generating UUID...");
                 let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
-                // Save to file
-                match fs::write("uuid.lock", &uuid) {
+                // Save to file: written under another name first, so that it is never stored
+                // in part, and then linked, so that it never replaces one stored meanwhile
+                let temporary = format!("uuid.lock.{}", uuid);
+                let stored = fs::write(&temporary, &uuid)
+                    .and_then(|_| fs::hard_link(&temporary, "uuid.lock"));
+                let _ = fs::remove_file(&temporary);
+                match stored {
                     Ok(_) => {
                         println!("UUID saved successfully")
                     }
+                    Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {
+                        return fs::read_to_string("uuid.lock")
+                            .map_err(|_| SyncSenderError::UnableGenerateUuid);
+                    }
                     Err(_) => {
                         return Err(SyncSenderError::UnableGenerateUuid);
                     }
-- 
2.43.0


From bbbc2890af645a07c19d692bbd4ff0c1a9c5e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:56 +0000
Subject: [PATCH 20/22] fix: the memory check does not divide by zero when
 nothing is buffered

---
 tsfile-writer/src/writer/tsfile_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 1e08c32..924f453 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -218,7 +218,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 // in the java impl there can be an overflow...
                 self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
                     * limit!(group_size, CHUNK_GROUP_SIZE_THRESHOLD_BYTE) as u64
-                    / mem_size as u64)
+                    / mem_size.max(1) as u64)
                     as u32;
                 log::trace!(
                     "Next record count for check {}",
-- 
2.43.0


From 815b459a9c7d690412dea4c6021f2495f4379526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 21/22] hooks: files may begin at a position other than 0 under
 cfg(tsfile_verif)

---
 tsfile-writer/src/writer/mod.rs   | 2 +-
 tsfile-writer/src/writer/verif.rs | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index e27dc17..aa582d7 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -184,7 +184,7 @@ impl<T: Write> PositionedWrite for WriteWrapper<T> {
 impl<T: Write> WriteWrapper<T> {
     fn new(writer: T) -> WriteWrapper<T> {
         WriteWrapper {
-            position: 0,
+            position: limit!(start, 0),
             writer,
         }
     }
diff --git a/tsfile-writer/src/writer/verif.rs b/tsfile-writer/src/writer/verif.rs
index 8885ee5..c4f5fcd 100644
--- a/tsfile-writer/src/writer/verif.rs
+++ b/tsfile-writer/src/writer/verif.rs
@@ -16,6 +16,8 @@ pub struct Limits {
     pub page_size: Option<u32>,
     pub group_size: Option<u32>,
     pub first_mem_check: Option<u32>,
+    /// Where the first byte of a file lies (0).
+    pub start: Option<u64>,
 }
 
 thread_local! {
-- 
2.43.0


From 7f54c482c4f0336e222bac3bee5e138e81bbb3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:02 +0000
Subject: [PATCH 22/22] fix: write timestamps beyond 31 bits from Python

file_writer_write_int32 takes an i64 timestamp, but rust.py declared it as int:
cffi refused larger timestamps with an OverflowError (and passed the rest in a
register of the wrong width).
---
 tsfile-writer-c/rust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer-c/rust.py b/tsfile-writer-c/rust.py
index ec61128..d137022 100644
--- a/tsfile-writer-c/rust.py
+++ b/tsfile-writer-c/rust.py
@@ -14,7 +14,7 @@ ffibuilder.cdef("""
     void schema_free(schema s);
     
     ts_file_writer file_writer_new(char* filename, schema s);
-    ts_file_writer file_writer_write_int32(ts_file_writer, char* device_id, char* measurement_id, int timestamp, int value);
+    ts_file_writer file_writer_write_int32(ts_file_writer, char* device_id, char* measurement_id, int64_t timestamp, int value);
     void file_writer_close(ts_file_writer writer);
 """)
 
-- 
2.43.0

