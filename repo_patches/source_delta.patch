From 06eb8cdf9e3784780d082c3560cf124a1a2c4c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 01/24] fix: read segments without metadata

A segment whose table of contents has no metadata flag has no metadata bytes.
read_segment parsed the raw data that follows as an object list, so files in
which the writer itself omitted unchanged metadata could not be opened.
---
 src/io/reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/reader.rs b/src/io/reader.rs
index 7d200b7..ba60461 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -46,14 +46,18 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
         let next_segment_offset = self.read_value()?;
         let raw_data_offset = self.read_value()?;
 
-        //todo handle no meta data mode.
-        let meta_data = self.read_meta()?;
+        // Without the flag there are no metadata bytes: what follows is raw data or the next segment.
+        let meta_data = if toc.contains_meta_data {
+            Some(self.read_meta()?)
+        } else {
+            None
+        };
 
         Ok(Segment {
             toc,
             next_segment_offset,
             raw_data_offset,
-            meta_data: Some(meta_data),
+            meta_data,
         })
     }
 }
-- 
2.43.0


From ee02465e53e848ff9f108b54db131e41c83efcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 02/24] fix: write metadata when the channels or their data
 layout changed

---
 src/file/file_writer.rs | 9 +++++++--
 src/index/writing.rs    | 6 ++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 05d9b4b..7f3d8f3 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -2,7 +2,7 @@ use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
 use crate::io::data_types::TdmsStorageType;
 use crate::io::writer::TdmsWriter;
-use crate::meta_data::{MetaData, ObjectMetaData, Segment, ToC};
+use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
@@ -129,7 +129,12 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
 
         let (matches_live, channels) = index.check_write_values(channels);
 
-        let meta = if matches_live {
+        // The meta data can only be left out when the data is also laid out as before.
+        let matches_formats = channels
+            .iter()
+            .all(|(_, raw_index)| matches!(raw_index, RawDataIndex::MatchPrevious));
+
+        let meta = if matches_live && matches_formats {
             None
         } else {
             let objects: Vec<ObjectMetaData> = channels
diff --git a/src/index/writing.rs b/src/index/writing.rs
index 4ad8ed3..3a14d0b 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -14,7 +14,9 @@ impl Index {
         &self,
         objects: Vec<(&'b str, DataFormat)>,
     ) -> (bool, Vec<(&'b str, RawDataIndex)>) {
-        let live_matches = if !self.active_objects.is_empty() {
+        let live_matches = if !self.active_objects.is_empty()
+            && self.active_objects.len() == objects.len()
+        {
             self.active_objects
                 .iter()
                 .zip(objects.iter())
@@ -22,7 +24,7 @@ impl Index {
                     matches && active.path == new.0
                 })
         } else {
-            //empty
+            //empty, or some channels added or removed.
             false
         };
 
-- 
2.43.0


From a6fd88ad2c934c19f2032f296a4cc6c0f396e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 03/24] fix: list channels again when data follows a property
 write to them

---
 src/index/building.rs | 21 ++++++++++++++++++++-
 src/index/writing.rs  |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/index/building.rs b/src/index/building.rs
index 01a8101..d04cd97 100644
--- a/src/index/building.rs
+++ b/src/index/building.rs
@@ -19,6 +19,9 @@ use super::{DataFormat, DataLocation, ObjectData, ObjectIndex};
 pub struct ActiveObject {
     pub path: String,
     pub number_of_samples: u64,
+    /// The latest metadata listed the object as having no data, so readers may not
+    /// expect data for it until it is listed with data again.
+    pub listed_without_data: bool,
 }
 
 impl ActiveObject {
@@ -31,9 +34,11 @@ impl ActiveObject {
         Self {
             path,
             number_of_samples,
+            listed_without_data: false,
         }
     }
     fn update(&mut self, meta: &ObjectMetaData) {
+        self.listed_without_data = false;
         if let RawDataIndex::RawData(ref raw) = meta.raw_data_index {
             self.number_of_samples = raw.number_of_values;
         }
@@ -73,7 +78,10 @@ impl super::Index {
         if let Some(meta_data) = &segment.meta_data {
             for obj in meta_data.objects.iter() {
                 match obj.raw_data_index {
-                    RawDataIndex::None => self.update_meta_object(obj)?,
+                    RawDataIndex::None => {
+                        self.update_meta_object(obj)?;
+                        self.mark_listed_without_data(&obj.path);
+                    }
                     _ => self.update_or_activate_data_object(obj)?,
                 }
             }
@@ -148,6 +156,17 @@ impl super::Index {
         self.active_objects.clear();
     }
 
+    /// Note that an object has been listed without data, if it is active.
+    fn mark_listed_without_data(&mut self, path: ObjectPath) {
+        if let Some(active_object) = self
+            .active_objects
+            .iter_mut()
+            .find(|active_object| active_object.path == path)
+        {
+            active_object.listed_without_data = true;
+        }
+    }
+
     /// Activate Data Object
     ///
     /// Adds the object by path to the active objects. Creates it if it doesn't exist.
diff --git a/src/index/writing.rs b/src/index/writing.rs
index 3a14d0b..6cec168 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -21,7 +21,7 @@ impl Index {
                 .iter()
                 .zip(objects.iter())
                 .fold(true, |matches, (active, new)| {
-                    matches && active.path == new.0
+                    matches && active.path == new.0 && !active.listed_without_data
                 })
         } else {
             //empty, or some channels added or removed.
-- 
2.43.0


From c1b078f93a3af2dc2ff94c339c951c63320723fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 04/24] fix: refuse empty writes before anything is stored

---
 src/file/file_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 7f3d8f3..7ba4eed 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -116,6 +116,10 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
     ) -> Result<Self, TdmsError> {
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
+        // A segment can't hold an empty data block, so refuse before anything is written.
+        if values.is_empty() {
+            return Err(TdmsError::ZeroLengthDataBlock);
+        }
         let data_structures = raw_data
             .data_structure()
             .into_iter()
-- 
2.43.0


From c9dab007b4eddf065987456d973a888207a00023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 05/24] fix: refuse variable length samples that would be
 stored corrupt

---
 src/file/file_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 7ba4eed..ea2054e 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -115,6 +115,10 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
+        // The layout of variable length samples isn't implemented. They would be stored corrupt.
+        if D::NATURAL_TYPE.size() == 0 {
+            return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         // A segment can't hold an empty data block, so refuse before anything is written.
         if values.is_empty() {
-- 
2.43.0


From de8c7feb53ecf4f22be47560fda8475e2d7088ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 06/24] fix: timestamp samples take 16 bytes

---
 src/io/data_types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index cf11837..d84a6d9 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -79,7 +79,7 @@ impl DataType {
             DataType::ExtendedFloatWithUnit => 16,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
-            DataType::Timestamp => 8,
+            DataType::Timestamp => 16,
             DataType::FixedPoint => 8,
             DataType::ComplexSingleFloat => 8,
             DataType::ComplexDoubleFloat => 16,
-- 
2.43.0


From 200ac41ef2cdd910e8ce410ff8c25cafcdf7880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 07/24] fix: extended float samples take 10 bytes

---
 src/io/data_types/extended.rs | 2 ++
 src/io/data_types/mod.rs      | 4 ++--
 src/raw_data/write.rs         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/data_types/extended.rs b/src/io/data_types/extended.rs
index 33d11ef..f933f76 100644
--- a/src/io/data_types/extended.rs
+++ b/src/io/data_types/extended.rs
@@ -33,6 +33,8 @@ impl TdmsStorageType for ExtendedRaw {
 
     const NATURAL_TYPE: DataType = DataType::ExtendedFloat;
 
+    const SIZE_BYTES: usize = EXT_SIZE;
+
     fn read_le(reader: &mut impl Read) -> StorageResult<Self> {
         let mut buffer = [0u8; U128_SIZE];
         reader.read_exact(&mut buffer[0..EXT_SIZE])?;
diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index d84a6d9..791c610 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -73,10 +73,10 @@ impl DataType {
             DataType::I64 | DataType::U64 => 8,
             DataType::SingleFloat => 4,
             DataType::DoubleFloat => 8,
-            DataType::ExtendedFloat => 16,
+            DataType::ExtendedFloat => 10,
             DataType::SingleFloatWithUnit => 4,
             DataType::DoubleFloatWithUnit => 8,
-            DataType::ExtendedFloatWithUnit => 16,
+            DataType::ExtendedFloatWithUnit => 10,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
             DataType::Timestamp => 16,
diff --git a/src/raw_data/write.rs b/src/raw_data/write.rs
index 4650416..4894aef 100644
--- a/src/raw_data/write.rs
+++ b/src/raw_data/write.rs
@@ -33,7 +33,8 @@ impl<D: TdmsStorageType> WriteBlock for &[D] {
     }
 
     fn size(&self) -> usize {
-        std::mem::size_of_val(*self)
+        // The size in the file can be different to the size in memory.
+        self.iter().map(|item| item.size()).sum()
     }
 }
 
-- 
2.43.0


From b848de543d9496a96abff5c035585c066904c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 08/24] fix: codes of the floats with unit types

---
 src/io/data_types/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index 791c610..14c7c4d 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -51,8 +51,8 @@ pub enum DataType {
     DoubleFloat = 10,
     ExtendedFloat = 11,
     SingleFloatWithUnit = 0x19,
-    DoubleFloatWithUnit = 12,
-    ExtendedFloatWithUnit = 13,
+    DoubleFloatWithUnit = 0x1A,
+    ExtendedFloatWithUnit = 0x1B,
     TdmsString = 0x20,
     Boolean = 0x21,
     Timestamp = 0x44,
-- 
2.43.0


From ba8f7b5a765cbc7825525b113b9816fa0e9e0c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 09/24] fix: follow every channel's own progress and skip in
 multi-channel reads

---
 src/file/channel_reader.rs                    |  64 ++++++---
 src/raw_data/contigious_multi_channel_read.rs | 129 +++---------------
 .../interleaved_multi_channel_read.rs         |   9 +-
 src/raw_data/mod.rs                           |   3 +
 4 files changed, 73 insertions(+), 132 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 60b9d93..30e7f45 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -38,6 +38,10 @@ impl ChannelProgress {
         self.samples_read >= self.samples_target
     }
 
+    fn samples_remaining(&self) -> usize {
+        self.samples_target.saturating_sub(self.samples_read)
+    }
+
     fn add_samples(&mut self, samples: usize) {
         self.samples_read += samples;
     }
@@ -169,26 +173,42 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
                     )
                 })?;
 
+            // Channels can have different numbers of samples left in this block and
+            // different space left for them.
+            let chunks = block.number_of_chunks()? as u64;
+            let samples_to_read: Vec<usize> = location
+                .channel_indexes
+                .iter()
+                .zip(channel_progress.iter())
+                .map(|(plan, progress)| match plan {
+                    Some(plan) => block.channels[plan.index]
+                        .number_of_values
+                        .saturating_mul(chunks)
+                        .saturating_sub(plan.samples_to_skip)
+                        .min(progress.samples_remaining() as u64)
+                        as usize,
+                    None => 0,
+                })
+                .collect();
+
             // Use fast path if no skip needed, slow path otherwise
-            let location_samples_read = if any_skip_needed {
-                let mut channels_with_skip =
-                    get_block_read_data_with_skip(&location, output, &channel_progress);
-                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?
+            if any_skip_needed {
+                let mut channels_with_skip = get_block_read_data_with_skip(
+                    &location,
+                    output,
+                    &channel_progress,
+                    &samples_to_read,
+                );
+                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?;
             } else {
                 let mut channels_to_read =
-                    get_block_read_data(&location, output, &channel_progress);
-                block.read(&mut self.file, &mut channels_to_read)?
-            };
+                    get_block_read_data(&location, output, &channel_progress, &samples_to_read);
+                block.read(&mut self.file, &mut channels_to_read)?;
+            }
 
             // Update progress
-            for (plan, progress) in location
-                .channel_indexes
-                .iter()
-                .zip(channel_progress.iter_mut())
-            {
-                if plan.is_some() {
-                    progress.add_samples(location_samples_read);
-                }
+            for (samples, progress) in samples_to_read.iter().zip(channel_progress.iter_mut()) {
+                progress.add_samples(*samples);
             }
 
             if all_channels_complete(&channel_progress) {
@@ -205,18 +225,22 @@ fn get_block_read_data<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    samples_to_read: &[usize],
 ) -> Vec<(usize, &'o mut [D])> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(samples_to_read.iter())
+        .filter_map(|(((plan, output), progress), samples)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel.
-                (Some(plan), progress) => Some((plan.index, &mut output[progress.samples_read..])),
+                (Some(plan), progress) => {
+                    Some((plan.index, &mut output[progress.samples_read..][..*samples]))
+                }
                 _ => None,
             }
         })
@@ -228,20 +252,22 @@ fn get_block_read_data_with_skip<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    samples_to_read: &[usize],
 ) -> Vec<BlockReadChannelConfig<'b, D>> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(samples_to_read.iter())
+        .filter_map(|(((plan, output), progress), samples)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel with its skip amount.
                 (Some(plan), progress) => Some(BlockReadChannelConfig {
                     channel_index: plan.index,
-                    output: &mut output[progress.samples_read..],
+                    output: &mut output[progress.samples_read..][..*samples],
                     samples_to_skip: plan.samples_to_skip,
                 }),
                 _ => None,
diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index a724010..d5a5fd3 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -57,137 +57,47 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         mut channels: RecordPlan<D>,
         start_sample: u64,
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
-
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
-
-        // Calculate how many complete sub-blocks to skip and the remainder
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip = start_sample / sub_block_length;
-        let remainder_skip = start_sample % sub_block_length;
-
-        let mut length = 0;
-
-        for sub_block_idx in 0..total_sub_blocks {
-            if sub_block_idx < sub_blocks_to_skip {
-                // Skip entire sub-block by seeking past it
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else if sub_block_idx == sub_blocks_to_skip {
-                // First sub-block to read - apply remainder skip
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = remainder_skip;
-                    }
-                }
-                length += self.read_sub_block(&mut channels)?;
-            } else {
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = 0;
-                    }
-                }
-                // Subsequent sub-blocks - no skip
-                length += self.read_sub_block(&mut channels)?;
-            }
+        for channel_skip in channels.block_skips_mut() {
+            *channel_skip = start_sample;
         }
-
-        Ok(length)
+        self.read_sub_blocks(channels)
     }
 
     /// Read the data from the block with per-channel skip amounts.
     ///
+    /// The skip amounts are in the order of the channels in the block.
+    ///
     /// For contiguous data, each channel can skip independently by seeking.
     pub fn read_with_per_channel_skip<D: TdmsStorageType>(
         &mut self,
         mut channels: RecordPlan<D>,
         skip_amounts: &[u64],
+    ) -> Result<usize, TdmsError> {
+        for (channel_skip, skip_amount) in channels.block_skips_mut().zip(skip_amounts) {
+            *channel_skip = *skip_amount;
+        }
+        self.read_sub_blocks(channels)
+    }
+
+    /// Read the sub-blocks (chunks) in order. Every channel uses up its skip as it gets to
+    /// its part of each sub-block, so the channels can skip and hold different lengths.
+    fn read_sub_blocks<D: TdmsStorageType>(
+        &mut self,
+        mut channels: RecordPlan<D>,
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
 
         let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
 
-        // Calculate per-channel sub-blocks to skip and remainders
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip / sub_block_length)
-            .collect();
-        let remainder_skips: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip % sub_block_length)
-            .collect();
-
         let mut length = 0;
 
-        for sub_block_idx in 0..total_sub_blocks {
-            // Check if any channel needs to read from this sub-block
-            let any_channel_reads = sub_blocks_to_skip.iter().all(|&skip| sub_block_idx >= skip);
-
-            if !any_channel_reads {
-                // Skip entire sub-block
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else {
-                // Build skip amounts for this sub-block
-                let channel_skip_values =
-                    channels
-                        .read_instructions()
-                        .iter_mut()
-                        .filter_map(|instruction| {
-                            if let RecordEntryPlan::Read {
-                                block_skip: skip_first_samples,
-                                ..
-                            } = &mut instruction.plan
-                            {
-                                Some(skip_first_samples)
-                            } else {
-                                None
-                            }
-                        });
-                for ((blocks_to_skip, remainder_skip), sub_block_skip) in sub_blocks_to_skip
-                    .iter()
-                    .zip(remainder_skips.iter())
-                    .zip(channel_skip_values)
-                {
-                    *sub_block_skip = Self::calculate_skip_for_this_block(
-                        sub_block_idx,
-                        *blocks_to_skip,
-                        *remainder_skip,
-                    );
-                }
-                length += self.read_sub_block(&mut channels)?;
-            }
+        for _ in 0..total_sub_blocks {
+            length += self.read_sub_block(&mut channels)?;
         }
 
         Ok(length)
     }
 
-    fn calculate_skip_for_this_block(
-        sub_block_idx: u64,
-        blocks_to_skip: u64,
-        remainder_skip: u64,
-    ) -> u64 {
-        if sub_block_idx == blocks_to_skip {
-            // First sub-block to read for this channel - use remainder
-            remainder_skip
-        } else if sub_block_idx > blocks_to_skip {
-            // Subsequent sub-blocks - no skip
-            0
-        } else {
-            // Should not happen if any_channel_reads is correct
-            0
-        }
-    }
-
     fn read_sub_block<D: TdmsStorageType>(
         &mut self,
         channels: &mut RecordPlan<'_, D>,
@@ -201,6 +111,7 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
                     block_skip: skip_first_samples,
                 } => {
                     let skip = (*skip_first_samples).min(read_instruction.length as u64) as usize;
+                    *skip_first_samples -= skip as u64;
 
                     let samples_to_read = read_instruction.length.saturating_sub(skip);
 
diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index e39e548..b0ae2d4 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -67,7 +67,7 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
 
         let mut samples_read = 0;
         for row in 0..rows_to_process {
-            let mut any_values_read = false;
+            let mut any_outputs_remaining = false;
             for read_instruction in channels.read_instructions().iter_mut() {
                 match &mut read_instruction.plan {
                     RecordEntryPlan::Read { output, block_skip } => {
@@ -78,18 +78,19 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                             && let Some(value) = output.next()
                         {
                             *value = read_value;
-                            any_values_read = true;
                         }
+                        any_outputs_remaining |= output.len() > 0;
                     }
                     RecordEntryPlan::Skip(bytes) => {
                         self.reader.move_position(*bytes)?;
                     }
                 };
             }
-            if !any_values_read {
+            samples_read += 1;
+            // A channel that is still skipping has output remaining.
+            if !any_outputs_remaining {
                 break;
             }
-            samples_read += 1;
         }
 
         Ok(samples_read)
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index a437311..0526aba 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -323,6 +323,9 @@ impl DataBlock {
         reader: &mut (impl Read + Seek),
         channels_to_read: &'b mut [BlockReadChannelConfig<'b, D>],
     ) -> Result<usize, TdmsError> {
+        // The skips are matched up with the channels in the order they have in the block.
+        channels_to_read.sort_by_key(|config| config.channel_index);
+
         // Extract skip amounts first (before mutable borrow)
         let skip_amounts: Vec<u64> = channels_to_read
             .iter()
-- 
2.43.0


From 4c7316c6ea17c1c8ae5426e41fb806a47d474ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 10/24] fix: names with slashes in object paths

---
 src/paths.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index f22f764..ff3a6e0 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -33,9 +33,7 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
         return Ok((None, None));
     }
 
-    let mut parts = path
-        .split('/')
-        .skip(1)
+    let mut parts = path_components(path)
         .map(|p| parse_name(p).ok_or_else(|| TdmsError::InvalidObjectPath(path.to_string())));
     let group = invert(parts.next())?;
     let channel = invert(parts.next())?;
@@ -48,13 +46,21 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
     Ok((group, channel))
 }
 
+/// Split the path into its quoted names. A slash inside of the quotes is part of the name.
+fn path_components(path: ObjectPath<'_>) -> impl Iterator<Item = &str> {
+    let mut in_name = false;
+    path.split(move |c: char| {
+        if c == '\'' {
+            in_name = !in_name;
+        }
+        c == '/' && !in_name
+    })
+    .skip(1)
+}
+
 //expects name with quotes and removes the quotes.
 fn parse_name(name: &str) -> Option<&str> {
-    if !name.starts_with('\'') || !name.ends_with('\'') {
-        return None;
-    }
-
-    Some(&name[1..name.len() - 1])
+    name.strip_prefix('\'')?.strip_suffix('\'')
 }
 
 /// Get the group name for the path, if one exists.
@@ -118,13 +124,7 @@ impl PropertyPath {
 
     /// Get the levels of the path structure
     fn path_levels(&self) -> impl Iterator<Item = &str> {
-        self.0.split('/').skip(1).filter_map(|value| {
-            if value.starts_with("'") && value.ends_with("'") {
-                Some(&value[1..value.len() - 1])
-            } else {
-                None
-            }
-        })
+        path_components(&self.0).filter_map(parse_name)
     }
 
     /// Get the group name from the path, if there is one.
@@ -164,7 +164,7 @@ impl PropertyPath {
     }
 
     fn path_depth(&self) -> usize {
-        self.0.chars().filter(|c| *c == '/').count()
+        path_components(&self.0).count()
     }
 
     fn is_channel(&self) -> bool {
-- 
2.43.0


From 26030cc59984f28b6c999930ded61b7e289bdac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 11/24] fix: keep the path of an object that is listed

---
 src/paths.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index ff3a6e0..c46417d 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -188,13 +188,9 @@ impl<'a> TryFrom<ObjectPath<'a>> for PropertyPath {
     type Error = TdmsError;
 
     fn try_from(value: ObjectPath) -> Result<Self, Self::Error> {
-        let parsed = parse_path(value)?;
-        match parsed {
-            (None, None) => Ok(Self::file()),
-            (Some(group), None) => Ok(Self::group(group)),
-            (Some(group), Some(channel)) => Ok(Self::channel(group, channel)),
-            _ => unreachable!(),
-        }
+        // Keep the path as it is, it may have been written with other escaping.
+        parse_path(value)?;
+        Ok(Self(value.to_string()))
     }
 }
 
-- 
2.43.0


From 4f5fbc9cbda046205ca2a312f3620eb38f486501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 12/24] fix: only list the channels of the group itself

---
 src/file/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 7f37a88..cbb682d 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -148,7 +148,12 @@ impl<F: Read + Seek> TdmsFile<F> {
         group: &'b PropertyPath,
     ) -> impl Iterator<Item = ChannelPath> + 'c {
         let paths = self.index.paths_starting_with(group.path());
-        paths.filter_map(|path| ChannelPath::try_from(path).ok())
+        paths
+            // The group path can be the start of the path to another group.
+            .filter(|path| {
+                group.group_name().is_none() || path_group_name(path) == group.group_name()
+            })
+            .filter_map(|path| ChannelPath::try_from(path).ok())
     }
 }
 
-- 
2.43.0


From ac0d6c77d8ea2942c23ea835afadd2ac2b073061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 13/24] fix: open and append to files whose last segment is
 incomplete

---
 src/file/mod.rs  | 177 ++++++++++++++++++++++++++++++++++++++++++-----
 src/index/mod.rs |  10 +++
 src/io/reader.rs |  11 +--
 src/io/writer.rs |   4 +-
 src/meta_data.rs |  39 +++++++----
 5 files changed, 201 insertions(+), 40 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index cbb682d..766f162 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -9,7 +9,7 @@ use std::{
     path::Path,
 };
 
-use crate::meta_data::Segment;
+use crate::meta_data::{LEAD_IN_BYTES, SEGMENT_TAG, Segment, TDMS_VERSION};
 use crate::{ChannelPath, index::Index};
 use crate::{PropertyPath, PropertyValue, error::TdmsError};
 use crate::{
@@ -31,6 +31,7 @@ pub use file_writer::TdmsFileWriter;
 pub struct TdmsFile<F: Read + Seek> {
     index: Index,
     file: F,
+    tail_repair: Option<TailRepair>,
 }
 
 impl TdmsFile<File> {
@@ -53,25 +54,152 @@ impl TdmsFile<File> {
     }
 }
 
-fn build_index(file: &mut (impl Read + Seek)) -> Result<Index, TdmsError> {
+/// Build the index of the file.
+///
+/// The last segment may be incomplete, when writing it was interrupted or is still going on.
+/// The complete chunks in it are indexed. The [`TailRepair`] that must be applied before more
+/// segments can follow it is then returned too.
+fn build_index(file: &mut (impl Read + Seek)) -> Result<(Index, Option<TailRepair>), TdmsError> {
     let mut index = Index::new();
-
-    //Make sure we are at the beginning.
-    file.seek(SeekFrom::Start(0))?;
+    let mut file_end = file.seek(SeekFrom::End(0))?;
 
     loop {
-        match Segment::read(file) {
-            Ok(segment) => {
-                let next_segment = index.add_segment(segment)?;
-                if file.seek(SeekFrom::Start(next_segment)).is_err() {
-                    break;
+        let position = index.next_segment_start();
+        file.seek(SeekFrom::Start(position))?;
+
+        let mut lead_in = [0u8; LEAD_IN_BYTES as usize];
+        match read_up_to(file, &mut lead_in)? {
+            0 => return Ok((index, None)),
+            n if n < lead_in.len() => {
+                if n >= SEGMENT_TAG.len() {
+                    Segment::from_lead_in(&lead_in)?;
                 }
+                let repair = close_incomplete_tail(&mut index, position, 0)?;
+                return Ok((index, Some(repair)));
             }
-            Err(TdmsError::EndOfFile) => break,
-            Err(e) => return Err(e),
+            _ => {}
+        }
+
+        let mut segment = Segment::from_lead_in(&lead_in)?;
+        let meta_data_start = position.saturating_add(LEAD_IN_BYTES);
+        let meta_data_end = meta_data_start.saturating_add(segment.raw_data_offset);
+        let segment_end = meta_data_start.saturating_add(segment.next_segment_offset);
+
+        if meta_data_end.max(segment_end) > file_end {
+            //It could have been extended since we started.
+            file_end = file.seek(SeekFrom::End(0))?;
+            file.seek(SeekFrom::Start(meta_data_start))?;
+        }
+
+        if segment.toc.contains_meta_data && meta_data_end > file_end {
+            let length = file_end.saturating_sub(meta_data_start);
+            let repair = close_incomplete_tail(&mut index, position, length)?;
+            return Ok((index, Some(repair)));
+        }
+
+        segment.read_meta_data(file)?;
+
+        if segment_end > file_end {
+            segment.next_segment_offset = file_end.saturating_sub(meta_data_start);
+            let repair = add_incomplete_segment(&mut index, segment, lead_in)?;
+            return Ok((index, Some(repair)));
         }
+
+        index.add_segment(segment)?;
     }
-    Ok(index)
+}
+
+/// Read until the buffer is full or the end of the file.
+fn read_up_to(file: &mut impl Read, buffer: &mut [u8]) -> Result<usize, TdmsError> {
+    let mut length = 0;
+    while length < buffer.len() {
+        match file.read(&mut buffer[length..]) {
+            Ok(0) => break,
+            Ok(n) => length += n,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e.into()),
+        }
+    }
+    Ok(length)
+}
+
+/// The lead in that the incomplete last segment must get so that it ends at the end of the file.
+///
+/// It is not applied until something is appended. Until then the segment could still be completed.
+#[derive(Debug)]
+struct TailRepair {
+    position: u64,
+    lead_in: [u8; LEAD_IN_BYTES as usize],
+}
+
+impl TailRepair {
+    /// Apply the repair. This can be interrupted at any point and done again.
+    fn apply(&self, file: &mut (impl Write + Seek)) -> Result<(), TdmsError> {
+        let big_endian = Segment::from_lead_in(&self.lead_in)?.toc.big_endian;
+        if !big_endian {
+            file.seek(SeekFrom::Start(self.position))?;
+            file.write_all(&self.lead_in)?;
+            return Ok(());
+        }
+        // After the ToC, the least significant byte must go first so that the segment never
+        // ends too early.
+        for index in (4..8).chain((8..20).rev()) {
+            file.seek(SeekFrom::Start(self.position + index))?;
+            file.write_all(&self.lead_in[index as usize..][..1])?;
+        }
+        Ok(())
+    }
+}
+
+/// Index an incomplete tail, which doesn't have all of its meta data, as an empty segment.
+fn close_incomplete_tail(
+    index: &mut Index,
+    position: u64,
+    length: u64,
+) -> Result<TailRepair, TdmsError> {
+    let segment = Segment {
+        next_segment_offset: length,
+        ..Default::default()
+    };
+    let mut lead_in = [0u8; LEAD_IN_BYTES as usize];
+    lead_in[0..4].copy_from_slice(&SEGMENT_TAG);
+    lead_in[4..8].copy_from_slice(&segment.toc.as_bytes());
+    lead_in[8..12].copy_from_slice(&TDMS_VERSION.to_le_bytes());
+    lead_in[12..20].copy_from_slice(&length.to_le_bytes());
+    index.add_segment(segment)?;
+    Ok(TailRepair { position, lead_in })
+}
+
+/// Index the last segment which doesn't have all of its raw data.
+///
+/// The next segment offset in the segment must match what is available.
+fn add_incomplete_segment(
+    index: &mut Index,
+    mut segment: Segment,
+    mut lead_in: [u8; LEAD_IN_BYTES as usize],
+) -> Result<TailRepair, TdmsError> {
+    let position = index.next_segment_start();
+    let length = segment.next_segment_offset;
+    let mut toc = segment.toc;
+
+    if segment.next_segment_offset <= segment.raw_data_offset {
+        segment.toc.contains_raw_data = false;
+    }
+    let raw_data_indexed = segment.toc.contains_raw_data;
+
+    index.add_segment(segment)?;
+
+    // Without a complete chunk what is there must not be taken for data.
+    toc.contains_raw_data = match index.last_data_block() {
+        Some(block) if raw_data_indexed => block.number_of_chunks()? > 0,
+        _ => false,
+    };
+    lead_in[4..8].copy_from_slice(&toc.as_bytes());
+    lead_in[12..20].copy_from_slice(&match toc.big_endian {
+        true => length.to_be_bytes(),
+        false => length.to_le_bytes(),
+    });
+    Ok(TailRepair { position, lead_in })
 }
 
 impl<F: Read + Seek> TdmsFile<F> {
@@ -84,8 +212,12 @@ impl<F: Read + Seek> TdmsFile<F> {
     /// let file = TdmsFile::new(fake_file);
     /// ```
     pub fn new(mut file: F) -> Result<Self, TdmsError> {
-        let index = build_index(&mut file)?;
-        Ok(Self { index, file })
+        let (index, tail_repair) = build_index(&mut file)?;
+        Ok(Self {
+            index,
+            file,
+            tail_repair,
+        })
     }
 
     /// Read the property by name from the full object path.
@@ -184,8 +316,21 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
     pub fn writer(
         &mut self,
     ) -> Result<TdmsFileWriter<'_, F, LittleEndianWriter<&mut F>>, TdmsError> {
+        let file_end = self.file.seek(SeekFrom::End(0))?;
+
+        if self.tail_repair.is_some() || file_end != self.index.next_segment_start() {
+            // The index doesn't match the file since a write failed or was incomplete when we read it.
+            (self.index, self.tail_repair) = build_index(&mut self.file)?;
+        }
+
+        if let Some(repair) = &self.tail_repair {
+            repair.apply(&mut self.file)?;
+            self.tail_repair = None;
+        }
+
         //make sure we are at the end.
-        self.file.seek(SeekFrom::End(0))?;
+        self.file
+            .seek(SeekFrom::Start(self.index.next_segment_start()))?;
         Ok(TdmsFileWriter::new(
             &mut self.index,
             LittleEndianWriter::from_writer(&mut self.file),
diff --git a/src/index/mod.rs b/src/index/mod.rs
index e79241b..b60d7c3 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -179,6 +179,16 @@ impl Index {
     pub fn get_data_block(&self, index: usize) -> Option<&DataBlock> {
         self.data_blocks.get(index)
     }
+
+    /// Get the data block of the latest segment that has one.
+    pub fn last_data_block(&self) -> Option<&DataBlock> {
+        self.data_blocks.last()
+    }
+
+    /// The position where the next segment is expected.
+    pub fn next_segment_start(&self) -> u64 {
+        self.next_segment_start
+    }
 }
 
 #[cfg(test)]
diff --git a/src/io/reader.rs b/src/io/reader.rs
index ba60461..5d4d2dc 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -41,23 +41,18 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
     }
 
     /// Called immediately after ToC has been read so we have determined the endianess.
+    ///
+    /// This covers the rest of the lead in. The meta data is read seperately.
     fn read_segment(&mut self, toc: ToC) -> Result<Segment, TdmsError> {
         let _version: u32 = self.read_value()?;
         let next_segment_offset = self.read_value()?;
         let raw_data_offset = self.read_value()?;
 
-        // Without the flag there are no metadata bytes: what follows is raw data or the next segment.
-        let meta_data = if toc.contains_meta_data {
-            Some(self.read_meta()?)
-        } else {
-            None
-        };
-
         Ok(Segment {
             toc,
             next_segment_offset,
             raw_data_offset,
-            meta_data,
+            meta_data: None,
         })
     }
 }
diff --git a/src/io/writer.rs b/src/io/writer.rs
index 873e740..8b5474f 100644
--- a/src/io/writer.rs
+++ b/src/io/writer.rs
@@ -5,7 +5,7 @@
 use std::io::{BufWriter, Write};
 
 use crate::error::TdmsError;
-use crate::meta_data::{MetaData, Segment, TdmsMetaData, ToC};
+use crate::meta_data::{MetaData, Segment, TDMS_VERSION, TdmsMetaData, ToC};
 use crate::raw_data::WriteBlock;
 
 use super::data_types::TdmsStorageType;
@@ -55,7 +55,7 @@ pub trait TdmsWriter<W: Write>: Sized {
         }
         self.write_meta(&toc)?;
         //Write version.
-        self.write_value(&4713u32)?;
+        self.write_value(&TDMS_VERSION)?;
         //Write segment offset.
         self.write_value(&next_segment_offset)?;
         //Write data offset.
diff --git a/src/meta_data.rs b/src/meta_data.rs
index c6138c4..95961b4 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -4,7 +4,7 @@
 //! for providing the basis of some of this.
 //!
 
-use std::io::{Read, Seek, Write};
+use std::io::{Cursor, Read, Seek, Write};
 
 use num_traits::FromPrimitive;
 
@@ -17,6 +17,12 @@ use crate::properties::PropertyValue;
 ///The fixed byte size of the lead in section.
 pub const LEAD_IN_BYTES: u64 = 28;
 
+/// The version of the format in the lead in of the segments we write.
+pub const TDMS_VERSION: u32 = 4713;
+
+/// The tag that starts each segment.
+pub const SEGMENT_TAG: [u8; 4] = [0x54, 0x44, 0x53, 0x6D];
+
 /// Represents data that is endian agnostic.
 pub trait TdmsMetaData: Sized {
     fn read<R: Read + Seek>(reader: &mut impl TdmsReader<R>) -> Result<Self, TdmsError>;
@@ -173,34 +179,39 @@ impl Segment {
         }
     }
 
-    pub fn read(reader: &mut (impl Read + Seek)) -> Result<Segment, TdmsError> {
+    /// Decode the lead in of a segment. The meta data is read seperately.
+    pub fn from_lead_in(lead_in: &[u8; LEAD_IN_BYTES as usize]) -> Result<Segment, TdmsError> {
         let mut tag = [0u8; 4];
-        match reader.read_exact(&mut tag) {
-            Ok(_) => {}
-            Err(e) => {
-                if e.kind() == std::io::ErrorKind::UnexpectedEof {
-                    return Err(TdmsError::EndOfFile);
-                } else {
-                    return Err(TdmsError::IoError(e));
-                }
-            }
-        }
+        tag.copy_from_slice(&lead_in[0..4]);
 
-        if tag != [0x54, 0x44, 0x53, 0x6D] {
+        if tag != SEGMENT_TAG {
             return Err(TdmsError::HeaderPatternNotMatched(tag));
         }
 
         //ToC is always little endian.
         let mut buf = [0u8; 4];
-        reader.read_exact(&mut buf)?;
+        buf.copy_from_slice(&lead_in[4..8]);
         let toc = ToC::from_u32(u32::from_le_bytes(buf));
 
+        let reader = Cursor::new(&lead_in[8..]);
         let segment = match toc.big_endian {
             true => BigEndianReader::from_reader(reader).read_segment(toc)?,
             false => LittleEndianReader::from_reader(reader).read_segment(toc)?,
         };
         Ok(segment)
     }
+
+    /// Read the meta data, if there is any, that follows the lead in.
+    pub fn read_meta_data(&mut self, reader: &mut (impl Read + Seek)) -> Result<(), TdmsError> {
+        if self.toc.contains_meta_data {
+            let meta_data = match self.toc.big_endian {
+                true => BigEndianReader::from_reader(reader).read_meta()?,
+                false => LittleEndianReader::from_reader(reader).read_meta()?,
+            };
+            self.meta_data = Some(meta_data);
+        }
+        Ok(())
+    }
 }
 
 /// Contains all data from an object entry in a segment header.
-- 
2.43.0


From 7b2ed99865eb1cda675f111eca9c241d50ced738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 14/24] fix: refuse to write after a failed write on the same
 writer

---
 src/file/file_writer.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index ea2054e..ee6f50c 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -12,6 +12,8 @@ use std::num::NonZeroUsize;
 pub struct TdmsFileWriter<'a, F: Write + 'a, W: TdmsWriter<&'a mut F>> {
     index: &'a mut Index,
     writer: W,
+    /// Set while a segment is written, so it stays set if that fails.
+    segment_incomplete: bool,
     _file: std::marker::PhantomData<F>,
 }
 
@@ -25,6 +27,7 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         Self {
             index,
             writer,
+            segment_incomplete: false,
             _file: std::marker::PhantomData,
         }
     }
@@ -42,8 +45,17 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         values: &'b [D],
         layout: DataLayout,
     ) -> Result<(), TdmsError> {
-        let stream = DataStreamWriter::new(self.index, &mut self.writer, channels, values, layout)?;
+        self.check_last_segment_complete()?;
+        let stream = DataStreamWriter::new(
+            self.index,
+            &mut self.writer,
+            &mut self.segment_incomplete,
+            channels,
+            values,
+            layout,
+        )?;
         stream.end_stream()?;
+        self.segment_incomplete = false;
         Ok(())
     }
 
@@ -70,6 +82,7 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         path: &PropertyPath,
         properties: &[(&str, PropertyValue)],
     ) -> Result<(), TdmsError> {
+        self.check_last_segment_complete()?;
         let path = path.path();
         let properties = properties
             .iter()
@@ -86,10 +99,23 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
             objects: vec![object],
         };
 
+        self.segment_incomplete = true;
         let segment =
             self.writer
                 .write_segment(ToC::default(), Some(meta), Option::<&[u8]>::None)?;
         self.index.add_segment(segment)?;
+        self.segment_incomplete = false;
+        Ok(())
+    }
+
+    /// After a failed write, anything that follows would be lost in the middle of the failed segment.
+    fn check_last_segment_complete(&self) -> Result<(), TdmsError> {
+        if self.segment_incomplete {
+            return Err(std::io::Error::other(
+                "An earlier write failed. Get a new writer to continue.",
+            )
+            .into());
+        }
         Ok(())
     }
 
@@ -110,6 +136,7 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
     pub fn new<'b, C: AsRef<ChannelPath>, D: TdmsStorageType>(
         index: &'a mut Index,
         writer: &'a mut W,
+        segment_incomplete: &mut bool,
         channels: &'b [C],
         values: &'b [D],
         layout: DataLayout,
@@ -162,6 +189,7 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
             data_is_interleaved: layout == DataLayout::Interleaved,
             ..Default::default()
         };
+        *segment_incomplete = true;
         let segment = writer.write_segment(toc, meta, Some(raw_data))?;
         Ok(Self {
             index,
-- 
2.43.0


From 440294029ba0e5b52073e51b68295869052fb8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 15/24] fix: no overflow in the length of a channel in a
 corrupt file

---
 src/index/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index b60d7c3..a567357 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -172,7 +172,7 @@ impl Index {
                 .data_locations
                 .iter()
                 .map(|location| location.number_of_samples)
-                .sum()
+                .fold(0, u64::saturating_add)
         })
     }
 
-- 
2.43.0


From 1ca90631f842121bc3ea2053344c1d08ce22c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 16/24] fix: read files with string channels

The raw data index of a string channel has a total size that must be read
as well. Their samples can't be read yet but the rest of the file can.
---
 src/meta_data.rs        |  6 +++++-
 src/raw_data/mod.rs     |  2 ++
 src/raw_data/records.rs | 21 ++++++++++++++++++---
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index 95961b4..43cf926 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -297,10 +297,14 @@ impl TdmsMetaData for RawDataIndex {
                 let data_type: DataType = reader.read_meta()?;
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
+                let total_size_bytes = match data_type {
+                    DataType::TdmsString => Some(reader.read_value()?),
+                    _ => None,
+                };
                 let meta = RawDataMeta {
                     data_type,
                     number_of_values,
-                    total_size_bytes: None,
+                    total_size_bytes,
                 };
                 RawDataIndex::RawData(meta)
             }
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 0526aba..f8f55f2 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -181,6 +181,8 @@ impl DataBlock {
         let chunk_count = match size {
             ChunkSize::Fixed(0) => 0,
             ChunkSize::Fixed(size) => (self.length.get() / size) as usize,
+            // Only a single chunk is supported, and it must be complete.
+            ChunkSize::Variable(size) if size == 0 || size > self.length.get() => 0,
             ChunkSize::Variable(_) => 1,
         };
         Ok(chunk_count)
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 913cd21..484549c 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -4,7 +4,11 @@
 //! This is used to define a read pattern for a data segment and
 //! is used by the data readers to efficiently read the data.
 
-use crate::{error::TdmsError, io::data_types::TdmsStorageType, meta_data::RawDataMeta};
+use crate::{
+    error::TdmsError,
+    io::data_types::{DataType, TdmsStorageType},
+    meta_data::RawDataMeta,
+};
 
 /// An instruction on how to move through the record based on the read instructions.
 ///
@@ -129,9 +133,17 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
     fn build_base_record(channels: &[RawDataMeta]) -> Self {
         let mut plan = Vec::with_capacity(channels.len());
         for channel in channels {
+            let (length, entry_size) = match channel.total_size_bytes {
+                // Variable length entries can only be skipped together.
+                Some(total_size) => (1, total_size as i64),
+                None => (
+                    channel.number_of_values as usize,
+                    channel.data_type.size() as i64,
+                ),
+            };
             plan.push(RecordEntry {
-                length: channel.number_of_values as usize,
-                plan: RecordEntryPlan::Skip(channel.data_type.size() as i64),
+                length,
+                plan: RecordEntryPlan::Skip(entry_size),
             })
         }
         Self(plan)
@@ -156,6 +168,9 @@ fn validate_types_match<T: TdmsStorageType>(
     channels: &[RawDataMeta],
 ) -> Result<(), TdmsError> {
     for (output_idx, _) in outputs.iter() {
+        if channels[*output_idx].data_type == DataType::TdmsString {
+            return Err(TdmsError::UnsupportedType(DataType::TdmsString));
+        }
         if !T::SUPPORTED_TYPES.contains(&channels[*output_idx].data_type) {
             return Err(TdmsError::DataTypeMismatch(
                 channels[*output_idx].data_type,
-- 
2.43.0


From d1245ad28c20189c74dafd006a997688cf2858a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 17/24] fix: recognise DAQmx channels

---
 src/meta_data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index 43cf926..61f0fa5 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -293,6 +293,8 @@ impl TdmsMetaData for RawDataIndex {
             0xFFFF_FFFF => RawDataIndex::None,
             0x69120000..=0x6912FFFF => return Err(TdmsError::DaqmxChannelsNotSupported), // daqmx 1
             0x69130000..=0x6913FFFF => return Err(TdmsError::DaqmxChannelsNotSupported), //daqmx 2
+            // The bytes in the file are 69 12 00 00 etc.
+            0x1269 | 0x126A | 0x1369 => return Err(TdmsError::DaqmxChannelsNotSupported),
             _ => {
                 let data_type: DataType = reader.read_meta()?;
                 let _array_dims: u32 = reader.read_value()?; //always 1.
-- 
2.43.0


From 8498ee032118120197be0d8350f0e7921ab56a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 18/24] fix: refuse names and strings longer than their 32 bit
 length

---
 src/file/file_writer.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index ee6f50c..e1b8945 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -84,6 +84,13 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
     ) -> Result<(), TdmsError> {
         self.check_last_segment_complete()?;
         let path = path.path();
+        check_string_length(path)?;
+        for (name, value) in properties {
+            check_string_length(name)?;
+            if let PropertyValue::String(value) = value {
+                check_string_length(value)?;
+            }
+        }
         let properties = properties
             .iter()
             .map(|(name, value)| (name.to_string(), (*value).clone()))
@@ -125,6 +132,18 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
     }
 }
 
+/// The length of a string is stored in 32 bits. With a longer one the file could not be read.
+fn check_string_length(string: &str) -> Result<(), TdmsError> {
+    if u32::try_from(string.len()).is_err() {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "A name or string is longer than a TDMS file can hold.",
+        )
+        .into());
+    }
+    Ok(())
+}
+
 struct DataStreamWriter<'a, F: Write, W: TdmsWriter<F>> {
     index: &'a mut Index,
     writer: &'a mut W,
@@ -151,6 +170,9 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         if values.is_empty() {
             return Err(TdmsError::ZeroLengthDataBlock);
         }
+        for path in channels {
+            check_string_length(path.as_ref().path())?;
+        }
         let data_structures = raw_data
             .data_structure()
             .into_iter()
-- 
2.43.0


From ff1485267ed7cf881657f77781cf0ba0216265d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 19/24] fix: fill every buffer when a channel is asked for more
 than once

---
 src/file/channel_reader.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 30e7f45..736d8ec 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use crate::paths::ChannelPath;
 use crate::raw_data::BlockReadChannelConfig;
 use crate::{TdmsFile, error::TdmsError, index::DataLocation, io::data_types::TdmsStorageType};
@@ -136,6 +138,17 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
             })
             .collect::<Result<Vec<&[DataLocation]>, TdmsError>>()?;
 
+        // A pass through the blocks can only read a channel once.
+        let mut seen = HashSet::new();
+        let repeat = channels
+            .iter()
+            .position(|channel| !seen.insert(channel.as_ref().path()));
+        if let Some(repeat) = repeat {
+            let (first_output, output) = output.split_at_mut(repeat.min(output.len()));
+            self.read_channels_from(&channels[..repeat], start, first_output)?;
+            return self.read_channels_from(&channels[repeat..], start, output);
+        }
+
         let start_skips: Vec<u64> = vec![start; channels.len()];
         let plan = read_plan(&channel_positions[..], &start_skips);
 
-- 
2.43.0


From cb94e202a487850313ffce617bfdb71b32dd8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 20/24] fix: refuse to write a channel that is listed more than
 once

---
 src/file/file_writer.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index e1b8945..bef178d 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -6,6 +6,7 @@ use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
+use std::collections::HashSet;
 use std::io::Write;
 use std::num::NonZeroUsize;
 
@@ -135,15 +136,17 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
 /// The length of a string is stored in 32 bits. With a longer one the file could not be read.
 fn check_string_length(string: &str) -> Result<(), TdmsError> {
     if u32::try_from(string.len()).is_err() {
-        return Err(std::io::Error::new(
-            std::io::ErrorKind::InvalidInput,
+        return Err(invalid_input(
             "A name or string is longer than a TDMS file can hold.",
-        )
-        .into());
+        ));
     }
     Ok(())
 }
 
+fn invalid_input(message: &str) -> TdmsError {
+    std::io::Error::new(std::io::ErrorKind::InvalidInput, message).into()
+}
+
 struct DataStreamWriter<'a, F: Write, W: TdmsWriter<F>> {
     index: &'a mut Index,
     writer: &'a mut W,
@@ -170,8 +173,14 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         if values.is_empty() {
             return Err(TdmsError::ZeroLengthDataBlock);
         }
+        // There is one entry for each object in a segment.
+        let mut seen = HashSet::new();
         for path in channels {
-            check_string_length(path.as_ref().path())?;
+            let path = path.as_ref().path();
+            check_string_length(path)?;
+            if !seen.insert(path) {
+                return Err(invalid_input("A channel is listed more than once."));
+            }
         }
         let data_structures = raw_data
             .data_structure()
-- 
2.43.0


From 74f8a6686805a5201c4cc627e2fe6b3d57c77a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 21/24] fix: don't take what follows a segment for its data
 when it was completed while opening

---
 src/file/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 766f162..e2d4973 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -88,7 +88,14 @@ fn build_index(file: &mut (impl Read + Seek)) -> Result<(Index, Option<TailRepai
         if meta_data_end.max(segment_end) > file_end {
             //It could have been extended since we started.
             file_end = file.seek(SeekFrom::End(0))?;
-            file.seek(SeekFrom::Start(meta_data_start))?;
+
+            //It could also have been completed and be followed by others by now.
+            let mut current_lead_in = [0u8; LEAD_IN_BYTES as usize];
+            file.seek(SeekFrom::Start(position))?;
+            read_up_to(file, &mut current_lead_in)?;
+            if current_lead_in != lead_in {
+                continue;
+            }
         }
 
         if segment.toc.contains_meta_data && meta_data_end > file_end {
-- 
2.43.0


From 3e590b35e94de8b9aa49d3c6c61567bb48e13125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 22/24] fix: leave what was added since the opening began to a
 later one

---
 src/file/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index e2d4973..8bae5a4 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -65,6 +65,10 @@ fn build_index(file: &mut (impl Read + Seek)) -> Result<(Index, Option<TailRepai
 
     loop {
         let position = index.next_segment_start();
+        if position >= file_end {
+            //What is added from now on could belong to the last segment.
+            return Ok((index, None));
+        }
         file.seek(SeekFrom::Start(position))?;
 
         let mut lead_in = [0u8; LEAD_IN_BYTES as usize];
-- 
2.43.0


From 723fb7d39b2a2f19c16f447497453455ab34310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:10 +0000
Subject: [PATCH 23/24] fix: don't take a lead in that changes while it is read

---
 src/file/mod.rs | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 8bae5a4..bf85645 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -69,10 +69,9 @@ fn build_index(file: &mut (impl Read + Seek)) -> Result<(Index, Option<TailRepai
             //What is added from now on could belong to the last segment.
             return Ok((index, None));
         }
-        file.seek(SeekFrom::Start(position))?;
 
         let mut lead_in = [0u8; LEAD_IN_BYTES as usize];
-        match read_up_to(file, &mut lead_in)? {
+        match read_lead_in(file, position, &mut lead_in)? {
             0 => return Ok((index, None)),
             n if n < lead_in.len() => {
                 if n >= SEGMENT_TAG.len() {
@@ -95,8 +94,7 @@ fn build_index(file: &mut (impl Read + Seek)) -> Result<(Index, Option<TailRepai
 
             //It could also have been completed and be followed by others by now.
             let mut current_lead_in = [0u8; LEAD_IN_BYTES as usize];
-            file.seek(SeekFrom::Start(position))?;
-            read_up_to(file, &mut current_lead_in)?;
+            read_lead_in(file, position, &mut current_lead_in)?;
             if current_lead_in != lead_in {
                 continue;
             }
@@ -120,18 +118,47 @@ fn build_index(file: &mut (impl Read + Seek)) -> Result<(Index, Option<TailRepai
     }
 }
 
+/// Read the lead in at the position, as far as it is there.
+///
+/// A writer could be changing it, so if it takes several reads then until it is the same twice.
+fn read_lead_in(
+    file: &mut (impl Read + Seek),
+    position: u64,
+    lead_in: &mut [u8; LEAD_IN_BYTES as usize],
+) -> Result<usize, TdmsError> {
+    file.seek(SeekFrom::Start(position))?;
+    let (mut length, reads) = read_up_to(file, lead_in)?;
+    if reads <= 1 {
+        return Ok(length);
+    }
+    loop {
+        let previous = (length, *lead_in);
+        file.seek(SeekFrom::Start(position))?;
+        length = read_up_to(file, lead_in)?.0;
+        if (length, *lead_in) == previous {
+            return Ok(length);
+        }
+    }
+}
+
 /// Read until the buffer is full or the end of the file.
-fn read_up_to(file: &mut impl Read, buffer: &mut [u8]) -> Result<usize, TdmsError> {
+///
+/// Returns the number of bytes and of the reads it took.
+fn read_up_to(file: &mut impl Read, buffer: &mut [u8]) -> Result<(usize, usize), TdmsError> {
     let mut length = 0;
+    let mut reads = 0;
     while length < buffer.len() {
         match file.read(&mut buffer[length..]) {
             Ok(0) => break,
-            Ok(n) => length += n,
+            Ok(n) => {
+                length += n;
+                reads += 1;
+            }
             Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
             Err(e) => return Err(e.into()),
         }
     }
-    Ok(length)
+    Ok((length, reads))
 }
 
 /// The lead in that the incomplete last segment must get so that it ends at the end of the file.
-- 
2.43.0


From 6d78e46ed2cc9c2795983402ae5d2e4c0d06515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:23 +0000
Subject: [PATCH 24/24] fix: leave a channel that a segment lists without data
 out of its samples

---
 src/index/building.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/index/building.rs b/src/index/building.rs
index d04cd97..ab80d78 100644
--- a/src/index/building.rs
+++ b/src/index/building.rs
@@ -22,6 +22,9 @@ pub struct ActiveObject {
     /// The latest metadata listed the object as having no data, so readers may not
     /// expect data for it until it is listed with data again.
     pub listed_without_data: bool,
+    /// There is data for the object. Not so from a segment with data that lists the
+    /// object as having none, until it is listed with data again.
+    has_data: bool,
 }
 
 impl ActiveObject {
@@ -35,10 +38,12 @@ impl ActiveObject {
             path,
             number_of_samples,
             listed_without_data: false,
+            has_data: true,
         }
     }
     fn update(&mut self, meta: &ObjectMetaData) {
         self.listed_without_data = false;
+        self.has_data = true;
         if let RawDataIndex::RawData(ref raw) = meta.raw_data_index {
             self.number_of_samples = raw.number_of_values;
         }
@@ -80,7 +85,7 @@ impl super::Index {
                 match obj.raw_data_index {
                     RawDataIndex::None => {
                         self.update_meta_object(obj)?;
-                        self.mark_listed_without_data(&obj.path);
+                        self.mark_listed_without_data(&obj.path, segment.toc.contains_raw_data);
                     }
                     _ => self.update_or_activate_data_object(obj)?,
                 }
@@ -112,6 +117,7 @@ impl super::Index {
     fn get_active_raw_data_meta(&self) -> Vec<RawDataMeta> {
         self.active_objects
             .iter()
+            .filter(|ao| ao.has_data)
             .map(|ao| {
                 ao.get_object_data(&self.objects)
                     .latest_data_format
@@ -132,7 +138,8 @@ impl super::Index {
 
         self.data_blocks.push(block);
 
-        for (channel_index, active_object) in self.active_objects.iter_mut().enumerate() {
+        let active_objects = self.active_objects.iter_mut().filter(|ao| ao.has_data);
+        for (channel_index, active_object) in active_objects.enumerate() {
             let number_of_samples = active_object
                 .number_of_samples
                 .checked_mul(chunks as u64)
@@ -157,13 +164,18 @@ impl super::Index {
     }
 
     /// Note that an object has been listed without data, if it is active.
-    fn mark_listed_without_data(&mut self, path: ObjectPath) {
+    ///
+    /// A segment without any data does not tell if there is data for the object in the next one.
+    fn mark_listed_without_data(&mut self, path: ObjectPath, segment_has_data: bool) {
         if let Some(active_object) = self
             .active_objects
             .iter_mut()
             .find(|active_object| active_object.path == path)
         {
             active_object.listed_without_data = true;
+            if segment_has_data {
+                active_object.has_data = false;
+            }
         }
     }
 
-- 
2.43.0

