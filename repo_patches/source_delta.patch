From 976c6736345283eb000cdba4f6164fc925e5fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:55 +0000
Subject: [PATCH 01/19] fix: TokioReader reads the whole requested range

A zero-length buffer made every read return nothing, and short reads were treated as end of file.
---
 src/reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3ac1317..51e7e88 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -112,9 +112,10 @@ impl<T: tokio::io::AsyncRead + tokio::io::AsyncSeek + Unpin + Send + Debug> Toki
 
         file.seek(SeekFrom::Start(range.start)).await?;
 
-        let to_read = range.end - range.start;
-        let mut buffer = Vec::with_capacity(to_read as usize);
-        let read = file.read(&mut buffer).await? as u64;
+        // Read until the range is complete: a single `read` may return fewer bytes than requested.
+        let to_read = range.end.saturating_sub(range.start);
+        let mut buffer = Vec::new();
+        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
         if read != to_read {
             return Err(AsyncTiffError::EndOfFile(to_read, read));
         }
-- 
2.43.0


From 30056c980876680c89c28be9927431f3c68b259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:12 +0000
Subject: [PATCH 02/19] fix: undo the predictor of planar tiles band by band

The predictor of a band-separated tile relates neighbouring pixels of one band; undoing it with the
stride of all bands gave wrong pixels for every planar image with a predictor.
---
 src/tile.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 5b586b2..1dd6922 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -122,6 +122,12 @@ impl Tile {
             }
         };
 
+        // Bands of planar tiles are stored, and thus predicted, one after the other.
+        let predictor_samples = match self.planar_configuration {
+            PlanarConfiguration::Chunky => samples,
+            PlanarConfiguration::Planar => 1,
+        };
+
         // Apply predictor on the full encoded tile width, then crop afterward.
         let decoded = match self.predictor {
             Predictor::None => {
@@ -131,12 +137,12 @@ impl Tile {
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
                 self.endianness,
-                samples,
+                predictor_samples,
                 bits_per_sample,
                 tile_width,
             ),
             Predictor::FloatingPoint => {
-                unpredict_float(decoded_tile, samples, bits_per_sample, tile_width)?
+                unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
         };
 
-- 
2.43.0


From 15b6f395623e10cc83e493c8320878a3a0c8dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:37 +0000
Subject: [PATCH 03/19] fix: planar tiles of unexpected size are an error, not
 a debug panic

The assertion fired for damaged bands and for every 1-bit planar tile, whose bands are packed.
---
 src/tile.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 1dd6922..47633ff 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -100,10 +100,7 @@ impl Tile {
                 self.lerc_parameters.as_deref(),
             )?,
             CompressedBytes::Planar(band_bytes) => {
-                let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-                let total_size =
-                    band_bytes.len() * tile_width * (self.height as usize) * bytes_per_sample;
-                let mut result = Vec::with_capacity(total_size);
+                let mut result = Vec::new();
 
                 for band_data in band_bytes {
                     let decoded_band = decoder.decode_tile(
@@ -117,7 +114,6 @@ impl Tile {
                     result.extend_from_slice(&decoded_band);
                 }
 
-                debug_assert_eq!(result.len(), total_size);
                 result
             }
         };
-- 
2.43.0


From b653c4c118203c738656934f406a3a4c95264aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:14 +0000
Subject: [PATCH 04/19] fix: predictors reject partial rows and unsupported
 depths instead of panicking

---
 src/predictor.rs | 38 +++++++++++++++++++++++++++++++++-----
 src/tile.rs      |  2 +-
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/predictor.rs b/src/predictor.rs
index c272ab4..3aa60a1 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -57,9 +57,19 @@ pub(crate) fn unpredict_hdiff(
     samples: usize,
     bits_per_sample: u16,
     tile_width: usize,
-) -> Vec<u8> {
-    let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-    let row_stride = tile_width * samples * bytes_per_sample;
+) -> AsyncTiffResult<Vec<u8>> {
+    let bytes_per_sample = match bits_per_sample {
+        0..=8 => 1,
+        9..=16 => 2,
+        17..=32 => 4,
+        33..=64 => 8,
+        _ => {
+            return Err(AsyncTiffError::General(format!(
+                "Horizontal predictor not supported for {bits_per_sample}-bit samples"
+            )))
+        }
+    };
+    let row_stride = row_stride(buffer.len(), tile_width, samples, bytes_per_sample)?;
 
     fix_endianness(&mut buffer, endianness, bits_per_sample);
 
@@ -67,7 +77,25 @@ pub(crate) fn unpredict_hdiff(
         rev_hpredict_row(row, bits_per_sample, samples);
     }
 
-    buffer
+    Ok(buffer)
+}
+
+/// The number of bytes in one row, if `buffer_len` is a whole number of rows.
+fn row_stride(
+    buffer_len: usize,
+    tile_width: usize,
+    samples: usize,
+    bytes_per_sample: usize,
+) -> AsyncTiffResult<usize> {
+    tile_width
+        .checked_mul(samples)
+        .and_then(|n| n.checked_mul(bytes_per_sample))
+        .filter(|&stride| stride > 0 && buffer_len.is_multiple_of(stride))
+        .ok_or_else(|| {
+            AsyncTiffError::General(format!(
+                "Decoded tile length {buffer_len} is not a whole number of rows"
+            ))
+        })
 }
 
 /// Reverse one row of horizontal differencing, dispatched by bit depth.
@@ -119,7 +147,7 @@ pub(crate) fn unpredict_float(
     tile_width: usize,
 ) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize) / 8;
-    let row_stride = tile_width * samples * bytes_per_sample;
+    let row_stride = row_stride(buffer.len(), tile_width, samples, bytes_per_sample)?;
     let mut out = vec![0u8; buffer.len()];
 
     for (in_row, out_row) in buffer
diff --git a/src/tile.rs b/src/tile.rs
index 47633ff..8bd3bc2 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -136,7 +136,7 @@ impl Tile {
                 predictor_samples,
                 bits_per_sample,
                 tile_width,
-            ),
+            )?,
             Predictor::FloatingPoint => {
                 unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
-- 
2.43.0


From ce5bc3f74889493bb10293fe75af0021039a2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 05/19] fix: overflowing array shapes are an error

---
 src/array.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/array.rs b/src/array.rs
index 2acfea0..c2fc92e 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -29,7 +29,12 @@ impl Array {
         shape: [usize; 3],
         data_type: Option<DataType>,
     ) -> AsyncTiffResult<Self> {
-        let expected_len = shape[0] * shape[1] * shape[2];
+        let expected_len = shape[0]
+            .checked_mul(shape[1])
+            .and_then(|n| n.checked_mul(shape[2]))
+            .ok_or_else(|| {
+                AsyncTiffError::General(format!("Array shape {shape:?} is too large"))
+            })?;
 
         let typed_data = if data_type == Some(DataType::Bool) {
             let required_bytes = expected_len.div_ceil(8);
-- 
2.43.0


From 2b4cf52139f5ff2fa371697739fd71cee7be018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:21 +0000
Subject: [PATCH 06/19] fix: invalid LZW data is an error, not a panic

---
 src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0266d5d..9d30ba5 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -240,8 +240,9 @@ impl Decoder for LZWDecoder {
     ) -> AsyncTiffResult<Vec<u8>> {
         // https://github.com/image-rs/image-tiff/blob/90ae5b8e54356a35e266fb24e969aafbcb26e990/src/decoder/stream.rs#L147
         let mut decoder = weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8);
-        let decoded = decoder.decode(&buffer).expect("failed to decode LZW data");
-        Ok(decoded)
+        decoder
+            .decode(&buffer)
+            .map_err(|err| AsyncTiffError::General(format!("failed to decode LZW data: {err}")))
     }
 }
 
-- 
2.43.0


From b7daff83a3309fcebccc00f3786e7d4c8192e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:24 +0000
Subject: [PATCH 07/19] fix: JPEG tables shorter than a marker do not underflow

---
 src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 9d30ba5..6491cb1 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -380,8 +380,8 @@ fn decode_modern_jpeg(
             let mut reader = reader;
             reader.read_exact(&mut [0; 2])?;
 
-            Box::new(Cursor::new(&jpeg_tables[..jpeg_tables.len() - 2]).chain(reader))
-                as Box<dyn Read>
+            let tables_len = jpeg_tables.len().saturating_sub(2);
+            Box::new(Cursor::new(&jpeg_tables[..tables_len]).chain(reader)) as Box<dyn Read>
         }
         None => Box::new(reader),
     };
-- 
2.43.0


From 9f31980f4b5d635ababcd0aa89ba716534801ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:32 +0000
Subject: [PATCH 08/19] fix: metadata offsets near the integer limit are an
 error instead of overflowing

---
 src/metadata/fetch.rs  | 12 ++++++++----
 src/metadata/reader.rs | 18 +++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/metadata/fetch.rs b/src/metadata/fetch.rs
index b18fcb1..a6e5fbe 100644
--- a/src/metadata/fetch.rs
+++ b/src/metadata/fetch.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use async_trait::async_trait;
 use bytes::Bytes;
 
-use crate::error::AsyncTiffResult;
+use crate::error::{AsyncTiffResult, TiffError};
 use crate::reader::{AsyncFileReader, EndianAwareReader, Endianness};
 
 /// A data source that can be used with [`TiffMetadataReader`][crate::metadata::TiffMetadataReader]
@@ -64,13 +64,17 @@ impl<'a, F: MetadataFetch> MetadataCursor<'a, F> {
 
     /// Advance cursor position by a set amount
     pub(crate) fn advance(&mut self, amount: u64) {
-        self.offset += amount;
+        self.offset = self.offset.saturating_add(amount);
     }
 
     /// Read the given number of bytes, advancing the internal cursor state by the same amount.
     pub(crate) async fn read(&mut self, length: u64) -> AsyncTiffResult<EndianAwareReader> {
-        let range = self.offset as _..(self.offset + length) as _;
-        self.offset += length;
+        let end = self
+            .offset
+            .checked_add(length)
+            .ok_or(TiffError::IntSizeError)?;
+        let range = self.offset..end;
+        self.offset = end;
         let bytes = self.fetch.fetch(range).await?;
         Ok(EndianAwareReader::new(bytes, self.endianness))
     }
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 34f6a7f..b7dbc4b 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -203,6 +203,17 @@ impl ImageFileDirectoryReader {
         })
     }
 
+    /// The byte offset of the entry with the specified index.
+    fn entry_offset(&self, idx: u64) -> AsyncTiffResult<u64> {
+        let offset = self
+            .ifd_entry_byte_size
+            .checked_mul(idx)
+            .and_then(|n| n.checked_add(self.tag_count_byte_size))
+            .and_then(|n| n.checked_add(self.ifd_start_offset))
+            .ok_or(TiffError::IntSizeError)?;
+        Ok(offset)
+    }
+
     /// Manually read the tag with the specified index.
     ///
     /// Panics if the tag index is out of range of the tag count.
@@ -215,8 +226,7 @@ impl ImageFileDirectoryReader {
         tag_idx: u64,
     ) -> AsyncTiffResult<(Tag, TagValue)> {
         assert!(tag_idx < self.tag_count);
-        let tag_offset =
-            self.ifd_start_offset + self.tag_count_byte_size + (self.ifd_entry_byte_size * tag_idx);
+        let tag_offset = self.entry_offset(tag_idx)?;
         let (tag_name, tag_value) =
             read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await?;
         Ok((tag_name, tag_value))
@@ -238,9 +248,7 @@ impl ImageFileDirectoryReader {
     /// Finish this reader, reading the byte offset of the next IFD
     pub async fn finish<F: MetadataFetch>(self, fetch: &F) -> AsyncTiffResult<Option<u64>> {
         // The byte offset for reading the next ifd
-        let next_ifd_byte_offset = self.ifd_start_offset
-            + self.tag_count_byte_size
-            + (self.ifd_entry_byte_size * self.tag_count);
+        let next_ifd_byte_offset = self.entry_offset(self.tag_count)?;
         let mut cursor =
             MetadataCursor::new_with_offset(fetch, self.endianness, next_ifd_byte_offset);
 
-- 
2.43.0


From 4a3667fd921a97d093a8b84003e04ccf81df8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:36 +0000
Subject: [PATCH 09/19] fix: malformed directory entries are an error, not a
 panic

---
 src/metadata/reader.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index b7dbc4b..482627b 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -279,9 +279,12 @@ async fn read_tag<F: MetadataFetch>(
     let tag_name = Tag::from_u16_exhaustive(cursor.read_u16().await?);
 
     let tag_type_code = cursor.read_u16().await?;
-    let tag_type = Type::from_u16(tag_type_code).expect(
-        "Unknown tag type {tag_type_code}. TODO: we should skip entries with unknown tag types.",
-    );
+    // TODO: we should skip entries with unknown tag types.
+    let tag_type = Type::from_u16(tag_type_code).ok_or_else(|| {
+        TiffError::FormatError(TiffFormatError::Format(format!(
+            "unknown type {tag_type_code} of tag {tag_name:?}"
+        )))
+    })?;
     let count = if bigtiff {
         cursor.read_u64().await?
     } else {
@@ -321,7 +324,7 @@ async fn read_tag_value<F: MetadataFetch>(
         | Type::IFD8 => 8,
     };
 
-    let value_byte_length = count.checked_mul(tag_size).unwrap();
+    let value_byte_length = count.checked_mul(tag_size).ok_or(TiffError::IntSizeError)?;
 
     // Case 2: there is one value.
     if count == 1 {
@@ -364,11 +367,10 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::SLONG => TagValue::Signed(data.read_i32()?),
             Type::FLOAT => TagValue::Float(data.read_f32()?),
             Type::ASCII => {
-                if data.as_ref()[0] == 0 {
+                if data.read_u8()? == 0 {
                     TagValue::Ascii("".to_string())
                 } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
+                    return Err(TiffError::FormatError(TiffFormatError::InvalidTag).into());
                 }
             }
             Type::LONG8 => {
@@ -423,8 +425,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::Byte(data.read_u8().unwrap()))
-                            .collect(),
+                            .map(|_| Ok(TagValue::Byte(data.read_u8()?)))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 };
             }
@@ -432,8 +434,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::SignedByte(data.read_i8().unwrap()))
-                            .collect(),
+                            .map(|_| Ok(TagValue::SignedByte(data.read_i8()?)))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 }
             }
@@ -446,8 +448,7 @@ async fn read_tag_value<F: MetadataFetch>(
                     let v = v.trim_matches(char::from(0));
                     return Ok(TagValue::Ascii(v.into()));
                 } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
+                    return Err(TiffError::FormatError(TiffFormatError::InvalidTag).into());
                 }
             }
             Type::SHORT => {
-- 
2.43.0


From 58eaadde38e8a3188eaf0b3f99f0c7d40282e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:53 +0000
Subject: [PATCH 10/19] fix: do not reserve memory for unverified counts and
 ranges

---
 src/metadata/cache.rs  |  6 ++----
 src/metadata/reader.rs | 44 +++++++++++++++++++++++++-----------------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index 80f498f..c33f8a8 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -39,9 +39,6 @@ impl SequentialBlockCache {
 
     /// Slice out the given range from the cached buffers
     fn slice(&self, range: Range<u64>) -> Bytes {
-        // The size of the output buffer
-        let out_len = (range.end - range.start) as usize;
-
         // The remaining range of bytes required. This range is updated as we traverse buffers, so
         // the indexes are relative to the current buffer.
         let mut remaining = range;
@@ -82,6 +79,7 @@ impl SequentialBlockCache {
         if out_buffers.len() == 1 {
             out_buffers.into_iter().next().unwrap()
         } else {
+            let out_len = out_buffers.iter().map(|b| b.len()).sum();
             let mut out = BytesMut::with_capacity(out_len);
             for b in out_buffers {
                 out.extend_from_slice(&b);
@@ -158,7 +156,7 @@ impl<F: MetadataFetch + Send + Sync> MetadataFetch for ReadaheadMetadataCache<F>
         let start_len = cache.len;
         let needed = range.end.saturating_sub(start_len);
         let fetch_size = self.next_fetch_size(start_len).max(needed);
-        let fetch_range = start_len..start_len + fetch_size;
+        let fetch_range = start_len..start_len.saturating_add(fetch_size);
 
         // Perform the fetch while holding mutex
         // (this is OK because the mutex is async)
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 482627b..d34aefe 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -237,7 +237,7 @@ impl ImageFileDirectoryReader {
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
     /// of the next IFD.
     pub async fn read<F: MetadataFetch>(&self, fetch: &F) -> AsyncTiffResult<ImageFileDirectory> {
-        let mut tags = HashMap::with_capacity(self.tag_count as usize);
+        let mut tags = HashMap::with_capacity(initial_capacity(self.tag_count));
         for tag_idx in 0..self.tag_count {
             let (tag, value) = self.read_tag(fetch, tag_idx).await?;
             tags.insert(tag, value);
@@ -267,6 +267,11 @@ impl ImageFileDirectoryReader {
     }
 }
 
+/// How many elements to reserve for a count that is stored in the file and not yet verified.
+fn initial_capacity(count: u64) -> usize {
+    count.min(1024) as usize
+}
+
 /// Read a single tag from the cursor
 async fn read_tag<F: MetadataFetch>(
     fetch: &F,
@@ -517,63 +522,63 @@ async fn read_tag_value<F: MetadataFetch>(
         // TODO check if this could give wrong results
         // at a different endianess of file/computer.
         Type::BYTE | Type::UNDEFINED => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::Byte(cursor.read_u8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SBYTE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::SignedByte(cursor.read_i8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::Short(cursor.read_u16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SSHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::SignedShort(cursor.read_i16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::LONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::Unsigned(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::Signed(cursor.read_i32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::FLOAT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::Float(cursor.read_f32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::DOUBLE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::Double(cursor.read_f64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::RATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::Rational(
                     cursor.read_u32().await?,
@@ -583,7 +588,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::SRATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::SRational(
                     cursor.read_i32().await?,
@@ -593,37 +598,40 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::LONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::UnsignedBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::SignedBig(cursor.read_i64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::Ifd(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::with_capacity(initial_capacity(count));
             for _ in 0..count {
                 v.push(TagValue::IfdBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::ASCII => {
-            let mut out = vec![0; count as _];
-            let mut buf = cursor.read(count).await?;
-            buf.read_exact(&mut out)?;
+            let buf = cursor.read(count).await?;
+            let mut out = buf.as_ref().to_vec();
+            if (out.len() as u64) < count {
+                return Err(AsyncTiffError::EndOfFile(count, out.len() as u64));
+            }
+            out.truncate(count as usize);
 
             // Strings may be null-terminated, so we trim anything downstream of the null byte
             if let Some(first) = out.iter().position(|&b| b == 0) {
-- 
2.43.0


From 9324eacb4321478510d72511f8e1333c04278e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:18 +0000
Subject: [PATCH 11/19] fix: a directory chain that loops is an error instead
 of an endless read

---
 src/metadata/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index d34aefe..01ff68c 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 
 use bytes::Bytes;
@@ -24,6 +24,8 @@ pub struct TiffMetadataReader {
     endianness: Endianness,
     bigtiff: bool,
     next_ifd_offset: Option<u64>,
+    /// The offsets of the IFDs that have been read, to detect cycles.
+    visited: HashSet<u64>,
 }
 
 impl TiffMetadataReader {
@@ -79,6 +81,7 @@ impl TiffMetadataReader {
             endianness,
             bigtiff,
             next_ifd_offset: Some(first_ifd_location),
+            visited: HashSet::new(),
         })
     }
 
@@ -112,11 +115,15 @@ impl TiffMetadataReader {
         fetch: &F,
     ) -> AsyncTiffResult<Option<ImageFileDirectory>> {
         if let Some(ifd_start) = self.next_ifd_offset {
+            if self.visited.contains(&ifd_start) {
+                return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
+            }
             let ifd_reader =
                 ImageFileDirectoryReader::open(fetch, ifd_start, self.bigtiff, self.endianness)
                     .await?;
             let ifd = ifd_reader.read(fetch).await?;
             let next_ifd_offset = ifd_reader.finish(fetch).await?;
+            self.visited.insert(ifd_start);
             self.next_ifd_offset = next_ifd_offset;
             Ok(Some(ifd))
         } else {
-- 
2.43.0


From f7c67f88d03c4f1ea6fd40f0b537ca1e5df4e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:35 +0000
Subject: [PATCH 12/19] fix: missing or mistyped required tags are an error,
 not a panic

---
 src/ifd.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 4303248..f6c2f9e 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -224,11 +224,19 @@ impl ImageFileDirectory {
                 Tag::MaxSampleValue => max_sample_value = Some(value.into_u16_vec()?),
                 Tag::XResolution => match value {
                     TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for XResolution."),
+                    _ => {
+                        return Err(TiffError::FormatError(
+                            TiffFormatError::InvalidTagValueType(tag),
+                        ))
+                    }
                 },
                 Tag::YResolution => match value {
                     TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for YResolution."),
+                    _ => {
+                        return Err(TiffError::FormatError(
+                            TiffFormatError::InvalidTagValueType(tag),
+                        ))
+                    }
                 },
                 Tag::PlanarConfiguration => {
                     planar_configuration = PlanarConfiguration::from_u16(value.into_u16()?)
@@ -372,7 +380,17 @@ impl ImageFileDirectory {
             geo_key_directory = Some(GeoKeyDirectory::from_tags(tags)?);
         }
 
-        let samples_per_pixel = samples_per_pixel.expect("samples_per_pixel not found");
+        let required = |tag| TiffError::FormatError(TiffFormatError::RequiredTagNotFound(tag));
+
+        let samples_per_pixel = samples_per_pixel.ok_or_else(|| required(Tag::SamplesPerPixel))?;
+        let bits_per_sample: Vec<u16> =
+            bits_per_sample.ok_or_else(|| required(Tag::BitsPerSample))?;
+        if bits_per_sample.is_empty() {
+            return Err(TiffError::FormatError(TiffFormatError::RequiredTagEmpty(
+                Tag::BitsPerSample,
+            ))
+            .into());
+        }
         let planar_configuration = if let Some(planar_configuration) = planar_configuration {
             planar_configuration
         } else if samples_per_pixel == 1 {
@@ -385,14 +403,14 @@ impl ImageFileDirectory {
         Ok(Self {
             endianness,
             new_subfile_type,
-            image_width: image_width.expect("image_width not found"),
-            image_height: image_height.expect("image_height not found"),
-            bits_per_sample: bits_per_sample.expect("bits per sample not found"),
+            image_width: image_width.ok_or_else(|| required(Tag::ImageWidth))?,
+            image_height: image_height.ok_or_else(|| required(Tag::ImageLength))?,
+            bits_per_sample,
             // Defaults to no compression
             // https://web.archive.org/web/20240329145331/https://www.awaresystems.be/imaging/tiff/tifftags/compression.html
             compression: compression.unwrap_or(Compression::None),
             photometric_interpretation: photometric_interpretation
-                .expect("photometric interpretation not found"),
+                .ok_or_else(|| required(Tag::PhotometricInterpretation))?,
             document_name,
             image_description,
             strip_offsets,
-- 
2.43.0


From a5822ebba2a9bb2aeac3abd946deee6df4c483df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:13 +0000
Subject: [PATCH 13/19] fix: malformed geo key directories are an error, not a
 panic

---
 src/ifd.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index f6c2f9e..5689bf8 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -303,16 +303,20 @@ impl ImageFileDirectory {
         // We need to actually parse the GeoKeyDirectory after parsing all other tags because the
         // GeoKeyDirectory relies on `GeoAsciiParamsTag` having been parsed.
         if let Some(data) = geo_key_directory_data {
-            let mut chunks = data.chunks(4);
+            let mut chunks = data.chunks_exact(4);
 
             let header = chunks
                 .next()
-                .expect("If the geo key directory exists, a header should exist.");
+                .ok_or_else(|| invalid_geo_keys("header is missing"))?;
             let key_directory_version = header[0];
-            assert_eq!(key_directory_version, 1);
+            if key_directory_version != 1 {
+                return Err(invalid_geo_keys("unsupported version").into());
+            }
 
             let key_revision = header[1];
-            assert_eq!(key_revision, 1);
+            if key_revision != 1 {
+                return Err(invalid_geo_keys("unsupported revision").into());
+            }
 
             let _key_minor_revision = header[2];
             let number_of_keys = header[3];
@@ -321,7 +325,7 @@ impl ImageFileDirectory {
             for _ in 0..number_of_keys {
                 let chunk = chunks
                     .next()
-                    .expect("There should be a chunk for each key.");
+                    .ok_or_else(|| invalid_geo_keys("key is missing"))?;
 
                 let key_id = chunk[0];
                 let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
@@ -346,9 +350,11 @@ impl ImageFileDirectory {
 
                     let geo_ascii_params = geo_ascii_params
                         .as_ref()
-                        .expect("GeoAsciiParamsTag exists but geo_ascii_params does not.");
+                        .ok_or_else(|| invalid_geo_keys("GeoAsciiParams is missing"))?;
                     let value_offset = value_offset as usize;
-                    let mut s = &geo_ascii_params[value_offset..value_offset + count as usize];
+                    let mut s = geo_ascii_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or_else(|| invalid_geo_keys("text is outside GeoAsciiParams"))?;
 
                     // It seems that this string subslice might always include the final |
                     // character?
@@ -363,15 +369,15 @@ impl ImageFileDirectory {
 
                     let geo_double_params = geo_double_params
                         .as_ref()
-                        .expect("GeoDoubleParamsTag exists but geo_double_params does not.");
+                        .ok_or_else(|| invalid_geo_keys("GeoDoubleParams is missing"))?;
                     let value_offset = value_offset as usize;
+                    let values = geo_double_params
+                        .get(value_offset..value_offset + count as usize)
+                        .ok_or_else(|| invalid_geo_keys("value is outside GeoDoubleParams"))?;
                     let value = if count == 1 {
-                        TagValue::Double(geo_double_params[value_offset])
+                        TagValue::Double(values[0])
                     } else {
-                        let x = geo_double_params[value_offset..value_offset + count as usize]
-                            .iter()
-                            .map(|val| TagValue::Double(*val))
-                            .collect();
+                        let x = values.iter().map(|val| TagValue::Double(*val)).collect();
                         TagValue::List(x)
                     };
                     tags.insert(tag_name, value);
@@ -790,6 +796,12 @@ impl ImageFileDirectory {
     }
 }
 
+fn invalid_geo_keys(reason: &str) -> TiffError {
+    TiffError::FormatError(TiffFormatError::Format(format!(
+        "GeoKeyDirectory: {reason}"
+    )))
+}
+
 /// A description of the byte ranges for a tile, which may differ based on whether the TIFF is in
 /// chunky or planar format.
 pub enum TileByteRange {
-- 
2.43.0


From 8e56533dfb609ea289f680abf78790afa4a9e54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:35 +0000
Subject: [PATCH 14/19] fix: tiles outside the grid or the tile tables are an
 error

An x beyond the last column silently returned a tile of the next row; other positions, and tables
that are too short, panicked.
---
 src/ifd.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 5689bf8..a636161 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -765,7 +765,7 @@ impl ImageFileDirectory {
     ) -> AsyncTiffResult<Tile> {
         let byte_ranges = self
             .tile_byte_range(x, y)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+            .ok_or_else(|| self.no_byte_range_error(&[(x, y)]))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes.into_tile(x, y, self))
     }
@@ -778,7 +778,7 @@ impl ImageFileDirectory {
     ) -> AsyncTiffResult<Vec<Tile>> {
         let byte_ranges = self
             .tiles_byte_ranges(xy)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+            .ok_or_else(|| self.no_byte_range_error(xy))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes
             .into_iter()
@@ -787,9 +787,23 @@ impl ImageFileDirectory {
             .collect())
     }
 
+    /// The reason why there is no byte range for one of the tiles.
+    fn no_byte_range_error(&self, xy: &[(usize, usize)]) -> AsyncTiffError {
+        if self.tile_offsets.is_none() || self.tile_count().is_none() {
+            return AsyncTiffError::General("Not a tiled TIFF".to_string());
+        }
+        xy.iter()
+            .find(|(x, y)| self.tile_byte_range(*x, *y).is_none())
+            .map(|(x, y)| AsyncTiffError::TileIndexError(*x as u32, *y as u32))
+            .unwrap_or_else(|| AsyncTiffError::General("Not a tiled TIFF".to_string()))
+    }
+
     /// Return the number of x/y tiles in the IFD
     /// Returns `None` if this is not a tiled TIFF
     pub fn tile_count(&self) -> Option<(usize, usize)> {
+        if self.tile_width? == 0 || self.tile_height? == 0 {
+            return None;
+        }
         let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
         let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
         Some((x_count as usize, y_count as usize))
@@ -826,24 +840,28 @@ impl TileByteRange {
         let tile_offsets = ifd.tile_offsets.as_deref()?;
         let tile_byte_counts = ifd.tile_byte_counts.as_deref()?;
         let (tiles_per_row, tiles_per_col) = ifd.tile_count()?;
+        if x >= tiles_per_row || y >= tiles_per_col {
+            return None;
+        }
+        let block_range = |idx: usize| {
+            let offset = *tile_offsets.get(idx)?;
+            let byte_count = *tile_byte_counts.get(idx)?;
+            Some(offset..offset.checked_add(byte_count)?)
+        };
         match ifd.planar_configuration {
             PlanarConfiguration::Chunky => {
                 let idx = (y * tiles_per_row) + x;
-                let offset = tile_offsets[idx];
-                let byte_count = tile_byte_counts[idx];
-                Some(TileByteRange::Chunky(offset..(offset + byte_count)))
+                Some(TileByteRange::Chunky(block_range(idx)?))
             }
             PlanarConfiguration::Planar => {
                 let tiles_per_band = tiles_per_row * tiles_per_col;
                 let num_bands = ifd.samples_per_pixel as usize;
                 let band_ranges = (0..num_bands)
                     .map(|band| {
-                        let band_idx = (band * tiles_per_band) + (y * tiles_per_row) + x;
-                        let offset = tile_offsets[band_idx];
-                        let byte_count = tile_byte_counts[band_idx];
-                        offset..(offset + byte_count)
+                        let band_start = band.checked_mul(tiles_per_band)?;
+                        block_range(band_start.checked_add((y * tiles_per_row) + x)?)
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<Option<Vec<_>>>()?;
                 Some(TileByteRange::Planar(band_ranges))
             }
         }
-- 
2.43.0


From 9e08fdf19bfd410afe27ee7186b59af91092672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:27 +0000
Subject: [PATCH 15/19] fix: HTTP reader does not return the wrong bytes when a
 server ignores the range

Also, an empty range underflowed.
---
 src/reader.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 51e7e88..b447789 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -201,6 +201,11 @@ impl ReqwestReader {
     }
 
     async fn make_range_request(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
+        // An empty range cannot be expressed in HTTP.
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         let url = self.url.clone();
         let client = self.client.clone();
         // HTTP range is inclusive, so we need to subtract 1 from the end
@@ -211,6 +216,13 @@ impl ReqwestReader {
             .send()
             .await?
             .error_for_status()?;
+        // A server may ignore the Range header and answer with the whole resource.
+        if response.status() != reqwest::StatusCode::PARTIAL_CONTENT {
+            return Err(crate::error::AsyncTiffError::General(format!(
+                "Expected partial content for a range request, got status {}",
+                response.status()
+            )));
+        }
         let bytes = response.bytes().await?;
         Ok(bytes)
     }
-- 
2.43.0


From a926597e2477c9be87d72860d9ecb111959ffd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:24 +0000
Subject: [PATCH 16/19] fix: empty ranges through ObjectReader are empty
 instead of an error

---
 src/reader.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index b447789..f81bcdb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -154,6 +154,11 @@ impl ObjectReader {
     async fn make_range_request(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
         use object_store::ObjectStoreExt;
 
+        // Object stores reject empty ranges, which is how unwritten (sparse) tiles are stored.
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         let range = range.start as _..range.end as _;
         self.store
             .get_range(&self.path, range)
@@ -174,14 +179,24 @@ impl AsyncFileReader for ObjectReader {
     where
         Self: Send,
     {
-        let ranges = ranges
-            .into_iter()
+        // Object stores reject empty ranges, which is how unwritten (sparse) tiles are stored.
+        let non_empty = ranges
+            .iter()
+            .filter(|r| !r.is_empty())
             .map(|r| r.start as _..r.end as _)
             .collect::<Vec<_>>();
-        self.store
-            .get_ranges(&self.path, &ranges)
-            .await
-            .map_err(|e| e.into())
+        let mut buffers = self
+            .store
+            .get_ranges(&self.path, &non_empty)
+            .await?
+            .into_iter();
+        Ok(ranges
+            .iter()
+            .filter_map(|r| match r.is_empty() {
+                true => Some(Bytes::new()),
+                false => buffers.next(),
+            })
+            .collect())
     }
 }
 
-- 
2.43.0


From ff76feef6a371c2ca503c238d5a7e05a0e4a06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:27 +0000
Subject: [PATCH 17/19] fix: a failed or cancelled read_all_ifds does not skip
 directories

---
 src/metadata/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 01ff68c..a6d90f3 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -136,10 +136,16 @@ impl TiffMetadataReader {
         &mut self,
         fetch: &F,
     ) -> AsyncTiffResult<Vec<ImageFileDirectory>> {
+        // Only move on once all IFDs were read: a failed or cancelled call must not skip any.
+        let mut position = Self {
+            visited: self.visited.clone(),
+            ..*self
+        };
         let mut ifds = vec![];
-        while let Some(ifd) = self.read_next_ifd(fetch).await? {
+        while let Some(ifd) = position.read_next_ifd(fetch).await? {
             ifds.push(ifd);
         }
+        *self = position;
         Ok(ifds)
     }
 
-- 
2.43.0


From 37e8b369dffcc639af3acd7adf38148829cd2ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:35 +0000
Subject: [PATCH 18/19] fix: 16-bit JPEG 2000 tiles no longer panic

Casting Vec<u16> to Vec<u8> always fails in bytemuck (alignment mismatch); copy the bytes instead.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 6491cb1..70b0945 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -275,7 +275,7 @@ impl Decoder for JPEG2kDecoder {
             jpeg2k::ImagePixelData::L16(items)
             | jpeg2k::ImagePixelData::La16(items)
             | jpeg2k::ImagePixelData::Rgb16(items)
-            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_vec(items)),
+            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_slice(&items).to_vec()),
         }
     }
 }
-- 
2.43.0


From a33c354d4686312f4d5c2827432c3c4a8dafb06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 19/19] fix: the HTTP reader refuses another part than the one
 it asked for

A 206 response may carry a different or smaller range than requested, which
Content-Range tells. It was returned as if it were the requested range.
---
 src/reader.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f81bcdb..1d6701a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -224,10 +224,10 @@ impl ReqwestReader {
         let url = self.url.clone();
         let client = self.client.clone();
         // HTTP range is inclusive, so we need to subtract 1 from the end
-        let range = format!("bytes={}-{}", range.start, range.end - 1);
+        let header = format!("bytes={}-{}", range.start, range.end - 1);
         let response = client
             .get(url)
-            .header("Range", range)
+            .header("Range", header)
             .send()
             .await?
             .error_for_status()?;
@@ -238,11 +238,41 @@ impl ReqwestReader {
                 response.status()
             )));
         }
+        let part = response
+            .headers()
+            .get("Content-Range")
+            .and_then(|value| parse_content_range(value.to_str().ok()?));
         let bytes = response.bytes().await?;
+        // A server may also answer with a different or smaller part than the requested one. Only
+        // the end of the resource may cut it short.
+        if let Some((part, total)) = part {
+            let last = match total {
+                Some(total) => range.end.min(total),
+                None => part.end.min(range.end),
+            };
+            if part.is_empty()
+                || part != (range.start..last)
+                || bytes.len() as u64 != part.end - part.start
+            {
+                return Err(crate::error::AsyncTiffError::General(format!(
+                    "Requested bytes {range:?}, but got {} bytes of {part:?}",
+                    bytes.len()
+                )));
+            }
+        }
         Ok(bytes)
     }
 }
 
+/// Parse a `Content-Range: bytes first-last/total` header. The total is `None` if it is unknown.
+#[cfg(feature = "reqwest")]
+fn parse_content_range(value: &str) -> Option<(Range<u64>, Option<u64>)> {
+    let (range, total) = value.strip_prefix("bytes ")?.split_once('/')?;
+    let (first, last) = range.split_once('-')?;
+    let range = first.parse().ok()?..last.parse::<u64>().ok()?.checked_add(1)?;
+    Some((range, total.parse().ok()))
+}
+
 #[cfg(feature = "reqwest")]
 #[cfg_attr(target_arch = "wasm32", async_trait(?Send))]
 #[cfg_attr(not(target_arch = "wasm32"), async_trait)]
-- 
2.43.0

