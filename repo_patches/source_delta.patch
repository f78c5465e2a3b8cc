From e10198631a93d19ed27147f0c668f691d677d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 01/26] fix: skip filtered pages with a loop instead of
 recursion in PageReader

---
 src/read/page/reader.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index a28ef69..a2ce7ff 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -141,22 +141,25 @@ impl<R: Read> Iterator for PageReader<R> {
     type Item = Result<CompressedPage>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut buffer = std::mem::take(&mut self.scratch);
-        let maybe_maybe_page = next_page(self, &mut buffer).transpose();
-        if let Some(ref maybe_page) = maybe_maybe_page {
-            if let Ok(CompressedPage::Data(page)) = maybe_page {
-                // check if we should filter it (only valid for data pages)
-                let to_consume = (self.pages_filter)(&self.descriptor, page.header());
-                if !to_consume {
-                    self.scratch = std::mem::take(&mut buffer);
-                    return self.next();
+        // a loop and not a recursion: the number of filtered pages is controlled by the file
+        loop {
+            let mut buffer = std::mem::take(&mut self.scratch);
+            let maybe_maybe_page = next_page(self, &mut buffer).transpose();
+            if let Some(ref maybe_page) = maybe_maybe_page {
+                if let Ok(CompressedPage::Data(page)) = maybe_page {
+                    // check if we should filter it (only valid for data pages)
+                    let to_consume = (self.pages_filter)(&self.descriptor, page.header());
+                    if !to_consume {
+                        self.scratch = std::mem::take(&mut buffer);
+                        continue;
+                    }
                 }
+            } else {
+                // no page => we take back the buffer
+                self.scratch = std::mem::take(&mut buffer);
             }
-        } else {
-            // no page => we take back the buffer
-            self.scratch = std::mem::take(&mut buffer);
+            return maybe_maybe_page;
         }
-        maybe_maybe_page
     }
 }
 
-- 
2.43.0


From 9da87c9204a4c8b36f7d0558ddee875cb767ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 02/26] fix: skip pages without selected rows with a loop
 instead of recursion in IndexedPageReader

---
 src/read/page/indexed_reader.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 167d923..0587082 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -188,22 +188,18 @@ impl<R: Read + Seek> Iterator for IndexedPageReader<R> {
             State::MaybeDict => {
                 self.state = State::Data;
                 if let Some(dict) = self.read_dict() {
-                    Some(dict)
-                } else {
-                    self.next()
+                    return Some(dict);
                 }
             }
-            State::Data => {
-                if let Some(page) = self.pages.pop_front() {
-                    if page.selected_rows.is_empty() {
-                        self.next()
-                    } else {
-                        Some(self.read_page(page.start, page.length, page.selected_rows))
-                    }
-                } else {
-                    None
-                }
+            State::Data => {}
+        }
+
+        // a loop and not a recursion: the number of skipped pages is arbitrary
+        while let Some(page) = self.pages.pop_front() {
+            if !page.selected_rows.is_empty() {
+                return Some(self.read_page(page.start, page.length, page.selected_rows));
             }
         }
+        None
     }
 }
-- 
2.43.0


From 804a5a23c5e3b07e94f878db351aed16724614b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 03/26] fix: skip empty runs with a loop instead of recursion
 in HybridRleDecoder

---
 src/encoding/hybrid_rle/mod.rs | 35 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/encoding/hybrid_rle/mod.rs b/src/encoding/hybrid_rle/mod.rs
index 5886f46..6a652e1 100644
--- a/src/encoding/hybrid_rle/mod.rs
+++ b/src/encoding/hybrid_rle/mod.rs
@@ -84,26 +84,25 @@ impl<'a> Iterator for HybridRleDecoder<'a> {
         if self.remaining == 0 {
             return None;
         };
-        let result = match &mut self.state {
-            State::Single(opt_val) => {
-                // make sure to take so that next calls will return 'None'
-                // indicating that the iterator is finished.
-                opt_val.take()
+        // a loop and not a recursion: the data may contain any number of empty runs
+        loop {
+            let result = match &mut self.state {
+                State::Single(opt_val) => {
+                    // make sure to take so that next calls will return 'None'
+                    // indicating that the iterator is finished.
+                    opt_val.take()
+                }
+                State::Bitpacked(decoder) => decoder.next(),
+                State::Rle(iter) => iter.next(),
+                State::None => Some(0),
+            };
+            if let Some(result) = result {
+                self.remaining -= 1;
+                return Some(Ok(result));
             }
-            State::Bitpacked(decoder) => decoder.next(),
-            State::Rle(iter) => iter.next(),
-            State::None => Some(0),
-        };
-        if let Some(result) = result {
-            self.remaining -= 1;
-            Some(Ok(result))
-        } else {
             match read_next(&mut self.decoder, self.remaining) {
-                Ok(state) => {
-                    self.state = state;
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
+                Ok(state) => self.state = state,
+                Err(e) => return Some(Err(e)),
             }
         }
     }
-- 
2.43.0


From 557cdb95957e63695bfc47596220f86c494a23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 04/26] fix: advance past exhausted runs, iteratively, in
 HybridRleBooleanIter

---
 src/deserialize/hybrid_rle.rs | 37 ++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/deserialize/hybrid_rle.rs b/src/deserialize/hybrid_rle.rs
index 4f457f3..82238e8 100644
--- a/src/deserialize/hybrid_rle.rs
+++ b/src/deserialize/hybrid_rle.rs
@@ -162,19 +162,25 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(run) = &mut self.current_run {
-            match run {
-                HybridBooleanState::Bitmap(bitmap) => bitmap.next().map(Ok),
-                HybridBooleanState::Repeated(value, remaining) => if *remaining == 0 {
-                    None
-                } else {
-                    *remaining -= 1;
-                    Some(*value)
+        loop {
+            if let Some(run) = &mut self.current_run {
+                let item = match run {
+                    HybridBooleanState::Bitmap(bitmap) => bitmap.next(),
+                    HybridBooleanState::Repeated(value, remaining) => {
+                        if *remaining == 0 {
+                            None
+                        } else {
+                            *remaining -= 1;
+                            Some(*value)
+                        }
+                    }
+                };
+                if let Some(item) = item {
+                    return Some(Ok(item));
                 }
-                .map(Ok),
             }
-        } else if let Some(run) = self.iter.next() {
-            let run = run.map(|run| match run {
+            // no run or the run is exhausted => advance to the next one
+            let run = self.iter.next()?.map(|run| match run {
                 HybridEncoded::Bitmap(bitmap, length) => {
                     HybridBooleanState::Bitmap(BitmapIter::new(bitmap, 0, length))
                 }
@@ -183,14 +189,9 @@ where
                 }
             });
             match run {
-                Ok(run) => {
-                    self.current_run = Some(run);
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
+                Ok(run) => self.current_run = Some(run),
+                Err(e) => return Some(Err(e)),
             }
-        } else {
-            None
         }
     }
 
-- 
2.43.0


From 46ff891abab94ad973bc98ec9b75e5d3d5c4627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 05/26] fix: error when the footer is shorter than its declared
 length

---
 src/read/metadata.rs | 10 ++++++++--
 src/read/stream.rs   | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 2381d0e..952e4ca 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -54,10 +54,13 @@ pub fn read_metadata_with_size<R: Read + Seek>(
     reader.seek(SeekFrom::End(-(default_end_len as i64)))?;
 
     let mut buffer = Vec::with_capacity(default_end_len);
-    reader
+    let bytes_read = reader
         .by_ref()
         .take(default_end_len as u64)
         .read_to_end(&mut buffer)?;
+    if bytes_read != default_end_len {
+        return Err(Error::oos("The file is shorter than expected"));
+    }
 
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
@@ -85,7 +88,10 @@ pub fn read_metadata_with_size<R: Read + Seek>(
 
         buffer.clear();
         buffer.try_reserve(footer_len as usize)?;
-        reader.take(footer_len).read_to_end(&mut buffer)?;
+        let bytes_read = reader.take(footer_len).read_to_end(&mut buffer)?;
+        if bytes_read as u64 != footer_len {
+            return Err(Error::oos("The file is shorter than expected"));
+        }
 
         &buffer
     };
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 3f59b74..ce6e6e7 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -42,10 +42,13 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
 
     let mut buffer = vec![];
     buffer.try_reserve(default_end_len)?;
-    reader
+    let bytes_read = reader
         .take(default_end_len as u64)
         .read_to_end(&mut buffer)
         .await?;
+    if bytes_read != default_end_len {
+        return Err(Error::oos("The file is shorter than expected"));
+    }
 
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
@@ -72,10 +75,13 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
 
         buffer.clear();
         buffer.try_reserve(footer_len as usize)?;
-        reader
+        let bytes_read = reader
             .take(footer_len as u64)
             .read_to_end(&mut buffer)
             .await?;
+        if bytes_read as u64 != footer_len {
+            return Err(Error::oos("The file is shorter than expected"));
+        }
 
         &buffer
     };
-- 
2.43.0


From ef95245582c88a18026396535db7671c2250afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 06/26] fix: error when a column chunk is shorter than declared

---
 src/read/column/mod.rs    | 5 ++++-
 src/read/column/stream.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index b5bc44c..08a7474 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -196,7 +196,10 @@ where
 
     let mut chunk = vec![];
     chunk.try_reserve(length as usize)?;
-    reader.by_ref().take(length).read_to_end(&mut chunk)?;
+    let bytes_read = reader.by_ref().take(length).read_to_end(&mut chunk)?;
+    if bytes_read as u64 != length {
+        return Err(Error::oos("The column chunk is shorter than declared"));
+    }
     Ok(chunk)
 }
 
diff --git a/src/read/column/stream.rs b/src/read/column/stream.rs
index d8419e7..0e8d81d 100644
--- a/src/read/column/stream.rs
+++ b/src/read/column/stream.rs
@@ -20,7 +20,10 @@ where
 
     let mut chunk = vec![];
     chunk.try_reserve(length as usize)?;
-    reader.take(length as u64).read_to_end(&mut chunk).await?;
+    let bytes_read = reader.take(length as u64).read_to_end(&mut chunk).await?;
+    if bytes_read as u64 != length {
+        return Err(Error::oos("The column chunk is shorter than declared"));
+    }
     Result::Ok(chunk)
 }
 
-- 
2.43.0


From 1c3ba1feda1581e293c1dedae87c8275cb53f246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 07/26] fix: error when a bloom filter is shorter than declared

---
 src/bloom_filter/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 21f05d9..cb1a7be 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -43,7 +43,10 @@ pub fn read<R: Read + Seek>(
 
     bitset.clear();
     bitset.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(bitset)?;
+    let bytes_read = reader.by_ref().take(length as u64).read_to_end(bitset)?;
+    if bytes_read != length {
+        return Err(Error::oos("The bloom filter is shorter than declared"));
+    }
 
     Ok(())
 }
-- 
2.43.0


From c791c4cf1922171ad5941c3d3012bad387975846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 08/26] fix: error when an indexed page is shorter than
 declared

---
 src/read/page/indexed_reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 0587082..d6c9b1a 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -56,7 +56,10 @@ fn read_page<R: Read + Seek>(
     // read [header][data] to buffer
     buffer.clear();
     buffer.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(buffer)?;
+    let bytes_read = reader.by_ref().take(length as u64).read_to_end(buffer)?;
+    if bytes_read != length {
+        return Err(Error::oos("The page is shorter than declared"));
+    }
 
     // deserialize [header]
     let mut reader = Cursor::new(buffer);
-- 
2.43.0


From 658284b8b781d3df62a9ef2710188cd68b7ac9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 09/26] fix: error when page indexes are shorter than declared

---
 src/read/indexes/read.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 546dd79..1e68bdb 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -91,7 +91,10 @@ pub fn read_columns_indexes<R: Read + Seek>(
 
     let mut data = vec![];
     data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
+    let bytes_read = reader.by_ref().take(length as u64).read_to_end(&mut data)?;
+    if bytes_read != length {
+        return Err(Error::oos("The page indexes are shorter than declared"));
+    }
 
     deserialize_column_indexes(chunks, &data, lengths)
 }
@@ -126,7 +129,10 @@ pub fn read_pages_locations<R: Read + Seek>(
 
     let mut data = vec![];
     data.try_reserve(length)?;
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
+    let bytes_read = reader.by_ref().take(length as u64).read_to_end(&mut data)?;
+    if bytes_read != length {
+        return Err(Error::oos("The page indexes are shorter than declared"));
+    }
 
     deserialize_page_locations(&data, chunks.len())
 }
-- 
2.43.0


From d2676811bbfc172cbfab42d97ad3e35b219f35a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:23 +0000
Subject: [PATCH 10/26] fix: check the size and the length of skipped pages in
 the async page reader

---
 src/read/page/stream.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 2b114f4..e59d198 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -92,18 +92,21 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
 
             let read_size: usize = page_header.compressed_page_size.try_into()?;
 
+            if read_size > max_page_size {
+                Err(Error::WouldOverAllocate)?
+            }
+
             if let Some(data_header) = data_header {
                 if !pages_filter(&descriptor, &data_header) {
                     // page to be skipped, we sill need to seek
-                    copy(reader.take(read_size as u64), &mut sink()).await?;
+                    let bytes_read = copy(reader.take(read_size as u64), &mut sink()).await?;
+                    if bytes_read != read_size as u64 {
+                        Err(Error::oos("The page header reported the wrong page size"))?
+                    }
                     continue
                 }
             }
 
-            if read_size > max_page_size {
-                Err(Error::WouldOverAllocate)?
-            }
-
             // followed by the buffer
             scratch.clear();
             scratch.try_reserve(read_size)?;
-- 
2.43.0


From 9b0cd10e7d5c4c8236350628a0f8b859f8d4eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 11/26] fix: reject compressed pages that decompress to fewer
 bytes than declared

---
 src/compression.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index bd7fd81..f1f9694 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -162,7 +162,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             use snap::raw::{decompress_len, Decoder};
 
             let len = decompress_len(input_buf)?;
-            if len > output_buf.len() {
+            if len != output_buf.len() {
                 return Err(Error::OutOfSpec(String::from("snappy header out of spec")));
             }
             Decoder::new()
@@ -176,14 +176,18 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             "decompress with snappy".to_string(),
         )),
         #[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
-        Compression::Lz4Raw => lz4_flex::block::decompress_into(input_buf, output_buf)
-            .map(|_| {})
-            .map_err(|e| e.into()),
+        Compression::Lz4Raw => {
+            let size = lz4_flex::block::decompress_into(input_buf, output_buf)?;
+            check_decompressed_size(size, output_buf.len())
+        }
         #[cfg(feature = "lz4")]
         Compression::Lz4Raw => {
-            lz4::block::decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
-                .map_err(|e| e.into())
+            let size = lz4::block::decompress_to_buffer(
+                input_buf,
+                Some(output_buf.len() as i32),
+                output_buf,
+            )?;
+            check_decompressed_size(size, output_buf.len())
         }
         #[cfg(all(not(feature = "lz4"), not(feature = "lz4_flex")))]
         Compression::Lz4Raw => Err(Error::FeatureNotActive(
@@ -193,8 +197,9 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
 
         #[cfg(any(feature = "lz4_flex", feature = "lz4"))]
         Compression::Lz4 => try_decompress_hadoop(input_buf, output_buf).or_else(|_| {
-            lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
+            let size =
+                lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)?;
+            check_decompressed_size(size, output_buf.len())
         }),
 
         #[cfg(all(not(feature = "lz4_flex"), not(feature = "lz4")))]
@@ -279,10 +284,24 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
             break;
         }
     }
-    if input_len == 0 {
+    if input_len != 0 {
+        Err(Error::oos("Not all input are consumed"))
+    } else if output_len != 0 {
+        Err(Error::oos("Not all output was decompressed"))
+    } else {
+        Ok(())
+    }
+}
+
+#[cfg(any(feature = "lz4", feature = "lz4_flex"))]
+#[inline]
+fn check_decompressed_size(size: usize, expected: usize) -> Result<()> {
+    if size == expected {
         Ok(())
     } else {
-        Err(Error::oos("Not all input are consumed"))
+        Err(Error::oos(
+            "The decompressed data is smaller than its declared size",
+        ))
     }
 }
 
-- 
2.43.0


From 305494eb4af81d6e3c59b0a108145ca7441c3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:25 +0000
Subject: [PATCH 12/26] fix: clear the scratch buffer before compressing a page
 into it

---
 src/write/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index d8ead08..4fc7aa8 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -84,9 +84,10 @@ fn compress_dict(
 /// Errors if the compressor fails
 pub fn compress(
     page: Page,
-    compressed_buffer: Vec<u8>,
+    mut compressed_buffer: Vec<u8>,
     compression: CompressionOptions,
 ) -> Result<CompressedPage> {
+    compressed_buffer.clear();
     match page {
         Page::Data(page) => {
             compress_data(page, compressed_buffer, compression).map(CompressedPage::Data)
-- 
2.43.0


From b4bb1bef3b9c7f5ce6c781f3d2dfa3ed6591ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:26 +0000
Subject: [PATCH 13/26] fix: error when the declared level lengths of a v2 page
 are out of bounds

---
 src/page/mod.rs         | 16 +++++++++++-----
 src/read/compression.rs |  5 +++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 03b5425..3be2538 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -403,11 +403,17 @@ pub fn split_buffer_v2(
     rep_level_buffer_length: usize,
     def_level_buffer_length: usize,
 ) -> Result<(&[u8], &[u8], &[u8])> {
-    Ok((
-        &buffer[..rep_level_buffer_length],
-        &buffer[rep_level_buffer_length..rep_level_buffer_length + def_level_buffer_length],
-        &buffer[rep_level_buffer_length + def_level_buffer_length..],
-    ))
+    let out_of_bounds =
+        || Error::oos("The number of bytes declared in v2 levels is higher than the page size");
+    let rep = buffer
+        .get(..rep_level_buffer_length)
+        .ok_or_else(out_of_bounds)?;
+    let buffer = &buffer[rep_level_buffer_length..];
+    let def = buffer
+        .get(..def_level_buffer_length)
+        .ok_or_else(out_of_bounds)?;
+    let values = &buffer[def_level_buffer_length..];
+    Ok((rep, def, values))
 }
 
 /// Splits the page buffer into 3 slices corresponding to (encoded rep levels, encoded def levels, encoded values).
diff --git a/src/read/compression.rs b/src/read/compression.rs
index 4ebf27f..73b02b6 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -24,8 +24,9 @@ fn decompress_v2(
     //
     // We always use 0 offset for other pages other than v2, `true` flag means
     // that compression will be applied if decompressor is defined
-    let offset = (page_header.definition_levels_byte_length
-        + page_header.repetition_levels_byte_length) as usize;
+    let definition_levels_length: usize = page_header.definition_levels_byte_length.try_into()?;
+    let repetition_levels_length: usize = page_header.repetition_levels_byte_length.try_into()?;
+    let offset = definition_levels_length + repetition_levels_length;
     // When is_compressed flag is missing the page is considered compressed
     let can_decompress = page_header.is_compressed.unwrap_or(true);
 
-- 
2.43.0


From d3b0cc4a3574a9eb1e4f6d1a5cbc0dfafbf07180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 14/26] fix: a MAP, LIST or other group annotation on a
 primitive field of a textual schema is an error, not a panic

---
 src/schema/io_message/from_message.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 3434932..ef037eb 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -612,7 +612,12 @@ impl<'a> Parser<'a> {
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
             "INTERVAL" => return Err(Error::oos("Interval logical type not yet supported")),
-            _ => unreachable!(),
+            other => {
+                return Err(Error::oos(format!(
+                    "Logical type {} cannot annotate a primitive type",
+                    other
+                )))
+            }
         })
     }
 }
-- 
2.43.0


From 330cfe8fd7fbba9ad8a52ce4b39247fcec25b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 15/26] fix: file writers reject row groups and a second footer
 after end

---
 src/write/file.rs   | 5 +++++
 src/write/stream.rs | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/write/file.rs b/src/write/file.rs
index 1b28541..b76919f 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -142,6 +142,11 @@ impl<W: Write> FileWriter<W> {
         Error: From<E>,
         E: std::error::Error,
     {
+        if self.state == State::Finished {
+            return Err(Error::InvalidParameter(
+                "Write cannot be called after end".to_string(),
+            ));
+        }
         if self.offset == 0 {
             self.start()?;
         }
diff --git a/src/write/stream.rs b/src/write/stream.rs
index b750d9b..043e9a0 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -114,6 +114,11 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         Error: From<E>,
         E: std::error::Error,
     {
+        if self.state == State::Finished {
+            return Err(Error::InvalidParameter(
+                "Write cannot be called after end".to_string(),
+            ));
+        }
         if self.offset == 0 {
             self.start().await?;
         }
@@ -184,6 +189,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         );
 
         let len = end_file(&mut self.writer, metadata).await?;
+        self.state = State::Finished;
         Ok(self.offset + len)
     }
 
-- 
2.43.0


From d899a7b5d51de1333c23c4f5d71c8de85fa8e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:05 +0000
Subject: [PATCH 16/26] fix: a row group needs exactly one chunk per leaf
 column, all with the same number of rows

---
 src/write/row_group.rs | 80 ++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/src/write/row_group.rs b/src/write/row_group.rs
index 2c07cb5..ec50f17 100644
--- a/src/write/row_group.rs
+++ b/src/write/row_group.rs
@@ -56,23 +56,38 @@ impl ColumnOffsetsMetadata {
     }
 }
 
+fn column_num_rows(specs: &[PageWriteSpec]) -> Result<i64> {
+    let mut num_rows = 0;
+    specs
+        .iter()
+        .filter(|x| is_data_page(x))
+        .try_for_each(|spec| {
+            num_rows += spec.num_rows.ok_or_else(|| {
+                Error::oos("All data pages must declare the number of rows on it")
+            })? as i64;
+            Result::Ok(())
+        })?;
+    Ok(num_rows)
+}
+
 fn compute_num_rows(columns: &[(ColumnChunk, Vec<PageWriteSpec>)]) -> Result<i64> {
-    columns
-        .get(0)
-        .map(|(_, specs)| {
-            let mut num_rows = 0;
-            specs
-                .iter()
-                .filter(|x| is_data_page(x))
-                .try_for_each(|spec| {
-                    num_rows += spec.num_rows.ok_or_else(|| {
-                        Error::oos("All data pages must declare the number of rows on it")
-                    })? as i64;
-                    Result::Ok(())
-                })?;
-            Result::Ok(num_rows)
-        })
-        .unwrap_or(Ok(0))
+    let mut columns = columns.iter().map(|(_, specs)| column_num_rows(specs));
+    let num_rows = columns.next().unwrap_or(Ok(0))?;
+    columns.try_for_each(|other| {
+        if other? != num_rows {
+            return Err(Error::oos(
+                "All columns of a row group must have the same number of rows",
+            ));
+        }
+        Ok(())
+    })?;
+    Ok(num_rows)
+}
+
+fn number_of_columns_error(expected: usize) -> Error {
+    Error::InvalidParameter(format!(
+        "A row group must have exactly one column chunk for each of the {expected} leaf columns of the schema",
+    ))
 }
 
 pub fn write_row_group<
@@ -83,7 +98,7 @@ pub fn write_row_group<
     writer: &mut W,
     mut offset: u64,
     descriptors: &[ColumnDescriptor],
-    columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
+    mut columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
     ordinal: usize,
 ) -> Result<(RowGroup, Vec<Vec<PageWriteSpec>>, u64)>
 where
@@ -91,17 +106,23 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
-
     let initial = offset;
-    let columns = column_iter
-        .map(|(descriptor, page_iter)| {
+    let written = descriptors
+        .iter()
+        .map(|descriptor| {
+            let page_iter = columns
+                .next()
+                .ok_or_else(|| number_of_columns_error(descriptors.len()))?;
             let (column, page_specs, size) =
                 write_column_chunk(writer, offset, descriptor, page_iter?)?;
             offset += size;
             Ok((column, page_specs))
         })
         .collect::<Result<Vec<_>>>()?;
+    if columns.next().is_some() {
+        return Err(number_of_columns_error(descriptors.len()));
+    }
+    let columns = written;
     let bytes_written = offset - initial;
 
     let num_rows = compute_num_rows(&columns)?;
@@ -150,7 +171,7 @@ pub async fn write_row_group_async<
     writer: &mut W,
     mut offset: u64,
     descriptors: &[ColumnDescriptor],
-    columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
+    mut columns: DynIter<'a, std::result::Result<DynStreamingIterator<'a, CompressedPage, E>, E>>,
     ordinal: usize,
 ) -> Result<(RowGroup, Vec<Vec<PageWriteSpec>>, u64)>
 where
@@ -158,16 +179,21 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
-
     let initial = offset;
-    let mut columns = vec![];
-    for (descriptor, page_iter) in column_iter {
+    let mut written = vec![];
+    for descriptor in descriptors {
+        let page_iter = columns
+            .next()
+            .ok_or_else(|| number_of_columns_error(descriptors.len()))?;
         let (column, page_specs, size) =
             write_column_chunk_async(writer, offset, descriptor, page_iter?).await?;
         offset += size;
-        columns.push((column, page_specs));
+        written.push((column, page_specs));
+    }
+    if columns.next().is_some() {
+        return Err(number_of_columns_error(descriptors.len()));
     }
+    let columns = written;
     let bytes_written = offset - initial;
 
     let num_rows = compute_num_rows(&columns)?;
-- 
2.43.0


From fe90edf45bf2c1901de52260abbc90787c4d330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:24 +0000
Subject: [PATCH 17/26] fix: record where the dictionary page and the first
 data page of a chunk start

---
 src/write/column_chunk.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 130455e..d64f4ae 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -22,7 +22,7 @@ use crate::{
 #[cfg(feature = "async")]
 use super::page::write_page_async;
 
-use super::page::{write_page, PageWriteSpec};
+use super::page::{is_data_page, write_page, PageWriteSpec};
 use super::statistics::reduce;
 use super::DynStreamingIterator;
 
@@ -129,7 +129,16 @@ fn build_column_chunk(
         .iter()
         .map(|x| x.header_size as i64 + x.header.uncompressed_page_size as i64)
         .sum();
-    let data_page_offset = specs.first().map(|spec| spec.offset).unwrap_or(0) as i64;
+    let chunk_offset = specs.first().map(|spec| spec.offset).unwrap_or(0) as i64;
+    let data_page_offset = specs
+        .iter()
+        .find(|spec| is_data_page(spec))
+        .map(|spec| spec.offset as i64)
+        .unwrap_or(chunk_offset);
+    let dictionary_page_offset = specs
+        .iter()
+        .find(|spec| !is_data_page(spec))
+        .map(|spec| spec.offset as i64);
     let num_values = specs
         .iter()
         .map(|spec| {
@@ -193,7 +202,7 @@ fn build_column_chunk(
         key_value_metadata: None,
         data_page_offset,
         index_page_offset: None,
-        dictionary_page_offset: None,
+        dictionary_page_offset,
         statistics,
         encoding_stats: None,
         bloom_filter_offset: None,
@@ -201,7 +210,7 @@ fn build_column_chunk(
 
     Ok(ColumnChunk {
         file_path: None, // same file for now.
-        file_offset: data_page_offset + total_compressed_size,
+        file_offset: chunk_offset + total_compressed_size,
         meta_data: Some(metadata),
         offset_index_offset: None,
         offset_index_length: None,
-- 
2.43.0


From f8c7ddaf5cd66f5d01b7f42f6934201a0d4b49ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:15 +0000
Subject: [PATCH 18/26] fix: error instead of a truncated footer length when
 the metadata exceeds i32::MAX bytes

---
 src/write/file.rs   | 2 +-
 src/write/stream.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/write/file.rs b/src/write/file.rs
index b76919f..6190c38 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -25,7 +25,7 @@ pub(super) fn start_file<W: Write>(writer: &mut W) -> Result<u64> {
 pub(super) fn end_file<W: Write>(mut writer: &mut W, metadata: &ThriftFileMetaData) -> Result<u64> {
     // Write metadata
     let mut protocol = TCompactOutputProtocol::new(&mut writer);
-    let metadata_len = metadata.write_to_out_protocol(&mut protocol)? as i32;
+    let metadata_len: i32 = metadata.write_to_out_protocol(&mut protocol)?.try_into()?;
 
     // Write footer
     let metadata_bytes = metadata_len.to_le_bytes();
diff --git a/src/write/stream.rs b/src/write/stream.rs
index 043e9a0..df92d55 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -26,7 +26,10 @@ async fn end_file<W: AsyncWrite + Unpin + Send>(
 ) -> Result<u64> {
     // Write file metadata
     let mut protocol = TCompactOutputStreamProtocol::new(&mut writer);
-    let metadata_len = metadata.write_to_out_stream_protocol(&mut protocol).await? as i32;
+    let metadata_len: i32 = metadata
+        .write_to_out_stream_protocol(&mut protocol)
+        .await?
+        .try_into()?;
 
     // Write footer
     let metadata_bytes = metadata_len.to_le_bytes();
-- 
2.43.0


From 761370e4b910e67aeb149cbf137322cddc6b0e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:18 +0000
Subject: [PATCH 19/26] fix: keep the column orders when converting file
 metadata to thrift

---
 src/metadata/file_metadata.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 4d46882..3857c1b 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -1,7 +1,7 @@
 use crate::{error::Error, metadata::get_sort_order};
 
 use super::{column_order::ColumnOrder, schema_descriptor::SchemaDescriptor, RowGroupMetaData};
-use parquet_format_safe::ColumnOrder as TColumnOrder;
+use parquet_format_safe::{ColumnOrder as TColumnOrder, TypeDefinedOrder};
 
 pub use crate::thrift_format::KeyValue;
 
@@ -97,13 +97,24 @@ impl FileMetaData {
                 .collect(),
             key_value_metadata: self.key_value_metadata,
             created_by: self.created_by,
-            column_orders: None, // todo
+            column_orders: self.column_orders.and_then(column_orders_into_thrift),
             encryption_algorithm: None,
             footer_signing_key_metadata: None,
         }
     }
 }
 
+/// The thrift definition of the column orders, if all of them have one.
+fn column_orders_into_thrift(orders: Vec<ColumnOrder>) -> Option<Vec<TColumnOrder>> {
+    orders
+        .into_iter()
+        .map(|order| match order {
+            ColumnOrder::TypeDefinedOrder(_) => Some(TColumnOrder::TYPEORDER(TypeDefinedOrder {})),
+            ColumnOrder::Undefined => None,
+        })
+        .collect()
+}
+
 /// Parses [`ColumnOrder`] from Thrift definition.
 fn parse_column_orders(
     orders: &[TColumnOrder],
-- 
2.43.0


From aa8dac85cb64c3e3af36f6cfe50fbdb237166ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:41 +0000
Subject: [PATCH 20/26] fix: an invalid field id in a message schema is an
 error

---
 src/schema/io_message/from_message.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index ef037eb..4f60fd7 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -362,7 +362,11 @@ impl<'a> Parser<'a> {
 
         // Parse optional id
         let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
+            Some(parse_i32(
+                self.tokenizer.next(),
+                "Expected a field id after '=', found None",
+                "Failed to parse the field id",
+            )?)
         } else {
             self.tokenizer.backtrack();
             None
@@ -447,7 +451,11 @@ impl<'a> Parser<'a> {
 
         // Parse optional id
         let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
+            Some(parse_i32(
+                self.tokenizer.next(),
+                "Expected a field id after '=', found None",
+                "Failed to parse the field id",
+            )?)
         } else {
             self.tokenizer.backtrack();
             None
-- 
2.43.0


From b4c4508b87bffe0d4ffb50914852ae4d1803ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:28 +0000
Subject: [PATCH 21/26] fix: an error instead of a panic when reducing Int96
 statistics

---
 src/write/statistics.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index aaad15d..2e60855 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -74,7 +74,11 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
             Some(Arc::new(reduce_fix_len_binary(stats)))
         }
-        _ => todo!(),
+        PhysicalType::Int96 => {
+            return Err(Error::FeatureNotSupported(
+                "Reducing the statistics of pages of physical type Int96".to_string(),
+            ))
+        }
     })
 }
 
-- 
2.43.0


From ffce75377a492ead3d232645c3f1fb9a018025e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:00 +0000
Subject: [PATCH 22/26] fix: reduced binary statistics respect values that are
 a prefix of others

---
 src/write/statistics.rs | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index 2e60855..3443726 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -107,26 +107,12 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
 }
 
 fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
-    for (v1, v2) in a.iter().zip(b.iter()) {
-        match v1.cmp(v2) {
-            std::cmp::Ordering::Greater => {
-                if max {
-                    return a;
-                } else {
-                    return b;
-                }
-            }
-            std::cmp::Ordering::Less => {
-                if max {
-                    return b;
-                } else {
-                    return a;
-                }
-            }
-            _ => {}
-        }
+    // lexicographic order, in which a prefix comes before the longer value
+    if (a < b) == max {
+        b
+    } else {
+        a
     }
-    a
 }
 
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
-- 
2.43.0


From 5a80e0947c6c3efd70b187fee9afc83935c54a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:00 +0000
Subject: [PATCH 23/26] fix: a data page with a negative number of values is an
 error

---
 src/read/page/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index a2ce7ff..5fa8750 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -295,6 +295,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
             let _: Encoding = header.encoding.try_into()?;
             let _: Encoding = header.repetition_level_encoding.try_into()?;
             let _: Encoding = header.definition_level_encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
 
             Some(DataPageHeader::V1(header))
         }
@@ -303,6 +304,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
                 Error::oos("The page header type is a v1 data page but the v1 header is empty")
             })?;
             let _: Encoding = header.encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
             Some(DataPageHeader::V2(header))
         }
         _ => None,
-- 
2.43.0


From dc7dc1b71bd2be9e4ca8513dbff98d843ca413a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:00 +0000
Subject: [PATCH 24/26] fix: the indexed reader validates the header of data
 pages

---
 src/read/page/indexed_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index d6c9b1a..5fcc0ad 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -11,7 +11,7 @@ use crate::{
     parquet_bridge::Compression,
 };
 
-use super::reader::{finish_page, read_page_header, PageMetaData};
+use super::reader::{finish_page, get_page_header, read_page_header, PageMetaData};
 
 #[derive(Debug, Clone, Copy)]
 enum State {
@@ -64,6 +64,8 @@ fn read_page<R: Read + Seek>(
     // deserialize [header]
     let mut reader = Cursor::new(buffer);
     let page_header = read_page_header(&mut reader, 1024 * 1024)?;
+    // the encodings and counts are assumed to be valid from here on
+    let _ = get_page_header(&page_header)?;
     let header_size = reader.seek(SeekFrom::Current(0)).unwrap() as usize;
     let buffer = reader.into_inner();
 
-- 
2.43.0


From 6f18420ef3928a405aae1b75ca07d376274ad982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:00 +0000
Subject: [PATCH 25/26] fix: an error instead of an underflow when a page
 location lies before its column

---
 src/read/page/indexed_reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 5fcc0ad..dc8505b 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -159,7 +159,14 @@ impl<R: Read + Seek> IndexedPageReader<R> {
         // the column
         let (start, length) = match self.pages.get(0) {
             Some(page) => {
-                let length = (page.start - self.column_start) as usize;
+                let length = match page.start.checked_sub(self.column_start) {
+                    Some(length) => length as usize,
+                    None => {
+                        return Some(Err(Error::oos(
+                            "A page starts before the start of its column",
+                        )))
+                    }
+                };
                 if length > 0 {
                     (self.column_start, length)
                 } else {
-- 
2.43.0


From eb5222b4104bbd07a4a88b1ac1ad55ce4115e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:00 +0000
Subject: [PATCH 26/26] fix: the async page reader validates the sizes of
 skipped pages

---
 src/read/page/stream.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index e59d198..27821e6 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -97,6 +97,8 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
             }
 
             if let Some(data_header) = data_header {
+                // validated also when the page is skipped, as the synchronous reader does
+                let _: usize = page_header.uncompressed_page_size.try_into()?;
                 if !pages_filter(&descriptor, &data_header) {
                     // page to be skipped, we sill need to seek
                     let bytes_read = copy(reader.take(read_size as u64), &mut sink()).await?;
-- 
2.43.0

