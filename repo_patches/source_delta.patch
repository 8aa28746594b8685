From bf4770ec6c94257926782b4c2e06b8bd1168d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 1/8] fix: finishing a writer configured with 255 index levels
 no longer overflows

---
 src/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index ba45e39..c4b4c58 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -289,7 +289,8 @@ impl<W: io::Write> Writer<W> {
             index_block_offset,
             compression_type: self.compression_type,
             entries_count: self.entries_count,
-            index_levels: self.index_block_writers.len() as u8 - 1,
+            // There can be up to 256 index block writers, subtract before converting.
+            index_levels: (self.index_block_writers.len() - 1) as u8,
         };
 
         metadata.write_into(&mut self.writer)?;
-- 
2.43.0


From 78684ec6422943bad9fdaebfc44b90cfb8e98107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 2/8] fix: zlib compression levels above 10 no longer panic in
 debug builds

---
 src/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index 3575070..e613ba3 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -110,7 +110,8 @@ fn zlib_decompress<R: io::Read>(_data: R, _out: &mut Vec<u8>) -> io::Result<()>
 #[cfg(feature = "zlib")]
 fn zlib_compress(data: &[u8], level: u32) -> io::Result<Cow<[u8]>> {
     use std::io::Write;
-    let compression = flate2::Compression::new(level);
+    // The highest level that flate2 supports is 10, it panics above it in debug builds.
+    let compression = flate2::Compression::new(level.min(10));
     let mut encoder = flate2::write::ZlibEncoder::new(Vec::new(), compression);
     encoder.write_all(data)?;
     encoder.finish().map(Cow::Owned)
-- 
2.43.0


From 4e4ad3a80f6b75e10c08e9b895308bfaaac301e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 3/8] fix: record the offset of reloaded index blocks so
 cursors with several index levels stay right

---
 src/reader/reader_cursor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/reader_cursor.rs b/src/reader/reader_cursor.rs
index 94d6326..6282b09 100644
--- a/src/reader/reader_cursor.rs
+++ b/src/reader/reader_cursor.rs
@@ -350,7 +350,7 @@ impl IndexBlockCursor {
             FN: FnMut(&mut BlockCursor<Block>) -> Option<(&[u8], &[u8])>,
         {
             match blocks.split_last_mut() {
-                Some(((_offset, cursor), head)) => {
+                Some(((block_offset, cursor), head)) => {
                     match (mov)(cursor) {
                         Some((_key, _offset)) => Ok(cursor.current()),
                         None => {
@@ -365,6 +365,7 @@ impl IndexBlockCursor {
                                     reader.seek(SeekFrom::Start(offset))?;
                                     *cursor = Block::new(reader, compression_type)
                                         .map(Block::into_cursor)?;
+                                    *block_offset = offset;
 
                                     // We return the result of the call has is. If it returns None
                                     // it means we are not able to execute the `mov` function.
-- 
2.43.0


From 275331a5768cdf9b68f7bed1fa6c6d580172b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:40 +0000
Subject: [PATCH 4/8] verification hook: small sorter buffers and varint access
 under cfg(grenad_verif)

---
 src/lib.rs    | 8 ++++++++
 src/sorter.rs | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8897178..106df74 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(grenad_verif)
+
 #![doc(
     html_favicon_url = "https://raw.githubusercontent.com/meilisearch/grenad/main/assets/grenad-pomegranate.ico?raw=true"
 )]
@@ -220,6 +222,12 @@ pub use self::sorter::{
 };
 pub use self::writer::{Writer, WriterBuilder};
 
+/// Private items that verification needs.
+#[cfg(grenad_verif)]
+pub mod verif {
+    pub use crate::varint::{varint_decode32, varint_encode32};
+}
+
 pub type Result<T, U = Infallible> = std::result::Result<T, Error<U>>;
 
 /// Sometimes we need to use an unsafe trick to make the compiler happy.
diff --git a/src/sorter.rs b/src/sorter.rs
index 8a36dd6..dce0aa2 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -14,9 +14,15 @@ use bytemuck::{cast_slice, cast_slice_mut, Pod, Zeroable};
 
 use crate::count_write::CountWrite;
 
+#[cfg(not(grenad_verif))]
 const INITIAL_SORTER_VEC_SIZE: usize = 131_072; // 128KB
+#[cfg(grenad_verif)]
+const INITIAL_SORTER_VEC_SIZE: usize = 64;
 const DEFAULT_SORTER_MEMORY: usize = 1_073_741_824; // 1GB
+#[cfg(not(grenad_verif))]
 const MIN_SORTER_MEMORY: usize = 10_485_760; // 10MB
+#[cfg(grenad_verif)]
+const MIN_SORTER_MEMORY: usize = 160;
 
 const DEFAULT_NB_CHUNKS: usize = 25;
 const MIN_NB_CHUNKS: usize = 1;
-- 
2.43.0


From 5686283848f5f829b1d53bcc5d2d0810e08a02d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 5/8] fix: an invalid format version returned by a chunk
 creator or a chunk no longer panics

---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4933c30..d751f30 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,7 +19,8 @@ impl<U> Error<U> {
         match self {
             Error::Io(io) => Error::Io(io),
             Error::InvalidCompressionType => Error::InvalidCompressionType,
-            _ => panic!("cannot convert a merge error"),
+            Error::InvalidFormatVersion => Error::InvalidFormatVersion,
+            Error::Merge(_) => panic!("cannot convert a merge error"),
         }
     }
 }
-- 
2.43.0


From 7b64ba41e3c31672dea926e36cec552aa61a942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 6/8] fix: an UnexpectedEof error from the source no longer
 ends an lz4 block early

---
 src/compression.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index e613ba3..d6f2405 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -203,9 +203,12 @@ fn zstd_compress(_data: &[u8], _level: u32) -> io::Result<Cow<[u8]>> {
 // --------- lz4 ---------
 
 #[cfg(feature = "lz4")]
-fn lz4_decompress<R: io::Read>(data: R, out: &mut Vec<u8>) -> io::Result<()> {
+fn lz4_decompress<R: io::Read>(mut data: R, out: &mut Vec<u8>) -> io::Result<()> {
     use io::Read;
-    lz4_flex::frame::FrameDecoder::new(data).read_to_end(out).map(drop)
+    // The decoder takes an `UnexpectedEof` error from its reader for the end of the frame.
+    let mut input = Vec::new();
+    data.read_to_end(&mut input)?;
+    lz4_flex::frame::FrameDecoder::new(&input[..]).read_to_end(out).map(drop)
 }
 
 #[cfg(not(feature = "lz4"))]
-- 
2.43.0


From 485029581e930f1f0126e06f364dbe939a412103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 7/8] fix: do not wrap around the size of a huge sorter buffer

Rounding a size within 15 bytes of usize::MAX up to the size of an
EntryBound overflowed: a panic about arithmetic in debug builds, and in
release builds a zero-sized allocation (undefined behaviour) followed by an
endless reallocation. Refuse it as any other impossible allocation.
---
 src/sorter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sorter.rs b/src/sorter.rs
index dce0aa2..9faf2e3 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -392,7 +392,13 @@ impl EntryBoundAlignedBuffer {
     /// Allocates a new buffer of the given size, it is correctly aligned to store `EntryBound`s.
     fn new(size: usize) -> EntryBoundAlignedBuffer {
         let entry_bound_size = size_of::<EntryBound>();
-        let size = size.div_ceil(entry_bound_size) * entry_bound_size;
+        // A size that can't be rounded up must not wrap around to a smaller allocation.
+        let Some(size) = size.checked_next_multiple_of(entry_bound_size) else {
+            panic!(
+                "the allocator is unable to allocate that much memory ({} bytes requested)",
+                size
+            );
+        };
         let layout = Layout::from_size_align(size, align_of::<EntryBound>()).unwrap();
         let ptr = unsafe { alloc(layout) };
         let Some(ptr) = NonNull::new(ptr) else {
-- 
2.43.0


From 5d49799d1f4f965ca60b9a59c0a3e9b0391da260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 8/8] verification hook: one cfg each for the small constants,
 the varints and a writer that goes on from a far offset

---
 src/count_write.rs | 8 ++++++++
 src/lib.rs         | 5 ++---
 src/writer.rs      | 9 +++++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/count_write.rs b/src/count_write.rs
index 75835b0..3f6dfbc 100644
--- a/src/count_write.rs
+++ b/src/count_write.rs
@@ -41,3 +41,11 @@ impl<W: Write> Write for CountWrite<W> {
         self.inner.flush()
     }
 }
+
+#[cfg(grenad_verif_writer)]
+impl<W> CountWrite<W> {
+    /// Counts on from `count`.
+    pub fn verif_continue(&mut self, count: u64) {
+        self.count = count as _;
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 106df74..e8e4545 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,4 @@
-#![allow(unexpected_cfgs)] // cfg(grenad_verif)
-
+#![allow(unexpected_cfgs)] // cfg(grenad_verif*)
 #![doc(
     html_favicon_url = "https://raw.githubusercontent.com/meilisearch/grenad/main/assets/grenad-pomegranate.ico?raw=true"
 )]
@@ -223,7 +222,7 @@ pub use self::sorter::{
 pub use self::writer::{Writer, WriterBuilder};
 
 /// Private items that verification needs.
-#[cfg(grenad_verif)]
+#[cfg(grenad_verif_varint)]
 pub mod verif {
     pub use crate::varint::{varint_decode32, varint_encode32};
 }
diff --git a/src/writer.rs b/src/writer.rs
index c4b4c58..0b3b00c 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -316,6 +316,15 @@ fn compress_and_write_block<W: io::Write>(
     Ok(())
 }
 
+#[cfg(grenad_verif_writer)]
+impl<W> Writer<W> {
+    /// Goes on as if this many bytes and entries had already been written.
+    pub fn verif_continue(&mut self, offset: u64, entries: u64) {
+        self.writer.verif_continue(offset);
+        self.entries_count = entries as _;
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::io::Cursor;
-- 
2.43.0

