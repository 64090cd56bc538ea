From 485807f23baf42adafd2028dcc9cd757209c8fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 001/110] fix: qoi decode_into must not decode past the image
 into a larger buffer

---
 crates/zune-qoi/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index a9298d5..f23edf9 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -254,6 +254,9 @@ where
                 pixels.len()
             ));
         }
+        // a larger buffer is fine, but only the image is written
+        let expected_len = self.output_buffer_size().unwrap();
+        let pixels = &mut pixels[..expected_len];
 
         match self.colorspace.num_components() {
             3 => self.decode_inner_generic::<3>(pixels)?,
-- 
2.43.0


From 5083bca9fcba651f7e88edd74c36e17346b85fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 002/110] fix: farbfeld decoding compared a byte count with a
 sample count and always failed

---
 crates/zune-farbfeld/src/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 95b7348..1a41d8c 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -122,7 +122,8 @@ where
         }
         let expected_len = self
             .output_buffer_size()
-            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?;
+            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?
+            / 2; // output_buffer_size is in bytes, sink holds 16 bit samples
 
         if sink.len() < expected_len {
             return Err(FarbFeldErrors::Generic("Too small output buffer size"));
@@ -152,7 +153,9 @@ where
     /// assert!(decoder.decode().is_err());
     /// ```
     pub fn decode(&mut self) -> Result<Vec<u16>, FarbFeldErrors> {
-        self.decode_headers()?;
+        if !self.decoded_headers {
+            self.decode_headers()?;
+        }
 
         let size = (FARBFELD_COLORSPACE.num_components()/*RGBA*/)
             .saturating_mul(self.width)
-- 
2.43.0


From c05135e120e7fff8067927cb8e538ac73207f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 003/110] fix: ppm headers must not consume pixel bytes that
 look like whitespace or comments

---
 crates/zune-ppm/src/decoder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index a169a88..451fa7c 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -252,6 +252,11 @@ where
             let value_size = get_bytes_until_whitespace(&mut self.reader, &mut byte_header)?;
             let value = &byte_header[..value_size];
 
+            if !value.starts_with(b"ENDHDR") {
+                // pixel data starts right after ENDHDR's newline
+                skip_spaces(&mut self.reader)?;
+            }
+
             match value {
                 // Notice the explicit space,
                 // It's needed
@@ -400,8 +405,9 @@ where
         skip_spaces(&mut self.reader)?;
         // read max value
         let max_value = self.get_integer()?;
-        // skip ascii space
-        skip_spaces(&mut self.reader)?;
+        // exactly one whitespace separates the header from the pixels,
+        // anything after it, even if it looks like a space, is pixel data
+        self.reader.skip(1)?;
 
         if max_value > usize::from(u16::MAX) {
             let msg = format!("MAX value {max_value} greater than 65535");
@@ -648,7 +654,7 @@ where
 /// Return a reference to all bytes preceding a whitespace.
 ///
 /// # Note
-/// This skips all whitespaces after it finds one. That is the desired implementation
+/// Only the whitespace ending the bytes is consumed
 ///
 /// # Panics
 /// If end < start
@@ -667,8 +673,6 @@ fn get_bytes_until_whitespace<T: ZByteReaderTrait>(
         if byte.is_ascii_whitespace() {
             // mark where the text ends
             end = z.position()?;
-            // skip any proceeding whitespace
-            skip_spaces(z)?;
             break;
         }
         // push the byte read
-- 
2.43.0


From c323d09040b935483dd108e593b771e0b60262d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 004/110] fix: flip pfm images of odd height by whole rows

---
 crates/zune-ppm/src/decoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index 451fa7c..3050c0c 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -599,17 +599,17 @@ where
                 };
 
                 // pfm uses bottom-top orientation, so let's fix it
-                let length = result.len() / 2;
+                let single_stride = self.width * self.colorspace.num_components();
+                // split on a row, for odd heights the middle one stays in place
+                let length = (self.height / 2) * single_stride;
 
                 let (in_img_top, in_img_bottom) = result.split_at_mut(length);
 
-                let single_stride = self.width * self.colorspace.num_components();
                 let mut stride = vec![0.; single_stride];
 
                 for (in_dim, out_dim) in in_img_top
                     .chunks_exact_mut(single_stride)
-                    .rev()
-                    .zip(in_img_bottom.chunks_exact_mut(single_stride))
+                    .zip(in_img_bottom.chunks_exact_mut(single_stride).rev())
                 {
                     // copy in_top to temp vec
                     stride.copy_from_slice(in_dim);
-- 
2.43.0


From 17603910d302fdd1340882743e273f172df16fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:54 +0000
Subject: [PATCH 005/110] fix: hdr old style runs repeat the pixel before them

---
 crates/zune-hdr/src/decoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index ed514d3..214a6a6 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -344,7 +344,7 @@ where
                 scanline[0] = 2;
                 scanline[3] = i;
 
-                self.decompress(&mut scanline[4..], self.width as i32 - 1, 0)?;
+                self.decompress(&mut scanline, self.width as i32 - 1, 4)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -412,11 +412,12 @@ where
 
                 let mut i = i32::from(run) << shift;
 
-                while width > 0 && scanline_offset > 4 && i > 0 {
-                    scanline.copy_within(scanline_offset - 4..scanline_offset, 4);
+                // repeat the previous pixel
+                while width > 0 && scanline_offset >= 4 && i > 0 {
+                    scanline.copy_within(scanline_offset - 4..scanline_offset, scanline_offset);
                     scanline_offset += 4;
                     i -= 1;
-                    width -= 4;
+                    width -= 1;
                 }
                 shift += 8;
 
-- 
2.43.0


From c7f558c148863e335ea6136dd6bdd1c3500a724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:55 +0000
Subject: [PATCH 006/110] fix: hdr exponents outside -31..31 must not wrap

---
 crates/zune-hdr/src/decoder.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 214a6a6..91770a0 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -483,12 +483,16 @@ fn convert_scanline(in_scanline: &[u8], out_scanline: &mut [f32]) {
     }
 }
 
+/// 2^exp for exp in 0..=127
+fn pow2(exp: u32) -> f32 {
+    f32::from_bits((127 + exp) << 23)
+}
 fn ldexp_pos(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
+    let pow = pow2(exp);
     x * pow
 }
 fn ldexp_neg(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
+    let pow = pow2(exp);
     x / pow
 }
 /// Fast calculation of  x*(2^exp).
@@ -510,11 +514,11 @@ fn ldexp_neg(x: f32, exp: u32) -> f32 {
 #[inline]
 fn convert_pos(val: i32, exponent: i32) -> f32 {
     let v = (val as f32) / 256.0;
-    ldexp_pos(v, exponent.unsigned_abs() & 31)
+    ldexp_pos(v, exponent.unsigned_abs())
 }
 
 #[inline]
 fn convert_neg(val: i32, exponent: i32) -> f32 {
     let v = (val as f32) / 256.0;
-    ldexp_neg(v, exponent.unsigned_abs() & 31)
+    ldexp_neg(v, exponent.unsigned_abs())
 }
-- 
2.43.0


From 8fbb3063521ac76503f3f6dc76a21a1b59497ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 007/110] fix: hdr encoder floor of negative logarithms, dark
 pixels lost their exponent

---
 crates/zune-hdr/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index 2bb9f41..cb97ea7 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -298,7 +298,7 @@ fn floor(num: f32) -> f32 {
         /* handle infinities and nan */
         return num;
     }
-    let n = num as u64;
+    let n = num as i64;
     let d = n as f32;
 
     if d == num || num >= 0.0 {
-- 
2.43.0


From cff5faaa983db072e6e1e250fda21a5b1a85a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 008/110] fix: inflate output limit did not cover literals nor
 stored blocks

---
 crates/zune-inflate/src/decoder.rs | 32 +++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 4a074bf..c51aa8b 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -602,6 +602,18 @@ impl<'a> DeflateDecoder<'a> {
                 }
                 let len = len as usize;
 
+                if dest_offset + len > self.options.limit {
+                    out_block.truncate(dest_offset);
+
+                    let err_msg = DecodeErrorStatus::OutputLimitExceeded(
+                        self.options.limit,
+                        dest_offset + len
+                    );
+                    let error = InflateDecodeErrors::new(err_msg, out_block);
+
+                    return Err(error);
+                }
+
                 let start = self.stream.get_position() + self.position + self.stream.over_read;
 
                 // ensure there is enough space for a fast copy
@@ -620,15 +632,6 @@ impl<'a> DeflateDecoder<'a> {
 
                     return Err(error);
                 }
-                if dest_offset > self.options.limit {
-                    out_block.truncate(dest_offset);
-
-                    let err_msg =
-                        DecodeErrorStatus::OutputLimitExceeded(self.options.limit, out_block.len());
-                    let error = InflateDecodeErrors::new(err_msg, out_block);
-
-                    return Err(error);
-                }
 
                 out_block[dest_offset..dest_offset + len]
                     .copy_from_slice(&self.data[start..start + len]);
@@ -1107,6 +1110,17 @@ impl<'a> DeflateDecoder<'a> {
                 return Err(error);
             }
 
+            // matches were checked as they were copied, literals were not
+            if dest_offset > self.options.limit {
+                out_block.truncate(dest_offset);
+
+                let err_msg =
+                    DecodeErrorStatus::OutputLimitExceeded(self.options.limit, dest_offset);
+                let error = InflateDecodeErrors::new(err_msg, out_block);
+
+                return Err(error);
+            }
+
             if self.is_last_block {
                 break;
             }
-- 
2.43.0


From ec900ad204a60c17f4ad6b2f9a6d27d0d9bdc000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:52 +0000
Subject: [PATCH 009/110] fix: ZCursor positions near the end of the address
 space must not overflow

---
 .../zune-core/src/bytestream/reader/no_std_readers.rs | 11 +++++------
 crates/zune-core/src/bytestream/reader/std_readers.rs |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader/no_std_readers.rs b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
index dd1c2b9..865926a 100644
--- a/crates/zune-core/src/bytestream/reader/no_std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
@@ -29,8 +29,7 @@ impl<T: AsRef<[u8]>> ZCursor<T> {
     /// either return an error or zero depending on the method called
     #[inline]
     pub fn skip(&mut self, num: usize) {
-        // Can this overflow ??
-        self.position = self.position.wrapping_add(num);
+        self.position = self.position.saturating_add(num);
     }
     /// Move back `num` bytes from the current position
     ///
@@ -53,7 +52,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     #[inline(always)]
     pub (crate) fn read_byte_no_error_impl(&mut self) -> u8 {
         let byte = self.stream.as_ref().get(self.position).unwrap_or(&0);
-        self.position += 1;
+        self.position = self.position.saturating_add(1);
         *byte
     }
     #[inline(always)]
@@ -69,7 +68,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     }
 
     pub (crate) fn read_const_bytes_impl<const N: usize>(&mut self, buf: &mut [u8; N]) -> Result<(), ZByteIoError> {
-        if self.position + N <= self.stream.as_ref().len() {
+        if self.position.saturating_add(N) <= self.stream.as_ref().len() {
             // we are in bounds
             let reference = self.stream.as_ref();
             let position = self.position;
@@ -83,7 +82,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     }
 
     pub (crate) fn read_const_bytes_no_error_impl<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        if self.position + N <= self.stream.as_ref().len() {
+        if self.position.saturating_add(N) <= self.stream.as_ref().len() {
             // we are in bounds
             let reference = self.stream.as_ref();
             let position = self.position;
@@ -106,7 +105,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
         let stream_end = self.stream.as_ref().len();
 
         let start = core::cmp::min(self.position, stream_end);
-        let end = core::cmp::min(self.position + buf.len(), stream_end);
+        let end = core::cmp::min(self.position.saturating_add(buf.len()), stream_end);
 
         let slice = self.stream.as_ref().get(start..end).unwrap();
         buf[..slice.len()].copy_from_slice(slice);
diff --git a/crates/zune-core/src/bytestream/reader/std_readers.rs b/crates/zune-core/src/bytestream/reader/std_readers.rs
index 2334624..d03276c 100644
--- a/crates/zune-core/src/bytestream/reader/std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/std_readers.rs
@@ -112,7 +112,7 @@ impl<T: AsRef<[u8]>> std::io::BufRead for ZCursor<T> {
     }
 
     fn consume(&mut self, amount: usize) {
-        self.position += amount;
+        self.position = self.position.saturating_add(amount);
     }
 }
 
-- 
2.43.0


From 01d0c8598ae7dca136faee0f29466481a60e7a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:52 +0000
Subject: [PATCH 010/110] fix: reads that default to zero returned the bytes of
 a partial read

---
 crates/zune-core/src/bytestream/reader/std_readers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zune-core/src/bytestream/reader/std_readers.rs b/crates/zune-core/src/bytestream/reader/std_readers.rs
index d03276c..413aa70 100644
--- a/crates/zune-core/src/bytestream/reader/std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/std_readers.rs
@@ -46,7 +46,12 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
     }
 
     fn read_const_bytes_no_error<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        let _ = self.read_const_bytes(buf);
+        // leave buf alone if it can't be filled, a failed read may have written part of it
+        let mut bytes = [0; N];
+
+        if self.read_const_bytes(&mut bytes).is_ok() {
+            *buf = bytes;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 29a47223cb6d7a42aafefa173c9eeeb8c35cc54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:52 +0000
Subject: [PATCH 011/110] fix: a failed peek_at must not move the reader

---
 crates/zune-core/src/bytestream/reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zune-core/src/bytestream/reader.rs b/crates/zune-core/src/bytestream/reader.rs
index d12340f..7f263f4 100644
--- a/crates/zune-core/src/bytestream/reader.rs
+++ b/crates/zune-core/src/bytestream/reader.rs
@@ -250,7 +250,12 @@ impl<T: ZByteReaderTrait> ZReader<T> {
                 }
                 Ok(&self.temp_buffer)
             }
-            Err(e) => Err(e)
+            Err(e) => {
+                if position != 0 {
+                    self.rewind(position)?;
+                }
+                Err(e)
+            }
         }
     }
     /// Read a fixed number of known bytes to a buffer and return the bytes or an error
-- 
2.43.0


From 60de5da6e6644568ce74da604b93110dd5373c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 012/110] fix: reading a byte at the end of a ZCursor must not
 move it

---
 .../zune-core/src/bytestream/reader/no_std_readers.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader/no_std_readers.rs b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
index 865926a..e340438 100644
--- a/crates/zune-core/src/bytestream/reader/no_std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
@@ -51,9 +51,14 @@ impl<T: AsRef<[u8]>> ZCursor<T> {
 impl<T: AsRef<[u8]>>  ZCursor<T> {
     #[inline(always)]
     pub (crate) fn read_byte_no_error_impl(&mut self) -> u8 {
-        let byte = self.stream.as_ref().get(self.position).unwrap_or(&0);
-        self.position = self.position.saturating_add(1);
-        *byte
+        match self.stream.as_ref().get(self.position) {
+            Some(byte) => {
+                self.position += 1;
+                *byte
+            }
+            // nothing to read, stay where we are as other readers do
+            None => 0
+        }
     }
     #[inline(always)]
     pub (crate) fn read_exact_bytes_impl(&mut self, buf: &mut [u8]) -> Result<(), ZByteIoError> {
-- 
2.43.0


From 30ba07a81a16f60d45ec86407f7aa52360d51f73 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 013/110] fix: growing a Channel twice lost its contents,
 growing a tiny one wrote out of bounds

---
 crates/zune-image/src/channel.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index 8ac3b84..e1deb99 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -208,7 +208,8 @@ impl Channel {
     /// It is not unsafe to call this, it's just left as unsafe
     /// to remind one to be careful of what they are doing
     unsafe fn alloc(size: usize) -> (*mut u8, Layout) {
-        let layout = Layout::from_size_align(size, MIN_ALIGNMENT).unwrap();
+        // zero sized allocations are not allowed
+        let layout = Layout::from_size_align(size.max(1), MIN_ALIGNMENT).unwrap();
         // Safety
         //  alloc zeroed == alloc + std::mem::zeroed()
         // and we are bound by the zeroed trait, hence we are sure that
@@ -219,18 +220,20 @@ impl Channel {
     /// Reallocate the pointer in place increasing
     /// it's capacity
     pub unsafe fn realloc(&mut self, new_size: usize) {
-        self.ptr = realloc(self.ptr, self.layout, new_size);
+        // zero sized allocations are not allowed
+        let new_layout = Layout::from_size_align(new_size.max(1), MIN_ALIGNMENT).unwrap();
+        self.ptr = realloc(self.ptr, self.layout, new_layout.size());
+        // the next realloc (or dealloc) must know the size of this allocation
+        self.layout = new_layout;
         // set capacity to be new size
         self.capacity = new_size;
     }
     /// Deallocate storage allocated for this channel
     unsafe fn dealloc(&mut self) {
-        let layout = Layout::from_size_align(self.capacity, MIN_ALIGNMENT).unwrap();
-
         // safety
-        // - The same layout alignment we used for alloc is the same we are using for
+        // - The same layout we used for alloc is the same we are using for
         //  dealloc
-        dealloc(self.ptr, layout);
+        dealloc(self.ptr, self.layout);
     }
 
     /// Create a new channel
@@ -512,8 +515,9 @@ impl Channel {
         if !self.has_capacity(size) {
             unsafe {
                 // extend
-                // use 3/2 formula
-                self.realloc(self.capacity.saturating_mul(size.saturating_mul(3)) / 2);
+                // use 3/2 formula, ensuring there is space for the element
+                let new_size = self.capacity.saturating_mul(size.saturating_mul(3)) / 2;
+                self.realloc(new_size.max(self.length.saturating_add(size)));
             }
         }
         // safety:
-- 
2.43.0


From d0136db952fa4929ee3b656008b2340e700359a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 014/110] fix: the alpha channel of LumaA frames is the second
 one, not the first

---
 crates/zune-image/src/frame.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/zune-image/src/frame.rs b/crates/zune-image/src/frame.rs
index d3a024d..89e2de9 100644
--- a/crates/zune-image/src/frame.rs
+++ b/crates/zune-image/src/frame.rs
@@ -616,15 +616,12 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
-        let (src_c1, src_c2) = self.channels.split_at(position);
+        let position = color_space.alpha_position().expect("No way!!");
+        let (src_c1, src_c2) = self.channels.split_at(position.max(1));
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if position == 0 {
             // argb
             src_alpha_channel = &src_c1[0];
             src_color_channels = src_c2;
@@ -660,15 +657,12 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
-        let (src_c1, src_c2) = self.channels.split_at_mut(position);
+        let position = color_space.alpha_position().expect("No way!!");
+        let (src_c1, src_c2) = self.channels.split_at_mut(position.max(1));
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if position == 0 {
             // argb
             src_alpha_channel = &mut src_c1[0];
             src_color_channels = src_c2;
-- 
2.43.0


From 66023f0b48a72c45b8e18c243e437e43d26ea231 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 015/110] fix: ARGB to RGBA must move alpha to the back, not
 rotate the other way

---
 .../core_filters/colorspace/conversion_functions.rs  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
index 4e58ae0..3b4197e 100644
--- a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
+++ b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
@@ -415,11 +415,19 @@ pub fn convert_rgba_to_argb_or_vice_versa(image: &mut Image) -> Result<(), Image
         image.colorspace(),
         ColorSpace::RGBA | ColorSpace::ARGB
     ));
+    let from_argb = image.colorspace() == ColorSpace::ARGB;
     // swap
     for frame in image.frames_mut() {
+        let channels = frame.channels_vec();
         // switch the channels now
-        let a_channel = frame.channels_vec().pop().unwrap();
-        frame.channels_vec().insert(0, a_channel);
+        if from_argb {
+            // move alpha from the front to the back
+            let a_channel = channels.remove(0);
+            channels.push(a_channel);
+        } else {
+            let a_channel = channels.pop().unwrap();
+            channels.insert(0, a_channel);
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 76b5e7575761237a50cf23ef210f09585018683a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 016/110] fix: 16 bit and float CMYK conversions did not invert
 each other, black became NaN

---
 .../core_filters/colorspace/rgb_to_cmyk.rs    | 39 ++++++++-----------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs b/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
index a198347..4d9b7c0 100644
--- a/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
+++ b/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
@@ -83,16 +83,14 @@ fn rgb_to_cmyk_inner_f32(r: f32, g: f32, b: f32) -> [f32; 4] {
     let ytmp = 1.0 - b.clamp(0., 1.);
 
     let ktmp = ctmp.min(mtmp).min(ytmp);
-    let kmtp_inv = 1.0 / (1.0 - ktmp);
+    // black has no color left, don't divide by zero
+    let kmtp_inv = if ktmp < 1.0 { 1.0 / (1.0 - ktmp) } else { 0.0 };
 
-    let c = (ctmp - ktmp) * kmtp_inv;
-    let m = (mtmp - ktmp) * kmtp_inv;
-    let y = (ytmp - ktmp) * kmtp_inv;
-
-    out[0] = c;
-    out[1] = m;
-    out[2] = y;
-    out[3] = ktmp;
+    // like the 8 bit version, samples are inverted, the maximum means no ink
+    out[0] = 1.0 - (ctmp - ktmp) * kmtp_inv;
+    out[1] = 1.0 - (mtmp - ktmp) * kmtp_inv;
+    out[2] = 1.0 - (ytmp - ktmp) * kmtp_inv;
+    out[3] = 1.0 - ktmp;
 
     out
 }
@@ -123,21 +121,16 @@ pub fn rgb_to_cmyk_u16(r_to_c: &mut [u16], g_to_m: &mut [u16], b_to_y: &mut [u16
             f32::from(*g_m) * inv,
             f32::from(*b_y) * inv
         );
-        *r_c = (result[0] * v) as u16;
-        *g_m = (result[1] * v) as u16;
-        *b_y = (result[2] * v) as u16;
-        *k = (result[3] * v) as u16;
+        *r_c = (result[0] * v + 0.5) as u16;
+        *g_m = (result[1] * v + 0.5) as u16;
+        *b_y = (result[2] * v + 0.5) as u16;
+        *k = (result[3] * v + 0.5) as u16;
     }
 }
 #[inline(always)]
 fn cmyk_to_rgb_f32_inner(c: f32, m: f32, y: f32, k: f32) -> [f32; 3] {
-    let k_inv = 1.0 / (k / 255.0 + 0.5);
-
-    let r = c * k_inv;
-    let g = m * k_inv;
-    let b = y * k_inv;
-
-    [r, g, b]
+    // samples are inverted, the maximum means no ink
+    [c * k, m * k, y * k]
 }
 
 /// Convert CMYK to RGB
@@ -186,8 +179,8 @@ pub fn cmyk_to_rgb_u16(c_to_r: &mut [u16], m_to_g: &mut [u16], y_to_b: &mut [u16
         let [r, g, b] = cmyk_to_rgb_f32_inner(c, m, y, k);
 
         // scale back to be between 0 - 65535
-        *c_r = (r * v) as u16;
-        *m_g = (g * v) as u16;
-        *y_b = (b * v) as u16;
+        *c_r = (r * v + 0.5) as u16;
+        *m_g = (g * v + 0.5) as u16;
+        *y_b = (b * v + 0.5) as u16;
     }
 }
-- 
2.43.0


From d5d462494c2b3c787e1ccda658da6dce4522cacc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 017/110] fix: 16 bit samples must survive the trip through
 float

---
 crates/zune-image/src/core_filters/depth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/core_filters/depth.rs b/crates/zune-image/src/core_filters/depth.rs
index 5cdff7c..c8d1e18 100644
--- a/crates/zune-image/src/core_filters/depth.rs
+++ b/crates/zune-image/src/core_filters/depth.rs
@@ -158,7 +158,7 @@ impl OperationsTrait for Depth {
 
                     // scale by multiplying with 65535
                     for (old_chan, new_chan) in old_data.iter().zip(new_channel_raw.iter_mut()) {
-                        *new_chan = (65535.0 * old_chan).clamp(0.0, 65535.0) as u16;
+                        *new_chan = (65535.0 * old_chan).clamp(0.0, 65535.0).round() as u16;
                     }
 
                     *channel = new_channel;
-- 
2.43.0


From 9f99289fcda7fc8e7df0338a834d1bc95ee7d9c0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 018/110] fix: four channel deinterleave used AVX2 when only
 SSE4.1 was there, its SSE4.1 version read overlapping chunks

---
 crates/zune-image/src/deinterleave/deinterleave_impls.rs | 4 ++--
 crates/zune-image/src/deinterleave/sse41.rs              | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zune-image/src/deinterleave/deinterleave_impls.rs b/crates/zune-image/src/deinterleave/deinterleave_impls.rs
index dffc2fe..cf00416 100644
--- a/crates/zune-image/src/deinterleave/deinterleave_impls.rs
+++ b/crates/zune-image/src/deinterleave/deinterleave_impls.rs
@@ -25,7 +25,7 @@ pub fn de_interleave_three_channels_u8(source: &[u8], c1: &mut [u8], c2: &mut [u
         {
             use crate::deinterleave::sse41::de_interleave_three_channels_sse3_u8;
 
-            if is_x86_feature_detected!("sse3") {
+            if is_x86_feature_detected!("sse4.1") {
                 unsafe {
                     return de_interleave_three_channels_sse3_u8(source, c1, c2, c3);
                 }
@@ -78,7 +78,7 @@ pub fn deinterleave_four_channels_u8(
         #[cfg(feature = "simd")]
         {
             use crate::deinterleave::avx2::de_interleave_four_channels_avx2;
-            if is_x86_feature_detected!("sse4.1") {
+            if is_x86_feature_detected!("avx2") {
                 unsafe {
                     return de_interleave_four_channels_avx2(source, c1, c2, c3, c4);
                 }
diff --git a/crates/zune-image/src/deinterleave/sse41.rs b/crates/zune-image/src/deinterleave/sse41.rs
index e60eaf7..d01ac0c 100644
--- a/crates/zune-image/src/deinterleave/sse41.rs
+++ b/crates/zune-image/src/deinterleave/sse41.rs
@@ -133,9 +133,9 @@ pub unsafe fn de_interleave_four_channels_sse41(
         // We load 64 bytes to ensure that when we write, we do a write of 16 which
         // fits nicely into a sse register.
         let t1 = _mm_loadu_si128(source_chunk[00..].as_ptr().cast());
-        let t2 = _mm_loadu_si128(source_chunk[08..].as_ptr().cast());
-        let t3 = _mm_loadu_si128(source_chunk[16..].as_ptr().cast());
-        let t4 = _mm_loadu_si128(source_chunk[24..].as_ptr().cast());
+        let t2 = _mm_loadu_si128(source_chunk[16..].as_ptr().cast());
+        let t3 = _mm_loadu_si128(source_chunk[32..].as_ptr().cast());
+        let t4 = _mm_loadu_si128(source_chunk[48..].as_ptr().cast());
 
         // convert data into
         // rrrr,gggg,bbbb,aaaa
-- 
2.43.0


From 3ef4af4cac94b088a8eda1d855c284f3284f7e20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 019/110] fix: SIMD grayscale swapped green and blue, and took
 the last pixels from the wrong place

---
 .../src/core_filters/colorspace/grayscale/avx2.rs        | 9 ++++-----
 .../src/core_filters/colorspace/grayscale/sse41.rs       | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
index b05e972..e030ce6 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
@@ -29,8 +29,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // Load to memory
@@ -77,11 +77,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
         // do the remainder
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
index c7c76b7..616d83d 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
@@ -34,8 +34,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // PS I'm not sure if this is valid, we chunked 8 values
@@ -75,11 +75,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
         // assume r ,g and b are equal lengths.
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
-- 
2.43.0


From d305fa309ac6c9f4d6a84f2a1a9d0c1a237e5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 020/110] fix: scalar transpose underflowed on matrices
 narrower or shorter than eight

---
 crates/zune-imageprocs/src/transpose/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/transpose/scalar.rs b/crates/zune-imageprocs/src/transpose/scalar.rs
index b219165..0e43f3d 100644
--- a/crates/zune-imageprocs/src/transpose/scalar.rs
+++ b/crates/zune-imageprocs/src/transpose/scalar.rs
@@ -63,8 +63,8 @@ pub fn transpose_scalar<T: Copy + Default>(
             }
         }
     }
-    let rem_w = width - (width & 7) - 1;
-    let rem_h = height - (height & 7) - 1;
+    let rem_w = width - (width & 7);
+    let rem_h = height - (height & 7);
 
     for i in rem_h..height {
         for j in 0..width {
-- 
2.43.0


From 405448c9778a9c913aab63fe7db2c6e95297ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 021/110] fix: mirroring east and west were swapped compared to
 their documentation

---
 crates/zune-imageprocs/src/mirror.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/mirror.rs b/crates/zune-imageprocs/src/mirror.rs
index 499ad55..7ed7d3c 100644
--- a/crates/zune-imageprocs/src/mirror.rs
+++ b/crates/zune-imageprocs/src/mirror.rs
@@ -137,13 +137,13 @@ pub fn mirror<T: Copy>(in_pixels: &mut [T], width: usize, height: usize, mode: M
             // split into 2
             let (left, right) = width_stride.split_at_mut(width / 2);
 
-            if mode == MirrorMode::West {
+            if mode == MirrorMode::East {
                 // write
                 left.iter().zip(right.iter_mut().rev()).for_each(|(l, r)| {
                     *r = *l;
                 });
             }
-            if mode == MirrorMode::East {
+            if mode == MirrorMode::West {
                 // write
                 left.iter_mut().zip(right.iter().rev()).for_each(|(l, r)| {
                     *l = *r;
-- 
2.43.0


From 28d45f9ecc6d064af25098279023d50933fbd778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 022/110] fix: rotated planes of 16 bit and float images were
 allocated too small

---
 crates/zune-imageprocs/src/rotate.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index bed172d..cae85a9 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -61,7 +61,8 @@ impl OperationsTrait for Rotate {
     }
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
-        let im_type = image.depth().bit_type();
+        let depth = image.depth();
+        let im_type = depth.bit_type();
 
         let (width, height) = image.dimensions();
 
@@ -71,7 +72,10 @@ impl OperationsTrait for Rotate {
             let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
 
             let mut new_channel =
-                Channel::new_with_length_and_type(new_width * new_height, channel.type_id());
+                Channel::new_with_length_and_type(
+                    new_width * new_height * depth.size_of(),
+                    channel.type_id()
+                );
 
             match im_type {
                 BitType::U8 => {
-- 
2.43.0


From db7229d6aef07f6a99a1193dc207da4ffadc0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 023/110] fix: rotating by 180 degrees only swapped rows

---
 crates/zune-imageprocs/src/rotate.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index cae85a9..02f8d25 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -154,9 +154,9 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     let angle = angle % 360.0;
 
     if (angle - 180.0).abs() < f32::EPSILON {
-        // copy in image to out image
+        // the last pixel becomes the first one
         out_image.copy_from_slice(in_image);
-        rotate_180(out_image, width);
+        out_image.reverse();
     } else if (angle - 90.0).abs() < f32::EPSILON {
         rotate_90(in_image, out_image, width, height);
     } else if (angle - 270.0).abs() < f32::EPSILON {
@@ -168,20 +168,6 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     }
 }
 
-fn rotate_180<T: Copy>(in_out_image: &mut [T], width: usize) {
-    let half = in_out_image.len() / 2;
-    let (top, bottom) = in_out_image.split_at_mut(half);
-
-    for (top_chunk, bottom_chunk) in top
-        .chunks_exact_mut(width)
-        .zip(bottom.chunks_exact_mut(width).rev())
-    {
-        for (a, b) in top_chunk.iter_mut().zip(bottom_chunk.iter_mut()) {
-            core::mem::swap(a, b);
-        }
-    }
-}
-
 fn rotate_arbitrary<T: Copy + Default + NumOps<T>>(
     in_image: &[T], out_image: &mut [T], in_width: usize, in_height: usize, out_width: usize,
     out_height: usize, angle: f32
-- 
2.43.0


From 40352901c0e05842be07e7844f5e0bf975c79d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 024/110] fix: rotating by 90 or 270 degrees gave dimensions
 other than the planes have

---
 crates/zune-imageprocs/src/rotate.rs | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index 02f8d25..087ace7 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -66,8 +66,6 @@ impl OperationsTrait for Rotate {
 
         let (width, height) = image.dimensions();
 
-        let will_change_dims = (self.angle - 180.0).abs() > f32::EPSILON;
-
         let resize_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
             let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
 
@@ -116,9 +114,8 @@ impl OperationsTrait for Rotate {
         };
         execute_on(resize_fn, image, false)?;
 
-        if will_change_dims {
-            change_image_dims(image, self.angle);
-        }
+        let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
+        image.set_dimensions(new_width, new_height);
 
         Ok(())
     }
@@ -128,25 +125,6 @@ impl OperationsTrait for Rotate {
     }
 }
 
-fn change_image_dims(image: &mut Image, angle: f32) {
-    let (ow, oh) = image.dimensions();
-    if (angle - 90.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    if (angle - 270.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    // For arbitrary angles, calculate bounding box
-    let angle_rad = angle.to_radians();
-    let cos_a = angle_rad.cos().abs();
-    let sin_a = angle_rad.sin().abs();
-
-    let new_width = (ow as f32 * cos_a + oh as f32 * sin_a).ceil() as usize;
-    let new_height = (ow as f32 * sin_a + oh as f32 * cos_a).ceil() as usize;
-
-    image.set_dimensions(new_width, new_height)
-}
-
 pub fn rotate<T: Copy + NumOps<T> + Default>(
     angle: f32, width: usize, height: usize, out_width: usize, out_height: usize, in_image: &[T],
     out_image: &mut [T]
-- 
2.43.0


From b9fdcfb2207adfea7f2cb53b1ba1fc4c522ae710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 025/110] fix: rotating by whole turns lost pixels, negative
 right angles were interpolated

---
 crates/zune-imageprocs/src/rotate.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index 087ace7..01a3145 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -23,7 +23,7 @@ use crate::traits::NumOps;
 use crate::utils::execute_on;
 
 pub fn get_rotated_dimensions(width: usize, height: usize, angle: f32) -> (usize, usize) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
     // Handle special cases for 90-degree rotations
     if (angle - 90.0).abs() < f32::EPSILON || (angle - 270.0).abs() < f32::EPSILON {
@@ -129,12 +129,14 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     angle: f32, width: usize, height: usize, out_width: usize, out_height: usize, in_image: &[T],
     out_image: &mut [T]
 ) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
     if (angle - 180.0).abs() < f32::EPSILON {
         // the last pixel becomes the first one
         out_image.copy_from_slice(in_image);
         out_image.reverse();
+    } else if angle.abs() < f32::EPSILON {
+        out_image.copy_from_slice(in_image);
     } else if (angle - 90.0).abs() < f32::EPSILON {
         rotate_90(in_image, out_image, width, height);
     } else if (angle - 270.0).abs() < f32::EPSILON {
-- 
2.43.0


From 4c534b2edc83c0062661915d11e485c923598076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 026/110] fix: thresholding to zero must keep the samples above
 the threshold

---
 crates/zune-imageprocs/src/threshold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/threshold.rs b/crates/zune-imageprocs/src/threshold.rs
index 5e7dd13..177abe1 100644
--- a/crates/zune-imageprocs/src/threshold.rs
+++ b/crates/zune-imageprocs/src/threshold.rs
@@ -146,7 +146,7 @@ pub fn threshold<T>(in_channel: &mut [T], threshold: T, method: ThresholdMethod)
             {
                 for x in in_channel.iter_mut()
                 {
-                    *x = if *x > threshold { threshold } else { T::min_val() }
+                    *x = if *x > threshold { *x } else { T::min_val() }
                 }
             }
     }
-- 
2.43.0


From 27e4263b634bb6c95db8cb86958873556202b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 027/110] fix: stretching the contrast of floats must start
 from the lower limit

---
 crates/zune-imageprocs/src/stretch_contrast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/stretch_contrast.rs b/crates/zune-imageprocs/src/stretch_contrast.rs
index 69fd8ce..a09a4e9 100644
--- a/crates/zune-imageprocs/src/stretch_contrast.rs
+++ b/crates/zune-imageprocs/src/stretch_contrast.rs
@@ -144,7 +144,7 @@ pub fn stretch_contrast_f32(image: &mut [f32], lower: f32, upper: f32) -> Result
         } else if *pixel <= lower {
             *pixel = f32::min_val();
         } else {
-            *pixel = (f32::max_val() - *pixel) * inv_range;
+            *pixel = (*pixel - lower) * inv_range;
         }
     }
 
-- 
2.43.0


From 269b274a1ab4fbf94e23fc586f3d6c99d85491dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 028/110] fix: blending with an alpha above one must give the
 source

---
 crates/zune-imageprocs/src/blend.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-imageprocs/src/blend.rs b/crates/zune-imageprocs/src/blend.rs
index d1c435a..00b08ca 100644
--- a/crates/zune-imageprocs/src/blend.rs
+++ b/crates/zune-imageprocs/src/blend.rs
@@ -146,6 +146,7 @@ where
     if src_alpha >= 1.0 {
         // copy source to destination
         dest.copy_from_slice(src);
+        return;
     }
 
     let dest_alpha = 1.0 - src_alpha;
-- 
2.43.0


From b31de794c18de002a150ad3fbd1b1d5f50b91916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 029/110] fix: compositing over an opaque image made it
 transparent

---
 crates/zune-imageprocs/src/composite.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index e371d41..a63665a 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -319,9 +319,7 @@ fn composite_alpha_channel<T>(
                     let src_normalized = (f32::from(*src_p) * max_v).clamp(0.0, 1.0);
                     let dst_alpha = 1.0 - src_normalized;
 
-                    *dst = T::from_f32(
-                        (src_normalized * f32::from(*src_p)) + (dst_alpha * f32::from(*dst))
-                    );
+                    *dst = T::from_f32(f32::from(*src_p) + (dst_alpha * f32::from(*dst)));
                 }
             }
         }
-- 
2.43.0


From 563697568b6cdb377410c8b7422ca107fb97f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 030/110] fix: composite methods src and dst panicked on images
 with alpha

---
 crates/zune-imageprocs/src/composite.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index a63665a..1fafb56 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -287,12 +287,12 @@ fn composite_alpha<T>(
     T: Copy + NumOps<T>,
     f32: From<T>
 {
-    if method == CompositeMethod::Over {
-        composite_over_alpha(
+    match method {
+        CompositeMethod::Over => composite_over_alpha(
             src, dest, src_alpha, start_x, start_y, width_src, width_dest
-        );
-    } else {
-        unreachable!()
+        ),
+        // the others do not look at alpha
+        _ => composite(src, dest, start_x, start_y, width_src, width_dest, method)
     }
 }
 fn composite_alpha_channel<T>(
@@ -323,6 +323,10 @@ fn composite_alpha_channel<T>(
                 }
             }
         }
+    } else {
+        composite(
+            alpha_src, dst_alpha, start_x, start_y, width_src, width_dest, method
+        );
     }
 }
 fn composite<T: Copy + NumOps<T>>(
-- 
2.43.0


From 72b039a2250761bdec32a158b9428f21d32e250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 031/110] fix: sobel, scharr and prewitt kernels read the wrong
 neighbour in the last row

---
 crates/zune-imageprocs/src/prewitt.rs | 4 ++--
 crates/zune-imageprocs/src/scharr.rs  | 4 ++--
 crates/zune-imageprocs/src/sobel.rs   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zune-imageprocs/src/prewitt.rs b/crates/zune-imageprocs/src/prewitt.rs
index 4d07d9a..04d20d6 100644
--- a/crates/zune-imageprocs/src/prewitt.rs
+++ b/crates/zune-imageprocs/src/prewitt.rs
@@ -27,7 +27,7 @@ fn prewitt_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * 1.) + (f32::from(c[2]) * -1.);
     sum_a += (f32::from(c[3]) * 1.) + (f32::from(c[5]) * -1.);
-    sum_a += (f32::from(c[6]) * 1.) + (f32::from(c[7]) * -1.);
+    sum_a += (f32::from(c[6]) * 1.) + (f32::from(c[8]) * -1.);
 
     // matrix
     //  1,  1,  1,
@@ -61,7 +61,7 @@ fn prewitt_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * 1) + (i32::from(c[2]) * -1);
     sum_a += (i32::from(c[3]) * 1) + (i32::from(c[5]) * -1);
-    sum_a += (i32::from(c[6]) * 1) + (i32::from(c[7]) * -1);
+    sum_a += (i32::from(c[6]) * 1) + (i32::from(c[8]) * -1);
 
     // matrix
     //  1,  1,  1,
diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 1e762e5..6dfe2f9 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -158,7 +158,7 @@ fn scharr_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -03.) + (f32::from(c[2]) * 03.);
     sum_a += (f32::from(c[3]) * -10.) + (f32::from(c[5]) * 10.);
-    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[7]) * 30.);
+    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[8]) * 03.);
 
     // matrix
     // -03,-10,-03,
@@ -192,7 +192,7 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -03) + (i32::from(c[2]) * 03);
     sum_a += (i32::from(c[3]) * -10) + (i32::from(c[5]) * 10);
-    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[7]) * 03);
+    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[8]) * 03);
 
     // Gy matrix
     // -3,-10,-3,
diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 663c5fe..1fbf1a5 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -112,7 +112,7 @@ fn sobel_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -1.) + (f32::from(c[2]) * 1.);
     sum_a += (f32::from(c[3]) * -2.) + (f32::from(c[5]) * 2.);
-    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[7]) * 1.);
+    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[8]) * 1.);
 
     // matrix
     // -1,-2,-1,
@@ -146,7 +146,7 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -1) + (i32::from(c[2]) * 1);
     sum_a += (i32::from(c[3]) * -2) + (i32::from(c[5]) * 2);
-    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[7]) * 1);
+    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[8]) * 1);
 
     // matrix
     // -1,-2,-1,
-- 
2.43.0


From d1a6b4df4cc440626a72228c5f32a2c4e4360d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 032/110] fix: the median filter gave the sample below the
 median

---
 crates/zune-imageprocs/src/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/median.rs b/crates/zune-imageprocs/src/median.rs
index 014c5bf..86d6b97 100644
--- a/crates/zune-imageprocs/src/median.rs
+++ b/crates/zune-imageprocs/src/median.rs
@@ -167,7 +167,7 @@ pub fn median_u16(
 
         for (pos, v) in histogram.iter().enumerate() {
             accum += *v;
-            if accum >= median_pos as u32 {
+            if accum > median_pos as u32 {
                 // we found the median
                 median = pos as u16;
                 break;
@@ -249,7 +249,7 @@ pub fn median_u8(
 
         for (pos, v) in histogram.iter().enumerate() {
             accum += *v;
-            if accum >= median_pos as u32 {
+            if accum > median_pos as u32 {
                 // we found the median
                 median = pos as u8;
                 break;
-- 
2.43.0


From 1516a85d78d6e914c1a0a44ec1e0b49ddb8e48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 033/110] fix: the contrast of bright neighbourhoods overflowed

---
 crates/zune-imageprocs/src/spatial_ops.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/spatial_ops.rs b/crates/zune-imageprocs/src/spatial_ops.rs
index 687fdc3..56f9968 100644
--- a/crates/zune-imageprocs/src/spatial_ops.rs
+++ b/crates/zune-imageprocs/src/spatial_ops.rs
@@ -73,7 +73,9 @@ fn find_contrast<
         }
     }
     let num = maximum - minimum;
-    let div = (maximum + minimum).saturating_add(T::one()); // do not allow division by zero
+    let div = maximum
+        .saturating_add(minimum)
+        .saturating_add(T::one()); // do not allow division by zero
 
     num / div
 }
-- 
2.43.0


From 043ccf614501174ccc094fc8843f9b63c18d4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 034/110] fix: unsharpening turned dark samples next to bright
 ones white, wrapped bright ones

---
 crates/zune-imageprocs/src/unsharpen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/unsharpen.rs b/crates/zune-imageprocs/src/unsharpen.rs
index 214597c..ae0fde5 100644
--- a/crates/zune-imageprocs/src/unsharpen.rs
+++ b/crates/zune-imageprocs/src/unsharpen.rs
@@ -202,7 +202,7 @@ pub fn unsharpen_u16(
         // let diff = (diff * percentage) / 100;
 
         // if diff > threshold { pix = (diff + pix) } else { pix }
-        *in_pix = (in_pix.wrapping_add(diff) & !threshold_mask) | (*in_pix & threshold_mask);
+        *in_pix = (in_pix.saturating_add(diff) & !threshold_mask) | (*in_pix & threshold_mask);
     }
 }
 
@@ -238,7 +238,7 @@ pub fn unsharpen_u8(
     // blur buffer now contains gaussian blurred pixels
     // so iterate replacing them
     for (in_pix, blur_pix) in channel.iter_mut().zip(blur_buffer.iter()) {
-        let diff = in_pix.wrapping_sub(*blur_pix);
+        let diff = in_pix.saturating_sub(*blur_pix);
         // pull some branchless tricks to help the optimizer
         // here
 
-- 
2.43.0


From abbf7417966746890d095a06da8e88a7274ee960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 035/110] fix: box blur turned images one pixel wide or high
 black

---
 crates/zune-imageprocs/src/box_blur.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/box_blur.rs b/crates/zune-imageprocs/src/box_blur.rs
index 7dca2f3..4be27ab 100644
--- a/crates/zune-imageprocs/src/box_blur.rs
+++ b/crates/zune-imageprocs/src/box_blur.rs
@@ -220,7 +220,8 @@ where
     // and we have a window sum!
 
     if width <= 1 || diameter <= 1 {
-        // repeated here for the optimizer
+        // repeated here for the optimizer, nothing to blur
+        out_image.copy_from_slice(in_image);
         return;
     }
     let diameter = diameter.min(width);
@@ -306,7 +307,8 @@ pub(crate) fn box_blur_f32_inner(
     let diameter = (radius * 2) + 1;
 
     if width <= 1 || diameter <= 1 {
-        // repeated here for the optimizer
+        // repeated here for the optimizer, nothing to blur
+        out_image.copy_from_slice(in_image);
         return;
     }
     let diameter = diameter.min(width);
-- 
2.43.0


From b6ba75a397d4b12410181cc7d8da6655ad56043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 036/110] fix: affine transform planes of 16 bit and float
 images were allocated too small

---
 crates/zune-imageprocs/src/affine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index 7dcb7b3..b39ffe5 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -135,7 +135,8 @@ impl OperationsTrait for AffineTransform {
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let (w, h) = image.dimensions();
-        let depth = image.depth().bit_type();
+        let image_depth = image.depth();
+        let depth = image_depth.bit_type();
         let (new_w, new_h) = get_affine_output_dimensions(w, h, self);
 
         // Get inverse transform for reverse mapping
@@ -147,7 +148,8 @@ impl OperationsTrait for AffineTransform {
             } // Degenerate transform
         };
         let affine_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
-            let mut new_channel = Channel::new_with_bit_type(new_w * new_h, depth);
+            let mut new_channel =
+                Channel::new_with_bit_type(new_w * new_h * image_depth.size_of(), depth);
 
             match depth {
                 BitType::U8 => affine_transform_channel::<u8>(
-- 
2.43.0


From 9c31cc19bc63d3ae906a0ca11e977564e77d55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 037/110] fix: the identity affine transform lost the last row
 and column

---
 crates/zune-imageprocs/src/affine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index b39ffe5..47424e0 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -284,14 +284,14 @@ pub fn affine_transform_channel<T: Copy + Default + NumOps<T>>(
 
             // Bilinear interpolation
             if src_x >= 0.0
-                && src_x < (in_width - 1) as f32
+                && src_x <= (in_width - 1) as f32
                 && src_y >= 0.0
-                && src_y < (in_height - 1) as f32
+                && src_y <= (in_height - 1) as f32
             {
                 let x0 = src_x.floor() as usize;
                 let y0 = src_y.floor() as usize;
-                let x1 = x0 + 1;
-                let y1 = y0 + 1;
+                let x1 = (x0 + 1).min(in_width - 1);
+                let y1 = (y0 + 1).min(in_height - 1);
 
                 let fx = src_x - x0 as f32;
                 let fy = src_y - y0 as f32;
-- 
2.43.0


From ba2a963d9a242d600cc2c64bb1ca67eccafc72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 038/110] fix: premultiplied samples were up to one and a half
 off, some brighter than before

---
 crates/zune-imageprocs/src/premul_alpha.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-imageprocs/src/premul_alpha.rs b/crates/zune-imageprocs/src/premul_alpha.rs
index 4881b49..d32122d 100644
--- a/crates/zune-imageprocs/src/premul_alpha.rs
+++ b/crates/zune-imageprocs/src/premul_alpha.rs
@@ -238,12 +238,11 @@ pub fn create_unpremul_table_u16() -> Vec<u128> {
 /// Items in input are modified in place.
 #[allow(clippy::cast_possible_truncation)]
 pub fn premultiply_u8(input: &mut [u8], alpha: &[u8]) {
-    const MAX_VALUE: u16 = 255;
-
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u16::from(*al) * u16::from(*color)) + 0x80;
 
-        *color = ((temp + (temp >> 8)) / MAX_VALUE) as u8;
+        // round(temp / 255)
+        *color = ((temp + (temp >> 8)) >> 8) as u8;
     });
 }
 
@@ -261,7 +260,8 @@ pub fn premultiply_u16(input: &mut [u16], alpha: &[u16]) {
 
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u32::from(*al) * u32::from(*color)) + ((MAX_VALUE + 1) / 2);
-        *color = ((temp + (temp >> 16)) / MAX_VALUE) as u16;
+        // round(temp / 65535)
+        *color = ((temp + (temp >> 16)) >> 16) as u16;
     });
 }
 
-- 
2.43.0


From 9033a6eb4b587dcbc6d6a28ee678620988c9d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 039/110] fix: the bilateral filter weighted the wrong pixels,
 and panicked with diameters of one and two

---
 crates/zune-imageprocs/src/bilateral_filter.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/zune-imageprocs/src/bilateral_filter.rs b/crates/zune-imageprocs/src/bilateral_filter.rs
index 6e7c209..4147188 100644
--- a/crates/zune-imageprocs/src/bilateral_filter.rs
+++ b/crates/zune-imageprocs/src/bilateral_filter.rs
@@ -150,7 +150,9 @@ fn init_bilateral(
     let radius: i32 = if d <= 0 { (sigma_space * 1.5).round() as _ } else { d / 2 };
 
     let mut color_weight = vec![0.0_f64; cn * color_range];
-    let mut space_weight = vec![0.0_f64; (d * d).unsigned_abs() as usize];
+    // one weight for every pixel of the window, those outside the circle keep a weight of zero
+    let window = ((2 * radius) + 1).unsigned_abs() as usize;
+    let mut space_weight = vec![0.0_f64; window * window];
 
     // initialize color-related bilateral filter coeffs
     for (i, item) in color_weight.iter_mut().enumerate().take(color_range) {
@@ -162,10 +164,9 @@ fn init_bilateral(
     for i in -radius..=radius {
         for j in -radius..=radius {
             let r = f64::from((i * i) + (j * j)).sqrt();
-            if r > f64::from(radius) {
-                continue;
+            if r <= f64::from(radius) {
+                space_weight[makx] = (r * r * gauss_space_coeff).exp();
             }
-            space_weight[makx] = (r * r * gauss_space_coeff).exp();
             makx += 1;
         }
     }
@@ -198,7 +199,7 @@ fn bilateral_filter_int<T>(
     // This impl matches opencv bilateral_filter's inner loop, with less pointer chasing as
     // the spatial function sends the right thing to us
     let bilateral_func = |area: &[T]| -> T {
-        let mid = (area.len() + 1) / 2;
+        let mid = area.len() / 2;
 
         let mut sum = 0.0;
         let mut wsum = 0.0;
-- 
2.43.0


From 609e577f0ab72be90322cf336d45830ca54ffebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 040/110] fix: sobel, scharr and prewitt overflowed on 16 bit
 images

---
 crates/zune-imageprocs/src/prewitt.rs | 5 ++++-
 crates/zune-imageprocs/src/scharr.rs  | 5 ++++-
 crates/zune-imageprocs/src/sobel.rs   | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/prewitt.rs b/crates/zune-imageprocs/src/prewitt.rs
index 04d20d6..401b655 100644
--- a/crates/zune-imageprocs/src/prewitt.rs
+++ b/crates/zune-imageprocs/src/prewitt.rs
@@ -72,7 +72,10 @@ fn prewitt_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * 1) + (i32::from(c[6]) * -1);
     sum_b += (i32::from(c[7]) * -1) + (i32::from(c[8]) * -1);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // squares of 16 bit sums do not fit an i32
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the prewitt filter for a float channel
diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 6dfe2f9..59865e7 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -203,7 +203,10 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -03) + (i32::from(c[6]) * 03);
     sum_b += (i32::from(c[7])  * 10) + (i32::from(c[8]) * 03);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // squares of 16 bit sums do not fit an i32
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the scharr filter for a float channel
diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 1fbf1a5..93c7ea2 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -157,7 +157,10 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -1) + (i32::from(c[6]) * 1);
     sum_b += (i32::from(c[7]) * 2) + (i32::from(c[8]) * 1);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // squares of 16 bit sums do not fit an i32
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the sobel filter for a float channel
-- 
2.43.0


From fbd957f509520d3334b96f0344eb85da6b44e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 041/110] fix: box blur moved the image by a pixel, and
 darkened images smaller than its window

---
 crates/zune-imageprocs/src/box_blur.rs | 123 +++++++++++--------------
 1 file changed, 53 insertions(+), 70 deletions(-)

diff --git a/crates/zune-imageprocs/src/box_blur.rs b/crates/zune-imageprocs/src/box_blur.rs
index 4be27ab..331ee9b 100644
--- a/crates/zune-imageprocs/src/box_blur.rs
+++ b/crates/zune-imageprocs/src/box_blur.rs
@@ -224,78 +224,67 @@ where
         out_image.copy_from_slice(in_image);
         return;
     }
-    let diameter = diameter.min(width);
+    let diameter = odd_diameter(diameter, width);
     let m_radius = compute_mod_u32(diameter as u64);
 
     for (stride_in, stride_out) in in_image
         .chunks_exact(width)
         .zip(out_image.chunks_exact_mut(width))
     {
+        // pixels on either side of the middle one, plus the middle one
         let half_radius = (diameter + 1) / 2;
 
+        let first_item = u32::from(stride_in[0]);
+        let last_item = u32::from(stride_in[width - 1]);
+
+        // window of the first pixel, pixels before it are taken to be equal to it
         let mut accumulator: u32 = stride_in[..half_radius].iter().map(|x| u32::from(*x)).sum();
 
-        accumulator += ((half_radius - 1) as u32) * u32::from(stride_in[0]);
+        accumulator += ((half_radius - 1) as u32) * first_item;
+
+        let (start_stride, rest) = stride_out.split_at_mut(half_radius);
+        let (mid_stride, end_stride) = rest.split_at_mut(width + 1 - (2 * half_radius));
+
+        start_stride[0] = T::from_u32(fastdiv_u32(accumulator, m_radius));
 
         for (data_in, data_out) in stride_in[half_radius..]
             .iter()
-            .zip(stride_out.iter_mut())
-            .take(half_radius - 1)
+            .zip(start_stride[1..].iter_mut())
         {
             accumulator += u32::from(*data_in);
-            accumulator -= u32::from(stride_in[0]);
+            accumulator -= first_item;
 
             *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
         }
 
-        // testing purposes
-        //
-        // assert_eq!(
-        //     accumulator,
-        //     stride_in[..diameter]
-        //         .iter()
-        //         .map(|x| u32::from(*x))
-        //         .sum::<u32>()
-        // );
-
-        let mut window_slide = u32::from(stride_in[0]);
-
-        for (window_in, data_out) in stride_in[1..]
-            .windows(diameter)
-            .zip(stride_out[half_radius - 1..].iter_mut())
-        {
-            accumulator -= window_slide;
-            accumulator += u32::from(*window_in.last().unwrap());
-
-            // testing purposes
-            //
-            // assert_eq!(
-            //     accumulator,
-            //     window_in.iter().map(|x| u32::from(*x)).sum::<u32>()
-            // );
-
-            window_slide = u32::from(window_in[0]);
+        for (window_in, data_out) in stride_in.windows(diameter + 1).zip(mid_stride.iter_mut()) {
+            accumulator += u32::from(window_in[diameter]);
+            accumulator -= u32::from(window_in[0]);
 
             *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
         }
 
-        let edge_len = stride_out.len() - half_radius;
-
-        let end_stride = &mut stride_out[edge_len..];
-        let last_item = u32::from(*stride_in.last().unwrap());
-
-        for (data_in, data_out) in stride_in[edge_len..]
-            .iter()
-            .zip(end_stride)
-            .take(half_radius)
-        {
-            accumulator = accumulator.wrapping_sub(u32::from(*data_in));
-            accumulator = accumulator.wrapping_add(last_item);
+        // pixels after the last one are taken to be equal to it
+        for (data_in, data_out) in stride_in[width - diameter..].iter().zip(end_stride) {
+            accumulator += last_item;
+            accumulator -= u32::from(*data_in);
 
             *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
         }
     }
 }
+
+/// The largest window, in pixels, that has a middle pixel and fits in a row
+fn odd_diameter(diameter: usize, width: usize) -> usize {
+    let diameter = diameter.min(width);
+
+    if diameter % 2 == 0 {
+        diameter - 1
+    } else {
+        diameter
+    }
+}
+
 #[allow(
     clippy::cast_possible_truncation,
     clippy::too_many_lines,
@@ -311,56 +300,50 @@ pub(crate) fn box_blur_f32_inner(
         out_image.copy_from_slice(in_image);
         return;
     }
-    let diameter = diameter.min(width);
+    let diameter = odd_diameter(diameter, width);
     let recip = 1.0 / diameter as f32;
 
     for (stride_in, stride_out) in in_image
         .chunks_exact(width)
         .zip(out_image.chunks_exact_mut(width))
     {
+        // pixels on either side of the middle one, plus the middle one
         let half_radius = (diameter + 1) / 2;
 
+        let first_item = stride_in[0];
+        let last_item = stride_in[width - 1];
+
+        // window of the first pixel, pixels before it are taken to be equal to it
         let mut accumulator: f32 = stride_in[..half_radius].iter().copied().sum();
 
-        accumulator += (half_radius - 1) as f32 * stride_in[0];
+        accumulator += (half_radius - 1) as f32 * first_item;
+
+        let (start_stride, rest) = stride_out.split_at_mut(half_radius);
+        let (mid_stride, end_stride) = rest.split_at_mut(width + 1 - (2 * half_radius));
+
+        start_stride[0] = accumulator * recip;
 
         for (data_in, data_out) in stride_in[half_radius..]
             .iter()
-            .zip(stride_out.iter_mut())
-            .take(half_radius - 1)
+            .zip(start_stride[1..].iter_mut())
         {
             accumulator += *data_in;
-            accumulator -= stride_in[0];
+            accumulator -= first_item;
 
             *data_out = accumulator * recip;
         }
 
-        let mut window_slide = stride_in[0];
-
-        for (window_in, data_out) in stride_in[1..]
-            .windows(diameter)
-            .zip(stride_out[half_radius - 1..].iter_mut())
-        {
-            accumulator -= window_slide;
-            accumulator += *window_in.last().unwrap();
-
-            window_slide = window_in[0];
+        for (window_in, data_out) in stride_in.windows(diameter + 1).zip(mid_stride.iter_mut()) {
+            accumulator += window_in[diameter];
+            accumulator -= window_in[0];
 
             *data_out = accumulator * recip;
         }
 
-        let edge_len = stride_out.len() - half_radius;
-
-        let end_stride = &mut stride_out[edge_len..];
-        let last_item = *stride_in.last().unwrap();
-
-        for (data_in, data_out) in stride_in[edge_len..]
-            .iter()
-            .zip(end_stride)
-            .take(half_radius)
-        {
-            accumulator -= *data_in;
+        // pixels after the last one are taken to be equal to it
+        for (data_in, data_out) in stride_in[width - diameter..].iter().zip(end_stride) {
             accumulator += last_item;
+            accumulator -= *data_in;
 
             *data_out = accumulator * recip;
         }
-- 
2.43.0


From 7784a6dea3822dd62dec60f0d590257b599e081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 042/110] fix: compare 16 bit tRNS colours in the byte order of
 the samples

The samples are big endian at this point, the colour was native endian.
---
 crates/zune-png/src/utils.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-png/src/utils.rs b/crates/zune-png/src/utils.rs
index 1633e4d..47e9be9 100644
--- a/crates/zune-png/src/utils.rs
+++ b/crates/zune-png/src/utils.rs
@@ -135,7 +135,8 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
     if SIXTEEN_BITS {
         match color {
             PngColor::Luma => {
-                let trns_byte = trns_bytes[0].to_ne_bytes();
+                // samples are still big endian here
+                let trns_byte = trns_bytes[0].to_be_bytes();
 
                 for (in_chunk, chunk) in input.chunks_exact(2).zip(out.chunks_exact_mut(4)) {
                     chunk[..2].copy_from_slice(in_chunk);
@@ -150,9 +151,9 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
                 }
             }
             PngColor::RGB => {
-                let r = trns_bytes[0].to_ne_bytes();
-                let g = trns_bytes[1].to_ne_bytes();
-                let b = trns_bytes[2].to_ne_bytes();
+                let r = trns_bytes[0].to_be_bytes();
+                let g = trns_bytes[1].to_be_bytes();
+                let b = trns_bytes[2].to_be_bytes();
 
                 // copy all trns chunks into one big vector
                 let mut all: [u8; 6] = [0; 6];
-- 
2.43.0


From 7726d5a4e403508cc04c343b18268ca1ee5f5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 043/110] fix: add the alpha channel to the last row of low
 depth PNGs like to the others

---
 crates/zune-png/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index cf55eb3..3adb2a7 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1183,7 +1183,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 let to_filter_row = &mut out[(i - 1) * out_chunk_size..i * out_chunk_size];
 
                 // check if we will run any other transform
-                let extra_transform = self.seen_ptle | self.seen_trns;
+                let extra_transform = self.seen_ptle | self.seen_trns | add_alpha_channel;
 
                 if info.depth < 8 {
                     if extra_transform {
-- 
2.43.0


From 2440e0c65c6759e56659cf037233edda941299fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 044/110] fix: keep tRNS transparency when an alpha channel is
 also asked for

---
 crates/zune-png/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 3adb2a7..2e15e86 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1165,7 +1165,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         // Normal expansion
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     // the image is a normal RGB/ Luma image, which we need to add the alpha channel
                     // do it here
                     add_alpha(
@@ -1255,7 +1255,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                     } else {
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     add_alpha(
                         &self.previous_stride,
                         to_filter_row,
-- 
2.43.0


From 20e9cb81b2d76aff7c8d6bbc95c862d3a6bfd1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 045/110] fix: strip 16 bit PNG samples to their high byte for
 little endian output too

---
 crates/zune-png/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 2e15e86..6dc4e57 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -658,8 +658,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             self.decode_interlaced(&deflate_data, out, &png_info, &info)?;
         }
 
-        // convert to set endian if need be
-        if self.depth().unwrap() == BitDepth::Sixteen {
+        // convert to set endian if need be, stripping to 8 bit expects big endian
+        if self.depth().unwrap() == BitDepth::Sixteen && !self.options.png_get_strip_to_8bit() {
             convert_be_to_target_endian_u16(out, self.byte_endian(), self.options.use_sse41());
         }
         // one more frame decoded
-- 
2.43.0


From bb38c747e7e3861a1b2a99dc832e5de8173d5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 046/110] fix: let decode_into strip to 8 bit after an earlier
 decode_raw

---
 crates/zune-png/src/decoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 6dc4e57..4a93905 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -689,7 +689,10 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         let t = self.inner_buffer_size().unwrap();
         let mut out: Vec<u8> = vec![0; t];
         //decode
-        self.decode_into(&mut out)?;
+        let result = self.decode_into(&mut out);
+        // later calls to decode_into strip for themselves
+        self.called_from_decode_into = true;
+        result?;
         if self.options.png_get_strip_to_8bit() && self.png_info.depth == 16 {
             // in case we are to convert from 16 bit to 8 bit, we can do it here
             // we optimize it by using the same buffer the 16 bit data is stored in
-- 
2.43.0


From 2bb3786da930a187b2751be1b9672b37c1817671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 047/110] fix: place interlaced APNG frames by the width of the
 frame

---
 crates/zune-png/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 4a93905..20244b2 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -814,7 +814,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         let out_y = j * YSPC[p] + YORIG[p];
                         let out_x = i * XSPC[p] + XORIG[p];
 
-                        let final_start = out_y * info.width * out_bytes + out_x * out_bytes;
+                        let final_start = out_y * frame_info.width * out_bytes + out_x * out_bytes;
                         let out_start = (j * x + i) * out_bytes;
 
                         if let Some(e) = out.get_mut(final_start..final_start + out_bytes) {
-- 
2.43.0


From 4f3820ff2b8ec83f9fd5f83226c4d02c873cabe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 048/110] fix: read the row padding of BMP images below 8 bits
 per pixel

---
 crates/zune-bmp/src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 23259bb..06e764a 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -939,6 +939,8 @@ where
                     // before expanding them in a separate pass
                     let in_width_bytes = ((self.width * usize::from(self.depth)) + 7) / 8;
                     let mut in_width_buf = vec![0_u8; in_width_bytes];
+                    // rows are padded to a multiple of four bytes
+                    let in_width_pad = in_width_bytes.wrapping_neg() & 3;
 
                     let scanline_size = width_bytes * 3;
                     let mut scanline_bytes = vec![0_u8; scanline_size];
@@ -948,6 +950,8 @@ where
                     {
                         // read a whole width scanline before expanding
                         self.bytes.read_exact_bytes(&mut in_width_buf)?;
+                        // skip padding bytes
+                        self.bytes.skip(in_width_pad)?;
 
                         expand_bits_to_byte(
                             self.depth as usize,
-- 
2.43.0


From 47b5ca16a7992fe0ce849dae1b19461b4b739016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 049/110] fix: size the rows of 16-bit BMP images by the width,
 not the height

---
 crates/zune-bmp/src/decoder.rs | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 06e764a..ad42fad 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -856,26 +856,16 @@ where
                                     // PS: Not sure if it works
                                     assert!(self.pix_fmt.num_components() >= 3);
 
-                                    // Number of iterations we expect to go
-                                    let num_iters = buf.len() / pad_size;
-                                    // Input bytes per every output byte width
+                                    // Input bytes per row
                                     //
                                     // this does ceil division to ensure input is appropriately rounded
                                     // of to a multiple of 4 to handle pad bytes in BMP
-                                    let input_bytes_per_width = (((num_iters * 2) + 3) / 4) * 4;
-
-                                    // we chunk according to number of iterations, which is usually the
-                                    // image dimensions (w*h*color components), this is given by the size of
-                                    // buf - output buffer is appropriately sized for this-.
-                                    // for the input, we are reading two bytes( for every three bytes (or four)
-                                    // consumed hence if we know how many iterations we will be doing
-                                    // we can use that to chunk appropriately
+                                    let input_bytes_per_width = (((self.width * 2) + 3) / 4) * 4;
 
                                     for out in buf.rchunks_exact_mut(pad_size) {
                                         let mut count = 0;
-                                        for raw_pix in out
-                                            .chunks_exact_mut(self.pix_fmt.num_components())
-                                            .take(input_bytes_per_width)
+                                        for raw_pix in
+                                            out.chunks_exact_mut(self.pix_fmt.num_components())
                                         {
                                             let v = u32::from(u16::from_le_bytes(
                                                 self.bytes.read_fixed_bytes_or_zero::<2>()
@@ -884,13 +874,8 @@ where
 
                                             conv_function(v, raw_pix);
                                         }
-                                        //assert_eq!(count, input_bytes_per_width * 2);
-                                        debug_assert!(
-                                            input_bytes_per_width * 2 >= count,
-                                            "Input bytes cannot be greater than count"
-                                        );
                                         let padding_bytes =
-                                            (input_bytes_per_width * 2).saturating_sub(count);
+                                            input_bytes_per_width.saturating_sub(count);
                                         self.bytes.skip(padding_bytes)?;
                                     }
                                     self.image_in_bgra = true;
-- 
2.43.0


From fd08979f23f6c6466bd341b582329150e9e2a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 050/110] fix: do not swap neighbouring pixels of grayscale BMP
 images

---
 crates/zune-bmp/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index ad42fad..2893212 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -897,7 +897,7 @@ where
                                 // skip padding bytes
                                 self.bytes.skip(in_width.saturating_sub(out_width))?;
                                 // then flip bgr to rgb
-                                if !PRESERVE_BGRA {
+                                if !PRESERVE_BGRA && self.pix_fmt == BmpPixelFormat::RGB {
                                     for pix_pair in out.chunks_exact_mut(3) {
                                         pix_pair.swap(0, 2);
                                     }
-- 
2.43.0


From cf69f10062fa06b3b572a19faaf73d7e8e69783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 051/110] fix: read only the fields a BMP information header
 has

---
 crates/zune-bmp/src/decoder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 2893212..de85e65 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -319,7 +319,7 @@ where
                 height = self.bytes.get_u32_le_err()?;
                 _planes = self.bytes.get_u16_le_err()?;
                 bpp = self.bytes.get_u16_le_err()?;
-                compression = if hsize >= 40 {
+                compression = if ihsize >= 40 {
                     match BmpCompression::from_u32(self.bytes.get_u32_le_err()?) {
                         Some(c) => c,
                         None => {
@@ -344,16 +344,21 @@ where
                     trace!("Color used : {}", color_used);
                     trace!("Important Colors: {}", important_colors);
 
-                    self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    // the masks follow a 40 byte header only if they are in use
+                    if (ihsize > 40 && ihsize != 64) || compression == BmpCompression::BITFIELDS {
+                        self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    }
 
                     let mut colorspace_type = 0;
 
-                    if ihsize > 40 {
+                    if ihsize > 52 && ihsize != 64 {
                         // alpha mask
                         self.rgb_bitfields[3] = self.bytes.get_u32_le_err()?;
+                    }
 
+                    if ihsize >= 108 {
                         colorspace_type = self.bytes.get_u32_le_err()?;
 
                         const BMP_DENOM: f64 = 0x40000000_u32 as f64;
-- 
2.43.0


From b726c85ba70cf073f41571a5965d2d033c6217df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 052/110] fix: pair each channel with its own mask in BGR(A)
 output of BMP bit fields

---
 crates/zune-bmp/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index de85e65..ad520a1 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -822,9 +822,9 @@ where
                                 // Anonymous conversion function
                                 let conv_function = |v: u32, a: &mut [u8]| {
                                     if PRESERVE_BGRA {
-                                        a[0] = shift_signed(v & mb, rshift, rcount) as u8;
+                                        a[0] = shift_signed(v & mb, bshift, bcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-                                        a[2] = shift_signed(v & mr, bshift, bcount) as u8;
+                                        a[2] = shift_signed(v & mr, rshift, rcount) as u8;
                                     } else {
                                         a[0] = shift_signed(v & mr, rshift, rcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-- 
2.43.0


From 11fed366ad00913a2f1e2241eea991239feb22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 053/110] fix: accept an end of line before the end of a 4-bit
 RLE BMP image

---
 crates/zune-bmp/src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index ad520a1..cbd4c86 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -1176,6 +1176,10 @@ where
                         // move to the next line
                         line -= 1;
                         if line < 0 {
+                            if self.bytes.get_u16_be() == 1 {
+                                // end of picture
+                                return Ok(pixels);
+                            }
                             return Err(BmpDecoderErrors::Generic(format!(
                                 "Line less than 0 {line}"
                             )));
-- 
2.43.0


From 3b797f0451b1f29310dc974e22be8c03d03285d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 054/110] fix: bound the palette of a BMP image by the space
 before its pixels

---
 crates/zune-bmp/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index cbd4c86..021b587 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -528,7 +528,8 @@ where
             return Err(BmpDecoderErrors::GenericStatic("Unsupported Pixel format"));
         }
 
-        let p = self.hsize.wrapping_sub(self.ihszie).wrapping_sub(14);
+        // bytes between the information header and the pixels
+        let p = hsize.wrapping_sub(ihsize).wrapping_sub(14);
 
         if self.pix_fmt == BmpPixelFormat::PAL8 {
             let mut colors = 1_u32 << bpp;
@@ -547,7 +548,7 @@ where
                     colors = t as u32;
                 }
             } else {
-                colors = 256.min(p / 3);
+                colors = colors.min(p / if ihsize == 12 { 3 } else { 4 });
             }
             // palette location
             self.bytes.set_position((14 + ihsize) as usize)?;
-- 
2.43.0


From 8702537af70147376dcc0eaea559b8cf35868d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 055/110] fix: report a BMP output buffer that is too small as
 an error

---
 crates/zune-bmp/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 021b587..206c8cc 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -739,6 +739,9 @@ where
             .output_buf_size()
             .ok_or(BmpDecoderErrors::OverFlowOccurred)?;
 
+        if buf.len() < output_size {
+            return Err(BmpDecoderErrors::TooSmallBuffer(output_size, buf.len()));
+        }
         let buf = &mut buf[0..output_size];
 
         if self.comp == BmpCompression::RLE4 || self.comp == BmpCompression::RLE8 {
-- 
2.43.0


From 9af736dfe3608cc6b93e9f71bd6ab1b07c3a9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 056/110] fix: read 16-bit PSD samples in the byte order they
 were stored in

---
 crates/zune-psd/src/decoder.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index de64502..947447c 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -316,11 +316,11 @@ where
             match self.depth {
                 BitDepth::Sixteen => {
                     for pixel in result.chunks_exact_mut(8) {
-                        let px3 = u16::from_be_bytes(pixel[6..8].try_into().unwrap());
+                        let px3 = u16::from_ne_bytes(pixel[6..8].try_into().unwrap());
                         if px3 != 0 && px3 != 65535 {
-                            let px0 = u16::from_be_bytes(pixel[0..2].try_into().unwrap());
-                            let px1 = u16::from_be_bytes(pixel[2..4].try_into().unwrap());
-                            let px2 = u16::from_be_bytes(pixel[4..6].try_into().unwrap());
+                            let px0 = u16::from_ne_bytes(pixel[0..2].try_into().unwrap());
+                            let px1 = u16::from_ne_bytes(pixel[2..4].try_into().unwrap());
+                            let px2 = u16::from_ne_bytes(pixel[4..6].try_into().unwrap());
 
                             let a = f32::from(px3) / 65535.0;
                             let ra = 1.0 / a;
@@ -371,7 +371,8 @@ where
                 .chunks_exact(2)
                 .map(|chunk| {
                     let value: [u8; 2] = chunk.try_into().unwrap();
-                    u16::from_be_bytes(value)
+                    // decode_raw stores samples in native endian
+                    u16::from_ne_bytes(value)
                 })
                 .collect();
 
-- 
2.43.0


From a06e6e949d3858229f8d59e4cb039c6705aa203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 057/110] fix: skip the row lengths of every channel of a
 grayscale PSD image

---
 crates/zune-psd/src/decoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 947447c..373f0a2 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -50,7 +50,9 @@ where
     depth:          BitDepth,
     color_type:     Option<ColorModes>,
     compression:    CompressionMethod,
-    channel_count:  usize
+    channel_count:  usize,
+    /// Channels in the file, of which `channel_count` are decoded
+    file_channels:  usize
 }
 
 impl<T> PSDDecoder<T>
@@ -81,7 +83,8 @@ where
             depth: BitDepth::Eight,
             color_type: None,
             compression: CompressionMethod::NoCompression,
-            channel_count: 0
+            channel_count: 0,
+            file_channels: 0
         }
     }
 
@@ -117,6 +120,7 @@ where
         }
 
         self.channel_count = usize::from(channel_count);
+        self.file_channels = usize::from(channel_count);
 
         let height = self.stream.get_u32_be_err()? as usize;
         let width = self.stream.get_u32_be_err()? as usize;
@@ -232,7 +236,7 @@ where
 
                 // The RLE-compressed data is preceded by a 2-byte data count for each row
                 // in the data, which we're going to just skip.
-                let skipped = self.height * self.channel_count * 2;
+                let skipped = self.height * self.file_channels * 2;
                 self.stream.skip(skipped)?;
 
                 let mut out_channel = vec![0; pixel_count * self.channel_count + 10];
-- 
2.43.0


From 6f66eb1e485668af6ad33c9b9f64f02b792843cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 058/110] fix: refuse PSD images with fewer channels than their
 colour mode

---
 crates/zune-psd/src/decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 373f0a2..5668c1e 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -173,6 +173,14 @@ where
         } else {
             return Err(PSDDecodeErrors::Generic("Unknown color mode"));
         }
+        let min_channels = match color_enum {
+            Some(ColorModes::RGB) => 3,
+            Some(ColorModes::CYMK) => 4,
+            _ => 1
+        };
+        if channel_count < min_channels {
+            return Err(PSDDecodeErrors::UnsupportedChannelCount(channel_count));
+        }
         self.color_type = color_enum;
 
         // skip mode data
-- 
2.43.0


From 8d863ba1bdfff97b138d99decf9ccb9a7cb97352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 059/110] fix: use no platform intrinsics when unsafe code is
 disabled

---
 crates/zune-core/src/options/decoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zune-core/src/options/decoder.rs b/crates/zune-core/src/options/decoder.rs
index 6093c70..3a9a96d 100644
--- a/crates/zune-core/src/options/decoder.rs
+++ b/crates/zune-core/src/options/decoder.rs
@@ -439,7 +439,7 @@ impl DecoderOptions {
     /// false if it's not present
     #[allow(unreachable_code)]
     pub fn use_sse2(&self) -> bool {
-        let opt = self.flags.zune_use_sse2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -472,7 +472,7 @@ impl DecoderOptions {
     /// it's not present
     #[allow(unreachable_code)]
     pub fn use_sse3(&self) -> bool {
-        let opt = self.flags.zune_use_sse3 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse3 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -504,7 +504,7 @@ impl DecoderOptions {
     /// is not present
     #[allow(unreachable_code)]
     pub fn use_sse41(&self) -> bool {
-        let opt = self.flags.zune_use_sse41 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse41 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -536,7 +536,7 @@ impl DecoderOptions {
     /// not present
     #[allow(unreachable_code)]
     pub fn use_avx(&self) -> bool {
-        let opt = self.flags.zune_use_avx | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -568,7 +568,7 @@ impl DecoderOptions {
     /// present
     #[allow(unreachable_code)]
     pub fn use_avx2(&self) -> bool {
-        let opt = self.flags.zune_use_avx2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -596,7 +596,7 @@ impl DecoderOptions {
 
     #[allow(unreachable_code)]
     pub fn use_neon(&self) -> bool {
-        let opt = self.flags.zune_use_neon | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_neon & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
-- 
2.43.0


From f8ee1dae99de66b77f93185ef7a8e8bdcc0f5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 060/110] fix: size JPEG components by the largest sampling
 factors of all components

---
 crates/zune-jpeg/src/misc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/misc.rs b/crates/zune-jpeg/src/misc.rs
index 19391ba..0620606 100644
--- a/crates/zune-jpeg/src/misc.rs
+++ b/crates/zune-jpeg/src/misc.rs
@@ -210,12 +210,15 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
         img.input_colorspace = ColorSpace::RGB;
     }
 
-    for component in &mut img.components {
+    for component in &img.components {
         // compute interleaved image info
         // h_max contains the maximum horizontal component
         img.h_max = max(img.h_max, component.horizontal_sample);
         // v_max contains the maximum vertical component
         img.v_max = max(img.v_max, component.vertical_sample);
+    }
+
+    for component in &mut img.components {
         img.mcu_width = img.h_max * 8;
         img.mcu_height = img.v_max * 8;
         // Number of MCU's per width
@@ -239,7 +242,7 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
             })?;
 
         let x = (usize::from(img_width) * component.horizontal_sample + img.h_max - 1) / img.h_max;
-        let y = (usize::from(img_height) * component.horizontal_sample + img.h_max - 1) / img.v_max;
+        let y = (usize::from(img_height) * component.vertical_sample + img.v_max - 1) / img.v_max;
         component.x = x;
         component.w2 = img.mcu_x * component.horizontal_sample * 8;
         // probably not needed. :)
-- 
2.43.0


From 425c68e67f031c744b96dc7502a80bd97ca4c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 061/110] fix: read progressive scans of one component by its
 own size

---
 crates/zune-jpeg/src/mcu_prog.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index a4ecbab..5303479 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -247,22 +247,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 )));
             }
 
-            let (mcu_width, mcu_height);
-
-            if self.components[k].vertical_sample != 1
-                || self.components[k].horizontal_sample != 1
-                || !self.is_interleaved
-            {
-                // For non interleaved scans
-                // mcu's is the image dimensions divided by 8
-                mcu_width = self.info.width.div_ceil(8) as usize;
-                mcu_height = self.info.height.div_ceil(8) as usize;
-            } else {
-                // For other channels, in an interleaved mcu, number of MCU's
-                // are determined by some weird maths done in headers.rs->parse_sos()
-                mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y;
-            }
+            // the blocks of a scan of one component cover that component,
+            // without the padding of interleaved scans
+            let mcu_width = self.components[k].x.div_ceil(8);
+            let mcu_height = self.components[k].y.div_ceil(8);
 
             for i in 0..mcu_height {
                 for j in 0..mcu_width {
-- 
2.43.0


From 4ee5dbbb2271be322b21e84ef785f02605e8b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 062/110] fix: read baseline scans of one component in the
 order of its own blocks

---
 crates/zune-jpeg/src/mcu.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 61ee2df..3c2ccf9 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -198,7 +198,17 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
             trace!("Decoding MCU width: {mcu_width}, height: {mcu_height}");
 
-            for i in 0..mcu_height {
+            // a scan of one component of several covers the blocks of that component,
+            // row by row and without the padding of interleaved scans
+            let (scan_width, scan_height) = if !all_components_in_first_scan && self.num_scans == 1
+            {
+                let component = &self.components[self.z_order[0]];
+                (component.x.div_ceil(8), component.y.div_ceil(8))
+            } else {
+                (mcu_width, mcu_height)
+            };
+
+            for i in 0..scan_height {
                 if stream.overread_by > 0 {
                     pixels.get_mut(pixels_written..).map(|v| v.fill(128));
                     if self.options.strict_mode() {
@@ -238,7 +248,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     */
 
                     self.decode_mcu_width::<true>(
-                        mcu_width,
+                        scan_width,
                         i,
                         &mut tmp,
                         &mut stream,
@@ -398,7 +408,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
-        let is_one_by_one = !self.scan_subsampled;
+        let is_one_by_one = !self.scan_subsampled || (PROGRESSIVE && self.num_scans == 1);
 
         // The definition of MCU depends on the sampling factor of involved scans. When components
         // have different factors then each Minimal-Coding-Unit is the least common multiple such
@@ -466,9 +476,13 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     .ok_or(DecodeErrors::FormatStatic("AC table not found"))?;
 
                 let qt_table = &component.quantization_table;
+                let (h_blocks, v_blocks) = if SAMPLED {
+                    (component.horizontal_sample, component.vertical_sample)
+                } else {
+                    (1, 1)
+                };
                 let channel = if PROGRESSIVE {
-                    let offset =
-                        mcu_height * component.width_stride * 8 * component.vertical_sample;
+                    let offset = mcu_height * component.width_stride * 8 * v_blocks;
                     &mut progressive[k][offset..]
                 } else {
                     &mut component.raw_coeff
@@ -482,10 +496,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 //
                 // Turn the bounds into a compile time constant for a common special case. This
                 // allows the compiler to unroll the loop and then do a bunch of interleaving.
-                let v_step = if SAMPLED { 0..component.vertical_sample } else { 0..1 };
+                let v_step = 0..v_blocks;
 
                 for v_samp in v_step {
-                    let h_step = if SAMPLED { 0..component.horizontal_sample } else { 0..1 };
+                    let h_step = 0..h_blocks;
 
                     for h_samp in h_step {
                         let result = if component_samples_needed {
@@ -540,7 +554,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                             let idct_position = {
                                 // derived from stb and rewritten for my tastes
                                 let c2 = v_samp * 8;
-                                let c3 = ((j * component.horizontal_sample) + h_samp) * 8;
+                                let c3 = ((j * h_blocks) + h_samp) * 8;
 
                                 component.width_stride * c2 + c3
                             };
-- 
2.43.0


From 54a3afc17e08ae21a3cf72df206ce50242c1ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 063/110] fix: do not count MCU rows twice for luma output of
 vertically sampled JPEG

---
 crates/zune-jpeg/src/mcu.rs      | 2 --
 crates/zune-jpeg/src/mcu_prog.rs | 4 +---
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 3c2ccf9..32e22e0 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -121,8 +121,6 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 5303479..015d4cd 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -53,7 +53,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     ) -> Result<(), DecodeErrors> {
         setup_component_params(self)?;
 
-        let mut mcu_height;
+        let mcu_height;
 
         // memory location for decoded pixels for components
         let mut block: [Vec<i16>; MAX_COMPONENTS] = [vec![], vec![], vec![], vec![]];
@@ -91,8 +91,6 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
-- 
2.43.0


From 1c7310a2a66e5edaef46cab6f7e07426ec5b2b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 064/110] fix: decode the last rows of a JPEG scan when the
 next marker was read ahead

---
 crates/zune-jpeg/src/mcu.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 32e22e0..be2f48a 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -223,6 +223,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     self.decode_mcu_width::<false>(
                         mcu_width,
                         i,
+                        true,
                         &mut tmp,
                         &mut stream,
                         &mut progressive_mcus
@@ -248,6 +249,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     self.decode_mcu_width::<true>(
                         scan_width,
                         i,
+                        i + 1 == scan_height,
                         &mut tmp,
                         &mut stream,
                         &mut progressive_mcus
@@ -403,7 +405,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     }
 
     fn decode_mcu_width<const PROGRESSIVE: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, mcu_height: usize, may_end: bool, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
         let is_one_by_one = !self.scan_subsampled || (PROGRESSIVE && self.num_scans == 1);
@@ -421,6 +423,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.inner_decode_mcu_width::<PROGRESSIVE, false>(
                 mcu_width,
                 mcu_height,
+                may_end,
                 tmp,
                 stream,
                 progressive
@@ -429,6 +432,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.inner_decode_mcu_width::<PROGRESSIVE, true>(
                 mcu_width,
                 mcu_height,
+                may_end,
                 tmp,
                 stream,
                 progressive
@@ -442,7 +446,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     // when `not SAMPLED` then the inner loop has exactly one iteration per component in
     // the scan. The difference was ~1% or a bit more.
     fn inner_decode_mcu_width<const PROGRESSIVE: bool, const SAMPLED: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, mcu_height: usize, may_end: bool, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
         let z_order = self.z_order;
@@ -584,11 +588,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             }
         }
 
-        self.check_stream_marker_after_mcu_width(stream)
+        self.check_stream_marker_after_mcu_width(stream, may_end)
     }
 
     fn check_stream_marker_after_mcu_width(
-        &mut self, stream: &mut BitStream
+        &mut self, stream: &mut BitStream, may_end: bool
     ) -> Result<McuContinuation, DecodeErrors> {
         // After all interleaved components, that's an MCU
         // handle stream markers
@@ -617,6 +621,15 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 if self.todo == 0 {
                     self.handle_rst(stream)?;
                 }
+            } else if !may_end
+                && (matches!(
+                    m,
+                    Marker::SOS | Marker::DHT | Marker::DQT | Marker::DRI | Marker::COM
+                ) || matches!(m, Marker::APP(_)))
+            {
+                // the marker after this scan was read ahead, the bits of the
+                // remaining rows are still in the buffer.
+                return Ok(McuContinuation::Ok);
             } else if let Marker::SOS = m {
                 self.parse_marker_inner(m)?;
                 stream.marker.take();
-- 
2.43.0


From 824c01919e8847ebaaa4e573544f94f77d5ad02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 065/110] fix: end the restart intervals of a JPEG scan with
 the scan

---
 crates/zune-jpeg/src/mcu.rs      | 11 +++++++++--
 crates/zune-jpeg/src/mcu_prog.rs | 12 +++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index be2f48a..d39d516 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -276,11 +276,15 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                         warn!("More than one SOS despite already having all components");
                         return Ok(());
                     }
-                    McuContinuation::AnotherSos => continue 'sos,
+                    McuContinuation::AnotherSos => {
+                        self.todo = self.restart_interval;
+                        continue 'sos;
+                    }
                     McuContinuation::InterScanMarker(marker) => {
                         // Handle inter-scan markers (DHT/DQT/etc) uniformly here.
                         // This keeps all marker handling in the outer loop.
                         if self.advance_to_next_sos(marker, &mut stream)? {
+                            self.todo = self.restart_interval;
                             continue 'sos;
                         } else {
                             // Hit EOI
@@ -578,7 +582,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
             self.todo = self.todo.wrapping_sub(1);
 
-            if self.todo == 0 {
+            // when another scan follows, it does so without a restart marker
+            let scan_ends = PROGRESSIVE && may_end && j + 1 == mcu_width;
+
+            if self.todo == 0 && !scan_ends {
                 self.handle_rst_main(stream)?;
                 continue;
             }
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 015d4cd..47ffcb8 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -329,7 +329,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // + EOB and investigate effect.
                     self.todo -= 1;
 
-                    self.handle_rst_main(stream)?;
+                    // no restart marker follows the last restart interval of a scan
+                    if i + 1 < mcu_height || j + 1 < mcu_width {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         } else {
@@ -417,8 +420,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // We want wrapping subtraction here because it means
                     // we get a higher number in the case this underflows
                     self.todo -= 1;
-                    // after every scan that's a mcu, count down restart markers.
-                    self.handle_rst_main(stream)?;
+                    // after every scan that's a mcu, count down restart markers,
+                    // none follows the last restart interval of a scan.
+                    if i + 1 < self.mcu_y || j + 1 < self.mcu_x {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         }
-- 
2.43.0


From 5334f03bd560b1b9292a37ed5e03cb326122ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 066/110] fix: look for the marker behind a JPEG scan if it was
 not read ahead

---
 crates/zune-jpeg/src/mcu.rs      | 5 +++++
 crates/zune-jpeg/src/mcu_prog.rs | 6 ++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index d39d516..dc60fdd 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -595,6 +595,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             }
         }
 
+        if PROGRESSIVE && may_end && stream.marker.is_none() && !stream.seen_eoi {
+            // the marker of the next scan may not have been read ahead
+            stream.marker = get_marker(&mut self.stream, stream).ok();
+        }
+
         self.check_stream_marker_after_mcu_width(stream, may_end)
     }
 
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 47ffcb8..b7e449c 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -119,10 +119,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         }
 
         // extract marker
-        let mut marker = stream
-            .marker
-            .take()
-            .ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(&mut self.stream, &mut stream)
+            .map_err(|_| DecodeErrors::FormatStatic("Marker missing where expected"))?;
 
         // if marker is EOI, we are done, otherwise continue scanning.
         //
-- 
2.43.0


From a6cb2a15b42d91b7fed20449731969fcdfd47c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 067/110] fix: write the alpha of JPEG images converted from
 CMYK to RGBA

---
 crates/zune-jpeg/src/worker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/worker.rs b/crates/zune-jpeg/src/worker.rs
index 83927d7..a3249ee 100644
--- a/crates/zune-jpeg/src/worker.rs
+++ b/crates/zune-jpeg/src/worker.rs
@@ -266,7 +266,7 @@ fn color_convert_cymk_to_rgb<const NUM_COMPONENTS: usize>(
         .zip(mcu_block[3].chunks_exact(padded_width))
     {
         for ((((pix, c), m), y), k) in pix_w
-            .chunks_exact_mut(3)
+            .chunks_exact_mut(NUM_COMPONENTS)
             .zip(c_w)
             .zip(m_w)
             .zip(y_w)
@@ -280,6 +280,10 @@ fn color_convert_cymk_to_rgb<const NUM_COMPONENTS: usize>(
             pix[0] = blinn_8x8(c, k);
             pix[1] = blinn_8x8(m, k);
             pix[2] = blinn_8x8(y, k);
+
+            if NUM_COMPONENTS == 4 {
+                pix[3] = 255;
+            }
         }
     }
 }
-- 
2.43.0


From 02a3de6a50a4d5ebf3746b0b523e81c11e7ba8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 068/110] fix: apply the K component to every row of a YCCK
 JPEG converted to RGBA

---
 crates/zune-jpeg/src/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/worker.rs b/crates/zune-jpeg/src/worker.rs
index a3249ee..29c5560 100644
--- a/crates/zune-jpeg/src/worker.rs
+++ b/crates/zune-jpeg/src/worker.rs
@@ -242,7 +242,7 @@ fn color_convert_ycck_to_rgb<const NUM_COMPONENTS: usize>(
         output
     );
     for (pix_w, m_w) in output
-        .chunks_exact_mut(width * 3)
+        .chunks_exact_mut(width * NUM_COMPONENTS)
         .zip(mcu_block[3].chunks_exact(padded_width))
     {
         for (pix, m) in pix_w.chunks_exact_mut(NUM_COMPONENTS).zip(m_w) {
-- 
2.43.0


From 0bc9d5f6d495f4681130277d984c9e0c880cb77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 069/110] fix: count the MCUs of JPEG images wider or higher
 than 65528 pixels

---
 crates/zune-jpeg/src/mcu.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index dc60fdd..a383f65 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -104,8 +104,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
         if self.is_interleaved
             && self.input_colorspace.num_components() > 1
@@ -129,8 +129,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
             self.reset_params();
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
         let width = usize::from(self.info.width);
 
-- 
2.43.0


From fce1e6231ba6cdde744a466678185aa96972808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 070/110] fix: skip JPEG APP14 segments that are not from Adobe
 by their own length

---
 crates/zune-jpeg/src/headers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index 8c3892f..9d1cbc8 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -494,6 +494,8 @@ pub(crate) fn parse_app14<T: ZByteReaderTrait>(
         length = length.saturating_sub(14);
     } else {
         warn!("Not a valid Adobe APP14 Segment, skipping");
+        // the length includes its own two bytes, and those were read
+        length -= 2;
     }
     // skip any proceeding lengths.
     // we do not need them
-- 
2.43.0


From 0e8219b9698ec5cf7e92beec68e2701ec4e80d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 071/110] fix: pipelines of images without a decoder always
 failed

---
 crates/zune-image/src/pipelines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/pipelines.rs b/crates/zune-image/src/pipelines.rs
index 435991f..f6e2541 100644
--- a/crates/zune-image/src/pipelines.rs
+++ b/crates/zune-image/src/pipelines.rs
@@ -160,7 +160,7 @@ impl Pipeline {
                     // do the actual decode
                     if self.decode.is_none() {
                         // we have an image, no need to decode a new one
-                        if self.image.is_empty() {
+                        if !self.image.is_empty() {
                             trace!("Image already present, no need to decode");
                             // move to the next state
                             self.state = state.next();
-- 
2.43.0


From 055285c89f0397ec0094434cc21ce7f5942185cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 072/110] fix: encode_to_result must return the encoded bytes

---
 crates/zune-image/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index 3f74b0f..13929fd 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -386,10 +386,10 @@ pub trait EncoderTrait {
     /// and format in `EncodeResult`
     fn encode_to_result(&mut self, image: &Image) -> Result<EncodeResult, ImageErrors> {
         let mut sink = vec![];
-        let data = self.encode(image, &mut sink)?;
+        self.encode(image, &mut sink)?;
 
         Ok(EncodeResult {
-            data:   vec![],
+            data:   sink,
             format: self.format()
         })
     }
-- 
2.43.0


From e4280aa642f7d61ae86dd8e7b967ec9365d404be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 073/110] fix: strip_metadata() gave the opposite of what was
 set

---
 crates/zune-core/src/options/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index fb59f6c..77dc45d 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -183,7 +183,7 @@ impl EncoderOptions {
     /// The default value is false, and encoders that respect this try to preserve as much
     /// data as possible from one image to another
     pub const fn strip_metadata(&self) -> bool {
-        !self.flags.image_strip_metadata
+        self.flags.image_strip_metadata
     }
 }
 
-- 
2.43.0


From 679e6e23a87e9dcc36c0d9a57ee36f1a15409c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 074/110] fix: set_jpeg_encode_progressive set the Huffman
 table option instead

---
 crates/zune-core/src/options/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index 77dc45d..c634324 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -211,7 +211,7 @@ impl EncoderOptions {
     ///
     /// Default is `false`
     pub fn set_jpeg_encode_progressive(mut self, yes: bool) -> Self {
-        self.flags.jpeg_optimize_huffman = yes;
+        self.flags.jpeg_encode_progressive = yes;
         self
     }
 }
-- 
2.43.0


From f19ecdffc0c4300f61e0f148d3959ec1a93e2b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 075/110] fix: BMP images must keep their format and ICC
 profile

---
 crates/zune-image/src/codecs/bmp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-image/src/codecs/bmp.rs b/crates/zune-image/src/codecs/bmp.rs
index f63f511..42cdc07 100644
--- a/crates/zune-image/src/codecs/bmp.rs
+++ b/crates/zune-image/src/codecs/bmp.rs
@@ -27,11 +27,15 @@ where
     T: ZByteReaderTrait
 {
     fn decode(&mut self) -> Result<Image, ImageErrors> {
+        let metadata = self.read_headers()?.unwrap();
         let pixels = self.decode()?;
         let (width, height) = self.dimensions().unwrap();
         let colorspace = self.colorspace().unwrap();
 
-        Ok(Image::from_u8(&pixels, width, height, colorspace))
+        let mut image = Image::from_u8(&pixels, width, height, colorspace);
+        image.metadata = metadata;
+
+        Ok(image)
     }
 
     fn dimensions(&self) -> Option<(usize, usize)> {
-- 
2.43.0


From 199bebec704cdc23042b14bc79da50ffea1fec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 076/110] fix: HDR images must keep their format

---
 crates/zune-image/src/codecs/hdr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zune-image/src/codecs/hdr.rs b/crates/zune-image/src/codecs/hdr.rs
index b6aa05c..b397dbe 100644
--- a/crates/zune-image/src/codecs/hdr.rs
+++ b/crates/zune-image/src/codecs/hdr.rs
@@ -29,7 +29,10 @@ where
         let (width, height) = self.dimensions().unwrap();
         let colorspace = self.get_colorspace().unwrap();
 
-        Ok(Image::from_f32(&bytes, width, height, colorspace))
+        let mut image = Image::from_f32(&bytes, width, height, colorspace);
+        image.metadata.format = Some(ImageFormat::HDR);
+
+        Ok(image)
     }
 
     fn dimensions(&self) -> Option<(usize, usize)> {
-- 
2.43.0


From c590c20d7fbcbfab8f3795401a76edcb441774ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 077/110] fix: PNG images stripped to 8 bit must say so

---
 crates/zune-image/src/codecs/png.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index edafb02..70f473c 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -38,7 +38,7 @@ where
     fn decode(&mut self) -> Result<Image, ImageErrors> {
         let metadata = self.read_headers()?.unwrap();
 
-        let depth = self.depth().unwrap();
+        let depth = metadata.depth;
         let (width, height) = self.dimensions().unwrap();
         let colorspace = self.colorspace().unwrap();
 
@@ -117,7 +117,12 @@ where
             .map_err(<error::PngDecodeErrors as Into<ImageErrors>>::into)?;
 
         let (width, height) = self.dimensions().unwrap();
-        let depth = self.depth().unwrap();
+        let depth = if self.options().png_get_strip_to_8bit() {
+            // 16 bit samples come out with 8 bits
+            BitDepth::Eight
+        } else {
+            self.depth().unwrap()
+        };
 
         let mut metadata = ImageMetadata {
             format: Some(ImageFormat::PNG),
-- 
2.43.0


From 567503110c31b3d683e86caefc1ccf8a53d2c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 078/110] fix: blend APNG frames without alpha by overwriting
 and with alpha by both alphas

---
 crates/zune-png/src/apng.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/zune-png/src/apng.rs b/crates/zune-png/src/apng.rs
index 574c27c..83254f4 100644
--- a/crates/zune-png/src/apng.rs
+++ b/crates/zune-png/src/apng.rs
@@ -322,6 +322,10 @@ pub fn post_process_image(
 
         // now blend
         match frame_info.blend_op {
+            // a frame without alpha is opaque, over replaces what is there
+            BlendOp::Over if !colorspace.has_alpha() => {
+                h_x.copy_from_slice(src_width);
+            }
             BlendOp::Source => {
                 // overwrite
                 h_x.copy_from_slice(src_width);
@@ -329,10 +333,6 @@ pub fn post_process_image(
             BlendOp::Over => {
                 // carry out alpha blending, we do the alpha bending in linear colorspace
                 //
-                assert!(colorspace.has_alpha());
-                if !colorspace.has_alpha() {
-                    return Err(PngDecodeErrors::GenericStatic("Image doesn't have alpha but requests blending using over which requires alpha"));
-                }
                 // pre-calculate the gamma samples
                 let mut gamma_values = [0.0; 256];
                 let mut inv_gamma_values = [0.0; 256];
@@ -366,13 +366,26 @@ pub fn post_process_image(
                          */
                         continue;
                     }
+                    let background_alpha = f32::from(*dst_comp.last().unwrap()) / 255.0;
+
+                    if alpha == 255 || background_alpha == 0.0 {
+                        // nothing of the background is seen
+                        dst_comp.copy_from_slice(src_comp);
+                        continue;
+                    }
+                    // the alpha of what is seen, and how much of it each image gives
+                    let out_alpha = foreground_alpha + background_alpha * dst_alpha;
+                    let foreground_weight = foreground_alpha / out_alpha;
+                    let background_weight = 1.0 - foreground_weight;
+
+                    *dst_comp.last_mut().unwrap() = (out_alpha * max_sample + 0.5) as u8;
 
                     for (a, b) in src_comp.iter().zip(dst_comp).take(nc - 1) {
                         // convert to floating point, undo gamma encoding
                         let linfg = gamma_values[usize::from(*a)];
                         let linbg = gamma_values[usize::from(*b)];
                         // composite
-                        let commpix = linfg * foreground_alpha + linbg * dst_alpha;
+                        let commpix = linfg * foreground_weight + linbg * background_weight;
                         // gamma encode for storage
                         // NB: (cae): This function becomes quite expensive.
                         // I'm not sure if memoization may help us here.
-- 
2.43.0


From ac7ecd61d7c5aef73903c1f19b2c6b8fe28af110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 079/110] fix: dispose of APNG frames after they were shown,
 and only of their region

---
 crates/zune-image/src/codecs/png.rs | 30 ++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index 70f473c..df7821b 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -54,12 +54,17 @@ where
                 self.decode_headers()?;
 
                 let mut frame = self.frame_info().unwrap();
-                if frame.dispose_op == DisposeOp::Previous {
-                    // we don't clear our buffer, so output always contains the previous frame
-                    //
-                    // this means that there is no need to store the previous frame and copy it
-                    frame.dispose_op = DisposeOp::None;
+                // what is to happen to the canvas once this frame was shown, the blending
+                // itself starts from the canvas as the frame before left it.
+                let mut dispose_op = frame.dispose_op;
+                frame.dispose_op = DisposeOp::None;
+
+                if dispose_op == DisposeOp::Previous && output_frames.is_empty() {
+                    // there is nothing to go back to before the first frame
+                    dispose_op = DisposeOp::Background;
                 }
+                let before = (dispose_op == DisposeOp::Previous).then(|| output.clone());
+
                 let pix = self.decode()?;
                 match pix {
                     DecodingResult::U8(pix) => {
@@ -76,6 +81,21 @@ where
                         // then build a frame from that
                         let im_frame = Frame::from_u8(&output, colorspace, usize::from(frame.delay_num),usize::from(frame.delay_denom));
                         output_frames.push(im_frame);
+
+                        if let Some(before) = before {
+                            output = before;
+                        } else if dispose_op == DisposeOp::Background {
+                            let nc = colorspace.num_components();
+
+                            for row in output
+                                .chunks_exact_mut(info.width * nc)
+                                .skip(frame.y_offset)
+                                .take(frame.height)
+                            {
+                                row[frame.x_offset * nc..(frame.x_offset + frame.width) * nc]
+                                    .fill(0);
+                            }
+                        }
                     }
                     _ => return Err(ImageDecodeErrors("The current image is an  Animated PNG but has a depth of 16, such an image isn't supported".to_string()))
                 }
-- 
2.43.0


From 240855c44f6a63abe28ab1d9731aa111542c6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 080/110] fix: the default image of an APNG is no frame of the
 animation unless it is in the sequence

---
 crates/zune-image/src/codecs/png.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index df7821b..c7d3a9d 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -66,6 +66,11 @@ where
                 let before = (dispose_op == DisposeOp::Previous).then(|| output.clone());
 
                 let pix = self.decode()?;
+
+                if !frame.is_part_of_seq && self.more_frames() {
+                    // the image for viewers without animation
+                    continue;
+                }
                 match pix {
                     DecodingResult::U8(pix) => {
                         post_process_image(
-- 
2.43.0


From 78d9bc56637045772bfe8fad633c4b9374c13e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 081/110] fix: refuse farbfeld images without pixels, reading
 them panicked

---
 crates/zune-farbfeld/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 1a41d8c..32ba09e 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -71,6 +71,9 @@ where
         trace!("Image width: {}", self.width);
         trace!("Image height: {}", self.height);
 
+        if self.width == 0 || self.height == 0 {
+            return Err(FarbFeldErrors::Generic("Image width or height is zero"));
+        }
         if self.height > self.options.max_height() {
             return Err(FarbFeldErrors::Generic("Image Height is greater than max height. Bump up max_height to support such images"));
         }
-- 
2.43.0


From f6c20a0480c82252fc6a64be385328e38b9d7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 082/110] fix: CMYK images saved as JPEG came out inverted

---
 crates/zune-image/src/codecs/jpeg.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/zune-image/src/codecs/jpeg.rs b/crates/zune-image/src/codecs/jpeg.rs
index 282ef51..6fc8814 100644
--- a/crates/zune-image/src/codecs/jpeg.rs
+++ b/crates/zune-image/src/codecs/jpeg.rs
@@ -142,7 +142,13 @@ impl EncoderTrait for JpegEncoder {
             "Unsupported bit depth{:?}",
             image.depth()
         );
-        let pixels = &image.flatten_frames::<u8>()[0];
+        let pixels = &mut image.flatten_frames::<u8>()[0];
+
+        if image.colorspace() == ColorSpace::CMYK {
+            // our samples are inverted already, as the file has them, and the encoder
+            // would invert them again
+            pixels.iter_mut().for_each(|x| *x = 255 - *x);
+        }
 
         if let Some(colorspace) = match_colorspace_to_colortype(image.colorspace()) {
             let max_dims = usize::from(u16::MAX);
-- 
2.43.0


From 177d5cb088a2040d3a72fe7c74884286db3b5c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 083/110] fix: check the length of alpha channels like that of
 the others

---
 crates/zune-image/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index 13929fd..ffc7f40 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -238,7 +238,7 @@ fn confirm_invariants(image: &Image) -> Result<(), ImageErrors> {
 
     let expected_length = image.depth().size_of() * width * height;
 
-    for channel in image.channels_ref(true) {
+    for channel in image.channels_ref(false) {
         if channel.len() != expected_length {
             return Err(ImageErrors::DimensionsMisMatch(
                 expected_length,
-- 
2.43.0


From 7e270a5cce390c0e358b56ca7e4e9074365842b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 084/110] fix: offsets in the exif data of saved JPEG images
 were six too large

---
 crates/zune-image/src/codecs/jpeg.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/zune-image/src/codecs/jpeg.rs b/crates/zune-image/src/codecs/jpeg.rs
index 6fc8814..8a99e3e 100644
--- a/crates/zune-image/src/codecs/jpeg.rs
+++ b/crates/zune-image/src/codecs/jpeg.rs
@@ -185,10 +185,9 @@ impl EncoderTrait for JpegEncoder {
                     // explicit :)
                 } else if let Some(metadata) = &image.metadata.exif {
                     let mut writer = Writer::new();
-                    // write first tags for exif
-                    let mut buf = std::io::Cursor::new(b"Exif\x00\x00".to_vec());
-                    // set buffer position to be bytes written, to ensure we don't overwrite anything
-                    buf.set_position(6);
+                    // offsets inside the exif data are relative to its first byte, so
+                    // the segment identifier is added after writing
+                    let mut buf = std::io::Cursor::new(vec![]);
 
                     for metadatum in metadata {
                         writer.push_field(metadatum);
@@ -196,7 +195,9 @@ impl EncoderTrait for JpegEncoder {
                     let result = writer.write(&mut buf, false);
                     if result.is_ok() {
                         // add the exif tag to APP1 segment
-                        encoder.add_app_segment(1, buf.get_ref())?;
+                        let mut segment = b"Exif\x00\x00".to_vec();
+                        segment.extend_from_slice(buf.get_ref());
+                        encoder.add_app_segment(1, &segment)?;
                     } else {
                         warn!("Writing exif failed {:?}", result);
                     }
-- 
2.43.0


From 9ea192582c4f9a56fafafdd69025f07efda25f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 085/110] fix: auto orientation left an exif orientation of the
 wrong type

---
 crates/zune-imageprocs/src/auto_orient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/auto_orient.rs b/crates/zune-imageprocs/src/auto_orient.rs
index d99bd82..6b75f5e 100644
--- a/crates/zune-imageprocs/src/auto_orient.rs
+++ b/crates/zune-imageprocs/src/auto_orient.rs
@@ -106,7 +106,7 @@ impl OperationsTrait for AutoOrient {
                 for field in data {
                     // set orientation to do nothing
                     if field.tag == Tag::Orientation {
-                        field.value = Value::Byte(vec![1]);
+                        field.value = Value::Short(vec![1]);
                     }
                 }
             }
-- 
2.43.0


From 87e8b7fcd94eb481f20b724f19c6f1ecac5d51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 086/110] fix: refuse PNG headers with depths below eight for
 other than gray and palette

---
 crates/zune-png/src/headers/readers.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index e0853f2..01913af 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -64,7 +64,15 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         self.png_info.component = self.png_info.color.num_components();
         // verify colors plus bit depths
         match self.png_info.depth {
-            1 | 2 | 4 | 8 => { /*silent pass through since all color types support it */ }
+            1 | 2 | 4 => {
+                if !matches!(self.png_info.color, PngColor::Luma | PngColor::Palette) {
+                    return Err(PngDecodeErrors::Generic(format!(
+                        "Bit depth {} is not allowed for color type {:?}",
+                        self.png_info.depth, self.png_info.color
+                    )));
+                }
+            }
+            8 => { /*silent pass through since all color types support it */ }
             16 => {
                 if self.png_info.color == PngColor::Palette {
                     return Err(PngDecodeErrors::GenericStatic(
-- 
2.43.0


From 1e1c274ab3f5e5ee8488fdd2d318d9de26c48e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 087/110] fix: palettes of PNG images which have none of their
 own spoilt the samples

---
 crates/zune-png/src/headers/readers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 01913af..53f938f 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -159,7 +159,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         // skip crc chunk
         self.stream.skip(4)?;
-        self.seen_ptle = true;
+        // other color types may have one as a suggestion, their samples aren't indices into it
+        self.seen_ptle = self.png_info.color == PngColor::Palette;
         Ok(())
     }
 
-- 
2.43.0


From aade4d6d259cb262cec979dc3b56732748d74c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 088/110] fix: PNG palettes longer than 256 entries made the
 decoder lose its place

---
 crates/zune-png/src/headers/readers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 53f938f..c3de9cd 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -142,7 +142,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
 
     pub(crate) fn parse_plte(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        if chunk.length % 3 != 0 {
+        if chunk.length % 3 != 0 || chunk.length > 256 * 3 {
             return Err(PngDecodeErrors::GenericStatic(
                 "Invalid pLTE length, corrupt PNG"
             ));
-- 
2.43.0


From 1017e014264ef3e827ff26e4466430e2bb864745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 089/110] fix: refuse palette PNG images without a palette

---
 crates/zune-png/src/headers/readers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index c3de9cd..a56437c 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -165,6 +165,9 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
 
     pub(crate) fn parse_idat(&mut self, png_chunk: PngChunk) -> Result<(), PngDecodeErrors> {
+        if self.png_info.color == PngColor::Palette && !self.seen_ptle {
+            return Err(PngDecodeErrors::GenericStatic("IDAT chunk before PLTE"));
+        }
         if self.frames.is_empty() {
             self.frames.push(SingleFrame::new(vec![], None));
         }
-- 
2.43.0


From 6ae0caa816b23bc2b6a93433a42d809742b70ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 090/110] fix: PNG tRNS chunks of the wrong length made the
 decoder lose its place

---
 crates/zune-png/src/headers/readers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index a56437c..ec1883a 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -194,10 +194,16 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     pub(crate) fn parse_trns(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         match self.png_info.color {
             PngColor::Luma => {
+                if chunk.length != 2 {
+                    return Err(PngDecodeErrors::GenericStatic("Invalid tRNS chunk length"));
+                }
                 let grey_sample = self.stream.get_u16_be();
                 self.trns_bytes[0] = grey_sample;
             }
             PngColor::RGB => {
+                if chunk.length != 6 {
+                    return Err(PngDecodeErrors::GenericStatic("Invalid tRNS chunk length"));
+                }
                 self.trns_bytes[0] = self.stream.get_u16_be();
                 self.trns_bytes[1] = self.stream.get_u16_be();
                 self.trns_bytes[2] = self.stream.get_u16_be();
-- 
2.43.0


From 74ba44caa42f516883b302e4f78dea599d63be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 091/110] fix: PNG gAMA and acTL chunks of the wrong length
 made the decoder lose its place

---
 crates/zune-png/src/headers/readers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index ec1883a..45dae9a 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -239,6 +239,11 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             let error = format!("Gama chunk length is not 4 but {}", chunk.length);
             return Err(PngDecodeErrors::Generic(error));
         }
+        if chunk.length != 4 {
+            warn!("Invalid gAMA chunk length {}, skipping", chunk.length);
+            self.stream.skip(chunk.length + 4)?;
+            return Ok(());
+        }
 
         let mut gama = (self.stream.get_u32_be() as f64 / 100000.0) as f32;
         if gama == 0.0 {
@@ -259,6 +264,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         if chunk.length != 8 {
             warn!("Invalid chunk length for ACTL, skipping");
             self.stream.skip(chunk.length + 4)?;
+            return Ok(());
         }
         // extract num_frames
         let num_frames = self.stream.get_u32_be();
-- 
2.43.0


From a39a8a7549912c3bd5eff52e5da86002a374e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 092/110] fix: PNG text and profile chunks: keywords of 79
 bytes, and chunks cut after the keyword

---
 crates/zune-png/src/headers/readers.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 45dae9a..5f4e9ba 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -344,11 +344,12 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
     /// Parse the iCCP chunk
     pub(crate) fn parse_iccp(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        // the longest keyword and its null separator
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
-        if let Some(pos) = keyword_position {
+        if let Some(pos) = keyword_position.filter(|pos| pos + 1 < chunk.length) {
             // skip name plus null byte
             self.stream.skip(pos + 1)?;
 
@@ -383,7 +384,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
     /// Parse the text chunk
     pub(crate) fn parse_text(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        // the longest keyword and its null separator
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
@@ -413,7 +415,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
     /// Parse the itXT chunk
     pub(crate) fn parse_itxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        // the longest keyword and its null separator
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
@@ -448,11 +451,12 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
     /// Parse zTxt chunk
     pub(crate) fn parse_ztxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        // the longest keyword and its null separator
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
-        if let Some(pos) = keyword_position {
+        if let Some(pos) = keyword_position.filter(|pos| pos + 1 < chunk.length) {
             let keyword = keyword_bytes[..pos].to_vec();
 
             // skip name plus null byte
-- 
2.43.0


From db096fc41de579e0411d968435fad949e53a3c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 093/110] fix: PNG iTXt chunks with a language, a translated
 keyword or compressed text

---
 crates/zune-png/src/headers/readers.rs | 37 +++++++++++++++-----------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 5f4e9ba..bb9ee2f 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -422,24 +422,29 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         if let Some(pos) = keyword_position {
             let keyword = keyword_bytes[..pos].to_vec();
-            // skip name plus null byte
-            let bytes_to_skip = pos + 1 // null separator
-                + 1  // compression flag
-                + 1  // compression method
-                + 1  // null separator
-                + 1; // null separator
-
-            self.stream.skip(bytes_to_skip)?;
-            let remainder = chunk.length.saturating_sub(bytes_to_skip);
-            let raw_data = self.stream.peek_at(0, remainder).unwrap().to_vec();
-
-            let itxt_chunk = ItxtChunk {
-                keyword,
-                text: raw_data
+            let data = self.stream.peek_at(0, chunk.length).unwrap();
+
+            // after the keyword come the compression flag and method, then
+            // the language tag and the translated keyword, null terminated
+            let compressed = data.get(pos + 1).map_or(false, |x| *x != 0);
+            let text = data.get(pos + 3..).and_then(|rest| {
+                let mut parts = rest.splitn(3, |x| *x == 0);
+                parts.next();
+                parts.next();
+                parts.next()
+            });
+            let text = match text {
+                Some(text) if compressed => DeflateDecoder::new(text).decode_zlib().ok(),
+                text => text.map(|text| text.to_vec())
             };
-            self.png_info.itxt_chunk.push(itxt_chunk);
+
+            if let Some(text) = text {
+                self.png_info.itxt_chunk.push(ItxtChunk { keyword, text });
+            } else {
+                warn!("Possibly corrupt iTXT chunk");
+            }
             // skip bytes we read
-            self.stream.skip(remainder)?;
+            self.stream.skip(chunk.length)?;
         } else {
             warn!("Possibly corrupt iTXT chunk");
             self.stream.skip(chunk.length)?;
-- 
2.43.0


From 09065b23583a44afad7147122bd369c01a19f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 094/110] fix: refuse animation frames of a PNG which are empty
 or reach out of the picture

---
 crates/zune-png/src/headers/readers.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index bb9ee2f..3fdef03 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -586,6 +586,17 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         let dispose_op = DisposeOp::from_int(self.stream.read_u8())?;
         let blend_op = BlendOp::from_int(self.stream.read_u8())?;
 
+        let inside = |start: usize, size: usize, full: usize| {
+            size > 0 && start.checked_add(size).map_or(false, |end| end <= full)
+        };
+        if !inside(x_offset, width, self.png_info.width)
+            || !inside(y_offset, height, self.png_info.height)
+        {
+            return Err(PngDecodeErrors::GenericStatic(
+                "Animation frame isn't inside the image"
+            ));
+        }
+
         let fctl_info = FrameInfo {
             seq_number,
             width,
-- 
2.43.0


From b25546bb3cce8ea41d8969a440551edc8d97c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 095/110] fix: refuse PNG fdAT chunks too short for their
 sequence number

---
 crates/zune-png/src/headers/readers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 3fdef03..73a7592 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -534,6 +534,9 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 self.stream.rewind(8)?;
                 break;
             } else if next_header.chunk_type == PngChunkType::fdAT {
+                if next_header.length < 4 {
+                    return Err(PngDecodeErrors::GenericStatic("Invalid fdAT length"));
+                }
                 if should_add_fctl {
                     // fctl + fdat only in the first frame
                     //
-- 
2.43.0


From dc6f44e4af5ae1e37aaa247f2d0f541ba5470e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 096/110] fix: refuse PNG filter methods other than zero

---
 crates/zune-png/src/headers/readers.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 73a7592..d24865e 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -94,12 +94,14 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         let filter_method = self.stream.read_u8();
 
-        if let Some(method) = FilterMethod::from_int(filter_method) {
-            self.png_info.filter_method = method;
-        } else {
-            return Err(PngDecodeErrors::Generic(format!(
-                "Unknown filter method {filter_method}"
-            )));
+        // the methods of single rows are numbered separately, of this one there is only zero
+        match FilterMethod::from_int(filter_method) {
+            Some(method) if filter_method == 0 => self.png_info.filter_method = method,
+            _ => {
+                return Err(PngDecodeErrors::Generic(format!(
+                    "Unknown filter method {filter_method}"
+                )));
+            }
         }
 
         let interlace_method = self.stream.read_u8();
-- 
2.43.0


From a523f52bbea8f9341148fb063e5a0ecfc7f0944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:24 +0000
Subject: [PATCH 097/110] fix: hue, saturation and lightness left as they are
 changed the image

---
 crates/zune-imageprocs/src/hsv_adjust.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/zune-imageprocs/src/hsv_adjust.rs b/crates/zune-imageprocs/src/hsv_adjust.rs
index f89c5a1..eb9dfb7 100644
--- a/crates/zune-imageprocs/src/hsv_adjust.rs
+++ b/crates/zune-imageprocs/src/hsv_adjust.rs
@@ -157,6 +157,8 @@ where
 
     let min = T::MIN_VAL.to_f32();
     let max = T::MAX_VAL.to_f32();
+    // integers are rounded, conversion cuts off
+    let half = if max > 1.0 { 0.5 } else { 0.0 };
 
     for ((r_i, g_i), b_i) in r.iter_mut().zip(g.iter_mut()).zip(b.iter_mut()) {
         let in_r = f32::from(*r_i);
@@ -170,12 +172,12 @@ where
             + (0.587 * v + 0.413 * vsu + 0.035 * vsw) * in_g
             + (0.114 * v - 0.114 * vsu + 0.292 * vsw) * in_b;
 
-        let new_b = (0.299 * v - 0.300 * vsu + 1.25 * vsw) * in_r
-            + (0.587 * v - 0.588 * vsu - 1.05 * vsw) * in_g
+        let new_b = (0.299 * v - 0.299 * vsu + 1.25 * vsw) * in_r
+            + (0.587 * v - 0.587 * vsu - 1.05 * vsw) * in_g
             + (0.114 * v + 0.886 * vsu - 0.203 * vsw) * in_b;
 
-        *r_i = T::from_f32(new_r.clamp(min, max));
-        *g_i = T::from_f32(new_g.clamp(min, max));
-        *b_i = T::from_f32(new_b.clamp(min, max));
+        *r_i = T::from_f32(new_r.clamp(min, max) + half);
+        *g_i = T::from_f32(new_g.clamp(min, max) + half);
+        *b_i = T::from_f32(new_b.clamp(min, max) + half);
     }
 }
-- 
2.43.0


From dcbc51050845ce1389407125ae26669e0344ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:25 +0000
Subject: [PATCH 098/110] fix: resizing encoded images marked as linear

---
 crates/zune-imageprocs/src/resize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index bd3c5c0..e91c58b 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -90,7 +90,8 @@ impl OperationsTrait for Resize {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         // For any resize always convert gamma to linear.
         // But check if that is the current image format
-        let is_image_linear = image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
+        let is_image_linear = image.metadata().is_linear()
+            || image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
 
         let transfer_function = image
             .metadata()
-- 
2.43.0


From c8052b53f0fe446c019226c1e3d3036383252362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 099/110] fix: 16 bit gray and alpha above half lost in JPEG XL
 files

---
 crates/zune-jpegxl/src/color_convert.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/zune-jpegxl/src/color_convert.rs b/crates/zune-jpegxl/src/color_convert.rs
index d300b18..4496583 100644
--- a/crates/zune-jpegxl/src/color_convert.rs
+++ b/crates/zune-jpegxl/src/color_convert.rs
@@ -69,14 +69,20 @@ where
 
 pub fn fill_row_ga16<T>(pixels: &[u8], oxs: usize, luma: &mut [T], alpha: &mut [T])
 where
-    T: From<i16>
+    T: TryFrom<u16>
 {
     for ((rg, lm), am) in pixels.chunks_exact(4).zip(luma).zip(alpha).take(oxs) {
-        let luma_bits = i16::from_ne_bytes([rg[0], rg[1]]);
-        let alpha_bits = i16::from_ne_bytes([rg[2], rg[3]]);
-
-        *lm = T::from(luma_bits);
-        *am = T::from(alpha_bits);
+        let luma_bits = u16::from_ne_bytes([rg[0], rg[1]]);
+        let alpha_bits = u16::from_ne_bytes([rg[2], rg[3]]);
+
+        // the pixel type of 16 bit images holds every sample
+        match (T::try_from(luma_bits), T::try_from(alpha_bits)) {
+            (Ok(l), Ok(a)) => {
+                *lm = l;
+                *am = a;
+            }
+            _ => debug_assert!(false, "Conversion failed")
+        }
     }
 }
 
-- 
2.43.0


From b0f256e3a4672bfda57938bab956586af8f2a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 100/110] fix: alpha of 16 bit images declared as 8 bit in JPEG
 XL files

---
 crates/zune-jpegxl/src/encoder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 7ef8e48..5c403fc 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -1517,7 +1517,18 @@ fn prepare_header(frame: &mut FrameState, add_image_header: bool, is_last: bool)
         }
         if have_alpha {
             output.put_bits(2, 1); // extra channel
-            output.put_bits(1, 1); // all default (8 bit alpha)
+            if depth == BitDepth::Eight {
+                output.put_bits(1, 1); // all default (8 bit alpha)
+            } else {
+                output.put_bits(1, 0); // not all default
+                output.put_bits(2, 0b00); // type is alpha
+                output.put_bits(1, 0); // not floating point samples
+                output.put_bits(2, 0b11);
+                output.put_bits(6, (depth.bit_size() - 1) as u64);
+                output.put_bits(2, 0b00); // as large as the image
+                output.put_bits(2, 0b00); // no name
+                output.put_bits(1, 0); // alpha is not premultiplied
+            }
         } else {
             output.put_bits(2, 0); // no extra channel
         }
-- 
2.43.0


From 1ce168dd307a2277962e15edf88bce0dc7102bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 101/110] fix: C images from 16 bit and float samples need the
 samples only once

---
 crates/zune-capi/src/image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 1cd9d41..bb75fe0 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -398,7 +398,7 @@ pub extern "C" fn zil_zimg_from_u16(
     if let Some(size) = checked_mul(
         width,
         height,
-        2,
+        1,
         colorspace.to_colorspace().num_components()
     ) {
         if size <= length {
@@ -434,7 +434,7 @@ pub extern "C" fn zil_zimg_from_f32(
     if let Some(size) = checked_mul(
         width,
         height,
-        4,
+        1,
         colorspace.to_colorspace().num_components()
     ) {
         if size <= length {
-- 
2.43.0


From 94b8595dde13c6feb50068610c115330114a006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 102/110] fix: zil_status_free frees the message twice

---
 crates/zune-capi/src/errno.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/errno.rs b/crates/zune-capi/src/errno.rs
index 274d251..c1d44b3 100644
--- a/crates/zune-capi/src/errno.rs
+++ b/crates/zune-capi/src/errno.rs
@@ -160,8 +160,7 @@ pub extern "C" fn zil_status_message(status: *const ZStatus) -> *const c_char {
 #[no_mangle]
 pub extern "C" fn zil_status_free(status: *mut ZStatus) {
     if !status.is_null() {
-        unsafe { zil_free((*status).message.cast()) }
-        // free object
+        // free object, dropping it frees the message
         unsafe { status.drop_in_place() }
 
         // free memory holding it
-- 
2.43.0


From 72fe31a98fd2165555c0feb8b96fffbb60600a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 103/110] fix: zil_zimg_new drops uninitialised memory

---
 crates/zune-capi/src/image.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index bb75fe0..b72605d 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -156,8 +156,11 @@ pub extern "C" fn zil_zimg_write_to_output(
 /// This is the preferred way to initialize this, not via memset or malloc+sizeof
 #[no_mangle]
 pub extern "C" fn zil_zimg_new() -> *mut ZImage {
-    let ptr = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
-    unsafe { *ptr = ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown) };
+    let ptr: *mut ZImage = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
+    if !ptr.is_null() {
+        // the memory is not initialised, so there is nothing to drop
+        unsafe { ptr.write(ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown)) };
+    }
     ptr
 }
 /// Free an image
-- 
2.43.0


From 4747bac1d164cef0f2a746499a3c2f69bec8dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 104/110] fix: C decoding of PNG aborts

---
 crates/zune-capi/src/imread.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index edd5217..ba9e187 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -380,6 +380,7 @@ where
                 // we expect the caller to have appropriately taken care of allocating enough to hold 16 bit
                 //
                 let mut decoder = PngDecoder::new(data);
+                decoder.decode_headers()?;
 
                 match decoder.depth().unwrap() {
                     BitDepth::Eight => {
-- 
2.43.0


From e88240122aa45b578daa866cc6e269fe34b1321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 105/110] fix: C decoding of QOI uses the JPEG decoder

---
 crates/zune-capi/src/imread.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index ba9e187..3540492 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -11,6 +11,7 @@ use zune_image::codecs::jpeg::JpegDecoder;
 use zune_image::codecs::png::PngDecoder;
 use zune_image::codecs::ppm::PPMDecoder;
 use zune_image::codecs::psd::PSDDecoder;
+use zune_image::codecs::qoi::QoiDecoder;
 use zune_image::codecs::ImageFormat;
 use zune_image::errors::ImageErrors;
 
@@ -493,7 +494,7 @@ where
             }
             ImageFormat::QOI => {
                 // just write into buffer
-                let mut decoder = JpegDecoder::new(data);
+                let mut decoder = QoiDecoder::new(data);
 
                 decoder.decode_into(output)?;
             }
-- 
2.43.0


From d6aa6ebe97ca08ac1274d812d0d2e80111b74992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 106/110] fix: C decoding leaks the buffer of a failed decode

---
 crates/zune-capi/src/imread.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 3540492..42a4088 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -18,7 +18,7 @@ use zune_image::errors::ImageErrors;
 use crate::enums::{ZImageColorspace, ZImageDepth, ZImageFormat};
 use crate::errno::{zil_status_ok, ZStatus, ZStatusType};
 use crate::structs::ZImageMetadata;
-use crate::utils::zil_malloc;
+use crate::utils::{zil_free, zil_malloc};
 
 /// Read image contents of a file and return a pointer to the decoded bytes
 ///
@@ -88,6 +88,7 @@ pub extern "C" fn zil_imread(
                 if zil_status_ok(status) {
                     return output.cast();
                 }
+                unsafe { zil_free(output) };
             } else {
                 unsafe {
                     *status = ZStatus::new("ZilUnknownDepth image format", ZStatusType::ZilGeneric)
@@ -283,6 +284,7 @@ pub extern "C" fn zil_imdecode(
             if zil_status_ok(status) {
                 return output.cast();
             }
+            unsafe { zil_free(output) };
         }
     }
     ptr::null()
-- 
2.43.0


From f6e3329743f049e4d60d988b5b3606052c3e0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 107/110] fix: C operations skip the checks of the image

---
 crates/zune-capi/src/improc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/improc.rs b/crates/zune-capi/src/improc.rs
index ad449b1..73b2ceb 100644
--- a/crates/zune-capi/src/improc.rs
+++ b/crates/zune-capi/src/improc.rs
@@ -39,7 +39,7 @@ where
     }
     let image = unsafe { &mut *image };
 
-    if let Err(err) = filter.execute_impl(image) {
+    if let Err(err) = filter.execute(image) {
         unsafe {
             *status = ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError);
         }
-- 
2.43.0


From ffe1b92633da4190925fafeb846130ec3ede6d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:29 +0000
Subject: [PATCH 108/110] fix: writing an image to a buffer of another size
 aborts or cuts it

---
 crates/zune-capi/src/image.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index b72605d..4f04a27 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -79,11 +79,17 @@ extern "C" fn zil_zimg_get_out_buffer_size(image: *mut ZImage, status: *mut ZSta
     }
     let image = unsafe { &*image };
 
+    frame_size(image)
+}
+
+/// Bytes in a single interleaved frame of an image, zero if it was never filled
+fn frame_size(image: &ZImage) -> usize {
+    if image.depth() == BitDepth::Unknown {
+        return 0;
+    }
     let (w, h) = image.dimensions();
-    let colorspace = image.colorspace().num_components();
-    let depth = image.depth().size_of();
 
-    w * h * colorspace * depth
+    w * h * image.colorspace().num_components() * image.depth().size_of()
 }
 
 /// Write image bytes to output array of output size
@@ -105,10 +111,26 @@ pub extern "C" fn zil_zimg_write_to_output(
         return 0;
     }
 
-    let output_array = unsafe { std::slice::from_raw_parts_mut(output, output_size) };
-
     let image = unsafe { &*image };
     let image_colorspace = image.colorspace();
+    let size = frame_size(image);
+
+    if size == 0 || output_size < size {
+        if !status.is_null() {
+            let (msg, kind) = if size == 0 {
+                ("Image has no pixels".to_string(), ZStatusType::ZilImageOperationError)
+            } else {
+                (
+                    format!("Expected buffer of size {size}, but found {output_size}"),
+                    ZStatusType::ZilNotEnoughSpaceInDest
+                )
+            };
+            unsafe { *status = ZStatus::new(msg, kind) };
+        }
+        return 0;
+    }
+    let output_array = unsafe { std::slice::from_raw_parts_mut(output, size) };
+
     let channels = image.frames_ref()[0].channels_ref(image_colorspace, false);
 
     let result = match image.depth() {
-- 
2.43.0


From 612ba688703266303f6d3a368764a3ba08fa07c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:47 +0000
Subject: [PATCH 109/110] fix: C images of unknown colorspace abort

---
 crates/zune-capi/src/image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 4f04a27..74bffd7 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -479,6 +479,10 @@ pub extern "C" fn zil_zimg_from_f32(
 fn checked_mul(
     width: usize, height: usize, depth: usize, colorspace_components: usize
 ) -> Option<usize> {
+    // an unknown colorspace has no components
+    if colorspace_components == 0 {
+        return None;
+    }
     width
         .checked_mul(height)?
         .checked_mul(depth)?
-- 
2.43.0


From d7bb1ac332a887786821a0b81917936d85d6baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 110/110] fix: C decoding of gray JPEG fails

---
 crates/zune-capi/src/imread.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 42a4088..147f032 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -3,6 +3,7 @@ use std::ptr;
 
 use zune_core::bit_depth::{BitDepth, ByteEndian};
 use zune_core::bytestream::{ZByteReaderTrait, ZCursor, ZReader};
+use zune_core::colorspace::ColorSpace;
 use zune_core::result::DecodingResult;
 use zune_image::codecs::bmp::BmpDecoder;
 use zune_image::codecs::farbfeld::FarbFeldDecoder;
@@ -370,6 +371,13 @@ where
             ImageFormat::JPEG => {
                 // just write into buffer
                 let mut decoder = JpegDecoder::new(data);
+                decoder.decode_headers()?;
+
+                // the buffer has a channel for a gray image, not the three of RGB
+                if decoder.input_colorspace() == Some(ColorSpace::Luma) {
+                    let options = decoder.options().jpeg_set_out_colorspace(ColorSpace::Luma);
+                    decoder.set_options(options);
+                }
 
                 decoder.decode_into(output)?;
             }
-- 
2.43.0

