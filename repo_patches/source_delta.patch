From 2166b667af8084851c7c26efef671beef5c8765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 01/96] fix: report zero strides over several elements as
 aliased samples

---
 src/flat.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flat.rs b/src/flat.rs
index 24dcd5e..7404651 100644
--- a/src/flat.rs
+++ b/src/flat.rs
@@ -326,6 +326,15 @@ impl SampleLayout {
             return true;
         };
 
+        // Not moving along a dimension with several elements repeats the same samples.
+        if self.channels > 0
+            && self.width > 0
+            && self.height > 0
+            && grouped.iter().any(|dim| dim.stride() == 0 && dim.1 > 1)
+        {
+            return true;
+        }
+
         // Each higher dimension must walk over all of one lower dimension.
         min_size > mid_dim.stride() || mid_size > max_dim.stride()
     }
-- 
2.43.0


From 5171d8b188f2a181c1bd914a5e22e11a71fcc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 02/96] fix: accept empty layouts as packed in row or column
 major form

---
 src/flat.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flat.rs b/src/flat.rs
index 7404651..118ddd9 100644
--- a/src/flat.rs
+++ b/src/flat.rs
@@ -356,7 +356,10 @@ impl SampleLayout {
             return false;
         }
 
-        if form >= NormalForm::ImagePacked {
+        // Without any samples there can not be any holes between them.
+        let is_empty = self.channels == 0 || self.width == 0 || self.height == 0;
+
+        if form >= NormalForm::ImagePacked && !is_empty {
             // has aliased already checked for overflows.
             let grouped = self.increasing_stride_dims();
             let (min_dim, mid_dim, max_dim) = (grouped[0], grouped[1], grouped[2]);
-- 
2.43.0


From 6421b0ef1d6e7e5f742fe0b99fbeffb428bb1e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 03/96] fix: iterate over the pixels of views without columns

---
 src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index a38fee9..c53e807 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -855,7 +855,7 @@ impl<I: GenericImageView> Iterator for Pixels<'_, I> {
             self.y += 1;
         }
 
-        if self.y >= self.height {
+        if self.y >= self.height || self.width == 0 {
             None
         } else {
             let pixel = self.image.get_pixel(self.x, self.y);
-- 
2.43.0


From e581156952c9a5467467321f696f0a16dc38b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 04/96] fix: forward the orientation of boxed decoders

---
 src/image.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index c53e807..5cc6876 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -749,6 +749,9 @@ impl<T: ?Sized + ImageDecoder> ImageDecoder for Box<T> {
     fn exif_metadata(&mut self) -> ImageResult<Option<Vec<u8>>> {
         (**self).exif_metadata()
     }
+    fn orientation(&mut self) -> ImageResult<Orientation> {
+        (**self).orientation()
+    }
     fn total_bytes(&self) -> u64 {
         (**self).total_bytes()
     }
-- 
2.43.0


From ad62ac196839d8c25e8cfd5240eb1e3a5ba42dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 05/96] fix: reject copy offsets whose sum with the extent
 overflows

---
 src/image.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index 5cc6876..0df8454 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1032,7 +1032,10 @@ pub trait GenericImage: GenericImageView {
     {
         // Do bounds checking here so we can use the non-bounds-checking
         // functions to copy pixels.
-        if self.width() < other.width() + x || self.height() < other.height() + y {
+        let fits = |outer: u32, inner: u32, offset: u32| {
+            inner.checked_add(offset).is_some_and(|end| end <= outer)
+        };
+        if !fits(self.width(), other.width(), x) || !fits(self.height(), other.height(), y) {
             return Err(ImageError::Parameter(ParameterError::from_kind(
                 ParameterErrorKind::DimensionMismatch,
             )));
-- 
2.43.0


From 367fc6c57e3e56044edbb32956961ae9a1e4392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 06/96] fix: copy an empty rectangle within a buffer without
 underflow

---
 src/buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8ad6930..13fa01d 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1231,6 +1231,10 @@ where
             return false;
         }
 
+        if width == 0 {
+            return true;
+        }
+
         if sy < dy {
             for y in (0..height).rev() {
                 let sy = sy + y;
-- 
2.43.0


From a7622e983720dee813c43efeddb6432b5291105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 07/96] fix: report errors of writing the end of a saved file

---
 src/image_reader/free_functions.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/image_reader/free_functions.rs b/src/image_reader/free_functions.rs
index 57fbb72..d390815 100644
--- a/src/image_reader/free_functions.rs
+++ b/src/image_reader/free_functions.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{BufRead, BufWriter, Seek};
+use std::io::{BufRead, BufWriter, Seek, Write};
 use std::iter;
 use std::path::Path;
 
@@ -48,7 +48,10 @@ pub(crate) fn save_buffer_with_format_impl(
     format: ImageFormat,
 ) -> ImageResult<()> {
     let buffered_file_write = &mut BufWriter::new(File::create(path)?); // always seekable
-    write_buffer_impl(buffered_file_write, buf, width, height, color, format)
+    write_buffer_impl(buffered_file_write, buf, width, height, color, format)?;
+    // Dropping the writer would ignore errors of writing what it still buffers.
+    buffered_file_write.flush()?;
+    Ok(())
 }
 
 #[allow(unused_variables)]
-- 
2.43.0


From 6ca7d76b5b76a2c0b3a4c1197876bbb6c0a01a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 08/96] fix: report failed and missing reads in PNM headers and
 ASCII samples

---
 src/codecs/pnm/decoder.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 07f042e..b7f7e5b 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -395,7 +395,7 @@ trait HeaderReader: Read {
                 Ok(byte) => {
                     bytes.push(byte);
                 }
-                Err(_) => break,
+                Err(err) => return Err(ImageError::IoError(err)),
             }
         }
 
@@ -418,11 +418,12 @@ trait HeaderReader: Read {
     fn read_next_line(&mut self) -> ImageResult<String> {
         let mut buffer = Vec::new();
         loop {
-            let mut byte = [0];
-            if self.read(&mut byte)? == 0 || byte[0] == b'\n' {
-                break;
+            #[allow(clippy::unbuffered_bytes)]
+            match self.bytes().next() {
+                None | Some(Ok(b'\n')) => break,
+                Some(Ok(byte)) => buffer.push(byte),
+                Some(Err(err)) => return Err(ImageError::IoError(err)),
             }
-            buffer.push(byte[0]);
         }
 
         String::from_utf8(buffer)
@@ -690,13 +691,15 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
     let is_separator = |v: &u8| matches!(*v, b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ');
 
     let mut v: u16 = 0;
+    let mut had_any = false;
     #[allow(clippy::unbuffered_bytes)]
     for rc in reader
         .bytes()
         .skip_while(|v| v.as_ref().ok().is_some_and(is_separator))
-        .take_while(|v| v.as_ref().ok().is_some_and(|c| !is_separator(c)))
+        .take_while(|v| !v.as_ref().ok().is_some_and(is_separator))
     {
         let c = rc?;
+        had_any = true;
         let digit = match c {
             b'0'..=b'9' => (c - b'0') as u16,
             _ => return Err(DecoderError::InvalidDigit(ErrorDataSource::Sample).into()),
@@ -704,6 +707,9 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
         v = v.checked_mul(10).ok_or(DecoderError::Overflow)?;
         v = v.checked_add(digit).ok_or(DecoderError::Overflow)?;
     }
+    if !had_any {
+        return Err(DecoderError::InputTooShort.into());
+    }
     Ok(T::try_from(v).or(Err(DecoderError::Overflow))?)
 }
 
-- 
2.43.0


From 509d5905a51c6e588b0792444e5ffdf990a65197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 09/96] fix: compute the size of PNM rasters without 32 bit
 overflow

---
 src/codecs/pnm/decoder.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index b7f7e5b..761ba6b 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -235,7 +235,11 @@ trait Sample {
         size_of::<Self::Representation>() as u32
     }
     fn bytelen(width: u32, height: u32, samples: u32) -> ImageResult<usize> {
-        Ok((width * height * samples * Self::sample_size()) as usize)
+        let count = u64::from(width) * u64::from(height);
+        count
+            .checked_mul(u64::from(samples * Self::sample_size()))
+            .and_then(|len| usize::try_from(len).ok())
+            .ok_or_else(|| DecoderError::Overflow.into())
     }
     fn from_bytes(bytes: &[u8], row_size: usize, output_buf: &mut [u8]) -> ImageResult<()>;
     fn from_ascii(reader: &mut dyn Read, output_buf: &mut [u8]) -> ImageResult<()>;
@@ -757,9 +761,9 @@ impl Sample for PbmBit {
     type Representation = u8;
 
     fn bytelen(width: u32, height: u32, samples: u32) -> ImageResult<usize> {
-        let count = width * samples;
-        let linelen = (count / 8) + u32::from((count % 8) != 0);
-        Ok((linelen * height) as usize)
+        let count = u64::from(width) * u64::from(samples);
+        usize::try_from((count + 7) / 8 * u64::from(height))
+            .map_err(|_| DecoderError::Overflow.into())
     }
 
     fn from_bytes(bytes: &[u8], row_size: usize, output_buf: &mut [u8]) -> ImageResult<()> {
-- 
2.43.0


From 145f4956f3a7a4813d877ca544a4a985e7eed388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 10/96] fix: read two byte samples of PAM images without a
 tuple type

---
 src/codecs/pnm/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 761ba6b..a8e8140 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -846,14 +846,17 @@ impl DecodableImageHeader for ArbitraryHeader {
     fn tuple_type(&self) -> ImageResult<TupleType> {
         match self.tupltype {
             _ if self.maxval == 0 => Err(DecoderError::MaxvalZero.into()),
-            None if self.depth == 1 => Ok(TupleType::GrayU8),
+            _ if self.maxval > 0xFFFF => Err(DecoderError::MaxvalTooBig(self.maxval).into()),
+            None if self.depth == 1 && self.maxval <= 0xFF => Ok(TupleType::GrayU8),
+            None if self.depth == 1 => Ok(TupleType::GrayU16),
             None if self.depth == 2 => Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
                     ImageFormat::Pnm.into(),
                     UnsupportedErrorKind::Color(ExtendedColorType::La8),
                 ),
             )),
-            None if self.depth == 3 => Ok(TupleType::RGBU8),
+            None if self.depth == 3 && self.maxval <= 0xFF => Ok(TupleType::RGBU8),
+            None if self.depth == 3 => Ok(TupleType::RGBU16),
             None if self.depth == 4 => Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
                     ImageFormat::Pnm.into(),
-- 
2.43.0


From 88ea81fe8b4abffa51d4a64f9ea69de4f6cafd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 11/96] fix: accept PNM samples within the range of the header
 and write ASCII bitmaps as bits

---
 src/codecs/pnm/encoder.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 4b6cc18..5cc6656 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -70,6 +70,9 @@ enum TupleEncoding<'a> {
         samples: FlatSamples<'a>,
         width: u32,
     },
+    PbmAscii {
+        samples: FlatSamples<'a>,
+    },
     Ascii {
         samples: FlatSamples<'a>,
     },
@@ -448,7 +451,8 @@ impl<'a> CheckedDimensions<'a> {
 impl<'a> CheckedHeaderColor<'a> {
     fn check_sample_values(self, image: FlatSamples<'a>) -> ImageResult<CheckedHeader<'a>> {
         let header_maxval = match self.dimensions.unchecked.header.decoded {
-            HeaderRecord::Bitmap(_) => 1,
+            // Every sample is written as a single bit, black if and only if it is zero.
+            HeaderRecord::Bitmap(_) => u32::MAX,
             HeaderRecord::Graymap(GraymapHeader { maxwhite, .. }) => maxwhite,
             HeaderRecord::Pixmap(PixmapHeader { maxval, .. }) => maxval,
             HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => maxval,
@@ -577,8 +581,8 @@ impl<'a> FlatSamples<'a> {
 
     fn all_smaller(&self, max_val: u32) -> bool {
         match *self {
-            FlatSamples::U8(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
-            FlatSamples::U16(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
+            FlatSamples::U8(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
+            FlatSamples::U16(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
         }
     }
 
@@ -596,7 +600,7 @@ impl<'a> FlatSamples<'a> {
             HeaderRecord::Bitmap(BitmapHeader {
                 encoding: SampleEncoding::Ascii,
                 ..
-            }) => TupleEncoding::Ascii { samples: *self },
+            }) => TupleEncoding::PbmAscii { samples: *self },
 
             HeaderRecord::Arbitrary(_) => TupleEncoding::Bytes { samples: *self },
 
@@ -649,6 +653,18 @@ impl TupleEncoding<'_> {
                 .write_pbm_bits(samples, width)
                 .map_err(ImageError::IoError),
 
+            // Black pixels are encoded as 1s
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U8(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U16(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+
             TupleEncoding::Bytes {
                 samples: FlatSamples::U8(samples),
             } => writer.write_all(samples).map_err(ImageError::IoError),
-- 
2.43.0


From 8139cf14582e196f26548c004944cf54a988a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 12/96] fix: compute the shared exponent of HDR pixels exactly
 and within its range

---
 src/codecs/hdr/encoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 9358cda..36969d8 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -278,11 +278,14 @@ fn write_rgbe8<W: Write>(w: &mut W, v: Rgbe8Pixel) -> Result<()> {
 pub(crate) fn to_rgbe8(pix: Rgb<f32>) -> Rgbe8Pixel {
     let pix = pix.0;
     let mx = f32::max(pix[0], f32::max(pix[1], pix[2]));
-    if mx <= 0.0 {
+    // let (frac, exp) = mx.frexp(); // unstable yet
+    // Every f32 is zero or a normal f64: 2^(exp - 1) <= mx < 2^exp
+    let exp = ((f64::from(mx).to_bits() >> 52) & 0x7ff) as i32 - 1022;
+    if mx <= 0.0 || exp < -127 {
         Rgbe8Pixel { c: [0, 0, 0], e: 0 }
     } else {
-        // let (frac, exp) = mx.frexp(); // unstable yet
-        let exp = mx.log2().floor() as i32 + 1;
+        // Values too large for the exponent saturate the mantissa instead.
+        let exp = exp.min(127);
         let mul = f32::powi(2.0, exp);
         let mut conv = [0u8; 3];
         for (cv, &sv) in conv.iter_mut().zip(pix.iter()) {
-- 
2.43.0


From a5b21a17a96635ec8482c4aef2a8899a7fb03da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 13/96] fix: write binary bitmaps without columns

---
 src/codecs/pnm/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 5cc6656..6f2c8c5 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -545,12 +545,12 @@ impl SampleWriter<'_> {
         V: Default + Eq + Copy,
     {
         // The length of an encoded scanline
-        let line_width = (width - 1) / 8 + 1;
+        let line_width = width / 8 + 1;
 
         // We'll be writing single bytes, so buffer
         let mut line_buffer = Vec::with_capacity(line_width as usize);
 
-        for line in samples.chunks(width as usize) {
+        for line in samples.chunks(width.max(1) as usize) {
             for byte_bits in line.chunks(8) {
                 let mut byte = 0u8;
                 for i in 0..8 {
-- 
2.43.0


From 9498a177ace7dc19ee54b1946e374629f288db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 14/96] fix: write as many bytes per PNM sample as the header's
 maximum asks for

---
 src/codecs/pnm/encoder.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 6f2c8c5..09b3400 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -78,6 +78,8 @@ enum TupleEncoding<'a> {
     },
     Bytes {
         samples: FlatSamples<'a>,
+        // Whether the header's maximum asks for two bytes per sample
+        wide: bool,
     },
 }
 
@@ -602,7 +604,10 @@ impl<'a> FlatSamples<'a> {
                 ..
             }) => TupleEncoding::PbmAscii { samples: *self },
 
-            HeaderRecord::Arbitrary(_) => TupleEncoding::Bytes { samples: *self },
+            HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => TupleEncoding::Bytes {
+                samples: *self,
+                wide: maxval > 0xff,
+            },
 
             HeaderRecord::Graymap(GraymapHeader {
                 encoding: SampleEncoding::Ascii,
@@ -615,12 +620,17 @@ impl<'a> FlatSamples<'a> {
 
             HeaderRecord::Graymap(GraymapHeader {
                 encoding: SampleEncoding::Binary,
+                maxwhite: maxval,
                 ..
             })
             | HeaderRecord::Pixmap(PixmapHeader {
                 encoding: SampleEncoding::Binary,
+                maxval,
                 ..
-            }) => TupleEncoding::Bytes { samples: *self },
+            }) => TupleEncoding::Bytes {
+                samples: *self,
+                wide: maxval > 0xff,
+            },
         }
     }
 }
@@ -667,9 +677,26 @@ impl TupleEncoding<'_> {
 
             TupleEncoding::Bytes {
                 samples: FlatSamples::U8(samples),
+                wide: false,
             } => writer.write_all(samples).map_err(ImageError::IoError),
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U8(samples),
+                wide: true,
+            } => samples.iter().try_for_each(|&sample| {
+                writer
+                    .write_u16::<BigEndian>(sample.into())
+                    .map_err(ImageError::IoError)
+            }),
+            // All samples have been checked to be at most the header's maximum.
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U16(samples),
+                wide: false,
+            } => samples.iter().try_for_each(|&sample| {
+                writer.write_u8(sample as u8).map_err(ImageError::IoError)
+            }),
             TupleEncoding::Bytes {
                 samples: FlatSamples::U16(samples),
+                wide: true,
             } => samples.iter().try_for_each(|&sample| {
                 writer
                     .write_u16::<BigEndian>(sample)
-- 
2.43.0


From 12aa65d369f3d0ae80c075a39557210d66ca7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 15/96] fix: write HDR scanlines of 32768 pixels flat, as no
 run marker can hold the width

---
 src/codecs/hdr/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 36969d8..81e24d0 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -70,7 +70,7 @@ impl<W: Write> HdrEncoder<W> {
         w.write_all(b"FORMAT=32-bit_rle_rgbe\n\n")?;
         w.write_all(format!("-Y {height} +X {width}\n").as_bytes())?;
 
-        if !(8..=32_768).contains(&width) {
+        if !(8..=32_767).contains(&width) {
             for pixel in flattened_rgbe_pixels {
                 write_rgbe8(w, pixel)?;
             }
-- 
2.43.0


From 943af03edec099f96e1b75cfe863a85dec2c2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 16/96] fix: deliver palette indices of every depth and
 compression, and only of paletted BMPs

---
 src/codecs/bmp/decoder.rs | 79 ++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 39 deletions(-)

diff --git a/src/codecs/bmp/decoder.rs b/src/codecs/bmp/decoder.rs
index 109470c..2fb2fed 100644
--- a/src/codecs/bmp/decoder.rs
+++ b/src/codecs/bmp/decoder.rs
@@ -292,6 +292,15 @@ where
     Ok(())
 }
 
+/// Store the colour of a palette entry, or the index itself if the destination has one channel.
+fn set_palette_pixel(pixel: &mut [u8], palette: &[[u8; 3]], index: u8) {
+    if pixel.len() == 1 {
+        pixel[0] = index;
+    } else {
+        pixel[..3].copy_from_slice(&palette[usize::from(index)]);
+    }
+}
+
 fn set_8bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
     pixel_iter: &mut ChunksMut<u8>,
     palette: &[[u8; 3]],
@@ -300,10 +309,7 @@ fn set_8bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
 ) -> bool {
     for idx in indices.take(n_pixels) {
         if let Some(pixel) = pixel_iter.next() {
-            let rgb = palette[*idx as usize];
-            pixel[0] = rgb[0];
-            pixel[1] = rgb[1];
-            pixel[2] = rgb[2];
+            set_palette_pixel(pixel, palette, *idx);
         } else {
             return false;
         }
@@ -324,10 +330,7 @@ fn set_4bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
                     break;
                 }
                 if let Some(pixel) = pixel_iter.next() {
-                    let rgb = palette[$i as usize];
-                    pixel[0] = rgb[0];
-                    pixel[1] = rgb[1];
-                    pixel[2] = rgb[2];
+                    set_palette_pixel(pixel, palette, $i);
                 } else {
                     return false;
                 }
@@ -354,10 +357,7 @@ fn set_2bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
                     break;
                 }
                 if let Some(pixel) = pixel_iter.next() {
-                    let rgb = palette[$i as usize];
-                    pixel[0] = rgb[0];
-                    pixel[1] = rgb[1];
-                    pixel[2] = rgb[2];
+                    set_palette_pixel(pixel, palette, $i);
                 } else {
                     return false;
                 }
@@ -381,10 +381,7 @@ fn set_1bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
         let mut bit = 0x80;
         loop {
             if let Some(pixel) = pixel_iter.next() {
-                let rgb = palette[usize::from((idx & bit) != 0)];
-                pixel[0] = rgb[0];
-                pixel[1] = rgb[1];
-                pixel[2] = rgb[2];
+                set_palette_pixel(pixel, palette, u8::from((idx & bit) != 0));
             } else {
                 return;
             }
@@ -923,8 +920,17 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         self.palette.as_ref().map(|vec| &vec[..])
     }
 
+    /// Whether the output consists of palette indices. Only images with a palette have those.
+    fn outputs_indices(&self) -> bool {
+        self.indexed_color
+            && matches!(
+                self.image_type,
+                ImageType::Palette | ImageType::RLE4 | ImageType::RLE8
+            )
+    }
+
     fn num_channels(&self) -> usize {
-        if self.indexed_color {
+        if self.outputs_indices() {
             1
         } else if self.add_alpha_channel {
             4
@@ -954,7 +960,6 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         let bit_count = self.bit_count;
         let reader = &mut self.reader;
         let width = self.width as usize;
-        let skip_palette = self.indexed_color;
 
         reader.seek(SeekFrom::Start(self.data_offset))?;
 
@@ -970,26 +975,22 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
             self.top_down,
             |row| {
                 reader.read_exact(&mut indices)?;
-                if skip_palette {
-                    row.clone_from_slice(&indices[0..width]);
-                } else {
-                    let mut pixel_iter = row.chunks_mut(num_channels);
-                    match bit_count {
-                        1 => {
-                            set_1bit_pixel_run(&mut pixel_iter, palette, indices.iter());
-                        }
-                        2 => {
-                            set_2bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
-                        }
-                        4 => {
-                            set_4bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
-                        }
-                        8 => {
-                            set_8bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
-                        }
-                        _ => panic!(),
-                    };
-                }
+                let mut pixel_iter = row.chunks_mut(num_channels);
+                match bit_count {
+                    1 => {
+                        set_1bit_pixel_run(&mut pixel_iter, palette, indices.iter());
+                    }
+                    2 => {
+                        set_2bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
+                    }
+                    4 => {
+                        set_4bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
+                    }
+                    8 => {
+                        set_8bit_pixel_run(&mut pixel_iter, palette, indices.iter(), width);
+                    }
+                    _ => panic!(),
+                };
                 Ok(())
             },
         )?;
@@ -1330,7 +1331,7 @@ impl<R: BufRead + Seek> ImageDecoder for BmpDecoder<R> {
     }
 
     fn color_type(&self) -> ColorType {
-        if self.indexed_color {
+        if self.outputs_indices() {
             ColorType::L8
         } else if self.add_alpha_channel {
             ColorType::Rgba8
-- 
2.43.0


From 43adf84dfaf5fcb7ff448573be4f360e144b555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 17/96] fix: expand packed rows of the greatest widths without
 overflow

---
 src/utils/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index f64834e..605c1fe 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -38,13 +38,13 @@ pub(crate) fn expand_bits(bit_depth: u8, row_size: u32, buf: &[u8]) -> Vec<u8> {
     // Note: this conversion assumes that the scanlines begin on byte boundaries
     let mask = (1u8 << bit_depth as usize) - 1;
     let scaling_factor = 255 / ((1 << bit_depth as usize) - 1);
-    let bit_width = row_size * u32::from(bit_depth);
+    let bit_width = u64::from(row_size) * u64::from(bit_depth);
     let skip = if bit_width % 8 == 0 {
         0
     } else {
-        (8 - bit_width % 8) / u32::from(bit_depth)
+        (8 - bit_width % 8) / u64::from(bit_depth)
     };
-    let row_len = row_size + skip;
+    let row_len = u64::from(row_size) + skip;
     let mut p = Vec::new();
     let mut i = 0;
     for v in buf {
@@ -52,7 +52,7 @@ pub(crate) fn expand_bits(bit_depth: u8, row_size: u32, buf: &[u8]) -> Vec<u8> {
             let shift = 8 - bit_depth * shift_inv;
             // skip the pixels that can be neglected because scanlines should
             // start at byte boundaries
-            if i % (row_len as usize) < (row_size as usize) {
+            if i % row_len < u64::from(row_size) {
                 let pixel = (v & (mask << shift as usize)) >> shift as usize;
                 p.push(pixel * scaling_factor);
             }
-- 
2.43.0


From 5786df482b184fff2600f8a0c3dc2cae286b98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 18/96] fix: refuse TGA run packets without a whole pixel

---
 src/codecs/tga/decoder.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 3ad28e7..9966c79 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -239,10 +239,8 @@ impl<R: Read> TgaDecoder<R> {
             if (run_packet & 0x80) != 0 {
                 // high bit set, so we will repeat the data
                 let repeat_count = ((run_packet & !0x80) + 1) as usize;
-                self.r
-                    .by_ref()
-                    .take(self.bytes_per_pixel as u64)
-                    .read_to_end(&mut repeat_buf)?;
+                repeat_buf.resize(self.bytes_per_pixel, 0);
+                self.r.read_exact(&mut repeat_buf)?;
 
                 // get the repeating pixels from the bytes of the pixel stored in `repeat_buf`
                 let data = repeat_buf
@@ -250,7 +248,6 @@ impl<R: Read> TgaDecoder<R> {
                     .cycle()
                     .take(repeat_count * self.bytes_per_pixel);
                 pixel_data.extend(data);
-                repeat_buf.clear();
             } else {
                 // not set, so `run_packet+1` is the number of non-encoded pixels
                 let num_raw_bytes = (run_packet + 1) as usize * self.bytes_per_pixel;
-- 
2.43.0


From 88fbabec0e91037fd9f07f6bdbb7b39ca82dabe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 19/96] fix: count TGA colour map indices from the origin of
 the map

---
 src/codecs/tga/decoder.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 9966c79..cf3ddf8 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -10,8 +10,9 @@ use byteorder_lite::ReadBytesExt;
 use std::io::{self, Read};
 
 struct ColorMap {
-    /// sizes in bytes
-    start_offset: usize,
+    /// index of the first entry
+    first_index: usize,
+    /// size in bytes
     entry_size: usize,
     bytes: Vec<u8>,
 }
@@ -19,7 +20,7 @@ struct ColorMap {
 impl ColorMap {
     pub(crate) fn from_reader(
         r: &mut dyn Read,
-        start_offset: u16,
+        first_index: u16,
         num_entries: u16,
         bits_per_entry: u8,
     ) -> ImageResult<ColorMap> {
@@ -30,14 +31,14 @@ impl ColorMap {
 
         Ok(ColorMap {
             entry_size: bytes_per_entry,
-            start_offset: start_offset as usize,
+            first_index: first_index as usize,
             bytes,
         })
     }
 
     /// Get one entry from the color map
     pub(crate) fn get(&self, index: usize) -> Option<&[u8]> {
-        let entry = self.start_offset + self.entry_size * index;
+        let entry = self.entry_size * index.checked_sub(self.first_index)?;
         self.bytes.get(entry..entry + self.entry_size)
     }
 }
-- 
2.43.0


From ffc06ff64b4eca99c099ea3ca83d17366658250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 20/96] fix: read TGA colour map indices as little endian

---
 src/codecs/tga/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index cf3ddf8..5568717 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -196,7 +196,7 @@ impl<R: Read> TgaDecoder<R> {
         #[inline]
         fn bytes_to_index(bytes: &[u8]) -> usize {
             let mut result = 0usize;
-            for byte in bytes {
+            for byte in bytes.iter().rev() {
                 result = (result << 8) | *byte as usize;
             }
             result
-- 
2.43.0


From 6a6d9974b4dd31e63ad72d6470e29945c8fd7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 21/96] fix: take the depth of TGA images from the colour map
 only if they are mapped

---
 src/codecs/tga/decoder.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 5568717..f8872de 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -122,22 +122,25 @@ impl<R: Read> TgaDecoder<R> {
 
         let num_alpha_bits = self.header.image_desc & ALPHA_BIT_MASK;
 
-        let other_channel_bits = if self.header.map_type != 0 {
+        // A colour map may be present in other images too, but only mapped ones take colours from it.
+        let color_bits = if self.image_type.is_color_mapped() {
             self.header.map_entry_size
         } else {
-            if num_alpha_bits > self.header.pixel_depth {
-                return Err(ImageError::Unsupported(
-                    UnsupportedError::from_format_and_kind(
-                        ImageFormat::Tga.into(),
-                        UnsupportedErrorKind::Color(ExtendedColorType::Unknown(
-                            self.header.pixel_depth,
-                        )),
-                    ),
-                ));
-            }
-
-            self.header.pixel_depth - num_alpha_bits
+            self.header.pixel_depth
         };
+
+        if num_alpha_bits > color_bits {
+            return Err(ImageError::Unsupported(
+                UnsupportedError::from_format_and_kind(
+                    ImageFormat::Tga.into(),
+                    UnsupportedErrorKind::Color(ExtendedColorType::Unknown(
+                        self.header.pixel_depth,
+                    )),
+                ),
+            ));
+        }
+
+        let other_channel_bits = color_bits - num_alpha_bits;
         let color = self.image_type.is_color();
 
         match (num_alpha_bits, other_channel_bits, color) {
-- 
2.43.0


From 95a22ec2407c26a68b279bba2f17e330a7cf517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 22/96] fix: refuse TGA files without image data or of an
 unknown type

---
 src/codecs/tga/decoder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index f8872de..17029a3 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -120,6 +120,18 @@ impl<R: Read> TgaDecoder<R> {
             ));
         }
 
+        if let ImageType::NoImageData | ImageType::Unknown = self.image_type {
+            return Err(ImageError::Unsupported(
+                UnsupportedError::from_format_and_kind(
+                    ImageFormat::Tga.into(),
+                    UnsupportedErrorKind::GenericFeature(format!(
+                        "Image type {}",
+                        self.header.image_type
+                    )),
+                ),
+            ));
+        }
+
         let num_alpha_bits = self.header.image_desc & ALPHA_BIT_MASK;
 
         // A colour map may be present in other images too, but only mapped ones take colours from it.
-- 
2.43.0


From c5d8820a02d9708164d0ec9fe5c7fe0e3ff7206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 23/96] fix: honour the right-to-left origin of TGA images

---
 src/codecs/tga/decoder.rs | 22 +++++++++++++++++++++-
 src/codecs/tga/header.rs  |  1 +
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 17029a3..06a44ad 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -1,4 +1,6 @@
-use super::header::{Header, ImageType, ALPHA_BIT_MASK, SCREEN_ORIGIN_BIT_MASK};
+use super::header::{
+    Header, ImageType, ALPHA_BIT_MASK, RIGHT_ORIGIN_BIT_MASK, SCREEN_ORIGIN_BIT_MASK,
+};
 use crate::{
     color::{ColorType, ExtendedColorType},
     error::{
@@ -337,6 +339,23 @@ impl<R: Read> TgaDecoder<R> {
         }
     }
 
+    /// Flip the image horizontally if the origin is at the right
+    ///
+    /// The bit in position 4 of the image descriptor byte is set if rows run from right to left.
+    fn flip_horizontally(&mut self, pixels: &mut [u8]) {
+        if RIGHT_ORIGIN_BIT_MASK & self.header.image_desc == 0 || self.width == 0 {
+            return;
+        }
+
+        let pixel_bytes = usize::from(self.color_type.bytes_per_pixel());
+        for row in pixels.chunks_exact_mut(self.width * pixel_bytes) {
+            // Reversing all bytes of the row also reverses those within each pixel.
+            row.reverse();
+            row.chunks_exact_mut(pixel_bytes)
+                .for_each(|pixel| pixel.reverse());
+        }
+    }
+
     /// Check whether the image is vertically flipped
     ///
     /// The bit in position 5 of the image descriptor byte is the screen origin bit.
@@ -408,6 +427,7 @@ impl<R: Read> ImageDecoder for TgaDecoder<R> {
         self.reverse_encoding_in_output(buf);
 
         self.flip_vertically(buf);
+        self.flip_horizontally(buf);
 
         Ok(())
     }
diff --git a/src/codecs/tga/header.rs b/src/codecs/tga/header.rs
index 4dff32e..aff8281 100644
--- a/src/codecs/tga/header.rs
+++ b/src/codecs/tga/header.rs
@@ -4,6 +4,7 @@ use byteorder_lite::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io::{Read, Write};
 
 pub(crate) const ALPHA_BIT_MASK: u8 = 0b1111;
+pub(crate) const RIGHT_ORIGIN_BIT_MASK: u8 = 0b1_0000;
 pub(crate) const SCREEN_ORIGIN_BIT_MASK: u8 = 0b10_0000;
 
 pub(crate) enum ImageType {
-- 
2.43.0


From c8f06844a89b2b2458fd26f6fe2fd5c0f154db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 24/96] fix: find the pixels after the masks of BMPs without a
 file header

---
 src/codecs/bmp/decoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codecs/bmp/decoder.rs b/src/codecs/bmp/decoder.rs
index 2fb2fed..f366e55 100644
--- a/src/codecs/bmp/decoder.rs
+++ b/src/codecs/bmp/decoder.rs
@@ -821,7 +821,10 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
                 _ => {}
             };
 
-            self.reader.seek(SeekFrom::Start(bmp_header_end))?;
+            // The masks of a BITMAPINFOHEADER follow it, those of later headers are part of them.
+            let masks_end = self.reader.stream_position()?;
+            self.reader
+                .seek(SeekFrom::Start(cmp::max(bmp_header_end, masks_end)))?;
 
             match self.image_type {
                 ImageType::Palette | ImageType::RLE4 | ImageType::RLE8 => self.read_palette()?,
-- 
2.43.0


From c4d1f2fb4b802b9f6bf89e67219cf1b3eb237ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 25/96] fix: refuse PAM headers whose depth differs from the
 colour's for every tuple type

---
 src/codecs/pnm/encoder.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 09b3400..d340d35 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -413,6 +413,13 @@ impl<'a> CheckedDimensions<'a> {
                     }),
                 ..
             } => match (tupltype, color) {
+                _ if depth != components => {
+                    return Err(ImageError::Parameter(ParameterError::from_kind(
+                        ParameterErrorKind::Generic(format!(
+                            "Depth mismatch: header {depth} vs. color {components}"
+                        )),
+                    )))
+                }
                 (&Some(ArbitraryTuplType::BlackAndWhite), ExtendedColorType::L1) => (),
                 (&Some(ArbitraryTuplType::BlackAndWhiteAlpha), ExtendedColorType::La8) => (),
 
@@ -424,15 +431,8 @@ impl<'a> CheckedDimensions<'a> {
                 (&Some(ArbitraryTuplType::RGB), ExtendedColorType::Rgb8) => (),
                 (&Some(ArbitraryTuplType::RGBAlpha), ExtendedColorType::Rgba8) => (),
 
-                (&None, _) if depth == components => (),
-                (&Some(ArbitraryTuplType::Custom(_)), _) if depth == components => (),
-                _ if depth != components => {
-                    return Err(ImageError::Parameter(ParameterError::from_kind(
-                        ParameterErrorKind::Generic(format!(
-                            "Depth mismatch: header {depth} vs. color {components}"
-                        )),
-                    )))
-                }
+                (&None, _) => (),
+                (&Some(ArbitraryTuplType::Custom(_)), _) => (),
                 _ => {
                     return Err(ImageError::Parameter(ParameterError::from_kind(
                         ParameterErrorKind::Generic(
-- 
2.43.0


From 6eb3b404ae37594fb77b3627cf96550a97faf817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 26/96] fix: HDR: chain of run-length markers overflowed the
 multiplier

---
 src/codecs/hdr/decoder.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 08f8483..ceb1d22 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -426,15 +426,17 @@ fn decode_old_rle<R: Read>(r: &mut R, fb: Rgbe8Pixel, buf: &mut [Rgbe8Pixel]) ->
         x_off += {
             if let Some(rl) = rl_marker(pix) {
                 // rl_mult takes care of consecutive RL markers
-                let rl = rl * rl_mult;
-                rl_mult *= 256;
-                if x_off + rl <= width {
+                // saturating, since empty runs can make the chain arbitrarily long
+                let rl = rl.saturating_mul(rl_mult);
+                rl_mult = rl_mult.saturating_mul(256);
+                if rl <= width - x_off {
                     // do run
                     for b in &mut buf[x_off..x_off + rl] {
                         *b = prev_pixel;
                     }
                 } else {
-                    return Err(DecoderError::WrongScanlineLength(x_off + rl, width).into());
+                    let length = x_off.saturating_add(rl);
+                    return Err(DecoderError::WrongScanlineLength(length, width).into());
                 };
                 rl // value to increase x_off by
             } else {
-- 
2.43.0


From d3802c119610a926899ed4c8fef787d3a020531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 27/96] fix: APNG: dispose to previous after a background
 disposal restored cleared pixels

---
 src/codecs/png.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index de6cfbd..8ae4913 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -320,7 +320,6 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                 previous.clone_from(current);
             }
             DisposeOp::Background => {
-                previous.clone_from(current);
                 if let Some((px, py, width, height)) = self.dispose_region {
                     let mut region_current = current.sub_image(px, py, width, height);
 
@@ -336,6 +335,8 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                         *pixel = Rgba::from([0, 0, 0, 0]);
                     });
                 }
+                // The cleared canvas is what a later frame reverts to.
+                previous.clone_from(current);
             }
             DisposeOp::Previous => {
                 let (px, py, width, height) = self
-- 
2.43.0


From 98fb127a6ecc9f8d83b6a1967c3660df75b2a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 28/96] fix: HDR: interrupted reads in the header were not
 retried

---
 src/codecs/hdr/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index ceb1d22..d201abd 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -690,7 +690,11 @@ fn read_line_u8<R: Read>(r: &mut R) -> io::Result<Option<Vec<u8>>> {
     let mut ret = Vec::with_capacity(16);
     loop {
         let mut byte = [0];
-        if r.read(&mut byte)? == 0 || byte[0] == b'\n' {
+        let count = match r.read(&mut byte) {
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            result => result?,
+        };
+        if count == 0 || byte[0] == b'\n' {
             if ret.is_empty() && byte[0] != b'\n' {
                 return Ok(None);
             } else {
-- 
2.43.0


From 23957a9fa4d0c404779a49861d92e029e57dab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 29/96] fix: report a failed read within a PNM header comment
 instead of retrying forever

---
 src/codecs/pnm/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index a8e8140..8aadc4f 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -377,7 +377,7 @@ trait HeaderReader: Read {
         #[allow(clippy::unbuffered_bytes)]
         let mark_comments = self.bytes().scan(true, |partof, read| {
             let byte = match read {
-                Err(err) => return Some((*partof, Err(err))),
+                Err(err) => return Some((true, Err(err))),
                 Ok(byte) => byte,
             };
             let cur_enabled = *partof && byte != b'#';
-- 
2.43.0


From c6319812ccf64f0856a0577defc8b6ec2cca07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 30/96] fix: report errors of writing the end of a PNG

---
 src/codecs/png.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index 8ae4913..72af24e 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -627,7 +627,9 @@ impl<W: Write> PngEncoder<W> {
             .map_err(|e| ImageError::IoError(e.into()))?;
         writer
             .write_image_data(data)
-            .map_err(|e| ImageError::IoError(e.into()))
+            .map_err(|e| ImageError::IoError(e.into()))?;
+        // Dropping the writer would ignore errors of writing the end of the file.
+        writer.finish().map_err(|e| ImageError::IoError(e.into()))
     }
 }
 
-- 
2.43.0


From 2f4a7e957e7a4673a7bca103dd79fa67aa437cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 31/96] fix: complete short writes of TIFF samples

---
 src/codecs/tiff.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 9a46a79..77678e2 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -8,7 +8,7 @@
 
 extern crate tiff;
 
-use std::io::{self, BufRead, Cursor, Read, Seek, Write};
+use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom, Write};
 use std::marker::PhantomData;
 use std::mem;
 
@@ -312,6 +312,26 @@ fn cmyk_to_rgb(cmyk: &[u8]) -> [u8; 3] {
     ]
 }
 
+/// Completes short and interrupted writes, which the `tiff` crate does not continue.
+struct CompleteWriter<W>(W);
+
+impl<W: Write> Write for CompleteWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.0.write_all(buf)?;
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.0.flush()
+    }
+}
+
+impl<W: Seek> Seek for CompleteWriter<W> {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        self.0.seek(pos)
+    }
+}
+
 // Utility to simplify and deduplicate error handling during 16-bit encoding.
 fn u8_slice_as_u16(buf: &[u8]) -> ImageResult<&[u16]> {
     bytemuck::try_cast_slice(buf).map_err(|err| {
@@ -355,8 +375,8 @@ impl<W: Write + Seek> TiffEncoder<W> {
             buf.len(),
         );
 
-        let mut encoder =
-            tiff::encoder::TiffEncoder::new(self.w).map_err(ImageError::from_tiff_encode)?;
+        let mut encoder = tiff::encoder::TiffEncoder::new(CompleteWriter(self.w))
+            .map_err(ImageError::from_tiff_encode)?;
         match color_type {
             ExtendedColorType::L8 => {
                 encoder.write_image::<tiff::encoder::colortype::Gray8>(width, height, buf)
-- 
2.43.0


From 55147d9e712ec7b1cf4595f9711e7d05e0193af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 32/96] fix: report errors of writing the end of a GIF written
 as a whole

---
 src/codecs/gif.rs                  | 8 ++++++++
 src/dynimage.rs                    | 2 +-
 src/image_reader/free_functions.rs | 6 +++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index f67a161..63e5a11 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -595,6 +595,14 @@ impl<W: Write> GifEncoder<W> {
             .write_frame(&frame)
             .map_err(ImageError::from_encoding)
     }
+
+    /// Writes the end of the file, errors of which dropping the encoder would ignore.
+    pub(crate) fn finish(mut self) -> ImageResult<()> {
+        if let Some(encoder) = self.gif_encoder.take() {
+            encoder.into_inner()?;
+        }
+        Ok(())
+    }
 }
 
 impl ImageError {
diff --git a/src/dynimage.rs b/src/dynimage.rs
index 32da8c7..a013238 100644
--- a/src/dynimage.rs
+++ b/src/dynimage.rs
@@ -1002,7 +1002,7 @@ impl DynamicImage {
             ImageFormat::Gif => {
                 let mut g = gif::GifEncoder::new(w);
                 g.encode_frame(crate::animation::Frame::new(self.to_rgba8()))?;
-                Ok(())
+                g.finish()
             }
 
             format => write_buffer_with_format(w, bytes, width, height, color, format),
diff --git a/src/image_reader/free_functions.rs b/src/image_reader/free_functions.rs
index d390815..d486b91 100644
--- a/src/image_reader/free_functions.rs
+++ b/src/image_reader/free_functions.rs
@@ -78,7 +78,11 @@ pub(crate) fn write_buffer_impl<W: std::io::Write + Seek>(
             pnm::PnmEncoder::new(buffered_write).write_image(buf, width, height, color)
         }
         #[cfg(feature = "gif")]
-        ImageFormat::Gif => gif::GifEncoder::new(buffered_write).encode(buf, width, height, color),
+        ImageFormat::Gif => {
+            let mut encoder = gif::GifEncoder::new(buffered_write);
+            encoder.encode(buf, width, height, color)?;
+            encoder.finish()
+        }
         #[cfg(feature = "ico")]
         ImageFormat::Ico => {
             ico::IcoEncoder::new(buffered_write).write_image(buf, width, height, color)
-- 
2.43.0


From 999da96e9c4a74ce26029c89c9d2e1127c469bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 33/96] fix: TIFF: limits lost colour profiles that are large
 in comparison with the image

---
 src/codecs/tiff.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 77678e2..062ef3f 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -230,8 +230,13 @@ impl<R: BufRead + Seek> ImageDecoder for TiffDecoder<R> {
         let max_intermediate_alloc = max_alloc.saturating_sub(self.total_bytes_buffer());
 
         let mut tiff_limits: tiff::decoder::Limits = Default::default();
+        // This also bounds the values of tags, which may be larger than the image.
+        let decoding_buffer_size = self
+            .total_bytes_buffer()
+            .max(tiff_limits.decoding_buffer_size as u64)
+            .min(max_alloc);
         tiff_limits.decoding_buffer_size =
-            usize::try_from(max_alloc - max_intermediate_alloc).unwrap_or(usize::MAX);
+            usize::try_from(decoding_buffer_size).unwrap_or(usize::MAX);
         tiff_limits.intermediate_buffer_size =
             usize::try_from(max_intermediate_alloc).unwrap_or(usize::MAX);
         tiff_limits.ifd_value_size = tiff_limits.intermediate_buffer_size;
-- 
2.43.0


From 28b1a4bcf81c833d158f1b7e7eacc8bbe183f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 34/96] fix: refuse PNGs whose default image is smaller than
 the image

---
 src/codecs/png.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index 72af24e..a5b0989 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -181,7 +181,14 @@ impl<R: BufRead + Seek> ImageDecoder for PngDecoder<R> {
         use byteorder_lite::{BigEndian, ByteOrder, NativeEndian};
 
         assert_eq!(u64::try_from(buf.len()), Ok(self.total_bytes()));
-        self.reader.next_frame(buf).map_err(ImageError::from_png)?;
+        let info = self.reader.next_frame(buf).map_err(ImageError::from_png)?;
+        // The first frame of an animation may claim to be smaller than the image.
+        if info.buffer_size() != buf.len() {
+            return Err(ImageError::Decoding(DecodingError::new(
+                ImageFormat::Png.into(),
+                "the default image does not fill the image",
+            )));
+        }
         // PNG images are big endian. For 16 bit per channel and larger types,
         // the buffer may need to be reordered to native endianness per the
         // contract of `read_image`.
-- 
2.43.0


From cf284c46bf93c28423097b4e8220345b693c8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 35/96] fix: QOI: refuse destinations of another length than
 the image's

---
 src/codecs/qoi.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codecs/qoi.rs b/src/codecs/qoi.rs
index f42d21a..c3b81eb 100644
--- a/src/codecs/qoi.rs
+++ b/src/codecs/qoi.rs
@@ -35,6 +35,7 @@ impl<R: Read> ImageDecoder for QoiDecoder<R> {
     }
 
     fn read_image(mut self, buf: &mut [u8]) -> ImageResult<()> {
+        assert_eq!(u64::try_from(buf.len()), Ok(self.total_bytes()));
         self.decoder.decode_to_buf(buf).map_err(decoding_error)?;
         Ok(())
     }
-- 
2.43.0


From 077931ca65e6c7305fc85b399fb41640e36e9e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 36/96] fix: refuse rectangle destinations that are too small
 for the row pitch

---
 src/image.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 0df8454..ec0d58b 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -503,8 +503,26 @@ where
     let dimensions = decoder.dimensions();
     let bytes_per_pixel = u64::from(decoder.color_type().bytes_per_pixel());
     let row_bytes = bytes_per_pixel * u64::from(dimensions.0);
-    let total_bytes = width * height * bytes_per_pixel;
 
+    if x + width > u64::from(dimensions.0)
+        || y + height > u64::from(dimensions.1)
+        || width == 0
+        || height == 0
+    {
+        return Err(ImageError::Parameter(ParameterError::from_kind(
+            ParameterErrorKind::DimensionMismatch,
+        )));
+    }
+
+    let rect_row_bytes = width * bytes_per_pixel;
+    assert!(
+        row_pitch >= rect_row_bytes,
+        "row pitch too small\n expected at least `{rect_row_bytes}`, provided `{row_pitch}`",
+    );
+    // The last row need not be padded to the row pitch.
+    let total_bytes = (height - 1)
+        .saturating_mul(row_pitch)
+        .saturating_add(rect_row_bytes);
     assert!(
         buf.len() >= usize::try_from(total_bytes).unwrap_or(usize::MAX),
         "output buffer too short\n expected `{}`, provided `{}`",
@@ -573,15 +591,6 @@ where
                 Ok(())
             };
 
-        if x + width > u64::from(dimensions.0)
-            || y + height > u64::from(dimensions.1)
-            || width == 0
-            || height == 0
-        {
-            return Err(ImageError::Parameter(ParameterError::from_kind(
-                ParameterErrorKind::DimensionMismatch,
-            )));
-        }
         if scanline_bytes > usize::MAX as u64 {
             return Err(ImageError::Limits(LimitError::from_kind(
                 LimitErrorKind::InsufficientMemory,
-- 
2.43.0


From f326dbece26536efe0cb4165a6d160a40c34e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 37/96] fix: get_pixel_checked refuses rows below the image
 even if the container is larger

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 13fa01d..5c67b51 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -780,7 +780,7 @@ where
     /// Gets a reference to the pixel at location `(x, y)` or returns `None` if
     /// the index is out of the bounds `(width, height)`.
     pub fn get_pixel_checked(&self, x: u32, y: u32) -> Option<&P> {
-        if x >= self.width {
+        if x >= self.width || y >= self.height {
             return None;
         }
         let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
@@ -958,7 +958,7 @@ where
     /// Gets a reference to the mutable pixel at location `(x, y)` or returns
     /// `None` if the index is out of the bounds `(width, height)`.
     pub fn get_pixel_mut_checked(&mut self, x: u32, y: u32) -> Option<&mut P> {
-        if x >= self.width {
+        if x >= self.width || y >= self.height {
             return None;
         }
         let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
-- 
2.43.0


From b568d3e014dba44966c4c1b225af69026fe3cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 38/96] fix: views refuse coordinates outside of themselves, as
 documented

---
 src/image.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index ec0d58b..da3e272 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1212,6 +1212,21 @@ impl<I> SubImage<I> {
     }
 }
 
+impl<I> SubImageInner<I> {
+    /// Translates coordinates within the view to coordinates of the underlying image.
+    #[inline]
+    #[track_caller]
+    fn translate(&self, x: u32, y: u32) -> (u32, u32) {
+        assert!(
+            x < self.xstride && y < self.ystride,
+            "Image index {:?} out of bounds {:?}",
+            (x, y),
+            (self.xstride, self.ystride)
+        );
+        (x + self.xoffset, y + self.yoffset)
+    }
+}
+
 /// Methods for readable images.
 impl<I> SubImage<I>
 where
@@ -1312,7 +1327,8 @@ where
     }
 
     fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
-        self.image.get_pixel(x + self.xoffset, y + self.yoffset)
+        let (x, y) = self.translate(x, y);
+        self.image.get_pixel(x, y)
     }
 }
 
@@ -1323,18 +1339,19 @@ where
     I::Target: GenericImage + Sized,
 {
     fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Self::Pixel {
-        self.image.get_pixel_mut(x + self.xoffset, y + self.yoffset)
+        let (x, y) = self.translate(x, y);
+        self.image.get_pixel_mut(x, y)
     }
 
     fn put_pixel(&mut self, x: u32, y: u32, pixel: Self::Pixel) {
-        self.image
-            .put_pixel(x + self.xoffset, y + self.yoffset, pixel);
+        let (x, y) = self.translate(x, y);
+        self.image.put_pixel(x, y, pixel);
     }
 
     /// DEPRECATED: This method will be removed. Blend the pixel directly instead.
     fn blend_pixel(&mut self, x: u32, y: u32, pixel: Self::Pixel) {
-        self.image
-            .blend_pixel(x + self.xoffset, y + self.yoffset, pixel);
+        let (x, y) = self.translate(x, y);
+        self.image.blend_pixel(x, y, pixel);
     }
 }
 
-- 
2.43.0


From 7b4321b02516b63008acd0a8f13be036c45c4bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 39/96] fix: blend opaque and transparent LumaA pixels exactly,
 as for Rgba

---
 src/codecs/pnm/encoder.rs | 6 +++---
 src/color.rs              | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index d340d35..5f8b984 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -691,9 +691,9 @@ impl TupleEncoding<'_> {
             TupleEncoding::Bytes {
                 samples: FlatSamples::U16(samples),
                 wide: false,
-            } => samples.iter().try_for_each(|&sample| {
-                writer.write_u8(sample as u8).map_err(ImageError::IoError)
-            }),
+            } => samples
+                .iter()
+                .try_for_each(|&sample| writer.write_u8(sample as u8).map_err(ImageError::IoError)),
             TupleEncoding::Bytes {
                 samples: FlatSamples::U16(samples),
                 wide: true,
diff --git a/src/color.rs b/src/color.rs
index a83ca8c..6cde10c 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -752,6 +752,14 @@ pub(crate) trait Blend {
 
 impl<T: Primitive> Blend for LumaA<T> {
     fn blend(&mut self, other: &LumaA<T>) {
+        if other.0[1].is_zero() {
+            return;
+        }
+        if other.0[1] == T::DEFAULT_MAX_VALUE {
+            *self = *other;
+            return;
+        }
+
         let max_t = T::DEFAULT_MAX_VALUE;
         let max_t = max_t.to_f32().unwrap();
         let (bg_luma, bg_a) = (self.0[0], self.0[1]);
-- 
2.43.0


From dd43480756fe654bf14461742333b2a14daf9b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 40/96] fix: tile nothing with an empty image

---
 src/imageops/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imageops/mod.rs b/src/imageops/mod.rs
index ccd398a..fcb2696 100644
--- a/src/imageops/mod.rs
+++ b/src/imageops/mod.rs
@@ -258,6 +258,10 @@ where
     I: GenericImage,
     J: GenericImageView<Pixel = I::Pixel>,
 {
+    if top.width() == 0 || top.height() == 0 {
+        return;
+    }
+
     for x in (0..bottom.width()).step_by(top.width() as usize) {
         for y in (0..bottom.height()).step_by(top.height() as usize) {
             overlay(bottom, top, i64::from(x), i64::from(y));
-- 
2.43.0


From 87b5ee1f9a34184b44a8c1042dc897c927ea9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 41/96] fix: draw gradients over a single pixel without
 dividing by zero

---
 src/imageops/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/imageops/mod.rs b/src/imageops/mod.rs
index fcb2696..04f82b3 100644
--- a/src/imageops/mod.rs
+++ b/src/imageops/mod.rs
@@ -292,7 +292,8 @@ where
     for y in 0..img.height() {
         let pixel = start.map2(stop, |a, b| {
             let y = <S::Ratio as num_traits::NumCast>::from(y).unwrap();
-            let height = <S::Ratio as num_traits::NumCast>::from(img.height() - 1).unwrap();
+            let height =
+                <S::Ratio as num_traits::NumCast>::from((img.height() - 1).max(1)).unwrap();
             S::lerp(a, b, y / height)
         });
 
@@ -325,7 +326,7 @@ where
     for x in 0..img.width() {
         let pixel = start.map2(stop, |a, b| {
             let x = <S::Ratio as num_traits::NumCast>::from(x).unwrap();
-            let width = <S::Ratio as num_traits::NumCast>::from(img.width() - 1).unwrap();
+            let width = <S::Ratio as num_traits::NumCast>::from((img.width() - 1).max(1)).unwrap();
             S::lerp(a, b, x / width)
         });
 
-- 
2.43.0


From 24fdc2cde91c7ba09502a7c8643a93a5e6e13867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 42/96] fix: adjust the contrast by any amount without
 producing NaN

---
 src/imageops/colorops.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 7289c09..19148c1 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -97,7 +97,8 @@ where
     let max = S::DEFAULT_MAX_VALUE;
     let max: f32 = NumCast::from(max).unwrap();
 
-    let percent = ((100.0 + contrast) / 100.0).powi(2);
+    // finite, as an infinite factor has no product with a middle gray
+    let percent = ((100.0 + contrast) / 100.0).powi(2).min(f32::MAX);
 
     for (x, y, pixel) in image.pixels() {
         let f = pixel.map(|b| {
@@ -128,7 +129,8 @@ where
     let max = <I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE;
     let max: f32 = NumCast::from(max).unwrap();
 
-    let percent = ((100.0 + contrast) / 100.0).powi(2);
+    // finite, as an infinite factor has no product with a middle gray
+    let percent = ((100.0 + contrast) / 100.0).powi(2).min(f32::MAX);
 
     // TODO find a way to use pixels?
     for y in 0..height {
-- 
2.43.0


From 5a17ef24fc26d08dc9b65b7b3f9ccb33cdcbf42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 43/96] fix: brighten by any value without overflow, and
 floating point samples without truncation

---
 src/imageops/colorops.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 19148c1..8c11b69 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -164,13 +164,13 @@ where
     let mut out = ImageBuffer::new(width, height);
 
     let max = S::DEFAULT_MAX_VALUE;
-    let max: i32 = NumCast::from(max).unwrap();
+    let max: f64 = NumCast::from(max).unwrap();
 
     for (x, y, pixel) in image.pixels() {
         let e = pixel.map_with_alpha(
             |b| {
-                let c: i32 = NumCast::from(b).unwrap();
-                let d = clamp(c + value, 0, max);
+                let c: f64 = NumCast::from(b).unwrap();
+                let d = clamp(c + <f64 as From<_>>::from(value), 0.0, max);
 
                 NumCast::from(d).unwrap()
             },
@@ -194,15 +194,15 @@ where
     let (width, height) = image.dimensions();
 
     let max = <I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE;
-    let max: i32 = NumCast::from(max).unwrap(); // TODO what does this do for f32? clamp at 1??
+    let max: f64 = NumCast::from(max).unwrap();
 
     // TODO find a way to use pixels?
     for y in 0..height {
         for x in 0..width {
             let e = image.get_pixel(x, y).map_with_alpha(
                 |b| {
-                    let c: i32 = NumCast::from(b).unwrap();
-                    let d = clamp(c + value, 0, max);
+                    let c: f64 = NumCast::from(b).unwrap();
+                    let d = clamp(c + <f64 as From<_>>::from(value), 0.0, max);
 
                     NumCast::from(d).unwrap()
                 },
-- 
2.43.0


From ff379e7a831d90d9c2d89c5a82c887f0152650e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 44/96] fix: rotate the hue within the range of the sample type
 instead of 0 to 255

---
 src/imageops/colorops.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 8c11b69..574ac02 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -266,7 +266,7 @@ where
         let new_r = matrix[0] * r + matrix[1] * g + matrix[2] * b;
         let new_g = matrix[3] * r + matrix[4] * g + matrix[5] * b;
         let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
-        let max = 255f64;
+        let max: f64 = NumCast::from(S::DEFAULT_MAX_VALUE).unwrap();
 
         #[allow(deprecated)]
         let outpixel = Pixel::from_channels(
@@ -334,7 +334,8 @@ where
             let new_r = matrix[0] * r + matrix[1] * g + matrix[2] * b;
             let new_g = matrix[3] * r + matrix[4] * g + matrix[5] * b;
             let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
-            let max = 255f64;
+            let max = <I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE;
+            let max: f64 = NumCast::from(max).unwrap();
 
             #[allow(deprecated)]
             let outpixel = Pixel::from_channels(
-- 
2.43.0


From a3422fa8f915e6527efb25f617c5bf2f56ddd701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:20 +0000
Subject: [PATCH 45/96] fix: rotate the hue to the nearest sample values, so
 that 0 and 360 degrees do nothing

---
 src/imageops/colorops.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 574ac02..d11466a 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -267,12 +267,14 @@ where
         let new_g = matrix[3] * r + matrix[4] * g + matrix[5] * b;
         let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
         let max: f64 = NumCast::from(S::DEFAULT_MAX_VALUE).unwrap();
+        // integers are rounded to the nearest instead of towards zero
+        let half = if max > 1.0 { 0.5 } else { 0.0 };
 
         #[allow(deprecated)]
         let outpixel = Pixel::from_channels(
-            NumCast::from(clamp(new_r, 0.0, max)).unwrap(),
-            NumCast::from(clamp(new_g, 0.0, max)).unwrap(),
-            NumCast::from(clamp(new_b, 0.0, max)).unwrap(),
+            NumCast::from(clamp(new_r + half, 0.0, max)).unwrap(),
+            NumCast::from(clamp(new_g + half, 0.0, max)).unwrap(),
+            NumCast::from(clamp(new_b + half, 0.0, max)).unwrap(),
             NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
         );
         *pixel = outpixel;
@@ -336,12 +338,14 @@ where
             let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
             let max = <I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE;
             let max: f64 = NumCast::from(max).unwrap();
+            // integers are rounded to the nearest instead of towards zero
+            let half = if max > 1.0 { 0.5 } else { 0.0 };
 
             #[allow(deprecated)]
             let outpixel = Pixel::from_channels(
-                NumCast::from(clamp(new_r, 0.0, max)).unwrap(),
-                NumCast::from(clamp(new_g, 0.0, max)).unwrap(),
-                NumCast::from(clamp(new_b, 0.0, max)).unwrap(),
+                NumCast::from(clamp(new_r + half, 0.0, max)).unwrap(),
+                NumCast::from(clamp(new_g + half, 0.0, max)).unwrap(),
+                NumCast::from(clamp(new_b + half, 0.0, max)).unwrap(),
                 NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
             );
 
-- 
2.43.0


From d5958d25fb2d56c8c2f777ece56e7a86fe2de6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:20 +0000
Subject: [PATCH 46/96] fix: rotating the hue leaves gray images as they are

---
 src/imageops/colorops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index d11466a..5a251fe 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -249,6 +249,11 @@ where
     ];
     for (x, y, pixel) in out.enumerate_pixels_mut() {
         let p = image.get_pixel(x, y);
+        // grays have no hue
+        if P::CHANNEL_COUNT < 3 {
+            *pixel = p;
+            continue;
+        }
 
         #[allow(deprecated)]
         let (k1, k2, k3, k4) = p.channels4();
@@ -293,6 +298,11 @@ pub fn huerotate_in_place<I>(image: &mut I, value: i32)
 where
     I: GenericImage,
 {
+    // grays have no hue
+    if <I::Pixel as Pixel>::CHANNEL_COUNT < 3 {
+        return;
+    }
+
     let (width, height) = image.dimensions();
 
     let angle: f64 = NumCast::from(value).unwrap();
-- 
2.43.0


From 492ae76ee4916d631e9e69c2d772b5d5b0943eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 47/96] fix: dither images that are empty or a single pixel
 wide

---
 src/imageops/colorops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 5a251fe..1962fdc 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -512,10 +512,17 @@ where
     Pix: Pixel<Subpixel = u8> + 'static,
 {
     let (width, height) = image.dimensions();
+    if width == 0 || height == 0 {
+        return;
+    }
     let mut err: [i16; 3] = [0; 3];
     for y in 0..height - 1 {
         let x = 0;
         do_dithering!(color_map, image, err, x, y);
+        if width == 1 {
+            diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
+            continue;
+        }
         diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
         diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
         diffuse_err(image.get_pixel_mut(x + 1, y + 1), err, 1);
@@ -534,6 +541,9 @@ where
     let y = height - 1;
     let x = 0;
     do_dithering!(color_map, image, err, x, y);
+    if width == 1 {
+        return;
+    }
     diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
     for x in 1..width - 1 {
         do_dithering!(color_map, image, err, x, y);
-- 
2.43.0


From 58ae52e1732d11d5d450e7caea07fb9bb0e7b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 48/96] fix: expand the first pixel of paletted images, too

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 605c1fe..0a048d3 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ where
             (0..8/bit_depth).map(|i| i*bit_depth).zip(repeat(idx)))
         .skip(extra);
     let buf_len = buf.len();
-    let j_inv = (channels..buf_len).step_by(channels);
+    let j_inv = (channels..=buf_len).step_by(channels);
     for ((shift, i), j_inv) in i.zip(j_inv) {
         let j = buf_len - j_inv;
         let pixel = (buf[i] & (mask << shift)) >> shift;
-- 
2.43.0


From 33786a7fd500a6e9373e8a73e850dbb4b476687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 49/96] fix: filter images without rows or columns

---
 src/imageops/sample.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index dc79552..cc1b6f6 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -880,8 +880,8 @@ where
     };
     let sum = (sum, sum, sum, sum);
 
-    for y in 1..height - 1 {
-        for x in 1..width - 1 {
+    for y in 1..height.saturating_sub(1) {
+        for x in 1..width.saturating_sub(1) {
             let mut t = (0.0, 0.0, 0.0, 0.0);
 
             // TODO: There is no need to recalculate the kernel for each pixel.
-- 
2.43.0


From 5ea477a3e2a1246a0d822a9b0a4386f467ce57da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 50/96] fix: filter with kernels whose sums are not finite

---
 src/imageops/sample.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index cc1b6f6..6cb153e 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -914,10 +914,10 @@ where
 
             #[allow(deprecated)]
             let t = Pixel::from_channels(
-                NumCast::from(clamp(t1, 0.0, max)).unwrap(),
-                NumCast::from(clamp(t2, 0.0, max)).unwrap(),
-                NumCast::from(clamp(t3, 0.0, max)).unwrap(),
-                NumCast::from(clamp(t4, 0.0, max)).unwrap(),
+                NumCast::from(t1.max(0.0).min(max)).unwrap(),
+                NumCast::from(t2.max(0.0).min(max)).unwrap(),
+                NumCast::from(t3.max(0.0).min(max)).unwrap(),
+                NumCast::from(t4.max(0.0).min(max)).unwrap(),
             );
 
             out.put_pixel(x, y, t);
-- 
2.43.0


From fdc71dd08e52ac51e80271e80121e64785294912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 51/96] fix: blur with any standard deviation

---
 src/imageops/sample.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 6cb153e..f39ad4b 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -998,7 +998,12 @@ pub fn blur<I: GenericImageView>(
 where
     I::Pixel: 'static,
 {
-    let sigma = if sigma <= 0.0 { 1.0 } else { sigma };
+    let sigma = if sigma > 0.0 {
+        // the range in which all weights and their sums are finite
+        sigma.clamp(1e-9, 1e9)
+    } else {
+        1.0
+    };
 
     let mut method = Filter {
         kernel: Box::new(|x| gaussian(x, sigma)),
-- 
2.43.0


From 7b3887066b0976f0a00f755e9b53212ced4f7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 52/96] fix: unsharpen floating point samples without
 truncating them to integers

---
 src/imageops/sample.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index f39ad4b..a5500e6 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -1038,7 +1038,7 @@ where
     let mut tmp = blur(image, sigma);
 
     let max = S::DEFAULT_MAX_VALUE;
-    let max: i32 = NumCast::from(max).unwrap();
+    let max: f64 = NumCast::from(max).unwrap();
     let (width, height) = image.dimensions();
 
     for y in 0..height {
@@ -1047,13 +1047,13 @@ where
             let b = tmp.get_pixel_mut(x, y);
 
             let p = a.map2(b, |c, d| {
-                let ic: i32 = NumCast::from(c).unwrap();
-                let id: i32 = NumCast::from(d).unwrap();
+                let ic: f64 = NumCast::from(c).unwrap();
+                let id: f64 = NumCast::from(d).unwrap();
 
                 let diff = ic - id;
 
-                if diff.abs() > threshold {
-                    let e = clamp(ic + diff, 0, max); // FIXME what does this do for f32? clamp 0-1 integers??
+                if diff.abs() > <f64 as From<_>>::from(threshold) {
+                    let e = clamp(ic + diff, 0.0, max);
 
                     NumCast::from(e).unwrap()
                 } else {
-- 
2.43.0


From 54e8e61f655c89e80091dd86afdd8ef7930b1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 53/96] fix: blur fast with any standard deviation, in time
 independent of it

---
 src/imageops/fast_blur.rs | 49 +++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/imageops/fast_blur.rs b/src/imageops/fast_blur.rs
index 289aa9b..569631d 100644
--- a/src/imageops/fast_blur.rs
+++ b/src/imageops/fast_blur.rs
@@ -16,6 +16,12 @@ pub fn fast_blur<P: Pixel>(
     if width == 0 || height == 0 {
         return image_buffer.clone();
     }
+    // the sign has no meaning, and beyond some width only the edges count
+    let sigma = if sigma.is_nan() {
+        0.0
+    } else {
+        sigma.abs().min(1e9)
+    };
     let mut samples = image_buffer.as_flat_samples().samples.to_vec();
     let num_passes = 3;
 
@@ -73,31 +79,34 @@ fn horizontal_fast_blur_half<P: Primitive>(
     let mut out_samples = vec![P::from(0).unwrap(); channel_size * channel_num];
     let mut vals = vec![0.0; channel_num];
 
-    let min_value = P::DEFAULT_MIN_VALUE.to_f32().unwrap();
-    let max_value = P::DEFAULT_MAX_VALUE.to_f32().unwrap();
+    let min_value = P::DEFAULT_MIN_VALUE.to_f64().unwrap();
+    let max_value = P::DEFAULT_MAX_VALUE.to_f64().unwrap();
 
     for row in 0..height {
         for (channel, value) in vals.iter_mut().enumerate().take(channel_num) {
-            *value = ((-(r as isize))..(r + 1) as isize)
-                .map(|x| {
-                    extended_f(
-                        samples,
-                        width,
-                        height,
-                        x,
-                        row as isize,
-                        channel,
-                        channel_num,
-                    )
-                    .to_f32()
-                    .unwrap_or(0.0)
-                })
-                .sum();
+            let sample = |x| {
+                extended_f(
+                    samples,
+                    width,
+                    height,
+                    x,
+                    row as isize,
+                    channel,
+                    channel_num,
+                )
+                .to_f64()
+                .unwrap_or(0.0)
+            };
+            // beyond the edges, the window holds as many copies of them as it reaches out
+            let inside = r.min(width - 1) as isize;
+            *value = sample(0) * r as f64
+                + (0..=inside).map(sample).sum::<f64>()
+                + sample(inside) * (r - inside as usize) as f64;
         }
 
         for column in 0..width {
             for (channel, channel_val) in vals.iter_mut().enumerate() {
-                let val = *channel_val / (2.0 * r as f32 + 1.0);
+                let val = *channel_val / (2.0 * r as f64 + 1.0);
                 let val = clamp(val, min_value, max_value);
                 let val = P::from(val).unwrap();
 
@@ -119,7 +128,7 @@ fn horizontal_fast_blur_half<P: Primitive>(
                         channel,
                         channel_num,
                     )
-                    .to_f32()
+                    .to_f64()
                     .unwrap_or(0.0)
                     + extended_f(
                         samples,
@@ -130,7 +139,7 @@ fn horizontal_fast_blur_half<P: Primitive>(
                         channel,
                         channel_num,
                     )
-                    .to_f32()
+                    .to_f64()
                     .unwrap_or(0.0);
             }
         }
-- 
2.43.0


From f02387665aa5b784cb870c5c7ea979bc99c33f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 54/96] fix: round the interpolated samples of thumbnails to
 the nearest

---
 src/imageops/sample.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index a5500e6..dd41700 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -741,9 +741,9 @@ where
     let fact_left = (1. - fract) / ((top - bottom) as f32);
 
     let mix_left_and_right = |leftv: S::Larger, rightv: S::Larger| {
-        <S as NumCast>::from(
+        <S as NumCast>::from(FloatNearest(
             fact_left * leftv.to_f32().unwrap() + fact_right * rightv.to_f32().unwrap(),
-        )
+        ))
         .expect("Average sample value should fit into sample type")
     };
 
@@ -785,8 +785,10 @@ where
     let fact_bot = (1. - fract) / ((right - left) as f32);
 
     let mix_bot_and_top = |botv: S::Larger, topv: S::Larger| {
-        <S as NumCast>::from(fact_bot * botv.to_f32().unwrap() + fact_top * topv.to_f32().unwrap())
-            .expect("Average sample value should fit into sample type")
+        <S as NumCast>::from(FloatNearest(
+            fact_bot * botv.to_f32().unwrap() + fact_top * topv.to_f32().unwrap(),
+        ))
+        .expect("Average sample value should fit into sample type")
     };
 
     (
@@ -828,12 +830,12 @@ where
     let fact_bl = (1. - frac_v) * (1. - frac_h);
 
     let mix = |br: S, tr: S, bl: S, tl: S| {
-        <S as NumCast>::from(
+        <S as NumCast>::from(FloatNearest(
             fact_br * br.to_f32().unwrap()
                 + fact_tr * tr.to_f32().unwrap()
                 + fact_bl * bl.to_f32().unwrap()
                 + fact_tl * tl.to_f32().unwrap(),
-        )
+        ))
         .expect("Average sample value should fit into sample type")
     };
 
-- 
2.43.0


From b493779bd891644f616ca9844154effb765b2997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 55/96] fix: average floating point samples of thumbnails
 without adding one half

---
 src/imageops/sample.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index dd41700..51de5a9 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -5,7 +5,7 @@
 
 use std::f32;
 
-use num_traits::{NumCast, ToPrimitive, Zero};
+use num_traits::{NumCast, One, ToPrimitive, Zero};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -702,7 +702,13 @@ where
     }
 
     let n = <S::Larger as NumCast>::from((right - left) * (top - bottom)).unwrap();
-    let round = <S::Larger as NumCast>::from(n / NumCast::from(2).unwrap()).unwrap();
+    let two = S::Larger::one() + S::Larger::one();
+    let round = if (S::Larger::one() / two).is_zero() {
+        n / two
+    } else {
+        // the division of floating point sums needs no rounding
+        S::Larger::zero()
+    };
     (
         S::clamp_from((sum.0 + round) / n),
         S::clamp_from((sum.1 + round) / n),
-- 
2.43.0


From f5ef4bb36f27af12f5f98118cd8908ae411a9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 56/96] fix: average any number of samples in thumbnails
 without overflow

---
 src/traits.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 325926d..2903b44 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -89,10 +89,10 @@ pub trait Enlargeable: Sized + Bounded + NumCast {
 }
 
 impl Enlargeable for u8 {
-    type Larger = u32;
+    type Larger = u64;
 }
 impl Enlargeable for u16 {
-    type Larger = u32;
+    type Larger = u64;
 }
 impl Enlargeable for u32 {
     type Larger = u64;
@@ -105,10 +105,10 @@ impl Enlargeable for usize {
     type Larger = u128;
 }
 impl Enlargeable for i8 {
-    type Larger = i32;
+    type Larger = i64;
 }
 impl Enlargeable for i16 {
-    type Larger = i32;
+    type Larger = i64;
 }
 impl Enlargeable for i32 {
     type Larger = i64;
-- 
2.43.0


From 9681edb3dafb39fe60ce94db05d5a46a7f75f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 57/96] fix: fill bounds with an empty image without an
 intermediate of the greatest height

---
 src/dynimage.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynimage.rs b/src/dynimage.rs
index a013238..593a3a3 100644
--- a/src/dynimage.rs
+++ b/src/dynimage.rs
@@ -808,6 +808,11 @@ impl DynamicImage {
         nheight: u32,
         filter: imageops::FilterType,
     ) -> DynamicImage {
+        if self.width() == 0 || self.height() == 0 {
+            // no scale makes an empty image fill the bounds
+            return self.resize_exact(nwidth, nheight, filter);
+        }
+
         let (width2, height2) =
             resize_dimensions(self.width(), self.height(), nwidth, nheight, true);
 
-- 
2.43.0


From 3287f74098044d22279eef3425c39194dbe78d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 58/96] fix: TIFF: report failed reads of the colour profile
 instead of leaving it out

---
 src/codecs/tiff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index 062ef3f..dc05b20 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -202,7 +202,11 @@ impl<R: BufRead + Seek> ImageDecoder for TiffDecoder<R> {
 
     fn icc_profile(&mut self) -> ImageResult<Option<Vec<u8>>> {
         if let Some(decoder) = &mut self.inner {
-            Ok(decoder.get_tag_u8_vec(tiff::tags::Tag::Unknown(34675)).ok())
+            match decoder.get_tag_u8_vec(tiff::tags::Tag::Unknown(34675)) {
+                Ok(profile) => Ok(Some(profile)),
+                Err(tiff::TiffError::IoError(e)) => Err(ImageError::IoError(e)),
+                Err(_) => Ok(None),
+            }
         } else {
             Ok(None)
         }
-- 
2.43.0


From 94122e0a83bf7cc0ff4cc491861941c43375e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:12 +0000
Subject: [PATCH 59/96] fix: saturate delays of more than the greatest number
 of milliseconds by a fraction

---
 src/animation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index f6dac64..96e5ff5 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -181,7 +181,8 @@ impl Delay {
         let millis = millis as u32;
 
         let (a, b) = Self::closest_bounded_fraction(max_b, submillis, 1_000_000);
-        Self::from_numer_denom_ms(a + b * millis, b)
+        // At the maximum, the fraction may only be rounded up beyond what is representable.
+        Self::from_numer_denom_ms((b * millis).saturating_add(a), b)
     }
 
     /// The numerator and denominator of the delay in milliseconds.
-- 
2.43.0


From 5037e65eed7ec90bb181a1623b948c662a06497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 60/96] fix: JPEG: refuse views whose samples do not have 8
 bits

---
 src/codecs/jpeg/encoder.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index d61951a..d1d6190 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -492,6 +492,22 @@ impl<W: Write> JpegEncoder<W> {
         let color_type = I::Pixel::COLOR_TYPE;
         let num_components = if n == 1 || n == 2 { 1 } else { 3 };
 
+        // The samples are taken as they are, so they have to have 8 bits.
+        if !matches!(
+            color_type,
+            ExtendedColorType::L8
+                | ExtendedColorType::La8
+                | ExtendedColorType::Rgb8
+                | ExtendedColorType::Rgba8
+        ) {
+            return Err(ImageError::Unsupported(
+                UnsupportedError::from_format_and_kind(
+                    ImageFormat::Jpeg.into(),
+                    UnsupportedErrorKind::Color(color_type),
+                ),
+            ));
+        }
+
         self.writer.write_marker(SOI)?;
 
         let mut buf = Vec::new();
-- 
2.43.0


From ee5c649e4eab063a3c6762b3c662ef55eb9a00f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 61/96] fix: JPEG: refuse to encode images without pixels

---
 src/codecs/jpeg/encoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index d1d6190..0543dd4 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -508,6 +508,13 @@ impl<W: Write> JpegEncoder<W> {
             ));
         }
 
+        // A frame has at least one sample, and a height of zero stands for one given later.
+        if image.width() == 0 || image.height() == 0 {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        }
+
         self.writer.write_marker(SOI)?;
 
         let mut buf = Vec::new();
-- 
2.43.0


From aa073655fb0aa50a762f86a856ab56567bba288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 62/96] fix: GIF: refuse to encode images without pixels

---
 src/codecs/gif.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index 63e5a11..6152b4a 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -561,7 +561,8 @@ impl<W: Write> GifEncoder<W> {
         fn inner_dimensions(width: u32, height: u32) -> Option<(u16, u16)> {
             let width = u16::try_from(width).ok()?;
             let height = u16::try_from(height).ok()?;
-            Some((width, height))
+            // The logical screen and every frame have at least one pixel.
+            (width > 0 && height > 0).then_some((width, height))
         }
 
         // TODO: this is not very idiomatic yet. Should return an EncodingError.
-- 
2.43.0


From a2ed2577b4901d061d31efe5bfd743a0bd1e8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:02 +0000
Subject: [PATCH 63/96] fix: BMP: refuse to encode images without pixels

---
 src/codecs/bmp/encoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index 457e5d9..a8b4711 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -70,6 +70,13 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             image.len(),
         );
 
+        // Neither dimension of a bitmap may be zero.
+        if width == 0 || height == 0 {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        }
+
         let bmp_header_size = BITMAPFILEHEADER_SIZE;
 
         let (dib_header_size, written_pixel_size, palette_color_count) =
-- 
2.43.0


From 67813505ea59f62435281326cbdd44b1e51ea30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 64/96] fix: TGA: give images without pixels a header with
 their size and type

---
 src/codecs/tga/header.rs | 52 +++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/codecs/tga/header.rs b/src/codecs/tga/header.rs
index aff8281..b4d9867 100644
--- a/src/codecs/tga/header.rs
+++ b/src/codecs/tga/header.rs
@@ -86,33 +86,31 @@ impl Header {
     ) -> ImageResult<Self> {
         let mut header = Self::default();
 
-        if width > 0 && height > 0 {
-            let (num_alpha_bits, other_channel_bits, image_type) = match (color_type, use_rle) {
-                (ExtendedColorType::Rgba8, true) => (8, 24, ImageType::RunTrueColor),
-                (ExtendedColorType::Rgb8, true) => (0, 24, ImageType::RunTrueColor),
-                (ExtendedColorType::La8, true) => (8, 8, ImageType::RunGrayScale),
-                (ExtendedColorType::L8, true) => (0, 8, ImageType::RunGrayScale),
-                (ExtendedColorType::Rgba8, false) => (8, 24, ImageType::RawTrueColor),
-                (ExtendedColorType::Rgb8, false) => (0, 24, ImageType::RawTrueColor),
-                (ExtendedColorType::La8, false) => (8, 8, ImageType::RawGrayScale),
-                (ExtendedColorType::L8, false) => (0, 8, ImageType::RawGrayScale),
-                _ => {
-                    return Err(ImageError::Unsupported(
-                        UnsupportedError::from_format_and_kind(
-                            ImageFormat::Tga.into(),
-                            UnsupportedErrorKind::Color(color_type),
-                        ),
-                    ))
-                }
-            };
-
-            header.image_type = image_type as u8;
-            header.image_width = width;
-            header.image_height = height;
-            header.pixel_depth = num_alpha_bits + other_channel_bits;
-            header.image_desc = num_alpha_bits & ALPHA_BIT_MASK;
-            header.image_desc |= SCREEN_ORIGIN_BIT_MASK; // Upper left origin.
-        }
+        let (num_alpha_bits, other_channel_bits, image_type) = match (color_type, use_rle) {
+            (ExtendedColorType::Rgba8, true) => (8, 24, ImageType::RunTrueColor),
+            (ExtendedColorType::Rgb8, true) => (0, 24, ImageType::RunTrueColor),
+            (ExtendedColorType::La8, true) => (8, 8, ImageType::RunGrayScale),
+            (ExtendedColorType::L8, true) => (0, 8, ImageType::RunGrayScale),
+            (ExtendedColorType::Rgba8, false) => (8, 24, ImageType::RawTrueColor),
+            (ExtendedColorType::Rgb8, false) => (0, 24, ImageType::RawTrueColor),
+            (ExtendedColorType::La8, false) => (8, 8, ImageType::RawGrayScale),
+            (ExtendedColorType::L8, false) => (0, 8, ImageType::RawGrayScale),
+            _ => {
+                return Err(ImageError::Unsupported(
+                    UnsupportedError::from_format_and_kind(
+                        ImageFormat::Tga.into(),
+                        UnsupportedErrorKind::Color(color_type),
+                    ),
+                ))
+            }
+        };
+
+        header.image_type = image_type as u8;
+        header.image_width = width;
+        header.image_height = height;
+        header.pixel_depth = num_alpha_bits + other_channel_bits;
+        header.image_desc = num_alpha_bits & ALPHA_BIT_MASK;
+        header.image_desc |= SCREEN_ORIGIN_BIT_MASK; // Upper left origin.
 
         Ok(header)
     }
-- 
2.43.0


From de0f08c7190c04589721df9816c90d7c3b3bf0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 65/96] fix: OpenEXR: refuse to encode images without pixels

---
 src/codecs/openexr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/codecs/openexr.rs b/src/codecs/openexr.rs
index 40a9875..91ed1c8 100644
--- a/src/codecs/openexr.rs
+++ b/src/codecs/openexr.rs
@@ -22,7 +22,9 @@
 //!     - (chroma) subsampling not supported yet by the exr library
 use exr::prelude::*;
 
-use crate::error::{DecodingError, EncodingError, ImageFormatHint};
+use crate::error::{
+    DecodingError, EncodingError, ImageFormatHint, ParameterError, ParameterErrorKind,
+};
 use crate::{
     ColorType, ExtendedColorType, ImageDecoder, ImageEncoder, ImageError, ImageFormat, ImageResult,
 };
@@ -227,6 +229,13 @@ fn write_buffer(
     let height = height as usize;
     let bytes_per_pixel = color_type.bits_per_pixel() as usize / 8;
 
+    // The data window includes its limits, hence at least one pixel.
+    if width == 0 || height == 0 {
+        return Err(ImageError::Parameter(ParameterError::from_kind(
+            ParameterErrorKind::DimensionMismatch,
+        )));
+    }
+
     match color_type {
         ExtendedColorType::Rgb32F => {
             Image // TODO compression method zip??
-- 
2.43.0


From dfc5efd71f3cebb378f3a89561c9fd4123eff641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 66/96] fix: AVIF: refuse to encode images without pixels

---
 src/codecs/avif/encoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codecs/avif/encoder.rs b/src/codecs/avif/encoder.rs
index 5ba8d9a..e2e397e 100644
--- a/src/codecs/avif/encoder.rs
+++ b/src/codecs/avif/encoder.rs
@@ -115,6 +115,13 @@ impl<W: Write> ImageEncoder for AvifEncoder<W> {
             data.len(),
         );
 
+        // `ravif` panics for images without pixels.
+        if width == 0 || height == 0 {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            )));
+        }
+
         self.set_color(color);
         // `ravif` needs strongly typed data so let's convert. We can either use a temporarily
         // owned version in our own buffer or zero-copy if possible by using the input buffer.
-- 
2.43.0


From 3e515d8bb9c1c42b14d5d214134b6a9942c52345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 67/96] fix: PNM: refuse samples above the maximum of the
 header whatever the colour type

---
 src/codecs/pnm/encoder.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 5f8b984..cd09301 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -460,20 +460,19 @@ impl<'a> CheckedHeaderColor<'a> {
             HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => maxval,
         };
 
-        // We trust the image color bit count to be correct at least.
-        let max_sample = match self.color {
-            ExtendedColorType::Unknown(n) if n <= 16 => (1 << n) - 1,
-            ExtendedColorType::L1 => 1,
-            ExtendedColorType::L8
+        match self.color {
+            ExtendedColorType::Unknown(n) if n <= 16 => (),
+            ExtendedColorType::L1
+            | ExtendedColorType::L8
             | ExtendedColorType::La8
             | ExtendedColorType::Rgb8
             | ExtendedColorType::Rgba8
             | ExtendedColorType::Bgr8
-            | ExtendedColorType::Bgra8 => 0xff,
-            ExtendedColorType::L16
+            | ExtendedColorType::Bgra8
+            | ExtendedColorType::L16
             | ExtendedColorType::La16
             | ExtendedColorType::Rgb16
-            | ExtendedColorType::Rgba16 => 0xffff,
+            | ExtendedColorType::Rgba16 => (),
             _ => {
                 // Unsupported target color type.
                 return Err(ImageError::Unsupported(
@@ -483,6 +482,12 @@ impl<'a> CheckedHeaderColor<'a> {
                     ),
                 ));
             }
+        }
+
+        // The bit count of the color does not limit the samples, which have whole bytes.
+        let max_sample = match image {
+            FlatSamples::U8(_) => 0xff,
+            FlatSamples::U16(_) => 0xffff,
         };
 
         // Avoid the performance heavy check if possible, e.g. if the header has been chosen by us.
-- 
2.43.0


From e09a47641f061814d817603ea826b5bc2102a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 68/96] fix: AVIF: clamp a quality or speed of zero to the
 documented range

---
 src/codecs/avif/encoder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/codecs/avif/encoder.rs b/src/codecs/avif/encoder.rs
index e2e397e..08710e2 100644
--- a/src/codecs/avif/encoder.rs
+++ b/src/codecs/avif/encoder.rs
@@ -4,7 +4,6 @@
 ///
 /// [AVIF]: https://aomediacodec.github.io/av1-avif/
 use std::borrow::Cow;
-use std::cmp::min;
 use std::io::Write;
 use std::mem::size_of;
 
@@ -65,8 +64,8 @@ impl<W: Write> AvifEncoder<W> {
     /// `quality` accepts a value in the range 1-100, where 1 is the worst and 100 is the best.
     pub fn new_with_speed_quality(w: W, speed: u8, quality: u8) -> Self {
         // Clamp quality and speed to range
-        let quality = min(quality, 100);
-        let speed = min(speed, 10);
+        let quality = quality.clamp(1, 100);
+        let speed = speed.clamp(1, 10);
 
         let encoder = Encoder::new()
             .with_quality(f32::from(quality))
-- 
2.43.0


From d4e2d9ace2b98358d114ec760e052cc63490fb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:36 +0000
Subject: [PATCH 69/96] fix: AVIF: take zero threads for the default instead of
 panicking

---
 src/codecs/avif/encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codecs/avif/encoder.rs b/src/codecs/avif/encoder.rs
index 08710e2..5f827e7 100644
--- a/src/codecs/avif/encoder.rs
+++ b/src/codecs/avif/encoder.rs
@@ -85,8 +85,9 @@ impl<W: Write> AvifEncoder<W> {
     }
 
     /// Configures `rayon` thread pool size.
-    /// The default `None` is to use all threads in the default `rayon` thread pool.
+    /// The default `None`, like zero, is to use all threads in the default `rayon` thread pool.
     pub fn with_num_threads(mut self, num_threads: Option<usize>) -> Self {
+        let num_threads = num_threads.filter(|&n| n > 0);
         self.encoder = self.encoder.with_num_threads(num_threads);
         self
     }
-- 
2.43.0


From 8b714971bf0432ebbb35171ccf14211debde8ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 70/96] fix: BMP: refuse to encode palettes that are empty or
 larger than 256 colours

---
 src/codecs/bmp/encoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index a8b4711..7b9eb19 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -62,6 +62,14 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             )));
         }
 
+        // A count of zero stands for the 256 colors that eight bits can select.
+        if palette.is_some_and(|palette| !(1..=256).contains(&palette.len())) {
+            return Err(ImageError::IoError(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "A palette must have between 1 and 256 colors.",
+            )));
+        }
+
         let expected_buffer_len = c.buffer_size(width, height);
         assert_eq!(
             expected_buffer_len,
-- 
2.43.0


From 66786f34002df7bd47ef6361e3545ab7af231891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 71/96] fix: AVIF: do not make slices of the missing chroma
 planes of monochrome pictures

---
 src/codecs/avif/decoder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 04e43f6..f9bf37d 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -360,12 +360,18 @@ impl<R: Read> ImageDecoder for AvifDecoder<R> {
             let ref_u = self.picture.plane(PlanarImageComponent::U);
             let ref_v = self.picture.plane(PlanarImageComponent::V);
 
+            // A monochrome picture has no chroma planes: their pointers are null.
+            let (u_plane, v_plane): (&[u8], &[u8]) = match self.picture.pixel_layout() {
+                PixelLayout::I400 => (&[], &[]),
+                _ => (ref_u.as_ref(), ref_v.as_ref()),
+            };
+
             let image = YuvPlanarImage {
                 y_plane: ref_y.as_ref(),
                 y_stride: self.picture.stride(PlanarImageComponent::Y) as usize,
-                u_plane: ref_u.as_ref(),
+                u_plane,
                 u_stride: self.picture.stride(PlanarImageComponent::U) as usize,
-                v_plane: ref_v.as_ref(),
+                v_plane,
                 v_stride: self.picture.stride(PlanarImageComponent::V) as usize,
                 width: width as usize,
                 height: height as usize,
-- 
2.43.0


From e06136652c2425c117c792e408a1fcceee988ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 72/96] fix: AVIF: SMPTE 170M matrix coefficients are those of
 BT.601

---
 src/codecs/avif/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index f9bf37d..036ec24 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -251,7 +251,7 @@ fn get_matrix(
         )),
         dav1d::pixel::MatrixCoefficients::BT470M => Ok(YuvStandardMatrix::Bt470_6),
         dav1d::pixel::MatrixCoefficients::BT470BG => Ok(YuvStandardMatrix::Bt601),
-        dav1d::pixel::MatrixCoefficients::ST170M => Ok(YuvStandardMatrix::Smpte240),
+        dav1d::pixel::MatrixCoefficients::ST170M => Ok(YuvStandardMatrix::Bt601),
         dav1d::pixel::MatrixCoefficients::ST240M => Ok(YuvStandardMatrix::Smpte240),
         // This is an experimental matrix in libavif yet.
         dav1d::pixel::MatrixCoefficients::YCgCo => Err(ImageError::Unsupported(
-- 
2.43.0


From 43cebbdcb2b88a7ec16f83867cf5e41cf00734a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 73/96] fix: AVIF: SMPTE 240M has KR = 0.212 and KB = 0.087

---
 src/codecs/avif/yuv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/yuv.rs b/src/codecs/avif/yuv.rs
index 62190c9..a21a7fe 100644
--- a/src/codecs/avif/yuv.rs
+++ b/src/codecs/avif/yuv.rs
@@ -225,8 +225,8 @@ impl YuvStandardMatrix {
                 kb: 0.0593f32,
             },
             YuvStandardMatrix::Smpte240 => YuvBias {
-                kr: 0.087f32,
-                kb: 0.212f32,
+                kr: 0.212f32,
+                kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
                 kr: 0.2220f32,
-- 
2.43.0


From 439176b272f64a0b6ecd7523b9787d5d250643e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 74/96] fix: AVIF: use the FCC luma coefficients of H.273 for
 matrix coefficients 4

---
 src/codecs/avif/yuv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/yuv.rs b/src/codecs/avif/yuv.rs
index a21a7fe..268ec61 100644
--- a/src/codecs/avif/yuv.rs
+++ b/src/codecs/avif/yuv.rs
@@ -229,8 +229,8 @@ impl YuvStandardMatrix {
                 kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
-                kr: 0.2220f32,
-                kb: 0.0713f32,
+                kr: 0.30f32,
+                kb: 0.11f32,
             },
             YuvStandardMatrix::Identity => unreachable!(),
         }
-- 
2.43.0


From af04cda307043658d0bec26330c4a9da6ac837e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 75/96] fix: AVIF: fill the low bits when expanding 10- and
 12-bit samples to 16 bits

---
 src/codecs/avif/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 036ec24..432cc36 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -549,9 +549,10 @@ impl<R: Read> AvifDecoder<R> {
         }
 
         // Expand current bit depth to target 16
-        let target_expand_bits = 16u32 - self.picture.bit_depth() as u32;
+        let bit_depth = self.picture.bit_depth() as u32;
+        let target_expand_bits = 16 - bit_depth;
         for item in target.iter_mut() {
-            *item = (*item << target_expand_bits) | (*item >> (16 - target_expand_bits));
+            *item = (*item << target_expand_bits) | (*item >> (bit_depth - target_expand_bits));
         }
 
         Ok(())
-- 
2.43.0


From da885f2916664ef2439f0a2f0b04d551de43274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 76/96] fix: AVIF: scale alpha planes whose bit depth differs
 from the picture

---
 src/codecs/avif/decoder.rs | 54 +++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 432cc36..3c7c635 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -140,6 +140,28 @@ impl Default for Plane16View<'_> {
     }
 }
 
+/// Samples of an alpha picture scaled to `bit_depth` bits, in rows of the picture's width
+fn rescale_alpha(picture: &dav1d::Picture, bit_depth: usize) -> Vec<u16> {
+    let (width, height) = (picture.width() as usize, picture.height() as usize);
+    let stride = picture.stride(PlanarImageComponent::Y) as usize;
+    let plane = picture.plane(PlanarImageComponent::Y);
+    let mut samples: Vec<u16> = if picture.bit_depth() == 8 {
+        plane
+            .as_ref()
+            .chunks_exact(stride)
+            .flat_map(|row| row[..width].iter().map(|&sample| u16::from(sample)))
+            .collect()
+    } else {
+        reshape_plane(plane.as_ref(), stride, width, height)
+    };
+    let source_max = (1u32 << picture.bit_depth()) - 1;
+    let target_max = (1u32 << bit_depth) - 1;
+    for sample in &mut samples {
+        *sample = ((u32::from(*sample) * target_max + source_max / 2) / source_max) as u16;
+    }
+    samples
+}
+
 /// This is correct to transmute FFI data for Y plane and Alpha plane
 fn transmute_y_plane16(
     plane: &dav1d::Plane,
@@ -395,6 +417,19 @@ impl<R: Read> ImageDecoder for AvifDecoder<R> {
                     )));
                 }
 
+                if picture.bit_depth() != bit_depth {
+                    let alpha = rescale_alpha(&picture, bit_depth);
+                    for (buf, slice) in Iterator::zip(
+                        buf.chunks_exact_mut(width as usize * 4),
+                        alpha.chunks_exact(picture.width() as usize),
+                    ) {
+                        for (rgba, a_src) in buf.chunks_exact_mut(4).zip(slice) {
+                            rgba[3] = *a_src as u8;
+                        }
+                    }
+                    return Ok(());
+                }
+
                 let stride = picture.stride(PlanarImageComponent::Y) as usize;
                 let plane = picture.plane(PlanarImageComponent::Y);
 
@@ -531,12 +566,19 @@ impl<R: Read> AvifDecoder<R> {
             }
 
             let a_dav1d_plane = picture.plane(PlanarImageComponent::Y);
-            let a_plane_view = transmute_y_plane16(
-                &a_dav1d_plane,
-                picture.stride(PlanarImageComponent::Y) as usize,
-                width as usize,
-                height as usize,
-            );
+            let a_plane_view = if picture.bit_depth() == bit_depth {
+                transmute_y_plane16(
+                    &a_dav1d_plane,
+                    picture.stride(PlanarImageComponent::Y) as usize,
+                    width as usize,
+                    height as usize,
+                )
+            } else {
+                Plane16View {
+                    data: std::borrow::Cow::Owned(rescale_alpha(picture, bit_depth)),
+                    stride: picture.width() as usize,
+                }
+            };
 
             for (buf, slice) in Iterator::zip(
                 target.chunks_exact_mut(width as usize * 4),
-- 
2.43.0


From 5e3024dbec04a6efbdd75550cdf6be77fb994424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:47 +0000
Subject: [PATCH 77/96] fix: TIFF: refuse separate planes, of which only the
 first is read

---
 src/codecs/tiff.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index dc05b20..e1dadbc 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -75,6 +75,23 @@ where
             }
         };
 
+        // `tiff` only reads the first of several planes.
+        let planar_configuration = inner
+            .find_tag(tiff::tags::Tag::PlanarConfiguration)
+            .map_err(ImageError::from_tiff_decode)?
+            .and_then(|v| v.into_u16().ok());
+        let planar = tiff::tags::PlanarConfiguration::Planar.to_u16();
+        if planar_configuration == Some(planar) && color_type.channel_count() > 1 {
+            return Err(ImageError::Unsupported(
+                UnsupportedError::from_format_and_kind(
+                    ImageFormat::Tiff.into(),
+                    UnsupportedErrorKind::GenericFeature(
+                        "TIFF images with separate planes".to_string(),
+                    ),
+                ),
+            ));
+        }
+
         let original_color_type = match tiff_color_type {
             tiff::ColorType::CMYK(8) => ExtendedColorType::Cmyk8,
             _ => color_type.into(),
-- 
2.43.0


From dcedfbf0526935e1fa95ce9b5e6820c27e974515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:18 +0000
Subject: [PATCH 78/96] fix: GIF: encode transparent pixels of different colors
 as transparent

---
 src/codecs/gif.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index 6152b4a..8ec6dd6 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -423,6 +423,15 @@ impl FrameInfo {
     }
 }
 
+/// Gives all transparent pixels the same color, as only one entry of the palette is transparent.
+fn unify_transparent_pixels(rgba: &mut [u8]) {
+    for pixel in rgba.chunks_exact_mut(4) {
+        if pixel[3] == 0 {
+            pixel.fill(0);
+        }
+    }
+}
+
 /// Number of repetitions for a GIF animation
 #[derive(Clone, Copy, Debug)]
 pub enum Repeat {
@@ -494,7 +503,9 @@ impl<W: Write> GifEncoder<W> {
         match color {
             ExtendedColorType::Rgb8 => self.encode_gif(Frame::from_rgb(width, height, data)),
             ExtendedColorType::Rgba8 => {
-                self.encode_gif(Frame::from_rgba(width, height, &mut data.to_owned()))
+                let mut data = data.to_owned();
+                unify_transparent_pixels(&mut data);
+                self.encode_gif(Frame::from_rgba(width, height, &mut data))
             }
             _ => Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
@@ -546,6 +557,8 @@ impl<W: Write> GifEncoder<W> {
         let mut rbga_frame = img_frame.into_buffer();
         let (width, height) = self.gif_dimensions(rbga_frame.width(), rbga_frame.height())?;
 
+        unify_transparent_pixels(&mut rbga_frame);
+
         // Create the gif::Frame from the animation::Frame
         let mut frame = Frame::from_rgba_speed(width, height, &mut rbga_frame, self.speed);
         // Saturate the conversion to u16::MAX instead of returning an error as that
-- 
2.43.0


From 10a2f136a23a063aeec07992a9965d2238c1ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 79/96] fix: GIF: encode frames at their offsets

---
 src/codecs/gif.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index 8ec6dd6..b014186 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -432,6 +432,13 @@ fn unify_transparent_pixels(rgba: &mut [u8]) {
     }
 }
 
+// TODO: this is not very idiomatic yet. Should be an EncodingError.
+fn dimension_mismatch() -> ImageError {
+    ImageError::Parameter(ParameterError::from_kind(
+        ParameterErrorKind::DimensionMismatch,
+    ))
+}
+
 /// Number of repetitions for a GIF animation
 #[derive(Clone, Copy, Debug)]
 pub enum Repeat {
@@ -553,6 +560,7 @@ impl<W: Write> GifEncoder<W> {
     ) -> ImageResult<Frame<'static>> {
         // get the delay before converting img_frame
         let frame_delay = img_frame.delay().into_ratio().to_integer();
+        let (left, top) = (img_frame.left(), img_frame.top());
         // convert img_frame into RgbaImage
         let mut rbga_frame = img_frame.into_buffer();
         let (width, height) = self.gif_dimensions(rbga_frame.width(), rbga_frame.height())?;
@@ -566,6 +574,10 @@ impl<W: Write> GifEncoder<W> {
         // likely couldn't be reused for other cases. This isn't a bad trade-off given
         // that the current algorithm is already lossy.
         frame.delay = (frame_delay / 10).try_into().unwrap_or(u16::MAX);
+        (frame.left, frame.top) = match (left.try_into(), top.try_into()) {
+            (Ok(left), Ok(top)) => (left, top),
+            _ => return Err(dimension_mismatch()),
+        };
 
         Ok(frame)
     }
@@ -578,12 +590,7 @@ impl<W: Write> GifEncoder<W> {
             (width > 0 && height > 0).then_some((width, height))
         }
 
-        // TODO: this is not very idiomatic yet. Should return an EncodingError.
-        inner_dimensions(width, height).ok_or_else(|| {
-            ImageError::Parameter(ParameterError::from_kind(
-                ParameterErrorKind::DimensionMismatch,
-            ))
-        })
+        inner_dimensions(width, height).ok_or_else(dimension_mismatch)
     }
 
     pub(crate) fn encode_gif(&mut self, mut frame: Frame) -> ImageResult<()> {
@@ -591,9 +598,17 @@ impl<W: Write> GifEncoder<W> {
         if let Some(ref mut encoder) = self.gif_encoder {
             gif_encoder = encoder;
         } else {
+            // The logical screen has room for the first frame at its offset.
+            let size = (
+                frame.left.checked_add(frame.width),
+                frame.top.checked_add(frame.height),
+            );
+            let (Some(width), Some(height)) = size else {
+                return Err(dimension_mismatch());
+            };
             let writer = self.w.take().unwrap();
-            let mut encoder = gif::Encoder::new(writer, frame.width, frame.height, &[])
-                .map_err(ImageError::from_encoding)?;
+            let mut encoder =
+                gif::Encoder::new(writer, width, height, &[]).map_err(ImageError::from_encoding)?;
             if let Some(ref repeat) = self.repeat {
                 encoder
                     .set_repeat(repeat.to_gif_enum())
-- 
2.43.0


From 5d6fc14b084583cffc58c89965bb41e124e46c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:53 +0000
Subject: [PATCH 80/96] fix: JPEG: encode images correctly after the first one
 of an encoder

---
 src/codecs/jpeg/encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index 0543dd4..2f851df 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -515,6 +515,10 @@ impl<W: Write> JpegEncoder<W> {
             )));
         }
 
+        // Bits left from the padding of an earlier image do not belong to this one.
+        self.writer.accumulator = 0;
+        self.writer.nbits = 0;
+
         self.writer.write_marker(SOI)?;
 
         let mut buf = Vec::new();
-- 
2.43.0


From c5875dc3bed56148c1d11ed96ad26fde16fa0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 81/96] fix: ICO: refuse images whose offsets do not fit the
 directory

---
 src/codecs/ico/encoder.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/codecs/ico/encoder.rs b/src/codecs/ico/encoder.rs
index 7c51996..dd06f73 100644
--- a/src/codecs/ico/encoder.rs
+++ b/src/codecs/ico/encoder.rs
@@ -105,19 +105,33 @@ impl<W: Write> IcoEncoder<W> {
         }
         let num_images = images.len() as u16;
 
-        let mut offset = ICO_ICONDIR_SIZE + (ICO_DIRENTRY_SIZE * (images.len() as u32));
-        write_icondir(&mut self.w, num_images)?;
+        // The directory stores offsets and lengths in 32 bits.
+        let mut offset = u64::from(ICO_ICONDIR_SIZE + ICO_DIRENTRY_SIZE * u32::from(num_images));
+        let mut entries = Vec::with_capacity(images.len());
         for image in images {
+            let size = image.encoded_image.len() as u64;
+            let (Ok(data_start), Ok(data_size)) = (u32::try_from(offset), u32::try_from(size))
+            else {
+                return Err(ImageError::Parameter(ParameterError::from_kind(
+                    ParameterErrorKind::Generic(
+                        "the images are too large for an ICO file".to_string(),
+                    ),
+                )));
+            };
+            entries.push((data_start, data_size));
+            offset += size;
+        }
+
+        write_icondir(&mut self.w, num_images)?;
+        for (image, (data_start, data_size)) in images.iter().zip(entries) {
             write_direntry(
                 &mut self.w,
                 image.width,
                 image.height,
                 image.color_type,
-                offset,
-                image.encoded_image.len() as u32,
+                data_start,
+                data_size,
             )?;
-
-            offset += image.encoded_image.len() as u32;
         }
         for image in images {
             self.w.write_all(&image.encoded_image)?;
-- 
2.43.0


From e82faf188c6de77c919b1a76e7deb8b86fcd61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:00 +0000
Subject: [PATCH 82/96] fix: sample pixels of images wider or higher than 2^24
 in bounds and with the right weights

---
 src/imageops/sample.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 51de5a9..d2464b9 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -381,7 +381,10 @@ pub fn interpolate_nearest<P: Pixel>(
         return None;
     }
 
-    Some(img.get_pixel(x.round() as u32, y.round() as u32))
+    // Large dimensions may round up when converted to floats.
+    let xi = (x.round() as u32).min(w - 1);
+    let yi = (y.round() as u32).min(h - 1);
+    Some(img.get_pixel(xi, yi))
 }
 
 /// Linearly sample from an image using coordinates in [0, w-1] and [0, h-1].
@@ -405,8 +408,9 @@ pub fn interpolate_bilinear<P: Pixel>(
     }
 
     // keep these as integers, for fewer FLOPs
-    let uf = x.floor() as u32;
-    let vf = y.floor() as u32;
+    // (large dimensions may round up when converted to floats)
+    let uf = (x.floor() as u32).min(w - 1);
+    let vf = (y.floor() as u32).min(h - 1);
     let uc = (uf + 1).min(w - 1);
     let vc = (vf + 1).min(h - 1);
 
@@ -434,11 +438,11 @@ pub fn interpolate_bilinear<P: Pixel>(
     compute(uc, vf, 2);
     compute(uc, vc, 3);
 
-    // weights, the later two are independent from the first 2 for better vectorization.
+    // weights, computed from the fractions because `uf + 1` need not be a float.
     let ufw = x - uf as f32;
     let vfw = y - vf as f32;
-    let ucw = (uf + 1) as f32 - x;
-    let vcw = (vf + 1) as f32 - y;
+    let ucw = 1. - ufw;
+    let vcw = 1. - vfw;
 
     // https://en.wikipedia.org/wiki/Bilinear_interpolation#Weighted_mean
     // the distance between pixels is 1 so there is no denominator
-- 
2.43.0


From 7386b4dbee51d82d3f5488bdf2b85f9204a91d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:18 +0000
Subject: [PATCH 83/96] fix: BMP: refuse to encode images whose sizes do not
 fit the header

---
 src/codecs/bmp/encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index 7b9eb19..cf80b15 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -78,8 +78,8 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             image.len(),
         );
 
-        // Neither dimension of a bitmap may be zero.
-        if width == 0 || height == 0 {
+        // Neither dimension of a bitmap may be zero, and both are signed.
+        if width == 0 || height == 0 || i32::try_from(width.max(height)).is_err() {
             return Err(ImageError::Parameter(ParameterError::from_kind(
                 ParameterErrorKind::DimensionMismatch,
             )));
@@ -89,11 +89,11 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
 
         let (dib_header_size, written_pixel_size, palette_color_count) =
             get_pixel_info(c, palette)?;
-        let row_pad_size = (4 - (width * written_pixel_size) % 4) % 4; // each row must be padded to a multiple of 4 bytes
+        let row_pad_size = (4 - width.wrapping_mul(written_pixel_size) % 4) % 4; // each row must be padded to a multiple of 4 bytes
         let image_size = width
             .checked_mul(height)
             .and_then(|v| v.checked_mul(written_pixel_size))
-            .and_then(|v| v.checked_add(height * row_pad_size))
+            .and_then(|v| v.checked_add(height.checked_mul(row_pad_size)?))
             .ok_or_else(|| {
                 ImageError::Parameter(ParameterError::from_kind(
                     ParameterErrorKind::DimensionMismatch,
-- 
2.43.0


From c6e46a39a0ddfb3775a7c3abe4c92a7b5a761f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:57 +0000
Subject: [PATCH 84/96] fix: farbfeld: report failures to read the header as
 I/O errors

---
 src/codecs/farbfeld.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/codecs/farbfeld.rs b/src/codecs/farbfeld.rs
index 32fdbc9..92cf36c 100644
--- a/src/codecs/farbfeld.rs
+++ b/src/codecs/farbfeld.rs
@@ -39,16 +39,12 @@ impl<R: Read> FarbfeldReader<R> {
     fn new(mut buffered_read: R) -> ImageResult<FarbfeldReader<R>> {
         fn read_dimm<R: Read>(from: &mut R) -> ImageResult<u32> {
             let mut buf = [0u8; 4];
-            from.read_exact(&mut buf).map_err(|err| {
-                ImageError::Decoding(DecodingError::new(ImageFormat::Farbfeld.into(), err))
-            })?;
+            from.read_exact(&mut buf)?;
             Ok(u32::from_be_bytes(buf))
         }
 
         let mut magic = [0u8; 8];
-        buffered_read.read_exact(&mut magic).map_err(|err| {
-            ImageError::Decoding(DecodingError::new(ImageFormat::Farbfeld.into(), err))
-        })?;
+        buffered_read.read_exact(&mut magic)?;
         if &magic != b"farbfeld" {
             return Err(ImageError::Decoding(DecodingError::new(
                 ImageFormat::Farbfeld.into(),
-- 
2.43.0


From dac44c2ebec6ed71bfdd4d18556b23cb9c17c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:58 +0000
Subject: [PATCH 85/96] fix: QOI: report failures to read as I/O errors

---
 src/codecs/qoi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codecs/qoi.rs b/src/codecs/qoi.rs
index c3b81eb..6fdb759 100644
--- a/src/codecs/qoi.rs
+++ b/src/codecs/qoi.rs
@@ -46,7 +46,10 @@ impl<R: Read> ImageDecoder for QoiDecoder<R> {
 }
 
 fn decoding_error(error: qoi::Error) -> ImageError {
-    ImageError::Decoding(DecodingError::new(ImageFormat::Qoi.into(), error))
+    match error {
+        qoi::Error::IoError(error) => ImageError::IoError(error),
+        error => ImageError::Decoding(DecodingError::new(ImageFormat::Qoi.into(), error)),
+    }
 }
 
 fn encoding_error(error: qoi::Error) -> ImageError {
-- 
2.43.0


From a25de9eb7aa926a959464473b4ff417048a0dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:59 +0000
Subject: [PATCH 86/96] fix: OpenEXR: report failures to read or write as I/O
 errors, and of encoding as such

---
 src/codecs/openexr.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/codecs/openexr.rs b/src/codecs/openexr.rs
index 91ed1c8..aa2ab16 100644
--- a/src/codecs/openexr.rs
+++ b/src/codecs/openexr.rs
@@ -255,7 +255,7 @@ fn write_buffer(
             .write()
             // .on_progress(|progress| todo!())
             .to_buffered(&mut buffered_write)
-            .map_err(to_image_err)?;
+            .map_err(to_encoding_err)?;
         }
 
         ExtendedColorType::Rgba32F => {
@@ -276,7 +276,7 @@ fn write_buffer(
             .write()
             // .on_progress(|progress| todo!())
             .to_buffered(&mut buffered_write)
-            .map_err(to_image_err)?;
+            .map_err(to_encoding_err)?;
         }
 
         // TODO other color types and channel types
@@ -333,10 +333,23 @@ where
 }
 
 fn to_image_err(exr_error: Error) -> ImageError {
-    ImageError::Decoding(DecodingError::new(
-        ImageFormatHint::Exact(ImageFormat::OpenExr),
-        exr_error.to_string(),
-    ))
+    match exr_error {
+        Error::Io(error) => ImageError::IoError(error),
+        error => ImageError::Decoding(DecodingError::new(
+            ImageFormatHint::Exact(ImageFormat::OpenExr),
+            error.to_string(),
+        )),
+    }
+}
+
+fn to_encoding_err(exr_error: Error) -> ImageError {
+    match exr_error {
+        Error::Io(error) => ImageError::IoError(error),
+        error => ImageError::Encoding(EncodingError::new(
+            ImageFormatHint::Exact(ImageFormat::OpenExr),
+            error.to_string(),
+        )),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From a3c959f1c8675dd2952239266cac6bae7d650cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:00 +0000
Subject: [PATCH 87/96] fix: AVIF: report failures to read as I/O errors

---
 src/codecs/avif/decoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codecs/avif/decoder.rs b/src/codecs/avif/decoder.rs
index 3c7c635..03c36f9 100644
--- a/src/codecs/avif/decoder.rs
+++ b/src/codecs/avif/decoder.rs
@@ -67,7 +67,10 @@ impl Error for AvifDecoderError {}
 impl<R: Read> AvifDecoder<R> {
     /// Create a new decoder that reads its input from `r`.
     pub fn new(mut r: R) -> ImageResult<Self> {
-        let ctx = read_avif(&mut r, ParseStrictness::Normal).map_err(error_map)?;
+        let ctx = read_avif(&mut r, ParseStrictness::Normal).map_err(|err| match err {
+            mp4parse::Error::Io(err) => ImageError::IoError(err),
+            err => error_map(err),
+        })?;
         let coded = ctx.primary_item_coded_data().unwrap_or_default();
 
         let mut primary_decoder = dav1d::Decoder::new().map_err(error_map)?;
-- 
2.43.0


From 84c83043d0fd3748dc43c32d9cf702922d50017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:01 +0000
Subject: [PATCH 88/96] fix: PNG: report errors of the encoder for what they
 are

---
 src/codecs/png.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index a5b0989..339135b 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -622,7 +622,7 @@ impl<W: Write> PngEncoder<W> {
         }
 
         let mut encoder =
-            png::Encoder::with_info(self.w, info).map_err(|e| ImageError::IoError(e.into()))?;
+            png::Encoder::with_info(self.w, info).map_err(ImageError::from_png_encoding)?;
 
         encoder.set_color(ct);
         encoder.set_depth(bits);
@@ -631,12 +631,12 @@ impl<W: Write> PngEncoder<W> {
         encoder.set_adaptive_filter(adaptive_filter);
         let mut writer = encoder
             .write_header()
-            .map_err(|e| ImageError::IoError(e.into()))?;
+            .map_err(ImageError::from_png_encoding)?;
         writer
             .write_image_data(data)
-            .map_err(|e| ImageError::IoError(e.into()))?;
+            .map_err(ImageError::from_png_encoding)?;
         // Dropping the writer would ignore errors of writing the end of the file.
-        writer.finish().map_err(|e| ImageError::IoError(e.into()))
+        writer.finish().map_err(ImageError::from_png_encoding)
     }
 }
 
@@ -698,6 +698,22 @@ impl<W: Write> ImageEncoder for PngEncoder<W> {
 }
 
 impl ImageError {
+    fn from_png_encoding(err: png::EncodingError) -> ImageError {
+        use png::EncodingError::*;
+        match err {
+            IoError(err) => ImageError::IoError(err),
+            err @ Format(_) => {
+                ImageError::Encoding(EncodingError::new(ImageFormat::Png.into(), err))
+            }
+            err @ Parameter(_) => ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::Generic(err.to_string()),
+            )),
+            LimitsExceeded => {
+                ImageError::Limits(LimitError::from_kind(LimitErrorKind::InsufficientMemory))
+            }
+        }
+    }
+
     fn from_png(err: png::DecodingError) -> ImageError {
         use png::DecodingError::*;
         match err {
-- 
2.43.0


From 0379b8d85b5bb75e2b64c83559f14e3618452bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:02 +0000
Subject: [PATCH 89/96] fix: BMP: report unsupported color types and palettes
 as such, not as I/O errors

---
 src/codecs/bmp/encoder.rs | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index cf80b15..a2f05d5 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -3,6 +3,7 @@ use std::io::{self, Write};
 
 use crate::error::{
     EncodingError, ImageError, ImageFormatHint, ImageResult, ParameterError, ParameterErrorKind,
+    UnsupportedError, UnsupportedErrorKind,
 };
 use crate::image::ImageEncoder;
 use crate::{ExtendedColorType, ImageFormat};
@@ -54,19 +55,19 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
         palette: Option<&[[u8; 3]]>,
     ) -> ImageResult<()> {
         if palette.is_some() && c != ExtendedColorType::L8 && c != ExtendedColorType::La8 {
-            return Err(ImageError::IoError(io::Error::new(
-                io::ErrorKind::InvalidInput,
-                format!(
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::Generic(format!(
                     "Unsupported color type {c:?} when using a non-empty palette. Supported types: Gray(8), GrayA(8)."
-                ),
+                )),
             )));
         }
 
         // A count of zero stands for the 256 colors that eight bits can select.
         if palette.is_some_and(|palette| !(1..=256).contains(&palette.len())) {
-            return Err(ImageError::IoError(io::Error::new(
-                io::ErrorKind::InvalidInput,
-                "A palette must have between 1 and 256 colors.",
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::Generic(
+                    "A palette must have between 1 and 256 colors.".to_owned(),
+                ),
             )));
         }
 
@@ -162,12 +163,7 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             ExtendedColorType::La8 => {
                 self.encode_gray(image, width, height, row_pad_size, 2, palette)?;
             }
-            _ => {
-                return Err(ImageError::IoError(io::Error::new(
-                    io::ErrorKind::InvalidInput,
-                    &get_unsupported_error_message(c)[..],
-                )))
-            }
+            _ => return Err(unsupported_color_type(c)),
         }
 
         Ok(())
@@ -300,15 +296,18 @@ impl<W: Write> ImageEncoder for BmpEncoder<'_, W> {
     }
 }
 
-fn get_unsupported_error_message(c: ExtendedColorType) -> String {
-    format!("Unsupported color type {c:?}.  Supported types: RGB(8), RGBA(8), Gray(8), GrayA(8).")
+fn unsupported_color_type(c: ExtendedColorType) -> ImageError {
+    ImageError::Unsupported(UnsupportedError::from_format_and_kind(
+        ImageFormat::Bmp.into(),
+        UnsupportedErrorKind::Color(c),
+    ))
 }
 
 /// Returns a tuple representing: (dib header size, written pixel size, palette color count).
 fn get_pixel_info(
     c: ExtendedColorType,
     palette: Option<&[[u8; 3]]>,
-) -> io::Result<(u32, u32, u32)> {
+) -> ImageResult<(u32, u32, u32)> {
     let sizes = match c {
         ExtendedColorType::Rgb8 => (BITMAPINFOHEADER_SIZE, 3, 0),
         ExtendedColorType::Rgba8 => (BITMAPV4HEADER_SIZE, 4, 0),
@@ -322,12 +321,7 @@ fn get_pixel_info(
             1,
             palette.map(|p| p.len()).unwrap_or(256) as u32,
         ),
-        _ => {
-            return Err(io::Error::new(
-                io::ErrorKind::InvalidInput,
-                &get_unsupported_error_message(c)[..],
-            ))
-        }
+        _ => return Err(unsupported_color_type(c)),
     };
 
     Ok(sizes)
-- 
2.43.0


From 37ea28c91425d23d6a647c164c380a8a861300b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:41 +0000
Subject: [PATCH 90/96] fix: TGA: report invalid color maps and indices as
 decoding errors

---
 src/codecs/tga/decoder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 06a44ad..31f95c4 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -4,7 +4,8 @@ use super::header::{
 use crate::{
     color::{ColorType, ExtendedColorType},
     error::{
-        ImageError, ImageResult, LimitError, LimitErrorKind, UnsupportedError, UnsupportedErrorKind,
+        DecodingError, ImageError, ImageResult, LimitError, LimitErrorKind, UnsupportedError,
+        UnsupportedErrorKind,
     },
     image::{ImageDecoder, ImageFormat},
 };
@@ -209,7 +210,7 @@ impl<R: Read> TgaDecoder<R> {
     }
 
     /// Expands indices into its mapped color
-    fn expand_color_map(&self, pixel_data: &[u8]) -> io::Result<Vec<u8>> {
+    fn expand_color_map(&self, pixel_data: &[u8]) -> ImageResult<Vec<u8>> {
         #[inline]
         fn bytes_to_index(bytes: &[u8]) -> usize {
             let mut result = 0usize;
@@ -219,24 +220,28 @@ impl<R: Read> TgaDecoder<R> {
             result
         }
 
+        let invalid = |message: &str| {
+            ImageError::Decoding(DecodingError::new(ImageFormat::Tga.into(), message))
+        };
+
         let bytes_per_entry = (self.header.map_entry_size as usize + 7) / 8;
         let mut result = Vec::with_capacity(self.width * self.height * bytes_per_entry);
 
         if self.bytes_per_pixel == 0 {
-            return Err(io::ErrorKind::Other.into());
+            return Err(invalid("color map indices of no bits"));
         }
 
         let color_map = self
             .color_map
             .as_ref()
-            .ok_or_else(|| io::Error::from(io::ErrorKind::Other))?;
+            .ok_or_else(|| invalid("missing color map"))?;
 
         for chunk in pixel_data.chunks(self.bytes_per_pixel) {
             let index = bytes_to_index(chunk);
             if let Some(color) = color_map.get(index) {
                 result.extend_from_slice(color);
             } else {
-                return Err(io::ErrorKind::Other.into());
+                return Err(invalid("index outside the color map"));
             }
         }
 
-- 
2.43.0


From 2ee3112debcbff1873edf1ce090eb48a8f66f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:42 +0000
Subject: [PATCH 91/96] fix: JPEG: report an ICC profile too large as a
 parameter error

---
 src/codecs/jpeg/encoder.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index 2f851df..2103ea6 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -684,7 +684,7 @@ impl<W: Write> JpegEncoder<W> {
         Ok(())
     }
 
-    fn write_icc_profile_chunks(&mut self) -> io::Result<()> {
+    fn write_icc_profile_chunks(&mut self) -> ImageResult<()> {
         if self.icc_profile.is_empty() {
             return Ok(());
         }
@@ -694,10 +694,9 @@ impl<W: Write> JpegEncoder<W> {
         const MAX_ICC_PROFILE_SIZE: usize = MAX_CHUNK_SIZE * MAX_CHUNK_COUNT;
 
         if self.icc_profile.len() > MAX_ICC_PROFILE_SIZE {
-            return Err(io::Error::new(
-                io::ErrorKind::InvalidInput,
-                "ICC profile too large",
-            ));
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::Generic("ICC profile too large".to_owned()),
+            )));
         }
 
         let chunk_iter = self.icc_profile.chunks(MAX_CHUNK_SIZE);
-- 
2.43.0


From 01e82c9c7fd13ec7ace6cf9571550a544a1b3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:55 +0000
Subject: [PATCH 92/96] fix: saturate samples of 32 and 64 bits instead of
 panicking

The maxima of these types round up when converted to floats, so that results
clamped to them did not convert back.
---
 src/color.rs              | 13 +++++++------
 src/imageops/colorops.rs  | 26 +++++++++++++-------------
 src/imageops/fast_blur.rs |  3 ++-
 src/imageops/sample.rs    | 21 +++++++++++----------
 src/utils/mod.rs          | 19 +++++++++++++++++++
 5 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 6cde10c..2206d6d 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -3,6 +3,7 @@ use std::ops::{Index, IndexMut};
 use num_traits::{NumCast, ToPrimitive, Zero};
 
 use crate::traits::{Enlargeable, Pixel, Primitive};
+use crate::utils::saturating_cast;
 
 /// An enumeration over supported color types and bit depths
 #[derive(Copy, PartialEq, Eq, Debug, Clone, Hash)]
@@ -785,8 +786,8 @@ impl<T: Primitive> Blend for LumaA<T> {
         let out_luma = out_luma_a / alpha_final;
 
         *self = LumaA([
-            NumCast::from(max_t * out_luma).unwrap(),
-            NumCast::from(max_t * alpha_final).unwrap(),
+            saturating_cast(max_t * out_luma),
+            saturating_cast(max_t * alpha_final),
         ]);
     }
 }
@@ -853,10 +854,10 @@ impl<T: Primitive> Blend for Rgba<T> {
 
         // Cast back to our initial type on return
         *self = Rgba([
-            NumCast::from(max_t * out_r).unwrap(),
-            NumCast::from(max_t * out_g).unwrap(),
-            NumCast::from(max_t * out_b).unwrap(),
-            NumCast::from(max_t * alpha_final).unwrap(),
+            saturating_cast(max_t * out_r),
+            saturating_cast(max_t * out_g),
+            saturating_cast(max_t * out_b),
+            saturating_cast(max_t * alpha_final),
         ]);
     }
 }
diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 1962fdc..c1f7c5f 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -5,7 +5,7 @@ use num_traits::NumCast;
 use crate::color::{FromColor, IntoColor, Luma, LumaA};
 use crate::image::{GenericImage, GenericImageView};
 use crate::traits::{Pixel, Primitive};
-use crate::utils::clamp;
+use crate::utils::{clamp, saturating_cast};
 use crate::ImageBuffer;
 
 type Subpixel<I> = <<I as GenericImageView>::Pixel as Pixel>::Subpixel;
@@ -107,7 +107,7 @@ where
             let d = ((c / max - 0.5) * percent + 0.5) * max;
             let e = clamp(d, 0.0, max);
 
-            NumCast::from(e).unwrap()
+            saturating_cast(e)
         });
         out.put_pixel(x, y, f);
     }
@@ -141,7 +141,7 @@ where
                 let d = ((c / max - 0.5) * percent + 0.5) * max;
                 let e = clamp(d, 0.0, max);
 
-                NumCast::from(e).unwrap()
+                saturating_cast(e)
             });
 
             image.put_pixel(x, y, f);
@@ -172,7 +172,7 @@ where
                 let c: f64 = NumCast::from(b).unwrap();
                 let d = clamp(c + <f64 as From<_>>::from(value), 0.0, max);
 
-                NumCast::from(d).unwrap()
+                saturating_cast(d)
             },
             |alpha| alpha,
         );
@@ -204,7 +204,7 @@ where
                     let c: f64 = NumCast::from(b).unwrap();
                     let d = clamp(c + <f64 as From<_>>::from(value), 0.0, max);
 
-                    NumCast::from(d).unwrap()
+                    saturating_cast(d)
                 },
                 |alpha| alpha,
             );
@@ -277,10 +277,10 @@ where
 
         #[allow(deprecated)]
         let outpixel = Pixel::from_channels(
-            NumCast::from(clamp(new_r + half, 0.0, max)).unwrap(),
-            NumCast::from(clamp(new_g + half, 0.0, max)).unwrap(),
-            NumCast::from(clamp(new_b + half, 0.0, max)).unwrap(),
-            NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
+            saturating_cast(clamp(new_r + half, 0.0, max)),
+            saturating_cast(clamp(new_g + half, 0.0, max)),
+            saturating_cast(clamp(new_b + half, 0.0, max)),
+            saturating_cast(clamp(vec.3, 0.0, max)),
         );
         *pixel = outpixel;
     }
@@ -353,10 +353,10 @@ where
 
             #[allow(deprecated)]
             let outpixel = Pixel::from_channels(
-                NumCast::from(clamp(new_r + half, 0.0, max)).unwrap(),
-                NumCast::from(clamp(new_g + half, 0.0, max)).unwrap(),
-                NumCast::from(clamp(new_b + half, 0.0, max)).unwrap(),
-                NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
+                saturating_cast(clamp(new_r + half, 0.0, max)),
+                saturating_cast(clamp(new_g + half, 0.0, max)),
+                saturating_cast(clamp(new_b + half, 0.0, max)),
+                saturating_cast(clamp(vec.3, 0.0, max)),
             );
 
             image.put_pixel(x, y, outpixel);
diff --git a/src/imageops/fast_blur.rs b/src/imageops/fast_blur.rs
index 569631d..1c84359 100644
--- a/src/imageops/fast_blur.rs
+++ b/src/imageops/fast_blur.rs
@@ -1,5 +1,6 @@
 use num_traits::clamp;
 
+use crate::utils::saturating_cast;
 use crate::{ImageBuffer, Pixel, Primitive};
 
 /// Approximation of Gaussian blur after
@@ -108,7 +109,7 @@ fn horizontal_fast_blur_half<P: Primitive>(
             for (channel, channel_val) in vals.iter_mut().enumerate() {
                 let val = *channel_val / (2.0 * r as f64 + 1.0);
                 let val = clamp(val, min_value, max_value);
-                let val = P::from(val).unwrap();
+                let val = saturating_cast(val);
 
                 let destination_row = column;
                 let destination_column = row;
diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index d2464b9..5be6df5 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -11,7 +11,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::image::{GenericImage, GenericImageView};
 use crate::traits::{Enlargeable, Pixel, Primitive};
-use crate::utils::clamp;
+use crate::utils::{clamp, saturating_cast};
 use crate::{ImageBuffer, Rgba32FImage};
 
 /// Available Sampling Filters.
@@ -108,6 +108,7 @@ pub(crate) struct Filter<'a> {
     pub(crate) support: f32,
 }
 
+#[derive(Clone, Copy, Default, PartialEq, PartialOrd)]
 struct FloatNearest(f32);
 
 // to_i64, to_u64, and to_f64 implicitly affect all other lower conversions.
@@ -303,10 +304,10 @@ where
 
             #[allow(deprecated)]
             let t = Pixel::from_channels(
-                NumCast::from(FloatNearest(clamp(t.0, min, max))).unwrap(),
-                NumCast::from(FloatNearest(clamp(t.1, min, max))).unwrap(),
-                NumCast::from(FloatNearest(clamp(t.2, min, max))).unwrap(),
-                NumCast::from(FloatNearest(clamp(t.3, min, max))).unwrap(),
+                saturating_cast(FloatNearest(clamp(t.0, min, max))),
+                saturating_cast(FloatNearest(clamp(t.1, min, max))),
+                saturating_cast(FloatNearest(clamp(t.2, min, max))),
+                saturating_cast(FloatNearest(clamp(t.3, min, max))),
             );
 
             out.put_pixel(outx, y, t);
@@ -926,10 +927,10 @@ where
 
             #[allow(deprecated)]
             let t = Pixel::from_channels(
-                NumCast::from(t1.max(0.0).min(max)).unwrap(),
-                NumCast::from(t2.max(0.0).min(max)).unwrap(),
-                NumCast::from(t3.max(0.0).min(max)).unwrap(),
-                NumCast::from(t4.max(0.0).min(max)).unwrap(),
+                saturating_cast(t1.max(0.0).min(max)),
+                saturating_cast(t2.max(0.0).min(max)),
+                saturating_cast(t3.max(0.0).min(max)),
+                saturating_cast(t4.max(0.0).min(max)),
             );
 
             out.put_pixel(x, y, t);
@@ -1067,7 +1068,7 @@ where
                 if diff.abs() > <f64 as From<_>>::from(threshold) {
                     let e = clamp(ic + diff, 0.0, max);
 
-                    NumCast::from(e).unwrap()
+                    saturating_cast(e)
                 } else {
                     c
                 }
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 0a048d3..b2d75a5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -1,5 +1,6 @@
 //!  Utilities
 
+use num_traits::{Bounded, ToPrimitive};
 use std::iter::repeat;
 
 #[inline(always)]
@@ -92,6 +93,24 @@ where
     }
 }
 
+/// Convert the result of a computation in floating point back to a sample. A number outside the
+/// range of the type becomes the nearest bound, as the bounds themselves can be: the maxima of
+/// types of 32 bits and more round up when converted to floats.
+#[inline]
+pub(crate) fn saturating_cast<F, N>(value: F) -> N
+where
+    F: ToPrimitive + PartialOrd + Default + Copy,
+    N: num_traits::NumCast + Bounded,
+{
+    <N as num_traits::NumCast>::from(value).unwrap_or_else(|| {
+        if value > F::default() {
+            N::max_value()
+        } else {
+            N::min_value()
+        }
+    })
+}
+
 #[cfg(test)]
 mod test {
     #[test]
-- 
2.43.0


From f977494c15e095a4fefa14818f3289af795da54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:08 +0000
Subject: [PATCH 93/96] fix: invert samples of signed types without overflowing

---
 src/color.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 2206d6d..ab19e11 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -874,12 +874,23 @@ pub(crate) trait Invert {
     fn invert(&mut self);
 }
 
+/// Reflect a sample in the middle of its range, which is not positive throughout for signed types.
+fn invert<T: Primitive>(sample: T) -> T {
+    let (min, max) = (T::DEFAULT_MIN_VALUE, T::DEFAULT_MAX_VALUE);
+
+    // `min + max - sample` in an order that does not overflow
+    if sample < T::zero() {
+        (min - sample) + max
+    } else {
+        (max - sample) + min
+    }
+}
+
 impl<T: Primitive> Invert for LumaA<T> {
     fn invert(&mut self) {
         let l = self.0;
-        let max = T::DEFAULT_MAX_VALUE;
 
-        *self = LumaA([max - l[0], l[1]]);
+        *self = LumaA([invert(l[0]), l[1]]);
     }
 }
 
@@ -887,8 +898,7 @@ impl<T: Primitive> Invert for Luma<T> {
     fn invert(&mut self) {
         let l = self.0;
 
-        let max = T::DEFAULT_MAX_VALUE;
-        let l1 = max - l[0];
+        let l1 = invert(l[0]);
 
         *self = Luma([l1]);
     }
@@ -898,9 +908,7 @@ impl<T: Primitive> Invert for Rgba<T> {
     fn invert(&mut self) {
         let rgba = self.0;
 
-        let max = T::DEFAULT_MAX_VALUE;
-
-        *self = Rgba([max - rgba[0], max - rgba[1], max - rgba[2], rgba[3]]);
+        *self = Rgba([invert(rgba[0]), invert(rgba[1]), invert(rgba[2]), rgba[3]]);
     }
 }
 
@@ -908,11 +916,9 @@ impl<T: Primitive> Invert for Rgb<T> {
     fn invert(&mut self) {
         let rgb = self.0;
 
-        let max = T::DEFAULT_MAX_VALUE;
-
-        let r1 = max - rgb[0];
-        let g1 = max - rgb[1];
-        let b1 = max - rgb[2];
+        let r1 = invert(rgb[0]);
+        let g1 = invert(rgb[1]);
+        let b1 = invert(rgb[2]);
 
         *self = Rgb([r1, g1, b1]);
     }
-- 
2.43.0


From 59f5128fd8644a1296c52b5c66ecab929bad8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:57 +0000
Subject: [PATCH 94/96] fix: thumbnails of signed samples, and of samples of 32
 and 64 bits

Averages of negative samples were rounded the wrong way, and those at the ends of the range of types of 32 bits and more, which float cannot represent, panicked.
---
 src/imageops/sample.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 5be6df5..87e039a 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -714,11 +714,19 @@ where
         // the division of floating point sums needs no rounding
         S::Larger::zero()
     };
+    // The division of integers is towards zero.
+    let average = |sum: S::Larger| {
+        S::clamp_from(if sum < S::Larger::zero() {
+            S::Larger::zero() - (S::Larger::zero() - sum + round) / n
+        } else {
+            (sum + round) / n
+        })
+    };
     (
-        S::clamp_from((sum.0 + round) / n),
-        S::clamp_from((sum.1 + round) / n),
-        S::clamp_from((sum.2 + round) / n),
-        S::clamp_from((sum.3 + round) / n),
+        average(sum.0),
+        average(sum.1),
+        average(sum.2),
+        average(sum.3),
     )
 }
 
@@ -752,10 +760,9 @@ where
     let fact_left = (1. - fract) / ((top - bottom) as f32);
 
     let mix_left_and_right = |leftv: S::Larger, rightv: S::Larger| {
-        <S as NumCast>::from(FloatNearest(
+        saturating_cast(FloatNearest(
             fact_left * leftv.to_f32().unwrap() + fact_right * rightv.to_f32().unwrap(),
         ))
-        .expect("Average sample value should fit into sample type")
     };
 
     (
@@ -796,10 +803,9 @@ where
     let fact_bot = (1. - fract) / ((right - left) as f32);
 
     let mix_bot_and_top = |botv: S::Larger, topv: S::Larger| {
-        <S as NumCast>::from(FloatNearest(
+        saturating_cast(FloatNearest(
             fact_bot * botv.to_f32().unwrap() + fact_top * topv.to_f32().unwrap(),
         ))
-        .expect("Average sample value should fit into sample type")
     };
 
     (
@@ -841,13 +847,12 @@ where
     let fact_bl = (1. - frac_v) * (1. - frac_h);
 
     let mix = |br: S, tr: S, bl: S, tl: S| {
-        <S as NumCast>::from(FloatNearest(
+        saturating_cast(FloatNearest(
             fact_br * br.to_f32().unwrap()
                 + fact_tr * tr.to_f32().unwrap()
                 + fact_bl * bl.to_f32().unwrap()
                 + fact_tl * tl.to_f32().unwrap(),
         ))
-        .expect("Average sample value should fit into sample type")
     };
 
     (
-- 
2.43.0


From 4a54f53fe24c0a8da2168d244c80b158a993de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:23 +0000
Subject: [PATCH 95/96] fix: TIFF encoding of 16-bit samples that are not
 aligned

---
 src/codecs/tiff.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/codecs/tiff.rs b/src/codecs/tiff.rs
index e1dadbc..a6db5f5 100644
--- a/src/codecs/tiff.rs
+++ b/src/codecs/tiff.rs
@@ -8,6 +8,7 @@
 
 extern crate tiff;
 
+use std::borrow::Cow;
 use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom, Write};
 use std::marker::PhantomData;
 use std::mem;
@@ -359,9 +360,18 @@ impl<W: Seek> Seek for CompleteWriter<W> {
 }
 
 // Utility to simplify and deduplicate error handling during 16-bit encoding.
-fn u8_slice_as_u16(buf: &[u8]) -> ImageResult<&[u16]> {
-    bytemuck::try_cast_slice(buf).map_err(|err| {
-        // If the buffer is not aligned or the correct length for a u16 slice, err.
+fn u8_slice_as_u16(buf: &[u8]) -> ImageResult<Cow<'_, [u16]>> {
+    let cast = match bytemuck::try_cast_slice(buf) {
+        // If the buffer is not aligned for a u16 slice, copy it into one that is.
+        Err(bytemuck::PodCastError::TargetAlignmentGreaterAndInputNotAligned)
+            if buf.len() % 2 == 0 =>
+        {
+            Ok(Cow::Owned(bytemuck::pod_collect_to_vec(buf)))
+        }
+        cast => cast.map(Cow::Borrowed),
+    };
+    cast.map_err(|err| {
+        // If the buffer is not the correct length for a u16 slice, err.
         //
         // `bytemuck::PodCastError` of bytemuck-1.2.0 does not implement
         // `Error` and `Display` trait.
@@ -416,17 +426,17 @@ impl<W: Write + Seek> TiffEncoder<W> {
             ExtendedColorType::L16 => encoder.write_image::<tiff::encoder::colortype::Gray16>(
                 width,
                 height,
-                u8_slice_as_u16(buf)?,
+                &u8_slice_as_u16(buf)?,
             ),
             ExtendedColorType::Rgb16 => encoder.write_image::<tiff::encoder::colortype::RGB16>(
                 width,
                 height,
-                u8_slice_as_u16(buf)?,
+                &u8_slice_as_u16(buf)?,
             ),
             ExtendedColorType::Rgba16 => encoder.write_image::<tiff::encoder::colortype::RGBA16>(
                 width,
                 height,
-                u8_slice_as_u16(buf)?,
+                &u8_slice_as_u16(buf)?,
             ),
             _ => {
                 return Err(ImageError::Unsupported(
-- 
2.43.0


From d11413e212cbc37c862cd8658917d7a824a721db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:24 +0000
Subject: [PATCH 96/96] fix: end animations after an error

---
 src/codecs/gif.rs | 15 +++++++++++++++
 src/codecs/png.rs | 20 ++++++++++----------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/codecs/gif.rs b/src/codecs/gif.rs
index b014186..6960ab9 100644
--- a/src/codecs/gif.rs
+++ b/src/codecs/gif.rs
@@ -229,6 +229,9 @@ struct GifFrameIterator<R: Read> {
 
     non_disposed_frame: Option<ImageBuffer<Rgba<u8>, Vec<u8>>>,
     limits: Limits,
+
+    /// Whether an error was returned, after which there are no more frames.
+    failed: bool,
 }
 
 impl<R: BufRead + Seek> GifFrameIterator<R> {
@@ -244,6 +247,7 @@ impl<R: BufRead + Seek> GifFrameIterator<R> {
             height,
             non_disposed_frame: None,
             limits,
+            failed: false,
         }
     }
 }
@@ -252,6 +256,17 @@ impl<R: Read> Iterator for GifFrameIterator<R> {
     type Item = ImageResult<animation::Frame>;
 
     fn next(&mut self) -> Option<ImageResult<animation::Frame>> {
+        if self.failed {
+            return None;
+        }
+        let frame = self.next_frame();
+        self.failed = matches!(frame, Some(Err(_)));
+        frame
+    }
+}
+
+impl<R: Read> GifFrameIterator<R> {
+    fn next_frame(&mut self) -> Option<ImageResult<animation::Frame>> {
         // The iterator always produces RGBA8 images
         const COLOR_TYPE: ColorType = ColorType::Rgba8;
 
diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index 339135b..c027d09 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -274,6 +274,16 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
         // The iterator always produces RGBA8 images
         const COLOR_TYPE: ColorType = ColorType::Rgba8;
 
+        // Remove this image from remaining.
+        self.remaining = match self.remaining.checked_sub(1) {
+            None => return Ok(None),
+            Some(next) => next,
+        };
+
+        // Shorten ourselves to 0 in case of error.
+        let remaining = self.remaining;
+        self.remaining = 0;
+
         // Allocate the buffers, honoring the memory limits
         let (width, height) = self.inner.dimensions();
         {
@@ -289,16 +299,6 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
             }
         }
 
-        // Remove this image from remaining.
-        self.remaining = match self.remaining.checked_sub(1) {
-            None => return Ok(None),
-            Some(next) => next,
-        };
-
-        // Shorten ourselves to 0 in case of error.
-        let remaining = self.remaining;
-        self.remaining = 0;
-
         // Skip the thumbnail that is not part of the animation.
         if self.has_thumbnail {
             // Clone the limits so that our one-off allocation that's destroyed after this scope doesn't persist
-- 
2.43.0

