From 40db6bce3bff3124e778d846a4671faa06d89bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 01/15] fix: do not demand a DC Huffman table for DC refinement
 scans

---
 src/decoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index b8eb531..a6ffc7a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -823,7 +823,9 @@ impl<R: Read> Decoder<R> {
         }
 
         // Verify that all required huffman tables has been set.
+        // (DC refinement scans are not Huffman coded, section G.1.2.1.)
         if scan.spectral_selection.start == 0
+            && scan.successive_approximation_high == 0
             && scan
                 .dc_table_indices
                 .iter()
-- 
2.43.0


From f3a4a15e9325a9589317a722dadcc12f3c9b3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 02/15] fix: interleave the components for ColorTransform::None

---
 src/decoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index a6ffc7a..402f06e 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1476,11 +1476,9 @@ fn color_convert_line_cmyk(data: &[Vec<u8>], output: &mut [u8]) {
 }
 
 fn color_no_convert(data: &[Vec<u8>], output: &mut [u8]) {
-    let mut output_iter = output.iter_mut();
-
-    for pixel in data {
-        for d in pixel {
-            *(output_iter.next().unwrap()) = *d;
+    for (x, pixel) in output.chunks_exact_mut(data.len()).enumerate() {
+        for (sample, component) in pixel.iter_mut().zip(data) {
+            *sample = component[x];
         }
     }
 }
-- 
2.43.0


From 8dc4f6cda5703ccd009ca01c6158ab79ee39268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 03/15] fix: number of blocks in non-interleaved scans of
 subsampled components

---
 src/decoder.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 402f06e..afb1a03 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -903,22 +903,19 @@ impl<R: Read> Decoder<R> {
         let (max_mcu_x, max_mcu_y) = if is_interleaved {
             (frame.mcu_size.width, frame.mcu_size.height)
         } else {
+            // A.2.2: only the blocks that cover the component itself are coded, not the padding
+            // to whole interleaved MCUs that `block_size` includes.
+            let component = &components[0];
+            let blocks =
+                |samples: u16| ((samples as usize + component.dct_scale - 1) / component.dct_scale) as u16;
             (
-                components[0].block_size.width,
-                components[0].block_size.height,
+                blocks(component.size.width),
+                blocks(component.size.height),
             )
         };
 
         for mcu_y in 0..max_mcu_y {
-            if mcu_y * 8 >= frame.image_size.height {
-                break;
-            }
-
             for mcu_x in 0..max_mcu_x {
-                if mcu_x * 8 >= frame.image_size.width {
-                    break;
-                }
-
                 if self.restart_interval > 0 {
                     if mcus_left_until_restart == 0 {
                         match huffman.take_marker(&mut self.reader)? {
@@ -1024,7 +1021,7 @@ impl<R: Read> Decoder<R> {
                     // keep going; don't send it yet. We also need to ensure we don't skip over the last
                     // row(s) of the image.
                     if !is_interleaved
-                        && (mcu_y + 1) * 8 < frame.image_size.height
+                        && mcu_y + 1 < max_mcu_y
                         && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0
                     {
                         continue;
-- 
2.43.0


From d2163edbd4d8bb0f9e80e1086dce632f21384daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 04/15] fix: report reader errors after a trailing restart
 marker

---
 src/decoder.rs          | 2 +-
 src/decoder/lossless.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index afb1a03..116359f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1061,7 +1061,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
 
         if finished.iter().any(|&c| c) {
diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cd00476..f1a74e7 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -178,7 +178,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
         Ok((marker, results))
     }
-- 
2.43.0


From a18822862d9160bccf42c2cef6aa33d5bfab64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 05/15] fix: accept ICC profiles made of 255 chunks

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 116359f..3a90b98 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -211,7 +211,7 @@ impl<R: Read> Decoder<R> {
     pub fn icc_profile(&self) -> Option<Vec<u8>> {
         let mut marker_present: [Option<&IccChunk>; 256] = [None; 256];
         let num_markers = self.icc_markers.len();
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check the validity of the markers
-- 
2.43.0


From 9a41a461645382aaa7c3f52af88d4c730d3c7e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 06/15] fix: recognise ICC chunks without data

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b17e7e9..6ea62f9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -648,7 +648,7 @@ pub fn parse_app<R: Read>(reader: &mut R, marker: Marker) -> Result<Option<AppDa
             }
         }
         APP(2) => {
-            if length > 14 {
+            if length >= 14 {
                 let mut buffer = [0u8; 14];
                 reader.read_exact(&mut buffer)?;
                 bytes_read = buffer.len();
-- 
2.43.0


From eee2336414ad002579a3955db262dd0c6ae7eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 07/15] fix: count two bytes per 16-bit sample against the
 decoding buffer limit

---
 src/decoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 3a90b98..64ea245 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -633,6 +633,7 @@ impl<R: Read> Decoder<R> {
             .len()
             .checked_mul(frame.output_size.width.into())
             .and_then(|m| m.checked_mul(frame.output_size.height.into()))
+            .and_then(|m| m.checked_mul(if frame.precision > 8 { 2 } else { 1 }))
             .map_or(true, |m| self.decoding_buffer_size_limit < m)
         {
             return Err(Error::Format(
-- 
2.43.0


From 25b6c7187a4330974a65be65eee0fee1538c4a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 08/15] fix: return one byte per sample for lossless images of
 2 to 7 bits

---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index f1a74e7..26a7fb2 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -250,7 +250,7 @@ pub fn compute_image_lossless(frame: &FrameInfo, mut data: Vec<Vec<u16>>) -> Res
 }
 
 fn convert_to_u8(frame: &FrameInfo, data: Vec<u16>) -> Vec<u8> {
-    if frame.precision == 8 {
+    if frame.precision <= 8 {
         data.iter().map(|x| *x as u8).collect()
     } else {
         // we output native endian, which is the standard for image-rs
-- 
2.43.0


From 747368ba747f5cd8b97d9926eab052e1e491b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 09/15] fix: store the planes of lossless scans under their
 component

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 64ea245..d8f29bd 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -419,7 +419,7 @@ impl<R: Read> Decoder<R> {
                             .enumerate()
                             .filter(|(_, plane)| !plane.is_empty())
                         {
-                            planes_u16[i] = plane;
+                            planes_u16[scan.component_indices[i]] = plane;
                         }
                         pending_marker = marker;
                     } else {
-- 
2.43.0


From 488a67f404a3e1bfeb8a674adc68fd80d24eeb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 10/15] fix: do not report a scaled size for lossless images

---
 src/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index d8f29bd..230ec0a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -271,13 +271,17 @@ impl<R: Read> Decoder<R> {
     /// This efficiently scales the image by the smallest supported scale
     /// factor that produces an image larger than or equal to the requested
     /// size in at least one axis. The currently implemented scale factors
-    /// are 1/8, 1/4, 1/2 and 1.
+    /// are 1/8, 1/4, 1/2 and 1. Lossless images are not scaled.
     ///
     /// To generate a thumbnail of an exact size, pass the desired size and
     /// then scale to the final size using a traditional resampling algorithm.
     pub fn scale(&mut self, requested_width: u16, requested_height: u16) -> Result<(u16, u16)> {
         self.read_info()?;
         let frame = self.frame.as_mut().unwrap();
+        if frame.coding_process == CodingProcess::Lossless {
+            // There is no inverse DCT to scale with.
+            return Ok((frame.output_size.width, frame.output_size.height));
+        }
         let idct_size = crate::idct::choose_idct_size(
             frame.image_size,
             Dimensions {
-- 
2.43.0


From a5a5f1db8ab03522c8e20644187e999efbb35110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 11/15] fix: report subsampled lossless frames as unsupported

---
 src/decoder.rs          | 11 +++++++++++
 src/decoder/lossless.rs | 11 ++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 230ec0a..c63d74f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -382,6 +382,17 @@ impl<R: Read> Decoder<R> {
                         frame.image_size.height,
                     )?;
 
+                    if frame.coding_process == CodingProcess::Lossless
+                        && frame.components.iter().any(|c| {
+                            c.horizontal_sampling_factor
+                                != frame.components[0].horizontal_sampling_factor
+                                || c.vertical_sampling_factor
+                                    != frame.components[0].vertical_sampling_factor
+                        })
+                    {
+                        return Err(Error::Unsupported(UnsupportedFeature::SubsamplingRatio));
+                    }
+
                     self.frame = Some(frame);
 
                     if stop_after_metadata {
diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 26a7fb2..2f77897 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -1,5 +1,5 @@
 use crate::decoder::{Decoder, MAX_COMPONENTS};
-use crate::error::{Error, Result};
+use crate::error::{Error, Result, UnsupportedFeature};
 use crate::huffman::HuffmanDecoder;
 use crate::marker::Marker;
 use crate::parser::Predictor;
@@ -24,6 +24,15 @@ impl<R: Read> Decoder<R> {
             .map(|&i| frame.components[i].clone())
             .collect();
 
+        // Interleaved MCUs of more than one sample per component are not implemented.
+        if ncomp > 1
+            && components
+                .iter()
+                .any(|c| c.horizontal_sampling_factor != 1 || c.vertical_sampling_factor != 1)
+        {
+            return Err(Error::Unsupported(UnsupportedFeature::SubsamplingRatio));
+        }
+
         // Verify that all required huffman tables has been set.
         if scan
             .dc_table_indices
-- 
2.43.0


From 42cc9fb99569925bcb847b59a063182b3922b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 12/15] fix: restart the prediction at restart intervals of
 lossless scans

---
 src/decoder/lossless.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 2f77897..0e6518e 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -114,7 +114,7 @@ impl<R: Read> Decoder<R> {
             }
         }
 
-        if scan.predictor_selection == Predictor::Ra {
+        if scan.predictor_selection == Predictor::Ra && self.restart_interval == 0 {
             for (i, _component) in components.iter().enumerate() {
                 // calculate the top left pixel
                 let diff = differences[i][0];
@@ -146,8 +146,24 @@ impl<R: Read> Decoder<R> {
                 }
             }
         } else {
+            let mut samples_left_until_restart = self.restart_interval;
+            // The line in which the current restart interval starts is predicted like the first.
+            let mut first_line = 0;
+
             for mcu_y in 0..height {
                 for mcu_x in 0..width {
+                    let mut restart = false;
+
+                    if self.restart_interval > 0 {
+                        if samples_left_until_restart == 0 {
+                            restart = true;
+                            first_line = mcu_y;
+                            samples_left_until_restart = self.restart_interval;
+                        }
+
+                        samples_left_until_restart -= 1;
+                    }
+
                     for (i, _component) in components.iter().enumerate() {
                         let diff = differences[i][mcu_y * width + mcu_x];
 
@@ -174,9 +190,8 @@ impl<R: Read> Decoder<R> {
                             scan.point_transform,
                             frame.precision,
                             mcu_x,
-                            mcu_y,
-                            self.restart_interval > 0
-                                && mcus_left_until_restart == self.restart_interval - 1,
+                            mcu_y - first_line,
+                            restart,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                         results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
-- 
2.43.0


From b7a12b88e4bb2a264830283656ba0a1e9c53b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:26 +0000
Subject: [PATCH 13/15] fix: predict lossless samples before undoing the point
 transform

---
 src/decoder/lossless.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 0e6518e..ad70792 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -120,7 +120,6 @@ impl<R: Read> Decoder<R> {
                 let diff = differences[i][0];
                 let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                let result = result << scan.point_transform;
                 results[i][0] = result;
 
                 // calculate leftmost column, using top pixel as predictor
@@ -129,7 +128,6 @@ impl<R: Read> Decoder<R> {
                     let diff = differences[i][mcu_y * width];
                     let prediction = previous as i32;
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                    let result = result << scan.point_transform;
                     results[i][mcu_y * width] = result;
                     previous = result;
                 }
@@ -140,7 +138,6 @@ impl<R: Read> Decoder<R> {
                         let diff = differences[i][mcu_y * width + mcu_x];
                         let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        let result = result << scan.point_transform;
                         results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
@@ -194,12 +191,19 @@ impl<R: Read> Decoder<R> {
                             restart,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
+                        results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
             }
         }
 
+        // The prediction works on the samples before the point transform is undone (H.1.2.1).
+        if scan.point_transform > 0 {
+            for sample in results.iter_mut().flatten() {
+                *sample <<= scan.point_transform;
+            }
+        }
+
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
             marker = Some(self.read_marker()?);
@@ -223,11 +227,7 @@ fn predict(
 ) -> i32 {
     if (ix == 0 && iy == 0) || restart {
         // start of first line or restart
-        if input_precision > 1 + point_transform {
-            1 << (input_precision - point_transform - 1)
-        } else {
-            0
-        }
+        1 << (input_precision - point_transform - 1)
     } else if iy == 0 {
         // rest of first line
         ra
-- 
2.43.0


From da15d82584662f0c55b2f81b0ea0f869766e3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:01 +0000
Subject: [PATCH 14/15] fix: allow successive approximation from bit positions
 8 to 13

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6ea62f9..d9bc483 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -405,7 +405,7 @@ pub fn parse_sos<R: Read>(reader: &mut R, frame: &FrameInfo) -> Result<ScanInfo>
     let predictor_selection;
     let point_transform = successive_approximation_low;
 
-    if point_transform >= frame.precision {
+    if frame.coding_process == CodingProcess::Lossless && point_transform >= frame.precision {
         return Err(Error::Format(
             "invalid point transform, must be less than the frame precision".to_owned(),
         ));
-- 
2.43.0


From 781d0c33aa9ff1d7c6159d3bef69ec566a76ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 15/15] fix: render unfinished progressive components with the
 quantization table of their scans

---
 src/decoder.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index c63d74f..fe7ce16 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -124,6 +124,8 @@ pub struct Decoder<R> {
     coefficients: Vec<Vec<i16>>,
     // Bitmask of which coefficients has been completely decoded.
     coefficients_finished: [u64; MAX_COMPONENTS],
+    // The tables in effect for the last scan of each component, they may be redefined after it.
+    scan_quantization_tables: [Option<Arc<[u16; 64]>>; MAX_COMPONENTS],
 
     // Maximum allowed size of decoded image buffer
     decoding_buffer_size_limit: usize,
@@ -149,6 +151,7 @@ impl<R: Read> Decoder<R> {
             psir_data: None,
             coefficients: Vec::new(),
             coefficients_finished: [0; MAX_COMPONENTS],
+            scan_quantization_tables: [None, None, None, None],
             decoding_buffer_size_limit: usize::MAX,
         }
     }
@@ -666,11 +669,13 @@ impl<R: Read> Decoder<R> {
                     continue;
                 }
 
-                let quantization_table =
-                    match self.quantization_tables[component.quantization_table_index].clone() {
-                        Some(quantization_table) => quantization_table,
-                        None => continue,
-                    };
+                let quantization_table = match self.scan_quantization_tables[i]
+                    .as_ref()
+                    .or(self.quantization_tables[component.quantization_table_index].as_ref())
+                {
+                    Some(quantization_table) => quantization_table.clone(),
+                    None => continue,
+                };
 
                 // Get the worker prepared
                 let row_data = RowData {
@@ -829,6 +834,10 @@ impl<R: Read> Decoder<R> {
         {
             return Err(Error::Format("use of unset quantization table".to_owned()));
         }
+        for (&i, component) in scan.component_indices.iter().zip(&components) {
+            self.scan_quantization_tables[i] =
+                self.quantization_tables[component.quantization_table_index].clone();
+        }
 
         if self.is_mjpeg {
             fill_default_mjpeg_tables(
-- 
2.43.0

