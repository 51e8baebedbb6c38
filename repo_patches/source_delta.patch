From 9c218e4d4136dcc0ab2c0f03aefd1cc728528452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 01/21] fix: integer/fraction split loses huge and tiny values

split_n returned integer part 0 for |x| >= 2^63 and fraction 0 for |x| < 2^-65,
so such data was classified as small integers and stored as U8.
---
 atsc/src/optimizer/utils.rs | 46 ++-----------------------------------
 1 file changed, 2 insertions(+), 44 deletions(-)

diff --git a/atsc/src/optimizer/utils.rs b/atsc/src/optimizer/utils.rs
index 556a253..dd2c195 100644
--- a/atsc/src/optimizer/utils.rs
+++ b/atsc/src/optimizer/utils.rs
@@ -112,51 +112,9 @@ impl DataStats {
         }
     }
 }
+/// Splits a number into its integer part (saturating at the i64 limits) and its fractional part
 fn split_n(x: f64) -> (i64, f64) {
-    const FRACT_SCALE: f64 = 1.0 / (65536.0 * 65536.0 * 65536.0 * 65536.0); // 1_f64.exp(-64)
-    const STORED_MANTISSA_DIGITS: u32 = f64::MANTISSA_DIGITS - 1;
-    const STORED_MANTISSA_MASK: u64 = (1 << STORED_MANTISSA_DIGITS) - 1;
-    const MANTISSA_MSB: u64 = 1 << STORED_MANTISSA_DIGITS;
-
-    const EXPONENT_BITS: u32 = 64 - 1 - STORED_MANTISSA_DIGITS;
-    const EXPONENT_MASK: u32 = (1 << EXPONENT_BITS) - 1;
-    const EXPONENT_BIAS: i32 = (1 << (EXPONENT_BITS - 1)) - 1;
-
-    let bits = x.to_bits();
-    let is_negative = (bits as i64) < 0;
-    let exponent = ((bits >> STORED_MANTISSA_DIGITS) as u32 & EXPONENT_MASK) as i32;
-
-    let mantissa = (bits & STORED_MANTISSA_MASK) | MANTISSA_MSB;
-    let mantissa = if is_negative {
-        -(mantissa as i64)
-    } else {
-        mantissa as i64
-    };
-
-    let shl = exponent + (64 - f64::MANTISSA_DIGITS as i32 - EXPONENT_BIAS + 1);
-    if shl <= 0 {
-        let shr = -shl;
-        if shr < 64 {
-            // x >> 0..64
-            let fraction = ((mantissa as u64) >> shr) as f64 * FRACT_SCALE;
-            (0, fraction)
-        } else {
-            // x >> 64..
-            (0, 0.0)
-        }
-    } else if shl < 64 {
-        // x << 1..64
-        let int = mantissa >> (64 - shl);
-        let fraction = ((mantissa as u64) << shl) as f64 * FRACT_SCALE;
-        (int, fraction)
-    } else if shl < 128 {
-        // x << 64..128
-        let int = mantissa << (shl - 64);
-        (int, 0.0)
-    } else {
-        // x << 128..
-        (0, 0.0)
-    }
+    (x.trunc() as i64, x.fract())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3b024796055b581c092d239149ce1123d4839e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 02/21] fix: FFT frequency positions above 65535 were truncated
 to u16

A full 131072 sample frame is padded to 139968 samples, which has 69985
distinct frequencies; positions over u16::MAX wrapped to the wrong bin.
---
 atsc/src/compressor/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 4c9fa07..01b11da 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -33,13 +33,13 @@ const DECIMAL_PRECISION: u8 = 5;
 #[derive(Encode, Decode, Debug, Copy, Clone)]
 pub struct FrequencyPoint {
     /// Frequency position
-    pos: u16, // This is the reason that frame size is limited to 65535, probably enough
+    pos: u32, // A padded frame has more than 2^16 frequencies. Varint encoded, small positions stay small
     freq_real: f32,
     freq_img: f32,
 }
 
 impl FrequencyPoint {
-    pub fn from_complex_with_position(complex: Complex<f32>, pos: u16) -> Self {
+    pub fn from_complex_with_position(complex: Complex<f32>, pos: u32) -> Self {
         FrequencyPoint {
             pos,
             freq_real: complex.re,
@@ -239,7 +239,7 @@ impl FFT {
         let tmp_vec: Vec<FrequencyPoint> = buffer
             .iter()
             .enumerate()
-            .map(|(pos, &f)| FrequencyPoint::from_complex_with_position(f, pos as u16))
+            .map(|(pos, &f)| FrequencyPoint::from_complex_with_position(f, pos as u32))
             .collect();
         // This part, is because Binary heap is very good at "give me the top N elements"
         let mut heap = BinaryHeap::from(tmp_vec);
-- 
2.43.0


From ff4d6d654bc1f22a0e15b662d1aa12d9014066a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 03/21] fix: FFT error was measured on the padded frame

The padding repeats the first and last samples and is dropped when the frame
is decompressed, so it diluted the error reported for the actual samples.
---
 atsc/src/compressor/fft.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 01b11da..849a233 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -342,7 +342,9 @@ impl FFT {
                 .iter()
                 .map(|&f| self.round(f.re / len_f32, DECIMAL_PRECISION.into()))
                 .collect();
-            current_err = calculate_error(g_data, &out_data);
+            // Only the samples of the frame count, the padding is dropped in the decompression
+            let prefix_len = (len - data.len()) / 2;
+            current_err = calculate_error(data, &out_data[prefix_len..prefix_len + data.len()]);
             trace!("Current Err: {}", current_err);
             // Max iterations is 22 (We start at 10%, we can go to 95% and 1% at a time)
             match iterations {
-- 
2.43.0


From dcda5f20bb3287c56bbcc35537eaafe0e8ae999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 04/21] fix: FFT reported no error for data that is only
 constant as f32

min and max are compared after rounding to f32, distinct f64 samples can
collapse to one value there and the frame was then reported as exact.
---
 atsc/src/compressor/fft.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 849a233..3bf2e66 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -288,6 +288,8 @@ impl FFT {
     pub fn compress_bounded(&mut self, data: &[f64], max_err: f64) {
         if self.max_value == self.min_value {
             debug!("Same max and min, we're done here!");
+            // The min and max only have to match as f32, so the data might still not be constant
+            self.error = Some(calculate_error(data, &self.to_data(data.len())));
             return;
         }
 
-- 
2.43.0


From d0b44c98e7ba55f77f36e81414cc768dbb1ccd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 05/21] fix: unbounded FFT compression did not pad like
 decompression expects

to_data always assumes the Gibbs padding for frames of 128 samples or more,
only compress_bounded applied it, so fft() and fft_set() did not round trip.
---
 atsc/src/compressor/fft.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 3bf2e66..bbf4304 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -269,6 +269,13 @@ impl FFT {
         if !v.is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // Pad the data the same way the decompression expects it
+        let data: &[f64] = if v >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
+        let v = data.len();
         let mut planner = FftPlanner::new();
         let fft = planner.plan_fft_forward(v);
         let mut buffer = FFT::optimize(data);
@@ -379,6 +386,13 @@ impl FFT {
         if !v.is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // Pad the data the same way the decompression expects it
+        let data: &[f64] = if v >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
+        let v = data.len();
         let mut planner = FftPlanner::new();
         let fft = planner.plan_fft_forward(v);
         let mut buffer = FFT::optimize(data);
-- 
2.43.0


From 8e5592629ac23a121f898109ab0021c33e8c9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 06/21] fix: polynomial error was reported as 0 when all points
 are stored

Decompression rounds to 5 decimals, so storing everything is not exact. With a
maximum error of 0 (lossless) such a frame could be selected over RLE.
---
 atsc/src/compressor/polynomial.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 531a82a..61544a8 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -256,15 +256,14 @@ impl Polynomial {
                 // We can't hit the target, store everything
                 _ => {
                     self.compress_hinted(data, data_len);
-                    // if we store everything, there is no error
-                    current_err = 0.0;
+                    // if we store everything, the only error is the decimal rounding
+                    current_err = calculate_error(data, &self.to_data(data_len));
                     break;
                 }
             }
             if self.data_points.len() == data_len {
                 // Storing the whole thing anyway...
-                // if we store everything, there is no error
-                current_err = 0.0;
+                // The error was already calculated and it can't get any better
                 break;
             }
         }
-- 
2.43.0


From 0b2aa7ada768b602d38a1a5bde02b2a01c0d4c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 07/21] fix: MAPE of a zero sample reproduced exactly is 0, not
 NaN

---
 atsc/src/utils/error.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atsc/src/utils/error.rs b/atsc/src/utils/error.rs
index d472b5d..ae9aecd 100644
--- a/atsc/src/utils/error.rs
+++ b/atsc/src/utils/error.rs
@@ -109,9 +109,15 @@ pub fn error_mape(original: &[f64], generated: &[f64]) -> f64 {
     let abs_error: f64 = original
         .iter()
         .zip(generated.iter())
-        .map(|(original, generated)| ((generated - original) / original).abs())
+        .map(|(original, generated)| {
+            // Avoid the NaN from 0/0, there is no error here
+            if generated == original {
+                0.0
+            } else {
+                ((generated - original) / original).abs()
+            }
+        })
         .sum();
-    // TODO: NaN needs to be handled
     abs_error / original.len() as f64
 }
 
-- 
2.43.0


From b58dedac3c3342b4a058807928585f47bcf0dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 08/21] fix: sampled compressor selection ignored the error of
 the whole frame

The compressor was picked on the first samples and its result for the whole
chunk was stored without checking it against the maximum error.
---
 atsc/src/frame/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/atsc/src/frame/mod.rs b/atsc/src/frame/mod.rs
index 1f726e4..a71ad6b 100644
--- a/atsc/src/frame/mod.rs
+++ b/atsc/src/frame/mod.rs
@@ -105,10 +105,17 @@ impl CompressorFrame {
                 .unwrap();
             self.compressor = *chosen_compressor;
             // Now do the full data compression
-            self.data = self
+            let mut result = self
                 .compressor
-                .get_compress_bounded_results(data, max_error as f64)
-                .compressed_data;
+                .get_compress_bounded_results(data, max_error as f64);
+            // The sample might not be representative, RLE always fits
+            if result.error.is_nan() || result.error > max_error as f64 {
+                self.compressor = Compressor::RLE;
+                result = self
+                    .compressor
+                    .get_compress_bounded_results(data, max_error as f64);
+            }
+            self.data = result.compressed_data;
         } else {
             // Run all the eligible compressors and choose smallest
             let compressor_results: Vec<_> = compressor_list
-- 
2.43.0


From 17c1f278f8de6c1884ad5d0c2ee687d87a64c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 09/21] fix: streams with more than 255 frames overflow the
 header frame count

---
 atsc/src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atsc/src/header.rs b/atsc/src/header.rs
index 807b00e..29bbbf4 100644
--- a/atsc/src/header.rs
+++ b/atsc/src/header.rs
@@ -50,7 +50,8 @@ impl CompressorHeader {
     }
 
     pub fn add_frame(&mut self) {
-        self.frame_count += 1;
+        // Informative only, the frames carry their own count. It must not wrap or panic
+        self.frame_count = self.frame_count.saturating_add(1);
     }
 
     pub fn get_frame_count(&mut self) -> u8 {
-- 
2.43.0


From ed34049c18024d225ddad8667f1853130ce32e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 10/21] fix: BRO files of empty streams could not be read back

An empty stream is 10 bytes, the reader insisted on a 12 byte header.
---
 atsc/src/utils/readers/bro_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/utils/readers/bro_reader.rs b/atsc/src/utils/readers/bro_reader.rs
index f2b7e37..7842417 100644
--- a/atsc/src/utils/readers/bro_reader.rs
+++ b/atsc/src/utils/readers/bro_reader.rs
@@ -37,9 +37,9 @@ pub fn read_file(file_path: &Path) -> Result<Option<Vec<u8>>, Error> {
     }
 }
 fn is_bro_file(file_path: &Path) -> io::Result<bool> {
-    // Open the file for reading and read the first 12 bytes (header) of the file
+    // Open the file for reading and read the magic bytes of the file
     let mut file = fs::File::open(file_path)?;
-    let mut header = [0u8; 12];
+    let mut header = [0u8; 4];
     file.read_exact(&mut header)?;
     // Check if the file starts with "BRRO"
     Ok(header.starts_with(b"BRRO"))
-- 
2.43.0


From 2b9cd1a211724e82d0d6790f0fc5f1f818096e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 11/21] fix: a failing file was processed twice and aborted the
 directory

The failure is still reported at the end, after all other files were processed.
---
 atsc/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 21f1be8..0228e0a 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -48,6 +48,7 @@ fn process_args(arguments: &Args) -> Result<(), Box<dyn Error>> {
 }
 
 fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
+    let mut failed = 0;
     // Assuming you want to process each file inside this directory
     for entry in std::fs::read_dir(arguments.input.clone())? {
         let path = entry?.path();
@@ -58,12 +59,17 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
                 //NOTE: Due to the way read_dir works, it seems we can't do much about this except collecting
                 //      before and then iterating. But that might lead to a MASSIVE array. So it keeps a `funny` output
                 //      output for the time beeing.
-                Err(err) => error!("{} File: {}", err, path.display()),
+                Err(err) => {
+                    error!("{} File: {}", err, path.display());
+                    failed += 1;
+                }
             }
             // We need to make sure we skip anything but BRO and WBRO, this can be done on single file processors
-            process_single_file(path, arguments)?;
         }
     }
+    if failed > 0 {
+        return Err(format!("{} file(s) could not be processed", failed).into());
+    }
     Ok(())
 }
 
-- 
2.43.0


From a1ed8caeb05ccb7fc3f5f0b389b540226404d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 12/21] fix: short writes of WBRO files went unnoticed

---
 wavbrro/src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wavbrro/src/write.rs b/wavbrro/src/write.rs
index e21cd25..938b43e 100644
--- a/wavbrro/src/write.rs
+++ b/wavbrro/src/write.rs
@@ -21,7 +21,7 @@ use std::path::Path;
 pub fn write_wavbrro_file(file_path: &Path, content: &[u8]) {
     let header: [u8; 12] = *b"WBRO0000WBRO";
     let file = File::create(file_path).expect("Can't create file!");
-    file.write_at(&header, 0).expect("Fail to write header");
-    file.write_at(content, header.len() as u64)
+    file.write_all_at(&header, 0).expect("Fail to write header");
+    file.write_all_at(content, header.len() as u64)
         .expect("Fail to write content");
 }
-- 
2.43.0


From c67f56bd4f202f5411676850d46b3cfc698562a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 13/21] fix: errors flushing the decompressed CSV were ignored

---
 csv-compressor/src/csv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csv-compressor/src/csv.rs b/csv-compressor/src/csv.rs
index a0fdc09..fc37077 100644
--- a/csv-compressor/src/csv.rs
+++ b/csv-compressor/src/csv.rs
@@ -53,6 +53,8 @@ pub fn write_samples_to_csv_file(dest: &Path, samples: &[Sample]) -> Result<(),
     for sample in samples {
         writer.serialize(sample)?;
     }
+    // Errors are ignored if it is left to the drop
+    writer.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From a766b87e4b7bdde91674b3765a6a85069d0608f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 14/21] fix: malformed CSV records panic instead of returning
 an error

---
 atsc/src/csv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/csv.rs b/atsc/src/csv.rs
index eb08d9b..1a9c8e4 100644
--- a/atsc/src/csv.rs
+++ b/atsc/src/csv.rs
@@ -55,7 +55,7 @@ pub fn read_samples_with_headers(
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::Unexpected)?;
         // let timestamp: DateTime<Utc> = record.get(timestamp_idx).unwrap().parse()?;
         let value: f64 = record
             .get(value_idx)
@@ -81,7 +81,7 @@ pub fn read_samples(filepath: &Path) -> Result<Vec<Sample>> {
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::Unexpected)?;
         let value: f64 = record
             .get(0) // assuming that there is only a single field with values inside
             .unwrap()
-- 
2.43.0


From 203c8aa84090d3b6fc14d38e7d472a0af21640d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 15/21] fix: --fields without a comma panics

---
 atsc/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 0228e0a..19405ef 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -99,6 +99,11 @@ fn process_single_file(mut file_path: PathBuf, arguments: &Args) -> Result<(), B
                 None => "time, value".to_string(),
             };
             let headers: Vec<_> = headers_option.split(",").collect();
+            if headers.len() < 2 {
+                return Err(
+                    "--fields needs both field names: TIME_FIELD_NAME,VALUE_FIELD_NAME".into(),
+                );
+            }
             // Assuming that header[0] is a time field and header[1] is value field
             read_samples_with_headers(&file_path, headers[0], headers[1])?
         };
-- 
2.43.0


From 77e88815e05958b6ab6c353312a3ae717b811bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 16/21] fix: an unreadable WAV file was converted to an empty
 WBRO

---
 tools/src/bin/wav2wbro.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/tools/src/bin/wav2wbro.rs b/tools/src/bin/wav2wbro.rs
index 7d9c7f2..30f242e 100644
--- a/tools/src/bin/wav2wbro.rs
+++ b/tools/src/bin/wav2wbro.rs
@@ -33,13 +33,7 @@ fn is_wav_file(file_path: &Path) -> bool {
 }
 
 fn read_metrics_from_wav(filename: &str) -> Vec<f64> {
-    let r_reader = hound::WavReader::open(filename);
-    let mut reader = match r_reader {
-        Ok(reader) => reader,
-        Err(_err) => {
-            return Vec::new();
-        }
-    };
+    let mut reader = hound::WavReader::open(filename).expect("Can't read WAV file!");
     let num_channels = reader.spec().channels as usize;
 
     let mut raw_data: Vec<f64> = Vec::new();
-- 
2.43.0


From d99e96fd9b485657fb6ce2a0270aefe6309b0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 17/21] fix: timestamps after the first index segment were
 wrong

The position inside of the file was used as the position inside of the segment.
---
 vsri/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 0487e53..ba4118d 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -337,8 +337,8 @@ impl Vsri {
                 // Find the segment where X fits
                 for segment in &self.vsri_segments {
                     if x >= segment[1] && x < (segment[1] + segment[3]) {
-                        // Belongs here! Return Segment TS + the TS interval * x
-                        let y = segment[2] + segment[0] * x;
+                        // Belongs here! Return Segment TS + the TS interval * position in the segment
+                        let y = segment[2] + segment[0] * (x - segment[1]);
                         return Some(y);
                     }
                     continue;
-- 
2.43.0


From b5a2e8417ddecca576b137343a6a8b9f6202ccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 18/21] fix: next sample lookup returned the last segment, not
 the next one

---
 vsri/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index ba4118d..c26a295 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -158,7 +158,7 @@ impl Vsri {
             return None;
         }
         // It wasn't smaller, so let's see if we have a sample that matches
-        for segment in self.vsri_segments.iter().rev() {
+        for segment in self.vsri_segments.iter() {
             let first_sample = segment[1];
             let y0 = segment[2];
             if y <= y0 {
-- 
2.43.0


From 596cdc84a54a0498a804d8cddeb658556c42e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 19/21] fix: is_empty missed overlaps in indexes with several
 segments

A time segment touching the last sample of a segment, a single sample segment,
or sharing exactly one end with a segment was reported as empty.
---
 vsri/src/lib.rs | 53 ++++++-------------------------------------------
 1 file changed, 6 insertions(+), 47 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index c26a295..cc1edc4 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -195,53 +195,12 @@ impl Vsri {
     /// This is useful to check intersections. If this function returns false the provided
     /// time segment does overlap with the existing time segments in the file
     pub fn is_empty(&self, time_segment: [i32; 2]) -> bool {
-        // I could simple try to get 2 samples and if one of the returns, it is not empty
-        // but I would walk segments twice instead of once
-        match &self.vsri_segments.len() {
-            1 => {
-                // It starts or ends inside the segment (might be a single sample)
-                if (time_segment[0] >= self.min() && time_segment[0] <= self.max())
-                    || (time_segment[1] <= self.max() && time_segment[1] >= self.min())
-                {
-                    return false;
-                }
-                // Or it contains the whole segment
-                if time_segment[0] < self.min() && time_segment[1] > self.max() {
-                    return false;
-                }
-            }
-            _ => {
-                // More than 1 segment
-                let mut previous_seg_end: i32 = 0;
-                for (segment_count, segment) in self.vsri_segments.iter().enumerate() {
-                    let sample_rate = segment[0];
-                    let y0 = segment[2];
-                    let num_samples = segment[3];
-                    let segment_end_y = y0 + (sample_rate * (num_samples - 1));
-                    // If we are in the 2+ segment, lets test if the time falls in the middle
-                    if segment_count >= 1
-                        && (time_segment[0] > previous_seg_end && time_segment[1] < y0)
-                    {
-                        return true;
-                    }
-                    // Could this be simplified with Karnaugh map? I'll dig my books later
-                    // It starts or ends inside the segment
-                    if (time_segment[0] >= y0 && time_segment[0] < segment_end_y)
-                        || (time_segment[1] < segment_end_y && time_segment[1] >= y0)
-                    {
-                        return false;
-                    }
-                    // Or it contains the whole segment
-                    if time_segment[0] < y0 && time_segment[1] > segment_end_y {
-                        return false;
-                    }
-                    // At this point, time segments doesn't touch this segment.
-                    previous_seg_end = segment_end_y;
-                }
-            }
-        }
-        // Didn't find any intersection, or left in the middle, it is empty
-        true
+        // It is empty if there is no segment (a line with both ends included) that intersects it
+        !self.vsri_segments.iter().any(|segment| {
+            let y0 = segment[2];
+            let segment_end_y = y0 + (segment[0] * (segment[3] - 1));
+            time_segment[0] <= segment_end_y && time_segment[1] >= y0
+        })
     }
 
     /// Update the index for the provided point
-- 
2.43.0


From 659e2da9fdc96784a633333404e4632a976d0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 20/21] fix: looking up the sample of a single sample segment
 divides by zero

---
 vsri/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index cc1edc4..b97dbb2 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -276,6 +276,10 @@ impl Vsri {
             let segment_end_y = y0 + (sample_rate * (num_samples - 1));
 
             if y >= y0 && y <= segment_end_y {
+                // All the samples of the segment are at the same time, there is no line to solve
+                if sample_rate == 0 {
+                    return Some(segment[1]);
+                }
                 // x = (y - b)/ m
                 // TODO: This can return floats!
                 let x_value = (y - self.calculate_b(segment)) / sample_rate;
-- 
2.43.0


From 8a68ff9be750dcb7984874e828572eba01163ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 21/21] fix: samples with a repeated timestamp were lost from
 the index

A segment of repeated timestamps has a sampling rate of 0 and was taken for a
single sample segment, its samples were forgotten with the next point.
---
 vsri/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index b97dbb2..5db29fb 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -359,12 +359,16 @@ impl Vsri {
     /// Checks if the most recent segment is a fake segment
     fn is_fake_segment(&self) -> bool {
         let last_segment = self.current_segment();
-        last_segment[0] == 0
+        last_segment[0] == 0 && last_segment[3] == 1
     }
 
     /// Returns true if a point fits the last segment of the index
     fn fits_segment(&self, y: i32) -> bool {
         let last_segment = self.current_segment();
+        // Several samples for the same time, only another one of those fits
+        if last_segment[0] == 0 {
+            return y == last_segment[2];
+        }
         let b = self.calculate_b(&last_segment);
         // What we have to check, is with the given y, calculate x.
         // Then check if x fits the interval for the current line
-- 
2.43.0

