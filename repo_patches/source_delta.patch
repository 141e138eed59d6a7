From 5cea05795c9f13488758aaea0282f2d60d237277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:47 +0000
Subject: [PATCH 01/16] fix: reset downstream stages of the chroma filter on
 start

ChromaFilter::reset() did not propagate the reset to its consumer, so
starting a new calculation kept the items of the previous fingerprint.
---
 chromaprint/src/chroma_filter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 0346887..28af660 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -54,6 +54,7 @@ impl<C: FeatureVectorConsumer> FeatureVectorConsumer for ChromaFilter<C> {
     fn reset(&mut self) {
         self.buffer_size = 1;
         self.buffer_offset = 0;
+        self.consumer.reset();
     }
 }
 
-- 
2.43.0


From ccf42d62dfc98c7277dd44cbb569e8115bb32587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:48 +0000
Subject: [PATCH 02/16] fix: drop samples buffered for FFT on start

Samples which did not fill a whole frame leaked from the previous
calculation into the next one.
---
 chromaprint/src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/fft.rs b/chromaprint/src/fft.rs
index 6d2a726..3905eca 100644
--- a/chromaprint/src/fft.rs
+++ b/chromaprint/src/fft.rs
@@ -49,6 +49,7 @@ impl<C: FeatureVectorConsumer> Stage for Fft<C> {
 
 impl<C: FeatureVectorConsumer> AudioConsumer<f64> for Fft<C> {
     fn reset(&mut self) {
+        self.ring_buf.clear();
         self.consumer.reset();
     }
 
-- 
2.43.0


From 309a30e5a62a7fa3dee81ab0f96e9b80ec45337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 03/16] fix: do not reuse a stale resampler when no resampling
 is needed

A resampler created for a previous calculation was still applied after
starting a new one with the sample rate equal to the target rate.
---
 chromaprint/src/audio_processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 691472a..a9ccfaf 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -150,6 +150,8 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             self.output_buffer
                 .resize(resampler.output_frames_max(), 0.0);
             self.resampler = Some(resampler);
+        } else {
+            self.resampler = None;
         }
 
         Ok(())
-- 
2.43.0


From 09b402c9b79eb7b69d81a7e41ded81259c0e5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 04/16] fix: respect interpolation setting of the configuration

The setting was never passed down, so preset_test3() (the only one with
interpolation enabled) produced the same fingerprints as preset_test2().
---
 chromaprint/src/chroma.rs        | 6 ++++++
 chromaprint/src/fingerprinter.rs | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/chromaprint/src/chroma.rs b/chromaprint/src/chroma.rs
index 2a78d09..20a8603 100644
--- a/chromaprint/src/chroma.rs
+++ b/chromaprint/src/chroma.rs
@@ -33,6 +33,12 @@ impl<C: FeatureVectorConsumer> Chroma<C> {
         chroma
     }
 
+    /// Enables or disables interpolation of energy between adjacent notes.
+    pub(crate) fn with_interpolation(mut self, interpolate: bool) -> Self {
+        self.interpolate = interpolate;
+        self
+    }
+
     fn prepare_notes(&mut self, min_freq: u32, max_freq: u32, frame_size: usize, sample_rate: u32) {
         self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(1);
         self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 2);
diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 456b171..7fdb8c6 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -188,7 +188,8 @@ impl Fingerprinter {
             config.frame_size,
             DEFAULT_SAMPLE_RATE,
             filter,
-        );
+        )
+        .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
         let processor = AudioProcessor::new(
             DEFAULT_SAMPLE_RATE,
-- 
2.43.0


From 833e566b2bb1081db21867c0c3a934fad1487481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 05/16] fix: avoid overflow when downmixing a large number of
 channels

---
 chromaprint/src/audio_processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index a9ccfaf..d74acaf 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -53,9 +53,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             }
             _ => {
                 for sample in input.chunks_exact(channels) {
-                    let sum: i32 = sample.iter().copied().map(i32::from).sum();
-                    let samples: i32 = sample.len().try_into().unwrap();
-                    let average: i32 = sum / samples;
+                    let sum: i64 = sample.iter().copied().map(i64::from).sum();
+                    let samples: i64 = sample.len().try_into().unwrap();
+                    let average: i64 = sum / samples;
                     self.push_sample(average.try_into().unwrap());
                 }
             }
-- 
2.43.0


From 450edf1a0d3910b0991d0201ca67edd9162db146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 06/16] fix: support chroma filters with more than 8
 coefficients

The ring buffer had a fixed number of rows, so a longer filter read stale
rows and eventually panicked due to arithmetic underflow.
---
 chromaprint/src/chroma_filter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 28af660..d3c0c76 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -3,7 +3,7 @@ use crate::stages::{FeatureVectorConsumer, Stage};
 pub struct ChromaFilter<C: FeatureVectorConsumer> {
     coefficients: Box<[f64]>,
     consumer: C,
-    buffer: [[f64; 12]; 8],
+    buffer: Box<[[f64; 12]]>,
     result: [f64; 12],
     buffer_offset: usize,
     buffer_size: usize,
@@ -11,10 +11,12 @@ pub struct ChromaFilter<C: FeatureVectorConsumer> {
 
 impl<C: FeatureVectorConsumer> ChromaFilter<C> {
     pub(crate) fn new(coefficients: Box<[f64]>, consumer: C) -> Self {
+        // The buffer has to hold at least one row per coefficient.
+        let buffer = vec![[0.0; 12]; coefficients.len().max(8)].into_boxed_slice();
         Self {
             coefficients,
             consumer,
-            buffer: std::array::from_fn(|_| [0.0; 12]),
+            buffer,
             result: [0.0; 12],
             buffer_offset: 0,
             buffer_size: 1,
-- 
2.43.0


From 0bfece1b4be991f9defe625ae25ad17a0c9feb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 07/16] fix: keep the resampler history at the end of the
 stream

The remaining samples were passed to the resampler after changing its chunk
size. rubato::SincFixedIn finds the history of input samples based on the
current chunk size, so the last part of the stream was preceded by random
samples from the middle of the previous chunk and the resulting click changed
the fingerprint. Use small chunks of a constant size instead.
---
 chromaprint/src/audio_processor.rs | 43 ++++++++++++------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index d74acaf..5481e63 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -7,6 +7,13 @@ use crate::stages::{AudioConsumer, Stage};
 const MIN_SAMPLE_RATE: u32 = 1000;
 const MAX_BUFFER_SIZE: usize = 1024 * 32;
 
+/// Number of samples passed at once to the resampler.
+///
+/// It has to be constant, because [rubato::SincFixedIn] loses its history of input samples
+/// whenever the chunk size changes. It is also the upper bound for the number of samples that may
+/// be left unprocessed at the end of the stream, so it should be small.
+const RESAMPLER_CHUNK_SIZE: usize = 8;
+
 pub struct AudioProcessor<C: AudioConsumer<f64>> {
     buffer: Box<[i16]>,
     buffer_offset: usize,
@@ -64,46 +71,29 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
         consumed * channels
     }
 
-    fn resample(&mut self, is_end: bool) {
+    fn resample(&mut self) {
         for &sample in &self.buffer[..self.buffer_offset] {
             self.input.push(f64::from(sample) / f64::from(i16::MAX));
         }
         self.buffer_offset = 0;
 
         if let Some(resampler) = self.resampler.as_mut() {
-            let default_input_frames = resampler.input_frames_next();
-            while !self.input.is_empty() {
-                if self.input.len() < resampler.input_frames_next() {
-                    if is_end {
-                        // Update chunk size to accept the remaining samples
-                        resampler
-                            .set_chunk_size(self.input.len())
-                            .expect("cannot update chunk size for the resampler");
-                    } else {
-                        break;
-                    }
-                }
-
-                let required_input = resampler.input_frames_next();
+            let mut processed_samples = 0;
+            while self.input.len() - processed_samples >= resampler.input_frames_next() {
                 self.output_buffer
                     .resize(resampler.output_frames_next(), 0.0);
                 let (read_samples, written_samples) = resampler
                     .process_into_buffer(
-                        &[&self.input[..required_input]],
+                        &[&self.input[processed_samples..]],
                         std::slice::from_mut(&mut self.output_buffer),
                         None,
                     )
                     .expect("invalid parameters for resampler");
-                self.input.drain(..read_samples);
+                processed_samples += read_samples;
                 self.consumer
                     .consume(&self.output_buffer[..written_samples]);
-
-                if is_end {
-                    resampler
-                        .set_chunk_size(default_input_frames)
-                        .expect("cannot restore chunk size for the resampler");
-                }
             }
+            self.input.drain(..processed_samples);
         } else {
             self.consumer.consume(&self.input);
             self.input.clear();
@@ -131,6 +121,7 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
 
         self.channels = channels;
         self.buffer_offset = 0;
+        self.input.clear();
         self.consumer.reset();
 
         if self.target_sample_rate != sample_rate {
@@ -144,7 +135,7 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
                     interpolation: rubato::SincInterpolationType::Nearest,
                     window: rubato::WindowFunction::Blackman,
                 },
-                MAX_BUFFER_SIZE,
+                RESAMPLER_CHUNK_SIZE,
                 1,
             )?;
             self.output_buffer
@@ -159,7 +150,7 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
 
     pub(crate) fn flush(&mut self) {
         if self.buffer_offset > 0 {
-            self.resample(true);
+            self.resample();
         }
         self.consumer.flush();
     }
@@ -186,7 +177,7 @@ impl<C: AudioConsumer<f64>> AudioConsumer for AudioProcessor<C> {
             index += self.load(&data[index..], self.channels as usize);
             if self.buffer.len() == self.buffer_offset {
                 // Full buffer
-                self.resample(false);
+                self.resample();
             }
         }
     }
-- 
2.43.0


From 41f272f66828013f15389bf350e6ef54729dba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 08/16] fix: remove leading silence when requested by the
 configuration

Configuration::with_removed_silence() had no effect, so preset_test4() produced
the same fingerprints as preset_test2(). Implement the stage the same way as
the reference implementation does.
---
 chromaprint/src/fingerprinter.rs   | 11 ++--
 chromaprint/src/lib.rs             |  1 +
 chromaprint/src/silence_remover.rs | 80 ++++++++++++++++++++++++++++++
 3 files changed, 88 insertions(+), 4 deletions(-)
 create mode 100644 chromaprint/src/silence_remover.rs

diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 7fdb8c6..1602386 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -7,6 +7,7 @@ use crate::fft::Fft;
 use crate::filter::{Filter, FilterKind};
 use crate::fingerprint_calculator::FingerprintCalculator;
 use crate::quantize::Quantizer;
+use crate::silence_remover::SilenceRemover;
 use crate::stages::{AudioConsumer, Stage};
 
 /// Structure containing configuration for a [Fingerprinter].
@@ -191,10 +192,12 @@ impl Fingerprinter {
         )
         .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
-        let processor = AudioProcessor::new(
-            DEFAULT_SAMPLE_RATE,
-            Box::new(fft) as Box<dyn AudioConsumer<_, Output = _>>,
-        );
+        let consumer: Box<dyn AudioConsumer<_, Output = _>> = if config.remove_silence {
+            Box::new(SilenceRemover::new(config.silence_threshold, fft))
+        } else {
+            Box::new(fft)
+        };
+        let processor = AudioProcessor::new(DEFAULT_SAMPLE_RATE, consumer);
         Self { processor }
     }
 
diff --git a/chromaprint/src/lib.rs b/chromaprint/src/lib.rs
index bac7a4e..865a1b8 100644
--- a/chromaprint/src/lib.rs
+++ b/chromaprint/src/lib.rs
@@ -20,5 +20,6 @@ mod gaussian;
 mod gradient;
 mod quantize;
 mod rolling_image;
+mod silence_remover;
 mod stages;
 mod utils;
diff --git a/chromaprint/src/silence_remover.rs b/chromaprint/src/silence_remover.rs
new file mode 100644
index 0000000..b9e3b54
--- /dev/null
+++ b/chromaprint/src/silence_remover.rs
@@ -0,0 +1,80 @@
+use crate::stages::{AudioConsumer, Stage};
+
+/// Number of samples used to calculate the average level (5 ms at 11025 Hz).
+const SILENCE_WINDOW: usize = 55;
+
+/// Skips the initial part of an audio stream until its average level exceeds the threshold.
+pub(crate) struct SilenceRemover<C: AudioConsumer<f64>> {
+    consumer: C,
+    threshold: u32,
+    is_start: bool,
+    window: [u32; SILENCE_WINDOW],
+    window_offset: usize,
+    window_size: usize,
+    window_sum: u32,
+}
+
+impl<C: AudioConsumer<f64>> SilenceRemover<C> {
+    pub(crate) fn new(threshold: u32, consumer: C) -> Self {
+        Self {
+            consumer,
+            threshold,
+            is_start: true,
+            window: [0; SILENCE_WINDOW],
+            window_offset: 0,
+            window_size: 0,
+            window_sum: 0,
+        }
+    }
+
+    /// Adds a level to the moving average and returns the updated average.
+    fn average_level(&mut self, level: u32) -> u32 {
+        self.window_sum += level;
+        self.window_sum -= self.window[self.window_offset];
+        self.window[self.window_offset] = level;
+        self.window_offset = (self.window_offset + 1) % SILENCE_WINDOW;
+        self.window_size = SILENCE_WINDOW.min(self.window_size + 1);
+        self.window_sum / self.window_size as u32
+    }
+}
+
+impl<C: AudioConsumer<f64>> Stage for SilenceRemover<C> {
+    type Output = C::Output;
+
+    fn output(&self) -> &Self::Output {
+        self.consumer.output()
+    }
+}
+
+impl<C: AudioConsumer<f64>> AudioConsumer<f64> for SilenceRemover<C> {
+    fn reset(&mut self) {
+        self.is_start = true;
+        self.window = [0; SILENCE_WINDOW];
+        self.window_offset = 0;
+        self.window_size = 0;
+        self.window_sum = 0;
+        self.consumer.reset();
+    }
+
+    fn consume(&mut self, mut data: &[f64]) {
+        while self.is_start {
+            let Some((&sample, rest)) = data.split_first() else {
+                return;
+            };
+
+            // The threshold is expressed in units of 16-bit samples.
+            let level = (sample.abs() * f64::from(i16::MAX)).round() as u32;
+            if self.average_level(level) > self.threshold {
+                self.is_start = false;
+            } else {
+                data = rest;
+            }
+        }
+
+        self.consumer.consume(data);
+    }
+
+    fn flush(&mut self) {
+        self.consumer.flush();
+    }
+}
-- 
2.43.0


From 448d6411a02a021b077219b1a26cf4d704945182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:34 +0000
Subject: [PATCH 09/16] fix: fpcalc: handle packets crossing the boundary of a
 chunk

The range of samples belonging to the next chunk was calculated incorrectly,
which led to a panic or to dropping samples. A packet longer than a chunk
caused an arithmetic underflow.
---
 fpcalc/src/main.rs | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index b633661..abb5dcb 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -293,7 +293,7 @@ pub fn main() -> anyhow::Result<()> {
         }
 
         if let Some(buf) = &mut sample_buf {
-            let (stream_done, mut frame_size) = if stream_limit > 0 {
+            let (stream_done, frame_size) = if stream_limit > 0 {
                 let remaining = stream_limit - stream_size;
                 let frame_size = audio_buf.frames();
                 (frame_size > remaining, frame_size.min(remaining))
@@ -310,21 +310,30 @@ pub fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let first_part_size = frame_size;
-            let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                let remaining = chunk_limit + extra_chunk_limit - chunk_size;
-                (first_part_size > remaining, first_part_size.min(remaining))
-            } else {
-                (false, first_part_size)
-            };
-
             buf.copy_interleaved_ref(audio_buf);
-            let frame_data = buf.samples();
-            printer.consume(&frame_data[..first_part_size * reader.channel_count]);
+            let mut frame_data = &buf.samples()[..frame_size * reader.channel_count];
+
+            // A single packet may contribute to more than one chunk.
+            loop {
+                let part_size = frame_data.len() / reader.channel_count;
+                let (chunk_done, part_size) = if chunk_limit > 0 {
+                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    (part_size > remaining, part_size.min(remaining))
+                } else {
+                    (false, part_size)
+                };
+
+                let (part_data, remaining_data) =
+                    frame_data.split_at(part_size * reader.channel_count);
+                printer.consume(part_data);
+                frame_data = remaining_data;
 
-            chunk_size += first_part_size;
+                chunk_size += part_size;
+
+                if !chunk_done {
+                    break;
+                }
 
-            if chunk_done {
                 printer.finish();
 
                 let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
@@ -355,16 +364,6 @@ pub fn main() -> anyhow::Result<()> {
                 chunk_size = 0;
             }
 
-            frame_size -= first_part_size;
-            if frame_size > 0 {
-                printer.consume(
-                    &frame_data[(first_part_size * reader.channel_count)
-                        ..(frame_size * reader.channel_count)],
-                );
-            }
-
-            chunk_size += frame_size;
-
             if stream_done {
                 break;
             }
-- 
2.43.0


From da9310405ec53092896ea245a4433f4c4b3a6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 10/16] fix: fpcalc: do not panic when splitting the input into
 overlapping chunks

After the first chunk a new fingerprinter was created but never started, which
led to a panic. It also lost the audio shared by consecutive chunks, so keep
using the same one and print only the new items instead. The overlap assumed
that the delay is in milliseconds and that the input has the sample rate of
the fingerprinter.
---
 fpcalc/src/main.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index abb5dcb..416a267 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -273,11 +273,13 @@ pub fn main() -> anyhow::Result<()> {
     let mut overlap: f64 = 0.0;
 
     if chunk_limit > 0 && args.overlap {
-        extra_chunk_limit = config.delay();
-        overlap = (config.delay() as f64) * 1.0 / (sample_rate as f64) / 1000.0;
+        // The delay is expressed in samples at the sample rate of the fingerprinter.
+        overlap = config.delay() as f64 / f64::from(config.sample_rate());
+        extra_chunk_limit = (overlap * sample_rate as f64).round() as usize;
     }
 
     let mut first_chunk = true;
+    let mut printed_items = 0;
 
     loop {
         let audio_buf = match reader.next_buffer() {
@@ -336,10 +338,16 @@ pub fn main() -> anyhow::Result<()> {
 
                 printer.finish();
 
-                let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
+                let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
                     / f64::from(reader.sample_rate)
                     + overlap;
-                result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+                let fingerprint = printer.fingerprint();
+                result_printer.print_result(
+                    &fingerprint[printed_items..],
+                    first_chunk,
+                    ts,
+                    chunk_duration,
+                );
 
                 if args.ts {
                     ts = get_current_timestamp();
@@ -348,7 +356,9 @@ pub fn main() -> anyhow::Result<()> {
                 }
 
                 if args.overlap {
-                    printer = Fingerprinter::new(config);
+                    // Keep the audio buffered by the fingerprinter, so there is no gap between
+                    // consecutive chunks.
+                    printed_items = fingerprint.len();
                     ts -= overlap;
                 } else {
                     printer
@@ -373,9 +383,15 @@ pub fn main() -> anyhow::Result<()> {
     printer.finish();
 
     if chunk_size > 0 {
-        let chunk_duration =
-            (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
-        result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+        let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
+            / f64::from(reader.sample_rate)
+            + overlap;
+        result_printer.print_result(
+            &printer.fingerprint()[printed_items..],
+            first_chunk,
+            ts,
+            chunk_duration,
+        );
     }
 
     Ok(())
@@ -391,8 +407,7 @@ struct ResultPrinter<'a> {
 }
 
 impl<'a> ResultPrinter<'a> {
-    fn print_result(&self, printer: &Fingerprinter, first: bool, timestamp: f64, duration: f64) {
-        let raw_fingerprint = printer.fingerprint();
+    fn print_result(&self, raw_fingerprint: &[u32], first: bool, timestamp: f64, duration: f64) {
         let fp = if self.raw {
             if self.signed {
                 // FIXME: Use `u32.case_signed()` once it becomes stable.
-- 
2.43.0


From 30997601e694b134c3ea2883cf58f02ff7ee08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 11/16] fix: fpcalc: avoid overflow when calculating limits

---
 fpcalc/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 416a267..c96fa9c 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -264,10 +264,10 @@ pub fn main() -> anyhow::Result<()> {
     let sample_rate = usize::try_from(reader.sample_rate).context("invalid sample rate")?;
 
     let mut stream_size = 0;
-    let stream_limit = args.length * sample_rate;
+    let stream_limit = args.length.saturating_mul(sample_rate);
 
     let mut chunk_size = 0;
-    let chunk_limit = args.max_chunk_duration() * sample_rate;
+    let chunk_limit = args.max_chunk_duration().saturating_mul(sample_rate);
 
     let mut extra_chunk_limit = 0;
     let mut overlap: f64 = 0.0;
@@ -319,7 +319,7 @@ pub fn main() -> anyhow::Result<()> {
             loop {
                 let part_size = frame_data.len() / reader.channel_count;
                 let (chunk_done, part_size) = if chunk_limit > 0 {
-                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    let remaining = chunk_limit.saturating_add(extra_chunk_limit) - chunk_size;
                     (part_size > remaining, part_size.min(remaining))
                 } else {
                     (false, part_size)
-- 
2.43.0


From 3ad4e60d9bc4149656bcc6b95693f34c07f803fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 12/16] fix: compare: fail when the paths to audio files are
 missing

---
 compare/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index f479851..8a535e5 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -101,8 +101,7 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
 pub fn main() -> anyhow::Result<()> {
     let args: Vec<_> = std::env::args_os().collect();
     if args.len() != 3 {
-        eprintln!("missing paths to audio files");
-        return Ok(());
+        anyhow::bail!("missing paths to audio files");
     }
 
     let config = Configuration::preset_test1();
-- 
2.43.0


From ac83e19220e2a33c93cb7dadd813e83e1f0b197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 13/16] fix: take the sample rate and channels from the decoded
 audio

The tools relied on what the container tells about the track. For AAC, ALAC
and MP3 in MP4 files it does not tell the number of channels, so they were
refused, and where it contradicts the codec fpcalc panicked or both tools
processed the samples with a wrong rate or number of channels.
---
 compare/src/main.rs | 35 +++++++++++++++------------
 fpcalc/src/main.rs  | 58 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 62 insertions(+), 31 deletions(-)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index 8a535e5..652717e 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -47,22 +47,9 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
 
     let track_id = track.id;
 
-    let mut printer = Fingerprinter::new(config);
-    let sample_rate = track
-        .codec_params
-        .sample_rate
-        .context("missing sample rate")?;
-    let channels = track
-        .codec_params
-        .channels
-        // for some codecs symphonia has "channels: None", but has a channel layout, which can be converted into channels
-        .or_else(|| track.codec_params.channel_layout.map(|v| v.into_channels()))
-        .context("missing audio channels")?
-        .count() as u32;
-    printer
-        .start(sample_rate, channels)
-        .context("initializing fingerprinter")?;
+    let params = track.codec_params.clone();
 
+    let mut printer = Fingerprinter::new(config);
     let mut sample_buf = None;
 
     #[allow(clippy::while_let_loop)]
@@ -79,7 +66,12 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
         match decoder.decode(&packet) {
             Ok(audio_buf) => {
                 if sample_buf.is_none() {
+                    // The container may not tell the sample rate and the channels, or tell them
+                    // differently from the decoder.
                     let spec = *audio_buf.spec();
+                    printer
+                        .start(spec.rate, spec.channels.count() as u32)
+                        .context("initializing fingerprinter")?;
                     let duration = audio_buf.capacity() as u64;
                     sample_buf = Some(SampleBuffer::<i16>::new(duration, spec));
                 }
@@ -94,6 +86,19 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
         }
     }
 
+    if sample_buf.is_none() {
+        let sample_rate = params.sample_rate.context("missing sample rate")?;
+        let channels = params
+            .channels
+            // for some codecs symphonia has "channels: None", but has a channel layout, which can be converted into channels
+            .or_else(|| params.channel_layout.map(|v| v.into_channels()))
+            .context("missing audio channels")?
+            .count() as u32;
+        printer
+            .start(sample_rate, channels)
+            .context("initializing fingerprinter")?;
+    }
+
     printer.finish();
     Ok(printer.fingerprint().to_vec())
 }
diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index c96fa9c..7d5d865 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -157,6 +157,8 @@ struct AudioReader {
     track_id: u32,
     sample_rate: u32,
     channel_count: usize,
+    /// Whether the decoder holds a buffer that has not been returned yet.
+    decoded_ahead: bool,
 }
 
 impl AudioReader {
@@ -193,28 +195,52 @@ impl AudioReader {
             .make(&track.codec_params, &dec_opts)
             .context("unsupported codec")?;
 
-        let sample_rate = track
-            .codec_params
-            .sample_rate
-            .context("missing sample rate")?;
-        let channel_count = track
-            .codec_params
-            .channels
-            // for some codecs symphonia has "channels: None", but has a channel layout, which can be converted into channels
-            .or_else(|| track.codec_params.channel_layout.map(|v| v.into_channels()))
-            .context("missing audio channels")?
-            .count();
-
-        Ok(Self {
+        let params = track.codec_params.clone();
+
+        let mut reader = Self {
             format,
             decoder,
             track_id,
-            sample_rate,
-            channel_count,
-        })
+            sample_rate: 0,
+            channel_count: 0,
+            decoded_ahead: false,
+        };
+
+        // The container may not tell the sample rate and the channels, or tell them differently
+        // from the decoder, so they are taken from the decoded audio.
+        let spec = match reader.decode_next() {
+            Ok(audio_buf) => Some(*audio_buf.spec()),
+            Err(Error::DecodeError(err)) => Err(Error::DecodeError(err))?,
+            Err(_) => None,
+        };
+
+        if let Some(spec) = spec {
+            reader.sample_rate = spec.rate;
+            reader.channel_count = spec.channels.count();
+            reader.decoded_ahead = true;
+        } else {
+            reader.sample_rate = params.sample_rate.context("missing sample rate")?;
+            reader.channel_count = params
+                .channels
+                // for some codecs symphonia has "channels: None", but has a channel layout, which can be converted into channels
+                .or_else(|| params.channel_layout.map(|v| v.into_channels()))
+                .context("missing audio channels")?
+                .count();
+        }
+
+        Ok(reader)
     }
 
     fn next_buffer(&mut self) -> Result<AudioBufferRef<'_>, Error> {
+        if self.decoded_ahead {
+            self.decoded_ahead = false;
+            return Ok(self.decoder.last_decoded());
+        }
+
+        self.decode_next()
+    }
+
+    fn decode_next(&mut self) -> Result<AudioBufferRef<'_>, Error> {
         let packet = loop {
             let packet = match self.format.next_packet() {
                 Ok(packet) => packet,
-- 
2.43.0


From 98d839a4b21b485ac3659896da47b2c360640b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 14/16] fix: report output that cannot be written instead of
 panicking

Writing to a full device or a closed pipe ended fpcalc and compare by a
panic of println!. Both now end with the error, as for any other failure.
---
 compare/src/main.rs | 18 ++++++++++---
 fpcalc/src/main.rs  | 65 ++++++++++++++++++++++++++++++---------------
 2 files changed, 57 insertions(+), 26 deletions(-)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index 652717e..cb2686c 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -1,5 +1,6 @@
 mod utils;
 
+use std::io::{self, Write};
 use std::path::Path;
 
 use anyhow::Context;
@@ -115,10 +116,18 @@ pub fn main() -> anyhow::Result<()> {
 
     let segments = match_fingerprints(&fp1, &fp2, &config)?;
 
-    println!("  #  |          File 1          |          File 2          |  Duration  |  Score  ");
-    println!("-----+--------------------------+--------------------------+------------+---------");
+    let mut out = io::stdout().lock();
+    writeln!(
+        out,
+        "  #  |          File 1          |          File 2          |  Duration  |  Score  "
+    )?;
+    writeln!(
+        out,
+        "-----+--------------------------+--------------------------+------------+---------"
+    )?;
     for (idx, segment) in segments.iter().enumerate() {
-        println!(
+        writeln!(
+            out,
             "{:>4} | {} -- {} | {} -- {} | {} | {:>6.02}",
             idx + 1,
             segment.start1(&config).display_duration(),
@@ -127,8 +136,9 @@ pub fn main() -> anyhow::Result<()> {
             segment.end2(&config).display_duration(),
             segment.duration(&config).display_duration(),
             segment.score,
-        );
+        )?;
     }
+    out.flush()?;
 
     Ok(())
 }
diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 7d5d865..519bf73 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -2,6 +2,7 @@ use base64::prelude::{Engine, BASE64_URL_SAFE_NO_PAD};
 use chrono::Local;
 use clap::Parser;
 use std::fmt;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 
 use anyhow::Context;
@@ -368,12 +369,14 @@ pub fn main() -> anyhow::Result<()> {
                     / f64::from(reader.sample_rate)
                     + overlap;
                 let fingerprint = printer.fingerprint();
-                result_printer.print_result(
-                    &fingerprint[printed_items..],
-                    first_chunk,
-                    ts,
-                    chunk_duration,
-                );
+                result_printer
+                    .print_result(
+                        &fingerprint[printed_items..],
+                        first_chunk,
+                        ts,
+                        chunk_duration,
+                    )
+                    .context("writing the result")?;
 
                 if args.ts {
                     ts = get_current_timestamp();
@@ -412,12 +415,14 @@ pub fn main() -> anyhow::Result<()> {
         let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
             / f64::from(reader.sample_rate)
             + overlap;
-        result_printer.print_result(
-            &printer.fingerprint()[printed_items..],
-            first_chunk,
-            ts,
-            chunk_duration,
-        );
+        result_printer
+            .print_result(
+                &printer.fingerprint()[printed_items..],
+                first_chunk,
+                ts,
+                chunk_duration,
+            )
+            .context("writing the result")?;
     }
 
     Ok(())
@@ -433,7 +438,15 @@ struct ResultPrinter<'a> {
 }
 
 impl<'a> ResultPrinter<'a> {
-    fn print_result(&self, raw_fingerprint: &[u32], first: bool, timestamp: f64, duration: f64) {
+    fn print_result(
+        &self,
+        raw_fingerprint: &[u32],
+        first: bool,
+        timestamp: f64,
+        duration: f64,
+    ) -> io::Result<()> {
+        let mut out = io::stdout().lock();
+
         let fp = if self.raw {
             if self.signed {
                 // FIXME: Use `u32.case_signed()` once it becomes stable.
@@ -459,31 +472,39 @@ impl<'a> ResultPrinter<'a> {
         match self.format {
             OutputFormat::Text => {
                 if !first {
-                    println!();
+                    writeln!(out)?;
                 }
 
                 if self.abs_ts {
-                    println!("TIMESTAMP={timestamp:.2}");
+                    writeln!(out, "TIMESTAMP={timestamp:.2}")?;
                 }
-                println!("DURATION={duration}");
-                println!("FINGERPRINT={fp}");
+                writeln!(out, "DURATION={duration}")?;
+                writeln!(out, "FINGERPRINT={fp}")?;
             }
             OutputFormat::Json => {
                 if self.max_chunk_duration != 0 {
                     if self.raw {
-                        println!("{{\"timestamp\": {timestamp:.2}, \"duration\": {duration:.2}, \"fingerprint\": [{fp}]}}");
+                        writeln!(out, "{{\"timestamp\": {timestamp:.2}, \"duration\": {duration:.2}, \"fingerprint\": [{fp}]}}")?;
                     } else {
-                        println!("{{\"timestamp\": {timestamp:.2}, \"duration\": {duration:.2}, \"fingerprint\": \"{fp}\"}}");
+                        writeln!(out, "{{\"timestamp\": {timestamp:.2}, \"duration\": {duration:.2}, \"fingerprint\": \"{fp}\"}}")?;
                     }
                 } else if self.raw {
-                    println!("{{\"duration\": {duration:.2}, \"fingerprint\": [{fp}]}}");
+                    writeln!(
+                        out,
+                        "{{\"duration\": {duration:.2}, \"fingerprint\": [{fp}]}}"
+                    )?;
                 } else {
-                    println!("{{\"duration\": {duration:.2}, \"fingerprint\": \"{fp}\"}}");
+                    writeln!(
+                        out,
+                        "{{\"duration\": {duration:.2}, \"fingerprint\": \"{fp}\"}}"
+                    )?;
                 }
             }
             OutputFormat::Plain => {
-                println!("{fp}");
+                writeln!(out, "{fp}")?;
             }
         }
+
+        out.flush()
     }
 }
-- 
2.43.0


From 6c09dc0c5cc93daac84167fd20badb2e526c2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 15/16] fix: fail on packets that are cut short or unsupported

The decoder reports a packet that ends early as an I/O error, which fpcalc took
for the end of the stream: it printed the fingerprint of the audio before that
packet and succeeded. compare stopped there instead of skipping the packet.
---
 compare/src/main.rs |  5 ++---
 fpcalc/src/main.rs  | 29 ++++++++++++++---------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/compare/src/main.rs b/compare/src/main.rs
index cb2686c..fb2c148 100644
--- a/compare/src/main.rs
+++ b/compare/src/main.rs
@@ -6,7 +6,6 @@ use std::path::Path;
 use anyhow::Context;
 use symphonia::core::audio::SampleBuffer;
 use symphonia::core::codecs::{DecoderOptions, CODEC_TYPE_NULL};
-use symphonia::core::errors::Error;
 use symphonia::core::formats::FormatOptions;
 use symphonia::core::io::MediaSourceStream;
 use symphonia::core::meta::MetadataOptions;
@@ -82,8 +81,8 @@ fn calc_fingerprint(path: impl AsRef<Path>, config: &Configuration) -> anyhow::R
                     printer.consume(buf.samples());
                 }
             }
-            Err(Error::DecodeError(_)) => (),
-            Err(_) => break,
+            // The packet cannot be decoded (it may be too short), the following ones may.
+            Err(_) => (),
         }
     }
 
diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 519bf73..f63c3bb 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -209,11 +209,7 @@ impl AudioReader {
 
         // The container may not tell the sample rate and the channels, or tell them differently
         // from the decoder, so they are taken from the decoded audio.
-        let spec = match reader.decode_next() {
-            Ok(audio_buf) => Some(*audio_buf.spec()),
-            Err(Error::DecodeError(err)) => Err(Error::DecodeError(err))?,
-            Err(_) => None,
-        };
+        let spec = reader.decode_next()?.map(|audio_buf| *audio_buf.spec());
 
         if let Some(spec) = spec {
             reader.sample_rate = spec.rate;
@@ -232,29 +228,33 @@ impl AudioReader {
         Ok(reader)
     }
 
-    fn next_buffer(&mut self) -> Result<AudioBufferRef<'_>, Error> {
+    /// Returns the next buffer, or `None` at the end of the stream.
+    fn next_buffer(&mut self) -> Result<Option<AudioBufferRef<'_>>, Error> {
         if self.decoded_ahead {
             self.decoded_ahead = false;
-            return Ok(self.decoder.last_decoded());
+            return Ok(Some(self.decoder.last_decoded()));
         }
 
         self.decode_next()
     }
 
-    fn decode_next(&mut self) -> Result<AudioBufferRef<'_>, Error> {
+    fn decode_next(&mut self) -> Result<Option<AudioBufferRef<'_>>, Error> {
         let packet = loop {
             let packet = match self.format.next_packet() {
                 Ok(packet) => packet,
-                err => break err,
+                Err(Error::DecodeError(err)) => return Err(Error::DecodeError(err)),
+                Err(_) => return Ok(None),
             };
 
             if packet.track_id() != self.track_id {
                 continue;
             }
 
-            break Ok(packet);
+            break packet;
         };
-        packet.and_then(|pkt| self.decoder.decode(&pkt))
+        // Whatever the decoder does not accept (also for being too short) is not the end of the
+        // stream.
+        self.decoder.decode(&packet).map(Some)
     }
 }
 
@@ -309,10 +309,9 @@ pub fn main() -> anyhow::Result<()> {
     let mut printed_items = 0;
 
     loop {
-        let audio_buf = match reader.next_buffer() {
-            Ok(buffer) => buffer,
-            Err(Error::DecodeError(err)) => Err(Error::DecodeError(err))?,
-            Err(_) => break,
+        let audio_buf = match reader.next_buffer()? {
+            Some(buffer) => buffer,
+            None => break,
         };
 
         if sample_buf.is_none() {
-- 
2.43.0


From 7314bad72fec2804faa0218ba5960411dabe1e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 16/16] fix: do not read on after the end of the stream

Symphonia's Matroska reader panics when another packet is requested after
the end of a file that is cut off before its first audio packet.
---
 fpcalc/src/main.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index f63c3bb..f2b0718 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -160,6 +160,8 @@ struct AudioReader {
     channel_count: usize,
     /// Whether the decoder holds a buffer that has not been returned yet.
     decoded_ahead: bool,
+    /// Whether the stream has ended. Format readers may panic when they are used after that.
+    ended: bool,
 }
 
 impl AudioReader {
@@ -205,6 +207,7 @@ impl AudioReader {
             sample_rate: 0,
             channel_count: 0,
             decoded_ahead: false,
+            ended: false,
         };
 
         // The container may not tell the sample rate and the channels, or tell them differently
@@ -239,11 +242,18 @@ impl AudioReader {
     }
 
     fn decode_next(&mut self) -> Result<Option<AudioBufferRef<'_>>, Error> {
+        if self.ended {
+            return Ok(None);
+        }
+
         let packet = loop {
             let packet = match self.format.next_packet() {
                 Ok(packet) => packet,
                 Err(Error::DecodeError(err)) => return Err(Error::DecodeError(err)),
-                Err(_) => return Ok(None),
+                Err(_) => {
+                    self.ended = true;
+                    return Ok(None);
+                }
             };
 
             if packet.track_id() != self.track_id {
-- 
2.43.0

