From c9e9786b3a82b65f01123d45f043bdb10a1f37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 01/15] fix: keep the delay line position inside its buffer

change_buffer() with a shorter buffer left the index behind the end of the
new buffer, and an empty buffer (null_mut()) was read and written through a
null pointer.
---
 src/delay_line.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index a29b9a4..39ce81f 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -18,6 +18,11 @@ impl DelayLine {
     #[inline(always)]
     pub fn change_buffer(&mut self, new_slice: MemorySlice<Mutable>) {
         self.buffer = new_slice;
+
+        // the position may lie outside of a shorter buffer
+        if self.index >= self.buffer.len() {
+            self.index = 0;
+        }
     }
 
     #[inline(always)]
@@ -26,7 +31,7 @@ impl DelayLine {
     }
 
     pub fn read(&self) -> f32 {
-        unsafe { self.buffer.get_unchecked(self.index) }
+        self.buffer.get(self.index).unwrap_or(0.0)
     }
 
     pub fn read_wrapped_at(&self, offset: isize) -> f32 {
@@ -42,19 +47,13 @@ impl DelayLine {
     }
 
     pub fn write_and_advance(&mut self, value: f32) {
-        unsafe {
-            self.buffer.assign_unchecked(self.index, value);
-        }
-
-        if self.index == self.buffer.len() - 1 {
-            self.index = 0;
-        } else {
-            self.index += 1;
-        }
+        // fails only if the buffer is empty
+        let _ = self.buffer.assign(self.index, value);
+        self.advance();
     }
 
     pub fn advance(&mut self) {
-        if self.index == self.buffer.len() - 1 {
+        if self.index + 1 >= self.buffer.len() {
             self.index = 0;
         } else {
             self.index += 1;
-- 
2.43.0


From fa52c1b9e96535cbd070d98811d6d1a2efc3af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 02/15] fix: get_sub_slice bound check overflowed for huge
 lengths

offset + sub_length wraps in release builds, so sub_length = usize::MAX was
accepted and yielded a slice reaching far outside of its parent.
---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1f23b5c..fdd49a4 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -120,7 +120,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if offset + sub_length >= self.length {
+        if sub_length >= self.length - offset {
             return Err(LengthOutOfBound);
         }
 
-- 
2.43.0


From 89de32a99cf8acaa5f89d8afe0a0fda6274fd78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 03/15] fix: get_slice_of_four_wrapped overflowed close to
 isize::MAX

index + 3 wraps to a negative number in release builds, which either skipped
the wrapping branch or wrapped to the wrong elements.
---
 src/memory/memory_slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index fdd49a4..58fb626 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -166,7 +166,8 @@ where
     }
 
     pub fn get_slice_of_four_wrapped(&self, index: isize) -> [f32; 4] {
-        if index + 3 >= self.length as isize || index < 0 {
+        if index >= self.length as isize - 3 || index < 0 {
+            let index = index.rem_euclid(self.length as isize);
             unsafe {
                 [
                     self.get_wrapped_unchecked(index + 0),
-- 
2.43.0


From 14920f5346b67de731e953e87e30f7c5f51144fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 04/15] fix: wavetable oscillator read behind the end of its
 table

Within the last table step the interpolation partner is the first element of
the next period; lerp_unchecked read element len() instead.
---
 src/oscillator/osc_wavetable.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oscillator/osc_wavetable.rs b/src/oscillator/osc_wavetable.rs
index e0614e5..06daabd 100644
--- a/src/oscillator/osc_wavetable.rs
+++ b/src/oscillator/osc_wavetable.rs
@@ -21,10 +21,8 @@ impl<PA: PhaseAccumulator> WavetableOscillator<PA> {
         let phase = self.acc.next_value_normalized();
 
         // get interpolated sample
-        unsafe {
-            self.lookup_table
-                .lerp_unchecked(self.lookup_table.len() as f32 * phase)
-        }
+        self.lookup_table
+            .lerp_wrapped(self.lookup_table.len() as f32 * phase)
     }
 
     #[inline(always)]
-- 
2.43.0


From 5f90b3bb2b238e7299781973299041de48fca42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 05/15] fix: normalized phase could round up to 1.0

The highest 128 counter values convert to 2^32 as f32; the phase 1.0 made the
rectangle waveform output 3.0 and the wavetable read behind its end.
---
 src/oscillator/phase_accumulator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 3e3f456..cf08831 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -46,7 +46,8 @@ impl PhaseAccumulator for SoftPhaseAccumulator {
     #[inline(always)]
     fn next_value_normalized(&mut self) -> f32 {
         self.tick();
-        self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0)
+        // 24 bits convert exactly, more could round up to 1.0
+        (self.counter.wrapping_add(self.shift) >> 8) as f32 / 16_777_216.0
     }
 }
 
-- 
2.43.0


From b813c87caf7b6e121b40fadfd34b35655881243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 06/15] fix: SoftPhaseAccumulator::set_freq had no effect

It took the accumulator by value, so the checked frequency was dropped with
it, and it accepted frequencies above nyquist.
---
 src/oscillator/phase_accumulator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index cf08831..11c118f 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -73,7 +73,7 @@ impl SoftPhaseAccumulator {
             .wrapping_add((self.freq * self.min_step) as u32);
     }
 
-    pub fn set_freq(mut self, freq: f32) -> Result<(), FrequencyError> {
+    pub fn set_freq(&mut self, freq: f32) -> Result<(), FrequencyError> {
         if freq == 0.0 {
             return Err(Zero);
         }
@@ -82,6 +82,11 @@ impl SoftPhaseAccumulator {
             return Err(Negative);
         }
 
+        // per sample the phase moves by half a period at most
+        if !(freq * self.min_step <= u32::MAX as f32 / 2.0) {
+            return Err(BiggerThanNyquist);
+        }
+
         return Ok(self.set_freq_unchecked(freq));
     }
 }
-- 
2.43.0


From 7b68183fc2f6e257e8525e61c2699c84fa895b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 07/15] fix: lagrange slice access was evaluated at the wrong
 position

lagrange_wrapped() passed the fraction relative to the first point of the
window, which returned the signal one sample (window 4) early, padded odd
windows with a zero sample and panicked for windows 0 and 1.
lagrange_four_points_wrapped() passed the absolute index.
---
 src/memory/memory_slice.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 58fb626..c867d9d 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -234,11 +234,9 @@ where
         let int_index = index.floor() as isize;
         let mut slice: [f32; 100] = [0.0_f32; 100];
 
-        if window_size > 100 {
-            window_size = 100;
-        }
+        window_size = window_size.clamp(2, 100);
 
-        let lower_bound = ((window_size / 2) as isize).neg() + 1;
+        let lower_bound = (((window_size - 1) / 2) as isize).neg();
         let upper_bound = (window_size / 2) as isize;
 
         for i in lower_bound..=upper_bound {
@@ -248,14 +246,20 @@ where
             }
         }
 
-        lagrange(&slice[..window_size], index - int_index as f32)
+        lagrange(
+            &slice[..window_size],
+            index - (int_index + lower_bound) as f32,
+        )
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
+        let int_index = index.floor() as isize;
+
+        // the index lies between the second and the third of the four points
         unsafe {
             lagrange_only_4_elements(
-                &self.get_slice_of_four_wrapped(index.floor() as isize)[..],
-                index,
+                &self.get_slice_of_four_wrapped(int_index - 1)[..],
+                index - (int_index - 1) as f32,
             )
         }
     }
-- 
2.43.0


From ff212bff9739c45ea06a28c3cf6bb76a51baa78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 08/15] fix: simpsons_rule counted the odd nodes twice

The integral of a constant came out 5/3 too large.
---
 src/float/integral.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/float/integral.rs b/src/float/integral.rs
index 343181d..24b3cc7 100644
--- a/src/float/integral.rs
+++ b/src/float/integral.rs
@@ -12,7 +12,6 @@ pub fn simpsons_rule<const N: usize>(f: fn(f32) -> f32, a: f32, b: f32) -> f32 {
         * (f(a)
             + 4.0 * y[1..N].iter().step_by(2).sum::<f32>()
             + 2.0 * y[2..N - 1].iter().step_by(2).sum::<f32>()
-            + 4.0 * y[1..].iter().step_by(2).sum::<f32>()
             + if N % 2 == 0 { f(b) } else { 0.0 });
     integral
 }
-- 
2.43.0


From aca81bbb4778b014dea91c9da0c88599f4129550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 09/15] fix: decibels of 0, infinity, NaN and negative ratios

micromath's log10 is only defined for positive finite numbers: without std,
0.0 gave -764 dB instead of -INF, INF gave NaN and negative ratios panicked.
to_decibels()/to_decibels_checked() additionally passed NaN through as Ok.
---
 src/decibels.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/decibels.rs b/src/decibels.rs
index a9fcc1e..2255c72 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -20,12 +20,24 @@ pub trait Decibels {
 impl Decibels for f32 {
     #[inline(always)]
     fn to_decibels_unchecked(&self) -> f32 {
+        if *self == 0.0 {
+            return f32::NEG_INFINITY;
+        }
+
+        if !(*self > 0.0) {
+            return f32::NAN;
+        }
+
+        if self.is_infinite() {
+            return f32::INFINITY;
+        }
+
         20.0 * self.log10()
     }
 
     #[inline(always)]
     fn to_decibels(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if *self < 0.0 || self.is_nan() {
             return Err(Nan);
         }
 
@@ -34,7 +46,7 @@ impl Decibels for f32 {
 
     #[inline(always)]
     fn to_decibels_checked(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if *self < 0.0 || self.is_nan() {
             return Err(Nan);
         }
 
-- 
2.43.0


From 1890c3d1fd45006cbf6d75f60587c8073509256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 10/15] fix: AudioRateADSR::new accepts any slope

set_slope() limits the slope, new() did not: slope 0 divided by zero and made
the attack exponent infinite.
---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 8fe88ab..ed2ff97 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -49,7 +49,7 @@ impl AudioRateADSR {
             release: set_time_parameter(release_in_secs, sr),
 
             sr,
-            slope,
+            slope: slope.clamp(1.0 / BIGGEST_SLOPE, BIGGEST_SLOPE),
             t: 0.0,
             state: Idle,
             release_val: 0.0,
-- 
2.43.0


From 7639ea82c75711db5d7c679df34fa6e78ede2498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 11/15] fix: envelope stages shorter than a sample overflow the
 exponent

For times far below one sample the stage position is way above 1 and powf
panics (debug) or yields NaN. The position ends at 1.
---
 src/envelope.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index ed2ff97..1a26909 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -136,7 +136,7 @@ impl AudioRateADSR {
     // =================
 
     fn next_attack(&mut self) -> f32 {
-        self.t += self.attack;
+        self.t = (self.t + self.attack).min(1.0);
         self.envelope_value = self.t.powf(1.0 / self.slope);
 
         if self.envelope_value >= 1.0 {
@@ -149,7 +149,7 @@ impl AudioRateADSR {
     }
 
     fn next_decay(&mut self) -> f32 {
-        self.t += self.decay;
+        self.t = (self.t + self.decay).min(1.0);
         self.envelope_value =
             ((1.0 - self.t.powf(self.slope)) * (1.0 - self.sustain)) + self.sustain;
 
@@ -162,7 +162,7 @@ impl AudioRateADSR {
     }
 
     fn next_release(&mut self) -> f32 {
-        self.t += self.release;
+        self.t = (self.t + self.release).min(1.0);
         self.envelope_value = (1.0 - self.t.powf(self.slope)) * self.release_val;
 
         // reach idle at ca. -140dB
-- 
2.43.0


From a671adf9ab44700f24b23040ea378998c4800ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 12/15] fix: release starts from the current sustain level

set_sustain() during the sustain stage changed the output, but trigger_off()
released from the level at which the decay ended.
---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 1a26909..b814338 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -96,7 +96,10 @@ impl AudioRateADSR {
     pub fn tick(&mut self) -> f32 {
         match self.state {
             Idle => 0.0,
-            Sustain => self.sustain,
+            Sustain => {
+                self.envelope_value = self.sustain;
+                self.sustain
+            }
             Attack => self.next_attack(),
             Decay => self.next_decay(),
             Release => self.next_release(),
-- 
2.43.0


From c87099d1d0cd5cc028beb5c3e0cbcfe40c7a4e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 13/15] fix: checked interpolation accepts NaN positions and
 empty slices

lerp() and MemorySlice::lerp() returned Ok(NaN) for a NaN position, and the
latter underflowed on an empty slice.
---
 src/float/interpolation.rs | 2 +-
 src/memory/memory_slice.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/float/interpolation.rs b/src/float/interpolation.rs
index 52e563c..8ebf4cb 100644
--- a/src/float/interpolation.rs
+++ b/src/float/interpolation.rs
@@ -20,7 +20,7 @@ pub fn lerp(a: f32, b: f32, interpolate: f32) -> Result<f32, InterpolationError>
         return Err(InterpolationError::InputInfinite);
     }
 
-    if interpolate < 0.0 || interpolate > 1.0 {
+    if !(interpolate >= 0.0 && interpolate <= 1.0) {
         return Err(InterpolationError::InterpolationRange);
     }
 
diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index c867d9d..382dee7 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -201,7 +201,7 @@ where
     }
 
     pub fn lerp(&self, index: f32) -> Result<f32, MemSliceError> {
-        if index < 0.0 {
+        if self.length == 0 || !(index >= 0.0) {
             return Err(IndexOutOfBound);
         }
 
-- 
2.43.0


From b20463c26ea83fea23ba4f5c745f7805f9503cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 14/15] fix: lookup_bl_rect read behind the end of its table

At exactly 0.25 and 0.75 the interpolation starts at the last table element,
so lerp_unchecked read one element past it.
---
 src/float/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/float/math.rs b/src/float/math.rs
index 9b6eb56..98f9ac0 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -165,22 +165,22 @@ impl AdditionalF32Ext for f32 {
 
         if *self <= 0.25 {
             let f_index = self * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self <= 0.5 {
             let f_index = (0.25 - (self - 0.25)) * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self <= 0.75 {
             let f_index = (self - 0.5) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self < 1.0 {
             let f_index = (0.25 - (self - 0.75)) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp_wrapped(f_index * len as f32);
         }
 
         return 0.0;
-- 
2.43.0


From ff36e2054ee96076a29cff12fe7b2e8ac6452596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 15/15] fix: checked lerp rejected the last element of longer
 slices

The position had to be less than len - 1 + 10 * EPSILON, which rounds to
len - 1 for slices longer than a few dozen elements.
---
 src/memory/memory_slice.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 382dee7..12b654f 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -205,10 +205,9 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if index == (self.length - 1) as f32
-            && index < self.length as f32 - 1.0 + 10.0 * f32::EPSILON
-        {
-            return Ok(unsafe { self.get_unchecked(index as usize) });
+        // no neighbour is needed to read the last element
+        if index == (self.length - 1) as f32 {
+            return self.get(index as usize);
         }
 
         let a = self.get(index as usize)?;
-- 
2.43.0

