From cf076ab88154e57a6c95a2f3312ba448c61d7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 01/24] fix: keep the delay line cursor inside a shorter
 replacement buffer

---
 src/delay_line.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index a29b9a4..d0c841a 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -18,6 +18,11 @@ impl DelayLine {
     #[inline(always)]
     pub fn change_buffer(&mut self, new_slice: MemorySlice<Mutable>) {
         self.buffer = new_slice;
+
+        // the cursor must stay inside of the new buffer
+        if self.index >= self.buffer.len() {
+            self.index = 0;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 68977e160804f6932edf6a8fbbf4fbf9677f7c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 02/24] fix: grant sub slices up to the end of the slice,
 without overflowing

---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1f23b5c..82fd3a7 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -120,7 +120,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if offset + sub_length >= self.length {
+        if sub_length > self.length - offset {
             return Err(LengthOutOfBound);
         }
 
-- 
2.43.0


From 73e2e27b7e7413a52dfd75ee4d2ecceb0ac55899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 03/24] fix: checked lerp on an empty slice or with NaN reports
 an error

---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 82fd3a7..4a0167f 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -200,7 +200,7 @@ where
     }
 
     pub fn lerp(&self, index: f32) -> Result<f32, MemSliceError> {
-        if index < 0.0 {
+        if self.length == 0 || index.is_nan() || index < 0.0 {
             return Err(IndexOutOfBound);
         }
 
-- 
2.43.0


From b8496268602630b58052d423f244d17ef807a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 04/24] fix: four element window near the integer limits read
 out of bounds

---
 src/memory/memory_slice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 4a0167f..44b9609 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -166,7 +166,10 @@ where
     }
 
     pub fn get_slice_of_four_wrapped(&self, index: isize) -> [f32; 4] {
-        if index + 3 >= self.length as isize || index < 0 {
+        if index >= self.length as isize - 3 || index < 0 {
+            // wrap first, so that positions near the integer limits cannot overflow
+            let index = index.rem_euclid(self.length as isize);
+
             unsafe {
                 [
                     self.get_wrapped_unchecked(index + 0),
-- 
2.43.0


From 506c98ceb9db76c0fb3b34f097c87d98f3eeab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 05/24] fix: evaluate wrapped lagrange relative to the first
 gathered point

---
 src/memory/memory_slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 44b9609..1283164 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -250,7 +250,11 @@ where
             }
         }
 
-        lagrange(&slice[..window_size], index - int_index as f32)
+        // number of gathered points, position relative to the first one of them
+        let points = (upper_bound - lower_bound + 1) as usize;
+        let x_point = index - int_index as f32 + lower_bound.neg() as f32;
+
+        lagrange(&slice[..points], x_point)
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
-- 
2.43.0


From 5e9890aedb6b42a1ea7179d81fed2dc3b79beb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 06/24] fix: evaluate four point lagrange relative to the
 window

---
 src/memory/memory_slice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1283164..1d57a2b 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -258,10 +258,12 @@ where
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
+        let int_index = index.floor() as isize;
+
         unsafe {
             lagrange_only_4_elements(
-                &self.get_slice_of_four_wrapped(index.floor() as isize)[..],
-                index,
+                &self.get_slice_of_four_wrapped(int_index)[..],
+                index - int_index as f32,
             )
         }
     }
-- 
2.43.0


From 13f34da5dd31fc15e81db16284d38ba69e5c5338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 07/24] fix: wavetable oscillator read past the end of its
 table

---
 src/oscillator/osc_wavetable.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oscillator/osc_wavetable.rs b/src/oscillator/osc_wavetable.rs
index e0614e5..06daabd 100644
--- a/src/oscillator/osc_wavetable.rs
+++ b/src/oscillator/osc_wavetable.rs
@@ -21,10 +21,8 @@ impl<PA: PhaseAccumulator> WavetableOscillator<PA> {
         let phase = self.acc.next_value_normalized();
 
         // get interpolated sample
-        unsafe {
-            self.lookup_table
-                .lerp_unchecked(self.lookup_table.len() as f32 * phase)
-        }
+        self.lookup_table
+            .lerp_wrapped(self.lookup_table.len() as f32 * phase)
     }
 
     #[inline(always)]
-- 
2.43.0


From 22dd591d8a2f5bbb712b0ddf9fea79a8cecd1063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 08/24] fix: normalized phase must stay below 1.0

---
 src/oscillator/phase_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 3e3f456..b2cf968 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -46,7 +46,10 @@ impl PhaseAccumulator for SoftPhaseAccumulator {
     #[inline(always)]
     fn next_value_normalized(&mut self) -> f32 {
         self.tick();
-        self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0)
+        let phase = self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0);
+
+        // the biggest counter values round up to 1.0
+        phase.min(1.0 - f32::EPSILON / 2.0)
     }
 }
 
-- 
2.43.0


From d25fccace9d9af4769288329f99395242418a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 09/24] fix: checked frequency setter consumed the accumulator

---
 src/oscillator/phase_accumulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index b2cf968..15a1b7b 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -75,7 +75,7 @@ impl SoftPhaseAccumulator {
             .wrapping_add((self.freq * self.min_step) as u32);
     }
 
-    pub fn set_freq(mut self, freq: f32) -> Result<(), FrequencyError> {
+    pub fn set_freq(&mut self, freq: f32) -> Result<(), FrequencyError> {
         if freq == 0.0 {
             return Err(Zero);
         }
-- 
2.43.0


From e9271802d2c1d56aaed859a278addcc4683a634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 10/24] fix: checked frequency setter never reported
 frequencies above nyquist

---
 src/oscillator/phase_accumulator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 15a1b7b..8aeca16 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -84,6 +84,10 @@ impl SoftPhaseAccumulator {
             return Err(Negative);
         }
 
+        if freq * self.min_step > u32::MAX as f32 / 2.0 {
+            return Err(BiggerThanNyquist);
+        }
+
         return Ok(self.set_freq_unchecked(freq));
     }
 }
-- 
2.43.0


From 654c87098b11f3075a1b7f8315d6e1bc84756d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 11/24] fix: clamp the envelope slope given to the constructor

---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 8fe88ab..ed2ff97 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -49,7 +49,7 @@ impl AudioRateADSR {
             release: set_time_parameter(release_in_secs, sr),
 
             sr,
-            slope,
+            slope: slope.clamp(1.0 / BIGGEST_SLOPE, BIGGEST_SLOPE),
             t: 0.0,
             state: Idle,
             release_val: 0.0,
-- 
2.43.0


From 1be62e079eea187eabff6cdb22153642e7003af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 12/24] fix: limit the envelope phase, so that its power cannot
 overflow to NaN

---
 src/envelope.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index ed2ff97..1a26909 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -136,7 +136,7 @@ impl AudioRateADSR {
     // =================
 
     fn next_attack(&mut self) -> f32 {
-        self.t += self.attack;
+        self.t = (self.t + self.attack).min(1.0);
         self.envelope_value = self.t.powf(1.0 / self.slope);
 
         if self.envelope_value >= 1.0 {
@@ -149,7 +149,7 @@ impl AudioRateADSR {
     }
 
     fn next_decay(&mut self) -> f32 {
-        self.t += self.decay;
+        self.t = (self.t + self.decay).min(1.0);
         self.envelope_value =
             ((1.0 - self.t.powf(self.slope)) * (1.0 - self.sustain)) + self.sustain;
 
@@ -162,7 +162,7 @@ impl AudioRateADSR {
     }
 
     fn next_release(&mut self) -> f32 {
-        self.t += self.release;
+        self.t = (self.t + self.release).min(1.0);
         self.envelope_value = (1.0 - self.t.powf(self.slope)) * self.release_val;
 
         // reach idle at ca. -140dB
-- 
2.43.0


From ca91fdeb8215567fe4518a592e2918aa9970f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 13/24] fix: release from the sustain level that was changed
 while sustaining

---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 1a26909..1bfc1d0 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -96,7 +96,10 @@ impl AudioRateADSR {
     pub fn tick(&mut self) -> f32 {
         match self.state {
             Idle => 0.0,
-            Sustain => self.sustain,
+            Sustain => {
+                self.envelope_value = self.sustain;
+                self.envelope_value
+            }
             Attack => self.next_attack(),
             Decay => self.next_decay(),
             Release => self.next_release(),
-- 
2.43.0


From 3ba142e950784b56cbd7dc75071928ad84be777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 14/24] fix: bandlimited rect lookup read past the end of its
 table

---
 src/float/math.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/float/math.rs b/src/float/math.rs
index 9b6eb56..a6297bd 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -159,28 +159,31 @@ impl AdditionalF32Ext for f32 {
         let buffer = from_slice(&BANDLIMITED_RECT[..]);
         let len = buffer.len() - 1;
 
+        // the last element has no successor to interpolate with
+        let lookup = |index: f32| buffer.lerp(index).unwrap_or(BANDLIMITED_RECT[len]);
+
         if *self <= 0.0 {
             return 0.0;
         }
 
         if *self <= 0.25 {
             let f_index = self * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return lookup(f_index * len as f32);
         }
 
         if *self <= 0.5 {
             let f_index = (0.25 - (self - 0.25)) * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return lookup(f_index * len as f32);
         }
 
         if *self <= 0.75 {
             let f_index = (self - 0.5) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * lookup(f_index * len as f32);
         }
 
         if *self < 1.0 {
             let f_index = (0.25 - (self - 0.75)) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * lookup(f_index * len as f32);
         }
 
         return 0.0;
-- 
2.43.0


From 570de371e2f522be9eb9039f6eebc2ede816d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 15/24] fix: simpson's rule counted its odd terms twice

---
 src/float/integral.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/float/integral.rs b/src/float/integral.rs
index 343181d..24b3cc7 100644
--- a/src/float/integral.rs
+++ b/src/float/integral.rs
@@ -12,7 +12,6 @@ pub fn simpsons_rule<const N: usize>(f: fn(f32) -> f32, a: f32, b: f32) -> f32 {
         * (f(a)
             + 4.0 * y[1..N].iter().step_by(2).sum::<f32>()
             + 2.0 * y[2..N - 1].iter().step_by(2).sum::<f32>()
-            + 4.0 * y[1..].iter().step_by(2).sum::<f32>()
             + if N % 2 == 0 { f(b) } else { 0.0 });
     integral
 }
-- 
2.43.0


From 7c955e1c7632186afb8a96daf39e13a8a1d8ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 16/24] fix: sinc collapsed to zero close to zero

---
 src/float/math.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/float/math.rs b/src/float/math.rs
index a6297bd..78c5335 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -226,8 +226,9 @@ impl AdditionalF32Ext for f32 {
 /// Computes sin(x)/x for f32 with a fixed point approximation of sin(x)
 #[inline(always)]
 fn __sinc_f32(val: f32) -> f32 {
-    if val == 0.0 {
-        1.0
+    if val.abs() < 0.1 {
+        // the fixed point sine is too coarse around zero
+        1.0 - val * val / 6.0
     } else {
         val.fixed_point_sin() / val
     }
-- 
2.43.0


From dd88ee49b6bc085f9f6381066b4e5454a6695331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 17/24] fix: decibels of zero, infinity and negative ratios
 without std

---
 src/decibels.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/decibels.rs b/src/decibels.rs
index a9fcc1e..b3ac438 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -20,6 +20,19 @@ pub trait Decibels {
 impl Decibels for f32 {
     #[inline(always)]
     fn to_decibels_unchecked(&self) -> f32 {
+        if self.is_nan() || *self < 0.0 {
+            return f32::NAN;
+        }
+
+        // the approximated logarithm only handles positive and finite numbers
+        if *self == 0.0 {
+            return f32::NEG_INFINITY;
+        }
+
+        if self.is_infinite() {
+            return f32::INFINITY;
+        }
+
         20.0 * self.log10()
     }
 
-- 
2.43.0


From 837d1d0b00ffe3569ee9dc09ea9025e67c546f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 18/24] fix: checked decibel conversions let NaN through

---
 src/decibels.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decibels.rs b/src/decibels.rs
index b3ac438..a046fe6 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -38,7 +38,7 @@ impl Decibels for f32 {
 
     #[inline(always)]
     fn to_decibels(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if self.is_nan() || *self < 0.0 {
             return Err(Nan);
         }
 
@@ -47,7 +47,7 @@ impl Decibels for f32 {
 
     #[inline(always)]
     fn to_decibels_checked(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if self.is_nan() || *self < 0.0 {
             return Err(Nan);
         }
 
-- 
2.43.0


From 2704f60dd470b52cce59c91c7240c24ada432f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 19/24] fix: checked lerp let a NaN position through

---
 src/float/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/interpolation.rs b/src/float/interpolation.rs
index 52e563c..1aa0b54 100644
--- a/src/float/interpolation.rs
+++ b/src/float/interpolation.rs
@@ -12,7 +12,7 @@ pub fn lerp_unchecked(a: f32, b: f32, interpolate: f32) -> f32 {
 }
 
 pub fn lerp(a: f32, b: f32, interpolate: f32) -> Result<f32, InterpolationError> {
-    if a.is_nan() || b.is_nan() {
+    if a.is_nan() || b.is_nan() || interpolate.is_nan() {
         return Err(InterpolationError::InputNaN);
     }
 
-- 
2.43.0


From 7af8a75b75d18bd676e06ac9868f94d3182c538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 20/24] fix: checked lerp refused the last element of longer
 slices

---
 src/memory/memory_slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1d57a2b..21261b9 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -207,9 +207,8 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if index == (self.length - 1) as f32
-            && index < self.length as f32 - 1.0 + 10.0 * f32::EPSILON
-        {
+        // the last element has no successor to interpolate with
+        if index as usize == self.length - 1 && index == (index as usize) as f32 {
             return Ok(unsafe { self.get_unchecked(index as usize) });
         }
 
-- 
2.43.0


From adafedd46edca3df32d566fb59c820ec6c727d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 21/24] fix: voltage ratio of levels beyond the float range was
 NaN

---
 src/decibels.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decibels.rs b/src/decibels.rs
index a046fe6..a34f953 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -60,6 +60,11 @@ impl Decibels for f32 {
 
     #[inline(always)]
     fn to_volt_ratio(&self) -> f32 {
+        // close to `f32::MAX` the approximated power overflows to infinity, and further up to NaN
+        if *self > 770.62 {
+            return f32::INFINITY;
+        }
+
         10.0.powf(self / 20.0)
     }
 }
-- 
2.43.0


From 7cbca8ada83f5ceaa3996d62deda637b06d3fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 22/24] fix: hyperbolic functions turned into NaN close to
 their overflow

---
 src/float/math.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/float/math.rs b/src/float/math.rs
index 78c5335..f761bfa 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -52,6 +52,10 @@ impl AdditionalF32Ext for f32 {
     /// assert_eq!(1.0.sinh(), 1.17520119);
     /// ```
     fn sinh(&self) -> Self::Output {
+        if self.abs() > 88.0 {
+            return __half_exp_f32(self.abs()).copysign(*self);
+        }
+
         (self.exp() - self.neg().exp()) * 0.5
     }
 
@@ -64,6 +68,10 @@ impl AdditionalF32Ext for f32 {
     /// assert_eq!(1.0.cosh(), 1.5430806);
     /// ```
     fn cosh(&self) -> Self::Output {
+        if self.abs() > 88.0 {
+            return __half_exp_f32(self.abs());
+        }
+
         (self.exp() + self.neg().exp()) * 0.5
     }
 
@@ -223,6 +231,14 @@ impl AdditionalF32Ext for f32 {
     }
 }
 
+/// Computes e^x / 2 for big numbers, where the approximated e^x turns into `NaN` close to its overflow
+#[inline(always)]
+fn __half_exp_f32(val: f32) -> f32 {
+    let root = (val * 0.5).min(88.0).exp();
+
+    root * 0.5 * root
+}
+
 /// Computes sin(x)/x for f32 with a fixed point approximation of sin(x)
 #[inline(always)]
 fn __sinc_f32(val: f32) -> f32 {
-- 
2.43.0


From 58c1c6f0e00f9df45bc8e7ed3180dbc4c25adecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 23/24] fix: an envelope time of -0.0 took two seconds instead
 of one sample

---
 src/envelope.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 1bfc1d0..291a2f5 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -180,6 +180,8 @@ impl AudioRateADSR {
 }
 
 fn set_time_parameter(parameter_in_secs: f32, sr: f32) -> f32 {
+    // -0.0 is as short a time as 0.0
+    let parameter_in_secs = parameter_in_secs + 0.0;
     (1.0 / (parameter_in_secs * sr)).clamp(SHORTEST_TIME_BASE / sr, f32::MAX)
 }
 
-- 
2.43.0


From cbdc24ca3a5a7b03c8963cd1d235e04446fa0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:59 +0000
Subject: [PATCH 24/24] fix: wrapped interpolation panicked or extrapolated for
 NaN and positions beyond 2^31

---
 src/memory/memory_slice.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 21261b9..6142de4 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -8,6 +8,9 @@ use crate::float::{lagrange, lagrange_only_4_elements, lerp_unchecked};
 #[allow(unused_imports)]
 use micromath::F32Ext;
 
+/// The biggest float that is a position on targets with 32-bit integers
+const BIGGEST_POSITION: f32 = 2147483520.0;
+
 ///////////////////////////////////////////////////////////////////////////////
 /// Struct
 ///////////////////////////////////////////////////////////////////////////////
@@ -220,6 +223,7 @@ where
 
     #[inline(always)]
     pub fn lerp_wrapped(&self, index: f32) -> f32 {
+        let index = index.clamp(-BIGGEST_POSITION, BIGGEST_POSITION);
         let int_index = index.floor() as isize;
         let a = self.get_wrapped(int_index);
         let b = self.get_wrapped(int_index + 1);
@@ -232,6 +236,11 @@ where
     ///////////////////////////////////////////////////////////////////////////////
 
     pub fn lagrange_wrapped(&self, index: f32, mut window_size: usize) -> f32 {
+        if index.is_nan() {
+            return index;
+        }
+
+        let index = index.clamp(-BIGGEST_POSITION, BIGGEST_POSITION);
         let int_index = index.floor() as isize;
         let mut slice: [f32; 100] = [0.0_f32; 100];
 
@@ -257,6 +266,7 @@ where
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
+        let index = index.clamp(-BIGGEST_POSITION, BIGGEST_POSITION);
         let int_index = index.floor() as isize;
 
         unsafe {
-- 
2.43.0

