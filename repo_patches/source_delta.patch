From f44b03b9d4e9261bdb847ee603d510d98bcf7bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 1/9] Verification hook: Clone and Debug for the delay lines
 under cfg(rasp_verif)

---
 src/delay/linear_delay.rs | 1 +
 src/delay/mod.rs          | 1 +
 src/lib.rs                | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 689a243..8804acd 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -7,6 +7,7 @@ use traits::{
 };
 
 /// A time-varying, linear interpolating delay line.
+#[cfg_attr(rasp_verif, derive(Clone, Debug))]
 pub struct LinearDelay<T> {
   memory: Vec<T>,
   output: T,
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index bca6508..c57e1db 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -11,6 +11,7 @@ use traits::{
 };
 
 /// A time-varying delay line.
+#[cfg_attr(rasp_verif, derive(Clone, Debug))]
 pub struct Delay<T> {
   memory: Vec<T>,
   output: T,
diff --git a/src/lib.rs b/src/lib.rs
index fa1a08a..c7ddcc3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `rasp_verif` is set only by external verification builds (RUSTFLAGS="--cfg rasp_verif").
+#![allow(unexpected_cfgs)]
+
 extern crate num;
 
 pub mod analysis;
-- 
2.43.0


From 73189cc417a3a594672f71e051f66b0ca0d9f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:42 +0000
Subject: [PATCH 2/9] fix: clear() of OneZero and TwoZero left the last output

last_out() kept returning the output from before clear().
---
 src/filter/one_zero.rs | 1 +
 src/filter/two_zero.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/filter/one_zero.rs b/src/filter/one_zero.rs
index 0e9dd3f..2d69777 100644
--- a/src/filter/one_zero.rs
+++ b/src/filter/one_zero.rs
@@ -61,6 +61,7 @@ impl<T> Processor<T> for OneZero<T> where T: Float {
 
   fn clear(&mut self) {
     self.x_z1 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
diff --git a/src/filter/two_zero.rs b/src/filter/two_zero.rs
index d9955a4..963503e 100644
--- a/src/filter/two_zero.rs
+++ b/src/filter/two_zero.rs
@@ -68,6 +68,7 @@ impl<T> Processor<T> for TwoZero<T> where T: Float {
   fn clear(&mut self) {
     self.x_z1 = num::zero();
     self.x_z2 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
-- 
2.43.0


From e9963a933027567e0caa86f2f1cc790184d13e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:43 +0000
Subject: [PATCH 3/9] fix: window iterators report the remaining length

len() returned the total size however many values were consumed and
size_hint() was missing, so the ExactSizeIterator contract did not hold
(enumerate().rev(), zip().len() and friends panicked or were wrong).
---
 src/window/bartlett.rs        | 7 ++++++-
 src/window/blackman.rs        | 7 ++++++-
 src/window/blackman_harris.rs | 7 ++++++-
 src/window/hamming.rs         | 7 ++++++-
 src/window/hann.rs            | 7 ++++++-
 src/window/triangular.rs      | 7 ++++++-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index c3d456a..a49ab09 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for BartlettIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BartlettIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index aef628d..907a015 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -49,11 +49,16 @@ impl<T> Iterator for BlackmanIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 161d932..85f2102 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -51,11 +51,16 @@ impl<T> Iterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index fc568e2..f2db06c 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -47,11 +47,16 @@ impl<T> Iterator for HammingIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HammingIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hann.rs b/src/window/hann.rs
index eca348e..cb81967 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for HannIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HannIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/triangular.rs b/src/window/triangular.rs
index f646116..76fe6f6 100644
--- a/src/window/triangular.rs
+++ b/src/window/triangular.rs
@@ -48,11 +48,16 @@ impl<T> Iterator for TriangularIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for TriangularIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
-- 
2.43.0


From fff2ddaee1f5db7666d9059d359a9552ca916f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:44 +0000
Subject: [PATCH 4/9] fix: process_block() panicked on an empty block

It now returns the last output, as it does for any other block.
---
 src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traits.rs b/src/traits.rs
index 9448140..6fef79b 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -40,7 +40,7 @@ pub trait Processor<T: Float> {
     for sample in samples.iter_mut() {
       *sample = self.process(*sample);
     }
-    *samples.last().unwrap()
+    self.last_out()
   }
 
   /// Resets memory of all previous input and output to zero.
-- 
2.43.0


From b73c0d7ca69546e6cf28deafdee17687773a4b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 5/9] fix: LinearDelay returned a stale memoised next output

next_out() memoises its result, but the memo survived set_delay(), clear()
and tap edits, and for delays below one sample the input of process().
---
 src/delay/linear_delay.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 8804acd..67d7855 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -111,6 +111,7 @@ impl<T> LinearDelay<T> where T: Float {
     // save fractional part
     self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
     self.om_alpha = T::one() - self.alpha;
+    self.do_next_out = true;
   }
 
   /// Returns the current delay-line length, in samples.
@@ -143,6 +144,7 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
   fn process(&mut self, sample: T) -> T {
     // write input sample into memory
     self.memory[self.write_ptr] = sample;
+    self.do_next_out = true;
     self.write_ptr += 1;
     self.write_ptr %= self.memory.len();
 
@@ -162,6 +164,7 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
       *sample = num::zero();
     }
     self.output = num::zero();
+    self.do_next_out = true;
   }
 
   fn last_out(&self) -> T {
@@ -184,6 +187,7 @@ impl<T> TappableDelayLine<T> for LinearDelay<T> where T: Float {
       tap += self.memory.len() as isize;
     }
     self.memory[tap as usize] = value;
+    self.do_next_out = true;
   }
 
   fn add_to(&mut self, value: T, tap_delay: usize) -> T {
@@ -192,6 +196,7 @@ impl<T> TappableDelayLine<T> for LinearDelay<T> where T: Float {
       tap += self.memory.len() as isize;
     }
     self.memory[tap as usize] = self.memory[tap as usize] + value;
+    self.do_next_out = true;
     self.memory[tap as usize]
   }
 }
-- 
2.43.0


From 54e3f4b6c225553b253e9e80972df1655858993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:47 +0000
Subject: [PATCH 6/9] fix: LinearDelay interpolated with a huge weight for tiny
 delays

A read position rounding up to the buffer length was wrapped to 0 before
the fractional part was taken, which made it the buffer length.
---
 src/delay/linear_delay.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 67d7855..e952b0c 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -104,12 +104,15 @@ impl<T> LinearDelay<T> where T: Float {
 
     // save integer part
     self.read_ptr = read_ptr_integer as usize;
+
+    // save fractional part
+    self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
+
+    // wrap only afterwards, the fraction is relative to the unwrapped position
     if self.read_ptr == self.memory.len() {
       self.read_ptr = 0;
     }
 
-    // save fractional part
-    self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
     self.om_alpha = T::one() - self.alpha;
     self.do_next_out = true;
   }
-- 
2.43.0


From 64af58d918a14d86d3d367b808b49b62f6edbf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 7/9] fix: set_max_delay() corrupted the contents of the delay
 lines

Growing appended space in the middle of the ring: the stored samples after
the write position changed their age and the delay became another one than
get_delay() reports.
---
 src/delay/linear_delay.rs | 9 +++++++++
 src/delay/mod.rs          | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index e952b0c..3db7df8 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -74,7 +74,16 @@ impl<T> LinearDelay<T> where T: Float {
   /// Set the maximum delay-line length, in samples.
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
+
+    // Put the oldest sample first and append the new space, so that every
+    // stored sample keeps its age.
+    let old_len = self.memory.len();
+    self.memory.rotate_left(self.write_ptr);
     self.memory.resize(delay + 1, num::zero());
+    self.write_ptr = old_len;
+
+    let delay_time = self.delay;
+    self.set_delay(delay_time);
   }
 
   /// Returns the maximum delay-line length, in samples.
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index c57e1db..897363e 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -66,7 +66,15 @@ impl<T> Delay<T> where T: Float {
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
     else {
+      // Put the oldest sample first and append the new space, so that every
+      // stored sample keeps its age.
+      let old_len = self.memory.len();
+      self.memory.rotate_left(self.write_ptr);
       self.memory.resize(delay + 1, num::zero());
+      self.write_ptr = old_len;
+
+      let delay_time = self.delay;
+      self.set_delay(delay_time);
     }
   }
 
-- 
2.43.0


From 048040f6b3f39db3e38035175f691e1554e73d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:49 +0000
Subject: [PATCH 8/9] fix: windows of size 1 were NaN

Division by size - 1. The window of a single point is 1.
---
 src/window/bartlett.rs        | 3 +++
 src/window/blackman.rs        | 3 +++
 src/window/blackman_harris.rs | 3 +++
 src/window/hamming.rs         | 3 +++
 src/window/hann.rs            | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index a49ab09..8197c6e 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -21,6 +21,9 @@ impl<T> BartlettIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point has no width to divide by
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index 907a015..acd2f52 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -23,6 +23,9 @@ impl<T> BlackmanIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point has no width to divide by
+    if self.size == 1 { return T::one(); }
+
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
     let size_minus_one : T = num::cast(self.size - 1).unwrap();
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 85f2102..4449d2f 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -23,6 +23,9 @@ impl<T> BlackmanHarrisIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point has no width to divide by
+    if self.size == 1 { return T::one(); }
+
     let two            : T = T::two();
     let three          : T = num::cast(3f64).unwrap();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index f2db06c..9808f6f 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -21,6 +21,9 @@ impl<T> HammingIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point has no width to divide by
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hann.rs b/src/window/hann.rs
index cb81967..a6a2cda 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -21,6 +21,9 @@ impl<T> HannIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // A single point has no width to divide by
+    if self.size == 1 { return T::one(); }
+
     let one : T = T::one();
     let two : T = T::two();
     let half: T = num::cast(0.5f64).unwrap();
-- 
2.43.0


From 372fc943255c82e909754acc71218da3f90f235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:14 +0000
Subject: [PATCH 9/9] fix: LinearDelay read at a wrong position, or out of
 bounds, in lines longer than 2^24 samples

set_delay computed the read position in f32, which cannot count beyond 2^24:
the position was rounded to other samples, past the end of the memory (a panic)
in the worst case. Split the delay itself into whole and fractional part; that
is exact at every size.
---
 src/delay/linear_delay.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 3db7df8..33db79f 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -104,24 +104,26 @@ impl<T> LinearDelay<T> where T: Float {
       delay_time = 0f32;
     }
 
-    let mut read_ptr_integer: f32 = self.write_ptr as f32 - delay_time;
     self.delay = delay_time;
 
-    while read_ptr_integer < 0f32 {
-      read_ptr_integer += self.memory.len() as f32;
+    // Split the delay rather than the read position: unlike a position, it is
+    // an exact f32 whatever the size of the memory.
+    let delay_ceil = delay_time.ceil();
+    let mut whole_delay = delay_ceil as usize;
+    if whole_delay > self.memory.len() - 1 {
+      whole_delay = self.memory.len() - 1;
     }
 
     // save integer part
-    self.read_ptr = read_ptr_integer as usize;
-
-    // save fractional part
-    self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
-
-    // wrap only afterwards, the fraction is relative to the unwrapped position
-    if self.read_ptr == self.memory.len() {
-      self.read_ptr = 0;
+    if self.write_ptr >= whole_delay {
+      self.read_ptr = self.write_ptr - whole_delay;
+    }
+    else {
+      self.read_ptr = self.memory.len() + self.write_ptr - whole_delay;
     }
 
+    // save fractional part
+    self.alpha = num::cast(delay_ceil - delay_time).unwrap();
     self.om_alpha = T::one() - self.alpha;
     self.do_next_out = true;
   }
-- 
2.43.0

