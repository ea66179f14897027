From 3090bdbd32d9a89221f09f529e86892219a16989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:43 +0000
Subject: [PATCH 1/6] fix: reset last output of OneZero and TwoZero on clear

Processor::clear() promises to reset the memory of all previous input and
output to zero, but last_out() kept returning the stale output sample.
---
 src/filter/one_zero.rs | 1 +
 src/filter/two_zero.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/filter/one_zero.rs b/src/filter/one_zero.rs
index 0e9dd3f..2d69777 100644
--- a/src/filter/one_zero.rs
+++ b/src/filter/one_zero.rs
@@ -61,6 +61,7 @@ impl<T> Processor<T> for OneZero<T> where T: Float {
 
   fn clear(&mut self) {
     self.x_z1 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
diff --git a/src/filter/two_zero.rs b/src/filter/two_zero.rs
index d9955a4..963503e 100644
--- a/src/filter/two_zero.rs
+++ b/src/filter/two_zero.rs
@@ -68,6 +68,7 @@ impl<T> Processor<T> for TwoZero<T> where T: Float {
   fn clear(&mut self) {
     self.x_z1 = num::zero();
     self.x_z2 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
-- 
2.43.0


From 93c302e61c9f6952a5b109f8d8629bc06961d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:43 +0000
Subject: [PATCH 2/6] fix: take LinearDelay's fraction before wrapping the read
 pointer

For a tiny delay the read position rounds up to the memory length. The read
pointer was wrapped to zero first, so the interpolation gain became the memory
length instead of zero (LinearDelay::new(1e-9, 4095) had a gain of 4096).
---
 src/delay/linear_delay.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 689a243..3adaee4 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -103,13 +103,14 @@ impl<T> LinearDelay<T> where T: Float {
 
     // save integer part
     self.read_ptr = read_ptr_integer as usize;
-    if self.read_ptr == self.memory.len() {
-      self.read_ptr = 0;
-    }
 
     // save fractional part
     self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
     self.om_alpha = T::one() - self.alpha;
+
+    if self.read_ptr == self.memory.len() {
+      self.read_ptr = 0;
+    }
   }
 
   /// Returns the current delay-line length, in samples.
-- 
2.43.0


From d08d7b471a544311032fcdc78cc801e76d4a6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 3/6] fix: drop LinearDelay's cached next output when the line
 changes

next_out() caches its value for the next process() call, but the cache survived
clear(), set_delay(), tap_in(), add_to() and the write of the new sample, so
that asking for the next output changed what the delay line then produced.
---
 src/delay/linear_delay.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 3adaee4..e2a7ec2 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -111,6 +111,8 @@ impl<T> LinearDelay<T> where T: Float {
     if self.read_ptr == self.memory.len() {
       self.read_ptr = 0;
     }
+
+    self.do_next_out = true;
   }
 
   /// Returns the current delay-line length, in samples.
@@ -145,6 +147,7 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
     self.memory[self.write_ptr] = sample;
     self.write_ptr += 1;
     self.write_ptr %= self.memory.len();
+    self.do_next_out = true;
 
     // interpolate
     self.output = self.next_out();
@@ -162,6 +165,7 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
       *sample = num::zero();
     }
     self.output = num::zero();
+    self.do_next_out = true;
   }
 
   fn last_out(&self) -> T {
@@ -184,6 +188,7 @@ impl<T> TappableDelayLine<T> for LinearDelay<T> where T: Float {
       tap += self.memory.len() as isize;
     }
     self.memory[tap as usize] = value;
+    self.do_next_out = true;
   }
 
   fn add_to(&mut self, value: T, tap_delay: usize) -> T {
@@ -192,6 +197,7 @@ impl<T> TappableDelayLine<T> for LinearDelay<T> where T: Float {
       tap += self.memory.len() as isize;
     }
     self.memory[tap as usize] = self.memory[tap as usize] + value;
+    self.do_next_out = true;
     self.memory[tap as usize]
   }
 }
-- 
2.43.0


From 03ba102637ab68f64d416aa6aa466c23fce3883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 4/6] fix: keep the delay and the stored samples when a delay
 line grows

set_max_delay() appended the new memory behind the ring buffer's last cell
without regard to the read and write pointers: a line of delay 2 grown from 2
to 9 then delayed by 9 samples while get_delay() still returned 2, and taps
returned samples of the wrong age.
---
 src/delay/linear_delay.rs | 9 ++++++++-
 src/delay/mod.rs          | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index e2a7ec2..0787e4c 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -73,7 +73,14 @@ impl<T> LinearDelay<T> where T: Float {
   /// Set the maximum delay-line length, in samples.
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
-    self.memory.resize(delay + 1, num::zero());
+    // The newest and the oldest sample meet at the write pointer: grow the
+    // memory there, so that every stored sample keeps its age.
+    let mut oldest = self.memory.split_off(self.write_ptr);
+    self.memory.resize(delay + 1 - oldest.len(), num::zero());
+    self.memory.append(&mut oldest);
+
+    let current_delay = self.delay;
+    self.set_delay(current_delay);
   }
 
   /// Returns the maximum delay-line length, in samples.
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index bca6508..ccb6ffc 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -65,7 +65,14 @@ impl<T> Delay<T> where T: Float {
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
     else {
-      self.memory.resize(delay + 1, num::zero());
+      // The newest and the oldest sample meet at the write pointer: grow the
+      // memory there, so that every stored sample keeps its age.
+      let mut oldest = self.memory.split_off(self.write_ptr);
+      self.memory.resize(delay + 1 - oldest.len(), num::zero());
+      self.memory.append(&mut oldest);
+
+      let current_delay = self.delay;
+      self.set_delay(current_delay);
     }
   }
 
-- 
2.43.0


From 4a1a46f439f3c9bf3033884074544f8421de7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 5/6] fix: report the remaining length of the window iterators

ExactSizeIterator::len() must be the number of items left, and size_hint() must
agree with it; len() stayed at the full size while items were taken, and
size_hint() was (0, None), so that len() of a zip with a window panicked.
---
 src/window/bartlett.rs        | 7 ++++++-
 src/window/blackman.rs        | 7 ++++++-
 src/window/blackman_harris.rs | 7 ++++++-
 src/window/hamming.rs         | 7 ++++++-
 src/window/hann.rs            | 7 ++++++-
 src/window/triangular.rs      | 7 ++++++-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index c3d456a..a49ab09 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for BartlettIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BartlettIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index aef628d..907a015 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -49,11 +49,16 @@ impl<T> Iterator for BlackmanIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 161d932..85f2102 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -51,11 +51,16 @@ impl<T> Iterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index fc568e2..f2db06c 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -47,11 +47,16 @@ impl<T> Iterator for HammingIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HammingIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hann.rs b/src/window/hann.rs
index eca348e..cb81967 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for HannIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HannIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/triangular.rs b/src/window/triangular.rs
index f646116..76fe6f6 100644
--- a/src/window/triangular.rs
+++ b/src/window/triangular.rs
@@ -48,11 +48,16 @@ impl<T> Iterator for TriangularIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for TriangularIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
-- 
2.43.0


From 2a3c127cfc0b4026430f248463bbd2db9d4819d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 6/6] fix: make the one sample windows one instead of NaN

The closed forms divide by size - 1, so applying any window but the rectangular
and the triangular one to a single sample turned it into NaN.
---
 src/window/bartlett.rs        | 2 ++
 src/window/blackman.rs        | 2 ++
 src/window/blackman_harris.rs | 2 ++
 src/window/hamming.rs         | 2 ++
 src/window/hann.rs            | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index a49ab09..d46b26f 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -21,6 +21,8 @@ impl<T> BartlettIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index 907a015..bd2fdee 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -23,6 +23,8 @@ impl<T> BlackmanIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
     let size_minus_one : T = num::cast(self.size - 1).unwrap();
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 85f2102..3f7e12a 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -23,6 +23,8 @@ impl<T> BlackmanHarrisIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let two            : T = T::two();
     let three          : T = num::cast(3f64).unwrap();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index f2db06c..182af6e 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -21,6 +21,8 @@ impl<T> HammingIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hann.rs b/src/window/hann.rs
index cb81967..81cbabb 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -21,6 +21,8 @@ impl<T> HannIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    if self.size == 1 { return T::one(); }
+
     let one : T = T::one();
     let two : T = T::two();
     let half: T = num::cast(0.5f64).unwrap();
-- 
2.43.0

