From cdb53b1785f90d044cf724652a255a3d50afc1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 1/6] fix: Radix4 reordered its input wrongly for lengths of
 128 and above

---
 src/scalar/radix4.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index ee179b3..538edbf 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -339,21 +339,24 @@ fn prepare_radix4_reversed<T: FftNum>(
             }
         }
     } else {
-        {
-            let i = 0;
-            prepare_radix4(
+        // Radix 4 columns of the reversed input: column i of the reversed data is column (3 - i) of the input, reversed
+        for i in 0..3 {
+            prepare_radix4_reversed(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
         }
-        for i in 1..4 {
-            prepare_radix4_reversed(
+
+        // the last column is stored in reverse order, and reversing it twice leaves the original order
+        {
+            let i = 3;
+            prepare_radix4(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
-- 
2.43.0


From 445f012503afd7debcb183ec8ce8c10f6f421e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:15 +0000
Subject: [PATCH 2/6] fix: mixed radix algorithms computed sqrt(1/2) in f32,
 limiting f64 transforms to f32 accuracy

---
 src/scalar/mixed_radix.rs | 2 +-
 src/scalar/radix3.rs      | 2 +-
 src/scalar/radix5.rs      | 2 +-
 src/scalar/radix6.rs      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scalar/mixed_radix.rs b/src/scalar/mixed_radix.rs
index 5868c47..6170642 100644
--- a/src/scalar/mixed_radix.rs
+++ b/src/scalar/mixed_radix.rs
@@ -52,7 +52,7 @@ impl<T: FftNum> MixedRadix<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(row_limit * column_limit);
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for row in 1..row_limit {
             for column in 1..column_limit {
                 // Our twiddle will be a one-eigth turn around the circle from what the basic "row * column" twiddle would have been, times sqrt(0.5)
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index f628d13..32805ff 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index fe98611..ac3ae52 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 6116774..4923178 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -31,7 +31,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(3 * (column_limit - 1));
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for column in 1..column_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(1 * column * 8 + len, len * 8) * root2);
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(2 * column * 8 + len, len * 8) * root2);
-- 
2.43.0


From c48f15caf087e3ebdcc76c7a1035ed4916fbcf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:10 +0000
Subject: [PATCH 3/6] fix: primitive_root found no root for the prime 2, so
 RadersAlgorithm panicked for an inner length of 1

---
 src/math_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_utils.rs b/src/math_utils.rs
index e8a9b80..93a594e 100644
--- a/src/math_utils.rs
+++ b/src/math_utils.rs
@@ -59,7 +59,8 @@ pub fn primitive_root(prime: u64) -> Option<u64> {
         .iter()
         .map(|factor| (prime - 1) / factor)
         .collect();
-    'next: for potential_root in 2..prime {
+    // 1 is the primitive root of 2, and is rejected for every other prime
+    'next: for potential_root in 1..prime {
         // for each distinct factor, if potential_root^(p-1)/factor mod p is 1, reject it
         for exp in &test_exponents {
             if modular_exponent(potential_root, *exp, prime) == 1 {
-- 
2.43.0


From 0950cb82208d42f9398c459b9ce4e1724b0d5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:11 +0000
Subject: [PATCH 4/6] fix: Butterfly1 accepted empty buffers instead of
 panicking as documented

---
 src/scalar/butterflies.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scalar/butterflies.rs b/src/scalar/butterflies.rs
index baf16a3..4dc1e58 100644
--- a/src/scalar/butterflies.rs
+++ b/src/scalar/butterflies.rs
@@ -105,10 +105,18 @@ impl<T: FftNum> Dht<T> for Butterfly1<T> {
         output: &mut [T],
         _scratch: &mut [T],
     ) {
+        if input.len() < self.len() || output.len() != input.len() {
+            dht_error_outofplace(self.len(), input.len(), output.len(), 0, 0);
+            return;
+        }
         output.copy_from_slice(&input);
     }
 
-    fn process_with_scratch(&self, _buffer: &mut [T], _scratch: &mut [T]) {}
+    fn process_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
+        if buffer.len() < self.len() {
+            dht_error_inplace(self.len(), buffer.len(), 0, 0);
+        }
+    }
     fn get_inplace_scratch_len(&self) -> usize { 0 }
     fn get_outofplace_scratch_len(&self) -> usize { 0 }
 }
-- 
2.43.0


From f87176ed8a2f9dc497708ce2ed18967a8c4d1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:31 +0000
Subject: [PATCH 5/6] fix: MixedRadix{2,3,4,5,6}xn did not provide the scratch
 their inner transform requires

---
 src/scalar/radix2.rs | 22 ++++++++--------------
 src/scalar/radix3.rs | 22 ++++++++--------------
 src/scalar/radix4.rs | 22 ++++++++--------------
 src/scalar/radix5.rs | 22 ++++++++--------------
 src/scalar/radix6.rs | 22 ++++++++--------------
 5 files changed, 40 insertions(+), 70 deletions(-)

diff --git a/src/scalar/radix2.rs b/src/scalar/radix2.rs
index daaf7df..3a857c3 100644
--- a/src/scalar/radix2.rs
+++ b/src/scalar/radix2.rs
@@ -34,6 +34,7 @@ impl<T: FftNum> MixedRadix2xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -50,17 +51,8 @@ impl<T: FftNum> MixedRadix2xn<T> {
         };
 
         // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // If our height DHT's out-of-place mode requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -124,10 +116,11 @@ impl<T: FftNum> MixedRadix2xn<T> {
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
         // Step 1: Transpose the width x height array to height x width
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
         array_utils::transpose_half_rev_out(buffer, scratch, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -137,13 +130,14 @@ impl<T: FftNum> MixedRadix2xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index 32805ff..e18299a 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -38,6 +38,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -54,17 +55,8 @@ impl<T: FftNum> MixedRadix3xn<T> {
         };
 
         // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // If our height DHT's out-of-place mode requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -148,10 +140,11 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
         // Step 1: Transpose the width x height array to height x width
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
         array_utils::transpose_half_rev_out(buffer, scratch, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -161,13 +154,14 @@ impl<T: FftNum> MixedRadix3xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index 538edbf..22d475f 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -35,6 +35,7 @@ impl<T: FftNum> MixedRadix4xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -51,17 +52,8 @@ impl<T: FftNum> MixedRadix4xn<T> {
         };
 
         // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // If our height DHT's out-of-place mode requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -154,10 +146,11 @@ impl<T: FftNum> MixedRadix4xn<T> {
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
         // Step 1: Transpose the width x height array to height x width
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
         array_utils::transpose_half_rev_out(buffer, scratch, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -167,13 +160,14 @@ impl<T: FftNum> MixedRadix4xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index ac3ae52..01e7ad8 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -39,6 +39,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -55,17 +56,8 @@ impl<T: FftNum> MixedRadix5xn<T> {
         };
 
         // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // If our height DHT's out-of-place mode requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -171,10 +163,11 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
         // Step 1: Transpose the width x height array to height x width
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
         array_utils::transpose_half_rev_out(buffer, scratch, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -184,13 +177,14 @@ impl<T: FftNum> MixedRadix5xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 4923178..9f39b43 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -40,6 +40,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -56,17 +57,8 @@ impl<T: FftNum> MixedRadix6xn<T> {
         };
 
         // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // If our height DHT's out-of-place mode requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -187,10 +179,11 @@ impl<T: FftNum> MixedRadix6xn<T> {
     
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
         // Step 1: Transpose the width x height array to height x width
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
         array_utils::transpose_half_rev_out(buffer, scratch, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -200,13 +193,14 @@ impl<T: FftNum> MixedRadix6xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let inner_scratch = if scratch.len() > input.len() { scratch } else { input };
+        self.height_size_fft.process_with_scratch(output, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
-- 
2.43.0


From 86da72edf1cee7a5b1c7e177e9ce3878049c74e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:11 +0000
Subject: [PATCH 6/6] fix: SplitRadix did not provide the scratch its inner
 transforms require

---
 src/scalar/split_radix.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/scalar/split_radix.rs b/src/scalar/split_radix.rs
index 2cff5b2..3410a0f 100644
--- a/src/scalar/split_radix.rs
+++ b/src/scalar/split_radix.rs
@@ -33,14 +33,29 @@ impl<T: FftNum> SplitRadix<T> {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(x * 3, len));
         }
 
+        // In-place, the half DHT may use all of our scratch. After that, the quarter DHTs are computed out-of-place into the first half_len elements of it.
+        let inplace_scratch_len = half_dht
+            .get_inplace_scratch_len()
+            .max(half_len + quarter_dht.get_outofplace_scratch_len());
+
+        // Out-of-place, both inner DHTs are computed in-place, and we can use the output as scratch unless they need more than that
+        let max_inner_inplace_scratch = half_dht
+            .get_inplace_scratch_len()
+            .max(quarter_dht.get_inplace_scratch_len());
+        let outofplace_scratch_len = if max_inner_inplace_scratch > len {
+            max_inner_inplace_scratch
+        } else {
+            0
+        };
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
             quarter_dht,
             half_dht,
 
-            inplace_scratch_len: half_len,
-            outofplace_scratch_len: 0,
+            inplace_scratch_len,
+            outofplace_scratch_len,
             len,
         }
     }
@@ -121,7 +136,8 @@ impl<T: FftNum> SplitRadix<T> {
         let (buffer_evens, buffer_odds) = buffer.split_at_mut(half_len);
 
         self.half_dht.process_with_scratch(buffer_evens, scratch);
-        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, &mut []);
+        let (scratch, inner_scratch) = scratch.split_at_mut(half_len);
+        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, inner_scratch);
         
         let (scratch_quarter1, scratch_quarter3) = scratch.split_at_mut(quarter_len);
 
@@ -137,7 +153,7 @@ impl<T: FftNum> SplitRadix<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         self.apply_twiddles(input);
         
@@ -146,8 +162,9 @@ impl<T: FftNum> SplitRadix<T> {
 
         let (buffer_evens, buffer_odds) = input.split_at_mut(half_len);
         
-        self.half_dht.process_with_scratch(buffer_evens, output);
-        self.quarter_dht.process_with_scratch(buffer_odds, output);
+        let inner_scratch = if scratch.len() > output.len() { scratch } else { &mut output[..] };
+        self.half_dht.process_with_scratch(buffer_evens, inner_scratch);
+        self.quarter_dht.process_with_scratch(buffer_odds, inner_scratch);
 
         let (buffer_quarter1, buffer_quarter3) = buffer_odds.split_at_mut(quarter_len);
 
-- 
2.43.0

