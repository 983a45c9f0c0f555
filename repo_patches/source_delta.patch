From 1869c6c00d24f6c2bc9197e012a244ffe856b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 01/17] fix: choose Gauss-Jordan pivots from the partially
 reduced matrix

gj_inverse() looked for its pivots in the original matrix rather than in the
matrix being eliminated, so invertible matrices whose second pivot cancels
came back as Some(NaN...).
---
 src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 5e45db9..447cd6f 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -199,10 +199,10 @@ where
         // Forward elimination
         for i in 0..2 {
             let mut pivot = i;
-            let mut pivot_size: T = self[i][i].abs();
+            let mut pivot_size: T = mtx_t[i][i].abs();
 
             for j in (i + 1)..3 {
-                let tmp = self[j][i].abs();
+                let tmp = mtx_t[j][i].abs();
                 if tmp > pivot_size {
                     pivot = j;
                     pivot_size = tmp;
-- 
2.43.0


From b3dfedafc0ef63df15ddf29495e039b5ccb8705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 02/17] fix: Matrix33::inverse() of matrices whose last column
 is (0, 0, 1)

The affine shortcut was taken for matrices with negative entries in the last
column (no abs() in the test), and divided the 1 in the corner by the 2x2
determinant, so inverse() returned a matrix that is not the inverse.
---
 src/math.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 447cd6f..18b73ca 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -267,7 +267,7 @@ where
 
     /// Matrix inverse
     pub fn inverse(self) -> Option<Matrix33<T>> {
-        if self[0][2] > T::epsilon() || self[1][2] > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
+        if self[0][2] != T::zero() || self[1][2] != T::zero() || self[2][2] != T::one() {
             let mut mtx_s = Matrix33::new([
                 self[1][1] * self[2][2] - self[2][1] * self[1][2],
                 self[2][1] * self[0][2] - self[0][1] * self[2][2],
@@ -313,17 +313,22 @@ where
 
             let r = self[0][0] * self[1][1] - self[1][0] * self[0][1];
 
+            // only the upper-left 2x2 block is scaled: the last column is (0, 0, 1)
             if r.abs() >= T::one() {
-                for s in mtx_s.x.iter_mut() {
-                    *s /= r;
+                for i in 0..2 {
+                    for j in 0..2 {
+                        mtx_s[i][j] /= r;
+                    }
                 }
             } else {
                 let mr = r.abs() / T::min_positive_value();
-                for s in mtx_s.x.iter_mut() {
-                    if mr > s.abs() {
-                        *s /= r;
-                    } else {
-                        return None;
+                for i in 0..2 {
+                    for j in 0..2 {
+                        if mr > mtx_s[i][j].abs() {
+                            mtx_s[i][j] /= r;
+                        } else {
+                            return None;
+                        }
                     }
                 }
             }
-- 
2.43.0


From bb3fdb3e4ecce3aafabcf9135053171b6d06f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:03 +0000
Subject: [PATCH 03/17] fix: convert every trailing pixel in
 xyz_slice_to_rgb_avx_planes

The scalar remainder loop started at len - num_iters instead of after the last
full vector, so up to six trailing pixels of most lengths were left at zero.
---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 9c42ab8..e2652b3 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -98,7 +98,7 @@ pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
     let num_iters = xs.len() / S::VF32_WIDTH;
-    let start_remaining = xs.len() - num_iters;
+    let start_remaining = num_iters * S::VF32_WIDTH;
 
     let m0 = unsafe { S::set1_ps(mtx.x[0]) };
     let m1 = unsafe { S::set1_ps(mtx.x[1]) };
-- 
2.43.0


From d49599c09c831b8fcf62d470980c6b1a6b79de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:03 +0000
Subject: [PATCH 04/17] fix: reject planes of different lengths in
 xyz_slice_to_rgb_avx_planes

The y and z planes were read without bounds checks up to the length of the x
plane, an out-of-bounds read from a safe function.
---
 src/transform.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transform.rs b/src/transform.rs
index e2652b3..6503f6a 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -94,6 +94,10 @@ where
 
 #[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
 pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys: &[f32], zs: &[f32]) -> (Vec<f32>, Vec<f32>, Vec<f32>) {
+    assert!(
+        ys.len() == xs.len() && zs.len() == xs.len(),
+        "xyz_slice_to_rgb_avx_planes requires planes of equal length"
+    );
     let mut result_r = vec![0.0f32; xs.len()];
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
-- 
2.43.0


From b61f47aa9418bf9f144f87ca61ab806a2142adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:03 +0000
Subject: [PATCH 05/17] fix: include the last gap when deciding whether a VSPD
 is uniform

---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6c82bfa..62218e4 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -439,7 +439,7 @@ fn calculate_interval(samples: &[Sample]) -> Interval<f64> {
         panic!("Must have at least 2 samples");
     }
     let assumed_interval = samples[1].nm - samples[0].nm;
-    for i in 1..samples.len() - 1 {
+    for i in 1..samples.len() {
         // This is safe because we guarantee we're in bounds in the for loop
         let interval = unsafe { samples.get_unchecked(i).nm - samples.get_unchecked(i - 1).nm };
         if !interval.approx_eq(assumed_interval, F64Margin { ulps: 2, epsilon: 1.0e-11 }) {
-- 
2.43.0


From 7d10e7802f006fc2b81b5296f9c87ed12cbbdc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:36 +0000
Subject: [PATCH 06/17] fix: keep the reported shape of a VSPD in step with its
 samples

extrapolate() reported the requested shape even when the spectrum is wider
than it or its samples are not uniform, and constant(), from_values() and
interpolate() reported the requested end when the last sample falls short of
it. Later interpolation then evaluated outside the samples.
---
 src/vspd.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 62218e4..6645212 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -207,7 +207,7 @@ impl VSPD {
             panic!("VSPD must have at least 2 samples. SpdShape given was: {}", shape);
         }
 
-        VSPD { samples, shape }
+        VSPD::on_grid(samples, shape)
     }
 
     /// Create a new [VSPD] of the given [SpdShape] with the values of each [Sample]
@@ -234,6 +234,15 @@ impl VSPD {
         }
         let samples: Vec<Sample> = shape.iter().zip(values.iter()).map(|(nm, v)| Sample { nm, v: *v }).collect();
 
+        VSPD::on_grid(samples, shape)
+    }
+
+    /// A [VSPD] whose samples lie on the grid of `shape`. The last sample falls
+    /// short of the end of `shape` when that is not on the grid.
+    fn on_grid(samples: Vec<Sample>, mut shape: SpdShape<f64>) -> VSPD {
+        if let Some(last) = samples.last() {
+            shape.end = last.nm;
+        }
         VSPD { samples, shape }
     }
 
@@ -307,7 +316,7 @@ impl VSPD {
         let mut samples = Vec::<Sample>::new();
         samples.extend(shape.iter().map(|nm| Sample::new(nm, interp.evaluate(nm))));
 
-        VSPD { samples, shape }
+        VSPD::on_grid(samples, shape)
     }
 
     /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by first
@@ -353,10 +362,7 @@ impl VSPD {
             x += interval;
         }
 
-        VSPD {
-            samples,
-            shape: SpdShape::new(shape.start, shape.end, interval),
-        }
+        VSPD::new(samples)
     }
 
     /// Trim this [VSPD] to lie inside the given [SpdShape].
-- 
2.43.0


From b4083247992ecb0e1c88399bf45f19f2f1df22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:54 +0000
Subject: [PATCH 07/17] fix: align() evaluates a VSPD on the requested grid

Interpolating to the overlap first and then extrapolating with the same
interval put the samples on a grid anchored at the spectrum's own start, so a
spectrum starting between two grid points came back with wavelengths (and often
a sample count) other than those asked for.
---
 src/vspd.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6645212..1097c7c 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -319,10 +319,20 @@ impl VSPD {
         VSPD::on_grid(samples, shape)
     }
 
-    /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by first
-    /// interpolating then extrapolating
+    /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by
+    /// interpolating inside the domain of this VSPD and extrapolating outside it
     pub fn align(&self, shape: SpdShape<f64>) -> VSPD {
-        self.interpolate(shape).extrapolate(shape)
+        let interp = InterpolatorSprague::<f64>::new(self);
+        let extrap = ExtrapolatorConstant::new(self);
+        let samples = shape
+            .iter()
+            .map(|nm| {
+                let in_domain = nm >= self.start() && nm <= self.end();
+                Sample::new(nm, if in_domain { interp.evaluate(nm) } else { extrap.evaluate(nm) })
+            })
+            .collect();
+
+        VSPD::on_grid(samples, shape)
     }
 
     /// Create a new VSPD by extrapolating the boundaries of the domain of this
-- 
2.43.0


From 375f95b32fc9c9f0d9c66b027a39ec938b05eed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:19 +0000
Subject: [PATCH 08/17] fix: use the 10nm weighting factors only for spectra on
 the 10nm grid

The interval was truncated to an integer, so spectra sampled at e.g. 10.9375nm
(the Smits basis) were zipped against 10nm weights, and 10nm spectra that start
between two grid wavelengths were zipped against misaligned weights.
---
 src/vspd.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 1097c7c..06ccb57 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -422,18 +422,21 @@ impl VSPD {
                 spd_to_xyz_integration(&spd, &illuminant, &cmf, spd.shape)
             }
             Interval::Uniform(interval) => {
-                match interval.to_usize().unwrap() {
-                    1 => {
+                // the weighting factors are only tabulated at the wavelengths of
+                // the ASTM E308 10nm grid
+                let on_10nm_grid = (self.shape.start - SpdShape::<f64>::astm_e308().start) % 10.0 == 0.0;
+                match interval {
+                    i if i == 1.0 => {
                         // just integrate
                         spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
                     }
-                    5 => {
+                    i if i == 5.0 => {
                         // Integrate at 5nm
                         let mut shape = SpdShape::astm_e308();
                         shape.interval = Interval::Uniform(5.0);
                         spd_to_xyz_integration(self, &illuminant, &cmf, shape)
                     }
-                    10 => {
+                    i if i == 10.0 && on_10nm_grid => {
                         // use ASTME308 weighting factors
                         spd_to_xyz_tristimulus_weighting_factors_astme308(self, &illuminant, &cmf)
                     }
-- 
2.43.0


From 3c9c4583f5de807059a112c3d44921d4e3ce0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:23 +0000
Subject: [PATCH 09/17] fix: Sprague interpolation of spectra with fewer than
 six samples

The boundary coefficients need six samples; with fewer the truncated sums are
not even a multiple of a constant spectrum's value.
---
 src/interpolation.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/interpolation.rs b/src/interpolation.rs
index 52643b0..a64901c 100644
--- a/src/interpolation.rs
+++ b/src/interpolation.rs
@@ -118,6 +118,16 @@ where
         y.push(y3 / 209.0);
         y.push(y4 / 209.0);
 
+        // The boundary coefficients need six samples. Continue the first and
+        // last segments linearly if there are fewer than that.
+        let n = vspd.len();
+        if n < 6 {
+            y[1] = 2.0 * y[2] - y[3];
+            y[0] = 2.0 * y[1] - y[2];
+            y[n + 2] = 2.0 * y[n + 1] - y[n];
+            y[n + 3] = 2.0 * y[n + 2] - y[n + 1];
+        }
+
         InterpolatorSprague { x, y }
     }
 
-- 
2.43.0


From d3a0065e365ff9ee69efc467861880a0d198dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:27 +0000
Subject: [PATCH 10/17] fix: linspace() with fewer than two steps

A single step divided zero by zero and returned NaN (so did
lagrange_coefficients_astm_e2022(2.0, _)), and no steps underflowed.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 06ccb57..18f0876 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -735,7 +735,7 @@ impl Iterator for FloatRange {
 }
 
 pub fn linspace(start: f64, end: f64, steps: usize) -> FloatRange {
-    let delta = (end - start) / (steps - 1) as f64;
+    let delta = if steps > 1 { (end - start) / (steps - 1) as f64 } else { 0.0 };
     FloatRange {
         current: 0,
         steps,
-- 
2.43.0


From 528cba302a3a067f9e2e151f5d8767197a693b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 11/17] fix: cct() rejects a NaN temperature instead of
 returning NaN chromaticities

---
 src/illuminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/illuminant.rs b/src/illuminant.rs
index ae3b692..eb6f37d 100644
--- a/src/illuminant.rs
+++ b/src/illuminant.rs
@@ -47,7 +47,7 @@ pub mod xy {
     {
         let t2 = t * t;
         let t3 = t2 * t;
-        if t < 4000.0 || t > 25000.0 {
+        if !(t >= 4000.0 && t <= 25000.0) {
             Err(TemperatureOutOfBound)
         } else if t <= 7000.0 {
             let xd = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
-- 
2.43.0


From 214b029da5e50e132122c34f119944385f1a5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:48 +0000
Subject: [PATCH 12/17] fix: integrate varying-interval spectra over the ASTM
 E308 range

to_xyz() integrated a spectrum with varying spacing over the spectrum's own
range instead of 360-780nm, so adding one sample to a uniform spectrum that
stops short changed its colour, and one that extends further was weighted with
the end values of the illuminant and colour-matching functions beyond 780nm.
---
 src/vspd.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 18f0876..55ef447 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -417,10 +417,7 @@ impl VSPD {
         // first figure out our interval. If it's varying then we need to
         // interpolate to make it uniform
         match self.interval() {
-            Interval::Varying => {
-                let spd = self.align(SpdShape::new(self.shape.start, self.shape.end, 1.0));
-                spd_to_xyz_integration(&spd, &illuminant, &cmf, spd.shape)
-            }
+            Interval::Varying => spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308()),
             Interval::Uniform(interval) => {
                 // the weighting factors are only tabulated at the wavelengths of
                 // the ASTM E308 10nm grid
-- 
2.43.0


From 06bd7931fc47c4b018b29b178240f4863b8e317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:58 +0000
Subject: [PATCH 13/17] fix: report the uniform interval of a trimmed varying
 VSPD

trim() kept Interval::Varying even when all the samples it kept are evenly
spaced, so the reported shape no longer described the samples.
---
 src/vspd.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 55ef447..0ecd2a5 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -390,14 +390,15 @@ impl VSPD {
 
         let start = samples.first().unwrap().nm;
         let end = samples.last().unwrap().nm;
+        // what remains of a varying SPD may well be uniform
+        let interval = match self.shape.interval {
+            Interval::Varying if samples.len() > 1 => calculate_interval(&samples),
+            interval => interval,
+        };
 
         VSPD {
             samples,
-            shape: SpdShape::<f64> {
-                start,
-                end,
-                interval: self.shape.interval,
-            },
+            shape: SpdShape::<f64> { start, end, interval },
         }
     }
 
-- 
2.43.0


From b9ce4e443d6aeafad15f2e495ff0532f5e1a48a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:02 +0000
Subject: [PATCH 14/17] fix: compare VSPDs by their samples

The interval of a VSPD built from a shape is the one given, that of one built
from samples is the rounded difference of the first two wavelengths. Comparing
it made SPDs with identical samples unequal, e.g. from_values() on a 0.1nm grid
and the same SPD multiplied by 1.
---
 src/vspd.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 0ecd2a5..db0175f 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -181,9 +181,7 @@ impl Debug for VSPD {
 
 impl PartialEq for VSPD {
     fn eq(&self, rhs: &VSPD) -> bool {
-        self.samples.len() == rhs.samples.len()
-            && self.shape == rhs.shape
-            && self.samples.iter().zip(rhs.samples.iter()).all(|(l, r)| l == r)
+        self.samples == rhs.samples
     }
 }
 
-- 
2.43.0


From 35ed87b44b38eb571be6d0f05c01558ce97e17da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:59 +0000
Subject: [PATCH 15/17] fix: count the last grid point of a SpdShape despite
 rounding

SpdShape::new(300.0, 474.9, 1.1) has 160 grid points, but
(474.9 - 300.0) / 1.1 rounds to just below 159, so the last one was lost:
from_values() refused 160 values and spd_to_nit() and align() dropped the
last sample of such a spectrum.
---
 src/vspd.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index db0175f..484eee7 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -77,11 +77,18 @@ where
         };
         SpdShapeIterator::<T> {
             current: 0,
-            end: ((self.end - self.start) / interval).to_usize().unwrap() + 1,
+            end: self.num_samples(interval),
             start: self.start,
             interval,
         }
     }
+
+    // Number of samples at the given interval. An `end` that misses the grid
+    // by no more than rounding error is on the grid.
+    fn num_samples(&self, interval: T) -> usize {
+        let slack = (T::epsilon() + T::epsilon()) * (self.start.abs() + self.end.abs());
+        ((self.end - self.start + slack) / interval).to_usize().unwrap() + 1
+    }
 }
 
 pub struct SpdShapeIterator<T>
@@ -222,7 +229,7 @@ impl VSPD {
                 panic!("Cannot create a VSPD with varying interval");
             }
         };
-        let num_samples_from_shape = ((shape.end - shape.start) / interval) as usize + 1;
+        let num_samples_from_shape = shape.num_samples(interval);
         if num_samples_from_shape != values.len() {
             panic!(
                 "Length of values slice did not match requested shape. SpdShape has {} samples, but values slice had {} values.",
-- 
2.43.0


From dae48741a1a18c6af1045b158aaa347f283ffe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 16/17] fix: extrapolate() places added samples without
 accumulating rounding error

---
 src/vspd.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 484eee7..929701a 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -352,7 +352,6 @@ impl VSPD {
         let mut samples = Vec::<Sample>::new();
         let start = self.start().min(shape.start);
         let end = self.end().max(shape.end);
-        let mut x = start;
 
         // use this SPD's interval unless it's varying, in which case use the
         // given shape's interval. If that is also varying, panic
@@ -366,16 +365,21 @@ impl VSPD {
             },
         };
 
-        while x < self.start() {
-            samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
-        }
+        // a wavelength that misses an end by no more than rounding error is on it
+        let slack = 2.0 * f64::EPSILON * (start.abs() + end.abs());
+        let grid = |from: f64| (0u64..).map(move |i| from + i as f64 * interval);
+        samples.extend(
+            grid(start)
+                .take_while(|x| *x < self.start() - slack)
+                .map(|x| Sample::new(x, extrap.evaluate(x))),
+        );
         samples.extend(self.samples.iter());
-        x = self.end() + interval;
-        while x <= end {
-            samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
-        }
+        samples.extend(
+            grid(self.end())
+                .skip(1)
+                .take_while(|x| *x <= end + slack)
+                .map(|x| Sample::new(x, extrap.evaluate(x))),
+        );
 
         VSPD::new(samples)
     }
-- 
2.43.0


From b29e0f491567e61ce3fe3abea161b5739490be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:52 +0000
Subject: [PATCH 17/17] fix: to_xyz() does not panic when its note cannot be
 written to stdout

---
 src/vspd.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 929701a..51e8f91 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -451,7 +451,13 @@ impl VSPD {
                     //     // do special thing we haven't implemented yet
                     // }
                     _ => {
-                        println!("Interval must be 1, 5, 10 or 20nm, got: {}. Interpolating", self.interval());
+                        // only a note: the result does not depend on whether it can be written
+                        use std::io::Write;
+                        let _ = writeln!(
+                            std::io::stdout(),
+                            "Interval must be 1, 5, 10 or 20nm, got: {}. Interpolating",
+                            self.interval()
+                        );
                         spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
                     }
                 }
-- 
2.43.0

