From ee3861c17960378702292fd63f5f411bdb754b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 01/14] fix: multicubic interpn returns an error instead of
 panicking on mismatched numbers of dimensions

---
 src/multicubic/rectilinear.rs | 4 ++++
 src/multicubic/regular.rs     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 3350e56..9ed5836 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -62,6 +62,10 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = grids.len();
+    if obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
+
     match ndims {
         1 => MulticubicRectilinear::<'_, T, 1>::new(
             grids.try_into().unwrap(),
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index b4807fb..1aac2f0 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -62,6 +62,10 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = dims.len();
+    if starts.len() != ndims || steps.len() != ndims || obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
+
     match ndims {
         1 => MulticubicRegular::<'_, T, 1>::new(
             dims.try_into().unwrap(),
-- 
2.43.0


From ae4a20e3ccb7603a61aacf02db42e30e13d6e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 02/14] fix: recursive interpolators return an error for more
 dimensions than MAXDIMS instead of panicking

---
 src/multicubic/rectilinear_recursive.rs  | 3 +++
 src/multicubic/regular_recursive.rs      | 4 ++++
 src/multilinear/rectilinear_recursive.rs | 3 +++
 src/multilinear/regular_recursive.rs     | 4 ++++
 4 files changed, 14 insertions(+)

diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 79ac128..fde1ac8 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -173,6 +173,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals: usize = dims[..ndims].iter().product();
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 332ffdb..0a3c506 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -246,6 +246,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         }
+        // Make sure the grid fits in the fixed-size storage
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
 
         // Make sure all dimensions have at least four entries
         let degenerate = dims[..ndims].iter().any(|&x| x < 4);
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index a2f7a8e..d58dde3 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -160,6 +160,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
     pub fn new(grids: &'a [&'a [T]], vals: &'a [T]) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals: usize = dims[..ndims].iter().product();
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 05890bf..9b88f5d 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -200,6 +200,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
         if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         }
+        // Make sure the grid fits in the fixed-size storage
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         // Make sure all dimensions have at least four entries
         let degenerate = dims[..ndims].iter().any(|&x| x < 2);
         if degenerate {
-- 
2.43.0


From af977308c1610e2b03c9d0935ccafb1d05a1f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 03/14] fix: regular-grid check_bounds returns an error for
 mismatched starts/steps and empty axes instead of panicking

---
 src/multilinear/regular.rs           | 7 ++++++-
 src/multilinear/regular_recursive.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index c83b1af..76e8835 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -151,7 +151,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let n = dims.len();
-    if !(obs.len() == n && out.len() == n) {
+    if !(starts.len() == n
+        && steps.len() == n
+        && obs.len() == n
+        && out.len() == n
+        && dims.iter().all(|&d| d > 0))
+    {
         return Err("Dimension mismatch");
     }
 
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 9b88f5d..6feb132 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -114,7 +114,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let ndims = dims.len();
-    if !(obs.len() == ndims && out.len() == ndims) {
+    if !(starts.len() == ndims
+        && steps.len() == ndims
+        && obs.len() == ndims
+        && out.len() == ndims
+        && dims.iter().all(|&d| d > 0))
+    {
         return Err("Dimension mismatch");
     }
 
-- 
2.43.0


From 93b8d88a63bdb2fb85bc475b2380c55d55952485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 04/14] fix: interpn_alloc returns an error instead of
 panicking when there are no observation arrays

---
 src/multicubic/rectilinear.rs            | 2 +-
 src/multicubic/rectilinear_recursive.rs  | 2 +-
 src/multicubic/regular.rs                | 2 +-
 src/multicubic/regular_recursive.rs      | 2 +-
 src/multilinear/rectilinear.rs           | 2 +-
 src/multilinear/rectilinear_recursive.rs | 2 +-
 src/multilinear/regular.rs               | 2 +-
 src/multilinear/regular_recursive.rs     | 2 +-
 src/nearest/rectilinear.rs               | 2 +-
 src/nearest/regular.rs                   | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 9ed5836..b1063ff 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -118,7 +118,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index fde1ac8..dce57c4 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -90,7 +90,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index 1aac2f0..73be7ea 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -152,7 +152,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 0a3c506..e4fbf6a 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -143,7 +143,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 00c2a84..a6db548 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -92,7 +92,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index d58dde3..d9c50d5 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -77,7 +77,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index 76e8835..9a9bf74 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -128,7 +128,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 6feb132..067cd31 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -91,7 +91,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index c3e2fc1..5f61edd 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -75,7 +75,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index a8fdc21..9176752 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -112,7 +112,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
-- 
2.43.0


From 25cd5b160923b9848b09ca91bde1b02f38c53b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 05/14] fix: RegularGrid1D refuses grids with fewer than two
 points instead of panicking

---
 src/one_dim/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/one_dim/mod.rs b/src/one_dim/mod.rs
index 9a35f94..a57ad4b 100644
--- a/src/one_dim/mod.rs
+++ b/src/one_dim/mod.rs
@@ -84,6 +84,10 @@ pub struct RegularGrid1D<'a, T: Float> {
 
 impl<'a, T: Float> RegularGrid1D<'a, T> {
     pub fn new(start: T, step: T, vals: &'a [T]) -> Result<Self, &'static str> {
+        if vals.len() < 2 {
+            return Err("Length mismatch");
+        }
+
         let stop =
             start + step * <T as NumCast>::from(vals.len() - 1).ok_or("Unrepresentable number")?;
         Ok(Self {
-- 
2.43.0


From 964c3e39dbb1cbdd6fabf4f7b7c0e34c6c53fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 06/14] fix: multicubic regular grids do not overflow the cell
 index for coordinates far below the grid

---
 src/multicubic/regular.rs           | 4 +++-
 src/multicubic/regular_recursive.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index 73be7ea..a5febb5 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -439,7 +439,9 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index e4fbf6a..1e57556 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -393,7 +393,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
-- 
2.43.0


From 71001a28fbd48e10443c9e0035dbcc588d24b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 07/14] fix: refuse grids whose number of points overflows
 usize instead of wrapping or panicking

---
 src/lib.rs                               | 8 ++++++++
 src/multicubic/rectilinear.rs            | 2 +-
 src/multicubic/rectilinear_recursive.rs  | 2 +-
 src/multicubic/regular.rs                | 2 +-
 src/multicubic/regular_recursive.rs      | 2 +-
 src/multilinear/rectilinear.rs           | 2 +-
 src/multilinear/rectilinear_recursive.rs | 2 +-
 src/multilinear/regular.rs               | 2 +-
 src/multilinear/regular_recursive.rs     | 2 +-
 src/nearest/rectilinear.rs               | 2 +-
 src/nearest/regular.rs                   | 2 +-
 11 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5ca2735..773e0c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -114,6 +114,14 @@ pub(crate) mod testing;
 #[cfg(feature = "python")]
 pub mod python;
 
+/// Total number of grid points, or an error if it is not representable
+#[inline]
+pub(crate) fn total_size(dims: &[usize]) -> Result<usize, &'static str> {
+    dims.iter()
+        .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+        .ok_or("Dimension mismatch")
+}
+
 /// Index a single value from an array
 #[inline]
 pub(crate) fn index_arr<T: Copy>(loc: &[usize], dimprod: &[usize], data: &[T]) -> T {
diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index b1063ff..d9e0aec 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -208,7 +208,7 @@ impl<'a, T: Float, const N: usize> MulticubicRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims.iter().product();
+        let nvals = crate::total_size(&dims)?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index dce57c4..56e5570 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -178,7 +178,7 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
         }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = crate::total_size(&dims[..ndims])?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index a5febb5..f3882c9 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -254,7 +254,7 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
                 "Flattened method defined for 1-5 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = crate::total_size(&dims)?;
         if !(starts.len() == N && steps.len() == N && vals.len() == nvals && N > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 1e57556..0ee2549 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -242,7 +242,7 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = crate::total_size(dims)?;
         if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index a6db548..1ee6f4c 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -182,7 +182,7 @@ impl<'a, T: Float, const N: usize> MultilinearRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = crate::total_size(&dims[..N])?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index d9c50d5..0084c4c 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -165,7 +165,7 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
         }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = crate::total_size(&dims[..ndims])?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index 9a9bf74..de694de 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -240,7 +240,7 @@ impl<'a, T: Float, const N: usize> MultilinearRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = crate::total_size(&dims)?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 067cd31..9c8feac 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -201,7 +201,7 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = crate::total_size(dims)?;
         if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index 5f61edd..2db5373 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -131,7 +131,7 @@ impl<'a, T: Float, const N: usize> NearestRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = crate::total_size(&dims[..N])?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index 9176752..bf03675 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -173,7 +173,7 @@ impl<'a, T: Float, const N: usize> NearestRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = crate::total_size(&dims)?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
-- 
2.43.0


From 40f245bfdb830729ef6d3aadaa58934567f63ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 08/14] fix: interpn helper accepts a preallocated output array
 and fills it whatever its layout

---
 src/interpn/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index cefa6c4..cd77a38 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -83,9 +83,9 @@ def interpn(
         Interpolated values
     """
     # Allocate for the output if it is not supplied
-    out = out or np.zeros_like(obs[0])
-    outshape = out.shape
-    out = out.ravel()  # Flat view without reallocating
+    result = np.zeros_like(obs[0]) if out is None else out
+    outshape = result.shape
+    out = result.ravel()  # Flat view, reallocating only if not contiguous
 
     # Ensure contiguous and flat, reallocating only if necessary
     obs = [np.ascontiguousarray(x.ravel()) for x in obs]
@@ -191,7 +191,11 @@ def interpn(
                 f" {dtype}, {is_regular}, {method}"
             )
 
-    return out.reshape(outshape)
+    if not result.flags.c_contiguous:
+        # The flat output is a copy in this case
+        result[...] = out.reshape(outshape)
+
+    return result
 
 
 def _check_regular(grids: Sequence[NDArray]) -> bool:
-- 
2.43.0


From 3f686e14ba52f8752e0a1401e86d08684f793bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 09/14] fix: interpn helper bounds check works for any number
 of dimensions

---
 src/interpn/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index cd77a38..fdba894 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -113,7 +113,7 @@ def interpn(
 
     # Check bounds
     if check_bounds:
-        outb = np.zeros_like(out.shape, dtype=bool)
+        outb = np.zeros(len(grids), dtype=bool)
         match (dtype, is_regular):
             case (np.float32, True):
                 raw.check_bounds_regular_f32(
-- 
2.43.0


From 1d3518960181f20bcb1ef4472ec7a9d222f00cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 10/14] fix: Python bindings raise AssertionError instead of
 panicking for more than 8 arrays

---
 src/python.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python.rs b/src/python.rs
index 165d684..937c485 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -45,6 +45,11 @@ macro_rules! unpack_vec_of_arr {
         let dummy = [0.0; 0];
         let mut _arr: [&[$T]; MAXDIMS] = [&dummy[..]; MAXDIMS];
         let n = $inname.len();
+        if n > MAXDIMS {
+            return Err(exceptions::PyAssertionError::new_err(
+                "Dimension exceeds maximum",
+            ));
+        }
         for i in 0..n {
             _arr[i] = $inname[i].as_slice()?;
         }
-- 
2.43.0


From 57eb4bb8c2509d441010dac6ba47242cb5d008d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 11/14] fix: linspace returns the requested points for fewer
 than two points

---
 src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 366f5a3..8873624 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,6 +9,10 @@ pub fn linspace<T>(start: T, stop: T, n: usize) -> Vec<T>
 where
     T: Float,
 {
+    if n < 2 {
+        return vec![start; n];
+    }
+
     let dx: T = (stop - start) / T::from(n - 1).unwrap();
     (0..n).map(|i| start + T::from(i).unwrap() * dx).collect()
 }
-- 
2.43.0


From 60951e0d66cecb1632f61d60dc49f432b1670101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:58 +0000
Subject: [PATCH 12/14] fix: 1D nearest takes the end value for far
 extrapolation

---
 src/one_dim/hold.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/one_dim/hold.rs b/src/one_dim/hold.rs
index cb969d0..2f5f4eb 100644
--- a/src/one_dim/hold.rs
+++ b/src/one_dim/hold.rs
@@ -93,14 +93,26 @@ where
 {
     #[inline]
     fn eval_one(&self, loc: T) -> Result<T, &'static str> {
-        let GridSample { x0, y0, x1, y1, .. } = self.grid.at(loc)?;
+        let GridSample {
+            x0,
+            y0,
+            x1,
+            y1,
+            extrap,
+        } = self.grid.at(loc)?;
 
         let dx0 = (loc - x0).abs();
         let dx1 = (loc - x1).abs();
 
-        let v = match dx1 >= dx0 {
-            true => y0,
-            false => y1,
+        // Far outside the grid, the distances to the two nodes of the edge cell are not
+        // distinguishable after rounding, so take the end value without comparing them
+        let v = match extrap {
+            Extrap::OutsideLow => y0,
+            Extrap::OutsideHigh => y1,
+            _ => match dx1 >= dx0 {
+                true => y0,
+                false => y1,
+            },
         };
 
         Ok(v)
-- 
2.43.0


From 096fac10e4a6dbfa326e142298072fbe75a66b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 13/14] fix: Python interpolators refuse too few nodes, data
 that are not 1D and starts of another data type

---
 src/interpn/multicubic_rectilinear.py  |  6 ++++++
 src/interpn/multicubic_regular.py      | 11 ++++++++++-
 src/interpn/multilinear_rectilinear.py |  6 ++++++
 src/interpn/multilinear_regular.py     | 11 ++++++++++-
 src/interpn/nearest_rectilinear.py     |  6 ++++++
 src/interpn/nearest_regular.py         |  6 ++++++
 6 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/interpn/multicubic_rectilinear.py b/src/interpn/multicubic_rectilinear.py
index b43f319..756cc78 100644
--- a/src/interpn/multicubic_rectilinear.py
+++ b/src/interpn/multicubic_rectilinear.py
@@ -89,6 +89,12 @@ class MulticubicRectilinear(BaseModel):
         assert ndims <= 8 and ndims >= 1, (
             "Number of dimensions must be at least 1 and no more than 8"
         )
+        assert all([x.data.ndim == 1 for x in [*self.grids, self.vals]]), (
+            "Grid data must be 1D"
+        )
+        assert all([x >= 4 for x in dims]), (
+            "All dimensions must have at least 4 entries"
+        )
         assert self.vals.data.size == reduce(lambda acc, x: acc * x, dims), (
             "Size of value array does not match grid dims"
         )
diff --git a/src/interpn/multicubic_regular.py b/src/interpn/multicubic_regular.py
index 3e4ed67..5520206 100644
--- a/src/interpn/multicubic_regular.py
+++ b/src/interpn/multicubic_regular.py
@@ -100,6 +100,9 @@ class MulticubicRegular(BaseModel):
         )
         assert self.starts.data.size == ndims, "Grid dimension mismatch"
         assert self.steps.data.size == ndims, "Grid dimension mismatch"
+        assert all([x >= 4 for x in self.dims]), (
+            "All dimensions must have at least 4 entries"
+        )
         assert self.vals.data.size == reduce(lambda acc, x: acc * x, self.dims), (
             "Size of value array does not match grid dims"
         )
@@ -107,8 +110,14 @@ class MulticubicRegular(BaseModel):
             "All grid steps must be positive and nonzero"
         )
         assert all(
-            [x.data.dtype == self.vals.data.dtype for x in [self.steps, self.vals]]
+            [
+                x.data.dtype == self.vals.data.dtype
+                for x in [self.starts, self.steps, self.vals]
+            ]
         ), "All grid inputs must be of the same data type (np.float32 or np.float64)"
+        assert all(
+            [x.data.ndim == 1 for x in [self.starts, self.steps, self.vals]]
+        ), "Grid data must be 1D"
         assert all(
             [x.data.data.contiguous for x in [self.starts, self.steps, self.vals]]
         ), "Grid data must be contiguous"
diff --git a/src/interpn/multilinear_rectilinear.py b/src/interpn/multilinear_rectilinear.py
index d8ede0e..67cb0a4 100644
--- a/src/interpn/multilinear_rectilinear.py
+++ b/src/interpn/multilinear_rectilinear.py
@@ -72,6 +72,12 @@ class MultilinearRectilinear(BaseModel):
         assert ndims <= 8 and ndims >= 1, (
             "Number of dimensions must be at least 1 and no more than 8"
         )
+        assert all([x.data.ndim == 1 for x in [*self.grids, self.vals]]), (
+            "Grid data must be 1D"
+        )
+        assert all([x >= 2 for x in dims]), (
+            "All dimensions must have at least 2 entries"
+        )
         assert self.vals.data.size == reduce(lambda acc, x: acc * x, dims), (
             "Size of value array does not match grid dims"
         )
diff --git a/src/interpn/multilinear_regular.py b/src/interpn/multilinear_regular.py
index 9fecf4a..5dfeb67 100644
--- a/src/interpn/multilinear_regular.py
+++ b/src/interpn/multilinear_regular.py
@@ -80,6 +80,9 @@ class MultilinearRegular(BaseModel):
         )
         assert self.starts.data.size == ndims, "Grid dimension mismatch"
         assert self.steps.data.size == ndims, "Grid dimension mismatch"
+        assert all([x >= 2 for x in self.dims]), (
+            "All dimensions must have at least 2 entries"
+        )
         assert self.vals.data.size == reduce(lambda acc, x: acc * x, self.dims), (
             "Size of value array does not match grid dims"
         )
@@ -87,8 +90,14 @@ class MultilinearRegular(BaseModel):
             "All grid steps must be positive and nonzero"
         )
         assert all(
-            [x.data.dtype == self.vals.data.dtype for x in [self.steps, self.vals]]
+            [
+                x.data.dtype == self.vals.data.dtype
+                for x in [self.starts, self.steps, self.vals]
+            ]
         ), "All grid inputs must be of the same data type (np.float32 or np.float64)"
+        assert all(
+            [x.data.ndim == 1 for x in [self.starts, self.steps, self.vals]]
+        ), "Grid data must be 1D"
         assert all(
             [x.data.data.contiguous for x in [self.starts, self.steps, self.vals]]
         ), "Grid data must be contiguous"
diff --git a/src/interpn/nearest_rectilinear.py b/src/interpn/nearest_rectilinear.py
index 7a01a27..cb9875f 100644
--- a/src/interpn/nearest_rectilinear.py
+++ b/src/interpn/nearest_rectilinear.py
@@ -71,6 +71,12 @@ class NearestRectilinear(BaseModel):
         assert ndims <= 6 and ndims >= 1, (
             "Number of dimensions must be at least 1 and no more than 6"
         )
+        assert all([x.data.ndim == 1 for x in [*self.grids, self.vals]]), (
+            "Grid data must be 1D"
+        )
+        assert all([x >= 2 for x in dims]), (
+            "All dimensions must have at least 2 entries"
+        )
         assert self.vals.data.size == reduce(lambda acc, x: acc * x, dims), (
             "Size of value array does not match grid dims"
         )
diff --git a/src/interpn/nearest_regular.py b/src/interpn/nearest_regular.py
index 2a00f8e..ba572ab 100644
--- a/src/interpn/nearest_regular.py
+++ b/src/interpn/nearest_regular.py
@@ -79,6 +79,9 @@ class NearestRegular(BaseModel):
         )
         assert self.starts.data.size == ndims, "Grid dimension mismatch"
         assert self.steps.data.size == ndims, "Grid dimension mismatch"
+        assert all([x >= 2 for x in self.dims]), (
+            "All dimensions must have at least 2 entries"
+        )
         assert self.vals.data.size == reduce(lambda acc, x: acc * x, self.dims), (
             "Size of value array does not match grid dims"
         )
@@ -91,6 +94,9 @@ class NearestRegular(BaseModel):
                 for x in [self.starts, self.steps, self.vals]
             ]
         ), "All grid inputs must be of the same data type (np.float32 or np.float64)"
+        assert all(
+            [x.data.ndim == 1 for x in [self.starts, self.steps, self.vals]]
+        ), "Grid data must be 1D"
         assert all(
             [x.data.data.contiguous for x in [self.starts, self.steps, self.vals]]
         ), "Grid data must be contiguous"
-- 
2.43.0


From 05c46c53ac543c63c65aeb0d1c8e03e81da549f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:09 +0000
Subject: [PATCH 14/14] fix: serialized arrays that are a single number are
 refused

---
 src/interpn/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpn/serialization.py b/src/interpn/serialization.py
index 5a9efb2..20b89f7 100644
--- a/src/interpn/serialization.py
+++ b/src/interpn/serialization.py
@@ -28,7 +28,7 @@ class ArrayF64(BaseModel):
     @field_validator("data", mode="before")
     def _validate_x(data: Any) -> NDArray[np.float64]:
         if isinstance(data, str):
-            y = np.ascontiguousarray(np.array(json.loads(data), dtype=np.float64))
+            y = np.array(json.loads(data), dtype=np.float64)
         elif isinstance(data, np.ndarray):
             y = np.ascontiguousarray(data.astype(np.float64))
         elif isinstance(data, list):
@@ -59,7 +59,7 @@ class ArrayF32(BaseModel):
     @field_validator("data", mode="before")
     def _validate_x(data: Any) -> NDArray[np.float32]:
         if isinstance(data, str):
-            y = np.ascontiguousarray(np.array(json.loads(data), dtype=np.float32))
+            y = np.array(json.loads(data), dtype=np.float32)
         elif isinstance(data, np.ndarray):
             y = np.ascontiguousarray(data.astype(np.float32))
         elif isinstance(data, list):
-- 
2.43.0

