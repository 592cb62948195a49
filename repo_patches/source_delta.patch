From 2a65a3a2beb4242df75af9969f76b8006b59269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 01/54] fix: correct a term of the 4x4 determinant used for
 inversion

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 455146a..b49aac2 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -646,7 +646,7 @@ where T: Element<T>
         let det  = a11*a22*a33*a44 + a11*a23*a34*a42 + a11*a24*a32*a43 +
                    a12*a21*a34*a43 + a12*a23*a31*a44 + a12*a24*a33*a41 + 
                    a13*a21*a32*a44 + a13*a22*a34*a41 + a13*a24*a31*a42 + 
-                   a14*a21*a33*a42 + a14*a22*a34*a43 + a14*a23*a32*a41 -
+                   a14*a21*a33*a42 + a14*a22*a31*a43 + a14*a23*a32*a41 -
                    a11*a22*a34*a43 - a11*a23*a32*a44 - a11*a24*a33*a42 -
                    a12*a21*a33*a44 - a12*a23*a34*a41 - a12*a24*a31*a43 -
                    a13*a21*a34*a42 - a13*a22*a31*a44 - a13*a24*a32*a41 -
-- 
2.43.0


From 81a4a675d4253ca74306581abdcbb88fa41ad3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 02/54] fix: 3x3 inversion no longer yields the transposed
 inverse

---
 gmatlib/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index b49aac2..7502875 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -593,13 +593,13 @@ where T: Element<T>
     fn try_inplace_invert_3(&mut self) -> Result<()>
     {
         let a11 = self[(0, 0)];
-        let a12 = self[(1, 0)];
-        let a13 = self[(2, 0)];
-        let a21 = self[(0, 1)];
+        let a12 = self[(0, 1)];
+        let a13 = self[(0, 2)];
+        let a21 = self[(1, 0)];
         let a22 = self[(1, 1)];
-        let a23 = self[(2, 1)];
-        let a31 = self[(0, 2)];
-        let a32 = self[(1, 2)];
+        let a23 = self[(1, 2)];
+        let a31 = self[(2, 0)];
+        let a32 = self[(2, 1)];
         let a33 = self[(2, 2)];
 
         let det  = a11*a22*a33 + a21*a32*a13 + a31*a12*a23 
-- 
2.43.0


From 7d236183f9e1c78e87227a50fe55c0ce5a5a6a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 03/54] fix: inplace_row_swap swaps rows instead of columns

---
 gmatlib/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 7502875..4591078 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -252,9 +252,9 @@ where T: Element<T>
         let mut storage: T;
         for i in 0..self.cols
         {
-            storage       = self[(i, r1)];
-            self[(i, r1)] = self[(i, r2)];
-            self[(i, r2)] = storage;
+            storage       = self[(r1, i)];
+            self[(r1, i)] = self[(r2, i)];
+            self[(r2, i)] = storage;
         } 
     }
 
-- 
2.43.0


From 82c8a77b1455e872fa86054656a6b6ea3e8902e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 04/54] fix: bounds-check both indices of a mutably indexed
 matrix

---
 gmatlib/src/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index d5999b4..9f11a11 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -805,6 +805,10 @@ where T: Element<T>
     #[inline]
     fn index_mut(&mut self, index: (usize, usize)) -> &mut T 
     {
+        if index.0 >= self.rows || index.1 >= self.cols 
+        {
+            panic!("index out of bounds: the matrix has {} rows and {} cols but the index was [({}, {})]", self.rows, self.cols, index.0, index.1)
+        }
         &mut (self.vals[index.0 * self.cols + index.1])
     }
 }
-- 
2.43.0


From 4aee5e27dc0c23f00747fd0f665d0e9de3860bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 05/54] fix: C functions borrow matrix handles so that failing
 calls no longer free them

---
 gmatlib/src/ffi.rs | 67 ++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index 16ed4e1..171514a 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -1,5 +1,4 @@
 use std::ffi::{c_double, c_uint, c_void};
-use std::mem;
 use std::panic::catch_unwind;
 use std::ptr::null_mut;
 use crate::{Matrix, MatrixInversionError};
@@ -39,10 +38,8 @@ pub extern "C" fn new_double_identity_matrix(n: c_uint) -> *mut c_void
 pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_swap(r1 as usize, r2 as usize);
-        
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -56,10 +53,8 @@ pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) ->
 pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_scale(row as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -73,10 +68,8 @@ pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_dou
 pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scale(scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -90,10 +83,8 @@ pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_add(r1 as usize, r2 as usize);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -107,10 +98,8 @@ pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c
 pub extern "C" fn inplace_scaled_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scaled_row_add(r1 as usize, r2 as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -126,19 +115,16 @@ pub extern "C" fn multiply_matrix(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mu
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *mut Matrix<c_double>),
+            &*(ptr_b as *mut Matrix<c_double>),
         )};
     
-        let ab = match a.multiply_matrix(&b) 
+        let ab = match a.multiply_matrix(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
 
@@ -155,19 +141,16 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *mut Matrix<c_double>),
+            &*(ptr_b as *mut Matrix<c_double>),
         )};
     
-        let ab = match a.augment_with(&b) 
+        let ab = match a.augment_with(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
     
@@ -182,9 +165,8 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
 pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c2: c_uint) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
         let b = Box::new(a.subset(r1 as usize, c1 as usize, r2 as usize, c2 as usize));
-        mem::forget(a); // Prevent drop that would deallocate matrix data.
         Box::into_raw(b) as *mut c_void
     });
 
@@ -199,15 +181,13 @@ pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c
 pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
         let trace = match a.trace()
         {
             Ok(t) => t,
             Err(_) => c_double::NAN
         };
 
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
-
         trace
     });
 
@@ -222,9 +202,8 @@ pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
         let b = Box::new(a.transpose());
-        mem::forget(a);
 
         Box::into_raw(b) as *mut c_void
     });
@@ -240,7 +219,7 @@ pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         let status = match a.try_inplace_invert()
         {
             Ok(_)  => c_uint::MAX,
@@ -255,8 +234,6 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
                 }
             }
         };
-    
-        mem::forget(a);
         status
     });
     
@@ -267,10 +244,8 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint, value: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a[(i as usize, j as usize)] = value;
-
-        mem::forget(a);
     });
 
     match res
@@ -284,9 +259,8 @@ pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint
 pub extern "C" fn index_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
         let value = a[(i as usize, j as usize)];
-        mem::forget(a);
         value
     });
 
@@ -305,11 +279,10 @@ pub extern "C" fn clone_double_matrix(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
         // Get the actual matrix instance
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *mut Matrix<c_double>) };
 
-        // Use clone to allocate a new instance and mem::forget it AND the old instance
-        let b = a.clone();
-        mem::forget(a);
+        // Use clone to allocate a new instance owned by the caller
+        let b = Box::new(a.clone());
     
         Box::into_raw(b) as *mut c_void
     });
-- 
2.43.0


From 384a0418194d8d92f62e940c36e1dda7d7fd2a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 06/54] fix: report a panic during inversion as an unknown
 error, not a zero determinant

---
 gmatlib/src/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index 171514a..cdbf8dc 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -237,7 +237,7 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
         status
     });
     
-    res.unwrap_or(0)
+    res.unwrap_or(3)
 }
 
 #[no_mangle]
-- 
2.43.0


From cc2fcb2558e57e0a3f1775ee0f54cdff5e932b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 07/54] fix: solve_equation clones the caller's context instead
 of freeing it

---
 geqslib/src/ffi.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 40e3d88..c8d0b03 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -1,6 +1,6 @@
 use std::ffi::{c_char, c_int, c_void, c_double, c_uint, CStr, CString};
 use std::panic::catch_unwind;
-use std::ptr::{null, copy_nonoverlapping};
+use std::ptr::null;
 
 use crate::shunting::{ContextHashMap, new_context, ContextLike};
 use crate::solve_equation_with_context;
@@ -57,8 +57,7 @@ pub extern "C" fn solve_equation(equation: *const c_char, context: *const c_void
     let res = catch_unwind(|| {
         let equation_str = unsafe { new_owned_string(equation) };
 
-        let mut ctx = ContextHashMap::new();
-        unsafe { copy_nonoverlapping(context as *const ContextHashMap, &mut ctx, 1) };
+        let mut ctx = unsafe { (*(context as *const ContextHashMap)).clone() };
 
         let (var, val) = match solve_equation_with_context(&equation_str, &mut ctx, guess, min, max, margin, limit as usize)
         {
-- 
2.43.0


From f177a2796662686c1b65348b1a9232b380208735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 08/54] fix: specify_variable reports -1 for a variable the
 system does not have

---
 geqslib/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index c8d0b03..557bc53 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -192,14 +192,14 @@ pub extern "C" fn specify_variable(p_system: *mut c_void, var: *const c_char, gu
         unsafe
         {    
             let var_str = new_owned_string(var);
-            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max);
+            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max)
         }
     });
 
     match res
     {
-        Ok(_) => 1,
-        Err(_) => -1,
+        Ok(true) => 1,
+        _        => -1,
     }
 }
 
-- 
2.43.0


From 39100fed98da4eb5acb5c22f1228735acf00533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 09/54] fix: declare inplace_row_swap and the over-constrained
 status in the C headers

---
 geqslib/geqslib.h | 5 +++--
 gmatlib/gmatlib.h | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index c05f199..2d2dc48 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -23,13 +23,14 @@ namespace _ngffi_
         /// has yet to be fully constrained, or is over/improperly constrained.
         enum SystemBuilderConstraintStatus
         {
-            /// @brief The system is either over-constrained or otherwise 
-            /// experienced an error during the constraint-checking process
+            /// @brief an error occurred during the constraint-checking process
             ConstraintError = -1,
             /// @brief the system is under-constrained
             NotConstrained  =  0,
             /// @brief the system is properly constrained
             Constrained     =  1,
+            /// @brief the equation would have over-constrained the system and was not added
+            OverConstrained =  2,
         };
 
         /// @brief
diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 60e5ed1..bf7bb86 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -55,6 +55,13 @@ namespace _ngffi_
         /// @return a raw pointer to the new matrix.
         void *new_double_identity_matrix(unsigned n);
 
+        /// @brief swaps two rows of the matrix in-place
+        /// @param ptr a pointer to the matrix
+        /// @param r1 the first row to be swapped
+        /// @param r2 the row to swap it with
+        /// @return a boolean integer value indicating success (0 on failure)
+        unsigned inplace_row_swap(void *ptr, unsigned r1, unsigned r2);
+
         /// @brief scales the given row of the matrix
         /// @param ptr a raw pointer to the matrix to mutate
         /// @param row the 0-indexed row to scale 
-- 
2.43.0


From 4674901f1e5d2995087847e8203b2da095deff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 10/54] fix: newton_raphson bounds the size of the last step on
 both sides

---
 geqslib/src/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 195bbae..8655159 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -48,7 +48,7 @@ where anyhow::Error: From<E>
     let delta = y / y_prime;
 
     // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta <= margin // ...in both the y AND x directions...
+    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
     {
         return Ok(guess); // ...if so, exit early
     }
-- 
2.43.0


From c452df35b282dbde28742447e438163e6540909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 11/54] fix: multivariate_newton_raphson compares the magnitude
 of the residual, not its square

---
 geqslib/src/newton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 8655159..5f9737d 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -165,7 +165,8 @@ where
     }
     let error = y.iter()
         .map(|v| v.powi(2))
-        .sum::<f64>();
+        .sum::<f64>()
+        .sqrt();
 
     // Calculate change vector and its magnitude
     let deltas = jacobian * Matrix::from_col_vec(y);
-- 
2.43.0


From 4c9cee272a5f1577c9bb2008345efc1eb73c0bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 12/54] fix: solve_equation_with_context starts from the given
 guess

---
 geqslib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 5e58539..01e1d59 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -102,7 +102,7 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, 1.0, margin, limit)?))
+    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From 83d12e19c165f946676a9230cc98a8e4776eb989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 13/54] fix: an unmatched closing parenthesis is an error

---
 geqslib/src/shunting.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ddcb1c5..29aba6c 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -159,19 +159,13 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             ")" => {
-                while let Some(op) = stack.pop() 
+                loop 
                 {
-                    if op != "(" 
-                    {
-                        queue.push(tokenize_with_context(op, context)?);
-                    } 
-                    else if op == "(" 
-                    {
-                        break;
-                    } 
-                    else 
+                    match stack.pop() 
                     {
-                        return Err(ShuntingYardError::UnclosedParenthesis.into())
+                        Some("(") => break,
+                        Some(op)  => queue.push(tokenize_with_context(op, context)?),
+                        None      => return Err(ShuntingYardError::UnclosedParenthesis.into()),
                     }
                 }
                 unary_minus = false;
-- 
2.43.0


From acb0ab7c4ba6be801fc68cf961c6f9b510558e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 14/54] fix: a function call ends at its closing parenthesis

---
 geqslib/src/shunting.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 29aba6c..69f9588 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -168,6 +168,16 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                         None      => return Err(ShuntingYardError::UnclosedParenthesis.into()),
                     }
                 }
+
+                // the parentheses may have held the arguments of a function call
+                if let Some(&func) = stack.last()
+                {
+                    if let Some(Token::Func(_, _)) = context.get(func)
+                    {
+                        stack.pop();
+                        queue.push(tokenize_with_context(func, context)?);
+                    }
+                }
                 unary_minus = false;
             },
 
-- 
2.43.0


From 247fa73656f12333579a67bf42ed441d5fbbd1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 15/54] fix: systems that grow new variables can be evaluated

---
 geqslib/src/shunting.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 69f9588..40e5d8c 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -315,6 +315,8 @@ pub fn compile_to_fn_of_hashmap(expr: &str, context: &ContextHashMap) -> anyhow:
             match arg_lookup_table.get(var)
             {
                 Some(Token::Var(r)) => (*r.borrow_mut()).set(*value),
+                // added to the system after this expression was compiled, so not part of it
+                None => continue,
                 _ => return Err(CompiledExpressionLookupError.into()),
             }
         }
-- 
2.43.0


From 31b3c0f8de27e74c2870b1b72a41796d07b09f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 16/54] fix: an equation that cannot be added leaves the system
 builder unchanged

---
 geqslib/src/system.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 1e41440..b6b55a8 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -136,9 +136,11 @@ impl SystemBuilder
         }        
 
         // Add the equation to the system, updating the context with any newly-added variables
+        let mut context = self.context.clone();
         self.system_equations.push(
-            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context)?) 
+            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut context)?) 
         );
+        self.context = context;
 
         // Add possible newly-found variable to the system
         if let Some(new_var) = unknowns.pop()
-- 
2.43.0


From a3f482b3089a38affbe366456ddb4e25f3e0db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 17/54] fix: a variable solved on its own is a constant for the
 remaining equations

---
 nexsys/src/lib.rs | 402 +++++++++++++++++++++++-----------------------
 1 file changed, 201 insertions(+), 201 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index dfcd9a8..20e5ed1 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -1,202 +1,202 @@
-/// Different errors specific to Nexsys implementations of algorithms.
-pub mod errors;
-/// Provides `extern "C"` functions for use in other programming languages. Not 
-/// intended for use in other Rust projects.
-pub mod ffi;
-/// Provides tools for parsing text prior to passing to the equation solving engine.
-pub mod parsing;
-/// Provides data sets of common units and functions for converting between them.
-pub mod units;
-
-use std::collections::HashMap;
-
-use geqslib::solve_equation_with_context;
-use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
-use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
-
-use parsing::compile;
-
-/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
-fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
-        if unknowns.len() != 1
-        {
-            return Ok(false);
-        }
-
-        let var_info: [f64; 3];
-        if declared.contains_key(unknowns[0])
-        {
-            var_info = declared[unknowns[0]];
-        }
-        else
-        {
-            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
-        }
-
-        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_var_with_domain_to_ctx(&soln.0, soln.1, var_info[1], var_info[2]);
-        *log_step = format!(
-            "Var: {:#?} \nEquation: {}", 
-            soln.0, equation
-        );
-        eqn_pool.remove(i);
-        return Ok(true);
-    }
-    Ok(false)
-}
-
-fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
-        let mut eqn_strings = vec![equation.to_owned()];
-
-        for (j, equation) in eqn_pool.iter().enumerate()
-        {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
-            {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
-            }
-        }
-            
-        *log_step = format!("{:#?}", eqn_strings);
-
-        // Solve the found constrained system:
-        if let Some(mut system) = builder.build_system()
-        {
-            for (var, var_info) in declared
-            {
-                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
-            }
-
-            let soln = system.solve(margin, limit)?;
-            for (var, val) in soln 
-            {
-                ctx.add_const_to_ctx(&var, val);
-            }
-            
-            let remaining_eqns: Vec<String> = eqn_pool.iter()
-                .filter(|x| !eqn_strings.contains(x) && x != &equation)
-                .map(|x| x.to_owned())
-                .collect();
-
-            eqn_pool.clear();
-            eqn_pool.extend(remaining_eqns);
-
-            // println!("{:#?}", eqn_pool);
-
-            return Ok(true);
-        }
-    }
-
-    Ok(false)
-}
-
-/// Solves a system of equations in plain-text format.
-/// For more supported syntax, see `solve_with_preprocessors`
-/// 
-/// # Example
-/// ```
-/// ```
-pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut log = vec![];
-    let mut eqn_pool = system.split('\n')
-        .filter(|x| x.contains('='))
-        .map(|x| x.to_owned())
-        .collect();
-
-    loop
-    {
-        let mut log_step = String::default();
-        // Get less expensive solutions:
-        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-
-        // Dig in and solve a more expensive subsystem:
-        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-        
-        break;
-    }
-
-    let mut soln_map = HashMap::new(); 
-    for (name, val) in ctx
-    {
-        match val
-        {
-            Token::Var(v) => {
-                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
-            },
-            Token::Num(n) => {
-                soln_map.insert(name.to_owned(), *n);
-            },
-            _ => {} 
-        }
-    }
-
-    Ok((log, soln_map))
-}
-
-/// Solves a system of equations with additional syntax used to indicate 
-/// unit conversions, constant known values, nicer if statements, and more.
-/// 
-/// # Example
-/// ```
-/// use nexsys::solve_with_preprocessors;
-/// 
-/// let system = r#"
-/// keep x on [0, 100]
-/// guess 3 for y
-/// const nine = 9
-/// 
-/// x + y = nine
-/// x - y = 4
-/// 
-/// if x > y:
-///     i = 1
-/// else:
-///     i = -1
-/// end
-/// "#;
-/// 
-/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
-///     .expect("failed to solve system!");
-/// 
-/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
-/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
-/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
-/// ```
-pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut ctx = new_context(); 
-    let mut declared = HashMap::new();
-    let compiled = compile(system, &mut ctx, &mut declared)?;
-
-    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
+/// Different errors specific to Nexsys implementations of algorithms.
+pub mod errors;
+/// Provides `extern "C"` functions for use in other programming languages. Not 
+/// intended for use in other Rust projects.
+pub mod ffi;
+/// Provides tools for parsing text prior to passing to the equation solving engine.
+pub mod parsing;
+/// Provides data sets of common units and functions for converting between them.
+pub mod units;
+
+use std::collections::HashMap;
+
+use geqslib::solve_equation_with_context;
+use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
+use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
+
+use parsing::compile;
+
+/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
+fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
+        if unknowns.len() != 1
+        {
+            return Ok(false);
+        }
+
+        let var_info: [f64; 3];
+        if declared.contains_key(unknowns[0])
+        {
+            var_info = declared[unknowns[0]];
+        }
+        else
+        {
+            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
+        }
+
+        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
+        ctx.add_const_to_ctx(&soln.0, soln.1);
+        *log_step = format!(
+            "Var: {:#?} \nEquation: {}", 
+            soln.0, equation
+        );
+        eqn_pool.remove(i);
+        return Ok(true);
+    }
+    Ok(false)
+}
+
+fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
+        let mut eqn_strings = vec![equation.to_owned()];
+
+        for (j, equation) in eqn_pool.iter().enumerate()
+        {
+            // Skip the current equation we're building a system with 
+            // OR an equation that we've already added to the system
+            if j == i || eqn_strings.contains(equation)
+            {
+                continue;
+            }
+
+            // println!("Constraint status: {}", builder.is_fully_constrained());
+
+            match builder.try_constrain_with(equation)?
+            {
+                ConstrainResult::WillConstrain => {
+                    eqn_strings.push(equation.to_owned());
+                    // println!("constrained with: {}", equation);
+                },
+                ConstrainResult::WillOverConstrain => break,
+                _ => {}
+            }
+        }
+            
+        *log_step = format!("{:#?}", eqn_strings);
+
+        // Solve the found constrained system:
+        if let Some(mut system) = builder.build_system()
+        {
+            for (var, var_info) in declared
+            {
+                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
+            }
+
+            let soln = system.solve(margin, limit)?;
+            for (var, val) in soln 
+            {
+                ctx.add_const_to_ctx(&var, val);
+            }
+            
+            let remaining_eqns: Vec<String> = eqn_pool.iter()
+                .filter(|x| !eqn_strings.contains(x) && x != &equation)
+                .map(|x| x.to_owned())
+                .collect();
+
+            eqn_pool.clear();
+            eqn_pool.extend(remaining_eqns);
+
+            // println!("{:#?}", eqn_pool);
+
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
+/// Solves a system of equations in plain-text format.
+/// For more supported syntax, see `solve_with_preprocessors`
+/// 
+/// # Example
+/// ```
+/// ```
+pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut log = vec![];
+    let mut eqn_pool = system.split('\n')
+        .filter(|x| x.contains('='))
+        .map(|x| x.to_owned())
+        .collect();
+
+    loop
+    {
+        let mut log_step = String::default();
+        // Get less expensive solutions:
+        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+
+        // Dig in and solve a more expensive subsystem:
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+        
+        break;
+    }
+
+    let mut soln_map = HashMap::new(); 
+    for (name, val) in ctx
+    {
+        match val
+        {
+            Token::Var(v) => {
+                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
+            },
+            Token::Num(n) => {
+                soln_map.insert(name.to_owned(), *n);
+            },
+            _ => {} 
+        }
+    }
+
+    Ok((log, soln_map))
+}
+
+/// Solves a system of equations with additional syntax used to indicate 
+/// unit conversions, constant known values, nicer if statements, and more.
+/// 
+/// # Example
+/// ```
+/// use nexsys::solve_with_preprocessors;
+/// 
+/// let system = r#"
+/// keep x on [0, 100]
+/// guess 3 for y
+/// const nine = 9
+/// 
+/// x + y = nine
+/// x - y = 4
+/// 
+/// if x > y:
+///     i = 1
+/// else:
+///     i = -1
+/// end
+/// "#;
+/// 
+/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
+///     .expect("failed to solve system!");
+/// 
+/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
+/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
+/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
+/// ```
+pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut ctx = new_context(); 
+    let mut declared = HashMap::new();
+    let compiled = compile(system, &mut ctx, &mut declared)?;
+
+    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
 }
\ No newline at end of file
-- 
2.43.0


From 7975f071a10d5411cbf171171536b5f817854d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 18/54] fix: comments and declarations are removed where they
 stand, leaving other text alone

---
 nexsys/src/parsing/mod.rs | 420 +++++++++++++++++++-------------------
 1 file changed, 205 insertions(+), 215 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a8087d9..36bf78b 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -1,216 +1,206 @@
-mod conditionals;
-// mod duplicate; TODO: need to polish this up.
-
-use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
-use lazy_static::lazy_static;
-use regex::Regex;
-use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
-
-pub use conditionals::*;
-
-const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
-
-/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
-fn nexsys_regex(pattern: &str) -> Regex
-{
-    Regex::new(&pattern
-        .replace("@N", LEGAL_NUM_PATTERN)
-        .replace("@V", LEGAL_VAR_PATTERN)
-    ).unwrap()
-}
-
-/// Identifies and returns guess values found in a Nexsys-legal string.
-pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let guesses = RE.captures_iter(text);
-
-    for g in guesses 
-    {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
-                .expect("failed to parse number in guess declaration")
-        );
-    }
-    res
-}
-
-/// Identifies and returns domains found in a Nexsys-legal string.
-pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let domains = RE.captures_iter(text);
-
-    for d in domains 
-    {
-        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
-                .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
-                .expect("failed to parse second number in domain declaration")]
-        );
-    }
-    res
-}
-
-/// Identifies and removes comments found in a Nexsys-legal string.
-pub fn comments(text: &str) -> String 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
-    }
-    let mut output = text.to_string();
-
-    for f in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        output = output.replace(f, "");
-    }
-
-    output
-}
-
-/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-pub fn conversions(text: &str) -> anyhow::Result<String> {
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
-    }
-
-    let mut output = text.to_string();
-
-    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
-
-    for m in res 
-    {
-        let pre = m.replace(['[', ']'], "");
-        
-        let args: Vec<&str> = pre.split("->").collect();
-        
-        output = output.replace(m, 
-            &format!("{}", convert(args[0], args[1])? )
-        );
-    }
-
-    Ok(output)
-}
-
-/// Identifies and replaces any constants in a Nexsys-legal string.
-pub fn consts(text: &str) -> anyhow::Result<String> 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
-        static ref CONSTS: HashMap<String, f64> = const_data();
-    }
-
-    let mut output = text.to_string();
-
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
-        {
-            output = output.replace(m, &c.to_string());
-        } 
-        else 
-        {
-            return Err(ConstFormatError.into())
-        }
-    }
-    Ok(output)
-}
-
-pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let const_vals = RE.captures_iter(text);
-
-    for c in const_vals
-    {
-        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            c.get(1).unwrap().as_str().to_owned(), 
-            eval_str(c.get(2).unwrap().as_str())?
-        );
-    }
-    Ok(res)
-}
-
-/// Wraps most functions in `nexsys::parsing`, returning either an error that 
-/// prevents the code from being solvable or the intermediate language representation
-/// of the `.nxs`-formatted code.
-/// 
-/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
-pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
-{    
-    let sys_domains: HashMap<String, [f64; 2]>;
-    let sys_guesses: HashMap<String, f64>;
-    let sys_consts:  HashMap<String, f64>;
-    
-    let mut nil = comments(code); 
-
-    // Copy-paste all common engineering constants (this happens first so users can rename constants)
-    nil = consts(&nil)?;
-
-    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
-    nil = conversions(&nil)?;
-
-    // Set all constants used in the solution
-    (nil, sys_consts) = const_values(&nil)?;
-    for (var, val) in sys_consts
-    {
-        ctx.add_const_to_ctx(&var, val);
-    }
-
-    // Set all domains for variables in the solution
-    (nil, sys_domains) = domains(&nil);
-    for (var, bounds) in sys_domains
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[1] = bounds[0];
-            var_info[2] = bounds[1];
-        }
-        else 
-        {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
-        }
-    }
-
-    // Set all initial guesses for variables in the solution
-    (nil, sys_guesses) = guess_values(&nil);
-    for (var, guess) in sys_guesses
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[0] = guess;
-        }
-        else 
-        {
-            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
-        }
-    }
-
-    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
-    nil = conditionals(&nil)?;
-
-    Ok(nil)
+mod conditionals;
+// mod duplicate; TODO: need to polish this up.
+
+use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
+use lazy_static::lazy_static;
+use regex::Regex;
+use std::collections::HashMap;
+use crate::{units::{convert, const_data}, errors::ConstFormatError};
+
+pub use conditionals::*;
+
+const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+
+/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
+fn nexsys_regex(pattern: &str) -> Regex
+{
+    Regex::new(&pattern
+        .replace("@N", LEGAL_NUM_PATTERN)
+        .replace("@V", LEGAL_VAR_PATTERN)
+    ).unwrap()
+}
+
+/// Identifies and returns guess values found in a Nexsys-legal string.
+pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
+    }
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
+    let guesses = RE.captures_iter(text);
+
+    for g in guesses 
+    {
+        res.1.insert(
+            g.get(2).unwrap().as_str().to_owned(), 
+            g.get(1).unwrap().as_str().parse()
+                .expect("failed to parse number in guess declaration")
+        );
+    }
+    res
+}
+
+/// Identifies and returns domains found in a Nexsys-legal string.
+pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+    }
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
+    let domains = RE.captures_iter(text);
+
+    for d in domains 
+    {
+        res.1.insert(
+            d.get(1).unwrap().as_str().to_owned(),
+            [d.get(2).unwrap().as_str().parse()
+                .expect("failed to parse first number in domain declaration"),
+            d.get(3).unwrap().as_str().parse()
+                .expect("failed to parse second number in domain declaration")]
+        );
+    }
+    res
+}
+
+/// Identifies and removes comments found in a Nexsys-legal string.
+pub fn comments(text: &str) -> String 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
+    }
+    RE.replace_all(text, "").into_owned()
+}
+
+/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
+pub fn conversions(text: &str) -> anyhow::Result<String> {
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
+    }
+
+    let mut output = text.to_string();
+
+    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
+
+    for m in res 
+    {
+        let pre = m.replace(['[', ']'], "");
+        
+        let args: Vec<&str> = pre.split("->").collect();
+        
+        output = output.replace(m, 
+            &format!("{}", convert(args[0], args[1])? )
+        );
+    }
+
+    Ok(output)
+}
+
+/// Identifies and replaces any constants in a Nexsys-legal string.
+pub fn consts(text: &str) -> anyhow::Result<String> 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref CONSTS: HashMap<String, f64> = const_data();
+    }
+
+    let mut output = text.to_string();
+
+    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    {
+        if let Some(c) = CONSTS.get(&m.to_string()) 
+        {
+            output = output.replace(m, &c.to_string());
+        } 
+        else 
+        {
+            return Err(ConstFormatError.into())
+        }
+    }
+    Ok(output)
+}
+
+pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+    }
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
+    let const_vals = RE.captures_iter(text);
+
+    for c in const_vals
+    {
+        res.1.insert(
+            c.get(1).unwrap().as_str().to_owned(), 
+            eval_str(c.get(2).unwrap().as_str())?
+        );
+    }
+    Ok(res)
+}
+
+/// Wraps most functions in `nexsys::parsing`, returning either an error that 
+/// prevents the code from being solvable or the intermediate language representation
+/// of the `.nxs`-formatted code.
+/// 
+/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
+pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
+{    
+    let sys_domains: HashMap<String, [f64; 2]>;
+    let sys_guesses: HashMap<String, f64>;
+    let sys_consts:  HashMap<String, f64>;
+    
+    let mut nil = comments(code); 
+
+    // Copy-paste all common engineering constants (this happens first so users can rename constants)
+    nil = consts(&nil)?;
+
+    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
+    nil = conversions(&nil)?;
+
+    // Set all constants used in the solution
+    (nil, sys_consts) = const_values(&nil)?;
+    for (var, val) in sys_consts
+    {
+        ctx.add_const_to_ctx(&var, val);
+    }
+
+    // Set all domains for variables in the solution
+    (nil, sys_domains) = domains(&nil);
+    for (var, bounds) in sys_domains
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[1] = bounds[0];
+            var_info[2] = bounds[1];
+        }
+        else 
+        {
+            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+        }
+    }
+
+    // Set all initial guesses for variables in the solution
+    (nil, sys_guesses) = guess_values(&nil);
+    for (var, guess) in sys_guesses
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[0] = guess;
+        }
+        else 
+        {
+            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
+        }
+    }
+
+    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
+    nil = conditionals(&nil)?;
+
+    Ok(nil)
 }
\ No newline at end of file
-- 
2.43.0


From 6c45ea0e97794b98a73f445957379520c0ba159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 19/54] fix: constants and conversions are replaced where they
 stand, leaving other text alone

---
 nexsys/src/parsing/mod.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 36bf78b..d617cd2 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -82,20 +82,20 @@ pub fn conversions(text: &str) -> anyhow::Result<String> {
         static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
     }
 
-    let mut output = text.to_string();
+    let mut output = String::new();
+    let mut end = 0;
 
-    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
-
-    for m in res 
+    for m in RE.find_iter(text)
     {
-        let pre = m.replace(['[', ']'], "");
+        let pre = m.as_str().replace(['[', ']'], "");
         
         let args: Vec<&str> = pre.split("->").collect();
         
-        output = output.replace(m, 
-            &format!("{}", convert(args[0], args[1])? )
-        );
+        output += &text[end..m.start()];
+        output += &convert(args[0], args[1])?.to_string();
+        end = m.end();
     }
+    output += &text[end..];
 
     Ok(output)
 }
@@ -109,19 +109,24 @@ pub fn consts(text: &str) -> anyhow::Result<String>
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-    let mut output = text.to_string();
+    let mut output = String::new();
+    let mut end = 0;
 
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    for m in RE.find_iter(text)
     {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
+        if let Some(c) = CONSTS.get(m.as_str()) 
         {
-            output = output.replace(m, &c.to_string());
+            output += &text[end..m.start()];
+            output += &c.to_string();
+            end = m.end();
         } 
         else 
         {
             return Err(ConstFormatError.into())
         }
     }
+    output += &text[end..];
+
     Ok(output)
 }
 
-- 
2.43.0


From 6d7c504698a5134016eb5eda0c70cd26d9a76186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 20/54] fix: a space after a minus sign in a guess or domain no
 longer panics

---
 nexsys/src/parsing/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index d617cd2..e7d3ce1 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -35,7 +35,7 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
     {
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse number in guess declaration")
         );
     }
@@ -56,9 +56,9 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
     {
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse second number in domain declaration")]
         );
     }
-- 
2.43.0


From f37aeaa0a5e34fe07111897871a3e8dc0f42dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 21/54] fix: cubic units are the cube of their length unit

---
 nexsys/src/units/mod.rs | 326 ++++++++++++++++++++--------------------
 1 file changed, 163 insertions(+), 163 deletions(-)

diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index ddbc04e..d175f83 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -1,164 +1,164 @@
-use lazy_static::lazy_static;
-use serde_json::{Value, from_str};
-use std::collections::HashMap;
-
-use crate::errors::UnitConversionError;
-
-/// Handles generating additional units for various combinations of other units
-fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
-    
-    let mut temp = HashMap::new();
-    
-    for i in &data[&num.to_string()] {
-    
-        for j in &data[&denom.to_string()] {
-    
-            temp.insert(
-                format!("{}/{}", i.0, j.0),
-                *i.1 / *j.1
-            );
-        
-        }
-    
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    if fc1 == fc2 {
-        for i in &data[&fc1.to_string()] {
-            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
-        }
-    } else {
-        for i in &data[&fc1.to_string()] {
-            for j in &data[&fc2.to_string()] {
-                let val = *i.1 * *j.1;
-                temp.insert( format!("{}-{}", i.0, j.0), val);
-                temp.insert( format!("{}-{}", j.0, i.0), val);
-            }
-        }
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1);    
-    }
-
-    if let Some(d) = data.get_mut("VOLUME") {
-        d.extend(temp.into_iter());
-    }
-    
-    data
-}
-
-/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
-
-    let raw_text = include_str!("units.json");
-    let err = "failed to parse json... is the formatting of 'units.json' correct?";
-    
-    // again I ask, lord forgive me for what I am about to do...
-    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| (
-            i.0.to_string(), 
-            i.1.as_object().expect(err).into_iter()
-            .map(
-                |j| (
-                    j.0.to_string(), 
-                    j.1.as_f64().expect(err)
-                )
-            ).collect()
-        )
-    ).collect();
-
-    dejson
-}
-
-/// Generates a more complete set of unit conversion data by combining different units to create other common units.
-pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
-    let mut data = raw_unit_data();
-    data.insert("SPRING FORCE".to_string(), HashMap::new());
-
-    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
-    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
-    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
-    data =    generate_volume_units(data);
-
-
-    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
-    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
-    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
-    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
-    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
-    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
-
-    data
-}
-
-/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
-pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
-    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
-        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
-    }
-
-    let cf: Vec<f64> = UD.iter()
-    .filter(|&i| { 
-        let qty = UD.get(i.0).unwrap().clone();
-        qty.contains_key(fro) && qty.contains_key(to)
-    }).map(|i| {
-        i.1[fro] / i.1[to]
-    }).collect();
-
-    if cf.len() != 1 {
-        return Err(UnitConversionError.into())
-    }
-
-    Ok(cf[0])
-}
-
-/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn const_data() -> HashMap<String, f64> {
-
-    let raw_text = include_str!("consts.json");
-    let err = "failed to parse json... is the formatting of consts.json correct?";
-    
-    // thankfully this isn't as bad as reading units.json
-    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| {
-            let err = format!("failed to parse json: {:#?}", i.1);
-            let c1 = i.1.as_array().expect(&err);
-
-            let err = format!("failed to parse json: {:#?}", c1[1]);
-            let c2 = match c1[1].as_f64() {
-                Some(c) => c,
-                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
-            };
-
-            (i.0.to_string(), c2)
-
-    }).collect();
-
-    dejson
+use lazy_static::lazy_static;
+use serde_json::{Value, from_str};
+use std::collections::HashMap;
+
+use crate::errors::UnitConversionError;
+
+/// Handles generating additional units for various combinations of other units
+fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
+    
+    let mut temp = HashMap::new();
+    
+    for i in &data[&num.to_string()] {
+    
+        for j in &data[&denom.to_string()] {
+    
+            temp.insert(
+                format!("{}/{}", i.0, j.0),
+                *i.1 / *j.1
+            );
+        
+        }
+    
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    if fc1 == fc2 {
+        for i in &data[&fc1.to_string()] {
+            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
+        }
+    } else {
+        for i in &data[&fc1.to_string()] {
+            for j in &data[&fc2.to_string()] {
+                let val = *i.1 * *j.1;
+                temp.insert( format!("{}-{}", i.0, j.0), val);
+                temp.insert( format!("{}-{}", j.0, i.0), val);
+            }
+        }
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    for i in &data[&"LENGTH".to_string()] {
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
+    }
+
+    if let Some(d) = data.get_mut("VOLUME") {
+        d.extend(temp.into_iter());
+    }
+    
+    data
+}
+
+/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
+
+    let raw_text = include_str!("units.json");
+    let err = "failed to parse json... is the formatting of 'units.json' correct?";
+    
+    // again I ask, lord forgive me for what I am about to do...
+    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| (
+            i.0.to_string(), 
+            i.1.as_object().expect(err).into_iter()
+            .map(
+                |j| (
+                    j.0.to_string(), 
+                    j.1.as_f64().expect(err)
+                )
+            ).collect()
+        )
+    ).collect();
+
+    dejson
+}
+
+/// Generates a more complete set of unit conversion data by combining different units to create other common units.
+pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
+    let mut data = raw_unit_data();
+    data.insert("SPRING FORCE".to_string(), HashMap::new());
+
+    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
+    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
+    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
+    data =    generate_volume_units(data);
+
+
+    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
+    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
+    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
+    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
+    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
+    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
+
+    data
+}
+
+/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
+pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
+    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
+        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
+    }
+
+    let cf: Vec<f64> = UD.iter()
+    .filter(|&i| { 
+        let qty = UD.get(i.0).unwrap().clone();
+        qty.contains_key(fro) && qty.contains_key(to)
+    }).map(|i| {
+        i.1[fro] / i.1[to]
+    }).collect();
+
+    if cf.len() != 1 {
+        return Err(UnitConversionError.into())
+    }
+
+    Ok(cf[0])
+}
+
+/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn const_data() -> HashMap<String, f64> {
+
+    let raw_text = include_str!("consts.json");
+    let err = "failed to parse json... is the formatting of consts.json correct?";
+    
+    // thankfully this isn't as bad as reading units.json
+    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| {
+            let err = format!("failed to parse json: {:#?}", i.1);
+            let c1 = i.1.as_array().expect(&err);
+
+            let err = format!("failed to parse json: {:#?}", c1[1]);
+            let c2 = match c1[1].as_f64() {
+                Some(c) => c,
+                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
+            };
+
+            (i.0.to_string(), c2)
+
+    }).collect();
+
+    dejson
 }
\ No newline at end of file
-- 
2.43.0


From 2de17bf4a150f983c0577c48f8a0df4426c97baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 22/54] fix: constants whose names contain digits are found

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index e7d3ce1..5553c30 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -105,7 +105,7 @@ pub fn consts(text: &str) -> anyhow::Result<String>
 {
     lazy_static! 
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-- 
2.43.0


From e51e5fb5aeac37b4d61697d93ac66db386781673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 23/54] fix: nxc does not overwrite an input file without the
 .nxs extension

---
 nexsys/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 62f9350..01d1a4d 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -92,7 +92,12 @@ OPTIONS:
     );
 
     if output_file {
-        match write(args[1].replace(".nxs", ".txt"), output) {
+        let mut output_path = args[1].replace(".nxs", ".txt");
+        if output_path == args[1] {
+            output_path += ".txt"; // never overwrite the input file
+        }
+
+        match write(output_path, output) {
             Ok(_) => process::exit(0),
             Err(_) => {
                 println!("[nxc].....ERR: nxc could not write to the output file");
-- 
2.43.0


From 4eaa4db37ce5487f192a8c21537531654ef735c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 24/54] fix: nxc accepts the documented --output-file option

---
 nexsys/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 01d1a4d..e3f777b 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -67,7 +67,7 @@ OPTIONS:
             
             println!("\n{preprocess}\n");
         }
-        if args[i] == *"--to-file" || args[i] == *"-o" {
+        if args[i] == *"--output-file" || args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
             output_file = true;
         }
-- 
2.43.0


From 8c0dd69a14f9c7daddf38192d835fc2761dcf7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 25/54] fix: models with an unknown model or element type are
 an error, not a panic

---
 neapolitan/src/errors.rs |  2 ++
 neapolitan/src/lib.rs    | 23 ++++++++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 6e6f2dd..af964ea 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -41,4 +41,6 @@ pub enum NodalAnalysisModellingError
     NodeDoesNotExist,
     #[error("could not find desired model type in the given or default configurators")]
     ModelTypeNotFound,
+    #[error("could not find desired element type in the configurator of this model type")]
+    ElementTypeNotFound,
 }
\ No newline at end of file
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 222c295..89878fa 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -183,16 +183,21 @@ impl NodalAnalysisStudyBuilder
         }
     }
 
-    fn get_element_constructor(&self, elem: &str) -> ElementConstructor
+    fn get_configurator(&self) -> anyhow::Result<&NodalAnalysisStudyConfigurator>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.elements[elem]
+        self.configurator.get(&self.model.model_type)
+            .ok_or_else(|| NodalAnalysisModellingError::ModelTypeNotFound.into())
     }
 
-    fn get_dimension(&self) -> usize
+    fn get_element_constructor(&self, elem: &str) -> anyhow::Result<ElementConstructor>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.dimension
+        self.get_configurator()?.elements.get(elem).copied()
+            .ok_or_else(|| NodalAnalysisModellingError::ElementTypeNotFound.into())
+    }
+
+    fn get_dimension(&self) -> anyhow::Result<usize>
+    {
+        Ok(self.get_configurator()?.dimension)
     }
 
     pub fn add_nodes(mut self, n: usize) -> NodalAnalysisStudyBuilder
@@ -232,7 +237,7 @@ impl NodalAnalysisStudyBuilder
 
     pub fn run_study(self, margin: f64, limit: usize) -> anyhow::Result<NodalAnalysisStudyResult>
     {
-        let n = self.get_dimension();
+        let n = self.get_dimension()?;
         let mut nodes = vec![];
         let mut elements = vec![];
 
@@ -264,7 +269,7 @@ impl NodalAnalysisStudyBuilder
         for element_data in &self.model.elements
         {
             let NodalAnalysisElement { element_type, input, output, gain } = element_data;
-            let constructor = self.get_element_constructor(element_type);
+            let constructor = self.get_element_constructor(element_type)?;
             elements.push(constructor(
                 Rc::downgrade(&nodes[*input]), 
                 Rc::downgrade(&nodes[*output]), 
@@ -277,7 +282,7 @@ impl NodalAnalysisStudyBuilder
         let mut guess = HashMap::new();
         for (node_idx, _) in nodes.iter().enumerate().filter(|(_, x)| !x.borrow().is_locked)
         {
-            for comp_idx in 0..self.get_dimension()
+            for comp_idx in 0..n
             {
                 let idx = ComponentIndex 
                 { 
-- 
2.43.0


From 3d55534e2db38e20585df63f2767e9f350cf8519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 26/54] fix: models that refer to a node they do not have are
 an error, not a panic

---
 neapolitan/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 89878fa..283ff7d 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -259,7 +259,9 @@ impl NodalAnalysisStudyBuilder
         // Step 2 - set nodal metadata if it is given
         for (&i, node_data) in &self.model.configuration
         {
-            let mut node = nodes[i].borrow_mut();
+            let mut node = nodes.get(i)
+                .ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?
+                .borrow_mut();
             node.potential = Matrix::from_col_vec(node_data.potential.to_vec());
             node.is_locked = node_data.is_locked;
             node._metadata = node_data.metadata.clone();
@@ -270,9 +272,14 @@ impl NodalAnalysisStudyBuilder
         {
             let NodalAnalysisElement { element_type, input, output, gain } = element_data;
             let constructor = self.get_element_constructor(element_type)?;
+            let (Some(input_node), Some(output_node)) = (nodes.get(*input), nodes.get(*output))
+            else
+            {
+                return Err(NodalAnalysisModellingError::NodeDoesNotExist.into());
+            };
             elements.push(constructor(
-                Rc::downgrade(&nodes[*input]), 
-                Rc::downgrade(&nodes[*output]), 
+                Rc::downgrade(input_node), 
+                Rc::downgrade(output_node), 
                 gain.to_vec(),
             )?);
         }
-- 
2.43.0


From d5bc83b389473dfb62f1a7522cb3433f0bdae9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 27/54] fix: a node potential of the wrong dimension is an
 error, not a panic

---
 neapolitan/src/errors.rs | 2 ++
 neapolitan/src/lib.rs    | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index af964ea..cc5186e 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -43,4 +43,6 @@ pub enum NodalAnalysisModellingError
     ModelTypeNotFound,
     #[error("could not find desired element type in the configurator of this model type")]
     ElementTypeNotFound,
+    #[error("the number of components of a node's potential did not match the dimension of the model type")]
+    PotentialDimensionMismatch,
 }
\ No newline at end of file
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 283ff7d..321b9e5 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -262,6 +262,10 @@ impl NodalAnalysisStudyBuilder
             let mut node = nodes.get(i)
                 .ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?
                 .borrow_mut();
+            if node_data.potential.len() != n
+            {
+                return Err(NodalAnalysisModellingError::PotentialDimensionMismatch.into());
+            }
             node.potential = Matrix::from_col_vec(node_data.potential.to_vec());
             node.is_locked = node_data.is_locked;
             node._metadata = node_data.metadata.clone();
-- 
2.43.0


From 754a269b9c564838be9d033bbba717bc24943299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 28/54] fix: elements whose gain is not a single value are an
 error, not a panic

---
 neapolitan/src/dc_circuits.rs   | 17 ++++++++++++++++-
 neapolitan/src/errors.rs        |  4 ++++
 neapolitan/src/heat_transfer.rs | 12 +++++++++++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 25c65a5..c8c5e11 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use gmatlib::{col_vec, Matrix};
 
 // Local modules
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, ElementGainError};
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
 
@@ -21,6 +21,11 @@ pub fn resistor(
     resistance: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if resistance.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         vec![1.0 / resistance[0]],  // Conductance (gain) is reciprocal of resistance in ohms
         input_node, output_node,    // Input and output_node nodes
@@ -36,6 +41,11 @@ pub fn voltage_source(
     voltage: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if voltage.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -79,6 +89,11 @@ pub fn current_source(
     current: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if current.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         current,
         input_node, output_node,
diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index cc5186e..2993f25 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -5,6 +5,10 @@ use thiserror::Error;
 #[error("the element could not be created because both its input and output nodes were already locked.")]
 pub struct ElementCreationError;
 
+#[derive(Debug, Error)]
+#[error("the element could not be created because its gain must be exactly one value")]
+pub struct ElementGainError;
+
 #[derive(Debug, Error)]
 pub enum EquationGenerationError
 {
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c7a811a..f10ac37 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use gmatlib::{col_vec, Matrix};
 use thiserror::Error;
 
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, ElementGainError};
 // Local modules
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
@@ -97,6 +97,11 @@ pub fn temperature_delta(
     temp_delta: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if temp_delta.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -140,6 +145,11 @@ pub fn heat_flux(
     flux: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if flux.len() != 1
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         flux, 
         input_node, output_node, 
-- 
2.43.0


From 6b6d58f450763e1944ef809085582335f8e52682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 29/54] fix: a source that drives its input node starts it
 below the output node

---
 neapolitan/src/dc_circuits.rs   | 2 +-
 neapolitan/src/heat_transfer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index c8c5e11..57e4aa3 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -64,7 +64,7 @@ pub fn voltage_source(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index f10ac37..c055f0a 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -120,7 +120,7 @@ pub fn temperature_delta(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From 3a044f94ab75b8f7a3907c71b307b65ccecb2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 30/54] fix: the flux of a source that drives its input node
 has the right sign

---
 neapolitan/src/flux_formulas.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index 3ac3fe8..cfadbee 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -55,7 +55,11 @@ pub fn observe_flux(
     let mut discrepancy = sub_ref.try_borrow()?
         .get_flux_discrepancy()?;
 
-    discrepancy.inplace_scale(-1.0);
+    // The flux enters a driven output node but leaves a driven input node
+    if drives_output
+    {
+        discrepancy.inplace_scale(-1.0);
+    }
 
     Ok(discrepancy)
 }
-- 
2.43.0


From a1a7a396aa4e994b4920beaf6378cc11f5993e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 31/54] fix: neapolitan reports missing arguments instead of
 panicking

---
 neapolitan/src/main.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index ff50a91..4c06521 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -4,12 +4,27 @@ use std::process;
 use serde_json::{from_str, to_string_pretty};
 use neapolitan::NodalAnalysisStudyBuilder;
 
+fn require_value(args: &[String], i: usize)
+{
+    if i + 1 >= args.len()
+    {
+        println!("[neapolitan].....ERR: no value was given for {}!", args[i]);
+        process::exit(1);
+    }
+}
+
 fn main()
 {
     let args: Vec<String> = args().collect();
     let mut precision: Option<f64> = None;
     let mut iteration_limit: Option<usize> = None;
 
+    if args.len() < 2
+    {
+        println!("[neapolitan].....ERR: no input file was specified!");
+        process::exit(1);
+    }
+
     let model_json = match read_to_string(&args[1]) 
     {
         Ok(o) => o,
@@ -29,6 +44,7 @@ fn main()
         if arg == "--precision" ||
            arg == "-p"
         {
+            require_value(&args, i);
             precision = match args[i + 1].parse()
             {
                 Ok(o) => 
@@ -50,6 +66,7 @@ fn main()
         else if arg == "--iterations" ||
                 arg == "-i"
         {
+            require_value(&args, i);
             iteration_limit = match args[i + 1].parse()
             {
                 Ok(o) => 
-- 
2.43.0


From a6de3ac9e62f647c47e9cf7f25da4d4cfb3f7a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 32/54] fix: neapolitan never overwrites a model file without
 the .json extension

---
 neapolitan/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index 4c06521..11c6cec 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -122,7 +122,9 @@ fn main()
         }
     };
 
-    let solution_file = args[1].replace(".json", ".soln.json");
+    // Never write the solution over the model
+    let model_name = args[1].strip_suffix(".json").unwrap_or(&args[1]);
+    let solution_file = format!("{model_name}.soln.json");
     match write(solution_file, solution_json) 
     {
         Ok(_) => process::exit(0),
-- 
2.43.0


From b736e2413dfd8a002ab21ed0ea5b88dfb75f71bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 33/54] fix: a system without unknowns is solved instead of
 panicking

---
 geqslib/src/newton.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 5f9737d..afa0d55 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -123,6 +123,12 @@ where
         return Err(NewtonRaphsonSolverError::ImproperlyConstrainedSystem.into());
     }
 
+    // A system without unknowns is already solved
+    if n == 0
+    {
+        return Ok(guess);
+    }
+
     // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
     let mut elements = vec![];
     for func in &f 
-- 
2.43.0


From db9ef8bb99b2b10bfbcf0f87bad1c7046ffaa4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 34/54] fix: driven nodes follow the nodes that drive them

---
 neapolitan/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 321b9e5..a7533e5 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -302,6 +302,7 @@ impl NodalAnalysisStudyBuilder
                 };
 
                 let local_nodes = nodes.to_vec();
+                let local_elements = elements.to_vec();
 
                 guess.insert(idx, 1.0);
                 partials.push(move |x: &HashMap<ComponentIndex, f64>| {
@@ -312,6 +313,12 @@ impl NodalAnalysisStudyBuilder
                             .potential[(component as usize, 0)] = val;
                     }
 
+                    // Driven nodes follow the nodes that drive them
+                    for elem in &local_elements
+                    {
+                        elem.get_flux()?;
+                    }
+
                     let flux_discrepancy = local_nodes[node_idx]
                         .try_borrow()?
                         .get_flux_discrepancy()?;
@@ -330,6 +337,12 @@ impl NodalAnalysisStudyBuilder
             node.potential[(idx.component as usize, 0)] = *component;
         }
 
+        // Driven nodes follow the nodes that drive them
+        for elem in &elements
+        {
+            elem.get_flux()?;
+        }
+
         // Step 6 - gather results
         let mut result = NodalAnalysisStudyResult 
         { 
-- 
2.43.0


From 7f2b27d906b96b7dd1b43b799bcf39eec604aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 35/54] fix: refuse operands left over or taken from another
 part of an expression

---
 geqslib/src/shunting.rs | 94 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 93 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 40e5d8c..2566cd4 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -122,12 +122,104 @@ fn tokenize_with_context(tok: &str, context: &ContextHashMap) -> anyhow::Result<
     }
 }
 
+/// Checks that operands and operators alternate and that every function call is 
+/// given as many arguments as the function takes, so that no operator or function 
+/// can consume operands that belong to another part of the expression.
+fn check_operands(words: &[&str], context: &ContextHashMap) -> anyhow::Result<()> 
+{
+    // Number of arguments expected (`None` outside of calls) and found in each open parenthesis
+    let mut open: Vec<(Option<usize>, usize)> = Vec::new();
+    let mut func: Option<usize> = None; // arity of the function named by the previous word
+    let mut expecting_operand = true;
+    let mut prev = "";
+
+    for &word in words 
+    {
+        let called = func.take();
+        if called.is_some_and(|args| args != 1) && word != "(" 
+        {
+            return Err(ShuntingYardError::ExpectedArg.into());
+        }
+
+        match word 
+        {
+            "(" => {
+                if !expecting_operand 
+                {
+                    return Err(ShuntingYardError::LeftoverToken.into());
+                }
+                open.push((called, 1));
+            },
+
+            ")" => {
+                let (expected, mut found) = open.pop().ok_or(ShuntingYardError::UnclosedParenthesis)?;
+                if prev == "(" 
+                {
+                    found = 0;
+                } 
+                else if expecting_operand 
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into());
+                }
+                if found != expected.unwrap_or(1) 
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into());
+                }
+                expecting_operand = false;
+            },
+
+            "," => {
+                if expecting_operand 
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into());
+                }
+                match open.last_mut() 
+                {
+                    Some((Some(_), found)) => *found += 1,
+                    _ => return Err(ShuntingYardError::LeftoverToken.into()),
+                }
+                expecting_operand = true;
+            },
+
+            "-" if expecting_operand => (), // unary minus
+
+            "^" | "/" | "*" | "+" | "-" => {
+                if expecting_operand 
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into());
+                }
+                expecting_operand = true;
+            },
+
+            other => {
+                if !expecting_operand 
+                {
+                    return Err(ShuntingYardError::LeftoverToken.into());
+                }
+                match context.get(other) 
+                {
+                    Some(Token::Func(args, _)) => func = Some(*args),
+                    _ => expecting_operand = false,
+                }
+            },
+        }
+        prev = word;
+    }
+
+    if expecting_operand && !words.is_empty() 
+    {
+        return Err(ShuntingYardError::ExpectedArg.into());
+    }
+    Ok(())
+}
+
 /// See shunting yard implementation details at: 
 /// https://en.wikipedia.org/wiki/Shunting_yard_algorithm
 fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>> 
 {
     let punctuated = punctuate(expr);
-    let words = punctuated.split(' ').filter(|c| !c.is_empty());
+    let words = Vec::from_iter(punctuated.split(' ').filter(|c| !c.is_empty()));
+    check_operands(&words, context)?;
 
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
-- 
2.43.0


From 6e05e067a9ce11025872b1860fbadd9ee21de777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 36/54] fix: refuse equations whose left side is incomplete

---
 geqslib/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 01e1d59..3595d9f 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -35,7 +35,7 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
     
-    compile_to_fn(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    compile_to_fn(&format!("({}) - ({})", sides[0], sides[1]), ctx)
 }
 
 /// An internal function for formatting an equation to an expression prior to tokenization 
@@ -61,7 +61,7 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    compile_to_fn_of_hashmap(&format!("({}) - ({})", sides[0], sides[1]), ctx)
 }
 
 /// Solves an equation given as a string for the SINGLE
-- 
2.43.0


From 6e3350bd391ab87110a3ca9397e26678a277486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:27 +0000
Subject: [PATCH 37/54] fix: flux calculations can read node potentials

---
 neapolitan/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index a7533e5..5f1f4e8 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -416,7 +416,7 @@ pub fn get_node_potential(node_ref: &Weak<RefCell<GenericNode>>) -> anyhow::Resu
 {
     if let Some(node) = node_ref.upgrade()
     {
-        Ok(node.try_borrow_mut()?.potential.clone())
+        Ok(node.try_borrow()?.potential.clone())
     }
     else
     {
-- 
2.43.0


From 482288d7bf5343e545880b3e2125f21480ddb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:41 +0000
Subject: [PATCH 38/54] fix: variables whose name contains if, else or end can
 be used in conditionals

---
 nexsys/src/parsing/conditionals.rs | 292 +++++++++++++++--------------
 1 file changed, 149 insertions(+), 143 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 95fd7ba..b8e9c53 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -1,144 +1,150 @@
-use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
-use lazy_static::lazy_static;
-use regex::Regex;
-
-/// Evaluates if the first expression contains any of the later expressions
-macro_rules! contains_any {
-    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
-        $s.contains($ch1) $( || $s.contains($ch) )*
-    }};
-}
-
-/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
-/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
-pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
-
-    let mut args = cndl.replace("if ",  "if(")  // make start of function call
-    .replace([' ', '\n'], "")   // strip whitespace
-    .replace(':',   ",")        // delimit arguments
-    .replace("else", "")        // (ditto)
-    .replace("end", ")");       // close function call
-
-    //if(a<b,a-b=1,b-a=1)
-    // println!("SUBBED TOKENS: {}", args);
-
-    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
-        return Err(ConditionFormatError::ConditionalSyntax.into())
-    }
-
-    // replace conditional sign with f64 code number
-    if args.contains("==") {args = args.replace("==", ",1.0,");} 
-    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
-    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
-    if args.contains('<') {
-
-        if args.contains("=<") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('<',  ",4.0,");
-        
-    } 
-    if args.contains('>') {
-        
-        if args.contains("=>") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('>',  ",5.0,");
-                
-    } 
-    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
-
-    // println!("FINAL: {}", args);
-    // Conditional statement reformatted as function call
-    // This allows us to use `better` notation to call a function via meval
-    Ok(args + " = 0")
-}
-
-/// Identifies and returns conditional statements found in a Nexsys-legal string.
-pub fn conditionals(text: &str) -> anyhow::Result<String> {
-    lazy_static!{
-        static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
-^.*$
-^[ \t]*else:$
-^.*$
-^[ \t]*end"#
-        );
-    }
-    let mut output = text.to_string();
-    
-    loop {
-        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
-        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
-
-        // println!("{cdls:#?}");
-    
-        for raw in &cdls {
-    
-            let mut rows = raw
-                .split('\n')
-                .map(|i| i.to_string())
-                .collect::<Vec<String>>();
-    
-            // println!("{rows:#?}");
-    
-            for r in [1,3] {
-                if rows[r].contains('=') {
-                    let terms = rows[r].split('=').collect::<Vec<&str>>();
-                    if terms[1].replace(' ',"") == 0.to_string() {
-                        rows[r] = terms[0].to_string();
-                    } else {
-                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
-                    }
-                }
-            }
-            
-            let fmt_eqns = rows.join("\n");
-    
-            // println!("{}", fmt_eqns);
-    
-            let fmtd = &format_conditional(&fmt_eqns)?;
-    
-            output = output.replace(raw, fmtd);
-        }
-
-        if cdls.is_empty() { break } // keep going until there are no if statement matches left
-    }
-    
-    Ok(output)
-}
-
-/// Testing for non-public macros
-#[cfg(test)]
-mod test {
-
-    /// Tests the `contains_any!` macro
-    #[test]
-    fn test_contains_any_macro() {
-        assert_eq!(
-            contains_any!("test_string", "a", "b", "c"), 
-            false  
-        );
-
-        assert_eq!(
-            !(contains_any!("test_string", "a", "b", "c")),
-            true
-        );
-
-        assert_eq!(
-            contains_any!("test_string", "t", "b", "c"),
-            true
-        );
-    } 
-    
-    /// Additional testing for how the `contains_any!` macro works
-    #[test]
-    fn buggy_case() {
-        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
-            panic!()
-        }
-    }
-    
+use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
+use lazy_static::lazy_static;
+use regex::Regex;
+
+/// Evaluates if the first expression contains any of the later expressions
+macro_rules! contains_any {
+    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
+        $s.contains($ch1) $( || $s.contains($ch) )*
+    }};
+}
+
+/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
+/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
+pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
+
+    lazy_static!{ // keywords only count as whole words, not as part of a variable name
+        static ref IF:   Regex = nexsys_regex(r"\bif ");
+        static ref ELSE: Regex = nexsys_regex(r"\belse\b");
+        static ref END:  Regex = nexsys_regex(r"\bend\b");
+    }
+
+    let mut args = IF.replace_all(cndl, "if(").into_owned(); // make start of function call
+    args = ELSE.replace_all(&args, "").into_owned();         // delimit arguments
+    args = END.replace_all(&args, ")").into_owned();         // close function call
+    args = args.replace([' ', '\n'], "")                     // strip whitespace
+        .replace(':', ",");                                  // delimit arguments
+
+    //if(a<b,a-b=1,b-a=1)
+    // println!("SUBBED TOKENS: {}", args);
+
+    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
+        return Err(ConditionFormatError::ConditionalSyntax.into())
+    }
+
+    // replace conditional sign with f64 code number
+    if args.contains("==") {args = args.replace("==", ",1.0,");} 
+    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
+    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
+    if args.contains('<') {
+
+        if args.contains("=<") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('<',  ",4.0,");
+        
+    } 
+    if args.contains('>') {
+        
+        if args.contains("=>") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('>',  ",5.0,");
+                
+    } 
+    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
+
+    // println!("FINAL: {}", args);
+    // Conditional statement reformatted as function call
+    // This allows us to use `better` notation to call a function via meval
+    Ok(args + " = 0")
+}
+
+/// Identifies and returns conditional statements found in a Nexsys-legal string.
+pub fn conditionals(text: &str) -> anyhow::Result<String> {
+    lazy_static!{
+        static ref RE: Regex = nexsys_regex(            
+r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+^.*$
+^[ \t]*else:$
+^.*$
+^[ \t]*end"#
+        );
+    }
+    let mut output = text.to_string();
+    
+    loop {
+        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
+        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
+
+        // println!("{cdls:#?}");
+    
+        for raw in &cdls {
+    
+            let mut rows = raw
+                .split('\n')
+                .map(|i| i.to_string())
+                .collect::<Vec<String>>();
+    
+            // println!("{rows:#?}");
+    
+            for r in [1,3] {
+                if rows[r].contains('=') {
+                    let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms[1].replace(' ',"") == 0.to_string() {
+                        rows[r] = terms[0].to_string();
+                    } else {
+                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
+                    }
+                }
+            }
+            
+            let fmt_eqns = rows.join("\n");
+    
+            // println!("{}", fmt_eqns);
+    
+            let fmtd = &format_conditional(&fmt_eqns)?;
+    
+            output = output.replace(raw, fmtd);
+        }
+
+        if cdls.is_empty() { break } // keep going until there are no if statement matches left
+    }
+    
+    Ok(output)
+}
+
+/// Testing for non-public macros
+#[cfg(test)]
+mod test {
+
+    /// Tests the `contains_any!` macro
+    #[test]
+    fn test_contains_any_macro() {
+        assert_eq!(
+            contains_any!("test_string", "a", "b", "c"), 
+            false  
+        );
+
+        assert_eq!(
+            !(contains_any!("test_string", "a", "b", "c")),
+            true
+        );
+
+        assert_eq!(
+            contains_any!("test_string", "t", "b", "c"),
+            true
+        );
+    } 
+    
+    /// Additional testing for how the `contains_any!` macro works
+    #[test]
+    fn buggy_case() {
+        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
+            panic!()
+        }
+    }
+    
 }
\ No newline at end of file
-- 
2.43.0


From fcca6ca3dc373dd5dd848c2bee039bda2c42f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:43 +0000
Subject: [PATCH 39/54] fix: conditionals refuse branches that are not complete
 equations

---
 nexsys/src/parsing/conditionals.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index b8e9c53..67ab82d 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -93,6 +93,9 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
             for r in [1,3] {
                 if rows[r].contains('=') {
                     let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms.len() != 2 || terms.iter().any(|t| t.trim().is_empty()) {
+                        return Err(ConditionFormatError::ConditionalSyntax.into())
+                    }
                     if terms[1].replace(' ',"") == 0.to_string() {
                         rows[r] = terms[0].to_string();
                     } else {
-- 
2.43.0


From 9035706a0827b9903aea0649b42d1f24ad438d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:35 +0000
Subject: [PATCH 40/54] fix: declared numbers can have exponents, constants
 that are not just a number are refused

---
 nexsys/src/parsing/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 5553c30..4aeeab9 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -1,7 +1,7 @@
 mod conditionals;
 // mod duplicate; TODO: need to polish this up.
 
-use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
+use geqslib::shunting::{ContextHashMap, ContextLike};
 use lazy_static::lazy_static;
 use regex::Regex;
 use std::collections::HashMap;
@@ -10,7 +10,7 @@ use crate::{units::{convert, const_data}, errors::ConstFormatError};
 pub use conditionals::*;
 
 const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*(?:e[+-]?[0-9]+)?";
 
 /// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
 fn nexsys_regex(pattern: &str) -> Regex
@@ -134,16 +134,21 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)([^\n]*)");
     }
     let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
     let const_vals = RE.captures_iter(text);
 
     for c in const_vals
     {
+        if !c.get(3).unwrap().as_str().trim().is_empty()
+        {
+            // the value is not just a number
+            return Err(ConstFormatError.into());
+        }
         res.1.insert(
             c.get(1).unwrap().as_str().to_owned(), 
-            eval_str(c.get(2).unwrap().as_str())?
+            c.get(2).unwrap().as_str().replace(' ', "").parse()?
         );
     }
     Ok(res)
-- 
2.43.0


From 5ac6873a40fab6ce60587ad3b692b89c599693ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:36 +0000
Subject: [PATCH 41/54] fix: keep the CRLF line endings of the nexsys sources

---
 nexsys/src/lib.rs                  | 402 +++++++++++++--------------
 nexsys/src/parsing/conditionals.rs | 304 ++++++++++----------
 nexsys/src/parsing/mod.rs          | 430 ++++++++++++++---------------
 nexsys/src/units/mod.rs            | 326 +++++++++++-----------
 4 files changed, 731 insertions(+), 731 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 20e5ed1..caafd3a 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -1,202 +1,202 @@
-/// Different errors specific to Nexsys implementations of algorithms.
-pub mod errors;
-/// Provides `extern "C"` functions for use in other programming languages. Not 
-/// intended for use in other Rust projects.
-pub mod ffi;
-/// Provides tools for parsing text prior to passing to the equation solving engine.
-pub mod parsing;
-/// Provides data sets of common units and functions for converting between them.
-pub mod units;
-
-use std::collections::HashMap;
-
-use geqslib::solve_equation_with_context;
-use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
-use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
-
-use parsing::compile;
-
-/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
-fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
-        if unknowns.len() != 1
-        {
-            return Ok(false);
-        }
-
-        let var_info: [f64; 3];
-        if declared.contains_key(unknowns[0])
-        {
-            var_info = declared[unknowns[0]];
-        }
-        else
-        {
-            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
-        }
-
-        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_const_to_ctx(&soln.0, soln.1);
-        *log_step = format!(
-            "Var: {:#?} \nEquation: {}", 
-            soln.0, equation
-        );
-        eqn_pool.remove(i);
-        return Ok(true);
-    }
-    Ok(false)
-}
-
-fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
-        let mut eqn_strings = vec![equation.to_owned()];
-
-        for (j, equation) in eqn_pool.iter().enumerate()
-        {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
-            {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
-            }
-        }
-            
-        *log_step = format!("{:#?}", eqn_strings);
-
-        // Solve the found constrained system:
-        if let Some(mut system) = builder.build_system()
-        {
-            for (var, var_info) in declared
-            {
-                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
-            }
-
-            let soln = system.solve(margin, limit)?;
-            for (var, val) in soln 
-            {
-                ctx.add_const_to_ctx(&var, val);
-            }
-            
-            let remaining_eqns: Vec<String> = eqn_pool.iter()
-                .filter(|x| !eqn_strings.contains(x) && x != &equation)
-                .map(|x| x.to_owned())
-                .collect();
-
-            eqn_pool.clear();
-            eqn_pool.extend(remaining_eqns);
-
-            // println!("{:#?}", eqn_pool);
-
-            return Ok(true);
-        }
-    }
-
-    Ok(false)
-}
-
-/// Solves a system of equations in plain-text format.
-/// For more supported syntax, see `solve_with_preprocessors`
-/// 
-/// # Example
-/// ```
-/// ```
-pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut log = vec![];
-    let mut eqn_pool = system.split('\n')
-        .filter(|x| x.contains('='))
-        .map(|x| x.to_owned())
-        .collect();
-
-    loop
-    {
-        let mut log_step = String::default();
-        // Get less expensive solutions:
-        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-
-        // Dig in and solve a more expensive subsystem:
-        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-        
-        break;
-    }
-
-    let mut soln_map = HashMap::new(); 
-    for (name, val) in ctx
-    {
-        match val
-        {
-            Token::Var(v) => {
-                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
-            },
-            Token::Num(n) => {
-                soln_map.insert(name.to_owned(), *n);
-            },
-            _ => {} 
-        }
-    }
-
-    Ok((log, soln_map))
-}
-
-/// Solves a system of equations with additional syntax used to indicate 
-/// unit conversions, constant known values, nicer if statements, and more.
-/// 
-/// # Example
-/// ```
-/// use nexsys::solve_with_preprocessors;
-/// 
-/// let system = r#"
-/// keep x on [0, 100]
-/// guess 3 for y
-/// const nine = 9
-/// 
-/// x + y = nine
-/// x - y = 4
-/// 
-/// if x > y:
-///     i = 1
-/// else:
-///     i = -1
-/// end
-/// "#;
-/// 
-/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
-///     .expect("failed to solve system!");
-/// 
-/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
-/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
-/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
-/// ```
-pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut ctx = new_context(); 
-    let mut declared = HashMap::new();
-    let compiled = compile(system, &mut ctx, &mut declared)?;
-
-    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
+/// Different errors specific to Nexsys implementations of algorithms.
+pub mod errors;
+/// Provides `extern "C"` functions for use in other programming languages. Not 
+/// intended for use in other Rust projects.
+pub mod ffi;
+/// Provides tools for parsing text prior to passing to the equation solving engine.
+pub mod parsing;
+/// Provides data sets of common units and functions for converting between them.
+pub mod units;
+
+use std::collections::HashMap;
+
+use geqslib::solve_equation_with_context;
+use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
+use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
+
+use parsing::compile;
+
+/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
+fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
+        if unknowns.len() != 1
+        {
+            return Ok(false);
+        }
+
+        let var_info: [f64; 3];
+        if declared.contains_key(unknowns[0])
+        {
+            var_info = declared[unknowns[0]];
+        }
+        else
+        {
+            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
+        }
+
+        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
+        ctx.add_const_to_ctx(&soln.0, soln.1);
+        *log_step = format!(
+            "Var: {:#?} \nEquation: {}", 
+            soln.0, equation
+        );
+        eqn_pool.remove(i);
+        return Ok(true);
+    }
+    Ok(false)
+}
+
+fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
+        let mut eqn_strings = vec![equation.to_owned()];
+
+        for (j, equation) in eqn_pool.iter().enumerate()
+        {
+            // Skip the current equation we're building a system with 
+            // OR an equation that we've already added to the system
+            if j == i || eqn_strings.contains(equation)
+            {
+                continue;
+            }
+
+            // println!("Constraint status: {}", builder.is_fully_constrained());
+
+            match builder.try_constrain_with(equation)?
+            {
+                ConstrainResult::WillConstrain => {
+                    eqn_strings.push(equation.to_owned());
+                    // println!("constrained with: {}", equation);
+                },
+                ConstrainResult::WillOverConstrain => break,
+                _ => {}
+            }
+        }
+            
+        *log_step = format!("{:#?}", eqn_strings);
+
+        // Solve the found constrained system:
+        if let Some(mut system) = builder.build_system()
+        {
+            for (var, var_info) in declared
+            {
+                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
+            }
+
+            let soln = system.solve(margin, limit)?;
+            for (var, val) in soln 
+            {
+                ctx.add_const_to_ctx(&var, val);
+            }
+            
+            let remaining_eqns: Vec<String> = eqn_pool.iter()
+                .filter(|x| !eqn_strings.contains(x) && x != &equation)
+                .map(|x| x.to_owned())
+                .collect();
+
+            eqn_pool.clear();
+            eqn_pool.extend(remaining_eqns);
+
+            // println!("{:#?}", eqn_pool);
+
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
+/// Solves a system of equations in plain-text format.
+/// For more supported syntax, see `solve_with_preprocessors`
+/// 
+/// # Example
+/// ```
+/// ```
+pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut log = vec![];
+    let mut eqn_pool = system.split('\n')
+        .filter(|x| x.contains('='))
+        .map(|x| x.to_owned())
+        .collect();
+
+    loop
+    {
+        let mut log_step = String::default();
+        // Get less expensive solutions:
+        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+
+        // Dig in and solve a more expensive subsystem:
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+        
+        break;
+    }
+
+    let mut soln_map = HashMap::new(); 
+    for (name, val) in ctx
+    {
+        match val
+        {
+            Token::Var(v) => {
+                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
+            },
+            Token::Num(n) => {
+                soln_map.insert(name.to_owned(), *n);
+            },
+            _ => {} 
+        }
+    }
+
+    Ok((log, soln_map))
+}
+
+/// Solves a system of equations with additional syntax used to indicate 
+/// unit conversions, constant known values, nicer if statements, and more.
+/// 
+/// # Example
+/// ```
+/// use nexsys::solve_with_preprocessors;
+/// 
+/// let system = r#"
+/// keep x on [0, 100]
+/// guess 3 for y
+/// const nine = 9
+/// 
+/// x + y = nine
+/// x - y = 4
+/// 
+/// if x > y:
+///     i = 1
+/// else:
+///     i = -1
+/// end
+/// "#;
+/// 
+/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
+///     .expect("failed to solve system!");
+/// 
+/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
+/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
+/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
+/// ```
+pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut ctx = new_context(); 
+    let mut declared = HashMap::new();
+    let compiled = compile(system, &mut ctx, &mut declared)?;
+
+    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
 }
\ No newline at end of file
diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 67ab82d..9c8434a 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -1,153 +1,153 @@
-use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
-use lazy_static::lazy_static;
-use regex::Regex;
-
-/// Evaluates if the first expression contains any of the later expressions
-macro_rules! contains_any {
-    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
-        $s.contains($ch1) $( || $s.contains($ch) )*
-    }};
-}
-
-/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
-/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
-pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
-
-    lazy_static!{ // keywords only count as whole words, not as part of a variable name
-        static ref IF:   Regex = nexsys_regex(r"\bif ");
-        static ref ELSE: Regex = nexsys_regex(r"\belse\b");
-        static ref END:  Regex = nexsys_regex(r"\bend\b");
-    }
-
-    let mut args = IF.replace_all(cndl, "if(").into_owned(); // make start of function call
-    args = ELSE.replace_all(&args, "").into_owned();         // delimit arguments
-    args = END.replace_all(&args, ")").into_owned();         // close function call
-    args = args.replace([' ', '\n'], "")                     // strip whitespace
-        .replace(':', ",");                                  // delimit arguments
-
-    //if(a<b,a-b=1,b-a=1)
-    // println!("SUBBED TOKENS: {}", args);
-
-    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
-        return Err(ConditionFormatError::ConditionalSyntax.into())
-    }
-
-    // replace conditional sign with f64 code number
-    if args.contains("==") {args = args.replace("==", ",1.0,");} 
-    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
-    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
-    if args.contains('<') {
-
-        if args.contains("=<") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('<',  ",4.0,");
-        
-    } 
-    if args.contains('>') {
-        
-        if args.contains("=>") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('>',  ",5.0,");
-                
-    } 
-    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
-
-    // println!("FINAL: {}", args);
-    // Conditional statement reformatted as function call
-    // This allows us to use `better` notation to call a function via meval
-    Ok(args + " = 0")
-}
-
-/// Identifies and returns conditional statements found in a Nexsys-legal string.
-pub fn conditionals(text: &str) -> anyhow::Result<String> {
-    lazy_static!{
-        static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
-^.*$
-^[ \t]*else:$
-^.*$
-^[ \t]*end"#
-        );
-    }
-    let mut output = text.to_string();
-    
-    loop {
-        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
-        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
-
-        // println!("{cdls:#?}");
-    
-        for raw in &cdls {
-    
-            let mut rows = raw
-                .split('\n')
-                .map(|i| i.to_string())
-                .collect::<Vec<String>>();
-    
-            // println!("{rows:#?}");
-    
-            for r in [1,3] {
-                if rows[r].contains('=') {
-                    let terms = rows[r].split('=').collect::<Vec<&str>>();
-                    if terms.len() != 2 || terms.iter().any(|t| t.trim().is_empty()) {
-                        return Err(ConditionFormatError::ConditionalSyntax.into())
-                    }
-                    if terms[1].replace(' ',"") == 0.to_string() {
-                        rows[r] = terms[0].to_string();
-                    } else {
-                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
-                    }
-                }
-            }
-            
-            let fmt_eqns = rows.join("\n");
-    
-            // println!("{}", fmt_eqns);
-    
-            let fmtd = &format_conditional(&fmt_eqns)?;
-    
-            output = output.replace(raw, fmtd);
-        }
-
-        if cdls.is_empty() { break } // keep going until there are no if statement matches left
-    }
-    
-    Ok(output)
-}
-
-/// Testing for non-public macros
-#[cfg(test)]
-mod test {
-
-    /// Tests the `contains_any!` macro
-    #[test]
-    fn test_contains_any_macro() {
-        assert_eq!(
-            contains_any!("test_string", "a", "b", "c"), 
-            false  
-        );
-
-        assert_eq!(
-            !(contains_any!("test_string", "a", "b", "c")),
-            true
-        );
-
-        assert_eq!(
-            contains_any!("test_string", "t", "b", "c"),
-            true
-        );
-    } 
-    
-    /// Additional testing for how the `contains_any!` macro works
-    #[test]
-    fn buggy_case() {
-        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
-            panic!()
-        }
-    }
-    
+use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
+use lazy_static::lazy_static;
+use regex::Regex;
+
+/// Evaluates if the first expression contains any of the later expressions
+macro_rules! contains_any {
+    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
+        $s.contains($ch1) $( || $s.contains($ch) )*
+    }};
+}
+
+/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
+/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
+pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
+
+    lazy_static!{ // keywords only count as whole words, not as part of a variable name
+        static ref IF:   Regex = nexsys_regex(r"\bif ");
+        static ref ELSE: Regex = nexsys_regex(r"\belse\b");
+        static ref END:  Regex = nexsys_regex(r"\bend\b");
+    }
+
+    let mut args = IF.replace_all(cndl, "if(").into_owned(); // make start of function call
+    args = ELSE.replace_all(&args, "").into_owned();         // delimit arguments
+    args = END.replace_all(&args, ")").into_owned();         // close function call
+    args = args.replace([' ', '\n'], "")                     // strip whitespace
+        .replace(':', ",");                                  // delimit arguments
+
+    //if(a<b,a-b=1,b-a=1)
+    // println!("SUBBED TOKENS: {}", args);
+
+    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
+        return Err(ConditionFormatError::ConditionalSyntax.into())
+    }
+
+    // replace conditional sign with f64 code number
+    if args.contains("==") {args = args.replace("==", ",1.0,");} 
+    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
+    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
+    if args.contains('<') {
+
+        if args.contains("=<") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('<',  ",4.0,");
+        
+    } 
+    if args.contains('>') {
+        
+        if args.contains("=>") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('>',  ",5.0,");
+                
+    } 
+    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
+
+    // println!("FINAL: {}", args);
+    // Conditional statement reformatted as function call
+    // This allows us to use `better` notation to call a function via meval
+    Ok(args + " = 0")
+}
+
+/// Identifies and returns conditional statements found in a Nexsys-legal string.
+pub fn conditionals(text: &str) -> anyhow::Result<String> {
+    lazy_static!{
+        static ref RE: Regex = nexsys_regex(            
+r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+^.*$
+^[ \t]*else:$
+^.*$
+^[ \t]*end"#
+        );
+    }
+    let mut output = text.to_string();
+    
+    loop {
+        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
+        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
+
+        // println!("{cdls:#?}");
+    
+        for raw in &cdls {
+    
+            let mut rows = raw
+                .split('\n')
+                .map(|i| i.to_string())
+                .collect::<Vec<String>>();
+    
+            // println!("{rows:#?}");
+    
+            for r in [1,3] {
+                if rows[r].contains('=') {
+                    let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms.len() != 2 || terms.iter().any(|t| t.trim().is_empty()) {
+                        return Err(ConditionFormatError::ConditionalSyntax.into())
+                    }
+                    if terms[1].replace(' ',"") == 0.to_string() {
+                        rows[r] = terms[0].to_string();
+                    } else {
+                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
+                    }
+                }
+            }
+            
+            let fmt_eqns = rows.join("\n");
+    
+            // println!("{}", fmt_eqns);
+    
+            let fmtd = &format_conditional(&fmt_eqns)?;
+    
+            output = output.replace(raw, fmtd);
+        }
+
+        if cdls.is_empty() { break } // keep going until there are no if statement matches left
+    }
+    
+    Ok(output)
+}
+
+/// Testing for non-public macros
+#[cfg(test)]
+mod test {
+
+    /// Tests the `contains_any!` macro
+    #[test]
+    fn test_contains_any_macro() {
+        assert_eq!(
+            contains_any!("test_string", "a", "b", "c"), 
+            false  
+        );
+
+        assert_eq!(
+            !(contains_any!("test_string", "a", "b", "c")),
+            true
+        );
+
+        assert_eq!(
+            contains_any!("test_string", "t", "b", "c"),
+            true
+        );
+    } 
+    
+    /// Additional testing for how the `contains_any!` macro works
+    #[test]
+    fn buggy_case() {
+        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
+            panic!()
+        }
+    }
+    
 }
\ No newline at end of file
diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 4aeeab9..17b04ad 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -1,216 +1,216 @@
-mod conditionals;
-// mod duplicate; TODO: need to polish this up.
-
-use geqslib::shunting::{ContextHashMap, ContextLike};
-use lazy_static::lazy_static;
-use regex::Regex;
-use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
-
-pub use conditionals::*;
-
-const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*(?:e[+-]?[0-9]+)?";
-
-/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
-fn nexsys_regex(pattern: &str) -> Regex
-{
-    Regex::new(&pattern
-        .replace("@N", LEGAL_NUM_PATTERN)
-        .replace("@V", LEGAL_VAR_PATTERN)
-    ).unwrap()
-}
-
-/// Identifies and returns guess values found in a Nexsys-legal string.
-pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
-    }
-    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
-    let guesses = RE.captures_iter(text);
-
-    for g in guesses 
-    {
-        res.1.insert(
-            g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().replace(' ', "").parse()
-                .expect("failed to parse number in guess declaration")
-        );
-    }
-    res
-}
-
-/// Identifies and returns domains found in a Nexsys-legal string.
-pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
-    }
-    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
-    let domains = RE.captures_iter(text);
-
-    for d in domains 
-    {
-        res.1.insert(
-            d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().replace(' ', "").parse()
-                .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().replace(' ', "").parse()
-                .expect("failed to parse second number in domain declaration")]
-        );
-    }
-    res
-}
-
-/// Identifies and removes comments found in a Nexsys-legal string.
-pub fn comments(text: &str) -> String 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
-    }
-    RE.replace_all(text, "").into_owned()
-}
-
-/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-pub fn conversions(text: &str) -> anyhow::Result<String> {
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
-    }
-
-    let mut output = String::new();
-    let mut end = 0;
-
-    for m in RE.find_iter(text)
-    {
-        let pre = m.as_str().replace(['[', ']'], "");
-        
-        let args: Vec<&str> = pre.split("->").collect();
-        
-        output += &text[end..m.start()];
-        output += &convert(args[0], args[1])?.to_string();
-        end = m.end();
-    }
-    output += &text[end..];
-
-    Ok(output)
-}
-
-/// Identifies and replaces any constants in a Nexsys-legal string.
-pub fn consts(text: &str) -> anyhow::Result<String> 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
-        static ref CONSTS: HashMap<String, f64> = const_data();
-    }
-
-    let mut output = String::new();
-    let mut end = 0;
-
-    for m in RE.find_iter(text)
-    {
-        if let Some(c) = CONSTS.get(m.as_str()) 
-        {
-            output += &text[end..m.start()];
-            output += &c.to_string();
-            end = m.end();
-        } 
-        else 
-        {
-            return Err(ConstFormatError.into())
-        }
-    }
-    output += &text[end..];
-
-    Ok(output)
-}
-
-pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)([^\n]*)");
-    }
-    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
-    let const_vals = RE.captures_iter(text);
-
-    for c in const_vals
-    {
-        if !c.get(3).unwrap().as_str().trim().is_empty()
-        {
-            // the value is not just a number
-            return Err(ConstFormatError.into());
-        }
-        res.1.insert(
-            c.get(1).unwrap().as_str().to_owned(), 
-            c.get(2).unwrap().as_str().replace(' ', "").parse()?
-        );
-    }
-    Ok(res)
-}
-
-/// Wraps most functions in `nexsys::parsing`, returning either an error that 
-/// prevents the code from being solvable or the intermediate language representation
-/// of the `.nxs`-formatted code.
-/// 
-/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
-pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
-{    
-    let sys_domains: HashMap<String, [f64; 2]>;
-    let sys_guesses: HashMap<String, f64>;
-    let sys_consts:  HashMap<String, f64>;
-    
-    let mut nil = comments(code); 
-
-    // Copy-paste all common engineering constants (this happens first so users can rename constants)
-    nil = consts(&nil)?;
-
-    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
-    nil = conversions(&nil)?;
-
-    // Set all constants used in the solution
-    (nil, sys_consts) = const_values(&nil)?;
-    for (var, val) in sys_consts
-    {
-        ctx.add_const_to_ctx(&var, val);
-    }
-
-    // Set all domains for variables in the solution
-    (nil, sys_domains) = domains(&nil);
-    for (var, bounds) in sys_domains
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[1] = bounds[0];
-            var_info[2] = bounds[1];
-        }
-        else 
-        {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
-        }
-    }
-
-    // Set all initial guesses for variables in the solution
-    (nil, sys_guesses) = guess_values(&nil);
-    for (var, guess) in sys_guesses
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[0] = guess;
-        }
-        else 
-        {
-            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
-        }
-    }
-
-    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
-    nil = conditionals(&nil)?;
-
-    Ok(nil)
+mod conditionals;
+// mod duplicate; TODO: need to polish this up.
+
+use geqslib::shunting::{ContextHashMap, ContextLike};
+use lazy_static::lazy_static;
+use regex::Regex;
+use std::collections::HashMap;
+use crate::{units::{convert, const_data}, errors::ConstFormatError};
+
+pub use conditionals::*;
+
+const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*(?:e[+-]?[0-9]+)?";
+
+/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
+fn nexsys_regex(pattern: &str) -> Regex
+{
+    Regex::new(&pattern
+        .replace("@N", LEGAL_NUM_PATTERN)
+        .replace("@V", LEGAL_VAR_PATTERN)
+    ).unwrap()
+}
+
+/// Identifies and returns guess values found in a Nexsys-legal string.
+pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
+    }
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
+    let guesses = RE.captures_iter(text);
+
+    for g in guesses 
+    {
+        res.1.insert(
+            g.get(2).unwrap().as_str().to_owned(), 
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
+                .expect("failed to parse number in guess declaration")
+        );
+    }
+    res
+}
+
+/// Identifies and returns domains found in a Nexsys-legal string.
+pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+    }
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
+    let domains = RE.captures_iter(text);
+
+    for d in domains 
+    {
+        res.1.insert(
+            d.get(1).unwrap().as_str().to_owned(),
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
+                .expect("failed to parse first number in domain declaration"),
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
+                .expect("failed to parse second number in domain declaration")]
+        );
+    }
+    res
+}
+
+/// Identifies and removes comments found in a Nexsys-legal string.
+pub fn comments(text: &str) -> String 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
+    }
+    RE.replace_all(text, "").into_owned()
+}
+
+/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
+pub fn conversions(text: &str) -> anyhow::Result<String> {
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
+    }
+
+    let mut output = String::new();
+    let mut end = 0;
+
+    for m in RE.find_iter(text)
+    {
+        let pre = m.as_str().replace(['[', ']'], "");
+        
+        let args: Vec<&str> = pre.split("->").collect();
+        
+        output += &text[end..m.start()];
+        output += &convert(args[0], args[1])?.to_string();
+        end = m.end();
+    }
+    output += &text[end..];
+
+    Ok(output)
+}
+
+/// Identifies and replaces any constants in a Nexsys-legal string.
+pub fn consts(text: &str) -> anyhow::Result<String> 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
+        static ref CONSTS: HashMap<String, f64> = const_data();
+    }
+
+    let mut output = String::new();
+    let mut end = 0;
+
+    for m in RE.find_iter(text)
+    {
+        if let Some(c) = CONSTS.get(m.as_str()) 
+        {
+            output += &text[end..m.start()];
+            output += &c.to_string();
+            end = m.end();
+        } 
+        else 
+        {
+            return Err(ConstFormatError.into())
+        }
+    }
+    output += &text[end..];
+
+    Ok(output)
+}
+
+pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)([^\n]*)");
+    }
+    let mut res = (RE.replace_all(text, "").into_owned(), HashMap::new());
+    let const_vals = RE.captures_iter(text);
+
+    for c in const_vals
+    {
+        if !c.get(3).unwrap().as_str().trim().is_empty()
+        {
+            // the value is not just a number
+            return Err(ConstFormatError.into());
+        }
+        res.1.insert(
+            c.get(1).unwrap().as_str().to_owned(), 
+            c.get(2).unwrap().as_str().replace(' ', "").parse()?
+        );
+    }
+    Ok(res)
+}
+
+/// Wraps most functions in `nexsys::parsing`, returning either an error that 
+/// prevents the code from being solvable or the intermediate language representation
+/// of the `.nxs`-formatted code.
+/// 
+/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
+pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
+{    
+    let sys_domains: HashMap<String, [f64; 2]>;
+    let sys_guesses: HashMap<String, f64>;
+    let sys_consts:  HashMap<String, f64>;
+    
+    let mut nil = comments(code); 
+
+    // Copy-paste all common engineering constants (this happens first so users can rename constants)
+    nil = consts(&nil)?;
+
+    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
+    nil = conversions(&nil)?;
+
+    // Set all constants used in the solution
+    (nil, sys_consts) = const_values(&nil)?;
+    for (var, val) in sys_consts
+    {
+        ctx.add_const_to_ctx(&var, val);
+    }
+
+    // Set all domains for variables in the solution
+    (nil, sys_domains) = domains(&nil);
+    for (var, bounds) in sys_domains
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[1] = bounds[0];
+            var_info[2] = bounds[1];
+        }
+        else 
+        {
+            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+        }
+    }
+
+    // Set all initial guesses for variables in the solution
+    (nil, sys_guesses) = guess_values(&nil);
+    for (var, guess) in sys_guesses
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[0] = guess;
+        }
+        else 
+        {
+            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
+        }
+    }
+
+    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
+    nil = conditionals(&nil)?;
+
+    Ok(nil)
 }
\ No newline at end of file
diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index d175f83..b09636b 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -1,164 +1,164 @@
-use lazy_static::lazy_static;
-use serde_json::{Value, from_str};
-use std::collections::HashMap;
-
-use crate::errors::UnitConversionError;
-
-/// Handles generating additional units for various combinations of other units
-fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
-    
-    let mut temp = HashMap::new();
-    
-    for i in &data[&num.to_string()] {
-    
-        for j in &data[&denom.to_string()] {
-    
-            temp.insert(
-                format!("{}/{}", i.0, j.0),
-                *i.1 / *j.1
-            );
-        
-        }
-    
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    if fc1 == fc2 {
-        for i in &data[&fc1.to_string()] {
-            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
-        }
-    } else {
-        for i in &data[&fc1.to_string()] {
-            for j in &data[&fc2.to_string()] {
-                let val = *i.1 * *j.1;
-                temp.insert( format!("{}-{}", i.0, j.0), val);
-                temp.insert( format!("{}-{}", j.0, i.0), val);
-            }
-        }
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
-    }
-
-    if let Some(d) = data.get_mut("VOLUME") {
-        d.extend(temp.into_iter());
-    }
-    
-    data
-}
-
-/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
-
-    let raw_text = include_str!("units.json");
-    let err = "failed to parse json... is the formatting of 'units.json' correct?";
-    
-    // again I ask, lord forgive me for what I am about to do...
-    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| (
-            i.0.to_string(), 
-            i.1.as_object().expect(err).into_iter()
-            .map(
-                |j| (
-                    j.0.to_string(), 
-                    j.1.as_f64().expect(err)
-                )
-            ).collect()
-        )
-    ).collect();
-
-    dejson
-}
-
-/// Generates a more complete set of unit conversion data by combining different units to create other common units.
-pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
-    let mut data = raw_unit_data();
-    data.insert("SPRING FORCE".to_string(), HashMap::new());
-
-    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
-    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
-    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
-    data =    generate_volume_units(data);
-
-
-    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
-    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
-    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
-    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
-    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
-    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
-
-    data
-}
-
-/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
-pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
-    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
-        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
-    }
-
-    let cf: Vec<f64> = UD.iter()
-    .filter(|&i| { 
-        let qty = UD.get(i.0).unwrap().clone();
-        qty.contains_key(fro) && qty.contains_key(to)
-    }).map(|i| {
-        i.1[fro] / i.1[to]
-    }).collect();
-
-    if cf.len() != 1 {
-        return Err(UnitConversionError.into())
-    }
-
-    Ok(cf[0])
-}
-
-/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn const_data() -> HashMap<String, f64> {
-
-    let raw_text = include_str!("consts.json");
-    let err = "failed to parse json... is the formatting of consts.json correct?";
-    
-    // thankfully this isn't as bad as reading units.json
-    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| {
-            let err = format!("failed to parse json: {:#?}", i.1);
-            let c1 = i.1.as_array().expect(&err);
-
-            let err = format!("failed to parse json: {:#?}", c1[1]);
-            let c2 = match c1[1].as_f64() {
-                Some(c) => c,
-                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
-            };
-
-            (i.0.to_string(), c2)
-
-    }).collect();
-
-    dejson
+use lazy_static::lazy_static;
+use serde_json::{Value, from_str};
+use std::collections::HashMap;
+
+use crate::errors::UnitConversionError;
+
+/// Handles generating additional units for various combinations of other units
+fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
+    
+    let mut temp = HashMap::new();
+    
+    for i in &data[&num.to_string()] {
+    
+        for j in &data[&denom.to_string()] {
+    
+            temp.insert(
+                format!("{}/{}", i.0, j.0),
+                *i.1 / *j.1
+            );
+        
+        }
+    
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    if fc1 == fc2 {
+        for i in &data[&fc1.to_string()] {
+            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
+        }
+    } else {
+        for i in &data[&fc1.to_string()] {
+            for j in &data[&fc2.to_string()] {
+                let val = *i.1 * *j.1;
+                temp.insert( format!("{}-{}", i.0, j.0), val);
+                temp.insert( format!("{}-{}", j.0, i.0), val);
+            }
+        }
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    for i in &data[&"LENGTH".to_string()] {
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
+    }
+
+    if let Some(d) = data.get_mut("VOLUME") {
+        d.extend(temp.into_iter());
+    }
+    
+    data
+}
+
+/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
+
+    let raw_text = include_str!("units.json");
+    let err = "failed to parse json... is the formatting of 'units.json' correct?";
+    
+    // again I ask, lord forgive me for what I am about to do...
+    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| (
+            i.0.to_string(), 
+            i.1.as_object().expect(err).into_iter()
+            .map(
+                |j| (
+                    j.0.to_string(), 
+                    j.1.as_f64().expect(err)
+                )
+            ).collect()
+        )
+    ).collect();
+
+    dejson
+}
+
+/// Generates a more complete set of unit conversion data by combining different units to create other common units.
+pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
+    let mut data = raw_unit_data();
+    data.insert("SPRING FORCE".to_string(), HashMap::new());
+
+    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
+    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
+    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
+    data =    generate_volume_units(data);
+
+
+    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
+    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
+    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
+    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
+    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
+    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
+
+    data
+}
+
+/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
+pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
+    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
+        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
+    }
+
+    let cf: Vec<f64> = UD.iter()
+    .filter(|&i| { 
+        let qty = UD.get(i.0).unwrap().clone();
+        qty.contains_key(fro) && qty.contains_key(to)
+    }).map(|i| {
+        i.1[fro] / i.1[to]
+    }).collect();
+
+    if cf.len() != 1 {
+        return Err(UnitConversionError.into())
+    }
+
+    Ok(cf[0])
+}
+
+/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn const_data() -> HashMap<String, f64> {
+
+    let raw_text = include_str!("consts.json");
+    let err = "failed to parse json... is the formatting of consts.json correct?";
+    
+    // thankfully this isn't as bad as reading units.json
+    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| {
+            let err = format!("failed to parse json: {:#?}", i.1);
+            let c1 = i.1.as_array().expect(&err);
+
+            let err = format!("failed to parse json: {:#?}", c1[1]);
+            let c2 = match c1[1].as_f64() {
+                Some(c) => c,
+                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
+            };
+
+            (i.0.to_string(), c2)
+
+    }).collect();
+
+    dejson
 }
\ No newline at end of file
-- 
2.43.0


From fb6f0253e6c1f8e42352a584a0d99e8e991148fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 42/54] fix: the C solve_with_preprocessors separates the
 variables of a solution

---
 nexsys/src/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/ffi.rs b/nexsys/src/ffi.rs
index f34680f..ad30eae 100644
--- a/nexsys/src/ffi.rs
+++ b/nexsys/src/ffi.rs
@@ -96,7 +96,7 @@ pub unsafe extern "C" fn solve_with_preprocessors(system: *const c_char, margin:
                 let steps_str = log.join("\n");
                 let soln_str = soln.iter()
                     .fold(String::new(), |mut acc, (x, y)| {
-                        acc.push_str(&format!("{} {:#?}", x, y));
+                        acc.push_str(&format!("{}: {:#?}, ", x, y));
                         acc
                     });
                 CString::new(format!("{{ log: {:#?}, \nsoln: {:#?} }}", steps_str, soln_str))
-- 
2.43.0


From f5bbef0d0673fc76fd690c1a325c753361091d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:44 +0000
Subject: [PATCH 43/54] fix: nxc --verbose prints the compiled system instead
 of panicking

---
 nexsys/src/main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index e3f777b..a546c31 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -1,6 +1,8 @@
 use std::{env, process};
+use std::collections::HashMap;
 use std::fs::{read_to_string, write};
-use nexsys::{solve_with_preprocessors, parsing::{conditionals, conversions, consts}};
+use geqslib::shunting::new_context;
+use nexsys::{solve_with_preprocessors, parsing::compile};
 
 fn main() {
     let args: Vec<String> = env::args().collect();
@@ -61,11 +63,10 @@ OPTIONS:
         if args[i] == *"--verbose" || args[i] == *"-v" {
             println!("[nxc].....Printing compiled code...");
 
-            let mut preprocess = conversions(&system).unwrap();
-            preprocess = consts(&preprocess).unwrap();
-            preprocess = conditionals(&preprocess).unwrap();
-            
-            println!("\n{preprocess}\n");
+            match compile(&system, &mut new_context(), &mut HashMap::new()) {
+                Ok(preprocess) => println!("\n{preprocess}\n"),
+                Err(e) => println!("[nxc].....ERR: nxc could not compile the system: {e}")
+            }
         }
         if args[i] == *"--output-file" || args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
-- 
2.43.0


From d6c337d7f0b361c7a2ffb63421e4019c1881a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 44/54] fix: nxc reports a missing option value instead of
 panicking

---
 nexsys/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index a546c31..ed7cbfb 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -37,7 +37,7 @@ OPTIONS:
 
     for i in 0..args.len() {
         if args[i] == *"--margin" || args[i] == *"-tol" {
-            match args[i+1].parse::<f64>() {
+            match args.get(i+1).map_or("", String::as_str).parse::<f64>() {
                 Ok(o) => {
                     println!("[nxc].....margin set to {o}");
                     margin = o;
@@ -49,7 +49,7 @@ OPTIONS:
             }
         }
         if args[i] == *"--max-iterations" || args[i] == *"-max" {
-            match args[i+1].parse::<usize>() {
+            match args.get(i+1).map_or("", String::as_str).parse::<usize>() {
                 Ok(o) => {
                     println!("[nxc].....iteration limit set to: {o}");
                     limit = o;
-- 
2.43.0


From cfc4035663296a7f28c44d080665e262c9aec40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 45/54] fix: printing a matrix without rows or columns does not
 panic

---
 gmatlib/src/trait_impls.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index 9f11a11..49ee5bb 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -9,23 +9,23 @@ where T: Element<T>
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         
         let mut output = "[".to_string();
-        let r = self.rows - 1;
-        let c = self.cols - 1;
 
-        for i in 0..r
+        for i in 0..self.rows
         {
-            for j in 0..c
+            if i > 0
             {
-                output += format!("{}, ", self[(i, j)]).as_str();
+                output += "; ";
+            }
+            for j in 0..self.cols
+            {
+                if j > 0
+                {
+                    output += ", ";
+                }
+                output += format!("{}", self[(i, j)]).as_str();
             }
-            output += format!("{}; ", self[(i, c)]).as_str();
-        }
-
-        for j in 0..c
-        {
-            output += format!("{}, ", self[(r, j)]).as_str();
         }
-        output += format!("{}]", self[(r, c)]).as_str();
+        output += "]";
 
         write!(f, "{}", output)
     }
-- 
2.43.0


From 0d320a75271f1e010caacf1fdf085bdfdfed2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 46/54] fix: parsing a model from text reads its JSON

---
 neapolitan/src/modelling/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/modelling/mod.rs b/neapolitan/src/modelling/mod.rs
index 42fce1f..ebcde84 100644
--- a/neapolitan/src/modelling/mod.rs
+++ b/neapolitan/src/modelling/mod.rs
@@ -5,7 +5,7 @@ pub mod node;
 use std::{collections::HashMap, str::FromStr, usize};
 
 /// 3rd party modules
-use serde::de::{Deserialize, IntoDeserializer, value};
+use serde::de::{value, Error};
 
 /// Local modules
 pub use element::GenericElement;
@@ -55,6 +55,6 @@ impl FromStr for NodalAnalysisModel
 
     fn from_str(s: &str) -> Result<Self, Self::Err> 
     {
-        Self::deserialize(s.into_deserializer())
+        serde_json::from_str(s).map_err(value::Error::custom)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 32572d680c8666c07613f94b83e8097631ec315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 47/54] fix: the example circuit names an existing model type

---
 neapolitan/neapolitan_json/circuit.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/neapolitan_json/circuit.json b/neapolitan/neapolitan_json/circuit.json
index f7bdf24..60ccb66 100644
--- a/neapolitan/neapolitan_json/circuit.json
+++ b/neapolitan/neapolitan_json/circuit.json
@@ -1,6 +1,6 @@
 {
   "$schema": "./neapolitan_model_schema.json",
-  "model_type": "ssdc_circuit",
+  "model_type": "dc_circuit",
   "nodes": 4,
   "configuration": {
     "0": {
-- 
2.43.0


From 9a8a62353e75973db7489ffdf41176cf578c54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 48/54] fix: a subset with reversed corners is refused in every
 build

---
 gmatlib/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 4591078..51b3d8a 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -478,6 +478,7 @@ where T: Element<T>
     /// ```
     pub fn subset(&self, r1: usize, c1: usize, r2: usize, c2: usize) -> Matrix<T>
     {
+        assert!(r1 <= r2 && c1 <= c2, "the first corner of a subset must not come after the second");
         let mut b = Matrix::new(r2 - r1 + 1, c2 - c1 + 1);
 
         for i in r1..r2+1
-- 
2.43.0


From a162342f5e1794a68835d3f3065af5138eccba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 49/54] fix: variables named inf or nan are read from the
 context, not as numbers

---
 geqslib/src/shunting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 2566cd4..caaf93a 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -304,7 +304,7 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
 
             other => {
 
-                if let Ok(num) = other.parse::<f64>() 
+                if let (Ok(num), false) = (other.parse::<f64>(), context.contains_key(other)) 
                 {
                     queue.push(Token::Num(num));
                     unary_minus = false;
-- 
2.43.0


From b2f2755c19ff1493017dcda6a9fbfbb5f3f9eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 50/54] fix: nxc writes its results beside the input, whatever
 its folder is called

---
 nexsys/src/main.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index ed7cbfb..600c227 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -93,10 +93,9 @@ OPTIONS:
     );
 
     if output_file {
-        let mut output_path = args[1].replace(".nxs", ".txt");
-        if output_path == args[1] {
-            output_path += ".txt"; // never overwrite the input file
-        }
+        // never overwrite the input file
+        let input_name = args[1].strip_suffix(".nxs").unwrap_or(&args[1]);
+        let output_path = format!("{input_name}.txt");
 
         match write(output_path, output) {
             Ok(_) => process::exit(0),
-- 
2.43.0


From bc15dad003bab4b2e5f5dba2bfcedb92e4ca3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 51/54] fix: solutions lie in the domains of their variables

---
 geqslib/src/lib.rs    |  7 ++++++-
 geqslib/src/system.rs | 17 ++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 3595d9f..bcb10d1 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -22,6 +22,7 @@ use errors::EquationSolverError;
 use newton::newton_raphson;
 use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
+use variable::Variable;
 
 /// An internal function for formatting a single-unknown equation to an expression prior to tokenization 
 pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -> anyhow::Result<impl Fn(f64) -> anyhow::Result<f64>>
@@ -102,7 +103,11 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
+    // `f` was evaluated within the domain, so this is where its root lies
+    let mut root = Variable::new(guess, min, max);
+    root.set(newton_raphson(f, guess, margin, limit)?);
+
+    Ok((unknowns[0].to_owned(), root.into()))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index b6b55a8..05c16a3 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -339,11 +339,11 @@ impl System
     pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
-        for (key, var) in self.context
+        for (key, var) in &self.context
         {
             match var
             {
-                Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
+                Token::Var(x) => guess.insert(key.to_owned(), (*x.borrow()).into()),
                 _ => continue,
             };
         }
@@ -355,7 +355,18 @@ impl System
             limit
         )?;
 
-        Ok(res.clone())
+        // The equations were evaluated within the domains, so this is where their root lies
+        let mut soln = res.clone();
+        for (key, value) in soln.iter_mut()
+        {
+            if let Some(Token::Var(x)) = self.context.get(key)
+            {
+                x.borrow_mut().set(*value);
+                *value = (*x.borrow()).into();
+            }
+        }
+
+        Ok(soln)
     }
 }
 
-- 
2.43.0


From b6a84233ff1848f7491838d655dccf2daff8cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 52/54] fix: invertible matrices with a zero on the diagonal
 are inverted at every size

---
 gmatlib/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 51b3d8a..3512a62 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -687,6 +687,16 @@ where T: Element<T>
 
         for j in 0..n
         {
+            if self[(j, j)] == T::zero()
+            {
+                // take the pivot from a row that has none yet
+                let pivot = (j + 1..n)
+                    .find(|&i| self[(i, j)] != T::zero())
+                    .ok_or(MatrixInversionError::ZeroDuringInversion)?;
+                self.inplace_row_swap(j, pivot);
+                inv.inplace_row_swap(j, pivot);
+            }
+
             for i in 0..n
             {
                 if i == j
-- 
2.43.0


From 5da46a57ca8b13ac3d9aa54cf7f8db0db9daad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 53/54] fix: systems are found in whatever order their
 equations stand

---
 nexsys/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index caafd3a..e1e2c0e 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -51,12 +51,15 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
 
 fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
 {
-    for (i, equation) in eqn_pool.iter().enumerate()
+    // When no system is found in one pass over the equations, those that came too early are offered again
+    let n = eqn_pool.len();
+    for (k, (i, equation)) in eqn_pool.iter().enumerate().cycle().take(2 * n).enumerate()
     {
+        let passes = if k < n { 1 } else { n };
         let mut builder = SystemBuilder::new(equation, ctx.clone())?;
         let mut eqn_strings = vec![equation.to_owned()];
 
-        for (j, equation) in eqn_pool.iter().enumerate()
+        for (j, equation) in eqn_pool.iter().enumerate().cycle().take(passes * n)
         {
             // Skip the current equation we're building a system with 
             // OR an equation that we've already added to the system
-- 
2.43.0


From 39634f37030970adec8b66b77b288480d0056e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 54/54] fix: inverting a matrix larger than 4x4 does not lose
 precision to a small pivot

---
 gmatlib/src/lib.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 3512a62..9d2fc72 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -17,10 +17,29 @@ use error::*;
 use num_traits::Num;
 
 /// A helper trait to constrain the type of the elements of a `Matrix<T>`.
-pub trait Element<T>: Num + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
+pub trait Element<T>: Num + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> 
+{
+    /// Whether dividing by this value loses less precision than dividing by `other`.
+    fn is_better_pivot(&self, _other: &T) -> bool
+    {
+        false
+    }
+}
 
-impl Element<f32> for f32 {}
-impl Element<f64> for f64 {}
+impl Element<f32> for f32 
+{
+    fn is_better_pivot(&self, other: &f32) -> bool
+    {
+        self.abs() > other.abs()
+    }
+}
+impl Element<f64> for f64 
+{
+    fn is_better_pivot(&self, other: &f64) -> bool
+    {
+        self.abs() > other.abs()
+    }
+}
 impl Element<i8>  for i8  {}
 impl Element<i16> for i16 {}
 impl Element<i32> for i32 {}
@@ -687,12 +706,17 @@ where T: Element<T>
 
         for j in 0..n
         {
-            if self[(j, j)] == T::zero()
+            // take the best pivot among the rows that have none yet
+            let mut pivot = j;
+            for i in j + 1..n
+            {
+                if self[(pivot, j)] == T::zero() || self[(i, j)].is_better_pivot(&self[(pivot, j)])
+                {
+                    pivot = i;
+                }
+            }
+            if pivot != j
             {
-                // take the pivot from a row that has none yet
-                let pivot = (j + 1..n)
-                    .find(|&i| self[(i, j)] != T::zero())
-                    .ok_or(MatrixInversionError::ZeroDuringInversion)?;
                 self.inplace_row_swap(j, pivot);
                 inv.inplace_row_swap(j, pivot);
             }
-- 
2.43.0

