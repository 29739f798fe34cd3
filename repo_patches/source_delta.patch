From d745ffb5435749467869b9ca792eadd1e7b96bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 01/11] fix: IntoIter::next_back must stop at the front cursor

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index eaa6b3c..89ad5c3 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -798,7 +798,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         debug_assert!(self.back <= N::to_usize());
 
-        if self.back > 0 {
+        if self.next < self.back {
             self.back -= 1;
 
             Some(unsafe {
-- 
2.43.0


From 8c429e65083b250a5e967fa53d2d03dbba53e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 02/11] fix: IntoIter::nth must not run past the remaining
 elements

---
 src/vector.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 89ad5c3..611d9ba 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -785,11 +785,13 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<T> {
-        for i in self.next..self.next+n {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+        for _ in 0..n {
+            // skipped elements are owned here, and dropped
+            if self.next().is_none() {
+                return None;
+            }
         }
 
-        self.next += n;
         self.next()
     }
 }
-- 
2.43.0


From 7f5579b99f5970ef85c861897b6940ce6be682d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 03/11] fix: RowsIter/ColsIter length must account for the back
 cursor

---
 src/matrix/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 1a672c1..033e5a7 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -38,13 +38,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Row::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -68,7 +68,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for RowsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
@@ -130,13 +130,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Col::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -160,7 +160,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for ColsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
-- 
2.43.0


From c8ec5bf4bb81ae6412a6a97e326f7125789420ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 04/11] fix: nth of row and column iterators must not run past
 the back cursor

---
 src/matrix/iter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 033e5a7..5720f58 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -1,3 +1,5 @@
+use std::cmp;
+
 use ::vector::{Vector, ArrayLen};
 
 pub struct RowsIter<'a, T: 'a, Row, Col>
@@ -54,7 +56,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.2 - self.1);
         self.next()
     }
 }
@@ -146,7 +148,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.2 - self.1);
         self.next()
     }
 }
@@ -247,7 +249,7 @@ impl<'a, T: 'a, Row, Col> Iterator for RowsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
@@ -343,7 +345,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
@@ -442,7 +444,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRefInner<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.back - self.front);
         self.next()
     }
 }
-- 
2.43.0


From 9d2ef565c9838cc3466c8849fbb82f9693816493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 05/11] fix: ColsIterRefInner::new must refuse a column outside
 the matrix

The constructor is public and safe, but only debug builds checked the
column; release builds handed out references outside the row.
---
 src/matrix/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 5720f58..ce4eaa7 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -396,7 +396,7 @@ impl<'a, T: 'a, Row, Col> ColsIterRefInner<'a, T, Row, Col>
         Col: ArrayLen<T> + 'a,
 {
     pub fn new(mat: &'a Vector<Vector<T, Col>, Row>, col: usize) -> Self {
-        debug_assert!(col < Col::to_usize());
+        assert!(col < Col::to_usize());
         ColsIterRefInner {
             mat: mat,
             col: col,
-- 
2.43.0


From 556b71a5cb4aa56f700978062137291d08b667c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 06/11] fix: inverse of matrices larger than 3x3 must swap rows
 on a zero pivot

Gauss-Jordan elimination returned None as soon as a diagonal element was
zero, so invertible matrices such as permutations were reported singular.
---
 src/matrix/ops.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index 7326f05..cd2a77c 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -359,13 +359,18 @@ impl<T, U, Ba, Bb, Bc> Inverse for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>, UI
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         for i in 0..n {
-            let rcp = {
-                let d = mat[(i, i)].clone();
-                if d.is_zero() {
-                    return None;
+            // a zero on the diagonal does not make the matrix singular:
+            // bring up a row that has a non-zero element in this column
+            match (i..n).find(|&p| !mat[(p, i)].is_zero()) {
+                Some(p) if p != i => {
+                    mat.0.as_slice_mut().swap(i, p);
+                    inv.0.as_slice_mut().swap(i, p);
                 }
-                T::one() / d
-            };
+                Some(_) => {}
+                None => return None,
+            }
+
+            let rcp = T::one() / mat[(i, i)].clone();
 
             for j in 0..n {
                 mat[(i, j)] = mat[(i, j)].clone() * rcp.clone();
-- 
2.43.0


From d9d462ab708ada75f95a14360592322bdfd7b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 07/11] fix: collecting from a short source must not drop
 elements twice

While the elements collected so far were being dropped, the array was
owned outside NoDrop: a panicking destructor unwound through it and
dropped everything again, uninitialised slots included.
---
 src/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 611d9ba..f9499ec 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -702,11 +702,11 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
                 let item = match it.next() {
                     Some(item) => item,
                     None => {
-                        let mut arr = arr.into_inner();
+                        // `arr` stays in `NoDrop`: should a destructor panic, unwinding
+                        // must not drop the elements again
                         for j in 0..i {
                             ptr::drop_in_place(arr.as_mut().get_unchecked_mut(j));
                         }
-                        mem::forget(arr);
 
                         panic!("Vector<_, U{0}> can only be created with exactly {0} elements.",
                                N::to_usize())
-- 
2.43.0


From 9e68f4f30b7433117efc6c8177c4332e79445a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 08/11] fix: Debug of a matrix without rows no longer panics

---
 src/matrix/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index cc59bb8..c0c74e6 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -309,10 +309,9 @@ impl<T, Row, Col> Debug for Matrix<T, Row, Col>
     fn fmt(&self, fmt: &mut Formatter) -> FmtResult {
         try!(write!(fmt, "Matrix["));
 
-        let last = self.0.len() - 1;
         for (i, row) in self.0.iter().enumerate() {
+            if i != 0 { try!(write!(fmt, ", ")); }
             try!(row.as_slice().fmt(fmt));
-            if i != last { try!(write!(fmt, ", ")); }
         }
 
         write!(fmt, "]")
-- 
2.43.0


From 6629057cdb43d4576411dd1baa6b1a9b620f4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 09/11] fix: Matrix2f64 is a matrix of f64

---
 src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index fec6972..ed0cb36 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -27,7 +27,7 @@ pub type Vector10f32 = Vector<f32, U10>;
 pub type Vector10f64 = Vector<f64, U10>;
 
 pub type Matrix2f32 = Matrix<f32, U2, U2>;
-pub type Matrix2f64 = Matrix<f32, U2, U2>;
+pub type Matrix2f64 = Matrix<f64, U2, U2>;
 pub type Matrix3f32 = Matrix<f32, U3, U3>;
 pub type Matrix3f64 = Matrix<f64, U3, U3>;
 pub type Matrix4f32 = Matrix<f32, U4, U4>;
-- 
2.43.0


From 4549e2ff7077bbce7185221bafd91c0b8acdffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 10/11] fix: statically checked index U0 is rejected for empty
 vectors

---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index f9499ec..19ea9de 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -272,7 +272,10 @@ impl<T, N, IU, IB> Index<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> Index<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     type Output = T;
 
@@ -301,7 +304,10 @@ impl<T, N, IU, IB> IndexMut<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> IndexMut<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     #[inline]
     fn index_mut(&mut self, _: U0) -> &mut T {
-- 
2.43.0


From bce56e6ac284b744b77dc811e49f3c3c509f7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 11/11] fix: vectors and matrices are Eq only when their
 elements are

---
 src/matrix/mod.rs | 2 +-
 src/vector.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index c0c74e6..d5a57a1 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -296,7 +296,7 @@ impl<T, Row, Col> Eq for Matrix<T, Row, Col>
     where
         Row: ArrayLen<Vector<T, Col>>,
         Col: ArrayLen<T>,
-        T: PartialEq,
+        T: Eq,
 {
 }
 
diff --git a/src/vector.rs b/src/vector.rs
index 19ea9de..bd7d9c5 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -208,7 +208,7 @@ impl<T, U, N> PartialEq<Vector<U, N>> for Vector<T, N>
 
 impl<T, N> Eq for Vector<T, N>
     where
-        T: PartialEq,
+        T: Eq,
         N: ArrayLen<T>,
 {
 }
-- 
2.43.0

