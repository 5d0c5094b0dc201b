From 823d1c98f6e9dabfe5c69faeed5cde6b668fdf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 1/3] fix: derive mapping for one-element tuples

The generated expression for a field of type (T,) was (expr), which is a
parenthesised expression rather than a tuple, so deriving FuncMap or
TryFuncMap for a type with such a field failed to compile although tuples
of arbitrary length are documented as supported.
---
 funcmap_derive/src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap_derive/src/map.rs b/funcmap_derive/src/map.rs
index 3ecf092..3b618f9 100644
--- a/funcmap_derive/src/map.rs
+++ b/funcmap_derive/src/map.rs
@@ -307,7 +307,7 @@ impl<'ast> Mapper<'ast> {
                     })
                     .collect::<Result<Vec<_>, _>>()?;
 
-                Ok(quote!((#(#mapped),*)))
+                Ok(quote!((#(#mapped,)*)))
             }
 
             Type::BareFn(..) => Err(syn::Error::new_spanned(
-- 
2.43.0


From bca3fe5f0640b6133dd2fce6f692bd8282b6b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 2/3] fix: drop exactly the mapped elements when mapping an
 array fails

---
 funcmap/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcmap/src/array.rs b/funcmap/src/array.rs
index 81ad274..f26fffa 100644
--- a/funcmap/src/array.rs
+++ b/funcmap/src/array.rs
@@ -42,7 +42,7 @@ where
             let init_slice = unsafe { self.array_mut.get_unchecked_mut(..self.init_until_idx) };
 
             // SAFETY: by definition of `init_until_idx`, `init_slice` is fully initialized
-            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>]).cast::<T>() };
+            let init_slice = unsafe { &mut *(init_slice as *mut [MaybeUninit<T>] as *mut [T]) };
 
             // SAFETY:
             // - `init_slice` is valid for dropping
-- 
2.43.0


From f60ccb7eb73c1f454b12219358bf8da797acd5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 3/3] fix: compile with the alloc feature alone

Without std, Box and Vec are not in the prelude.
---
 funcmap/src/impls_alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funcmap/src/impls_alloc.rs b/funcmap/src/impls_alloc.rs
index 233d2cc..5b74c5f 100644
--- a/funcmap/src/impls_alloc.rs
+++ b/funcmap/src/impls_alloc.rs
@@ -72,8 +72,12 @@ mod binary_heap {
 
 /// Implementations for types in [`alloc::boxed`]
 mod boxed {
+    extern crate alloc;
+
     use crate::{FuncMap, TryFuncMap};
 
+    use alloc::boxed::Box;
+
     impl<A, B> FuncMap<A, B> for Box<A> {
         type Output = Box<B>;
 
@@ -354,7 +358,7 @@ mod vec {
 
     use crate::{FuncMap, TryFuncMap};
 
-    use alloc::vec;
+    use alloc::vec::{self, Vec};
 
     impl<A, B> FuncMap<A, B> for Vec<A> {
         type Output = Vec<B>;
-- 
2.43.0

