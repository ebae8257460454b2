From 1a812ae38993d5b95c7e7e3ac317600ba2eb99c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 01/12] fix: allow all 12 discriminant bits to be used with the
 52bits width

MAX_DISCRIMINANT was 4068 instead of 4095 (2^12 - 1).
---
 src/discriminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discriminant.rs b/src/discriminant.rs
index b0a42be..a9153dc 100644
--- a/src/discriminant.rs
+++ b/src/discriminant.rs
@@ -80,7 +80,7 @@ generate_discriminants! {
     [tagged_box_reserve_55bits, u16, 511,   55, 9 ],
     [tagged_box_reserve_54bits, u16, 1023,  54, 10],
     [tagged_box_reserve_53bits, u16, 2047,  53, 11],
-    [tagged_box_reserve_52bits, u16, 4068,  52, 12],
+    [tagged_box_reserve_52bits, u16, 4095,  52, 12],
     [tagged_box_reserve_51bits, u16, 8191,  51, 13],
     [tagged_box_reserve_50bits, u16, 16383, 50, 14],
     [tagged_box_reserve_49bits, u16, 32767, 49, 15],
-- 
2.43.0


From 4fae0705723040fad2bc58770ac1cb34308f3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 02/12] fix: don't drop zero-sized values when boxing them

TaggedBox::new and new_unchecked dropped a zero-sized value on the spot and
into_inner/into_box handed it out again, running its destructor twice.
---
 src/tagged_box.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 730a83e..59874d2 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -81,6 +81,8 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub fn new<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
+            // The value is logically moved into the box, so its destructor must not run here
+            mem::forget(val);
             Self::dangling::<U>(discriminant)
         } else {
             let layout = Layout::new::<U>();
@@ -174,6 +176,8 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub unsafe fn new_unchecked<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
+            // The value is logically moved into the box, so its destructor must not run here
+            mem::forget(val);
             Self::dangling::<U>(discriminant)
         } else {
             let layout = Layout::new::<U>();
-- 
2.43.0


From 938a44a453d67ff77af7f34fece5fcb28100b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 03/12] fix: reject out-of-range discriminants and pointers in
 every build

TaggedPointer::new documents a panic but only checked in debug builds, and
dangling never checked: the excess bits were silently lost, so a value came
back with another discriminant (and, through tagged_box!, as another variant).
---
 src/tagged_pointer.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index c4eb53b..941a5f6 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -27,13 +27,13 @@ impl TaggedPointer {
     #[inline]
     #[allow(clippy::absurd_extreme_comparisons)]
     pub fn new(ptr: u64, discriminant: Discriminant) -> Self {
-        debug_assert!(
+        assert!(
             discriminant <= MAX_DISCRIMINANT,
             "Attempted to store a discriminant of {} while the max value is {}",
             discriminant,
             MAX_DISCRIMINANT,
         );
-        debug_assert!(
+        assert!(
             ptr <= MAX_POINTER_VALUE,
             "If you are receiving this error, then your hardware uses more than {} bits of a pointer to store addresses. \
             It is recommended that you use a different feature for the `tagged-box` crate using `features = [\"{}bits\"]` or above.
@@ -47,8 +47,21 @@ impl TaggedPointer {
         Self { tagged_ptr }
     }
 
+    /// Create a new dangling, but well-aligned, tagged pointer
+    ///
+    /// # Panics
+    ///
+    /// Panics if `discriminant` is greater than [`MAX_DISCRIMINANT`]
+    ///
+    /// [`MAX_DISCRIMINANT`]: crate::discriminant::MAX_DISCRIMINANT
     #[inline]
+    #[allow(clippy::absurd_extreme_comparisons)]
     pub const fn dangling<T: Sized>(discriminant: Discriminant) -> Self {
+        assert!(
+            discriminant <= MAX_DISCRIMINANT,
+            "Attempted to store a discriminant greater than the max value",
+        );
+
         Self {
             tagged_ptr: Self::store_discriminant(core::mem::align_of::<T>() as u64, discriminant),
         }
-- 
2.43.0


From fba2a4874d3ce6b3d9734cfe6f0a63d060056d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 04/12] fix: read tuple variants back with the layout they were
 stored with

into_tagged_box stores a tuple variant as a repr(C) struct, but from_tagged_box
read it as a Rust tuple, whose fields may be laid out in another order: fields
came back scrambled or uninitialized for e.g. (u8, u32, u8).
---
 src/tagged_box_macro/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 8e72f1e..ed6eb92 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -297,7 +297,11 @@ macro_rules! __from_tagged_box {
             [
                 $($tt)*
                 discrim if discrim == $counter::$variant as u8 => {
-                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<($( $ty ),*)>($tagged), $( $ty ),*)
+                    #[allow(dead_code)]
+                    #[repr(C)]
+                    struct $variant($( $ty ),*);
+
+                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
         )
-- 
2.43.0


From 3b56927f913cf338f39f50773d8216b105fe0c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 05/12] fix: derive tagged_box! discriminants with the
 configured width

The macro cast variant indices to u8: with the 48bits to 55bits widths, whose
discriminants are u16, it did not compile, and an enum of more than 256
variants silently reused the discriminants of its first variants.
---
 src/discriminant.rs                 | 19 ++++++++
 src/tagged_box_macro/meta_macros.rs | 74 ++++++++++++++---------------
 src/tagged_box_macro/mod.rs         | 38 +++++++--------
 3 files changed, 75 insertions(+), 56 deletions(-)

diff --git a/src/discriminant.rs b/src/discriminant.rs
index a9153dc..c6a0df4 100644
--- a/src/discriminant.rs
+++ b/src/discriminant.rs
@@ -86,3 +86,22 @@ generate_discriminants! {
     [tagged_box_reserve_49bits, u16, 32767, 49, 15],
     [tagged_box_reserve_48bits, u16, 65535, 48, 16]
 }
+
+/// Converts the index of a variant of a [`tagged_box!`] enum to the discriminant it's stored with
+///
+/// # Panics
+///
+/// Panics if `index` is greater than [`MAX_DISCRIMINANT`]
+///
+/// [`tagged_box!`]: macro.tagged_box.html
+#[doc(hidden)]
+#[inline]
+#[allow(clippy::cast_possible_truncation)]
+pub const fn __variant_discriminant(index: usize) -> Discriminant {
+    assert!(
+        index <= MAX_DISCRIMINANT as usize,
+        "The enum has more variants than there are discriminants",
+    );
+
+    index as Discriminant
+}
diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index 47596bb..5aa19de 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -330,7 +330,7 @@ macro_rules! generate_tuple_arm_expansion {
                 //     $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
                 //          [
                 //              $( $finished )*
-                //              $enum::$variant() => $crate::TaggedBox::dangling::<$enum>($counter::$variant as u8),
+                //              $enum::$variant() => $crate::TaggedBox::dangling::<$enum>($crate::discriminant::__variant_discriminant($counter::$variant as usize)),
                 //         ]
                 //         $( $rest )*
                 //     )
@@ -348,7 +348,7 @@ macro_rules! generate_tuple_arm_expansion {
                 //     $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
                 //          [
                 //              $( $finished )*
-                //              $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                //              $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($crate::discriminant::__variant_discriminant($counter::$variant as usize)),
                 //         ]
                 //         $( $rest )*
                 //     )
@@ -380,7 +380,7 @@ macro_rules! generate_tuple_arm_expansion {
                 //                  #[repr(C)]
                 //                  struct $variant($( $ty ),*);
                 //
-                //                  $crate::TaggedBox::<$enum>::new($variant(a, b, c), $counter::$variant as u8)
+                //                  $crate::TaggedBox::<$enum>::new($variant(a, b, c), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
                 //              }
                 //         ]
                 //         $( $rest )*
@@ -447,7 +447,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($crate::discriminant::__variant_discriminant($counter::$variant as usize)),
             ]
             $( $rest )*
         )
@@ -456,7 +456,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($crate::discriminant::__variant_discriminant($counter::$variant as usize)),
             ]
             $( $rest )*
         )
@@ -469,7 +469,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -483,7 +483,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -497,7 +497,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -511,7 +511,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -525,7 +525,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -539,7 +539,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -553,7 +553,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -567,7 +567,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -581,7 +581,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -595,7 +595,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -609,7 +609,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -623,7 +623,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -637,7 +637,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -651,7 +651,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -665,7 +665,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -679,7 +679,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -693,7 +693,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -707,7 +707,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -721,7 +721,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -735,7 +735,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -749,7 +749,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -763,7 +763,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -777,7 +777,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -791,7 +791,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -805,7 +805,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -819,7 +819,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -833,7 +833,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -847,7 +847,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -861,7 +861,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -875,7 +875,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -889,7 +889,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -903,7 +903,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index ed6eb92..044b910 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -42,7 +42,7 @@ macro_rules! __taggable_into_box {
             [
                 $( $finished )*
                 $enum::$variant(var) => {
-                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $crate::discriminant::__variant_discriminant($counter::$variant as usize))
                 },
             ]
             $( $rest )*
@@ -62,7 +62,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $crate::discriminant::__variant_discriminant($counter::$variant as usize))
                 }
             ]
             $( $rest )*
@@ -77,7 +77,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $crate::discriminant::__variant_discriminant($counter::$variant as usize))
                 }
             ]
             $( $rest )*
@@ -88,7 +88,7 @@ macro_rules! __taggable_into_box {
         $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($crate::discriminant::__variant_discriminant($counter::$variant as usize)),
             ]
             $( $rest )*
         )
@@ -184,7 +184,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($ty:ty), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                 // TODO: Inline variables
                 // if $crate::__generate_const_sizes!($ty) <= $crate::discriminant::DISCRIMINANT_BITS as usize {
                 //     todo!("Store small variables directly in the pointer")
@@ -199,7 +199,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($($ty:ty),*), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                 #[allow(dead_code)]
                 #[repr(C)]
                 struct $variant($( $ty ),*);
@@ -218,7 +218,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty),* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -232,7 +232,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty,)* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -247,7 +247,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+            discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => $enum::$variant,
         ] $( $rest )*);
     };
 
@@ -280,7 +280,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                     $enum::$variant($crate::TaggedBox::<$enum>::into_inner::<$ty>($tagged))
                 },
             ] $($rest)*
@@ -296,7 +296,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                     #[allow(dead_code)]
                     #[repr(C)]
                     struct $variant($( $ty ),*);
@@ -316,7 +316,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -336,7 +336,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -357,7 +357,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => $enum::$variant,
             ] $($rest)*
         )
     };
@@ -397,7 +397,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant($tagged.as_ptr::<$ty>().read()));
                     ($callback)(&variant);
                 }
@@ -415,7 +415,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                     #[repr(C)]
                     struct $variant($( $ty ),*);
 
@@ -444,7 +444,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -467,7 +467,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -491,7 +491,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
                     let variant: $enum = $enum::$variant;
                     ($callback)(&variant);
                 }
-- 
2.43.0


From 97abb7f5215f48d45bd2d7418b445dcedc100dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 06/12] fix: honour the formatter's options in TaggedBox's
 Debug and Display

Formatting through a fresh write! dropped width, precision, sign and the
alternate flag, e.g. {:#?} of a container printed its value compactly.
---
 src/tagged_box.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 59874d2..c6af888 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -492,7 +492,7 @@ where
         let mut result = Ok(());
         unsafe {
             T::ref_from_tagged_box(self, |this| {
-                result = write!(f, "{:?}", this);
+                result = fmt::Debug::fmt(this, f);
             });
         }
 
@@ -508,7 +508,7 @@ where
         let mut result = Ok(());
         unsafe {
             T::ref_from_tagged_box(self, |this| {
-                result = write!(f, "{}", this);
+                result = fmt::Display::fmt(this, f);
             });
         }
 
-- 
2.43.0


From 5a0e93a1f132f4c58d1b87ca8918386053a7e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 07/12] fix: rebuild when TAGGED_BOX_RESERVED_WIDTH changes

Without rerun-if-env-changed cargo kept the previous width, ignoring the
variable until some file of the crate changed.
---
 build.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/build.rs b/build.rs
index e09a66c..aa5efc1 100644
--- a/build.rs
+++ b/build.rs
@@ -1,4 +1,7 @@
 fn main() {
+    println!("cargo:rerun-if-changed=build.rs");
+    println!("cargo:rerun-if-env-changed=TAGGED_BOX_RESERVED_WIDTH");
+
     if let Ok(var) = dbg!(std::env::var("TAGGED_BOX_RESERVED_WIDTH")) {
         match &*var {
             "63bits" => println!("cargo:rustc-cfg=tagged_box_reserve_63bits"),
-- 
2.43.0


From 30e577c1a2b531276818216cdb1e48c4d425216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 08/12] fix: show the whole raw word in TaggedPointer's Debug
 on 32-bit targets

---
 src/tagged_pointer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index 941a5f6..52fce53 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -163,8 +163,21 @@ impl TaggedPointer {
 
 impl fmt::Debug for TaggedPointer {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        // Shown as a pointer would be, but whole: `usize` may not be wide enough for it
+        struct Raw(u64);
+
+        impl fmt::Debug for Raw {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                if f.alternate() {
+                    write!(f, "{:#018x}", self.0)
+                } else {
+                    write!(f, "{:#x}", self.0)
+                }
+            }
+        }
+
         f.debug_struct("TaggedPointer")
-            .field("raw", &(self.as_raw_u64() as *const ()))
+            .field("raw", &Raw(self.as_raw_u64()))
             .field("ptr", &self.as_ptr::<()>())
             .field("discriminant", &self.discriminant())
             .finish()
-- 
2.43.0


From 8ac5e5938c23a05a15135786fe44b2096058c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 09/12] fix: tagged_box! finds its own names wherever it is
 invoked

The expansion named From, FnOnce, core::mem and panic! as the surrounding
scope has them, so that it did not compile where that scope has none of
them (no_implicit_prelude) or others by these names.
---
 src/tagged_box_macro/mod.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 044b910..da74757 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -105,7 +105,7 @@ macro_rules! __taggable_into_box {
 #[macro_export]
 macro_rules! __derive_from {
     (@inner $struct:ident, $enum:ident, $variant:ident($ty:ty), $($rest:tt)*) => {
-        impl From<$ty> for $struct {
+        impl ::core::convert::From<$ty> for $struct {
             #[inline]
             fn from(val: $ty) -> Self {
                 #[allow(unused_imports)]
@@ -121,7 +121,7 @@ macro_rules! __derive_from {
     };
 
     (@inner $struct:ident, $enum:ident, $variant:ident($($ty:ty),*), $($rest:tt)*) => {
-        impl From<($( $ty, )*)> for $struct {
+        impl ::core::convert::From<($( $ty, )*)> for $struct {
             #[inline]
             fn from(tuple: ($( $ty, )*)) -> Self {
                 #![allow(unused_imports, unused_variables)]
@@ -255,7 +255,7 @@ macro_rules! __boxed_into_inner {
         #[allow(unused_parens)]
         match $tagged.discriminant() {
             $( $tt )*
-            _ => panic!("Attempted to create an enum variant from a discriminant that doesn't exist!"),
+            _ => ::core::panic!("Attempted to create an enum variant from a discriminant that doesn't exist!"),
         }
     };
 
@@ -369,9 +369,9 @@ macro_rules! __from_tagged_box {
 
             discriminant => {
                 #[allow(non_upper_case_globals)]
-                panic!(
+                ::core::panic!(
                     "The number of variants in `{}` is {}, but a variant by the discriminant of {} was attempted to be created",
-                    stringify!($enum),
+                    ::core::stringify!($enum),
                     $total_variants,
                     discriminant
                 );
@@ -398,7 +398,7 @@ macro_rules! __ref_from_tagged {
             [
                 $($tt)*
                 discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
-                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant($tagged.as_ptr::<$ty>().read()));
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::new($enum::$variant($tagged.as_ptr::<$ty>().read()));
                     ($callback)(&variant);
                 }
             ] $($rest)*
@@ -425,7 +425,7 @@ macro_rules! __ref_from_tagged {
                         $tagged.as_ptr::<$variant>().read(),
                         $( $ty ),*
                     );
-                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::<$enum>::new($crate::__expand_tuple!($enum::$variant, tuple, $($ty),*));
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::<$enum>::new($crate::__expand_tuple!($enum::$variant, tuple, $($ty),*));
 
                     ($callback)(&*variant);
                 }
@@ -450,7 +450,7 @@ macro_rules! __ref_from_tagged {
                         $( $ident: $ty ),*
                     }
                     let $variant { $( $ident ),* } = $tagged.as_ptr::<$variant>().read();
-                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
                     ($callback)(&*variant);
                 }
             ]
@@ -473,7 +473,7 @@ macro_rules! __ref_from_tagged {
                         $( $ident: $ty ),*
                     }
                     let $variant { $( $ident ),* } = $tagged.as_ptr::<$variant>().read();
-                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
                     ($callback)(&*variant);
                 }
             ]
@@ -507,9 +507,9 @@ macro_rules! __ref_from_tagged {
 
             discriminant => {
                 #[allow(non_upper_case_globals)]
-                panic!(
+                ::core::panic!(
                     "The number of variants in `{}` is {}, but a variant by the discriminant of {} was attempted to be referenced",
-                    stringify!($enum),
+                    ::core::stringify!($enum),
                     $total_variants,
                     discriminant
                 );
@@ -576,7 +576,7 @@ macro_rules! __count_variants {
     };
 
     (@inner [$($variant:ident,)*]) => {
-        [$( stringify!($variant) ),*].len()
+        [$( ::core::stringify!($variant) ),*].len()
     };
 
     ($($rest:tt)*) => {
@@ -763,7 +763,7 @@ macro_rules! tagged_box {
             }
         }
 
-        impl From<$enum> for $struct {
+        impl ::core::convert::From<$enum> for $struct {
             #[inline]
             fn from(variant: $enum) -> Self {
                 use $crate::TaggableInner;
@@ -815,7 +815,7 @@ macro_rules! tagged_box {
 
             unsafe fn ref_from_tagged_box<F>(tagged: &$crate::TaggedBox<$enum>, callback: F)
             where
-                F: FnOnce(&$enum),
+                F: ::core::ops::FnOnce(&$enum),
             {
                 $crate::__counter_enum! {
                     $( $variants )+
-- 
2.43.0


From 0b795864ee639bdf022d1ed580417a4961cf8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 10/12] fix: accept payload types named F in tagged_box!

The generated ref_from_tagged_box is generic over a parameter F, which hid
a payload type of that name in the enum's own scope.
---
 src/tagged_box_macro/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index da74757..f006fdd 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -813,9 +813,9 @@ macro_rules! tagged_box {
                 }
             }
 
-            unsafe fn ref_from_tagged_box<F>(tagged: &$crate::TaggedBox<$enum>, callback: F)
+            unsafe fn ref_from_tagged_box<__TaggedBoxCallback>(tagged: &$crate::TaggedBox<$enum>, callback: __TaggedBoxCallback)
             where
-                F: ::core::ops::FnOnce(&$enum),
+                __TaggedBoxCallback: ::core::ops::FnOnce(&$enum),
             {
                 $crate::__counter_enum! {
                     $( $variants )+
-- 
2.43.0


From 1cb7ca6e3de906704e61f148711b1a40082fbd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:44 +0000
Subject: [PATCH 11/12] fix: boxing an enum with a Drop of its own destroyed it
 while the box held its fields

---
 src/tagged_box_macro/meta_macros.rs | 64 ++++++++++++++---------------
 src/tagged_box_macro/mod.rs         | 19 ++++++---
 2 files changed, 45 insertions(+), 38 deletions(-)

diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index 5aa19de..fc77aee 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -469,7 +469,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -483,7 +483,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -497,7 +497,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -511,7 +511,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -525,7 +525,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -539,7 +539,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -553,7 +553,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -567,7 +567,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -581,7 +581,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -595,7 +595,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -609,7 +609,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -623,7 +623,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -637,7 +637,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -651,7 +651,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -665,7 +665,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -679,7 +679,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -693,7 +693,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -707,7 +707,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -721,7 +721,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -735,7 +735,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -749,7 +749,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -763,7 +763,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -777,7 +777,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -791,7 +791,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w),::core::ptr::read(x)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -805,7 +805,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w),::core::ptr::read(x),::core::ptr::read(y)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -819,7 +819,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w),::core::ptr::read(x),::core::ptr::read(y),::core::ptr::read(z)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -833,7 +833,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w),::core::ptr::read(x),::core::ptr::read(y),::core::ptr::read(z),::core::ptr::read(aa)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -847,7 +847,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w),::core::ptr::read(x),::core::ptr::read(y),::core::ptr::read(z),::core::ptr::read(aa),::core::ptr::read(bb)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -861,7 +861,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w),::core::ptr::read(x),::core::ptr::read(y),::core::ptr::read(z),::core::ptr::read(aa),::core::ptr::read(bb),::core::ptr::read(cc)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -875,7 +875,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w),::core::ptr::read(x),::core::ptr::read(y),::core::ptr::read(z),::core::ptr::read(aa),::core::ptr::read(bb),::core::ptr::read(cc),::core::ptr::read(dd)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -889,7 +889,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w),::core::ptr::read(x),::core::ptr::read(y),::core::ptr::read(z),::core::ptr::read(aa),::core::ptr::read(bb),::core::ptr::read(cc),::core::ptr::read(dd),::core::ptr::read(ee)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
@@ -903,7 +903,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                $crate::TaggedBox::new::<$variant>($variant(::core::ptr::read(a),::core::ptr::read(b),::core::ptr::read(c),::core::ptr::read(d),::core::ptr::read(e),::core::ptr::read(f),::core::ptr::read(g),::core::ptr::read(h),::core::ptr::read(i),::core::ptr::read(j),::core::ptr::read(k),::core::ptr::read(l),::core::ptr::read(m),::core::ptr::read(n),::core::ptr::read(o),::core::ptr::read(p),::core::ptr::read(q),::core::ptr::read(r),::core::ptr::read(s),::core::ptr::read(t),::core::ptr::read(u),::core::ptr::read(v),::core::ptr::read(w),::core::ptr::read(x),::core::ptr::read(y),::core::ptr::read(z),::core::ptr::read(aa),::core::ptr::read(bb),::core::ptr::read(cc),::core::ptr::read(dd),::core::ptr::read(ee),::core::ptr::read(ff)), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index f006fdd..87750f7 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -42,7 +42,7 @@ macro_rules! __taggable_into_box {
             [
                 $( $finished )*
                 $enum::$variant(var) => {
-                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                    $crate::TaggedBox::<$enum>::new::<$ty>(::core::ptr::read(var), $crate::discriminant::__variant_discriminant($counter::$variant as usize))
                 },
             ]
             $( $rest )*
@@ -62,7 +62,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member: ::core::ptr::read($member) ),* }, $crate::discriminant::__variant_discriminant($counter::$variant as usize))
                 }
             ]
             $( $rest )*
@@ -77,7 +77,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $crate::discriminant::__variant_discriminant($counter::$variant as usize))
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member: ::core::ptr::read($member) ),* }, $crate::discriminant::__variant_discriminant($counter::$variant as usize))
                 }
             ]
             $( $rest )*
@@ -95,7 +95,7 @@ macro_rules! __taggable_into_box {
     };
 
     (@inner $tagged:expr, $enum:ident, $counter:ident [$($finished:tt)*]) => {
-        match $tagged {
+        match &*$tagged {
             $( $finished )*
         }
     };
@@ -492,7 +492,7 @@ macro_rules! __ref_from_tagged {
             [
                 $( $tt )*
                 discrim if discrim == $crate::discriminant::__variant_discriminant($counter::$variant as usize) => {
-                    let variant: $enum = $enum::$variant;
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::new($enum::$variant);
                     ($callback)(&variant);
                 }
             ]
@@ -790,7 +790,14 @@ macro_rules! tagged_box {
                     $( $variants )+
                 }
 
-                $crate::__taggable_into_box!( self, $enum, __tagged_box_enum_counter, $( $variants )+)
+                // The fields move into the box, so the enum must not be dropped, as its own `Drop`
+                // (if there is one) is left to whoever takes it out of the box again
+                let this = ::core::mem::ManuallyDrop::new(self);
+
+                // Safety: Every field is read exactly once, and `this` never drops them
+                unsafe {
+                    $crate::__taggable_into_box!(this, $enum, __tagged_box_enum_counter, $( $variants )+)
+                }
             }
 
             fn from_tagged_box(tagged: $crate::TaggedBox<$enum>) -> Self {
-- 
2.43.0


From 3addb0926e9cb5f0c2aa9ef488ae4b6bb98ac7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:20 +0000
Subject: [PATCH 12/12] fix: bind no name that the surroundings may have taken
 when boxing an enum

---
 src/tagged_box_macro/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 87750f7..f47bf59 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -792,11 +792,10 @@ macro_rules! tagged_box {
 
                 // The fields move into the box, so the enum must not be dropped, as its own `Drop`
                 // (if there is one) is left to whoever takes it out of the box again
-                let this = ::core::mem::ManuallyDrop::new(self);
-
-                // Safety: Every field is read exactly once, and `this` never drops them
+                //
+                // Safety: Every field is read exactly once, and `ManuallyDrop` never drops them
                 unsafe {
-                    $crate::__taggable_into_box!(this, $enum, __tagged_box_enum_counter, $( $variants )+)
+                    $crate::__taggable_into_box!(::core::mem::ManuallyDrop::new(self), $enum, __tagged_box_enum_counter, $( $variants )+)
                 }
             }
 
-- 
2.43.0

