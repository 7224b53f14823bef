From 4e43845243814dd425004a612e6dfe8669f1e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:05 +0000
Subject: [PATCH 1/8] fix: only count direct children when extracting nested
 sval sequences

A sequence nested more than one level deep added one extra empty
entry per inner sequence.
---
 src/internal/sval/v2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 5c9a100..8d577fa 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -583,7 +583,8 @@ pub(crate) mod seq {
             // Treat nested complex values as null
             // This ensures an upstream visitor sees them, but won't
             // be able to convert them into anything meaningful
-            if self.depth > 1 {
+            // Only direct children of the root sequence are its elements
+            if self.depth == 2 {
                 if let Some(ref mut seq) = self.seq {
                     seq.extend_borrowed(ValueBag::from(()).inner);
                 }
-- 
2.43.0


From 495618c1a580b6b4ed4cb5a5738506582dcfec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:11 +0000
Subject: [PATCH 2/8] fix: don't treat sval maps as sequences

Extracting a sequence from an sval map or record returned a collection
of empty entries. It now returns none, as documented for values
that aren't sequences and as it does for serde maps.
---
 src/internal/sval/v2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 8d577fa..c16fdf4 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -573,6 +573,15 @@ pub(crate) mod seq {
             }
         }
 
+        fn map_begin(&mut self, len: Option<usize>) -> value_bag_sval2::lib::Result {
+            // A map isn't a sequence, but it may be an element of one
+            if self.depth == 0 {
+                return value_bag_sval2::lib::error();
+            }
+
+            self.seq_begin(len)
+        }
+
         fn seq_begin(&mut self, _: Option<usize>) -> value_bag_sval2::lib::Result {
             if self.seq.is_none() {
                 self.seq = Some(S::default());
-- 
2.43.0


From 16acf4cdafe2b2b38b2ab5598316c605c4248d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:38 +0000
Subject: [PATCH 3/8] fix: report errors from visitors when visiting serde and
 sval values

When a visitor rejected a primitive inside a serde or sval value, the
value was visited a second time through the catch-all method, and the
error was lost.
---
 src/internal/cast/mod.rs |  6 +--
 src/internal/serde/v1.rs | 87 +++++++++++++++++++++++++++++++---------
 src/internal/sval/v2.rs  | 64 +++++++++++++++++++++--------
 src/visit.rs             |  6 +--
 4 files changed, 120 insertions(+), 43 deletions(-)

diff --git a/src/internal/cast/mod.rs b/src/internal/cast/mod.rs
index 6fc18fd..2ae5f29 100644
--- a/src/internal/cast/mod.rs
+++ b/src/internal/cast/mod.rs
@@ -275,7 +275,7 @@ impl<'v> Internal<'v> {
             #[cfg(feature = "sval2")]
             #[inline]
             fn sval2(&mut self, v: &dyn super::sval::v2::Value) -> Result<(), Error> {
-                if super::sval::v2::internal_visit(v, self) {
+                if super::sval::v2::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
@@ -284,7 +284,7 @@ impl<'v> Internal<'v> {
 
             #[cfg(feature = "sval2")]
             fn borrowed_sval2(&mut self, v: &'v dyn super::sval::v2::Value) -> Result<(), Error> {
-                if super::sval::v2::borrowed_internal_visit(v, self) {
+                if super::sval::v2::borrowed_internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
@@ -294,7 +294,7 @@ impl<'v> Internal<'v> {
             #[cfg(feature = "serde1")]
             #[inline]
             fn serde1(&mut self, v: &dyn super::serde::v1::Serialize) -> Result<(), Error> {
-                if super::serde::v1::internal_visit(v, self) {
+                if super::serde::v1::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     Err(Error::msg("invalid cast"))
diff --git a/src/internal/serde/v1.rs b/src/internal/serde/v1.rs
index 8ee44f8..035d85c 100644
--- a/src/internal/serde/v1.rs
+++ b/src/internal/serde/v1.rs
@@ -324,8 +324,28 @@ fn serialize_seq<S: value_bag_serde1::lib::Serializer>(
     s.serializer.end()
 }
 
-pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisitor<'_>) -> bool {
-    struct VisitorSerializer<'a, 'v>(&'a mut dyn InternalVisitor<'v>);
+/**
+Visit a value if it's a primitive.
+
+Returns `Ok(false)` if the value isn't a primitive, and `Err` if the visitor itself failed.
+*/
+pub(crate) fn internal_visit(
+    v: &dyn Serialize,
+    visitor: &mut dyn InternalVisitor<'_>,
+) -> Result<bool, Error> {
+    struct VisitorSerializer<'a, 'v> {
+        visitor: &'a mut dyn InternalVisitor<'v>,
+        err: &'a mut Option<Error>,
+    }
+
+    impl<'a, 'v> VisitorSerializer<'a, 'v> {
+        fn visited(self, result: Result<(), Error>) -> Result<(), Unsupported> {
+            result.map_err(|err| {
+                *self.err = Some(err);
+                Unsupported
+            })
+        }
+    }
 
     impl<'a, 'v> value_bag_serde1::lib::Serializer for VisitorSerializer<'a, 'v> {
         type Ok = ();
@@ -340,59 +360,73 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
         fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            let result = self.visitor.u64(v as u64);
+            self.visited(result)
         }
 
         fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            let result = self.visitor.u64(v as u64);
+            self.visited(result)
         }
 
         fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v as u64).map_err(|_| Unsupported)
+            let result = self.visitor.u64(v as u64);
+            self.visited(result)
         }
 
         fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-            self.0.u64(v).map_err(|_| Unsupported)
+            let result = self.visitor.u64(v);
+            self.visited(result)
         }
 
         fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
-            self.0.u128(&v).map_err(|_| Unsupported)
+            let result = self.visitor.u128(&v);
+            self.visited(result)
         }
 
         fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            let result = self.visitor.i64(v as i64);
+            self.visited(result)
         }
 
         fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            let result = self.visitor.i64(v as i64);
+            self.visited(result)
         }
 
         fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v as i64).map_err(|_| Unsupported)
+            let result = self.visitor.i64(v as i64);
+            self.visited(result)
         }
 
         fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-            self.0.i64(v).map_err(|_| Unsupported)
+            let result = self.visitor.i64(v);
+            self.visited(result)
         }
 
         fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
-            self.0.i128(&v).map_err(|_| Unsupported)
+            let result = self.visitor.i128(&v);
+            self.visited(result)
         }
 
         fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-            self.0.f64(v as f64).map_err(|_| Unsupported)
+            let result = self.visitor.f64(v as f64);
+            self.visited(result)
         }
 
         fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-            self.0.f64(v).map_err(|_| Unsupported)
+            let result = self.visitor.f64(v);
+            self.visited(result)
         }
 
         fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-            self.0.char(v).map_err(|_| Unsupported)
+            let result = self.visitor.char(v);
+            self.visited(result)
         }
 
         fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-            self.0.bool(v).map_err(|_| Unsupported)
+            let result = self.visitor.bool(v);
+            self.visited(result)
         }
 
         fn serialize_some<T>(self, v: &T) -> Result<Self::Ok, Self::Error>
@@ -403,11 +437,13 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
 
         fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-            self.0.none().map_err(|_| Unsupported)
+            let result = self.visitor.none();
+            self.visited(result)
         }
 
         fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-            self.0.none().map_err(|_| Unsupported)
+            let result = self.visitor.none();
+            self.visited(result)
         }
 
         fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
@@ -415,7 +451,8 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
 
         fn serialize_str(self, s: &str) -> Result<Self::Ok, Self::Error> {
-            self.0.str(s).map_err(|_| Unsupported)
+            let result = self.visitor.str(s);
+            self.visited(result)
         }
 
         fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
@@ -510,7 +547,17 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
         }
     }
 
-    value_bag_serde1::erased::serialize(v, VisitorSerializer(visitor)).is_ok()
+    let mut err = None;
+    let visited = value_bag_serde1::erased::serialize(
+        v,
+        VisitorSerializer {
+            visitor,
+            err: &mut err,
+        },
+    )
+    .is_ok();
+
+    err.map_or(Ok(visited), Err)
 }
 
 impl Error {
diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index c16fdf4..1d17d13 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -269,59 +269,90 @@ where
     value_bag_sval2::serde1::serialize(s, v)
 }
 
-pub(crate) fn internal_visit(v: &dyn Value, visitor: &mut dyn InternalVisitor<'_>) -> bool {
+/**
+Visit a value if it's a primitive.
+
+Returns `Ok(false)` if the value isn't a primitive, and `Err` if the visitor itself failed.
+*/
+pub(crate) fn internal_visit(
+    v: &dyn Value,
+    visitor: &mut dyn InternalVisitor<'_>,
+) -> Result<bool, Error> {
     let mut visitor = VisitorStream {
         visitor,
         text_buf: Default::default(),
+        err: None,
     };
 
-    value_bag_sval2::lib::stream_computed(&mut visitor, v).is_ok()
+    let visited = value_bag_sval2::lib::stream_computed(&mut visitor, v).is_ok();
+
+    visitor.err.map_or(Ok(visited), Err)
 }
 
 pub(crate) fn borrowed_internal_visit<'v>(
     v: &'v dyn Value,
     visitor: &mut dyn InternalVisitor<'v>,
-) -> bool {
+) -> Result<bool, Error> {
     let mut visitor = VisitorStream {
         visitor,
         text_buf: Default::default(),
+        err: None,
     };
 
-    value_bag_sval2::lib::stream(&mut visitor, v).is_ok()
+    let visited = value_bag_sval2::lib::stream(&mut visitor, v).is_ok();
+
+    visitor.err.map_or(Ok(visited), Err)
 }
 
 struct VisitorStream<'a, 'v> {
     visitor: &'a mut dyn InternalVisitor<'v>,
     text_buf: value_bag_sval2::buffer::TextBuf<'v>,
+    err: Option<Error>,
+}
+
+impl<'a, 'v> VisitorStream<'a, 'v> {
+    fn visited(&mut self, result: Result<(), Error>) -> value_bag_sval2::lib::Result {
+        result.map_err(|err| {
+            self.err = Some(err);
+            value_bag_sval2::lib::Error::new()
+        })
+    }
 }
 
 impl<'a, 'v> value_bag_sval2::lib::Stream<'v> for VisitorStream<'a, 'v> {
     fn null(&mut self) -> value_bag_sval2::lib::Result {
-        self.visitor.none().map_err(Error::into_sval2)
+        let result = self.visitor.none();
+        self.visited(result)
     }
 
     fn bool(&mut self, v: bool) -> value_bag_sval2::lib::Result {
-        self.visitor.bool(v).map_err(Error::into_sval2)
+        let result = self.visitor.bool(v);
+        self.visited(result)
     }
 
     fn i64(&mut self, v: i64) -> value_bag_sval2::lib::Result {
-        self.visitor.i64(v).map_err(Error::into_sval2)
+        let result = self.visitor.i64(v);
+        self.visited(result)
     }
 
     fn u64(&mut self, v: u64) -> value_bag_sval2::lib::Result {
-        self.visitor.u64(v).map_err(Error::into_sval2)
+        let result = self.visitor.u64(v);
+        self.visited(result)
     }
 
     fn i128(&mut self, v: i128) -> value_bag_sval2::lib::Result {
-        self.visitor.i128(&v).map_err(Error::into_sval2)
+        let result = self.visitor.i128(&v);
+        self.visited(result)
     }
 
     fn u128(&mut self, v: u128) -> value_bag_sval2::lib::Result {
-        self.visitor.u128(&v).map_err(Error::into_sval2)
+        let result = self.visitor.u128(&v);
+        self.visited(result)
     }
 
     fn f64(&mut self, v: f64) -> value_bag_sval2::lib::Result {
-        self.visitor.f64(v).map_err(Error::into_sval2)
+        let result = self.visitor.f64(v);
+        self.visited(result)
     }
 
     fn text_begin(&mut self, _: Option<usize>) -> value_bag_sval2::lib::Result {
@@ -342,13 +373,12 @@ impl<'a, 'v> value_bag_sval2::lib::Stream<'v> for VisitorStream<'a, 'v> {
     }
 
     fn text_end(&mut self) -> value_bag_sval2::lib::Result {
-        if let Some(v) = self.text_buf.as_borrowed_str() {
-            self.visitor.borrowed_str(v).map_err(Error::into_sval2)
+        let result = if let Some(v) = self.text_buf.as_borrowed_str() {
+            self.visitor.borrowed_str(v)
         } else {
-            self.visitor
-                .str(self.text_buf.as_str())
-                .map_err(Error::into_sval2)
-        }
+            self.visitor.str(self.text_buf.as_str())
+        };
+        self.visited(result)
     }
 
     fn seq_begin(&mut self, _: Option<usize>) -> value_bag_sval2::lib::Result {
diff --git a/src/visit.rs b/src/visit.rs
index 346550d..09bc6eb 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -307,7 +307,7 @@ impl<'v> ValueBag<'v> {
 
             #[cfg(feature = "sval2")]
             fn sval2(&mut self, v: &dyn internal::sval::v2::Value) -> Result<(), Error> {
-                if internal::sval::v2::internal_visit(v, self) {
+                if internal::sval::v2::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
@@ -319,7 +319,7 @@ impl<'v> ValueBag<'v> {
                 &mut self,
                 v: &'v dyn internal::sval::v2::Value,
             ) -> Result<(), Error> {
-                if internal::sval::v2::borrowed_internal_visit(v, self) {
+                if internal::sval::v2::borrowed_internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
@@ -328,7 +328,7 @@ impl<'v> ValueBag<'v> {
 
             #[cfg(feature = "serde1")]
             fn serde1(&mut self, v: &dyn internal::serde::v1::Serialize) -> Result<(), Error> {
-                if internal::serde::v1::internal_visit(v, self) {
+                if internal::serde::v1::internal_visit(v, self)? {
                     Ok(())
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_serde1(v))
-- 
2.43.0


From e92af4d66916b27199e7fdcc2aabcaea4da9526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:43 +0000
Subject: [PATCH 4/8] fix: get borrowed errors from shared values

A buffered error could be read back as an error, but the same
error after sharing it could not.
---
 src/internal/error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 75ee76c..03c23f8 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -31,6 +31,8 @@ impl<'v> ValueBag<'v> {
         match self.inner {
             Internal::Error(value) => Some(value.as_super()),
             Internal::AnonError(value) => Some(value),
+            #[cfg(feature = "owned")]
+            Internal::SharedRefError(value) => Some(value.as_super()),
             _ => None,
         }
     }
-- 
2.43.0


From 0a4ef39df6effa0207335ca80fa959159422579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:35 +0000
Subject: [PATCH 5/8] fix: downcast shared sequences to the captured value

A captured, shared sequence could only be downcast to a private
wrapper type, so it could never be read back.
---
 src/internal/seq.rs | 20 ++++++++++----------
 src/owned.rs        | 18 +++++++++++++++++-
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/internal/seq.rs b/src/internal/seq.rs
index 3eaae2f..95964a3 100644
--- a/src/internal/seq.rs
+++ b/src/internal/seq.rs
@@ -265,16 +265,6 @@ pub(crate) trait DowncastSeq {
     fn as_super(&self) -> &dyn Seq;
 }
 
-impl<T: Seq + 'static> DowncastSeq for T {
-    fn as_any(&self) -> &dyn Any {
-        self
-    }
-
-    fn as_super(&self) -> &dyn Seq {
-        self
-    }
-}
-
 impl<'a> Seq for dyn DowncastSeq + Send + Sync + 'a {
     fn visit(&self, visitor: &mut dyn Visitor<'_>) {
         self.as_super().visit(visitor)
@@ -593,6 +583,16 @@ pub(crate) mod owned {
         }
     }
 
+    impl DowncastSeq for OwnedSeq {
+        fn as_any(&self) -> &dyn Any {
+            self
+        }
+
+        fn as_super(&self) -> &dyn Seq {
+            self
+        }
+    }
+
     pub(crate) fn buffer(v: &dyn Seq) -> Result<OwnedSeq, Error> {
         struct BufferVisitor(Vec<OwnedValueBag>);
 
diff --git a/src/owned.rs b/src/owned.rs
index 7491de7..1678d4f 100644
--- a/src/owned.rs
+++ b/src/owned.rs
@@ -120,7 +120,7 @@ impl ValueBag<'static> {
     {
         use crate::{
             internal::seq::Visitor,
-            std::{marker::PhantomData, ops::ControlFlow},
+            std::{any::Any, marker::PhantomData, ops::ControlFlow},
         };
 
         struct OwnedSeqSlice<I: ?Sized, T>(PhantomData<[T]>, I);
@@ -139,6 +139,22 @@ impl ValueBag<'static> {
             }
         }
 
+        // Downcast to the captured value instead of our internal wrapper
+        impl<I, T> internal::seq::DowncastSeq for OwnedSeqSlice<I, T>
+        where
+            I: AsRef<[T]> + 'static,
+            T: 'static,
+            for<'v> &'v T: Into<ValueBag<'v>>,
+        {
+            fn as_any(&self) -> &dyn Any {
+                &self.1
+            }
+
+            fn as_super(&self) -> &dyn internal::seq::Seq {
+                self
+            }
+        }
+
         Self::try_capture_owned(&value).unwrap_or(ValueBag {
             inner: Internal::SharedSeq(Arc::new(OwnedSeqSlice(PhantomData, value))),
         })
-- 
2.43.0


From 3d5c6dc369a78bc214dfdb3a39b930b0e75b440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:56 +0000
Subject: [PATCH 6/8] fix: don't panic when buffering a value that fails to
 format

Without inline strings, buffering used methods that panic when a
formatting trait returns an error. It now stores the same text as
it does with inline strings.
---
 src/internal/error.rs |  4 ++--
 src/internal/fmt.rs   | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 03c23f8..f118f49 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -76,7 +76,7 @@ pub use self::error::Error;
 
 #[cfg(feature = "owned")]
 pub(crate) mod owned {
-    use crate::std::{boxed::Box, error, fmt, string::ToString};
+    use crate::std::{boxed::Box, error, fmt};
 
     #[derive(Clone, Debug)]
     pub(crate) struct OwnedError {
@@ -102,7 +102,7 @@ pub(crate) mod owned {
 
     pub(crate) fn buffer(err: &(dyn error::Error + 'static)) -> OwnedError {
         OwnedError {
-            display: err.to_string().into(),
+            display: crate::internal::fmt::owned::buffer_boxed(err),
             source: err.source().map(buffer).map(Box::new),
         }
     }
diff --git a/src/internal/fmt.rs b/src/internal/fmt.rs
index ba88e11..d3f4c11 100644
--- a/src/internal/fmt.rs
+++ b/src/internal/fmt.rs
@@ -420,7 +420,7 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            Err(OwnedFmt(format!("{v:?}").into()))
+            Err(OwnedFmt(buffer_boxed(format_args!("{v:?}"))))
         }
     }
 
@@ -431,9 +431,20 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            use crate::std::string::ToString as _;
+            Err(OwnedFmt(buffer_boxed(v)))
+        }
+    }
+
+    // Unlike `to_string`, this won't panic if `v` fails to format
+    #[cfg(any(not(feature = "inline-str"), feature = "error"))]
+    pub(crate) fn buffer_boxed(v: impl fmt::Display) -> Box<str> {
+        use crate::std::{fmt::Write as _, string::String};
+
+        let mut buf = String::new();
 
-            Err(OwnedFmt(v.to_string().into()))
+        match write!(&mut buf, "{v}") {
+            Ok(()) => buf.into_boxed_str(),
+            Err(err) => format!("<{err}>").into_boxed_str(),
         }
     }
 
-- 
2.43.0


From e6c98133a139592a0e79b88decccd3057904f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:02 +0000
Subject: [PATCH 7/8] fix: don't buffer a value that fails to fill as an empty
 value

The error from the filler was ignored, so the buffered value looked
like it was deliberately empty.
---
 src/internal/owned.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/internal/owned.rs b/src/internal/owned.rs
index dda0638..8bb9b5b 100644
--- a/src/internal/owned.rs
+++ b/src/internal/owned.rs
@@ -379,9 +379,10 @@ impl<'v> Internal<'v> {
 
         let mut visitor = OwnedVisitor(OwnedInternal::None);
 
-        let _ = self.internal_visit(&mut visitor);
-
-        visitor.0
+        match self.internal_visit(&mut visitor) {
+            Ok(()) => visitor.0,
+            Err(_) => OwnedInternal::Poisoned("failed to buffer the value"),
+        }
     }
 }
 
-- 
2.43.0


From e4ac879c703224d7836af4443cf38433c53ce2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:04 +0000
Subject: [PATCH 8/8] fix: return the original error when serializing fails

The error from the serializer was formatted into a new one. Errors from
`erased_serde` can't be formatted, so serializing a bag through it
panicked instead of failing.
---
 src/error.rs             | 13 -------------
 src/internal/serde/v1.rs | 28 +++++++++++++---------------
 2 files changed, 13 insertions(+), 28 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 76da461..4948041 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -21,19 +21,6 @@ impl Error {
             inner: Inner::Msg(msg),
         }
     }
-
-    #[cfg(feature = "serde1")]
-    pub(crate) fn try_boxed(msg: &'static str, e: impl fmt::Display) -> Self {
-        #[cfg(feature = "std")]
-        {
-            Error::boxed(format!("{msg}: {e}"))
-        }
-        #[cfg(not(feature = "std"))]
-        {
-            let _ = e;
-            Error::msg(msg)
-        }
-    }
 }
 
 impl fmt::Display for Error {
diff --git a/src/internal/serde/v1.rs b/src/internal/serde/v1.rs
index 035d85c..4718606 100644
--- a/src/internal/serde/v1.rs
+++ b/src/internal/serde/v1.rs
@@ -136,7 +136,9 @@ impl<'v> value_bag_serde1::lib::Serialize for ValueBag<'v> {
             fn result(&self) -> Result<(), Error> {
                 match self.result {
                     Some(Ok(_)) => Ok(()),
-                    Some(Err(ref e)) => Err(Error::serde(e)),
+                    // The original error is returned by `into_result`
+                    // It may come from `erased_serde`, where it can't be formatted
+                    Some(Err(_)) => Err(Error::msg("`serde` serialization failed")),
                     None => Err(Error::msg("`serde` serialization didn't produce a result")),
                 }
             }
@@ -147,12 +149,15 @@ impl<'v> value_bag_serde1::lib::Serialize for ValueBag<'v> {
                     .ok_or_else(|| Error::msg("`serde` serializer is in an invalid state"))
             }
 
-            fn into_result(self) -> Result<S::Ok, S::Error> {
-                self.result.unwrap_or_else(|| {
-                    Err(S::Error::custom(
+            fn into_result(self, visited: Result<(), Error>) -> Result<S::Ok, S::Error> {
+                match (self.result, visited) {
+                    (Some(Err(e)), _) => Err(e),
+                    (_, Err(e)) => Err(S::Error::custom(e)),
+                    (Some(Ok(ok)), Ok(())) => Ok(ok),
+                    (None, Ok(())) => Err(S::Error::custom(
                         "`serde` serialization didn't produce a result",
-                    ))
-                })
+                    )),
+                }
             }
         }
 
@@ -264,10 +269,9 @@ impl<'v> value_bag_serde1::lib::Serialize for ValueBag<'v> {
             result: None,
         };
 
-        self.internal_visit(&mut visitor)
-            .map_err(S::Error::custom)?;
+        let visited = self.internal_visit(&mut visitor);
 
-        visitor.into_result()
+        visitor.into_result(visited)
     }
 }
 
@@ -560,12 +564,6 @@ pub(crate) fn internal_visit(
     err.map_or(Ok(visited), Err)
 }
 
-impl Error {
-    fn serde(e: impl fmt::Display) -> Self {
-        Error::try_boxed("`serde` serialization failed", e)
-    }
-}
-
 #[derive(Debug)]
 struct Unsupported;
 
-- 
2.43.0

