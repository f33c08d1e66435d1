From eb7b446164151b469a795f582fc96faab0d85b7a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 01/21] fix: convert values that stream a signed integer
 narrower than 128 bits

---
 src/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 928a263..523dd66 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -621,8 +621,8 @@ pub mod default_value {
                 crate::error()
             }
 
-            fn i64(&mut self, _: i64) -> Result {
-                crate::error()
+            fn i64(&mut self, value: i64) -> Result {
+                self.i128(value as i128)
             }
 
             fn f64(&mut self, _: f64) -> Result {
-- 
2.43.0


From c47ab088163a33a2deccc5ff6fe6e17f5a24a359 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 02/21] fix: report a JSON writer that accepts no more bytes as
 an error

---
 json/src/to_io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/to_io.rs b/json/src/to_io.rs
index 96f805b..9f480a3 100644
--- a/json/src/to_io.rs
+++ b/json/src/to_io.rs
@@ -20,7 +20,10 @@ pub fn stream_to_io_write(io: impl Write, v: impl sval::Value) -> Result<(), Err
 
             while buf.len() > 0 {
                 match self.io.write(buf) {
-                    Ok(0) => break,
+                    Ok(0) => {
+                        self.err = Some(io::ErrorKind::WriteZero.into());
+                        return Err(fmt::Error);
+                    }
                     Ok(n) => {
                         buf = &buf[n..];
                     }
-- 
2.43.0


From d08f74b4490f5cf4a208b229b3152bb39ced981a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 03/21] fix: keep the integral zero of JSON numbers like 0e5

---
 json/src/to_fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 464e7bf..ceb9f67 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -605,8 +605,8 @@ impl NumberTextHandler {
                         self.at_start = false;
                         range.end += 1;
                     }
-                    // If we encounter a decimal point we might need to write a leading `0`
-                    b'.' => {
+                    // If we encounter a decimal point or exponent we might need to write a leading `0`
+                    b'.' | b'e' | b'E' => {
                         if self.at_start {
                             if self.sign_negative {
                                 _try_no_conv!(out.write_char('-'));
-- 
2.43.0


From bda97b68e84e0cbb9123771084babea0c0f46576 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 04/21] fix: don't let a tagged JSON key affect how the value
 is tagged

---
 json/src/to_fmt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index ceb9f67..aca9da7 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -254,6 +254,8 @@ where
     }
 
     fn map_value_begin(&mut self) -> sval::Result {
+        self.is_internally_tagged = false;
+
         Ok(())
     }
 
-- 
2.43.0


From c0d66736d615a3ff324124c7041d3707afa7b224 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 05/21] fix: don't close JSON enums nested in unlabeled enums
 twice

---
 json/src/to_fmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index aca9da7..9083db5 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -328,10 +328,10 @@ where
         }
 
         if self.is_internally_tagged {
-            self.internally_tagged_map_end()
-        } else {
-            self.internally_tagged_end(label, index)
+            _try_no_conv!(self.internally_tagged_map_end());
         }
+
+        self.internally_tagged_end(label, index)
     }
 
     fn tagged_begin(
-- 
2.43.0


From d7fac3950f0933b460882e6980f30c1c7c84475a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 06/21] fix: support labeled JSON enum variants with number and
 JSON tags

---
 json/src/to_fmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index 9083db5..d4ed29e 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -340,6 +340,8 @@ where
         label: Option<&sval::Label>,
         index: Option<&sval::Index>,
     ) -> sval::Result {
+        _try_no_conv!(self.internally_tagged_begin(label, index));
+
         match tag {
             Some(&tags::JSON_TEXT) => {
                 self.text_handler = Some(TextHandler::native());
@@ -362,7 +364,6 @@ where
             _ => (),
         }
 
-        _try_no_conv!(self.internally_tagged_begin(label, index));
         self.is_current_depth_empty = true;
 
         Ok(())
-- 
2.43.0


From b89c2857736c20cd300b8779314a2e99ebdb5a4c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:46:47 +0000
Subject: [PATCH 07/21] fix: keep the tag hint when cloning and converting
 labels into owned ones

---
 src/data.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 96d28f5..35ac8fc 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -162,9 +162,14 @@ impl<'computed> Label<'computed> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            self.as_static_str()
+            let mut label = self
+                .as_static_str()
                 .map(Label::new)
-                .ok_or_else(crate::Error::new)
+                .ok_or_else(crate::Error::new)?;
+
+            label.tag = self.tag.clone();
+
+            Ok(label)
         }
     }
 }
@@ -570,7 +575,9 @@ mod alloc_support {
         fn clone(&self) -> Self {
             if let Some(owned) = self.backing_field_owned {
                 // SAFETY: `owned` lives as long as `Label`
-                Label::new_owned(unsafe { &*owned }.to_owned())
+                let mut label = Label::new_owned(unsafe { &*owned }.to_owned());
+                label.tag = self.tag.clone();
+                label
             } else {
                 Label {
                     value_computed: self.value_computed,
@@ -590,11 +597,14 @@ mod alloc_support {
         This method will allocate if the label isn't based on a static string.
         */
         pub fn to_owned(&self) -> Label<'static> {
-            if let Some(backing_field_static) = self.backing_field_static {
+            let mut label = if let Some(backing_field_static) = self.backing_field_static {
                 Label::new(backing_field_static)
             } else {
                 Label::new_owned(self.as_str().into())
-            }
+            };
+
+            label.tag = self.tag.clone();
+            label
         }
     }
 
-- 
2.43.0


From a411e422cfcbf65c4fe1c3175640bce47d214905 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:46:47 +0000
Subject: [PATCH 08/21] fix: report fragments in an empty buffer as an error
 instead of panicking

---
 buffer/src/value.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 8534aa0..7c70b91 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -408,15 +408,15 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn text_fragment(&mut self, fragment: &'sval str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Text(ref mut text) => text.push_fragment(fragment),
+        self.try_catch(|buf| match buf.current_mut().map(|part| &mut part.kind) {
+            Some(ValueKind::Text(text)) => text.push_fragment(fragment),
             _ => Err(Error::outside_container("text")),
         })
     }
 
     fn text_fragment_computed(&mut self, fragment: &str) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Text(ref mut text) => text.push_fragment_computed(fragment),
+        self.try_catch(|buf| match buf.current_mut().map(|part| &mut part.kind) {
+            Some(ValueKind::Text(text)) => text.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("text")),
         })
     }
@@ -435,15 +435,15 @@ impl<'sval> sval::Stream<'sval> for ValueBuf<'sval> {
     }
 
     fn binary_fragment(&mut self, fragment: &'sval [u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Binary(ref mut binary) => binary.push_fragment(fragment),
+        self.try_catch(|buf| match buf.current_mut().map(|part| &mut part.kind) {
+            Some(ValueKind::Binary(binary)) => binary.push_fragment(fragment),
             _ => Err(Error::outside_container("binary")),
         })
     }
 
     fn binary_fragment_computed(&mut self, fragment: &[u8]) -> sval::Result {
-        self.try_catch(|buf| match buf.current_mut().kind {
-            ValueKind::Binary(ref mut binary) => binary.push_fragment_computed(fragment),
+        self.try_catch(|buf| match buf.current_mut().map(|part| &mut part.kind) {
+            Some(ValueKind::Binary(binary)) => binary.push_fragment_computed(fragment),
             _ => Err(Error::outside_container("binary")),
         })
     }
@@ -976,8 +976,8 @@ impl<'sval> ValueBuf<'sval> {
         Ok(())
     }
 
-    fn current_mut(&mut self) -> &mut ValuePart<'sval> {
-        self.parts.last_mut().expect("missing current")
+    fn current_mut(&mut self) -> Option<&mut ValuePart<'sval>> {
+        self.parts.last_mut()
     }
 }
 
-- 
2.43.0


From f10f755fd860a16ba2896f59fe53195b6635701d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:46:47 +0000
Subject: [PATCH 09/21] fix: don't panic when a value fails while being
 collected as text or binary

---
 buffer/src/fragments.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/buffer/src/fragments.rs b/buffer/src/fragments.rs
index d75d51c..c0ac305 100644
--- a/buffer/src/fragments.rs
+++ b/buffer/src/fragments.rs
@@ -40,9 +40,11 @@ impl<'sval> TextBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+        value.stream(&mut collector).map_err(|_| {
+            collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+        })?;
 
         Ok(collector.buf)
     }
@@ -297,9 +299,11 @@ impl<'sval> BinaryBuf<'sval> {
             err: None,
         };
 
-        value
-            .stream(&mut collector)
-            .map_err(|_| collector.err.unwrap())?;
+        value.stream(&mut collector).map_err(|_| {
+            collector
+                .err
+                .unwrap_or_else(|| Error::invalid_value("the value itself failed to stream"))
+        })?;
 
         Ok(collector.buf)
     }
-- 
2.43.0


From dd5775f6d724d2d5bb263fcc34b65591bd621249 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:38:24 +0000
Subject: [PATCH 10/21] fix: don't panic when JSON text tagged as a number
 isn't one

---
 json/src/to_fmt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/to_fmt.rs b/json/src/to_fmt.rs
index d4ed29e..aefae47 100644
--- a/json/src/to_fmt.rs
+++ b/json/src/to_fmt.rs
@@ -645,7 +645,11 @@ impl NumberTextHandler {
 
                         break;
                     }
-                    _ => range.end += 1,
+                    // Anything else isn't a number, so there's nothing left to shift over
+                    _ => {
+                        self.at_start = false;
+                        range.end += 1;
+                    }
                 }
             }
 
-- 
2.43.0


From 5aeaf05348950b7c4106d573485ff3958c77b721 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:25 +0000
Subject: [PATCH 11/21] fix: end the keys of maps nested in flattened values

---
 flatten/src/flattener.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index a3c412f..83f6d65 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -302,7 +302,7 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
                 state.in_flattening_map_key = false;
                 Ok(())
             },
-            |stream| stream.map_key_begin(),
+            |stream| stream.map_key_end(),
         )
     }
 
-- 
2.43.0


From 10d22ab10a852cc8a10d83f2e81d8b04685b48a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:25 +0000
Subject: [PATCH 12/21] fix: flatten tagged values that wrap enums

---
 flatten/src/flattener.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatten/src/flattener.rs b/flatten/src/flattener.rs
index 83f6d65..97dc89d 100644
--- a/flatten/src/flattener.rs
+++ b/flatten/src/flattener.rs
@@ -419,7 +419,10 @@ impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S> {
         index: Option<&Index>,
     ) -> sval::Result {
         self.value_at_root(
-            |_, _| Ok(()),
+            |_, state| {
+                state.in_flattening_enum = false;
+                Ok(())
+            },
             |buf| buf.enum_end(tag, label, index),
             |stream| stream.enum_end(tag, label, index),
         )
-- 
2.43.0


From e44871017dd88044d3e12c53433eda9f5a1f7e74 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:27 +0000
Subject: [PATCH 13/21] fix: concatenate all parts of complex keys flattened to
 labels

---
 flatten/src/label.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/flatten/src/label.rs b/flatten/src/label.rs
index d15da13..02f8527 100644
--- a/flatten/src/label.rs
+++ b/flatten/src/label.rs
@@ -41,18 +41,36 @@ impl<'sval> LabelBuf<'sval> {
     }
 
     pub(crate) fn i128(&mut self, v: impl TryInto<i128>) -> sval::Result {
-        *self = LabelBuf::I128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        let v = v.try_into().map_err(|_| sval::Error::new())?;
+
+        if let LabelBuf::Empty = self {
+            *self = LabelBuf::I128(v);
+            Ok(())
+        } else {
+            self.text_fragment_computed(itoa::Buffer::new().format(v))
+        }
     }
 
     pub(crate) fn u128(&mut self, v: impl TryInto<u128>) -> sval::Result {
-        *self = LabelBuf::U128(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        let v = v.try_into().map_err(|_| sval::Error::new())?;
+
+        if let LabelBuf::Empty = self {
+            *self = LabelBuf::U128(v);
+            Ok(())
+        } else {
+            self.text_fragment_computed(itoa::Buffer::new().format(v))
+        }
     }
 
     pub(crate) fn f64(&mut self, v: impl TryInto<f64>) -> sval::Result {
-        *self = LabelBuf::F64(v.try_into().map_err(|_| sval::Error::new())?);
-        Ok(())
+        let v = v.try_into().map_err(|_| sval::Error::new())?;
+
+        if let LabelBuf::Empty = self {
+            *self = LabelBuf::F64(v);
+            Ok(())
+        } else {
+            self.text_fragment_computed(ryu::Buffer::new().format(v))
+        }
     }
 
     pub(crate) fn null(&mut self) -> sval::Result {
@@ -98,7 +116,17 @@ impl<'sval> LabelBuf<'sval> {
         match self {
             LabelBuf::Text(buf) => Ok(buf),
             _ => {
-                *self = LabelBuf::Text(TextBuf::new());
+                let mut text = TextBuf::new();
+
+                // Keep the text of any number that's already buffered
+                if !matches!(self, LabelBuf::Empty) {
+                    self.with_label(|label| {
+                        text.push_fragment_computed(label.as_str())
+                            .map_err(|_| sval::Error::new())
+                    })?;
+                }
+
+                *self = LabelBuf::Text(text);
                 if let LabelBuf::Text(buf) = self {
                     Ok(buf)
                 } else {
-- 
2.43.0


From aa928382072c16ed7af43309c5bc9659ceb48dab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:22:27 +0000
Subject: [PATCH 14/21] fix: don't format the label of an enum after its empty
 variant

---
 fmt/src/writer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fmt/src/writer.rs b/fmt/src/writer.rs
index e8ec851..3700552 100644
--- a/fmt/src/writer.rs
+++ b/fmt/src/writer.rs
@@ -304,6 +304,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_map_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -335,6 +337,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_seq_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -471,6 +475,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_record_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 
@@ -521,6 +527,8 @@ impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W> {
             .write_tuple_end(self.is_current_depth_empty)
             .map_err(|_| sval::Error::new())?;
 
+        self.is_current_depth_empty = false;
+
         Ok(())
     }
 }
-- 
2.43.0


From 933f55c37a7e3d051cf4b87e0bae5e29bc7ba4e1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:29:28 +0000
Subject: [PATCH 15/21] fix: keep the elements of nested sequences apart when
 buffering them

---
 nested/src/flat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index b94d386..296924b 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -250,11 +250,11 @@ impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
     }
 
     fn seq_value_begin(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_begin(), |_| Ok(()))
     }
 
     fn seq_value_end(&mut self) -> sval::Result {
-        Ok(())
+        self.buffer_or_with(|buf| buf.seq_value_end(), |_| Ok(()))
     }
 
     fn seq_end(&mut self) -> sval::Result {
-- 
2.43.0


From 4779b269ae3c8598d06f1549a03968fd451639db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:29:28 +0000
Subject: [PATCH 16/21] fix: don't recurse forever when streaming an enum
 without a variant

---
 nested/src/flat_enum.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 7363aa2..856dd26 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -40,7 +40,11 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
     }
 
     pub fn end(self) -> Result<S::Ok> {
-        self.value_or_recurse(|stream, _| stream.end(), |stream, _| stream.end(), ())
+        self.value_or_recurse(
+            |stream, _| stream.stream.empty(),
+            |stream, _| stream.end(),
+            (),
+        )
     }
 
     fn value_or_recurse<I>(
-- 
2.43.0


From 833f8c6dd441516b23141d7d8c17dfcb814e4eef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 17/21] fix: report values that fail after they are complete

---
 nested/src/flat.rs |  9 +++++++++
 nested/src/lib.rs  | 16 ++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/nested/src/flat.rs b/nested/src/flat.rs
index 296924b..5c6b789 100644
--- a/nested/src/flat.rs
+++ b/nested/src/flat.rs
@@ -173,6 +173,15 @@ impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
             Err(Error::invalid_value("incomplete stream"))
         }
     }
+
+    pub fn finish_with(&mut self, r: sval::Result) -> Result<S::Ok> {
+        let ok = self.finish()?;
+
+        // The value may have failed after completing
+        r.map_err(|_| Error::invalid_value("the value itself failed to stream"))?;
+
+        Ok(ok)
+    }
 }
 
 impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S> {
diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index fecf900..1dd9105 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -937,8 +937,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval_ref::stream_ref(&mut stream, value);
-        stream.finish()
+        let r = sval_ref::stream_ref(&mut stream, value);
+        stream.finish_with(r)
     }
 
     /**
@@ -959,8 +959,8 @@ pub mod default_stream {
         value: V,
     ) -> Result<S::Ok> {
         let mut stream = FlatStream::new(stream);
-        let _ = sval::default_stream::value_computed(&mut stream, &value);
-        stream.finish()
+        let r = sval::default_stream::value_computed(&mut stream, &value);
+        stream.finish_with(r)
     }
 
     /**
@@ -992,8 +992,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
@@ -1033,8 +1033,8 @@ pub mod default_stream {
             stream.i64(value)
         } else {
             let mut stream = FlatStream::new(stream);
-            let _ = sval::stream_number(&mut stream, value);
-            stream.finish()
+            let r = sval::stream_number(&mut stream, value);
+            stream.finish_with(r)
         }
     }
 
-- 
2.43.0


From 0c100c5c0ee55229d77c2ce3878de78a2f33b443 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 18/21] fix: don't panic on tuple and record variants of nested
 enums

---
 nested/src/flat_enum.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nested/src/flat_enum.rs b/nested/src/flat_enum.rs
index 856dd26..569496a 100644
--- a/nested/src/flat_enum.rs
+++ b/nested/src/flat_enum.rs
@@ -47,6 +47,16 @@ impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
         )
     }
 
+    fn ensure_not_nested(&self) -> Result {
+        if self.queue.is_empty() {
+            Ok(())
+        } else {
+            Err(Error::invalid_value(
+                "tuples and records cannot be used as the variants of nested enums",
+            ))
+        }
+    }
+
     fn value_or_recurse<I>(
         mut self,
         value: impl FnOnce(Self, I) -> Result<S::Ok>,
@@ -190,7 +200,7 @@ impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S> {
         index: Option<sval::Index>,
         num_entries: Option<usize>,
     ) -> Result<Self::Tuple> {
-        assert!(self.queue.is_empty());
+        self.ensure_not_nested()?;
 
         self.stream.tuple_begin(tag, label, index, num_entries)
     }
@@ -202,7 +212,7 @@ impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S> {
         index: Option<sval::Index>,
         num_entries: Option<usize>,
     ) -> Result<Self::Record> {
-        assert!(self.queue.is_empty());
+        self.ensure_not_nested()?;
 
         self.stream.record_begin(tag, label, index, num_entries)
     }
-- 
2.43.0


From eef78f090127416c275595228e7a602bc460ccf3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:28:03 +0000
Subject: [PATCH 19/21] fix: a buffer out of room doesn't leave its stack
 pointing past its parts

Without an allocator, beginning a container when the parts are full pushed onto
the stack before failing. The matching end then panicked.
---
 buffer/src/value.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/buffer/src/value.rs b/buffer/src/value.rs
index 7c70b91..d2f4731 100644
--- a/buffer/src/value.rs
+++ b/buffer/src/value.rs
@@ -927,8 +927,12 @@ impl<'sval> ValueBuf<'sval> {
     }
 
     fn push_begin(&mut self, kind: ValueKind<'sval>) -> Result<(), Error> {
-        self.stack.push(self.parts.len())?;
-        self.parts.push(ValuePart { kind })
+        let index = self.parts.len();
+
+        // Push the part first, so the stack never points past the end of `parts`
+        // if there's no room for it
+        self.parts.push(ValuePart { kind })?;
+        self.stack.push(index)
     }
 
     fn push_end(&mut self) -> Result<(), Error> {
-- 
2.43.0


From 1d6f117e15b9b84d3364b1631e400a758b2a3e36 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:28:03 +0000
Subject: [PATCH 20/21] fix: labels of recursive streams keep their tag without
 an allocator

---
 nested/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nested/src/lib.rs b/nested/src/lib.rs
index 1dd9105..0ab0763 100644
--- a/nested/src/lib.rs
+++ b/nested/src/lib.rs
@@ -914,11 +914,9 @@ fn owned_label_ref(label: &sval::Label) -> Result<sval::Label<'static>> {
     }
     #[cfg(not(feature = "alloc"))]
     {
-        if let Some(label) = label.as_static_str() {
-            Ok(sval::Label::new(label))
-        } else {
-            Err(Error::no_alloc("streaming value"))
-        }
+        label
+            .try_to_owned()
+            .map_err(|_| Error::no_alloc("streaming value"))
     }
 }
 
-- 
2.43.0


From 12a9885c2cd6cc57a4b0b6e4aebd11e2dc35078d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:28:03 +0000
Subject: [PATCH 21/21] fix: the no_debug_assertions feature of sval_nested
 takes effect

The cfg didn't name the feature, so an allocation failure still panicked in debug
builds with it enabled.
---
 nested/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nested/src/error.rs b/nested/src/error.rs
index 38f89dd..f8138f5 100644
--- a/nested/src/error.rs
+++ b/nested/src/error.rs
@@ -53,11 +53,11 @@ impl Error {
         The pattern here is the same as what's used in `sval_buffer`.
         */
 
-        #[cfg(all(debug_assertions, not(no_debug_assertions), not(test)))]
+        #[cfg(all(debug_assertions, not(feature = "no_debug_assertions"), not(test)))]
         {
             panic!("attempt to allocate for {} would fail; add the `alloc` feature of `sval_nested` or the depdendent `sval_*` library to support allocation. This call will error instead of panicking in release builds. Add the `no_debug_assertions` feature of `sval_nested` if this error is expected.", method);
         }
-        #[cfg(not(all(debug_assertions, not(no_debug_assertions), not(test))))]
+        #[cfg(not(all(debug_assertions, not(feature = "no_debug_assertions"), not(test))))]
         {
             Error(ErrorKind::NoAlloc { method })
         }
-- 
2.43.0

