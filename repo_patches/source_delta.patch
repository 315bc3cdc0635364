From 2b50c812cefa7d9eac78a30a62f112c976474b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 01/23] fix: forward finish to the inner sink when
 deserializing into Option

Optional values whose sink only stores its value in finish (vectors, maps,
structs, boxes, ...) were silently deserialized as None.
---
 deser/src/de/impls.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 014365c..3d144cb 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -528,7 +528,10 @@ where
         let sink = Deserialize::deserialize_into(out.as_mut().unwrap());
         match sink {
             SinkHandle::Null(_) => sink,
-            sink => SinkHandle::boxed(NullIgnoringSink { sink }),
+            sink => SinkHandle::boxed(NullIgnoringSink {
+                sink,
+                received: false,
+            }),
         }
     }
 
@@ -539,21 +542,28 @@ where
 
 struct NullIgnoringSink<'a> {
     sink: SinkHandle<'a>,
+    // set to true once a non null value was forwarded to the inner sink.
+    received: bool,
 }
 
 impl<'a> Sink for NullIgnoringSink<'a> {
     fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
         match atom {
             Atom::Null => Ok(()),
-            other => self.sink.atom(other, state),
+            other => {
+                self.received = true;
+                self.sink.atom(other, state)
+            }
         }
     }
 
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.received = true;
         self.sink.map(state)
     }
 
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.received = true;
         self.sink.seq(state)
     }
 
@@ -565,6 +575,13 @@ impl<'a> Sink for NullIgnoringSink<'a> {
         self.sink.next_value(state)
     }
 
+    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        if self.received {
+            self.sink.finish(state)?;
+        }
+        Ok(())
+    }
+
     fn descriptor(&self) -> &dyn Descriptor {
         self.sink.descriptor()
     }
-- 
2.43.0


From 4cb86e41109a0a97d0b775e95176cb5e90f6e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 02/23] fix: make HashMap deserializable

The sink for HashMap did not implement map and rejected every map.
---
 deser/src/de/impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 3d144cb..3f29121 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -388,6 +388,10 @@ where
                 &DESCRIPTOR
             }
 
+            fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
+                Ok(())
+            }
+
             fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
                 self.flush();
                 Ok(Deserialize::deserialize_into(&mut self.key))
-- 
2.43.0


From c9648583ff4859cfcfd74adc2e74de848eb56b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 03/23] fix: reject integers that are out of range for the
 target type

The range check compared the value after it was wrapped around, so that
u64::MAX was accepted as -1 by the signed integer types and -1 as u64::MAX.
---
 deser/src/de/impls.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 3f29121..23a77b1 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -87,28 +87,16 @@ macro_rules! int_sink {
             fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
                 match atom {
                     Atom::U64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as u64 == value {
-                            **self = Some(truncated);
-                            Ok(())
-                        } else {
-                            Err(Error::new(
-                                ErrorKind::OutOfRange,
-                                "value out of range for type",
-                            ))
-                        }
+                        **self = Some(<$ty>::try_from(value).map_err(|_| {
+                            Error::new(ErrorKind::OutOfRange, "value out of range for type")
+                        })?);
+                        Ok(())
                     }
                     Atom::I64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as i64 == value {
-                            **self = Some(truncated);
-                            Ok(())
-                        } else {
-                            Err(Error::new(
-                                ErrorKind::OutOfRange,
-                                "value out of range for type",
-                            ))
-                        }
+                        **self = Some(<$ty>::try_from(value).map_err(|_| {
+                            Error::new(ErrorKind::OutOfRange, "value out of range for type")
+                        })?);
+                        Ok(())
                     }
                     other => self.unexpected_atom(other, state),
                 }
-- 
2.43.0


From 76254d8bc14ee9833002e8e05209c34f59b24b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 04/23] fix: keep sinks and descriptors alive as long as they
 are borrowed from

When finish failed on the end of a container, or an end event did not match,
the deserialize driver dropped the container while the current sink could
still borrow from it and left its descriptor on the stack.  Both could then be
used after free.  Sinks are now always dropped before the container they were
handed out by, also when the driver itself is dropped.
---
 deser/src/de/driver.rs | 56 +++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 10c18cf..ef3c984 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -59,6 +59,11 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     fn update_current_sink(&mut self) -> Result<(), Error> {
+        // The current sink can borrow from the container it belongs to, so it has
+        // to go before the container is asked for another sink.
+        if !self.sink_stack.is_empty() {
+            self.current_sink = None;
+        }
         match self.sink_stack.last_mut() {
             Some((map_sink, Layer::Map(ref mut is_key))) => {
                 let next_sink = if *is_key {
@@ -79,7 +84,26 @@ impl<'a> DeserializeDriver<'a> {
         Ok(())
     }
 
+    /// Finishes and removes the innermost container.
+    fn finish_container(&mut self) -> Result<(), Error> {
+        // The last sink handed out by the container can borrow from it and has to
+        // be dropped first.  The container itself must not be dropped here, even if
+        // finishing it fails, as it in turn becomes the current sink.
+        self.current_sink = None;
+        self.current_sink = self.sink_stack.pop().map(|(sink, _)| sink);
+        let rv = match self.current_sink {
+            Some(ref mut sink) => sink.finish(&self.state),
+            None => Ok(()),
+        };
+        self.state.descriptor_stack.truncate(self.sink_stack.len());
+        rv
+    }
+
     fn _emit(&mut self, event: Event) -> Result<(), Error> {
+        // If a sink panicked in an earlier call there can be a descriptor left whose
+        // container was already removed.
+        self.state.descriptor_stack.truncate(self.sink_stack.len());
+
         macro_rules! current_sink {
             () => {{
                 self.update_current_sink()?;
@@ -96,39 +120,29 @@ impl<'a> DeserializeDriver<'a> {
             Event::MapStart => {
                 let current_sink = current_sink!();
                 current_sink.map(&self.state)?;
-                let descriptor = current_sink.descriptor();
-                self.state
-                    .descriptor_stack
-                    .push(unsafe { extend_lifetime!(descriptor, &dyn Descriptor) });
+                let descriptor =
+                    unsafe { extend_lifetime!(current_sink.descriptor(), &dyn Descriptor) };
                 self.sink_stack
                     .push((self.current_sink.take().unwrap(), Layer::Map(true)));
+                self.state.descriptor_stack.push(descriptor);
                 return Ok(());
             }
-            Event::MapEnd => match self.sink_stack.pop() {
-                Some((mut map_sink, Layer::Map(_))) => {
-                    map_sink.finish(&self.state)?;
-                    self.state.descriptor_stack.pop();
-                    self.current_sink = Some(map_sink);
-                }
+            Event::MapEnd => match self.sink_stack.last() {
+                Some((_, Layer::Map(_))) => self.finish_container()?,
                 _ => panic!("not inside a MapSink"),
             },
             Event::SeqStart => {
                 let current_sink = current_sink!();
                 current_sink.seq(&self.state)?;
-                let descriptor = current_sink.descriptor();
-                self.state
-                    .descriptor_stack
-                    .push(unsafe { extend_lifetime!(descriptor, &dyn Descriptor) });
+                let descriptor =
+                    unsafe { extend_lifetime!(current_sink.descriptor(), &dyn Descriptor) };
                 self.sink_stack
                     .push((self.current_sink.take().unwrap(), Layer::Seq));
+                self.state.descriptor_stack.push(descriptor);
                 return Ok(());
             }
-            Event::SeqEnd => match self.sink_stack.pop() {
-                Some((mut seq_sink, Layer::Seq)) => {
-                    seq_sink.finish(&self.state)?;
-                    self.state.descriptor_stack.pop();
-                    self.current_sink = Some(seq_sink);
-                }
+            Event::SeqEnd => match self.sink_stack.last() {
+                Some((_, Layer::Seq)) => self.finish_container()?,
                 _ => panic!("not inside a SeqSink"),
             },
         }
@@ -139,6 +153,8 @@ impl<'a> DeserializeDriver<'a> {
 
 impl<'a> Drop for DeserializeDriver<'a> {
     fn drop(&mut self) {
+        // the current sink can borrow from the sinks on the stack
+        self.current_sink = None;
         unsafe {
             while let Some(_item) = self.sink_stack.pop() {
                 // drop in inverse order
-- 
2.43.0


From 5d7bae31cb0742fbc3b7dbd70440ed80bfd60bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 05/23] fix: bind the lifetime of the sink to the
 DeserializeDriver

DeserializeDriver::from_sink allowed the driver to outlive the sink.
---
 deser/src/de/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index ef3c984..f4031ba 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -32,7 +32,7 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     /// Creates a new deserializer driver from a sink.
-    pub fn from_sink(sink: SinkHandle) -> DeserializeDriver<'a> {
+    pub fn from_sink(sink: SinkHandle<'a>) -> DeserializeDriver<'a> {
         DeserializeDriver {
             state: DeserializerState {
                 extensions: Extensions::default(),
-- 
2.43.0


From 099f87fb2533ef5a8e54a24f82e88dde9a6cb2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 06/23] fix: drop emitters and serializables of a
 SerializeDriver interleaved

When the driver was dropped early all emitters were dropped before the
serializables they handed out, even though those can borrow from them.
---
 deser/src/ser/driver.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/deser/src/ser/driver.rs b/deser/src/ser/driver.rs
index c420421..ad54ffb 100644
--- a/deser/src/ser/driver.rs
+++ b/deser/src/ser/driver.rs
@@ -59,11 +59,24 @@ enum Emitter {
 impl<'a> Drop for SerializeDriver<'a> {
     fn drop(&mut self) {
         self.next_event.take();
-        while let Some(_emitter) = self.emitter_stack.pop() {
-            // drop in inverse order
+        // Emitters borrow from the serializable they were created by and serializables
+        // can borrow from the emitter which handed them out.  As such they are dropped
+        // interleaved, in the inverse order of their creation.
+        while self.serializable_stack.len() > self.state_stack.len() {
+            self.serializable_stack.pop();
         }
-        while let Some(_emitter) = self.serializable_stack.pop() {
-            // drop in inverse order
+        while let Some(state) = self.state_stack.pop() {
+            match state {
+                DriverState::SeqEmitterAdvance
+                | DriverState::MapEmitterNextKey
+                | DriverState::MapEmitterNextValue
+                | DriverState::StructEmitterAdvance
+                | DriverState::PopEmitter => {
+                    self.emitter_stack.pop();
+                }
+                DriverState::Serialize | DriverState::FinishSerialize => {}
+            }
+            self.serializable_stack.pop();
         }
         unsafe {
             ManuallyDrop::drop(&mut self.serializable_stack);
-- 
2.43.0


From 5bca58b5ec5cb451923974c9c0875f2232c85fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 07/23] fix: forward finish, descriptor and is_optional through
 references, Box and Option

The finish callback of the inner value was never invoked.
---
 deser/src/ser/impls.rs | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/deser/src/ser/impls.rs b/deser/src/ser/impls.rs
index 18e6642..cb4a3e9 100644
--- a/deser/src/ser/impls.rs
+++ b/deser/src/ser/impls.rs
@@ -323,6 +323,13 @@ where
             None => Ok(Chunk::Atom(Atom::Null)),
         }
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        match self {
+            Some(value) => value.finish(state),
+            None => Ok(()),
+        }
+    }
 }
 
 macro_rules! serialize_for_tuple {
@@ -392,19 +399,55 @@ impl<T: Serialize, const N: usize> Serialize for [T; N] {
 }
 
 impl<'a, T: Serialize> Serialize for &'a T {
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(*self)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(*self)
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(*self, state)
+    }
 }
 
 impl<'a, T: Serialize> Serialize for &'a mut T {
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(*self)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(*self)
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(*self, state)
+    }
 }
 
 impl<T: Serialize> Serialize for Box<T> {
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(&**self)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(&**self)
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(&**self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(&**self, state)
+    }
 }
-- 
2.43.0


From f93db0b36bf828d56ca7ed0f668e5c11e0b52a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 08/23] fix: report trailing commas in JSON arrays as error
 instead of panicking

---
 deser-json/src/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index afc9cae..0a65716 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -142,7 +142,10 @@ impl<'a> Deserializer<'a> {
                         Token::Colon => {
                             return Err(Error::new(ErrorKind::Unexpected, "unexpected colon"));
                         }
-                        Token::SeqEnd | Token::MapEnd => unreachable!(),
+                        // only reachable after a comma
+                        Token::SeqEnd | Token::MapEnd => {
+                            return Err(Error::new(ErrorKind::Unexpected, "trailing comma"));
+                        }
                     }
                 }
             }
-- 
2.43.0


From b033a05e719be8ec60bf4a1507377c1b5e387f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 09/23] fix: reject JSON objects with a missing value

{"a":} was accepted and the key silently dropped.
---
 deser-json/src/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 0a65716..97ca597 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -67,7 +67,10 @@ impl<'a> Deserializer<'a> {
             // try to exit containers first
             match token {
                 Token::MapEnd => {
-                    if !matches!(stack.pop(), Some(ContainerState::Map { .. })) {
+                    if !matches!(
+                        stack.pop(),
+                        Some(ContainerState::Map { key_pos: true, .. })
+                    ) {
                         return Err(Error::new(ErrorKind::Unexpected, "unexpected end of map"));
                     }
                     driver.emit(Event::MapEnd)?;
-- 
2.43.0


From 1726e55d708ddb1c61a8647445635e6a6ef0aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 10/23] fix: validate UTF-8 in JSON strings

Deserializer::new accepts arbitrary bytes, so invalid UTF-8 created invalid
strings in safe code.
---
 deser-json/src/de.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 97ca597..9d34693 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -205,10 +205,11 @@ impl<'a> Deserializer<'a> {
     }
 
     fn parse_str(&mut self) -> Result<&str, Error> {
-        fn result(bytes: &[u8]) -> &str {
-            // The input is assumed to be valid UTF-8 and the \u-escapes are
-            // checked along the way, so don't need to check here.
-            unsafe { str::from_utf8_unchecked(bytes) }
+        fn result(bytes: &[u8]) -> Result<&str, Error> {
+            // The input can come from arbitrary bytes so it's not guaranteed to
+            // be valid UTF-8.
+            str::from_utf8(bytes)
+                .map_err(|_| Error::new(ErrorKind::Unexpected, "invalid utf-8 in string"))
         }
 
         // Index of the first byte not yet copied into the scratch space.
@@ -232,11 +233,11 @@ impl<'a> Deserializer<'a> {
                         // copying.
                         let borrowed = &self.input[start..self.pos];
                         self.pos += 1;
-                        return Ok(result(borrowed));
+                        return result(borrowed);
                     } else {
                         self.buffer.extend_from_slice(&self.input[start..self.pos]);
                         self.pos += 1;
-                        return Ok(result(&self.buffer));
+                        return result(&self.buffer);
                     }
                 }
                 b'\\' => {
-- 
2.43.0


From 9004237f9c21ef33c0ec150e766ebbfcc47069ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 11/23] fix: do not overflow on JSON numbers with very small
 exponents

---
 deser-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 9d34693..f084895 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -616,7 +616,7 @@ impl<'a> Deserializer<'a> {
 fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Result<f64, Error> {
     let mut f = significand as f64;
     loop {
-        match POW10.get(exponent.abs() as usize) {
+        match POW10.get(exponent.unsigned_abs() as usize) {
             Some(&pow) => {
                 if exponent >= 0 {
                     f *= pow;
-- 
2.43.0


From 7d1c7b78fe1ea595e54ae364609c113485625963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 12/23] fix: accept the largest finite floats in JSON

f64::MAX was serialized fine but rejected as infinite when read back.
---
 deser-json/src/de.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index f084895..778625b 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -621,6 +621,14 @@ fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Res
                 if exponent >= 0 {
                     f *= pow;
                     if f.is_infinite() {
+                        // The rounding errors of the steps above can push values close
+                        // to the largest float over the edge.
+                        if let Ok(exact) = format!("{}e{}", significand, exponent).parse::<f64>() {
+                            if exact.is_finite() {
+                                f = exact;
+                                break;
+                            }
+                        }
                         return Err(Error::new(ErrorKind::OutOfRange, "infinite float"));
                     }
                 } else {
-- 
2.43.0


From 834d3a85e7993e744f16ea06524950f3a96e1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 13/23] fix: serialize chars to JSON as strings holding the
 character

They were written as the decimal code point, which can't be read back.
---
 deser-json/src/ser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deser-json/src/ser.rs b/deser-json/src/ser.rs
index a5786de..0352fe5 100644
--- a/deser-json/src/ser.rs
+++ b/deser-json/src/ser.rs
@@ -77,7 +77,7 @@ impl Serializer {
                     match event {
                         Event::Atom(Atom::Str(val)) => self.write_escaped_str(&val),
                         Event::Atom(Atom::Char(c)) => {
-                            self.write_escaped_str(&(c as u32).to_string())
+                            self.write_escaped_str(c.encode_utf8(&mut [0; 4]))
                         }
                         _ => unsupported!("JSON does not support this value for map keys"),
                     }
@@ -93,7 +93,7 @@ impl Serializer {
                     Atom::Bool(false) => self.write_str("false"),
                     Atom::Str(val) => self.write_escaped_str(&val),
                     Atom::Bytes(_val) => unsupported!("JSON doesn't support bytes"),
-                    Atom::Char(c) => self.write_escaped_str(&(c as u32).to_string()),
+                    Atom::Char(c) => self.write_escaped_str(c.encode_utf8(&mut [0; 4])),
                     Atom::U64(val) => {
                         #[cfg(feature = "speedups")]
                         {
-- 
2.43.0


From 41a87e60ebdb201487e7988914eabe825ce846ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 14/23] fix: do not loop forever when formatting into a failing
 writer

---
 deser-debug/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/deser-debug/src/lib.rs b/deser-debug/src/lib.rs
index 648211d..7d6a567 100644
--- a/deser-debug/src/lib.rs
+++ b/deser-debug/src/lib.rs
@@ -88,7 +88,12 @@ fn dump<'a, 'f>(
                         map.value(&inner);
                     }
                     is_key = !is_key;
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    let consumed = inner.1.load(atomic::Ordering::Relaxed);
+                    if consumed == 0 {
+                        // the writer failed
+                        return Err(fmt::Error);
+                    }
+                    rest = &rest[consumed..];
                 }
                 map.finish()?;
             }
@@ -107,7 +112,12 @@ fn dump<'a, 'f>(
                     }
                     let inner = Helper(rest, AtomicUsize::default());
                     list.entry(&inner);
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    let consumed = inner.1.load(atomic::Ordering::Relaxed);
+                    if consumed == 0 {
+                        // the writer failed
+                        return Err(fmt::Error);
+                    }
+                    rest = &rest[consumed..];
                 }
                 list.finish()?;
             }
-- 
2.43.0


From 6b1d09b3a34fb54ca7c8855bbb2d3d336534ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:16 +0000
Subject: [PATCH 15/23] fix: forward descriptor and is_optional through path
 tracking serializables

---
 deser-path/src/ser.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/ser.rs b/deser-path/src/ser.rs
index 708ce8b..4a5db22 100644
--- a/deser-path/src/ser.rs
+++ b/deser-path/src/ser.rs
@@ -5,7 +5,7 @@ use std::rc::Rc;
 use deser::ser::{
     Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
 };
-use deser::{Atom, Error};
+use deser::{Atom, Descriptor, Error};
 
 use crate::{Path, PathSegment};
 
@@ -27,6 +27,14 @@ impl<'a> PathSerializable<'a> {
 }
 
 impl<'a> Serialize for PathSerializable<'a> {
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         match self.serializable.serialize(state)? {
             Chunk::Struct(emitter) => Ok(Chunk::Struct(Box::new(PathStructEmitter { emitter }))),
@@ -125,6 +133,14 @@ struct SegmentPushingSerializable<'a> {
 }
 
 impl<'a> Serialize for SegmentPushingSerializable<'a> {
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         {
             let mut path = state.get_mut::<Path>();
@@ -155,6 +171,14 @@ struct SegmentCollectingSerializable<'a> {
 }
 
 impl<'a> Serialize for SegmentCollectingSerializable<'a> {
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         match self.serializable.serialize(state)? {
             Chunk::Atom(Atom::Str(key)) => {
-- 
2.43.0


From cc77dcd23fdd98ca07f083e1755d017b1dea9d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 16/23] fix: keep the path correct after leaving a container

PathSink never removed the segment of a finished map or sequence, so every path
after the first nested container was wrong.  Values with keys that can't be
represented now have an unknown segment instead of the one of the previous
value.
---
 deser-path/src/de.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 9023b9b..2da7fd4 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -7,9 +7,11 @@ use deser::{Atom, Descriptor, Error};
 
 use crate::{Path, PathSegment};
 
+type KeyCapture = Rc<RefCell<Option<PathSegment>>>;
+
 enum Container {
     None,
-    Map(Rc<RefCell<Option<PathSegment>>>),
+    Map(KeyCapture),
     Seq(usize),
 }
 
@@ -17,6 +19,8 @@ enum Container {
 pub struct PathSink<'a> {
     sink: SinkHandle<'a>,
     container: Container,
+    // if this sink receives a map key, the key is also placed here.
+    key_capture: Option<KeyCapture>,
     set_segment: Option<PathSegment>,
 }
 
@@ -31,6 +35,7 @@ impl<'a> PathSink<'a> {
         PathSink {
             sink,
             container: Container::None,
+            key_capture: None,
             set_segment: None,
         }
     }
@@ -45,11 +50,11 @@ impl<'a> PathSink<'a> {
 impl<'a> Sink for PathSink<'a> {
     fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
-        if let Container::Map(ref capture) = self.container {
+        if let Some(ref capture) = self.key_capture {
             *capture.borrow_mut() = match atom {
                 Atom::Str(ref value) => Some(PathSegment::Key(value.to_string())),
                 Atom::U64(value) => Some(PathSegment::Index(value as usize)),
-                Atom::I64(value) => Some(PathSegment::Index(value as usize)),
+                Atom::I64(value) if value >= 0 => Some(PathSegment::Index(value as usize)),
                 _ => None,
             };
         }
@@ -71,13 +76,19 @@ impl<'a> Sink for PathSink<'a> {
     }
 
     fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
+        let key_capture = match self.container {
+            Container::Map(ref capture) => capture.clone(),
+            _ => unreachable!(),
+        };
+        // the segment of the previous value does not apply any more
+        if let Some(segment) = state.get_mut::<Path>().segments.last_mut() {
+            *segment = PathSegment::Unknown;
+        }
         self.sink.next_key(state).map(|sink| {
             SinkHandle::boxed(PathSink {
                 sink,
-                container: match self.container {
-                    Container::Map(ref capture) => Container::Map(capture.clone()),
-                    _ => unreachable!(),
-                },
+                container: Container::None,
+                key_capture: Some(key_capture),
                 set_segment: None,
             })
         })
@@ -86,7 +97,12 @@ impl<'a> Sink for PathSink<'a> {
     fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
         let set_segment = match self.container {
             Container::None => None,
-            Container::Map(ref captured_key) => captured_key.borrow_mut().take(),
+            Container::Map(ref captured_key) => Some(
+                captured_key
+                    .borrow_mut()
+                    .take()
+                    .unwrap_or(PathSegment::Unknown),
+            ),
             Container::Seq(ref mut index) => {
                 let old_index = *index;
                 *index += 1;
@@ -97,12 +113,17 @@ impl<'a> Sink for PathSink<'a> {
             SinkHandle::boxed(PathSink {
                 sink,
                 container: Container::None,
+                key_capture: None,
                 set_segment,
             })
         })
     }
 
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        // leave the container that was entered in `map` or `seq`
+        if !matches!(self.container, Container::None) {
+            state.get_mut::<Path>().segments.pop();
+        }
         self.sink.finish(state)
     }
 
-- 
2.43.0


From fa040d1a197fb4961cd40ae892cbb263efce11cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 17/23] fix: fill missing optional fields from the container
 default

---
 deser-derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 13784ad..d1edba1 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -70,7 +70,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 quote! {
                     ::deser::de::OwnedSink::deserialize()
                 }
-            } else if f.default().is_some() {
+            } else if f.default().is_some() || container_attrs.default().is_some() {
                 quote! {
                     ::deser::__derive::None
                 }
-- 
2.43.0


From f57caf8852b20f0dcfd4cca8d09c4d3943dfd3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 18/23] fix: drop the sink of an owned sink when its value is
 taken

---
 deser/src/de/owned.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deser/src/de/owned.rs b/deser/src/de/owned.rs
index 1667cdf..cc97efc 100644
--- a/deser/src/de/owned.rs
+++ b/deser/src/de/owned.rs
@@ -122,7 +122,12 @@ impl<T: Deserialize> OwnedSink<T> {
     }
 
     /// Takes the value produced by the sink.
+    ///
+    /// This ends the deserialization: everything emitted into the sink after this
+    /// call is ignored.
     pub fn take(&mut self) -> Option<T> {
+        // The sink can point into the value which is about to be moved out.
+        *self.sink = SinkHandle::null();
         self.storage.take()
     }
 }
-- 
2.43.0


From 1c7500d01e2f7a03a869ed5bd8036bc154846203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 19/23] fix: bound type parameters by Deserialize when deriving
 Deserialize

---
 deser-derive/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index d1edba1..f53b828 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -122,7 +122,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     let field_stage1_default = attrs
@@ -462,7 +462,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     Ok(quote! {
-- 
2.43.0


From 3e128ba7c69b7993a4ab83161bcd1c23a15e0bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 20/23] fix: derive Deserialize for newtypes with type
 parameters

---
 deser-derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index f53b828..efb8577 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -470,7 +470,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                sink: ::deser::de::OwnedSink<#field_type #ty_generics>,
+                sink: ::deser::de::OwnedSink<#field_type>,
             }
 
             #[automatically_derived]
-- 
2.43.0


From 0cb2b058fa374879917cd8f4b0f579125a6e95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 21/23] fix: support container defaults on types with type
 parameters

---
 deser-derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index efb8577..f81e310 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -200,7 +200,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 need_container_default.into_iter().unzip();
             let type_default = match container_attrs.default().unwrap() {
                 TypeDefault::Implicit => quote! {
-                    <#ident as ::deser::__derive::Default>::default()
+                    <#ident #ty_generics as ::deser::__derive::Default>::default()
                 },
                 TypeDefault::Explicit(path) => quote! { #path() },
             };
-- 
2.43.0


From b345b2b1065d983a622e4a346f51fdd827208b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 22/23] fix: derive for raw identifiers

---
 deser-derive/src/attr.rs | 8 +++++---
 deser-derive/src/de.rs   | 9 +++++----
 deser-derive/src/ser.rs  | 7 ++++---
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index eeb20f0..f314bc6 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -1,5 +1,7 @@
 use std::borrow::Cow;
 
+use syn::ext::IdentExt;
+
 #[derive(Copy, Clone)]
 #[allow(clippy::enum_variant_names)]
 pub enum RenameAll {
@@ -165,12 +167,12 @@ impl<'a> ContainerAttrs<'a> {
     pub fn container_name(&self) -> String {
         match self.rename {
             Some(ref name) => name.clone(),
-            None => self.ident.to_string(),
+            None => self.ident.unraw().to_string(),
         }
     }
 
     pub fn get_field_name(&self, field: &syn::Field) -> String {
-        let name = field.ident.as_ref().unwrap().to_string();
+        let name = field.ident.as_ref().unwrap().unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::LowerCase | RenameAll::SnakeCase => name,
@@ -222,7 +224,7 @@ impl<'a> ContainerAttrs<'a> {
     }
 
     pub fn get_variant_name(&self, variant: &syn::Variant) -> String {
-        let name = variant.ident.to_string();
+        let name = variant.ident.unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::PascalCase => name,
diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index f81e310..f026ab5 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{
     ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs, TypeDefault,
@@ -27,7 +28,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -43,7 +44,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         .iter()
         .map(|x| {
             syn::Ident::new(
-                &format!("field_{}", x.field().ident.as_ref().unwrap()),
+                &format!("field_{}", x.field().ident.as_ref().unwrap().unraw()),
                 Span::call_site(),
             )
         })
@@ -337,7 +338,7 @@ pub fn derive_enum(
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -447,7 +448,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 79206d8..455eeb0 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs};
 use crate::bound::{where_clause_with_bound, with_lifetime_bound};
@@ -23,7 +24,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -210,7 +211,7 @@ fn derive_enum(input: &syn::DeriveInput, enumeration: &syn::DataEnum) -> syn::Re
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -261,7 +262,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, _) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
-- 
2.43.0


From 8b610f31a58c0eef7db68c00011d779839dfc27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 23/23] fix: drop serializables without a state before going on
 after a panic

If growing one of the stacks of the SerializeDriver panicked, a serializable
was left without a state.  Going on with the driver then let the stacks get out
of step, and dropping it released values before the emitters borrowing from
them.
---
 deser/src/ser/driver.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/deser/src/ser/driver.rs b/deser/src/ser/driver.rs
index ad54ffb..4a10478 100644
--- a/deser/src/ser/driver.rs
+++ b/deser/src/ser/driver.rs
@@ -62,9 +62,7 @@ impl<'a> Drop for SerializeDriver<'a> {
         // Emitters borrow from the serializable they were created by and serializables
         // can borrow from the emitter which handed them out.  As such they are dropped
         // interleaved, in the inverse order of their creation.
-        while self.serializable_stack.len() > self.state_stack.len() {
-            self.serializable_stack.pop();
-        }
+        self.drop_unscheduled();
         while let Some(state) = self.state_stack.pop() {
             match state {
                 DriverState::SeqEmitterAdvance
@@ -131,7 +129,19 @@ impl<'a> SerializeDriver<'a> {
             .map(|(event, descriptor)| (event, descriptor, &self.state)))
     }
 
+    /// Drops the serializables that were handed out but for which no state was pushed.
+    ///
+    /// This only happens if there was a panic between the two, for instance because
+    /// growing the stack failed.
+    fn drop_unscheduled(&mut self) {
+        while self.serializable_stack.len() > self.state_stack.len() {
+            self.serializable_stack.pop();
+        }
+    }
+
     fn advance(&mut self) -> Result<(), Error> {
+        self.drop_unscheduled();
+
         macro_rules! top_emitter {
             ($ty:ident) => {
                 match self.emitter_stack.last_mut() {
-- 
2.43.0

