From e82113a13f793fd0b8198dbf447bf1d36c53f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 01/12] fix: Context::collect adds n, not 1, to the running
 total

The documentation says the running count plus `n` is checked and stored.
---
 src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6cee4ac..6a6f4fa 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -327,7 +327,7 @@ impl<'a> Context<'a> {
         if self.config.max_collect - self.stats.collected.get() < n {
             Err(Error::MaxCollectExceeded(self.to_string()))
         } else {
-            self.stats.collected.set(self.stats.collected.get() + 1);
+            self.stats.collected.set(self.stats.collected.get() + n);
             Ok(())
         }
     }
-- 
2.43.0


From 167faad4396b8535a88234b5bed6f02b84ffa76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 02/12] fix: duplicate retrofitted field reports
 FieldOccursTooManyTimes

It was reported as FieldOccursTooFewTimes.
---
 src/sugar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sugar.rs b/src/sugar.rs
index 2521a05..a5d3e7e 100644
--- a/src/sugar.rs
+++ b/src/sugar.rs
@@ -531,7 +531,7 @@ macro_rules! fourleaf_retrofit {
                              field: &mut $crate::stream::Field<R>)
                              -> $crate::de::Result<()> {
             if accum.is_some() {
-                return Err($crate::de::Error::FieldOccursTooFewTimes(
+                return Err($crate::de::Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }
 
-- 
2.43.0


From 41e19d8bedd46f142295354cc3ab1101a36f543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 03/12] fix: seeking a blob by i64::MIN no longer overflows

Negating the offset panicked in builds with overflow checks.
---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 4aa2031..bbd3f95 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1320,13 +1320,13 @@ impl<'d, R : Seek + 'd> Seek for Blob<'d, R> {
             },
             io::SeekFrom::End(off) => {
                 check!(off <= 0);
-                let off = (-off) as u64;
+                let off = off.wrapping_neg() as u64;
                 check!(off <= self.len);
                 self.start_pos() + (self.len - off)
             },
             io::SeekFrom::Current(off) => {
                 if off < 0 {
-                    let off = (-off) as u64;
+                    let off = off.wrapping_neg() as u64;
                     check!(off <= self.inner_pos());
                     self.stream_pos() - off
                 } else {
-- 
2.43.0


From 9bd2a4ace72c0688ae6eb5636df38fd9b7302b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 04/12] fix: Blob::read_fully reports truncated blobs

It returned the shortened content as if it were the whole blob.
---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index bbd3f95..f125bf6 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1164,6 +1164,9 @@ impl<'d, R : 'd> Blob<'d, R> {
 
         let mut ret = Vec::new();
         self.read_to_end(&mut ret)?;
+        if self.remaining() > 0 {
+            return Err(Error::TruncatedBlob(self.remaining()));
+        }
         Ok(ret)
     }
 
-- 
2.43.0


From b727547b4cebc60c6cd91851d3b8a564040a4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 05/12] fix: skipping a blob by seeking detects truncated input

Seeking past the end of the input succeeds for most seekable readers, so a
truncated final blob went unnoticed, in particular with graceful EOF.
---
 src/stream.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f125bf6..d2af39f 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -743,11 +743,13 @@ impl<R> Stream<R> {
     where R : Read {
         if self.blob_end > self.pos {
             let n = self.blob_end - self.pos;
-            let skipped = if let Some(seek) = self.seek {
-                self.skip_by_seek(n, seek.0)
-            } else {
-                self.skip_by_discard(n)
-            }?;
+            // Seeking can silently move past the end of the input, so always
+            // read the last byte to be sure that the blob is really there.
+            let mut skipped = 0;
+            if let (Some(seek), true) = (self.seek, n > 1) {
+                skipped = self.skip_by_seek(n - 1, seek.0)?;
+            }
+            skipped += self.skip_by_discard(n - skipped)?;
             if skipped < n {
                 return Err(Error::TruncatedBlob(n - skipped));
             }
-- 
2.43.0


From e74d289ea288a46e3301e6fcfd90683336c5b990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 06/12] fix: slicing a cursor positioned past its end yields
 nothing

It panicked, e.g. on taking a slice of a truncated blob after seeking to
the nominal end of the blob.
---
 src/io.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index b2e0387..23e7799 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,6 +9,7 @@
 
 //! Specialised adapters for doing IO.
 
+use std::cmp::min;
 use std::io::{self, BufRead, Read, Seek, Write};
 
 /// A simple wrapper around `io::Cursor` which exposes `AsRef<[u8]>` and
@@ -56,16 +57,18 @@ impl<T : AsRef<[u8]>> Seek for TransparentCursor<T> {
 impl<T : AsRef<[u8]>> AsRef<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_ref(&self) -> &[u8] {
-        let pos = self.0.position() as usize;
-        &self.0.get_ref().as_ref()[pos..]
+        let buf = self.0.get_ref().as_ref();
+        &buf[min(self.0.position(), buf.len() as u64) as usize..]
     }
 }
 
 impl<T : AsMut<[u8]>> AsMut<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_mut(&mut self) -> &mut [u8] {
-        let pos = self.0.position() as usize;
-        &mut self.0.get_mut().as_mut()[pos..]
+        let pos = self.0.position();
+        let buf = self.0.get_mut().as_mut();
+        let pos = min(pos, buf.len() as u64) as usize;
+        &mut buf[pos..]
     }
 }
 
@@ -84,7 +87,7 @@ impl<'a> AsExtBytes<'a> for &'a [u8] {
 impl<'a> AsExtBytes<'a> for io::Cursor<&'a [u8]> {
     fn as_ext_bytes(&mut self) -> &'a [u8] {
         let buf: &'a [u8] = *self.get_ref();
-        &buf[(self.position() as usize)..]
+        &buf[min(self.position(), buf.len() as u64) as usize..]
     }
 }
 
-- 
2.43.0


From 11fcc64105c6aa7085edda6a06a9cef455b26f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 07/12] fix: refuse invalid tags in release builds too

The write methods document a panic, but without debug assertions invalid
tags were silently written as other descriptors.
---
 src/wire.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wire.rs b/src/wire.rs
index 39cee78..02971ea 100644
--- a/src/wire.rs
+++ b/src/wire.rs
@@ -107,7 +107,7 @@ impl From<ParsedDescriptor> for Descriptor {
     fn from(d: ParsedDescriptor) -> Self {
         Descriptor(match d {
             ParsedDescriptor::Pair(ty, tag) => {
-                debug_assert!(tag >= 1 && tag <= 63);
+                assert!(tag >= 1 && tag <= 63);
                 tag | (ty as u8)
             },
             ParsedDescriptor::Special(ty) => ty as u8
-- 
2.43.0


From d43fe8cddd11d79d04bd7232ca7009068e0d4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 08/12] fix: starting a dynamic blob near the maximum position
 is an error

Computing the nominal length underflowed.
---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index d2af39f..cded5d3 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -900,6 +900,9 @@ impl<R> Stream<R> {
     fn write_desc_with_blob_dynamic(&mut self, desc: wire::ParsedDescriptor)
                                     -> Result<Blob<R>>
     where R : Write + Seek {
+        self.commit()?;
+        // 10 bytes length + 1 byte tag
+        self.check_advance_pos(11)?;
         self.write_desc(desc)?;
         let len = u64::MAX - self.pos - 10;
         wire::encode_fixed_u64(&mut self.track(false), len)?;
-- 
2.43.0


From 6ad4dcbba711247b4882446a8feb52d63bfaebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 09/12] fix: skip_up terminates at end of document

If the struct depth was set by the caller after the EOF flag had been set,
skip_up() never returned, since the end of the document did not reset it.
---
 src/stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream.rs b/src/stream.rs
index cded5d3..fbed203 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -660,6 +660,7 @@ impl<R> Stream<R> {
                          -> Result<Element<R>>
     where R : Read {
         if self.eof {
+            self.struct_depth = 0;
             return Ok(Element::EndOfDoc);
         }
 
-- 
2.43.0


From a3c968d4d27db1b85a546983c14b67db5940152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 10/12] fix: `()` as a struct body can be read back with
 unknown fields refused

Serialising `()` at top level or as a delegated body (e.g. in `Result`)
produces a field with tag 1, which its own deserialiser rejected unless
unknown fields were ignored.
---
 src/de.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6a6f4fa..a1bda51 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1377,7 +1377,55 @@ macro_rules! des_tuple {
     } }
 }
 
-des_tuple!();
+impl<R : Read, STYLE> Deserialize<R, STYLE> for () {
+    type Accum = Option<Self>;
+
+    fn deserialize_body(context: &Context, stream: &mut stream::Stream<R>)
+                        -> Result<Self> {
+        // `Serialize::serialize_body` wraps `()` in a field of tag 1, so that
+        // field is not unknown.
+        while let Some(mut field) = stream.next_field().context(context)? {
+            if 1 == field.tag && !context.config.ignore_unknown_fields {
+                let subcontext = context.push("top", field.pos)?;
+                <() as Deserialize<R, STYLE>>::deserialize_element(
+                    &subcontext, &mut field)?;
+            } else {
+                context.unknown_field(&field)?;
+                field.skip().context(context)?;
+            }
+        }
+
+        Ok(())
+    }
+
+    fn deserialize_field(accum: &mut Option<Self>, context: &Context,
+                         field: &mut stream::Field<R>) -> Result<()> {
+        if accum.is_some() {
+            return Err(Error::FieldOccursTooManyTimes(
+                context.to_string(), 1));
+        }
+
+        *accum = Some(<() as Deserialize<R, STYLE>>::deserialize_element(
+            context, field)?);
+        Ok(())
+    }
+
+    fn deserialize_element(context: &Context, field: &mut stream::Field<R>)
+                           -> Result<Self> {
+        let stream = field.value.to_struct().context(context)?;
+        while let Some(field) = stream.next_field().context(context)? {
+            context.unknown_field(&field)?;
+            field.skip().context(context)?;
+        }
+
+        Ok(())
+    }
+
+    fn finish(accum: Option<Self>, context: &Context) -> Result<Self> {
+        accum.ok_or_else(|| Error::RequiredFieldMissing(context.to_string()))
+    }
+}
+
 des_tuple!(1: field_0: F0);
 des_tuple!(1: field_0: F0, 2: field_1: F1);
 des_tuple!(1: field_0: F0, 2: field_1: F1, 3: field_2: F2);
-- 
2.43.0


From 745ae0da9ea2213cd9edaa4aab39ecce53fcd720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 11/12] fix: deserialising a char no longer allocates on
 success

---
 src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index a1bda51..8882f78 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1040,7 +1040,7 @@ des_direct!(isize, to_isize);
 des_unary! {
     (impl<R : Read, STYLE> Deserialize<R, STYLE> for char);
     |context, field| (char::from_u32(field.value.to_u32().context(context)?)
-                      .ok_or(Error::InvalidValueMsg(
+                      .ok_or_else(|| Error::InvalidValueMsg(
                           context.to_string(),
                           "char not in valid range"))?)
 }
-- 
2.43.0


From dead8c23e2010f1acfccefde0eaf4b97295ad4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 12/12] fix: Blob::fill_buf works close to the maximum position

---
 src/stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index fbed203..e64f0ac 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1290,7 +1290,9 @@ impl<'d, R : Read + 'd> Read for Blob<'d, R> {
 impl<'d, R : BufRead + 'd> BufRead for Blob<'d, R> {
     fn fill_buf(&mut self) -> io::Result<&[u8]> {
         let avail = min(usize::MAX as u64, self.remaining()) as usize;
-        let ret = self.stream.fill_buf_nb()?;
+        // Only the bytes of the blob get consumed; whatever else is buffered
+        // doesn't need to be addressable.
+        let ret = self.stream.inner.fill_buf()?;
         Ok(&ret[..min(avail, ret.len())])
     }
     fn consume(&mut self, amt: usize) {
-- 
2.43.0

