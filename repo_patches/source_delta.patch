From 077f12b3e0042a1e88571265dba64bedfc569022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 01/10] fix: count every collected element against max_collect

`Context::collect(n)` checked the budget for `n` elements but only charged
one.
---
 src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6cee4ac..6a6f4fa 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -327,7 +327,7 @@ impl<'a> Context<'a> {
         if self.config.max_collect - self.stats.collected.get() < n {
             Err(Error::MaxCollectExceeded(self.to_string()))
         } else {
-            self.stats.collected.set(self.stats.collected.get() + 1);
+            self.stats.collected.set(self.stats.collected.get() + n);
             Ok(())
         }
     }
-- 
2.43.0


From d4d41d3448bb2e77909e850f5fed19945625dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 02/10] fix: report duplicated retrofit fields as occurring too
 many times

The code generated by `fourleaf_retrofit!` returned
`FieldOccursTooFewTimes` for the second occurrence of a field.
---
 src/sugar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sugar.rs b/src/sugar.rs
index 2521a05..a5d3e7e 100644
--- a/src/sugar.rs
+++ b/src/sugar.rs
@@ -531,7 +531,7 @@ macro_rules! fourleaf_retrofit {
                              field: &mut $crate::stream::Field<R>)
                              -> $crate::de::Result<()> {
             if accum.is_some() {
-                return Err($crate::de::Error::FieldOccursTooFewTimes(
+                return Err($crate::de::Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }
 
-- 
2.43.0


From 288e0f5e94c97c3483399f0309a498a3fc419314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 03/10] fix: fail read_fully() on blobs truncated by the end of
 the input

Previously whatever was left of the blob was returned as its full content.
---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 4aa2031..0fa105f 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1164,6 +1164,9 @@ impl<'d, R : 'd> Blob<'d, R> {
 
         let mut ret = Vec::new();
         self.read_to_end(&mut ret)?;
+        if self.remaining() > 0 {
+            return Err(Error::TruncatedBlob(self.remaining()));
+        }
         Ok(ret)
     }
 
-- 
2.43.0


From 5cb510f65491f8d48c952074e0576a4a5d900527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 04/10] fix: detect truncated blobs when skipping them with
 seek()

Seeking beyond the end of the input succeeds, so a stream created with
`new_seek()` or `from_slice()` accepted a document cut inside a skipped
blob when graceful EOF handling was enabled.
---
 src/stream.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 0fa105f..e93e8c7 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -744,10 +744,17 @@ impl<R> Stream<R> {
         if self.blob_end > self.pos {
             let n = self.blob_end - self.pos;
             let skipped = if let Some(seek) = self.seek {
-                self.skip_by_seek(n, seek.0)
+                // Seeking beyond the end of the input is not an error, so
+                // always read the final byte to detect truncated blobs.
+                let skipped = self.skip_by_seek(n - 1, seek.0)?;
+                if skipped < n - 1 {
+                    skipped
+                } else {
+                    skipped + self.skip_by_discard(1)?
+                }
             } else {
-                self.skip_by_discard(n)
-            }?;
+                self.skip_by_discard(n)?
+            };
             if skipped < n {
                 return Err(Error::TruncatedBlob(n - skipped));
             }
-- 
2.43.0


From 898d8d69ef66d38aea706ef3134b7759c6a28c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 05/10] fix: do not overflow on Blob::seek() by i64::MIN

---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index e93e8c7..06edd9d 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1330,13 +1330,13 @@ impl<'d, R : Seek + 'd> Seek for Blob<'d, R> {
             },
             io::SeekFrom::End(off) => {
                 check!(off <= 0);
-                let off = (-off) as u64;
+                let off = off.wrapping_neg() as u64;
                 check!(off <= self.len);
                 self.start_pos() + (self.len - off)
             },
             io::SeekFrom::Current(off) => {
                 if off < 0 {
-                    let off = (-off) as u64;
+                    let off = off.wrapping_neg() as u64;
                     check!(off <= self.inner_pos());
                     self.stream_pos() - off
                 } else {
-- 
2.43.0


From 45c628dc240e99c3cb38b8050de5e98bf5fc4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 06/10] fix: treat cursors positioned beyond their buffer as
 empty slices

Taking the remaining slice of a cursor which had been positioned beyond the
end of its buffer (e.g., by seeking in a truncated blob) panicked.
---
 src/io.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index b2e0387..4fd0612 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,8 +9,15 @@
 
 //! Specialised adapters for doing IO.
 
+use std::cmp;
 use std::io::{self, BufRead, Read, Seek, Write};
 
+/// Converts a cursor position to an index into a buffer of length `len`. The
+/// position of a cursor may be beyond the end of its buffer.
+fn clamp_pos(pos: u64, len: usize) -> usize {
+    cmp::min(pos, len as u64) as usize
+}
+
 /// A simple wrapper around `io::Cursor` which exposes `AsRef<[u8]>` and
 /// `AsMut<[u8]>` for use with `Blob::slice()` and `Blob::slice_mut()`.
 ///
@@ -56,16 +63,18 @@ impl<T : AsRef<[u8]>> Seek for TransparentCursor<T> {
 impl<T : AsRef<[u8]>> AsRef<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_ref(&self) -> &[u8] {
-        let pos = self.0.position() as usize;
-        &self.0.get_ref().as_ref()[pos..]
+        let buf = self.0.get_ref().as_ref();
+        &buf[clamp_pos(self.0.position(), buf.len())..]
     }
 }
 
 impl<T : AsMut<[u8]>> AsMut<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_mut(&mut self) -> &mut [u8] {
-        let pos = self.0.position() as usize;
-        &mut self.0.get_mut().as_mut()[pos..]
+        let pos = self.0.position();
+        let buf = self.0.get_mut().as_mut();
+        let pos = clamp_pos(pos, buf.len());
+        &mut buf[pos..]
     }
 }
 
@@ -84,7 +93,7 @@ impl<'a> AsExtBytes<'a> for &'a [u8] {
 impl<'a> AsExtBytes<'a> for io::Cursor<&'a [u8]> {
     fn as_ext_bytes(&mut self) -> &'a [u8] {
         let buf: &'a [u8] = *self.get_ref();
-        &buf[(self.position() as usize)..]
+        &buf[clamp_pos(self.position(), buf.len())..]
     }
 }
 
-- 
2.43.0


From e75e9c8e8a40327bc861184a86a13a885a926e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 07/10] fix: let () round-trip when unknown fields are rejected

`()` at top level is serialised as an empty struct in field 1, but its
deserialiser considered that field to be unknown, so it (and
`Ok::<(), E>(())`) could not be read back with `ignore_unknown_fields` off.
---
 src/de.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6a6f4fa..60e10c3 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1377,7 +1377,55 @@ macro_rules! des_tuple {
     } }
 }
 
-des_tuple!();
+impl<R : Read, STYLE> Deserialize<R, STYLE> for () {
+    type Accum = Option<()>;
+
+    fn deserialize_body(context: &Context, stream: &mut stream::Stream<R>)
+                        -> Result<()> {
+        // `()` uses the default `serialize_body`, which writes the unit as an
+        // empty struct in field 1.
+        let mut seen = false;
+        while let Some(mut field) = stream.next_field().context(context)? {
+            if !seen && 1 == field.tag && field.value.to_struct().is_ok() {
+                let subcontext = context.push("top", field.pos)?;
+                <Self as Deserialize<R, STYLE>>::deserialize_element(
+                    &subcontext, &mut field)?;
+                seen = true;
+            } else {
+                context.unknown_field(&field)?;
+                field.skip().context(context)?;
+            }
+        }
+        Ok(())
+    }
+
+    fn deserialize_field(accum: &mut Option<()>, context: &Context,
+                         field: &mut stream::Field<R>) -> Result<()> {
+        if accum.is_some() {
+            return Err(Error::FieldOccursTooManyTimes(
+                context.to_string(), 1));
+        }
+
+        *accum = Some(<Self as Deserialize<R, STYLE>>
+                      ::deserialize_element(context, field)?);
+        Ok(())
+    }
+
+    fn deserialize_element(context: &Context, field: &mut stream::Field<R>)
+                           -> Result<()> {
+        let stream = field.value.to_struct().context(context)?;
+        while let Some(field) = stream.next_field().context(context)? {
+            context.unknown_field(&field)?;
+            field.skip().context(context)?;
+        }
+        Ok(())
+    }
+
+    fn finish(accum: Option<()>, context: &Context) -> Result<()> {
+        accum.ok_or_else(|| Error::RequiredFieldMissing(
+            context.to_string()))
+    }
+}
 des_tuple!(1: field_0: F0);
 des_tuple!(1: field_0: F0, 2: field_1: F1);
 des_tuple!(1: field_0: F0, 2: field_1: F1, 3: field_2: F2);
-- 
2.43.0


From 5187f5fd08bd850ebe9d14dad6730389c8cded2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 08/10] fix: reject invalid tags in release builds too

The documentation promises a panic for invalid tags, but without debug
assertions they were silently written as a different element.
---
 src/wire.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wire.rs b/src/wire.rs
index 39cee78..02971ea 100644
--- a/src/wire.rs
+++ b/src/wire.rs
@@ -107,7 +107,7 @@ impl From<ParsedDescriptor> for Descriptor {
     fn from(d: ParsedDescriptor) -> Self {
         Descriptor(match d {
             ParsedDescriptor::Pair(ty, tag) => {
-                debug_assert!(tag >= 1 && tag <= 63);
+                assert!(tag >= 1 && tag <= 63);
                 tag | (ty as u8)
             },
             ParsedDescriptor::Special(ty) => ty as u8
-- 
2.43.0


From 47a6f57f133862e91fc298e5e4a6d29c15c28faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 09/10] fix: fail cleanly when a dynamic blob does not fit
 before u64::MAX

Computing the maximum length of the blob overflowed.
---
 src/stream.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 06edd9d..4486662 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -905,6 +905,15 @@ impl<R> Stream<R> {
     fn write_desc_with_blob_dynamic(&mut self, desc: wire::ParsedDescriptor)
                                     -> Result<Blob<R>>
     where R : Write + Seek {
+        // 10 bytes length + 1 byte tag
+        const OVERHEAD: u64 = 11;
+
+        self.commit()?;
+
+        if self.pos > u64::MAX - OVERHEAD {
+            return Err(Error::OverlongBlob);
+        }
+
         self.write_desc(desc)?;
         let len = u64::MAX - self.pos - 10;
         wire::encode_fixed_u64(&mut self.track(false), len)?;
-- 
2.43.0


From 1cb772b8d63e2d977ff347efabd7353a283d3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 10/10] fix: do not loop forever in skip_up() at the end of the
 document

If the struct depth had been set after the end of the document was reached,
`skip_up()` kept getting `EndOfDoc` without the depth ever decreasing.
---
 src/stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream.rs b/src/stream.rs
index 4486662..b7b3a2f 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -660,6 +660,7 @@ impl<R> Stream<R> {
                          -> Result<Element<R>>
     where R : Read {
         if self.eof {
+            self.struct_depth = 0;
             return Ok(Element::EndOfDoc);
         }
 
-- 
2.43.0

