From 570405741465840b53b314d2e80c950a621455ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 1/4] fix: skip integer keys of maps and sets by the width of
 the key type

The key tags are zero-sized, so that skipping a multi-byte varint key only
skipped a single byte.
---
 core/src/tags/key_impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/tags/key_impl.rs b/core/src/tags/key_impl.rs
index 8bafc8d..db605be 100644
--- a/core/src/tags/key_impl.rs
+++ b/core/src/tags/key_impl.rs
@@ -132,7 +132,7 @@ impl KeyTagImpl for U16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u16>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -162,7 +162,7 @@ impl KeyTagImpl for I16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i16>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -192,7 +192,7 @@ impl KeyTagImpl for U32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u32>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -222,7 +222,7 @@ impl KeyTagImpl for I32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i32>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -252,7 +252,7 @@ impl KeyTagImpl for U64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u64>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -282,7 +282,7 @@ impl KeyTagImpl for I64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i64>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
-- 
2.43.0


From 19796398a594474183a01cd2e7537e14827a5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 2/4] fix: count a new channel even if its creator is already
 gone

The channel is removed again together with its connection, which decrements
the number of channels.
---
 broker/src/broker.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index aeaaf01..416d05f 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -1045,6 +1045,11 @@ impl Broker {
 
         self.channels.insert(cookie, channel);
 
+        #[cfg(feature = "statistics")]
+        {
+            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
+        }
+
         send!(
             self,
             conn,
@@ -1054,11 +1059,6 @@ impl Broker {
             },
         )?;
 
-        #[cfg(feature = "statistics")]
-        {
-            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
-        }
-
         Ok(())
     }
 
-- 
2.43.0


From 09d892ffc3759dcee3b3616eedd24847dd51e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 3/4] fix: always offer spare capacity in the packetizer

---
 core/src/message/packetizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/message/packetizer.rs b/core/src/message/packetizer.rs
index 7a1fce3..6af7a68 100644
--- a/core/src/message/packetizer.rs
+++ b/core/src/message/packetizer.rs
@@ -36,7 +36,11 @@ impl Packetizer {
                     (len - self.buf.len()).clamp(MIN_RESERVE_CAPACITY, MAX_RESERVE_CAPACITY);
                 self.buf.reserve(reserve);
             }
-        } else if self.buf.capacity() == self.buf.len() {
+        }
+
+        // The buffer can be full even if it's large enough for the current message, namely when it
+        // already holds more than that.
+        if self.buf.capacity() == self.buf.len() {
             self.buf.reserve(MIN_RESERVE_CAPACITY);
         }
 
-- 
2.43.0


From 0be964d7a2a2e739ac29a90a795c2909ee4ff201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 4/4] fix: decode an unknown variant as a value with its own id

---
 core/src/unknown_variant.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/unknown_variant.rs b/core/src/unknown_variant.rs
index b478006..e946311 100644
--- a/core/src/unknown_variant.rs
+++ b/core/src/unknown_variant.rs
@@ -47,7 +47,9 @@ impl UnknownVariant {
     }
 
     pub fn deserialize_as_value(&self) -> Result<Enum, DeserializeError> {
-        self.deserialize()
+        self.value
+            .deserialize_as_value()
+            .map(|value| Enum::new(self.id, value))
     }
 }
 
-- 
2.43.0

