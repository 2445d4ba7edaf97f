From 832ad578f54e424c64cc1a2cfdb344b4e29d749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:16 +0000
Subject: [PATCH 1/5] fix: include the protocol error key in the dispatcher's
 key length calculation

A reply or outgoing topic whose key folds to the same short key as ERROR_KEY
was not counted as a collision, so at the chosen length clients could not tell
that message from a protocol error.
---
 source/postcard-rpc/src/server/dispatch_macro.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/postcard-rpc/src/server/dispatch_macro.rs b/source/postcard-rpc/src/server/dispatch_macro.rs
index 323210f..102b535 100644
--- a/source/postcard-rpc/src/server/dispatch_macro.rs
+++ b/source/postcard-rpc/src/server/dispatch_macro.rs
@@ -352,6 +352,9 @@ macro_rules! define_dispatch {
             pub const NEEDED_SZ_OUT: usize = $crate::server::min_key_needed(&[
                 &EP_OUT_KEYS,
                 &TP_OUT_KEYS,
+                // Protocol errors are also sent to the client, so no reply or
+                // topic may be mistaken for one
+                &[$crate::standard_icd::ERROR_KEY],
             ]);
             pub const NEEDED_SZ: usize = const {
                 assert!(
-- 
2.43.0


From 6b8244e7f73e4c482afede207a08a15ac54d463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:38 +0000
Subject: [PATCH 2/5] fix: collect the types nested inside an enum's newtype
 variants

---
 source/postcard-rpc/src/uniques.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/postcard-rpc/src/uniques.rs b/source/postcard-rpc/src/uniques.rs
index 250e459..91a7e3a 100644
--- a/source/postcard-rpc/src/uniques.rs
+++ b/source/postcard-rpc/src/uniques.rs
@@ -549,17 +549,25 @@ const fn type_chewer_dmt<const MAX: usize>(
                 match nvars[i].ty {
                     DataModelVariant::UnitVariant => {}
                     DataModelVariant::NewtypeVariant(nt) => {
-                        let mut k = 0;
-                        let mut found = is_prim(nt.ty);
-                        // Check against all currently known tys
-                        while !found && k < outidx {
-                            let Some(kty) = out[k] else { panic!() };
-                            found |= nty_eq(kty, nt);
-                            k += 1;
-                        }
-                        if !found {
-                            out[outidx] = Some(nt);
-                            outidx += 1;
+                        // Get the types used by this variant
+                        let (arr, used) = type_chewer_nty::<MAX>(nt);
+                        let mut j = 0;
+                        // For each type in this variant...
+                        while j < used {
+                            let Some(ty) = arr[j] else { panic!() };
+                            let mut k = 0;
+                            let mut found = is_prim(ty.ty);
+                            // Check against all currently known tys
+                            while !found && k < outidx {
+                                let Some(kty) = out[k] else { panic!() };
+                                found |= nty_eq(kty, ty);
+                                k += 1;
+                            }
+                            if !found {
+                                out[outidx] = Some(ty);
+                                outidx += 1;
+                            }
+                            j += 1;
                         }
                     }
                     DataModelVariant::TupleVariant(nts) => {
-- 
2.43.0


From 1ed90cde545706cd1716070481a14ebfd90aafc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:35 +0000
Subject: [PATCH 3/5] fix: accept a USB frame that exactly fills the device's
 receive buffer

---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 9 ++++++---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 261c61e..9d6515e 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -564,11 +564,14 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
             }
         }
 
-        // If we got here, we've run out of space. That's disappointing. Accumulate to the
-        // end of this packet
+        // If we got here, we've run out of space. If the next packet is empty, it only
+        // terminates a frame that exactly filled the buffer. Otherwise, that's disappointing:
+        // accumulate to the end of this packet
+        let mut exact_fit = true;
         loop {
             match self.ep_out.read(buf).await {
-                Ok(64) => {}
+                Ok(64) => exact_fit = false,
+                Ok(0) if exact_fit => return Ok(buf),
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 431e5ba..5f26ee9 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -612,11 +612,14 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
             }
         }
 
-        // If we got here, we've run out of space. That's disappointing. Accumulate to the
-        // end of this packet
+        // If we got here, we've run out of space. If the next packet is empty, it only
+        // terminates a frame that exactly filled the buffer. Otherwise, that's disappointing:
+        // accumulate to the end of this packet
+        let mut exact_fit = true;
         loop {
             match self.ep_out.read(buf).await {
-                Ok(64) => {}
+                Ok(64) => exact_fit = false,
+                Ok(0) if exact_fit => return Ok(buf),
                 Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                 Err(EndpointError::BufferOverflow) => {
                     return Err(WireRxErrorKind::ReceivedMessageTooLarge)
-- 
2.43.0


From dcbadefd0ab5e6c5ca092e1ec4066138345fac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:07 +0000
Subject: [PATCH 4/5] fix: reserve enough length bytes for formatted log
 messages of 128 bytes and more

---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 8 ++++----
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 9d6515e..a67da66 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -515,13 +515,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 5f26ee9..bb4d7bb 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -563,13 +563,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
-- 
2.43.0


From 9ec58b6285d9a9457361e9b29e810113f80d23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:23 +0000
Subject: [PATCH 5/5] fix: cut an overlong formatted log message at a character
 boundary instead of panicking

---
 .../src/server/impls/embassy_usb_v0_3.rs      | 21 ++++++++++++-------
 .../src/server/impls/embassy_usb_v0_4.rs      | 21 ++++++++++++-------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index a67da66..90fd8f1 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -376,14 +376,19 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
 
         // Calculate the number of bytes used *for formatting*.
         let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - remain;
 
         // If we had an error, that's probably because we ran out
-        // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
-        if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+        // of room. If we had an error, AND the buffer is full, then
+        // replace the last three bytes with '.'s like ..., starting
+        // at a character boundary so the message remains valid UTF-8
+        if res.is_err() && remain == 0 {
+            let mut start = body_len.saturating_sub(3);
+            while start > 0 && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
+            used = body_len.min(start + 3);
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -402,7 +407,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - body_len + used;
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame).await
     }
@@ -469,7 +474,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index bb4d7bb..6b24afa 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -423,14 +423,19 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
 
         // Calculate the number of bytes used *for formatting*.
         let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - remain;
 
         // If we had an error, that's probably because we ran out
-        // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
-        if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+        // of room. If we had an error, AND the buffer is full, then
+        // replace the last three bytes with '.'s like ..., starting
+        // at a character boundary so the message remains valid UTF-8
+        if res.is_err() && remain == 0 {
+            let mut start = body_len.saturating_sub(3);
+            while start > 0 && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
+            used = body_len.min(start + 3);
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -449,7 +454,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - body_len + used;
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame, *timeout_ms_per_frame).await
     }
@@ -517,7 +522,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
-- 
2.43.0

