From c5451b037eb00d892a9745a70546038571d48bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 01/38] fix: do not relay uninitialised control data of
 messages without attachments

A message received without descriptors kept a 32 byte control buffer the kernel
had not written to; relaying it handed that garbage to sendmsg, which fails with
EINVAL, so the controller dropped the receiving endpoint and the message.
---
 ipmb/src/platform/linux/encoded_message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 18c45ab..fce0eff 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -81,6 +81,9 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
+            // Keep only what the kernel has filled in, the rest of the buffer is uninitialized
+            control_data.truncate(hdr.msg_controllen as _);
+
             // parse
             let mut objects = vec![];
 
-- 
2.43.0


From 0e56692d162797e3ff7cbc241e300bee063c484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 02/38] fix: receive messages with more than four attachments

The control buffer had room for four descriptors, so a message with more of them was truncated, lost, and
took the sender's connection down.
---
 ipmb/src/platform/linux/encoded_message.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index fce0eff..3a796bb 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -58,7 +58,8 @@ impl EncodedMessage {
 
             let meta = Meta {
                 iov_len: r as _,
-                control_len: 32, // TODO: How to peek this?
+                // The control data cannot be peeked, reserve what the kernel allows in one message
+                control_len: libc::CMSG_SPACE(MAXIMUM_FD_COUNT * mem::size_of::<RawFd>() as u32),
             };
 
             // recv payload
@@ -180,6 +181,9 @@ impl EncodedMessage {
     }
 }
 
+// SCM_MAX_FD of the kernel
+const MAXIMUM_FD_COUNT: u32 = 253;
+
 struct Meta {
     iov_len: u32,
     control_len: u32,
-- 
2.43.0


From caa50ba5350b0eea20522366c27b361edc131502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 03/38] fix: report messages that cannot be transported instead
 of reconnecting for ever

A message too large for the transport, or with too many attachments, made sendmsg fail, which was taken for
a lost connection: a client reconnected and retried without end, and the controller removed every endpoint
the message matched.
---
 ipmb-ffi/src/lib.rs                        |  1 +
 ipmb/src/errors.rs                         |  2 ++
 ipmb/src/lib.rs                            |  1 +
 ipmb/src/platform/linux/encoded_message.rs | 14 ++++++++++++--
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index c950e0a..53cb50a 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -164,6 +164,7 @@ pub unsafe extern "C" fn ipmb_send(sender: &mut Sender, message: Message) -> Err
         Err(ipmb::SendError::VersionMismatch(_)) => ERROR_CODE_VERSION_MISMATCH,
         Err(ipmb::SendError::TokenMismatch) => ERROR_CODE_TOKEN_MISMATCH,
         Err(ipmb::SendError::PermissionDenied) => ERROR_CODE_PERMISSION_DENIED,
+        Err(ipmb::SendError::IoError(_)) => ERROR_CODE_UNKNOWN,
     }
 }
 
diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index 1e7a5e2..e5e1be7 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -56,6 +56,8 @@ pub enum SendError {
     TokenMismatch,
     #[error("permission denied")]
     PermissionDenied,
+    #[error("io error: {0}")]
+    IoError(std::io::Error),
 }
 
 impl From<JoinError> for SendError {
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4f17f2b..3767b96 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -176,6 +176,7 @@ impl<T: MessageBox> EndpointSender<T> {
                             Rule::Server { .. } => {}
                         }
                     }
+                    Err(Error::IoError(err)) => break Err(SendError::IoError(err)),
                     Err(_) => unreachable!(),
                     Ok(_) => break Ok(()),
                 },
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 3a796bb..3d1c655 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -170,11 +170,21 @@ impl EncodedMessage {
         let remote_guard = remote.lock();
         let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
         if r == -1 {
+            let err = io::Error::last_os_error();
+
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
             }
-            log::error!("sendmsg: {}", io::Error::last_os_error());
-            Err(Error::Disconnect)
+
+            log::error!("sendmsg: {}", err);
+
+            match err.raw_os_error() {
+                // The message is too large or has too many attachments, the connection is fine
+                Some(libc::EMSGSIZE | libc::EINVAL | libc::ETOOMANYREFS) => {
+                    Err(Error::IoError(err))
+                }
+                _ => Err(Error::Disconnect),
+            }
         } else {
             Ok(())
         }
-- 
2.43.0


From 4f733fbc3b9be976f012eb815a6ab13971c7fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 04/38] fix: do not deliver messages after their time to live

When an endpoint joined, expired messages still in the buffer were routed to it before they were purged.
---
 ipmb/src/bus_controller.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index e5eb1db..869b095 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -78,11 +78,13 @@ impl BusController {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
 
                     for (expire, msg) in message_buffer.drain(..) {
+                        if expire <= now {
+                            continue;
+                        }
+
                         let (remain, _) = self.handle_message(msg);
                         if let Some(remain) = remain {
-                            if expire > now {
-                                self.message_buffer_swap.push((expire, remain));
-                            }
+                            self.message_buffer_swap.push((expire, remain));
                         }
                     }
 
-- 
2.43.0


From c37a21f141c8a0e48346d8ad76befb11a1c83719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 05/38] fix: a very large time to live no longer panics the bus
 controller

---
 ipmb/src/bus_controller.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index 869b095..66257fa 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -13,6 +13,9 @@ use std::{
 };
 use type_uuid::TypeUuid;
 
+// Stands for times that cannot be represented
+const FAR_FUTURE: Duration = Duration::from_secs(100 * 365 * 24 * 60 * 60);
+
 pub struct BusController {
     label: Label,
     token: String,
@@ -71,8 +74,11 @@ impl BusController {
 
                 if let Some(remain) = remain {
                     if !remain.selector.ttl.is_zero() {
-                        self.message_buffer
-                            .push((now + remain.selector.ttl, remain));
+                        let expire = now
+                            .checked_add(remain.selector.ttl)
+                            .unwrap_or_else(|| now + FAR_FUTURE);
+
+                        self.message_buffer.push((expire, remain));
                     }
                 } else if endpoint_connected && !self.message_buffer.is_empty() {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
-- 
2.43.0


From fef11fe4be27fb1784965e00b9c54b580155a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 06/38] fix: a thread too late to reconnect no longer waits for
 the blocked receiver

---
 ipmb/src/lib.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 3767b96..76aa63c 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -95,14 +95,17 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
         Arc::new(IoMultiplexing::new()),
         timeout,
     )?));
+    let reconnect = Arc::new(Mutex::new(()));
 
     Ok((
         EndpointSender {
             rule: rule.clone(),
+            reconnect: reconnect.clone(),
             _marker: PhantomData,
         },
         EndpointReceiver {
             rule,
+            reconnect,
             _maker: PhantomData,
         },
     ))
@@ -111,6 +114,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
 /// The sending half of endpoint, messages can be sent with [`send`](EndpointSender::send).
 pub struct EndpointSender<T> {
     rule: Arc<RwLock<Rule>>,
+    reconnect: Arc<Mutex<()>>,
     _marker: PhantomData<T>,
 }
 
@@ -118,6 +122,7 @@ impl<T> Clone for EndpointSender<T> {
     fn clone(&self) -> Self {
         Self {
             rule: self.rule.clone(),
+            reconnect: self.reconnect.clone(),
             _marker: PhantomData,
         }
     }
@@ -144,6 +149,10 @@ impl<T: MessageBox> EndpointSender<T> {
                         let epoch = *epoch;
                         drop(rule);
 
+                        let _reconnect = self.reconnect.lock().unwrap();
+                        if self.rule.read().unwrap().epoch() != Some(epoch) {
+                            continue;
+                        }
                         let mut rule = self.rule.write().unwrap();
                         match &mut *rule {
                             Rule::Client {
@@ -199,6 +208,9 @@ impl<T: MessageBox> EndpointSender<T> {
 // Don't impl Clone
 pub struct EndpointReceiver<R> {
     rule: Arc<RwLock<Rule>>,
+    // Held while reconnecting. A thread that is too late to reconnect must not wait for the write
+    // lock of the rule, a receiver blocked on the new connection may hold the read lock for ever.
+    reconnect: Arc<Mutex<()>>,
     _maker: PhantomData<R>,
 }
 
@@ -220,6 +232,10 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         let epoch = *epoch;
                         drop(rule);
 
+                        let _reconnect = self.reconnect.lock().unwrap();
+                        if self.rule.read().unwrap().epoch() != Some(epoch) {
+                            continue;
+                        }
                         let mut rule = self.rule.write().unwrap();
                         match &mut *rule {
                             Rule::Client {
@@ -289,6 +305,10 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                             drop(io_hub_guard);
                             drop(rule);
 
+                            let _reconnect = self.reconnect.lock().unwrap();
+                            if self.rule.read().unwrap().epoch() != Some(epoch) {
+                                continue;
+                            }
                             let mut rule = self.rule.write().unwrap();
                             match &mut *rule {
                                 Rule::Client {
@@ -535,6 +555,13 @@ impl Rule {
 }
 
 impl Rule {
+    fn epoch(&self) -> Option<u32> {
+        match self {
+            Rule::Client { epoch, .. } => Some(*epoch),
+            Rule::Server { .. } => None,
+        }
+    }
+
     fn reader_close(&mut self) {
         match self {
             Rule::Client {
-- 
2.43.0


From f33d0388e2f54743a9d15c73652f29cb1bf74442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 07/38] fix: detect dead endpoints that left without unread
 messages

---
 ipmb/src/platform/linux/fd.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/fd.rs b/ipmb/src/platform/linux/fd.rs
index a3ffe26..53f73b4 100644
--- a/ipmb/src/platform/linux/fd.rs
+++ b/ipmb/src/platform/linux/fd.rs
@@ -60,7 +60,14 @@ impl Remote {
         if r == -1 || err != 0 {
             true
         } else {
-            false
+            // A peer that has closed its end without unread messages sets no error
+            let mut pfd = libc::pollfd {
+                fd: self.v,
+                events: 0,
+                revents: 0,
+            };
+            let r = unsafe { libc::poll(&mut pfd, 1, 0) };
+            r == 1 && pfd.revents & (libc::POLLERR | libc::POLLHUP) != 0
         }
     }
 }
-- 
2.43.0


From dea1eb2ce0d5a927dabf59557c8f91970f69b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 08/38] fix: answer joining endpoints of an incompatible
 version

---
 ipmb/src/platform/linux/encoded_message.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 3d1c655..f1e52e1 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -110,7 +110,11 @@ impl EncodedMessage {
             let remote_version = Version((major, minor, patch));
 
             if !version().compatible(remote_version) {
-                return Err(Error::VersionMismatch(remote_version, None));
+                // Let the bus controller answer the joining endpoint
+                return Err(Error::VersionMismatch(
+                    remote_version,
+                    objects.pop().map(Remote::new),
+                ));
             }
 
             let selector_size_ptr = version_ptr.offset(1);
-- 
2.43.0


From 4b21d02bb389c895cb22c2ce6d5094e56cba5b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 09/38] fix: check the sizes in received messages

---
 ipmb/src/platform/linux/encoded_message.rs | 48 ++++++++++++++--------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index f1e52e1..109b82d 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -82,7 +82,8 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
-            // Keep only what the kernel has filled in, the rest of the buffer is uninitialized
+            // Keep only what the kernel has filled in, the rest of the buffers is uninitialized
+            iov_data.truncate(r as _);
             control_data.truncate(hdr.msg_controllen as _);
 
             // parse
@@ -102,8 +103,9 @@ impl EncodedMessage {
                 }
             }
 
-            let version_ptr = iov_data.as_ptr() as *const u32;
-            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
+            let mut rest = iov_data.as_slice();
+
+            let [magic, major, minor, patch] = take_u32(&mut rest)?.to_ne_bytes();
             if magic != 0xFF {
                 return Err(Error::VersionMismatch(Version((0, 0, 0)), None));
             }
@@ -117,16 +119,16 @@ impl EncodedMessage {
                 ));
             }
 
-            let selector_size_ptr = version_ptr.offset(1);
-            let selector_size = *selector_size_ptr;
-            let selector_ptr = selector_size_ptr.offset(1) as *const u8;
-
-            // TODO: Check size
-            let selector: Selector =
-                decode(slice::from_raw_parts(selector_ptr, selector_size as _))?;
+            let selector_size = take_u32(&mut rest)? as usize;
+            let selector: Selector = decode(take(&mut rest, selector_size)?)?;
+            take(&mut rest, selector_size.align4() - selector_size)?;
 
+            let object_count = objects
+                .len()
+                .checked_sub(selector.memory_region_count as usize)
+                .ok_or(Error::Disconnect)?;
             let memory_regions: Vec<_> = objects
-                .drain((objects.len() - selector.memory_region_count as usize)..)
+                .drain(object_count..)
                 .map(|obj| {
                     let r = MemoryRegion::from_object(obj);
                     r.ref_count_inner(-1);
@@ -134,14 +136,13 @@ impl EncodedMessage {
                 })
                 .collect();
 
-            let payload_size_ptr = selector_ptr.offset(selector_size.align4() as _) as *const u32;
+            let payload_size = take_u32(&mut rest)? as usize;
+            let payload_data = take(&mut rest, payload_size)?;
 
             Ok(Self {
                 selector,
-                payload_data: slice::from_raw_parts(
-                    payload_size_ptr.offset(1) as *const u8,
-                    *payload_size_ptr as _,
-                ),
+                // Borrows from iov_data
+                payload_data: slice::from_raw_parts(payload_data.as_ptr(), payload_data.len()),
                 iov_data,
                 control_data,
                 objects,
@@ -195,6 +196,21 @@ impl EncodedMessage {
     }
 }
 
+fn take<'a>(rest: &mut &'a [u8], len: usize) -> Result<&'a [u8], Error> {
+    if len > rest.len() {
+        // Malformed message
+        return Err(Error::Disconnect);
+    }
+    let (data, tail) = rest.split_at(len);
+    *rest = tail;
+    Ok(data)
+}
+
+fn take_u32(rest: &mut &[u8]) -> Result<u32, Error> {
+    let data = take(rest, mem::size_of::<u32>())?;
+    Ok(u32::from_ne_bytes(data.try_into().unwrap()))
+}
+
 // SCM_MAX_FD of the kernel
 const MAXIMUM_FD_COUNT: u32 = 253;
 
-- 
2.43.0


From 78bb98bd9dd229af3601ae5b64547d3e18339c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 10/38] fix: reconnect instead of panicking on a malformed
 message

---
 ipmb/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 76aa63c..9325eff 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -300,7 +300,11 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 continue;
                             }
                         }
-                        Err(Error::Disconnect) => {
+                        Err(Error::Timeout) => {
+                            break Err(RecvError::Timeout);
+                        }
+                        // Disconnected, or dropped the connection because of a malformed message
+                        Err(_) => {
                             let epoch = *epoch;
                             drop(io_hub_guard);
                             drop(rule);
@@ -343,10 +347,6 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 Rule::Server { .. } => continue,
                             }
                         }
-                        Err(Error::Timeout) => {
-                            break Err(RecvError::Timeout);
-                        }
-                        Err(_) => unreachable!(),
                     }
                 }
                 Rule::Server {
-- 
2.43.0


From ca23242c78e7c14c9d0fe66f1de295fb4364e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 11/38] fix: drop messages with attachments that are no memory
 regions

---
 ipmb/src/platform/linux.rs                 |  8 ++++++++
 ipmb/src/platform/linux/encoded_message.rs |  6 +++---
 ipmb/src/platform/mod.rs                   | 10 +++++++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 77cce29..473c59e 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -45,6 +45,14 @@ impl platform::MappedRegion {
         aligend_size: usize,
     ) -> Result<*mut u8, Error> {
         let addr = unsafe {
+            // Touching memory beyond the end of the object would raise SIGBUS
+            let mut stat: libc::stat = mem::zeroed();
+            if libc::fstat(obj.as_raw(), &mut stat) == -1
+                || (aligned_offset as u64).saturating_add(aligend_size as u64) > stat.st_size as u64
+            {
+                return Err(Error::MemoryRegionMapping);
+            }
+
             libc::mmap(
                 ptr::null_mut(),
                 aligend_size,
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 109b82d..5b356ab 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -130,11 +130,11 @@ impl EncodedMessage {
             let memory_regions: Vec<_> = objects
                 .drain(object_count..)
                 .map(|obj| {
-                    let r = MemoryRegion::from_object(obj);
+                    let r = MemoryRegion::try_from_object(obj)?;
                     r.ref_count_inner(-1);
-                    r
+                    Ok(r)
                 })
-                .collect();
+                .collect::<Result<_, Error>>()?;
 
             let payload_size = take_u32(&mut rest)? as usize;
             let payload_data = take(&mut rest, payload_size)?;
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 6a8d8b6..0d2855a 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -88,9 +88,13 @@ impl MemoryRegion {
     }
 
     pub fn from_object(obj: Object) -> Self {
+        Self::try_from_object(obj).expect("MappedRegion::from_object")
+    }
+
+    /// Fails if the object isn't a memory region.
+    pub(crate) fn try_from_object(obj: Object) -> Result<Self, Error> {
         let mr = unsafe {
-            let header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let header = MappedRegion::from_object(&obj, 0, Self::header_length())?;
 
             let buffer_size = header
                 .as_slice()
@@ -108,7 +112,7 @@ impl MemoryRegion {
         };
         mr.ref_count_inner(1);
 
-        mr
+        Ok(mr)
     }
 
     pub fn object(&self) -> &Object {
-- 
2.43.0


From 3926a31d8c75745e42c8241884252ee199907df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 12/38] fix: refuse to map outside a memory region

---
 ipmb/src/platform/mod.rs | 26 ++++++++++++++++++++------
 ipmb/src/util/mod.rs     | 11 ++++++-----
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 0d2855a..60447f8 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -120,11 +120,22 @@ impl MemoryRegion {
     }
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
-        let (offset, size) = util::range_to_offset_size(range);
-        let size = size.unwrap_or_else(|| {
-            usize::try_from(self.buffer_size() - offset as u64).unwrap_or(usize::MAX)
-        });
-        let real_offset = Self::header_length() + offset;
+        let (offset, size) =
+            util::range_to_offset_size(range).ok_or(Error::MemoryRegionMapping)?;
+        let available = self
+            .buffer_size()
+            .checked_sub(offset as u64)
+            .ok_or(Error::MemoryRegionMapping)?;
+        let size = size.unwrap_or_else(|| usize::try_from(available).unwrap_or(usize::MAX));
+        if size as u64 > available {
+            return Err(Error::MemoryRegionMapping);
+        }
+        if size == 0 {
+            return Ok(&mut []);
+        }
+        let real_offset = Self::header_length()
+            .checked_add(offset)
+            .ok_or(Error::MemoryRegionMapping)?;
 
         let need_remap = self
             .buffer
@@ -187,7 +198,10 @@ impl MappedRegion {
     ) -> Result<Self, Error> {
         let aligned_offset = trunc_page(offset);
         let adjustment_for_alignment = offset - aligned_offset;
-        let addr = Self::map(obj, aligned_offset, adjustment_for_alignment + size)?;
+        let aligned_size = adjustment_for_alignment
+            .checked_add(size)
+            .ok_or(Error::MemoryRegionMapping)?;
+        let addr = Self::map(obj, aligned_offset, aligned_size)?;
 
         Ok(Self {
             offset,
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index 326e85b..88afcc2 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -58,17 +58,18 @@ pub fn rand_string(length: usize) -> String {
         .collect()
 }
 
-pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> (usize, Option<usize>) {
+/// Returns `None` if the bounds are out of order or not representable.
+pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> Option<(usize, Option<usize>)> {
     let offset = match bounds.start_bound() {
         Bound::Included(&bound) => bound,
-        Bound::Excluded(&bound) => bound + 1,
+        Bound::Excluded(&bound) => bound.checked_add(1)?,
         Bound::Unbounded => 0,
     };
     let size = match bounds.end_bound() {
-        Bound::Included(&bound) => Some(bound + 1 - offset),
-        Bound::Excluded(&bound) => Some(bound - offset),
+        Bound::Included(&bound) => Some(bound.checked_add(1)?.checked_sub(offset)?),
+        Bound::Excluded(&bound) => Some(bound.checked_sub(offset)?),
         Bound::Unbounded => None,
     };
 
-    (offset, size)
+    Some((offset, size))
 }
-- 
2.43.0


From 9f30fca062c82c1550f637fec9ebb83229179a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:46 +0000
Subject: [PATCH 13/38] fix: bound the depth of received label operations

---
 ipmb/src/label.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index 7b079af..efc4ee8 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -1,7 +1,7 @@
-use serde::{Deserialize, Serialize};
+use serde::{de, Deserialize, Deserializer, Serialize};
 use smallvec::SmallVec;
 use smol_str::SmolStr;
-use std::{iter, ops::Not};
+use std::{cell::Cell, iter, ops::Not};
 
 #[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
 pub struct Label(SmallVec<[SmolStr; 8]>);
@@ -71,9 +71,34 @@ pub enum LabelOp {
     True,
     False,
     Leaf(SmolStr),
-    Not(Box<Self>),
-    And(Box<Self>, Box<Self>),
-    Or(Box<Self>, Box<Self>),
+    Not(#[serde(deserialize_with = "operand")] Box<Self>),
+    And(
+        #[serde(deserialize_with = "operand")] Box<Self>,
+        #[serde(deserialize_with = "operand")] Box<Self>,
+    ),
+    Or(
+        #[serde(deserialize_with = "operand")] Box<Self>,
+        #[serde(deserialize_with = "operand")] Box<Self>,
+    ),
+}
+
+// Bounds the recursion, received data must not overflow the stack
+const MAXIMUM_DEPTH: usize = 1000;
+
+fn operand<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Box<LabelOp>, D::Error> {
+    thread_local! {
+        static DEPTH: Cell<usize> = const { Cell::new(0) };
+    }
+
+    let depth = DEPTH.get();
+    if depth == MAXIMUM_DEPTH {
+        return Err(de::Error::custom("label operations nested too deeply"));
+    }
+
+    DEPTH.set(depth + 1);
+    let op = Box::deserialize(deserializer);
+    DEPTH.set(depth);
+    op
 }
 
 impl LabelOp {
-- 
2.43.0


From 219d2153d0827212b8b345104cf4b1a2e5530a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 14/38] fix: do not block the bus on the answer to a join

---
 ipmb/src/platform/linux/encoded_message.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 5b356ab..87747c9 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -173,7 +173,12 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
+        // A connecting endpoint has room for the ack, or is malicious and must not block the bus
+        let flags = match self.selector.uuid {
+            <message::ConnectMessageAck as TypeUuid>::UUID => libc::MSG_DONTWAIT,
+            _ => 0,
+        };
+        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, flags) };
         if r == -1 {
             let err = io::Error::last_os_error();
 
-- 
2.43.0


From 2aace9b2a907851982a1ef01307754ab8d696b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 15/38] fix: do not allocate what malformed data claims to need

---
 ipmb/src/label.rs |  2 ++
 ipmb/src/lib.rs   | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index efc4ee8..9c14c43 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -4,6 +4,8 @@ use smol_str::SmolStr;
 use std::{cell::Cell, iter, ops::Not};
 
 #[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
+// SmallVec would reserve whatever length malformed data claims
+#[serde(from = "Vec<SmolStr>")]
 pub struct Label(SmallVec<[SmolStr; 8]>);
 
 impl Label {
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 9325eff..49fd853 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -74,9 +74,17 @@ pub enum SelectorMode {
 }
 
 pub fn decode<'de, T: Deserialize<'de>>(data: &'de [u8]) -> Result<T, Error> {
-    let (d, _): (T, _) =
-        bincode::serde::borrow_decode_from_slice(data, bincode::config::standard())
-            .map_err(Error::Decode)?;
+    // What a length in malformed data can make the decoder allocate
+    const LIMIT: usize = 16 << 20;
+
+    let config = bincode::config::standard();
+    // No primitive takes more than 16 bytes
+    let r = if data.len() < LIMIT / 16 {
+        bincode::serde::borrow_decode_from_slice(data, config.with_limit::<LIMIT>())
+    } else {
+        bincode::serde::borrow_decode_from_slice(data, config)
+    };
+    let (d, _): (T, _) = r.map_err(Error::Decode)?;
     Ok(d)
 }
 
-- 
2.43.0


From 7095c0524a5c3520a3a90f7d631090f50e2db805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 16/38] fix: report that a memory region cannot be created or
 cloned instead of panicking

---
 ipmb/src/platform/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 60447f8..cae46fa 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -48,7 +48,8 @@ impl Drop for MemoryRegion {
 
 impl MemoryRegion {
     pub fn clone(&self) -> io::Result<Self> {
-        self.object().clone().map(Self::from_object)
+        let obj = self.object().clone()?;
+        Self::try_from_object(obj).map_err(|err| io::Error::new(io::ErrorKind::Other, err))
     }
 }
 
@@ -61,12 +62,11 @@ impl MemoryRegion {
     }
 
     pub fn new(size: usize) -> Option<Self> {
-        let real_size = Self::header_length() + size;
+        let real_size = Self::header_length().checked_add(size)?;
         let obj = Self::obj_new(real_size)?;
 
         unsafe {
-            let mut header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let mut header = MappedRegion::from_object(&obj, 0, Self::header_length()).ok()?;
 
             let rc: &AtomicU32 = mem::transmute(header.as_slice().as_ptr());
             rc.store(1, Ordering::SeqCst);
-- 
2.43.0


From 9993311ff6b9e8d6ffa0d4475187a041b32d4d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:33 +0000
Subject: [PATCH 17/38] fix: release the memory regions of messages a dropped
 receiver has not read

---
 ipmb/src/platform/linux.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 473c59e..08548ca 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -368,6 +368,18 @@ impl IoHub {
     }
 }
 
+impl Drop for IoHub {
+    fn drop(&mut self) {
+        for local in self.local_list.iter_mut() {
+            unsafe {
+                libc::shutdown(local.0.as_raw(), libc::SHUT_RD);
+            }
+            // Unread messages hold references to their memory regions
+            while EncodedMessage::from_local(local).is_ok() {}
+        }
+    }
+}
+
 impl<T: MessageBox> message::Message<T> {
     fn encode_inner(&self) -> (&'static [u8], Vec<u8>, Vec<u8>) {
         // iov data
-- 
2.43.0


From 0d3b4a981686ac30ae28442ac53dd5c0f1ec6cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 18/38] fix: do not report registry memory as free while it is
 in use

---
 ipmb/src/memory_registry.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 6a17adb..64653ed 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -34,7 +34,7 @@ impl MemoryRegistry {
     ) -> Option<MemoryRegion> {
         let now = Instant::now();
 
-        for (_, rs) in self.inner.range_mut(min_size..min_size * 2) {
+        for (_, rs) in self.inner.range_mut(min_size..min_size.saturating_mul(2)) {
             for r in rs {
                 if r.region.ref_count_inner(0) == 1 && tag == r.tag.as_deref() {
                     r.last_alloc = now;
@@ -67,10 +67,13 @@ impl MemoryRegistry {
     fn maintain_inner(&mut self, now: Instant) {
         self.inner.retain(|_, rs| {
             rs.retain_mut(|r| {
-                let should_retain = (now - r.last_alloc) < Duration::from_secs(5);
+                let mut should_retain = (now - r.last_alloc) < Duration::from_secs(5);
 
                 if r.region.ref_count() == 1 {
                     r.guard = Guard { free: None };
+                } else if r.guard.free.is_some() {
+                    // Dropping the guard would report the region as free
+                    should_retain = true;
                 }
 
                 should_retain
-- 
2.43.0


From d08cf9d45e35f027476c1212667678dfa7ad5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 19/38] fix: do not let started programs inherit descriptors

---
 ipmb/src/platform/linux.rs                 | 8 ++++++--
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 ipmb/src/platform/linux/io_mul.rs          | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 08548ca..0ca64d5 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -329,8 +329,12 @@ impl IoHub {
                 if let Some(ref listener) = self.listener {
                     if ev.u64 == listener.as_raw() as u64 {
                         unsafe {
-                            let fd =
-                                libc::accept(listener.as_raw(), ptr::null_mut(), ptr::null_mut());
+                            let fd = libc::accept4(
+                                listener.as_raw(),
+                                ptr::null_mut(),
+                                ptr::null_mut(),
+                                libc::SOCK_CLOEXEC,
+                            );
                             if fd != -1 {
                                 let local = Local(Fd::from_raw(fd));
                                 let _ = libc::setsockopt(
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 87747c9..5ac0a0a 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -73,7 +73,7 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
+            r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
             // When remote disconnected, recvmsg returns 0
             if r <= 0
                 || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index df3d8ca..f9eb9f8 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -9,13 +9,13 @@ pub struct IoMultiplexing {
 impl IoMultiplexing {
     pub fn new() -> Self {
         let fd = unsafe {
-            let fd = libc::epoll_create1(0);
+            let fd = libc::epoll_create1(libc::EPOLL_CLOEXEC);
             assert_ne!(fd, -1);
             Fd::from_raw(fd)
         };
 
         let waker_fd = unsafe {
-            let efd = libc::eventfd(0, 0);
+            let efd = libc::eventfd(0, libc::EFD_CLOEXEC);
             assert_ne!(efd, -1);
             Fd::from_raw(efd)
         };
-- 
2.43.0


From 86ee8f58204d40ed90376d4bff5e4eff95ab7a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:12 +0000
Subject: [PATCH 20/38] fix: close the objects of a truncated message

---
 ipmb/src/platform/linux/encoded_message.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 5ac0a0a..38694de 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -75,10 +75,7 @@ impl EncodedMessage {
 
             r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
             // When remote disconnected, recvmsg returns 0
-            if r <= 0
-                || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
-                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
-            {
+            if r <= 0 {
                 return Err(Error::Disconnect);
             }
 
@@ -103,6 +100,13 @@ impl EncodedMessage {
                 }
             }
 
+            // Checked after taking over the objects, a truncated message may still carry some of them
+            if (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
+                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
+            {
+                return Err(Error::Disconnect);
+            }
+
             let mut rest = iov_data.as_slice();
 
             let [magic, major, minor, patch] = take_u32(&mut rest)?.to_ne_bytes();
-- 
2.43.0


From f016de8aabfe80f8626a2f3e1b7e4278c22a0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:59 +0000
Subject: [PATCH 21/38] fix: wait as long as a timeout asks

---
 ipmb/src/lib.rs                   |  3 ++-
 ipmb/src/platform/linux.rs        | 16 +++++++++++++---
 ipmb/src/platform/linux/io_mul.rs |  6 +++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 49fd853..e5a7097 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -442,7 +442,8 @@ impl Rule {
         im: Arc<IoMultiplexing>,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
-        let end = timeout.map(|timeout| Instant::now() + timeout);
+        // A time that cannot be represented never comes
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         macro_rules! wait {
             () => {
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 0ca64d5..8a558f6 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -11,7 +11,7 @@ use std::{
     os::fd::RawFd,
     ptr, slice,
     sync::{mpsc, Arc, Once},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 mod encoded_message;
@@ -302,6 +302,9 @@ impl IoHub {
     ) -> Result<EncodedMessage, Error> {
         let _ = remote;
 
+        // A time that cannot be represented never comes
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+
         'ret: loop {
             if let Some(ref rx) = self.bus_rx {
                 match rx.try_recv() {
@@ -315,10 +318,17 @@ impl IoHub {
                 }
             }
 
-            self.im.wait(&mut self.in_buffer, timeout);
+            self.im.wait(
+                &mut self.in_buffer,
+                end.map(|end| end.saturating_duration_since(Instant::now())),
+            );
 
             if self.in_buffer.is_empty() {
-                break Err(Error::Timeout);
+                match end {
+                    Some(end) if end <= Instant::now() => break Err(Error::Timeout),
+                    // Interrupted by a signal
+                    _ => continue,
+                }
             }
 
             for ev in self.in_buffer.drain(..) {
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index f9eb9f8..450948d 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -45,7 +45,11 @@ impl IoMultiplexing {
                 events.as_mut_ptr(),
                 events.capacity() as _,
                 timeout
-                    .map(|tot| tot.as_millis() as ffi::c_int)
+                    // Round up, and wait again if it doesn't fit
+                    .map(|tot| {
+                        ffi::c_int::try_from(tot.as_nanos().div_ceil(1_000_000))
+                            .unwrap_or(ffi::c_int::MAX)
+                    })
                     .unwrap_or(-1),
             );
             if n < 1 {
-- 
2.43.0


From 8c0de571a0a83f6435fcd34e46850cc9ce29591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 22/38] fix: let a receive time out while skipping messages or
 reconnecting

---
 ipmb/src/lib.rs | 208 ++++++++++++++++++++++--------------------------
 1 file changed, 93 insertions(+), 115 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index e5a7097..ba4216c 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -15,7 +15,7 @@ use std::{
     sync::{
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
-        Arc, Mutex, RwLock,
+        Arc, Condvar, Mutex, RwLock,
     },
     thread,
     time::{Duration, Instant},
@@ -103,7 +103,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
         Arc::new(IoMultiplexing::new()),
         timeout,
     )?));
-    let reconnect = Arc::new(Mutex::new(()));
+    let reconnect = Arc::new(Reconnect::default());
 
     Ok((
         EndpointSender {
@@ -122,7 +122,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
 /// The sending half of endpoint, messages can be sent with [`send`](EndpointSender::send).
 pub struct EndpointSender<T> {
     rule: Arc<RwLock<Rule>>,
-    reconnect: Arc<Mutex<()>>,
+    reconnect: Arc<Reconnect>,
     _marker: PhantomData<T>,
 }
 
@@ -157,41 +157,7 @@ impl<T: MessageBox> EndpointSender<T> {
                         let epoch = *epoch;
                         drop(rule);
 
-                        let _reconnect = self.reconnect.lock().unwrap();
-                        if self.rule.read().unwrap().epoch() != Some(epoch) {
-                            continue;
-                        }
-                        let mut rule = self.rule.write().unwrap();
-                        match &mut *rule {
-                            Rule::Client {
-                                endpoint_id: _,
-                                options,
-                                remote: _,
-                                io_hub,
-                                reader_closed,
-                                im,
-                                epoch: epoch1,
-                            } => {
-                                if epoch == *epoch1 {
-                                    let reader_closed = *reader_closed;
-
-                                    // Close reader
-                                    drop(io_hub.take());
-
-                                    *rule = Rule::join(
-                                        options.clone(),
-                                        epoch.overflowing_add(1).0,
-                                        im.clone(),
-                                        None,
-                                    )?;
-
-                                    if reader_closed {
-                                        rule.reader_close();
-                                    }
-                                }
-                            }
-                            Rule::Server { .. } => {}
-                        }
+                        self.reconnect.reconnect(&self.rule, epoch, None)?;
                     }
                     Err(Error::IoError(err)) => break Err(SendError::IoError(err)),
                     Err(_) => unreachable!(),
@@ -216,15 +182,17 @@ impl<T: MessageBox> EndpointSender<T> {
 // Don't impl Clone
 pub struct EndpointReceiver<R> {
     rule: Arc<RwLock<Rule>>,
-    // Held while reconnecting. A thread that is too late to reconnect must not wait for the write
-    // lock of the rule, a receiver blocked on the new connection may hold the read lock for ever.
-    reconnect: Arc<Mutex<()>>,
+    reconnect: Arc<Reconnect>,
     _maker: PhantomData<R>,
 }
 
 impl<'de, R: MessageBox> EndpointReceiver<R> {
     pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
+        // A time that cannot be represented never comes
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+
         loop {
+            let timeout = remain(end);
             let rule = self.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
@@ -240,43 +208,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         let epoch = *epoch;
                         drop(rule);
 
-                        let _reconnect = self.reconnect.lock().unwrap();
-                        if self.rule.read().unwrap().epoch() != Some(epoch) {
-                            continue;
-                        }
-                        let mut rule = self.rule.write().unwrap();
-                        match &mut *rule {
-                            Rule::Client {
-                                endpoint_id: _,
-                                options,
-                                remote: _,
-                                io_hub,
-                                reader_closed,
-                                im,
-                                epoch: epoch1,
-                            } => {
-                                if epoch == *epoch1 {
-                                    let reader_closed = *reader_closed;
-
-                                    // Close reader
-                                    drop(io_hub.take());
-
-                                    *rule = Rule::join(
-                                        options.clone(),
-                                        epoch.overflowing_add(1).0,
-                                        im.clone(),
-                                        timeout,
-                                    )?;
-
-                                    if reader_closed {
-                                        rule.reader_close();
-                                    }
-                                }
-
-                                continue;
-                            }
-                            Rule::Server { .. } => continue,
-                        }
+                        self.reconnect.reconnect(&self.rule, epoch, end)?;
+                        continue;
                     }
 
                     let mut io_hub_guard = io_hub.as_ref().expect("reader closed").lock().unwrap();
@@ -317,43 +250,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                             drop(io_hub_guard);
                             drop(rule);
 
-                            let _reconnect = self.reconnect.lock().unwrap();
-                            if self.rule.read().unwrap().epoch() != Some(epoch) {
-                                continue;
-                            }
-                            let mut rule = self.rule.write().unwrap();
-                            match &mut *rule {
-                                Rule::Client {
-                                    endpoint_id: _,
-                                    options,
-                                    remote: _,
-                                    io_hub,
-                                    reader_closed,
-                                    im,
-                                    epoch: epoch1,
-                                } => {
-                                    if epoch == *epoch1 {
-                                        let reader_closed = *reader_closed;
-
-                                        // Close reader
-                                        drop(io_hub.take());
-
-                                        *rule = Rule::join(
-                                            options.clone(),
-                                            epoch.overflowing_add(1).0,
-                                            im.clone(),
-                                            timeout,
-                                        )?;
-
-                                        if reader_closed {
-                                            rule.reader_close();
-                                        }
-                                    }
-
-                                    continue;
-                                }
-                                Rule::Server { .. } => continue,
-                            }
+                            self.reconnect.reconnect(&self.rule, epoch, end)?;
+                            continue;
                         }
                     }
                 }
@@ -415,6 +313,86 @@ impl<R> Drop for EndpointReceiver<R> {
     }
 }
 
+fn remain(end: Option<Instant>) -> Option<Duration> {
+    end.map(|end| end.saturating_duration_since(Instant::now()))
+}
+
+/// Lets one thread of an endpoint reconnect at a time.
+#[derive(Default)]
+struct Reconnect {
+    busy: Mutex<bool>,
+    idle: Condvar,
+}
+
+impl Reconnect {
+    /// Replaces the connection unless another thread already has. The rule isn't locked meanwhile:
+    /// a receiver must be able to time out, and a thread that is too late must not wait for the
+    /// write lock, a receiver blocked on the new connection may hold the read lock for ever.
+    fn reconnect(
+        &self,
+        rule: &RwLock<Rule>,
+        epoch: u32,
+        end: Option<Instant>,
+    ) -> Result<(), JoinError> {
+        let _turn = self.wait_turn(end)?;
+        if rule.read().unwrap().epoch() != Some(epoch) {
+            return Ok(());
+        }
+
+        let (options, im) = match &mut *rule.write().unwrap() {
+            Rule::Client {
+                options,
+                io_hub,
+                im,
+                ..
+            } => {
+                // Close reader
+                drop(io_hub.take());
+                (options.clone(), im.clone())
+            }
+            Rule::Server { .. } => return Ok(()),
+        };
+
+        let new_rule = Rule::join(options, epoch.overflowing_add(1).0, im, remain(end))?;
+
+        let mut rule = rule.write().unwrap();
+        let reader_closed = matches!(
+            &*rule,
+            Rule::Client {
+                reader_closed: true,
+                ..
+            }
+        );
+        *rule = new_rule;
+        if reader_closed {
+            rule.reader_close();
+        }
+        Ok(())
+    }
+
+    fn wait_turn(&self, end: Option<Instant>) -> Result<ReconnectTurn<'_>, JoinError> {
+        let mut busy = self.busy.lock().unwrap();
+        while *busy {
+            busy = match remain(end) {
+                Some(remain) if remain.is_zero() => return Err(JoinError::Timeout),
+                Some(remain) => self.idle.wait_timeout(busy, remain).unwrap().0,
+                None => self.idle.wait(busy).unwrap(),
+            };
+        }
+        *busy = true;
+        Ok(ReconnectTurn(self))
+    }
+}
+
+struct ReconnectTurn<'a>(&'a Reconnect);
+
+impl Drop for ReconnectTurn<'_> {
+    fn drop(&mut self) {
+        *self.0.busy.lock().unwrap() = false;
+        self.0.idle.notify_one();
+    }
+}
+
 enum Rule {
     Client {
         #[allow(dead_code)]
-- 
2.43.0


From 928efefa5063b7aaa87460d320699bbe64639873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 23/38] fix: do not give up a connection when a signal
 interrupts a send

---
 ipmb/src/platform/linux/encoded_message.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 38694de..bc89f56 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -182,10 +182,17 @@ impl EncodedMessage {
             <message::ConnectMessageAck as TypeUuid>::UUID => libc::MSG_DONTWAIT,
             _ => 0,
         };
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, flags) };
-        if r == -1 {
+        let r = loop {
+            if unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, flags) } != -1 {
+                break Ok(());
+            }
             let err = io::Error::last_os_error();
-
+            // Interrupted by a signal while waiting for room
+            if err.kind() != io::ErrorKind::Interrupted {
+                break Err(err);
+            }
+        };
+        if let Err(err) = r {
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
             }
-- 
2.43.0


From d364b2517f8ab0e10952bf89b90f54847c6f844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 24/38] fix: keep buses with long identifiers or ones
 containing NUL apart

---
 ipmb/src/platform/linux.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 8a558f6..d8d0724 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -7,7 +7,7 @@ use fd::Local;
 pub use fd::{Fd, Remote};
 pub(crate) use io_mul::IoMultiplexing;
 use std::{
-    ffi, io, mem,
+    io, mem,
     os::fd::RawFd,
     ptr, slice,
     sync::{mpsc, Arc, Once},
@@ -88,17 +88,31 @@ pub(crate) fn page_mask() -> usize {
 
 // we use abstract socket address
 fn identifier_to_socket_addr(identifier: &str) -> libc::sockaddr_un {
-    let identifier = ffi::CString::new(identifier).unwrap();
+    let identifier = identifier.as_bytes();
     let mut addr = libc::sockaddr_un {
         sun_family: libc::AF_UNIX as _,
         sun_path: [0; 108],
     };
-    unsafe {
-        libc::strncpy(
-            addr.sun_path[1..].as_mut_ptr(),
-            identifier.as_ptr() as _,
-            addr.sun_path.len() - 2,
-        );
+    let name = &mut addr.sun_path[1..];
+    let mut len = identifier.len();
+    if len >= name.len() || identifier.contains(&0) {
+        // Doesn't fit, or is padded to the same name as another one. Use a beginning of it, its hash
+        // and a last byte that no other name has.
+        len = len.min(name.len() - 17);
+
+        // FNV-1a
+        let hash = identifier
+            .iter()
+            .fold(0x6c62272e07bb014262b821756295c58d_u128, |hash, b| {
+                (hash ^ *b as u128).wrapping_mul(0x0000000001000000000000000000013b)
+            });
+        let (_, tail) = name.split_at_mut(90);
+        for (to, from) in tail.iter_mut().zip(hash.to_ne_bytes().iter().chain(&[0xff])) {
+            *to = *from as _;
+        }
+    }
+    for (to, from) in name.iter_mut().zip(&identifier[..len]) {
+        *to = *from as _;
     }
     addr
 }
-- 
2.43.0


From bb9e68d9306cb10fae0ebce718044e6112df1e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:17 +0000
Subject: [PATCH 25/38] fix: an endpoint without receiver that rejoins no
 longer swallows messages

---
 ipmb/src/lib.rs            | 36 +++++++++++++++++++++++++++++-------
 ipmb/src/platform/linux.rs | 23 ++++++++++++++++-------
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index ba4216c..e3a9e30 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -101,6 +101,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
         options,
         0,
         Arc::new(IoMultiplexing::new()),
+        false,
         timeout,
     )?));
     let reconnect = Arc::new(Reconnect::default());
@@ -339,21 +340,28 @@ impl Reconnect {
             return Ok(());
         }
 
-        let (options, im) = match &mut *rule.write().unwrap() {
+        let (options, im, reader_closed) = match &mut *rule.write().unwrap() {
             Rule::Client {
                 options,
                 io_hub,
+                reader_closed,
                 im,
                 ..
             } => {
                 // Close reader
                 drop(io_hub.take());
-                (options.clone(), im.clone())
+                (options.clone(), im.clone(), *reader_closed)
             }
             Rule::Server { .. } => return Ok(()),
         };
 
-        let new_rule = Rule::join(options, epoch.overflowing_add(1).0, im, remain(end))?;
+        let new_rule = Rule::join(
+            options,
+            epoch.overflowing_add(1).0,
+            im,
+            reader_closed,
+            remain(end),
+        )?;
 
         let mut rule = rule.write().unwrap();
         let reader_closed = matches!(
@@ -418,6 +426,7 @@ impl Rule {
         options: Options,
         epoch: u32,
         im: Arc<IoMultiplexing>,
+        reader_closed: bool,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
         // A time that cannot be represented never comes
@@ -450,13 +459,25 @@ impl Rule {
             );
 
             match r {
-                Ok((io_hub, remote, endpoint_id)) => {
+                Ok((mut io_hub, remote, endpoint_id)) => {
+                    let io_hub = if reader_closed {
+                        // Messages may have been routed to this endpoint already
+                        for mut msg in io_hub.close() {
+                            if msg.selector.mode == SelectorMode::Unicast {
+                                let _ = msg.send(&remote);
+                            }
+                        }
+                        None
+                    } else {
+                        Some(Mutex::new(io_hub))
+                    };
+
                     let rule = Rule::Client {
                         endpoint_id,
                         options,
                         remote,
-                        io_hub: Some(Mutex::new(io_hub)),
-                        reader_closed: false,
+                        io_hub,
+                        reader_closed,
                         im,
                         epoch,
                     };
@@ -474,6 +495,7 @@ impl Rule {
                     match r {
                         Ok((io_hub, bus_sender, endpoint_id)) => {
                             let (sender, receiver) = mpsc::channel::<EncodedMessage>();
+                            let receiver = (!reader_closed).then(|| Mutex::new(receiver));
 
                             let im = io_hub.io_multiplexing();
 
@@ -489,7 +511,7 @@ impl Rule {
                             let rule = Rule::Server {
                                 endpoint_id,
                                 bus_sender: Mutex::new(bus_sender),
-                                receiver: Some(Mutex::new(receiver)),
+                                receiver,
                                 im,
                             };
                             break rule;
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index d8d0724..25b4cc6 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -391,6 +391,20 @@ impl IoHub {
         }
     }
 
+    /// Ends reception and returns the messages that have not been received.
+    pub fn close(&mut self) -> Vec<EncodedMessage> {
+        let mut unread = vec![];
+        for mut local in self.local_list.drain(..) {
+            unsafe {
+                libc::shutdown(local.0.as_raw(), libc::SHUT_RD);
+            }
+            while let Ok(msg) = EncodedMessage::from_local(&mut local) {
+                unread.push(msg);
+            }
+        }
+        unread
+    }
+
     pub fn io_multiplexing(&self) -> Arc<IoMultiplexing> {
         self.im.clone()
     }
@@ -398,13 +412,8 @@ impl IoHub {
 
 impl Drop for IoHub {
     fn drop(&mut self) {
-        for local in self.local_list.iter_mut() {
-            unsafe {
-                libc::shutdown(local.0.as_raw(), libc::SHUT_RD);
-            }
-            // Unread messages hold references to their memory regions
-            while EncodedMessage::from_local(local).is_ok() {}
-        }
+        // Unread messages hold references to their memory regions
+        self.close();
     }
 }
 
-- 
2.43.0


From 77769a7c476df28e1ae417388f73b5d2540361f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 26/38] fix: accept a null pointer as the data of an empty C
 message

---
 ipmb-ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index 53cb50a..c9c29e9 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -283,7 +283,12 @@ pub unsafe extern "C" fn ipmb_message(
     ptr: *const u8,
     size: u32,
 ) -> Message {
-    let data = slice::from_raw_parts(ptr, size as _).to_owned();
+    // A null pointer is fine for an empty message
+    let data = if size == 0 {
+        Vec::new()
+    } else {
+        slice::from_raw_parts(ptr, size as _).to_owned()
+    };
 
     ipmb::Message::<ipmb::BytesMessage>::new(selector.into(), ipmb::BytesMessage { format, data })
         .into()
-- 
2.43.0


From f0f6bdc834becf8c6f9e5fc619283e3cd4391254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 27/38] fix: a C mapping whose end overflows fails instead of
 aborting

---
 ipmb-ffi/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index c9c29e9..fa189c4 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -412,7 +412,10 @@ pub unsafe extern "C" fn ipmb_memory_region_map(
     if size < 0 {
         region.map(offset..)
     } else {
-        region.map(offset..offset + size as usize)
+        let Some(end) = offset.checked_add(size as usize) else {
+            return ptr::null_mut();
+        };
+        region.map(offset..end)
     }
     .map(|v| {
         if !real_size.is_null() {
-- 
2.43.0


From 216db84088c917590c4e6928b71876d214085654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 28/38] fix: do not leak the callback of a failed C++ registry
 allocation

---
 ipmb-ffi/ipmb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipmb-ffi/ipmb.cc b/ipmb-ffi/ipmb.cc
index 9ff74fe..567a5e9 100644
--- a/ipmb-ffi/ipmb.cc
+++ b/ipmb-ffi/ipmb.cc
@@ -192,6 +192,7 @@ namespace ipmb {
             return std::make_tuple(MemoryRegion(region_raw),
                                Error::kSuccess);
         default:
+          delete f;
           return std::make_tuple(MemoryRegion(nullptr), Error::kUnknown);
       }
     }
-- 
2.43.0


From 98f614d23bcf65c7c13ac4b4ad02198fc6832bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 29/38] fix: closing a JavaScript receiver does not wait for
 traffic to pause

---
 ipmb-js/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index c83f50a..6e53eb5 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -283,18 +283,9 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
         let r = receiver.recv(Some(Duration::from_millis(200)));
 
         match r {
-            Err(ipmb::RecvError::Timeout) => match guard_receiver.try_recv() {
-                Ok(_) => {
-                    tsfn.destroy();
-                    break;
-                }
-                Err(mpsc::TryRecvError::Disconnected) => {
-                    break;
-                }
-                Err(mpsc::TryRecvError::Empty) => {
-                    tsfn.call(DelegateAction::CleanTimeout);
-                }
-            },
+            Err(ipmb::RecvError::Timeout) => {
+                tsfn.call(DelegateAction::CleanTimeout);
+            }
             Err(
                 ipmb::RecvError::VersionMismatch(_)
                 | ipmb::RecvError::TokenMismatch
@@ -308,6 +299,18 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
                 tsfn.call(DelegateAction::Recv(r));
             }
         }
+
+        // Messages may keep arriving, so look for a close after each of them
+        match guard_receiver.try_recv() {
+            Ok(_) => {
+                tsfn.destroy();
+                break;
+            }
+            Err(mpsc::TryRecvError::Disconnected) => {
+                break;
+            }
+            Err(mpsc::TryRecvError::Empty) => {}
+        }
     });
 
     let receiver = Receiver {
-- 
2.43.0


From 6afaf67624722c4eea40ebbf51fb327c1073a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 30/38] fix: JavaScript receives time out while messages arrive

---
 ipmb-js/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index 6e53eb5..51d93d4 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -454,6 +454,9 @@ extern "C" fn delegate_receiver(
             DelegateAction::Close(tsfn) => local.close(env, tsfn),
             DelegateAction::CleanTimeout => local.clean_timeout(env),
             DelegateAction::Recv(r) => {
+                // There may be no pause in which expired receives are cleaned
+                local.clean_timeout(env);
+
                 if local.deferred_list.is_empty() {
                     local.messages.push(r);
                 } else {
-- 
2.43.0


From bb5272144bed4176063c61661053cf7806ed8422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 31/38] fix: a failing JavaScript endpoint keeps the messages
 that arrived before

---
 ipmb-js/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index 51d93d4..d58cca1 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -187,7 +187,8 @@ impl Receiver {
         let mut local = self.local_buffer.lock().unwrap();
         debug_assert!(local.deferred_list.is_empty() || local.messages.is_empty());
 
-        if local.closed {
+        // What arrived before the endpoint failed can still be received
+        if local.closed && local.messages.is_empty() {
             return Err(Error::new(Status::GenericFailure, "closed"));
         }
 
@@ -220,6 +221,7 @@ impl Receiver {
             }
             // As close is an asynchronous operation, to avoid repeated close, set the flag here
             local.closed = true;
+            local.messages.clear();
         }
 
         // Signal close
@@ -457,11 +459,11 @@ extern "C" fn delegate_receiver(
                 // There may be no pause in which expired receives are cleaned
                 local.clean_timeout(env);
 
-                if local.deferred_list.is_empty() {
-                    local.messages.push(r);
-                } else {
+                if !local.deferred_list.is_empty() {
                     let (deferred, _) = local.deferred_list.remove(0);
                     let _ = consume_deferred(env, deferred.0, r);
+                } else if !local.closed {
+                    local.messages.push(r);
                 }
             }
         }
-- 
2.43.0


From fffd08e4af9a91107988f61e707446fc07c58bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 32/38] fix: a waiting receiver does not keep a sender from
 replacing a dead connection

---
 ipmb/src/lib.rs            | 13 ++++---------
 ipmb/src/platform/linux.rs |  9 +++++++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index e3a9e30..0b0254e 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -336,8 +336,10 @@ impl Reconnect {
         end: Option<Instant>,
     ) -> Result<(), JoinError> {
         let _turn = self.wait_turn(end)?;
-        if rule.read().unwrap().epoch() != Some(epoch) {
-            return Ok(());
+        match &*rule.read().unwrap() {
+            // A receiver blocked on the dead connection holds the read lock
+            Rule::Client { epoch: e, im, .. } if *e == epoch => im.wake(),
+            _ => return Ok(()),
         }
 
         let (options, im, reader_closed) = match &mut *rule.write().unwrap() {
@@ -564,13 +566,6 @@ impl Rule {
 }
 
 impl Rule {
-    fn epoch(&self) -> Option<u32> {
-        match self {
-            Rule::Client { epoch, .. } => Some(*epoch),
-            Rule::Server { .. } => None,
-        }
-    }
-
     fn reader_close(&mut self) {
         match self {
             Rule::Client {
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 25b4cc6..9859889 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -314,8 +314,6 @@ impl IoHub {
         timeout: Option<Duration>,
         remote: Option<&Remote>,
     ) -> Result<EncodedMessage, Error> {
-        let _ = remote;
-
         // A time that cannot be represented never comes
         let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
@@ -345,9 +343,11 @@ impl IoHub {
                 }
             }
 
+            let mut woken = false;
             for ev in self.in_buffer.drain(..) {
                 if ev.u64 == self.im.waker_fd.as_raw() as u64 {
                     self.im.clear_waker();
+                    woken = true;
                     continue;
                 }
                 if let Some(ref listener) = self.listener {
@@ -388,6 +388,11 @@ impl IoHub {
                     break 'ret r;
                 }
             }
+
+            // Another thread of the endpoint has found the connection dead and waits to replace it
+            if woken && remote.is_some_and(|remote| remote.is_dead()) {
+                break Err(Error::Disconnect);
+            }
         }
     }
 
-- 
2.43.0


From ed36a2b8b676f138f16338b067c92170ca648955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 33/38] fix: refuse to send label operations that no endpoint
 accepts

---
 ipmb/src/label.rs | 15 +++++++++++++++
 ipmb/src/lib.rs   |  9 +++++++++
 2 files changed, 24 insertions(+)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index 9c14c43..fef9547 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -122,6 +122,21 @@ impl LabelOp {
             Self::Not(left) => !left.validate(label),
         }
     }
+
+    /// Whether other endpoints accept it.
+    pub(crate) fn transportable(&self) -> bool {
+        self.within(MAXIMUM_DEPTH)
+    }
+
+    fn within(&self, depth: usize) -> bool {
+        match self {
+            Self::True | Self::False | Self::Leaf(_) => true,
+            Self::Not(left) => depth > 0 && left.within(depth - 1),
+            Self::And(left, right) | Self::Or(left, right) => {
+                depth > 0 && left.within(depth - 1) && right.within(depth - 1)
+            }
+        }
+    }
 }
 
 impl Not for LabelOp {
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 0b0254e..040cc29 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -11,6 +11,7 @@ pub use platform::{MemoryRegion, Object};
 use serde::{Deserialize, Serialize};
 use std::{
     fmt::{Display, Formatter},
+    io,
     marker::PhantomData,
     sync::{
         mpsc,
@@ -139,6 +140,14 @@ impl<T> Clone for EndpointSender<T> {
 
 impl<T: MessageBox> EndpointSender<T> {
     pub fn send(&self, mut msg: Message<T>) -> Result<(), SendError> {
+        if !msg.selector.label_op.transportable() {
+            // The receiving side would drop the connection
+            return Err(SendError::IoError(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "label operations nested too deeply",
+            )));
+        }
+
         msg.selector.memory_region_count = msg.memory_regions.len() as _;
         let mut msg = msg.into_encoded();
 
-- 
2.43.0


From d12b85a612c0280e71c3f27cae2bfb4713550b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 34/38] fix: keep a wake-up that comes together with a message

---
 ipmb/src/platform/linux.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 9859889..6e29ca7 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -346,7 +346,6 @@ impl IoHub {
             let mut woken = false;
             for ev in self.in_buffer.drain(..) {
                 if ev.u64 == self.im.waker_fd.as_raw() as u64 {
-                    self.im.clear_waker();
                     woken = true;
                     continue;
                 }
@@ -389,6 +388,11 @@ impl IoHub {
                 }
             }
 
+            // Not before: a wake-up that came together with a message must end the next wait
+            if woken {
+                self.im.clear_waker();
+            }
+
             // Another thread of the endpoint has found the connection dead and waits to replace it
             if woken && remote.is_some_and(|remote| remote.is_dead()) {
                 break Err(Error::Disconnect);
-- 
2.43.0


From 98ce4a0e89b1b13773f05d8bd7b4b8d65dbcec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 35/38] fix: macOS and Windows have no IoHub::close, which
 rejoining without receiver needs

---
 ipmb/src/platform/macos/mod.rs   | 14 ++++++++++++++
 ipmb/src/platform/windows/mod.rs |  6 ++++++
 2 files changed, 20 insertions(+)

diff --git a/ipmb/src/platform/macos/mod.rs b/ipmb/src/platform/macos/mod.rs
index 23874a3..44e8c4e 100644
--- a/ipmb/src/platform/macos/mod.rs
+++ b/ipmb/src/platform/macos/mod.rs
@@ -241,6 +241,20 @@ impl IoHub {
         }
     }
 
+    /// Ends reception and returns the messages that have not been received.
+    pub fn close(&mut self) -> Vec<EncodedMessage> {
+        let mut unread = vec![];
+        if let Some(mut local) = self.local.take() {
+            local.status = PipeStatus::Readable;
+            while let Some(mach_msg) = local.read() {
+                if let Ok(msg) = EncodedMessage::new(mach_msg) {
+                    unread.push(msg);
+                }
+            }
+        }
+        unread
+    }
+
     pub fn io_multiplexing(&self) -> Arc<IoMultiplexing> {
         self.im.clone()
     }
diff --git a/ipmb/src/platform/windows/mod.rs b/ipmb/src/platform/windows/mod.rs
index 716e4cc..349efb8 100644
--- a/ipmb/src/platform/windows/mod.rs
+++ b/ipmb/src/platform/windows/mod.rs
@@ -381,6 +381,12 @@ impl IoHub {
         }
     }
 
+    /// Ends reception. Messages in the pipes that have not been received are lost.
+    pub fn close(&mut self) -> Vec<EncodedMessage> {
+        self.pipes.clear();
+        vec![]
+    }
+
     pub fn io_multiplexing(&self) -> Arc<IoMultiplexing> {
         self.im.clone()
     }
-- 
2.43.0


From 067f6eaa85c5228e0d8f94793c01e87bea9f9a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 36/38] fix: dropping a receiver whose queue is full blocked
 the bus for ever

---
 ipmb/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 040cc29..1b1080a 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -318,6 +318,16 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
 
 impl<R> Drop for EndpointReceiver<R> {
     fn drop(&mut self) {
+        // Senders hold the read lock and may wait for the controller, which may in turn wait for
+        // room in the queue of this endpoint
+        if let Rule::Client {
+            io_hub: Some(io_hub),
+            ..
+        } = &*self.rule.read().unwrap()
+        {
+            io_hub.lock().unwrap().close();
+        }
+
         let mut rule = self.rule.write().unwrap();
         rule.reader_close();
     }
-- 
2.43.0


From fbba98a4a1be1494aab0de6a410ac6fea9fe4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 37/38] fix: dropping a receiver after its decoder panicked
 panicked again

---
 ipmb/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 1b1080a..b9ce500 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -325,7 +325,9 @@ impl<R> Drop for EndpointReceiver<R> {
             ..
         } = &*self.rule.read().unwrap()
         {
-            io_hub.lock().unwrap().close();
+            // A decoder that panicked has poisoned the lock
+            let mut io_hub = io_hub.lock().unwrap_or_else(|err| err.into_inner());
+            io_hub.close();
         }
 
         let mut rule = self.rule.write().unwrap();
-- 
2.43.0


From 2ad29926095b88c792e7dce7b3887c224c4b1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 38/38] fix: a join with a timeout waited without limit while
 the controller's connection queue was full

---
 ipmb/src/platform/linux.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 6e29ca7..dd7c73a 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -117,6 +117,22 @@ fn identifier_to_socket_addr(identifier: &str) -> libc::sockaddr_un {
     addr
 }
 
+fn set_send_timeout(fd: &Fd, secs: libc::time_t) {
+    let timeout = libc::timeval {
+        tv_sec: secs,
+        tv_usec: 0,
+    };
+    unsafe {
+        libc::setsockopt(
+            fd.as_raw(),
+            libc::SOL_SOCKET,
+            libc::SO_SNDTIMEO,
+            &timeout as *const _ as _,
+            mem::size_of_val(&timeout) as _,
+        );
+    }
+}
+
 pub(crate) fn look_up(
     identifier: &str,
     label: Label,
@@ -132,6 +148,8 @@ pub(crate) fn look_up(
 
         let addr = identifier_to_socket_addr(identifier);
 
+        // While the controller is busy its queue of connections may be full
+        set_send_timeout(&fd, 2);
         let mut r = libc::connect(
             fd.as_raw(),
             &addr as *const _ as _,
@@ -148,6 +166,7 @@ pub(crate) fn look_up(
                 _ => Error::IoError(err),
             });
         }
+        set_send_timeout(&fd, 0);
         let _ = libc::setsockopt(
             fd.as_raw(),
             libc::SOL_SOCKET,
-- 
2.43.0

