From c3f9ecdf0592244c19b3dab0a75df23b5e4fbac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 01/10] fix: number shared objects consistently when Rc/Arc
 contents share objects too

The serializer assigns IDs before visiting the contents of an Rc/Arc, but the
deserializer assigned them after decoding the contents, so back references
inside nested shared objects resolved to the wrong object.
---
 src/builtins.rs |  6 ++++--
 src/serde.rs    | 22 ++++++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 026655f..7b3fd13 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -180,8 +180,9 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Rc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                let index = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.fill_cyclic(index, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Rc<T>>(id).clone()),
@@ -205,8 +206,9 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Arc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                let index = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.fill_cyclic(index, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Arc<T>>(id).clone()),
diff --git a/src/serde.rs b/src/serde.rs
index 516fd33..18a75c4 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -117,7 +117,8 @@ pub struct Deserializer {
     data: Vec<u8>,
     pub(crate) handles: std::vec::IntoIter<OwnedHandle>,
     pos: usize,
-    cyclics: Vec<Box<dyn Any>>,
+    // `None` means the object has been started but is still being deserialized
+    cyclics: Vec<Option<Box<dyn Any>>>,
 }
 
 impl Deserializer {
@@ -187,12 +188,29 @@ impl Deserializer {
 
     /// Store a reference to a newly built potentially cyclic object.
     pub fn learn_cyclic<T: 'static>(&mut self, obj: T) {
-        self.cyclics.push(Box::new(obj));
+        self.cyclics.push(Some(Box::new(obj)));
+    }
+
+    /// Allocate an ID for an object whose contents are yet to be deserialized.
+    ///
+    /// The serializer numbers objects before visiting their contents, so objects that may contain
+    /// other cyclic objects have to be numbered in the same order here.
+    pub(crate) fn reserve_cyclic(&mut self) -> usize {
+        self.cyclics.push(None);
+        self.cyclics.len() - 1
+    }
+
+    /// Store a reference to an object built under an ID obtained from
+    /// [`Deserializer::reserve_cyclic`].
+    pub(crate) fn fill_cyclic<T: 'static>(&mut self, index: usize, obj: T) {
+        self.cyclics[index] = Some(Box::new(obj));
     }
 
     /// Get a reference to an object built earlier.
     pub fn get_cyclic<T: 'static>(&self, id: NonZeroUsize) -> &T {
         self.cyclics[id.get() - 1]
+            .as_ref()
+            .expect("The cyclic object is not built yet")
             .downcast_ref()
             .expect("The cyclic object is of unexpected type")
     }
-- 
2.43.0


From 56e0646772dd1c475636b6e70bcb10f2bbfd3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 02/10] fix: receive queued values and end of stream after the
 peer closed with unread data

The kernel reports ECONNRESET once on the next receive in this case, which
recv() passed to the caller instead of the remaining values or None.
---
 src/platform/unix/internals.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 6ed9670..ac77702 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -1,6 +1,7 @@
 use crate::{imp::implements, pod::PlainOldData, Deserializer, Object, Serializer};
 use rustix::{
     cmsg_space,
+    io::Errno,
     net::{
         self, recvmsg, sendmsg, AddressFamily, RecvAncillaryBuffer, RecvAncillaryMessage,
         RecvFlags, SendAncillaryBuffer, SendAncillaryMessage, SendFlags, SocketFlags, SocketType,
@@ -176,12 +177,17 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 IoSliceMut::new(&mut data[self.data_pos..]),
             ];
 
-            let message = recvmsg(
+            let message = match recvmsg(
                 self.socket_fd,
                 &mut iovecs,
                 &mut cmsg_buffer,
                 self.flags | RecvFlags::CMSG_CLOEXEC,
-            )?;
+            ) {
+                // The peer was closed without reading everything we have sent. This is reported
+                // once, before the data the peer has sent and the end of stream.
+                Err(Errno::CONNRESET) => continue,
+                result => result?,
+            };
 
             for cmsg in cmsg_buffer.drain() {
                 let RecvAncillaryMessage::ScmRights(rights) = cmsg else {
-- 
2.43.0


From 004da20885dfee2f2be04498ce4b87651ed951e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 03/10] fix: retry socket and wait calls interrupted by signals

A signal handler without SA_RESTART made send, recv and join fail with
Interrupted, in the middle of a transfer or before the child was reaped.
---
 src/asynchronous.rs            | 10 ++++++----
 src/platform/unix/internals.rs |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 9eadaed..2f489c1 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -531,10 +531,12 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
         // This is synchronous, but should be really fast
         #[cfg(unix)]
         {
-            let status = rustix::process::waitpid(
-                Some(self.proc_handle),
-                rustix::process::WaitOptions::empty(),
-            )?
+            let status = rustix::io::retry_on_intr(|| {
+                rustix::process::waitpid(
+                    Some(self.proc_handle),
+                    rustix::process::WaitOptions::empty(),
+                )
+            })?
             .unwrap();
             if status.exit_status() == Some(0) {
                 value.ok_or_else(|| {
diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index ac77702..53fccaa 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -87,7 +87,7 @@ impl<'a> SingleObjectSender<'a> {
                 &self.fds[self.fds_pos..fds_end],
             )));
 
-            let n_written = sendmsg(
+            let n_written = match sendmsg(
                 self.socket_fd,
                 &[
                     IoSlice::new(&[is_last as u8]),
@@ -95,7 +95,10 @@ impl<'a> SingleObjectSender<'a> {
                 ],
                 &mut cmsg_buffer,
                 self.flags,
-            )?;
+            ) {
+                Err(Errno::INTR) => continue,
+                result => result?,
+            };
 
             self.data_pos += n_written - 1;
             self.fds_pos = fds_end;
@@ -186,6 +189,7 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 // The peer was closed without reading everything we have sent. This is reported
                 // once, before the data the peer has sent and the end of stream.
                 Err(Errno::CONNRESET) => continue,
+                Err(Errno::INTR) => continue,
                 result => result?,
             };
 
-- 
2.43.0


From 120f733f92d17161f27650ba703c6d8559f76ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 04/10] fix: report an error when not all handles of a value
 could be received

Without free descriptors the kernel drops handles and sets MSG_CTRUNC. This was
ignored, so deserialization panicked or assigned handles to wrong positions.
---
 src/platform/unix/internals.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 53fccaa..ee38ce5 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -203,6 +203,14 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 self.fds.extend(rights);
             }
 
+            if message.flags.bits() & libc::MSG_CTRUNC as u32 != 0 {
+                self.terminated = marker[0] == 1;
+                return Err(Error::new(
+                    ErrorKind::Other,
+                    "Failed to receive all handles, probably due to the limit on open files",
+                ));
+            }
+
             if message.bytes == 0 {
                 if self.data_pos == 0 && self.fds.is_empty() {
                     return Ok(None);
-- 
2.43.0


From a0759d702621ea73e0085c12284bdb7001075df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 05/10] fix: never continue a partially transferred object with
 the next one

If a send or receive of an object spanning several packets was cancelled (by
dropping the future) or failed halfway, the next operation continued it, so the
receiver deserialized garbage. Shut that direction down instead.
---
 src/platform/unix/internals.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index ee38ce5..89adf56 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -37,6 +37,7 @@ pub(crate) struct SingleObjectSender<'a> {
     data_pos: usize,
     fds_pos: usize,
     flags: SendFlags,
+    finished: bool,
 }
 
 impl<'a> SingleObjectSender<'a> {
@@ -69,6 +70,7 @@ impl<'a> SingleObjectSender<'a> {
             } else {
                 SendFlags::DONTWAIT
             },
+            finished: false,
         }
     }
 
@@ -104,6 +106,7 @@ impl<'a> SingleObjectSender<'a> {
             self.fds_pos = fds_end;
 
             if is_last {
+                self.finished = true;
                 return Ok(());
             }
         }
@@ -118,6 +121,16 @@ impl<'a> SingleObjectSender<'a> {
     }
 }
 
+impl Drop for SingleObjectSender<'_> {
+    fn drop(&mut self) {
+        if !self.finished && (self.data_pos > 0 || self.fds_pos > 0) {
+            // The send failed or was cancelled halfway. Make sure the next object is not
+            // interpreted as a continuation of this one.
+            let _ = net::shutdown(self.socket_fd, net::Shutdown::Write);
+        }
+    }
+}
+
 pub(crate) struct SingleObjectReceiver<'a, T: Object> {
     socket_fd: BorrowedFd<'a>,
     buffer: Vec<u8>,
@@ -125,6 +138,7 @@ pub(crate) struct SingleObjectReceiver<'a, T: Object> {
     value: MaybeUninit<T>,
     fds: Vec<OwnedFd>,
     flags: RecvFlags,
+    started: bool,
     terminated: bool,
     marker: PhantomData<fn() -> T>,
 }
@@ -144,6 +158,7 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
             } else {
                 RecvFlags::DONTWAIT
             },
+            started: false,
             terminated: false,
             marker: PhantomData,
         }
@@ -203,6 +218,8 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 self.fds.extend(rights);
             }
 
+            self.started |= message.bytes != 0;
+
             if message.flags.bits() & libc::MSG_CTRUNC as u32 != 0 {
                 self.terminated = marker[0] == 1;
                 return Err(Error::new(
@@ -252,3 +269,20 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
         }
     }
 }
+
+impl<T: Object> Drop for SingleObjectReceiver<'_, T> {
+    fn drop(&mut self) {
+        if !self.started || self.terminated {
+            return;
+        }
+        // The receive failed or was cancelled halfway. Make sure the rest of the object is not
+        // interpreted as the next one.
+        let _ = net::shutdown(self.socket_fd, net::Shutdown::Read);
+        loop {
+            match net::recv(self.socket_fd, &mut [0], RecvFlags::DONTWAIT) {
+                Ok(1) | Err(Errno::INTR | Errno::CONNRESET) => {}
+                _ => break,
+            }
+        }
+    }
+}
-- 
2.43.0


From 628855fa9b4fa2f7d9283923d5eda4718056ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 06/10] fix: reap the child in join even if receiving its
 result fails

join returned early in this case, leaving a zombie behind, and the kill handle
kept reporting success.
---
 src/asynchronous.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 2f489c1..4ed8695 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -521,10 +521,11 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
     /// it exits via [`std::process::exit`] or alike instead of returning a value, unless the return
     /// type is `()`. In that case, `Ok(())` is returned.
     pub async fn join(mut self) -> Result<T> {
-        let mut value = self.output_rx.recv().await?;
-        if let Some(void) = imp::if_void::<T>() {
+        // Even if receiving fails, the process has to be waited for
+        let mut value = self.output_rx.recv().await;
+        if let (Ok(_), Some(void)) = (&value, imp::if_void::<T>()) {
             // The value should be None at this moment
-            value = Some(void);
+            value = Ok(Some(void));
         }
         let mut guard = self.may_kill.lock().expect("Kill mutex is poisoned");
         *guard = false;
@@ -539,7 +540,7 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
             })?
             .unwrap();
             if status.exit_status() == Some(0) {
-                value.ok_or_else(|| {
+                value?.ok_or_else(|| {
                     Error::new(
                         ErrorKind::Other,
                         "The subprocess terminated without returning a value",
@@ -575,7 +576,7 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
                 .ok()?;
             }
             if code == 0 {
-                value.ok_or_else(|| {
+                value?.ok_or_else(|| {
                     Error::new(
                         ErrorKind::Other,
                         "The subprocess terminated without returning a value",
-- 
2.43.0


From 78e2a1c6073f586a91f99632db9da133325841ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 07/10] fix: do not leave a child behind if spawn fails or is
 cancelled after creating it

If the entry could not be sent, e.g. because exec failed in the child, the
process stayed around as a zombie that nothing could ever join.
---
 src/asynchronous.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 4ed8695..96555b4 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -631,6 +631,22 @@ impl fmt::Debug for KillHandle {
     }
 }
 
+/// A process that has not been given its entry yet.
+///
+/// If that fails or is cancelled, the process is useless, so dropping this does not leave it behind.
+#[cfg(unix)]
+struct StartingProcess(ProcHandle);
+
+#[cfg(unix)]
+impl Drop for StartingProcess {
+    fn drop(&mut self) {
+        let _ = rustix::process::kill_process(self.0, rustix::process::Signal::Kill);
+        let _ = rustix::io::retry_on_intr(|| {
+            rustix::process::waitpid(Some(self.0), rustix::process::WaitOptions::empty())
+        });
+    }
+}
+
 pub(crate) async unsafe fn spawn<Stream: AsyncStream, T: Object>(
     entry: Box<dyn FnOnceObject<(RawHandle,), Output = i32>>,
 ) -> Result<Child<Stream, T>> {
@@ -650,8 +666,10 @@ pub(crate) async unsafe fn spawn<Stream: AsyncStream, T: Object>(
 
     #[cfg(unix)]
     {
-        process_handle = subprocess::_spawn_child(child, &handles)?;
+        let starting = StartingProcess(subprocess::_spawn_child(child, &handles)?);
         local.send(&(s.into_vec(), raw_handles)).await?;
+        process_handle = starting.0;
+        std::mem::forget(starting);
         receiver = Receiver::from_stream(local.fd);
     }
 
-- 
2.43.0


From 5d908dba74bda18da60caa646f50b574c7667b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 08/10] fix: accept the same handle passed to a child several
 times

E.g. an Arc<File> in two Delayed arguments made the child own one descriptor
twice and abort due to an I/O safety violation.
---
 src/platform/unix/entry.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/platform/unix/entry.rs b/src/platform/unix/entry.rs
index 584d531..77d1fc0 100644
--- a/src/platform/unix/entry.rs
+++ b/src/platform/unix/entry.rs
@@ -3,6 +3,7 @@ use crate::{
     Deserializer, FnOnceObject, Receiver,
 };
 use rustix::io::{fcntl_setfd, FdFlags};
+use std::collections::HashSet;
 
 pub(crate) fn start_root() {}
 
@@ -27,9 +28,19 @@ pub(crate) fn crossmist_main(mut args: std::env::Args) -> ! {
 
     std::mem::forget(entry_rx);
 
+    // The same handle may be passed several times, but may only be owned once
+    let mut seen = HashSet::new();
     let entry_handles = entry_handles
         .into_iter()
-        .map(|handle| unsafe { OwnedHandle::from_raw_handle(handle) })
+        .map(|handle| unsafe {
+            if seen.insert(handle) {
+                OwnedHandle::from_raw_handle(handle)
+            } else {
+                BorrowedHandle::borrow_raw(handle)
+                    .try_clone_to_owned()
+                    .expect("Failed to duplicate the file descriptor")
+            }
+        })
         .collect::<Vec<_>>();
 
     for handle in &entry_handles {
-- 
2.43.0


From 5ef058899343a5081745bb8962548805e0e329dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 09/10] fix: report an error when a process is killed while
 transferring through a shared end

If another process holds a copy of the end, the leftover of the interrupted object
was merged with the next one.
---
 src/platform/unix/internals.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 89adf56..0db5fc4 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -18,6 +18,10 @@ use std::os::unix::{
 pub(crate) const MAX_PACKET_SIZE: usize = 16 * 1024;
 pub(crate) const MAX_PACKET_FDS: usize = 253; // SCM_MAX_FD
 
+// Flags in the first byte of each packet
+const FIRST_PACKET: u8 = 2;
+const LAST_PACKET: u8 = 1;
+
 pub(crate) fn socketpair() -> Result<(UnixStream, UnixStream)> {
     // UnixStream creates a SOCK_STREAM by default, while we need SOCK_SEQPACKET
     let (tx, rx) = net::socketpair(
@@ -82,7 +86,10 @@ impl<'a> SingleObjectSender<'a> {
             let buffer_end = self.data().len().min(self.data_pos + MAX_PACKET_SIZE - 1);
             let fds_end = self.fds.len().min(self.fds_pos + MAX_PACKET_FDS);
 
+            let is_first = self.data_pos == 0 && self.fds_pos == 0;
             let is_last = buffer_end == self.data().len() && fds_end == self.fds.len();
+            let marker =
+                if is_first { FIRST_PACKET } else { 0 } | if is_last { LAST_PACKET } else { 0 };
 
             cmsg_buffer.clear();
             assert!(cmsg_buffer.push(SendAncillaryMessage::ScmRights(
@@ -92,7 +99,7 @@ impl<'a> SingleObjectSender<'a> {
             let n_written = match sendmsg(
                 self.socket_fd,
                 &[
-                    IoSlice::new(&[is_last as u8]),
+                    IoSlice::new(&[marker]),
                     IoSlice::new(&self.data()[self.data_pos..buffer_end]),
                 ],
                 &mut cmsg_buffer,
@@ -218,10 +225,12 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 self.fds.extend(rights);
             }
 
+            let is_first = !self.started;
             self.started |= message.bytes != 0;
 
             if message.flags.bits() & libc::MSG_CTRUNC as u32 != 0 {
-                self.terminated = marker[0] == 1;
+                self.terminated =
+                    marker[0] == LAST_PACKET | if is_first { FIRST_PACKET } else { 0 };
                 return Err(Error::new(
                     ErrorKind::Other,
                     "Failed to receive all handles, probably due to the limit on open files",
@@ -243,8 +252,14 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 ));
             }
 
+            if (marker[0] & FIRST_PACKET != 0) != is_first {
+                // Another copy of either end has transferred only a part of an object, e.g. because
+                // its process was killed.
+                return Err(Error::new(ErrorKind::Other, "Torn data on stream"));
+            }
+
             self.data_pos += message.bytes - 1;
-            if marker[0] != 1 {
+            if marker[0] & LAST_PACKET == 0 {
                 continue;
             }
 
-- 
2.43.0


From 3365454d139e5a3791ff8fdba4a3dc66939baaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 10/10] fix: report an error from spawn whenever the child
 cannot be executed

The child aborted and the parent relied on its end of the socket being gone
by the time the arguments are sent, but with CLONE_VFORK the parent continues
before the descriptors of the child are closed.
---
 src/platform/unix/subprocess.rs | 42 ++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/platform/unix/subprocess.rs b/src/platform/unix/subprocess.rs
index c49fb2b..580451d 100644
--- a/src/platform/unix/subprocess.rs
+++ b/src/platform/unix/subprocess.rs
@@ -1,14 +1,19 @@
 use crate::{asynchronous::AsyncStream, entry, Duplex, Object};
 use libc::{c_char, c_int, c_void};
-use rustix::process::Pid;
+use rustix::{
+    io::Errno,
+    process::{waitpid, Pid, WaitOptions},
+};
 use std::ffi::{CStr, CString};
-use std::io::Result;
+use std::io::{Error, Result};
 use std::os::unix::io::{AsRawFd, BorrowedFd};
 
 struct CloneArg<'a> {
     child_fd: BorrowedFd<'a>,
     child_fd_str: &'a CStr,
     inherited_fds: &'a [BorrowedFd<'a>],
+    // Set by the child, which shares memory with us, if it cannot be executed
+    error: Option<Error>,
 }
 
 pub(crate) unsafe fn _spawn_child<S: Object, R: Object>(
@@ -16,10 +21,11 @@ pub(crate) unsafe fn _spawn_child<S: Object, R: Object>(
     inherited_fds: &[BorrowedFd<'_>],
 ) -> Result<Pid> {
     let child_fd_str = CString::new(child_fd.as_raw_fd().to_string()).unwrap();
-    let clone_arg = CloneArg {
+    let mut clone_arg = CloneArg {
         child_fd: child_fd.0.fd.as_handle(),
         child_fd_str: &child_fd_str,
         inherited_fds,
+        error: None,
     };
 
     let mut stack = [0u8; 4096];
@@ -27,29 +33,33 @@ pub(crate) unsafe fn _spawn_child<S: Object, R: Object>(
         clone_callback,
         stack.as_mut_ptr_range().end as *mut c_void,
         libc::CLONE_VM | libc::CLONE_VFORK | libc::SIGCHLD,
-        &clone_arg as *const CloneArg as *mut c_void,
+        &mut clone_arg as *mut CloneArg as *mut c_void,
     );
 
     if result < 0 {
-        Err(std::io::Error::last_os_error())
-    } else {
-        Ok(Pid::from_raw(result as i32).unwrap())
+        return Err(Error::last_os_error());
     }
+
+    // CLONE_VFORK ensures that the child has either been executed or failed by now
+    let pid = Pid::from_raw(result as i32).unwrap();
+    if let Some(error) = clone_arg.error {
+        while let Err(Errno::INTR) = waitpid(Some(pid), WaitOptions::empty()) {}
+        return Err(error);
+    }
+    Ok(pid)
 }
 
 // XXX: The signature of libc::clone forces this function to be safe when in reality it isn't
 // (calling it with an arbitrary arg may be unsound). libc 1.0 is going to fix that, see
 // https://github.com/rust-lang/libc/issues/2198.
 extern "C" fn clone_callback(arg: *mut c_void) -> c_int {
-    // Use abort() instead of panic!() to prevent stack unwinding, as unwinding in the fork child
-    // may free resources that would later be freed in the original process
-    match fork_child_main(unsafe { &*(arg as *mut CloneArg) }) {
-        Ok(()) => unreachable!(),
-        Err(e) => {
-            eprintln!("{e}");
-            std::process::abort();
-        }
+    // Use _exit() instead of panic!() to prevent stack unwinding, as unwinding in the fork child may
+    // free resources that would later be freed in the original process
+    let arg = unsafe { &mut *(arg as *mut CloneArg) };
+    if let Err(e) = fork_child_main(arg) {
+        arg.error = Some(e);
     }
+    unsafe { libc::_exit(127) }
 }
 
 fn fork_child_main(arg: &CloneArg) -> Result<()> {
@@ -70,5 +80,5 @@ fn fork_child_main(arg: &CloneArg) -> Result<()> {
         );
     }
 
-    Err(std::io::Error::last_os_error())
+    Err(Error::last_os_error())
 }
-- 
2.43.0

