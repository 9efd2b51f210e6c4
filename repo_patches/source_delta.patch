From 4459785853b4f9414346d4810cfbf67210981118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 01/31] fix: a panic in a forked child must not unwind into the
 service

---
 src/procs.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index d8eb0de..af8d4a0 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -517,6 +517,21 @@ fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
     exe.unwrap_or(argv[0].clone())
 }
 
+/// Exit code of a child process that fails before exec.
+const CHILD_EXIT_CODE: i32 = 63;
+
+/// Ends the (child) process when dropped.
+///
+/// A panic in a forked child must not unwind back into the service, of which
+/// the child would then run a second copy.
+struct ExitOnDrop;
+
+impl Drop for ExitOnDrop {
+    fn drop(&mut self) {
+        std::process::exit(CHILD_EXIT_CODE);
+    }
+}
+
 //------------------------------------------------------------------------------
 
 /// Starts zero or more new processes.  `input` maps new proc IDs to
@@ -578,7 +593,8 @@ pub fn start_procs(
         // Fork the child process.
         match fork() {
             Ok(0) => {
-                // In the child process.
+                // In the child process.  Never leave it other than by exec or exit.
+                let _exit_on_drop = ExitOnDrop;
 
                 // Set up to write errors, if any, back to the parent.
                 let error_writer = error_pipe.in_child().unwrap();
@@ -617,7 +633,7 @@ pub fn start_procs(
                     error_writer.try_write(format!("execve failed: {}: {}", exe, err));
                 }
 
-                std::process::exit(63);
+                std::process::exit(CHILD_EXIT_CODE);
             }
 
             Ok(child_pid) => {
-- 
2.43.0


From 2aec5b0e5ba1ae5931af0e9758a69fa557c1f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 02/31] fix: report nul bytes in exe, argv, env and paths as
 errors rather than panic in the child; nul-terminate execv path

---
 src/sys.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index b2a3883..e17d93f 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -7,6 +7,7 @@ use std::io;
 use std::io::{Read, Seek};
 use std::mem::MaybeUninit;
 use std::os::fd::{FromRawFd, IntoRawFd, RawFd};
+use std::os::unix::ffi::OsStrExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
 use std::vec::Vec;
@@ -38,16 +39,17 @@ impl CStringVec {
     }
 }
 
-impl<T> From<T> for CStringVec
-where
-    T: IntoIterator<Item = String>,
-{
-    fn from(strings: T) -> Self {
+impl CStringVec {
+    /// Fails if any of the strings contains a nul byte.
+    pub fn new<T>(strings: T) -> io::Result<Self>
+    where
+        T: IntoIterator<Item = String>,
+    {
         // Build nul-terminated strings.
         let strs = strings
             .into_iter()
-            .map(|s| CString::new(s).unwrap())
-            .collect::<Vec<_>>();
+            .map(|s| CString::new(s))
+            .collect::<Result<Vec<_>, _>>()?;
 
         // Grab their pointers into an array.
         let mut ptrs = strs
@@ -57,7 +59,7 @@ where
         // NULL-terminate the pointer array.
         ptrs.push(std::ptr::null());
 
-        Self { strs, ptrs }
+        Ok(Self { strs, ptrs })
     }
 }
 
@@ -82,7 +84,9 @@ pub fn dup2(fd: fd_t, fd2: fd_t) -> io::Result<()> {
 }
 
 pub fn execv(exe: String, args: Vec<String>) -> io::Result<()> {
-    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, CStringVec::from(args).as_ptr()) };
+    let exe = CString::new(exe)?;
+    let args = CStringVec::new(args)?;
+    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, args.as_ptr()) };
     // execv only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -95,14 +99,10 @@ pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
         .map(|(n, v)| format!("{}={}", n, v))
         .collect();
 
-    let exe = CString::new(exe).unwrap();
-    let res = unsafe {
-        libc::execve(
-            exe.as_ptr() as *const i8,
-            CStringVec::from(args).as_ptr(),
-            CStringVec::from(env).as_ptr(),
-        )
-    };
+    let exe = CString::new(exe)?;
+    let args = CStringVec::new(args)?;
+    let env = CStringVec::new(env)?;
+    let res = unsafe { libc::execve(exe.as_ptr() as *const i8, args.as_ptr(), env.as_ptr()) };
     // execve only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -163,10 +163,8 @@ pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
 }
 
 pub fn open(path: &Path, oflag: c_int, mode: c_int) -> io::Result<fd_t> {
-    let fd = unsafe {
-        let path = CString::new(path.to_str().unwrap()).unwrap();
-        libc::open(path.as_ptr() as *const i8, oflag, mode)
-    };
+    let path = CString::new(path.as_os_str().as_bytes())?;
+    let fd = unsafe { libc::open(path.as_ptr() as *const i8, oflag, mode) };
     match fd {
         -1 => Err(io::Error::last_os_error()),
         _ if fd >= 0 => Ok(fd),
-- 
2.43.0


From e58aec9a03a028e199d2ee80533b4391671f7fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 03/31] fix: truncate over-long child error messages rather
 than panic in the child

---
 src/err_pipe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 0cdcce9..e8c2855 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -37,8 +37,8 @@ pub struct ErrorWriter {
 impl ErrorWriter {
     pub fn write(&self, error: String) -> Result<()> {
         let bytes = error.as_bytes();
-        // Encode the message len, which cannot be more than 64.
-        assert!(bytes.len() <= u16::MAX as usize);
+        // Truncate the message, as its len is encoded in 16 bits.
+        let bytes = &bytes[..bytes.len().min(u16::MAX as usize)];
         let mut len = BytesMut::with_capacity(2);
         len.put_u16_le(bytes.len() as u16);
 
-- 
2.43.0


From b9efdaf8507b9f53aa2f772816caf2686252e11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 04/31] fix: empty argv must not panic the service

---
 src/procs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/procs.rs b/src/procs.rs
index af8d4a0..f0e459e 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -513,8 +513,9 @@ pub fn get_restricted_exe() -> Option<String> {
 
 /// Returns the path to the executable to exec for the process.
 fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
-    // Use the explicit exe, if given, else argv[0] per convention.
-    exe.unwrap_or(argv[0].clone())
+    // Use the explicit exe, if given, else argv[0] per convention.  With neither,
+    // exec reports the error.
+    exe.or_else(|| argv.first().cloned()).unwrap_or_default()
 }
 
 /// Exit code of a child process that fails before exec.
-- 
2.43.0


From 6068daa927509d19c03543a67b7be7791e795bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 05/31] fix: reading a capture file must not close it on error,
 move its shared offset, or fail past its end

---
 src/sys.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index e17d93f..f0442ee 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -4,10 +4,10 @@ use libc::{c_int, gid_t, pid_t, rusage, ssize_t, uid_t};
 use std::ffi::CString;
 use std::fs;
 use std::io;
-use std::io::{Read, Seek};
-use std::mem::MaybeUninit;
-use std::os::fd::{FromRawFd, IntoRawFd, RawFd};
+use std::mem::{ManuallyDrop, MaybeUninit};
+use std::os::fd::{FromRawFd, RawFd};
 use std::os::unix::ffi::OsStrExt;
+use std::os::unix::fs::FileExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
 use std::vec::Vec;
@@ -201,26 +201,16 @@ pub fn read(fd: fd_t, buf: &mut [u8]) -> io::Result<usize> {
 }
 
 /// Reads the contents of a file, starting from position `start`, until position
-/// `stop` or the end.
+/// `stop` or the end, whichever is first.
 pub fn read_from_file(fd: RawFd, start: u64, stop: Option<u64>) -> io::Result<Vec<u8>> {
-    // Wrap the fd in a file object, for convenience.  This takes ownership of the fd.
-    let mut file = unsafe { fs::File::from_raw_fd(fd) };
-    // Seek to front.
-    file.seek(std::io::SeekFrom::Start(start))?;
-    let buf = if let Some(stop) = stop {
-        // Read to indicated stop position.
-        let mut buf = vec![0; if start < stop { stop - start } else { 0 } as usize];
-        file.read_exact(&mut buf)?;
-        buf
-    } else {
-        // Read entire contents.
-        let mut buf = Vec::<u8>::new();
-        file.read_to_end(&mut buf)?;
-        buf
-    };
-
-    // Take back ownership of the fd.
-    assert!(file.into_raw_fd() == fd);
+    // Wrap the fd in a file object, for convenience, but don't close it.
+    let file = ManuallyDrop::new(unsafe { fs::File::from_raw_fd(fd) });
+    let len = file.metadata()?.len();
+    let stop = stop.map_or(len, |stop| stop.min(len));
+    let mut buf = vec![0; stop.saturating_sub(start) as usize];
+    // Use a positional read: a running process that writes to the file shares
+    // its offset.
+    file.read_exact_at(&mut buf, start)?;
     Ok(buf)
 }
 
-- 
2.43.0


From 783085ee4d5ad2c1eb9003705c81dff443f2890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 06/31] fix: clip fd data requests to the captured data; reject
 negative ranges

---
 src/fd.rs    | 4 +++-
 src/proto.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index 8abb461..556236d 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -480,7 +480,9 @@ impl SharedFdHandler {
             }),
 
             FdHandler::CaptureMemory { buf, encoding, .. } => {
-                let stop = stop.unwrap_or_else(|| buf.len());
+                // Clip the range to available data.
+                let stop = stop.map_or(buf.len(), |stop| stop.min(buf.len()));
+                let start = start.min(stop);
                 Some(FdData {
                     data: buf[start..stop].to_vec(),
                     encoding: *encoding,
diff --git a/src/proto.rs b/src/proto.rs
index 8e7a107..83c30d2 100644
--- a/src/proto.rs
+++ b/src/proto.rs
@@ -240,6 +240,9 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
             start,
             stop,
         } => match parse_fd(fd_name) {
+            Ok(_) if start < 0 || stop.map_or(false, |s| s < 0) => {
+                Some(incoming_error(msg, "invalid range"))
+            }
             Ok(fd) => {
                 if let Some(proc) = procs.get(proc_id) {
                     match proc
@@ -250,7 +253,7 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
                             proc_id: proc_id.clone(),
                             fd: fd_name.clone(),
                             start,
-                            stop: stop.unwrap_or_else(|| start + (data.len() as i64)),
+                            stop: start + (data.len() as i64),
                             encoding,
                             data,
                         }),
-- 
2.43.0


From 093b784af2005c41a72ccc0e56e60b3b88f01b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 07/31] fix: a signal without a name must not panic the service

---
 src/procinfo.rs | 2 +-
 src/res.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index c9f66d2..06459da 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -245,7 +245,7 @@ impl ProcStat {
         let exit_signal = if exit_signal == 0 {
             None
         } else {
-            Some(sig::get_abbrev(exit_signal).unwrap().to_owned())
+            sig::get_abbrev(exit_signal).map(|n| n.to_owned())
         };
         let processor = parts.next().unwrap().parse().unwrap();
         let rt_priority = parts.next().unwrap().parse().unwrap();
diff --git a/src/res.rs b/src/res.rs
index ac283a9..88fba68 100644
--- a/src/res.rs
+++ b/src/res.rs
@@ -183,7 +183,7 @@ impl Status {
                 (None, Some(libc::WTERMSIG(status)), libc::WCOREDUMP(status))
             }
         };
-        let signal = signum.map(|s| sig::get_abbrev(s).unwrap().to_owned());
+        let signal = signum.and_then(|s| sig::get_abbrev(s).map(|n| n.to_owned()));
         Self {
             status,
             exit_code,
-- 
2.43.0


From 0edf4f390af2c2e03433e044b40f5cea89980371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 08/31] fix: a command name with a paren must not panic the
 service

---
 src/procinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 06459da..8455fe1 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -186,7 +186,8 @@ impl ProcStat {
         let pid = pid.parse::<pid_t>().unwrap();
 
         let (_, text) = text.split_once('(').unwrap();
-        let (comm, text) = text.split_once(')').unwrap();
+        // The command name may itself contain parens.
+        let (comm, text) = text.rsplit_once(')').unwrap();
         let comm = comm.to_owned();
         let text = text.trim();
 
-- 
2.43.0


From 9b29770e5875775b43f778968518bf1ed8258614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 09/31] fix: decode of tty minor device numbers above 255

---
 src/procinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 8455fe1..0f10f02 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -200,7 +200,7 @@ impl ProcStat {
         let tty_nr = parts.next().unwrap().parse::<u32>().unwrap();
         let tty_nr = (
             ((tty_nr >> 8) & 0xff) as u16,
-            ((tty_nr >> 16) | (tty_nr & 0xff)) as u16,
+            (((tty_nr >> 12) & 0xff00) | (tty_nr & 0xff)) as u16,
         );
         let tpgid = parts.next().unwrap();
         let tpgid = if tpgid == "-1" {
-- 
2.43.0


From df729daf3acf6033590a439500aa312acdaf7e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 10/31] fix: never signal the pid of a process that was already
 reaped

---
 src/procs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index f0e459e..e12d277 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -67,6 +67,10 @@ impl Proc {
     }
 
     pub fn send_signal(&self, signum: Signum) -> Result<(), Error> {
+        if self.wait_info.is_some() {
+            // Already reaped; the pid may belong to an unrelated process.
+            return Err(Error::NoProc);
+        }
         match kill(self.pid, signum) {
             Ok(()) => Ok(()),
             Err(err) if err.kind() == std::io::ErrorKind::NotFound => Err(Error::NoProc),
-- 
2.43.0


From 7be086bbccfbf9f0ec444646c98a2d1c7a4acef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 11/31] fix: HTTP status 409 to delete a running process or
 signal a completed one, as documented

---
 src/http.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 9bed9fc..de45b8a 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -95,6 +95,9 @@ async fn procs_id_delete(procs: SharedProcs, proc_id: &str) -> JsonResult {
             }))
         }
         Err(Error::NoProcId(_)) => Err(RspError(StatusCode::NOT_FOUND, None)),
+        Err(err @ Error::ProcRunning(_)) => {
+            Err(RspError(StatusCode::CONFLICT, Some(err.to_string())))
+        }
         Err(err) => Err(RspError::bad_request(&err.to_string())),
     }
 }
@@ -119,7 +122,10 @@ async fn procs_signal_signum_post(procs: SharedProcs, proc_id: &str, signum: &st
         .ok_or_else(|| RspError(StatusCode::NOT_FOUND, None))?;
     proc.borrow()
         .send_signal(signum)
-        .map_err(|e| RspError::bad_request(&e.to_string()))?;
+        .map_err(|err| match err {
+            Error::NoProc => RspError(StatusCode::CONFLICT, Some(err.to_string())),
+            err => RspError::bad_request(&err.to_string()),
+        })?;
     Ok(json!({
         // FIXME
     }))
-- 
2.43.0


From 8680752e75d9a88670d4582c4985a9e25d5de8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 12/31] fix: subscribe to notifications before registering the
 agent, so that none is lost

---
 src/agent.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index c5c3699..7d8939b 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -208,6 +208,10 @@ pub async fn run(
             break;
         }
 
+        // Subscribe before connecting, so that we miss no notification after
+        // the state in the Register message was captured.
+        let mut sub = procs.subscribe();
+
         // (Re)connect to the service.
         info!("agent connecting: {}", connection.url);
         let (mut sender, mut receiver) = match connect(&mut connection, &procs).await
@@ -243,8 +247,6 @@ pub async fn run(
         interval = cfg.interval_start;
         count = 0;
 
-        let mut sub = procs.subscribe();
-
         // Simultaneously wait for an incoming websocket message or a
         // notification, dispatching either.  Also watch for shutdown.
         while !done {
-- 
2.43.0


From ef4a4d3792be2af40060b77bca7211ce6cfc3590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 13/31] fix: capture and pipe fds leaked into unrelated procs,
 and were closed in the child if numbered as the target fd

---
 src/fd.rs  | 18 +++++++-----------
 src/sys.rs | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index 556236d..45232dd 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -2,6 +2,7 @@ use libc::c_int;
 use log::*;
 use std::cell::RefCell;
 use std::collections::BTreeMap;
+use std::mem::ManuallyDrop;
 use std::os::fd::RawFd;
 use std::path::PathBuf;
 use std::rc::Rc;
@@ -405,7 +406,8 @@ impl SharedFdHandler {
     }
 
     pub fn in_child(self) -> Result<()> {
-        match Rc::into_inner(self.0).unwrap().into_inner() {
+        // In the child, fds are moved into place; don't close them on drop.
+        match *ManuallyDrop::new(Rc::into_inner(self.0).unwrap().into_inner()) {
             FdHandler::Inherit => {}
 
             FdHandler::Error { ref mut err } => return Err(std::mem::replace(err, Error::None)),
@@ -434,10 +436,7 @@ impl SharedFdHandler {
             }
 
             FdHandler::UnlinkedFile { fd, file_fd, .. } => {
-                if file_fd != fd {
-                    sys::dup2(file_fd, fd)?;
-                    // Don't close file_fd; we'll close it in FdHandler::drop().
-                }
+                sys::move_fd(file_fd, fd)?;
             }
 
             FdHandler::CaptureMemory {
@@ -449,20 +448,17 @@ impl SharedFdHandler {
                 // In the child, don't read from the pipe.
                 sys::close(read_fd)?;
                 // Attach the write pipe to the target fd.
-                sys::dup2(write_fd, fd)?;
-                sys::close(write_fd)?;
+                sys::move_fd(write_fd, fd)?;
             }
 
             FdHandler::PipeWrite { fd, pipe_write_fd } => {
                 // Attach the write pipe to the target fd.
-                sys::dup2(pipe_write_fd, fd)?;
-                sys::close(pipe_write_fd)?;
+                sys::move_fd(pipe_write_fd, fd)?;
             }
 
             FdHandler::PipeRead { fd, pipe_read_fd } => {
                 // Attach the read pipe to the target fd.
-                sys::dup2(pipe_read_fd, fd)?;
-                sys::close(pipe_read_fd)?;
+                sys::move_fd(pipe_read_fd, fd)?;
             }
         }
 
diff --git a/src/sys.rs b/src/sys.rs
index f0442ee..307c7dc 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -83,6 +83,25 @@ pub fn dup2(fd: fd_t, fd2: fd_t) -> io::Result<()> {
     }
 }
 
+/// Like `dup2()`, and `fd2` is not close-on-exec even if it is the same as `fd`.
+pub fn dup2_inherit(fd: fd_t, fd2: fd_t) -> io::Result<()> {
+    if fd == fd2 {
+        let flags = fcntl_getfd(fd)?;
+        fcntl_setfd(fd, flags & !libc::FD_CLOEXEC)
+    } else {
+        dup2(fd, fd2)
+    }
+}
+
+/// Moves `fd` to `fd2`, which is not close-on-exec.
+pub fn move_fd(fd: fd_t, fd2: fd_t) -> io::Result<()> {
+    dup2_inherit(fd, fd2)?;
+    if fd != fd2 {
+        close(fd)?;
+    }
+    Ok(())
+}
+
 pub fn execv(exe: String, args: Vec<String>) -> io::Result<()> {
     let exe = CString::new(exe)?;
     let args = CStringVec::new(args)?;
@@ -149,16 +168,20 @@ pub fn setsid() -> io::Result<pid_t> {
     }
 }
 
+/// Creates and opens a temporary file; its fd is close-on-exec.
 pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
     let path = CString::new(template)?;
     let (fd, path) = unsafe {
         let ptr = path.into_raw();
-        (libc::mkstemp(ptr), CString::from_raw(ptr))
+        (
+            libc::mkostemp(ptr, libc::O_CLOEXEC),
+            CString::from_raw(ptr),
+        )
     };
     match fd {
         -1 => Err(io::Error::last_os_error()),
         _ if fd >= 0 => Ok((PathBuf::from(path.into_string().unwrap()), fd)),
-        _ => panic!("mkstemp returned {}", fd),
+        _ => panic!("mkostemp returned {}", fd),
     }
 }
 
@@ -179,16 +202,17 @@ pub struct RWPair<T> {
 
 /// Creates an anonymous pipe.
 ///
-/// Returns the read and write file descriptors of the ends of the pipe.
+/// Returns the read and write file descriptors of the ends of the pipe.  Both are
+/// close-on-exec, so that unrelated procs don't inherit them.
 pub fn pipe() -> io::Result<RWPair<RawFd>> {
     let mut fildes: Vec<fd_t> = vec![-1, 2];
-    match unsafe { libc::pipe(fildes.as_mut_ptr()) } {
+    match unsafe { libc::pipe2(fildes.as_mut_ptr(), libc::O_CLOEXEC) } {
         -1 => Err(io::Error::last_os_error()),
         0 => Ok(RWPair {
             read: fildes[0],
             write: fildes[1],
         }),
-        ret => panic!("pipe returned {}", ret),
+        ret => panic!("pipe2 returned {}", ret),
     }
 }
 
-- 
2.43.0


From 8f68c3edafede9ee4aa3eb2b56124f975302e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 14/31] fix: a burst of notifications must not panic the
 service

---
 src/agent.rs |  7 +++++++
 src/procs.rs | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/agent.rs b/src/agent.rs
index 7d8939b..4c9ef01 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -155,6 +155,8 @@ fn notification_to_message(procs: &SharedProcs, noti: Notification) -> Option<Ou
         Notification::ShutDown(shutdown_state) => {
             Some(OutgoingMessage::ShutDown { shutdown_state })
         }
+
+        Notification::Lagged => None,
     }
 }
 
@@ -296,6 +298,11 @@ pub async fn run(
                 // Wait for a notification to arrive on the channel.
                 sub_noti = sub.recv() => {
                     match sub_noti {
+                        Some(Notification::Lagged) => {
+                            // Reconnect, to register our current state.
+                            warn!("notifications missed; reconnecting");
+                            break;
+                        },
                         Some(noti) => {
                             if let Notification::ShutDown(shutdown::State::Done) = noti {
                                 done = true
diff --git a/src/procs.rs b/src/procs.rs
index e12d277..82071ca 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -206,6 +206,9 @@ pub enum Notification {
 
     /// Notification of change in shutdown state.
     ShutDown(shutdown::State),
+
+    /// The subscriber fell behind and missed some notifications.
+    Lagged,
 }
 
 type NotificationSender = broadcast::Sender<Notification>;
@@ -220,7 +223,10 @@ impl NotificationSub {
         match self.receiver.recv().await {
             Ok(noti) => Some(noti),
             Err(RecvError::Closed) => None,
-            Err(RecvError::Lagged(i)) => panic!("notification subscriber lagging: {}", i),
+            Err(RecvError::Lagged(i)) => {
+                warn!("notification subscriber lagging: {}", i);
+                Some(Notification::Lagged)
+            }
         }
     }
 }
@@ -403,6 +409,8 @@ impl SharedProcs {
                 {
                     false
                 }
+                // May have missed it; check again.
+                Some(Notification::Lagged) => false,
                 Some(_) => true,
                 None => false,
             } {}
@@ -417,6 +425,8 @@ impl SharedProcs {
             // Wait for notification that this proc is deleted.
             while match sub.recv().await {
                 Some(Notification::Delete(i)) if i == proc_id => false,
+                // May have missed it; check again.
+                Some(Notification::Lagged) => false,
                 Some(_) => true,
                 None => false,
             } {}
-- 
2.43.0


From abc5300189264fec62c50fc54e0d20d7200854c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 15/31] fix: a 64 character hostname must not panic the service

---
 src/sys.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sys.rs b/src/sys.rs
index 307c7dc..0a0ce09 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -398,7 +398,8 @@ pub fn get_groupname() -> Option<String> {
 const HOST_NAME_MAX: usize = 64;
 
 pub fn get_hostname() -> String {
-    let mut buffer = vec![0u8; HOST_NAME_MAX];
+    // Leave space for the terminating nul.
+    let mut buffer = vec![0u8; HOST_NAME_MAX + 1];
     let ret = unsafe { libc::gethostname(buffer.as_mut_ptr() as *mut i8, buffer.len()) };
     match ret {
         0 => {
-- 
2.43.0


From eda4519883e0b7a0ece6dbba8386e54e643282e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 16/31] fix: serialize env inheritance in the form in which it
 is deserialized

---
 src/spec.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/spec.rs b/src/spec.rs
index 155b3b8..1de17e0 100644
--- a/src/spec.rs
+++ b/src/spec.rs
@@ -1,5 +1,5 @@
 use libc::c_int;
-use serde::{Deserialize, Deserializer, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::collections::{BTreeMap, HashSet};
 use std::fmt;
 use std::fs::File;
@@ -64,8 +64,7 @@ type Result<T> = std::result::Result<T, Error>;
 // Env spec
 //------------------------------------------------------------------------------
 
-#[derive(Clone, Debug, Serialize, PartialEq)]
-#[serde(deny_unknown_fields)]
+#[derive(Clone, Debug, PartialEq)]
 pub enum EnvInherit {
     None,
     All,
@@ -78,6 +77,19 @@ impl Default for EnvInherit {
     }
 }
 
+impl Serialize for EnvInherit {
+    fn serialize<S>(&self, serializer: S) -> std::result::Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        match self {
+            Self::None => serializer.serialize_bool(false),
+            Self::All => serializer.serialize_bool(true),
+            Self::Vars(vars) => vars.serialize(serializer),
+        }
+    }
+}
+
 impl<'de> Deserialize<'de> for EnvInherit {
     fn deserialize<D>(deserializer: D) -> std::result::Result<Self, D::Error>
     where
-- 
2.43.0


From 73791ea686a02c583d882a169b8a180c9e36e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 17/31] fix: mutable dataclass default prevents importing the
 agent server on Python 3.11+

---
 python/procstar/agent/proc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index b804db5..a8e1a5e 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -4,7 +4,7 @@ Processes on connected procstar instances.
 
 import asyncio
 from   collections.abc import Mapping
-from   dataclasses import dataclass
+from   dataclasses import dataclass, field
 from   functools import cached_property
 import logging
 
@@ -70,7 +70,7 @@ class FdData:
     """
     The interval of output bytes contained in this update.
     """
-    interval: Interval = Interval(0, 0)
+    interval: Interval = field(default_factory=lambda: Interval(0, 0))
 
     """
     The output encoding.
-- 
2.43.0


From cd661ae07461d4406eb73e41dceac85d82b79d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 18/31] fix: JSON of inherit, close, and pipe fd specs is not
 accepted by procstar

---
 python/procstar/spec.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/procstar/spec.py b/python/procstar/spec.py
index d6911f3..4223b01 100644
--- a/python/procstar/spec.py
+++ b/python/procstar/spec.py
@@ -86,14 +86,14 @@ class Proc:
         class Inherit:
 
             def to_jso(self):
-                return {}
+                return "inherit"
 
 
 
         class Close:
 
             def to_jso(self):
-                return {}
+                return "close"
 
 
 
@@ -184,7 +184,7 @@ class Proc:
         class PipeWrite:
 
             def to_jso(self):
-                return {}
+                return "pipe-write"
 
 
 
@@ -197,8 +197,10 @@ class Proc:
 
             def to_jso(self):
                 return {
-                    "proc_id": self.__proc_id,
-                    "fd": self.__fd,
+                    "pipe-read": {
+                        "proc_id": self.__proc_id,
+                        "fd": self.__fd,
+                    }
                 }
 
 
-- 
2.43.0


From b9ef3521255cb25ad34096fda67209dfd51cdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 19/31] fix: a message about deletion of an unknown process
 must not break the agent connection

---
 python/procstar/agent/proc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/procstar/agent/proc.py b/python/procstar/agent/proc.py
index a8e1a5e..a017f67 100644
--- a/python/procstar/agent/proc.py
+++ b/python/procstar/agent/proc.py
@@ -272,7 +272,12 @@ class Processes(Mapping):
                 get_proc(proc_id)._on_message(msg)
 
             case proto.ProcDelete(proc_id) | proto.ProcUnknown(proc_id):
-                self.__procs.pop(proc_id)._on_message(msg)
+                try:
+                    proc = self.__procs.pop(proc_id)
+                except KeyError:
+                    logger.warning(f"unknown proc on {conn_id}: {proc_id}")
+                else:
+                    proc._on_message(msg)
 
             case proto.Register:
                 # We should receive this only immediately after connection.
-- 
2.43.0


From d7be6c17114143f612c051fc43343e6ad8b0d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 20/31] fix: undefined name when an agent reconnects in another
 group

---
 python/procstar/agent/conn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/procstar/agent/conn.py b/python/procstar/agent/conn.py
index b15dfe7..28a4856 100644
--- a/python/procstar/agent/conn.py
+++ b/python/procstar/agent/conn.py
@@ -278,7 +278,7 @@ class Connections(Mapping, Subscribeable):
                 logger.warning(f"[{conn_id}] new address: {socket_info.address}")
             if group_id != old_conn.info.conn.group_id:
                 # The same instance shouldn't connect under a different group.
-                raise RuntimeError(f"[{conn_id}] new group: {group}")
+                raise RuntimeError(f"[{conn_id}] new group: {group_id}")
 
             # If the old connection websocket still open, close it.
             if not old_conn.ws.closed:
-- 
2.43.0


From 03ad5f9158678fa2c8d9f44613bd78565bceadba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 21/31] fix: closing a replaced websocket must not time out the
 agent's current connection

---
 python/procstar/agent/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/procstar/agent/server.py b/python/procstar/agent/server.py
index 0af9046..2f413c5 100644
--- a/python/procstar/agent/server.py
+++ b/python/procstar/agent/server.py
@@ -241,9 +241,10 @@ class Server:
                             done = True
                         self.connections._publish((conn_id, conn))
 
-            # Update stats.
-            conn.info.stats.connected = False
-            conn.info.stats.last_disconnect_time = now()
+            # Update stats, unless the agent has reconnected already.
+            if conn.ws is ws:
+                conn.info.stats.connected = False
+                conn.info.stats.last_disconnect_time = now()
 
             await ws.close()
 
@@ -258,8 +259,9 @@ class Server:
                 assert self.connections._pop(conn_id) is conn
 
             # Else don't drop the connection yet; the agent may reconnect.  But
-            # we may add a timeout to do this.
-            elif reconnect_timeout is not None:
+            # we may add a timeout to do this, unless the agent has reconnected
+            # already.
+            elif reconnect_timeout is not None and conn.ws is ws:
                 def on_timeout(conn):
                     logger.warning(f"reconnect timed out: {conn_id}")
                     assert self.connections._pop(conn_id) is conn
-- 
2.43.0


From 4f6e6c1deb38079e72ea5e20e72a31f9b1bd8da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 22/31] fix: HTTP client cannot send a signal by number

---
 python/procstar/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/procstar/http/client.py b/python/procstar/http/client.py
index d28ddc9..b81b2a2 100644
--- a/python/procstar/http/client.py
+++ b/python/procstar/http/client.py
@@ -91,7 +91,7 @@ class AsyncClient:
 
     async def send_signal(self, proc_id, signum):
         async with self.__request(
-                "POST", "procs", proc_id, "signals", signum
+                "POST", "procs", proc_id, "signals", str(signum)
         ) as rsp:
             rsp.raise_for_status()
 
-- 
2.43.0


From b0e0926e2b81ef941562060ba90813ea2fa7ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 23/31] fix: default agent port differs between agent and
 server

---
 python/procstar/proto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/procstar/proto.py b/python/procstar/proto.py
index 65de6af..95d3846 100644
--- a/python/procstar/proto.py
+++ b/python/procstar/proto.py
@@ -8,7 +8,7 @@ from   .lib.string import elide
 
 #-------------------------------------------------------------------------------
 
-DEFAULT_PORT = 18782
+DEFAULT_PORT = 59789
 DEFAULT_GROUP = "default"
 
 class ProtocolError(Exception):
-- 
2.43.0


From b00ebf3cdd05808486699e5ec937a0fc573b7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 24/31] fix: report failure to close pipes in the forked child

A panic here ended the child without any error for the parent.
---
 src/procs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index 82071ca..20459bf 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -632,7 +632,10 @@ pub fn start_procs(
                     });
                 }
                 // Close remaining pipes, having dup'ed those we connect to.
-                pipes.close().unwrap();
+                if let Err(err) = pipes.close() {
+                    error_writer.try_write(format!("failed to close pipes: {}", err));
+                    ok_to_exec = false;
+                }
 
                 // Put the child process into a new session, to avoid
                 // getting signals from the parent process group.
-- 
2.43.0


From 7f70d8f57ef5bfe24b9ad2e09eb38b9649ff13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 25/31] fix: shutdown state never moves backward

---
 src/procs.rs    | 6 ++++++
 src/shutdown.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index 20459bf..dec9122 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -434,7 +434,13 @@ impl SharedProcs {
     }
 
     /// Requests shutdown.
+    ///
+    /// The shutdown state only moves forward; a request for the current state,
+    /// or an earlier one, has no effect.
     pub fn set_shutdown(&self, state: shutdown::State) {
+        if state <= self.get_shutdown() {
+            return;
+        }
         self.0.borrow_mut().shutdown.0.send(state.clone()).unwrap();
         self.notify(Notification::ShutDown(state));
         self.check_idling();
diff --git a/src/shutdown.rs b/src/shutdown.rs
index cdfcd39..6790372 100644
--- a/src/shutdown.rs
+++ b/src/shutdown.rs
@@ -10,7 +10,7 @@ use crate::sig::{get_abbrev, Signum, SIGKILL, SIGTERM};
 
 //------------------------------------------------------------------------------
 
-#[derive(Clone, Debug, Deserialize, Serialize)]
+#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq, PartialOrd, Ord)]
 #[serde(rename_all = "snake_case")]
 pub enum State {
     /// Running and accepting new processes.
-- 
2.43.0


From 2a4bcbc05f5b3ce93ec99ee15062f35dc3e9163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 26/31] fix: failure to accept a connection does not end the
 HTTP service

---
 src/http.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index de45b8a..6cb41d4 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -249,7 +249,16 @@ pub async fn run_http(procs: SharedProcs, port: u16) -> Result<(), Box<dyn std::
     let router = Rc::new(Router::new());
 
     loop {
-        let (stream, _) = listener.accept().await?;
+        let (stream, _) = match listener.accept().await {
+            Ok(conn) => conn,
+            Err(err) => {
+                // For example, too many open files.  Don't give up the service
+                // for this; try again in a moment.
+                eprintln!("Error accepting connection: {:?}", err);
+                tokio::time::sleep(std::time::Duration::from_millis(100)).await;
+                continue;
+            }
+        };
         let procs = procs.clone();
         let router = router.clone();
 
-- 
2.43.0


From 1042b4b043ace0a715fbc4c1aba80ad33b68818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 27/31] fix: signal masks in process statistics name the right
 signals

---
 src/procinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 0f10f02..b403e26 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -172,7 +172,8 @@ pub struct ProcStat {
 fn expand_sig_bitmap(bits: i32) -> Vec<String> {
     let mut abbrevs = Vec::new();
     for s in 1..sig::NSIG {
-        if bits & (1 << s) != 0 {
+        // Signal s is bit s - 1.
+        if bits & (1 << (s - 1)) != 0 {
             abbrevs.push(sig::get_abbrev(s).unwrap_or("???"));
         }
     }
-- 
2.43.0


From 52617787fa851a0afc75f5f3957df794f86df4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 28/31] fix: close a capture's temporary file if it cannot be
 unlinked

---
 src/fd.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fd.rs b/src/fd.rs
index 45232dd..9fea153 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -181,7 +181,10 @@ fn open_unlinked_temp_file(
     // Open a temp file.
     let (tmp_path, tmp_fd) = sys::mkstemp(PATH_TMP_TEMPLATE)?;
     // Unlink it.
-    std::fs::remove_file(tmp_path)?;
+    if let Err(err) = std::fs::remove_file(tmp_path) {
+        sys::close(tmp_fd)?;
+        return Err(err.into());
+    }
     // Since it's unlinked, we don't have to deal with it later.
     Ok(FdHandler::UnlinkedFile {
         fd,
-- 
2.43.0


From a9cd031978ac44c0ee4d8dabfb88d90cc5454117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 29/31] fix: do not log the agent's access token

---
 src/proto.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/proto.rs b/src/proto.rs
index 83c30d2..e5b0020 100644
--- a/src/proto.rs
+++ b/src/proto.rs
@@ -139,6 +139,7 @@ pub enum OutgoingMessage {
         conn: ConnectionInfo,
         proc: ProcessInfo,
         proc_ids: Vec<ProcId>,
+        #[dbg(placeholder = "***")]
         access_token: String,
         shutdown_state: shutdown::State,
     },
-- 
2.43.0


From 2e4b7a0300549df20eaaed093e7c8dac6301401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 30/31] fix: Python specs: fds given by number are sent as
 strings, as the agent requires

---
 python/procstar/spec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/procstar/spec.py b/python/procstar/spec.py
index 4223b01..289c3c6 100644
--- a/python/procstar/spec.py
+++ b/python/procstar/spec.py
@@ -191,8 +191,8 @@ class Proc:
         class PipeRead:
 
             def __init__(self, proc_id, fd):
-                self.__proc_id = proc_id
-                self.__fd = fd
+                self.__proc_id = str(proc_id)
+                self.__fd = str(fd)
 
 
             def to_jso(self):
@@ -208,7 +208,7 @@ class Proc:
     def __init__(self, argv, *, env=Env(), fds={}):
         self.__argv = tuple( str(a) for a in argv )
         self.__env  = env
-        self.__fds = dict(fds)
+        self.__fds = { str(n): f for n, f in dict(fds).items() }
 
 
     def to_jso(self):
-- 
2.43.0


From d9eb688b5cb17447e2b076e9ac6a0c261fc130a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 31/31] fix: HTTP client: don't decode output that has no
 encoding

---
 python/procstar/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/procstar/http/client.py b/python/procstar/http/client.py
index b81b2a2..5bd278c 100644
--- a/python/procstar/http/client.py
+++ b/python/procstar/http/client.py
@@ -81,7 +81,7 @@ class AsyncClient:
                 "GET", "procs", proc_id, "output", fd, "data"
         ) as rsp:
             rsp.raise_for_status()
-            return rsp.content if rsp.encoding is None else rsp.text
+            return rsp.content if rsp.charset_encoding is None else rsp.text
 
 
     async def delete_proc(self, proc_id):
-- 
2.43.0

