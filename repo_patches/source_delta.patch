From 15f1cb088b9726ec6fdf9651562c5f490df0bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 18:24:19 +0000
Subject: [PATCH 01/62] fix: report errors raised by eql? during table lookup

A lookup treated an error returned by the equality callback as a mismatch
and went on probing. The error is now returned to the caller and no
further callback runs.
---
 hashbrown/src/raw/mod.rs | 45 +++++++++++++++++++++++++++++-----------
 hashbrown/src/set.rs     |  2 +-
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 46a7978..da9cf79 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -1011,17 +1011,27 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 3. The `find_or_find_insert_slot_inner` function returns the `index` of only the full bucket,
             //    which is in the range `0..self.buckets()` (since there is at least one empty `bucket` in
             //    the table), so calling `self.bucket(index)` and `Bucket::as_ref` is safe.
-            Ok(
-                match self
-                    .table
-                    .find_or_find_insert_slot_inner(hash, &mut |index| {
-                        eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
-                    }) {
-                    // SAFETY: See explanation above.
-                    Ok(index) => Ok(self.bucket(index)),
-                    Err(slot) => Err(slot),
-                },
-            )
+            // An error of `eq` ends the search at once and is returned to the caller.
+            let mut error = None;
+            let result = self
+                .table
+                .find_or_find_insert_slot_inner(hash, &mut |index| {
+                    match eq(self.bucket(index).as_ref(), e, g) {
+                        Ok(found) => found,
+                        Err(err) => {
+                            error = Some(err);
+                            true
+                        }
+                    }
+                });
+            if let Some(err) = error {
+                return Err(err);
+            }
+            Ok(match result {
+                // SAFETY: See explanation above.
+                Ok(index) => Ok(self.bucket(index)),
+                Err(slot) => Err(slot),
+            })
         }
     }
 
@@ -1093,9 +1103,20 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 1. The `find_inner` function returns the `index` of only the full bucket, which is in
             //    the range `0..self.buckets()`, so calling `self.bucket(index)` and `Bucket::as_ref`
             //    is safe.
+            // An error of `eq` ends the search at once and is returned to the caller.
+            let mut error = None;
             let result = self.table.find_inner(hash, &mut |index| {
-                eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
+                match eq(self.bucket(index).as_ref(), e, g) {
+                    Ok(found) => found,
+                    Err(err) => {
+                        error = Some(err);
+                        true
+                    }
+                }
             });
+            if let Some(err) = error {
+                return Err(err);
+            }
 
             // Avoid `Option::map` because it bloats LLVM IR.
             match result {
diff --git a/hashbrown/src/set.rs b/hashbrown/src/set.rs
index 596e734..d62e9ec 100644
--- a/hashbrown/src/set.rs
+++ b/hashbrown/src/set.rs
@@ -685,7 +685,7 @@ where
             Err(slot) => {
                 let new = f(value);
                 assert!(
-                    value.equivalent(&new, e, g).unwrap_or(false), // TO_BE_FIXED
+                    value.equivalent(&new, e, g)?,
                     "new value is not equivalent"
                 );
                 unsafe { self.map.table.insert_in_slot(hash, slot, (new, ())) }
-- 
2.43.0


From 2764ebf084bec865efe9d33b6f30cdd22582e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:49 +0000
Subject: [PATCH 02/62] fix: keep lookups valid when a callback panics inside
 the ordered hash

Cloning, sorting and retain updated the entries and the index table in two
steps. A panic in a user callback between them left the table pointing at
wrong or missing entries.
---
 rubymap/src/map/core.rs | 46 +++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/rubymap/src/map/core.rs b/rubymap/src/map/core.rs
index 242642b..8fb1f0f 100644
--- a/rubymap/src/map/core.rs
+++ b/rubymap/src/map/core.rs
@@ -145,14 +145,21 @@ where
     }
 
     fn clone_from(&mut self, other: &Self) {
-        self.linear = other.linear;
-        self.indices.clone_from(&other.indices);
+        // Stay in (empty) linear mode while entries are cloned, so that a panic
+        // in a clone leaves a valid map holding the entries cloned so far.
+        self.clear();
         if self.entries.capacity() < other.entries.len() {
             // If we must resize, match the indices capacity.
             let additional = other.entries.len() - self.entries.len();
-            self.borrow_mut().reserve_entries(additional);
+            reserve_entries::<K, V, E, G, R>(
+                &mut self.entries,
+                additional,
+                other.indices.capacity(),
+            );
         }
         self.entries.clone_from(&other.entries);
+        self.indices.clone_from(&other.indices);
+        self.linear = other.linear;
     }
 }
 
@@ -178,8 +185,26 @@ impl<K, V, E, G, R> crate::Entries for IndexMapCore<K, V, E, G, R> {
     where
         F: FnOnce(&mut [Self::Entry]),
     {
-        f(&mut self.entries);
-        self.rebuild_hash_table();
+        let guard = RebuildOnDrop {
+            core: self,
+            only_if_shorter: false,
+        };
+        f(&mut guard.core.entries);
+    }
+}
+
+/// Brings the index table back in step with the entries, even when a callback
+/// working on the entries panics.
+struct RebuildOnDrop<'a, K, V, E, G, R> {
+    core: &'a mut IndexMapCore<K, V, E, G, R>,
+    only_if_shorter: bool,
+}
+
+impl<K, V, E, G, R> Drop for RebuildOnDrop<'_, K, V, E, G, R> {
+    fn drop(&mut self) {
+        if !self.only_if_shorter || self.core.entries.len() < self.core.indices.len() {
+            self.core.rebuild_hash_table();
+        }
     }
 }
 
@@ -951,11 +976,14 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
     where
         F: FnMut(&mut K, &mut V) -> bool,
     {
-        self.entries
+        let guard = RebuildOnDrop {
+            core: self,
+            only_if_shorter: true,
+        };
+        guard
+            .core
+            .entries
             .retain_mut(|entry| keep(&mut entry.key, &mut entry.value));
-        if !self.linear && self.entries.len() < self.indices.len() {
-            self.rebuild_hash_table();
-        }
     }
 
     fn rebuild_hash_table(&mut self) {
-- 
2.43.0


From 35cdb811c8b2ed00cb59b68f104945e5fbaf1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:40 +0000
Subject: [PATCH 03/62] fix: keep every pair when a key callback raises during
 append

Append drained the source first, so an error from hash or eql? dropped the
pairs that had not been moved yet. All key callbacks now run before the
first pair moves.
---
 rubymap/src/map.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/rubymap/src/map.rs b/rubymap/src/map.rs
index 1e42989..88491b8 100644
--- a/rubymap/src/map.rs
+++ b/rubymap/src/map.rs
@@ -744,7 +744,25 @@ where
         e: &mut E,
         g: &mut G,
     ) -> Result<(), R> {
-        self.extend(other.drain(.., e, g)?, e, g)
+        // Run every key callback before moving anything, so that an error
+        // leaves both maps as they were.
+        let mut targets = Vec::with_capacity(other.len());
+        for key in other.keys() {
+            let hash = self.hash(key, e, g)?;
+            targets.push((hash, self.core.get_index_of(hash, key, e, g)?));
+        }
+        let new_keys = targets.iter().filter(|(_, i)| i.is_none()).count();
+        self.reserve(new_keys);
+        for ((hash, index), (key, value)) in targets.into_iter().zip(other.drain(.., e, g)?) {
+            match index {
+                Some(i) => self.as_entries_mut()[i].value = value,
+                None => {
+                    self.core
+                        .insert_full_prehashed_with(hash, key, value, |_| false);
+                }
+            }
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From a41152fa1ba6a60d68db9ab6ab886414f07d2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:10 +0000
Subject: [PATCH 04/62] fix: keep the element count right when a hasher panics
 during in-place rehash

Elements without a destructor that had not been rehashed yet were dropped
from the control bytes but still counted, so iteration ran past the table.
---
 hashbrown/src/raw/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index da9cf79..1cd94be 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2679,12 +2679,12 @@ impl RawTableInner {
         self.prepare_rehash_in_place();
 
         let mut guard = guard(self, move |self_| {
-            if let Some(drop) = drop {
-                for i in 0..self_.buckets() {
-                    if *self_.ctrl(i) == Tag::DELETED {
-                        self_.set_ctrl(i, Tag::EMPTY);
+            for i in 0..self_.buckets() {
+                if *self_.ctrl(i) == Tag::DELETED {
+                    self_.set_ctrl(i, Tag::EMPTY);
+                    self_.items -= 1;
+                    if let Some(drop) = drop {
                         drop(self_.bucket_ptr(i, size_of));
-                        self_.items -= 1;
                     }
                 }
             }
-- 
2.43.0


From a98d784760c2878ad579aa91367090d5d32b0d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:21 +0000
Subject: [PATCH 05/62] fix: keep pushed-back bytes when a line read is
 interrupted

A line read takes the pushed-back bytes first. When a signal or a wait
then interrupted the rest of the read, these bytes were dropped and the
restarted read returned a line without its beginning.
---
 monoruby/src/value/rvalue/io.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index b91ba9e..f22464a 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1489,8 +1489,16 @@ impl IoInner {
                 }
                 None => {
                     let mut line = self.take_pushback(None);
-                    if let Some(rest) = self.read_line_bytes_underlying()? {
-                        line.extend_from_slice(&rest);
+                    match self.read_line_bytes_underlying() {
+                        Ok(Some(rest)) => line.extend_from_slice(&rest),
+                        Ok(None) => {}
+                        Err(err) => {
+                            // See `read_more_preserving`.
+                            if err.is_signal_interrupt() || err.is_would_block_interrupt() {
+                                let _ = self.unget(&line);
+                            }
+                            return Err(err);
+                        }
                     }
                     // `line` is non-empty: the pushback supplied at least
                     // one byte.
-- 
2.43.0


From ab9d89772df967f2ec487421931d4c1e117d635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:21 +0000
Subject: [PATCH 06/62] fix: discard pushed-back bytes when a stream is
 repositioned

Bytes given back with ungetc were still returned after a seek, and a
relative seek did not take them into account.
---
 monoruby/src/value/rvalue/io.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index f22464a..7639f77 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1794,7 +1794,24 @@ impl IoInner {
                         _ => std::io::Error::from_raw_os_error(EINTR),
                     });
                 }
-                Rc::get_mut(file).unwrap().reader.seek(seek_from)
+                let file = Rc::get_mut(file).unwrap();
+                // `seek(0, SEEK_CUR)` is a position query: the caller
+                // accounts for the pushback itself.
+                if whence == 1 && offset == 0 {
+                    return file.reader.seek(seek_from);
+                }
+                // The pushback lies before the fd's position, and is void
+                // once the position moves.
+                let seek_from = match seek_from {
+                    SeekFrom::Current(n) => {
+                        let pushback = file.pushback.borrow().len() as i64;
+                        SeekFrom::Current(n.saturating_sub(pushback))
+                    }
+                    s => s,
+                };
+                let pos = file.reader.seek(seek_from)?;
+                file.pushback.borrow_mut().clear();
+                Ok(pos)
             }
             IoKind::Closed(..) => Err(std::io::Error::from_raw_os_error(9)), // EBADF
             _ => Err(std::io::Error::from_raw_os_error(ESPIPE)),
-- 
2.43.0


From c710d8ab1b8cb60d5cea6ec092bb058d77dccf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:21 +0000
Subject: [PATCH 07/62] fix: write at the logical position after a buffered
 read

Reading a line or a character of a file opened for reading and writing
reads ahead, so the descriptor is past the position the program sees. A
write that followed went to the descriptor's position instead.
---
 monoruby/src/value/rvalue/io.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 7639f77..26804c5 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -453,6 +453,26 @@ impl FileDescriptor {
     }
 }
 
+/// Move the fd of a seekable stream back to its logical position before a
+/// write: read-ahead and pushback leave the fd behind that position
+/// (CRuby's `io_unread`). A stream that cannot seek keeps its input.
+fn unread_before_write(file: &mut Rc<FileDescriptor>) -> std::result::Result<(), DrainErr> {
+    let Some(file) = Rc::get_mut(file) else {
+        return Ok(());
+    };
+    let pushback = file.pushback.borrow().len();
+    if pushback == 0 && file.reader.buffer().is_empty() {
+        return Ok(());
+    }
+    file.drain_wbuf()?;
+    match file.reader.seek(SeekFrom::Current(-(pushback as i64))) {
+        Ok(_) => file.pushback.borrow_mut().clear(),
+        Err(e) if matches!(e.raw_os_error(), Some(libc::ESPIPE | libc::EINVAL)) => {}
+        Err(e) => return Err(DrainErr::Io(e)),
+    }
+    Ok(())
+}
+
 impl Drop for FileDescriptor {
     fn drop(&mut self) {
         let fd = self.reader.get_ref().as_raw_fd();
@@ -975,11 +995,14 @@ impl IoInner {
         let res = match &mut self.kind {
             IoKind::Stdout => stdout_buf().write(data, progress, &signal_pending),
             IoKind::Stderr => stderr_buf().write(data, progress, &signal_pending),
-            IoKind::File(file) => {
-                let mut wbuf = file.wbuf.borrow_mut();
-                let mut sink: &std::fs::File = file.reader.get_ref();
-                wbuf.write(&mut sink, data, progress, &signal_pending)
-            }
+            IoKind::File(file) => match unread_before_write(file) {
+                Ok(()) => {
+                    let mut wbuf = file.wbuf.borrow_mut();
+                    let mut sink: &std::fs::File = file.reader.get_ref();
+                    wbuf.write(&mut sink, data, progress, &signal_pending)
+                }
+                Err(e) => Err(e),
+            },
             IoKind::Popen(popen) => {
                 let popen = Rc::get_mut(popen).unwrap();
                 // `ensure_writable` guaranteed the writer is present.
-- 
2.43.0


From 9aedf1a0c76bd97e6c06ada43d278b441183aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:21 +0000
Subject: [PATCH 08/62] fix: do not skip buffered input in sysread and
 read_nonblock

On a stream that cannot seek, both methods read the descriptor while
earlier bytes were still buffered, so input was returned out of order.
---
 monoruby/src/value/rvalue/io.rs | 55 ++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 26804c5..ab90074 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -343,6 +343,14 @@ fn read_until_step(
     }
 }
 
+/// Take up to `max` of the bytes already sitting in `reader`'s buffer.
+fn take_buffered<T: Read>(reader: &mut IoReader<T>, max: usize) -> Vec<u8> {
+    let n = reader.buffer().len().min(max);
+    let chunk = reader.buffer()[..n].to_vec();
+    reader.consume(n);
+    chunk
+}
+
 /// Pull up to `need` bytes from a buffered reader for `readpartial`.
 /// When `no_block` is set (ungetc pushback already produced data),
 /// only the bytes already sitting in the internal buffer are taken;
@@ -1300,11 +1308,15 @@ impl IoInner {
             }
             IoKind::Stdin => {
                 // `sysread` bypasses the buffer (CRuby raises if anything
-                // is buffered; monoruby just reads the fd directly).
-                let mut buf = vec![0u8; need];
-                let n = read_step(stdin_buf().get_mut(), &mut buf)
-                    .map_err(|e| map_read_err(e, MonorubyErr::runtimeerr))?;
-                buf.truncate(n);
+                // is buffered; monoruby returns that first).
+                let mut reader = stdin_buf();
+                let mut buf = take_buffered(&mut reader, need);
+                if buf.is_empty() {
+                    buf = vec![0u8; need];
+                    let n = read_step(reader.get_mut(), &mut buf)
+                        .map_err(|e| map_read_err(e, MonorubyErr::runtimeerr))?;
+                    buf.truncate(n);
+                }
                 buf
             }
             IoKind::File(file) => {
@@ -1316,9 +1328,13 @@ impl IoInner {
                 // Sync the underlying fd to the logical position and
                 // discard the BufReader buffer. Best-effort: pipe /
                 // socket fds (also stored as `File`) are not seekable
-                // (`ESPIPE`), in which case the single direct read
-                // below simply returns whatever is available.
+                // (`ESPIPE`), in which case bytes already buffered are
+                // returned first.
                 let _ = reader.seek(SeekFrom::Current(0));
+                if !reader.buffer().is_empty() {
+                    out.extend(take_buffered(reader, need));
+                    return Ok(out);
+                }
                 let mut buf = vec![0u8; need];
                 let n = match read_step(reader.get_mut(), &mut buf) {
                     Ok(n) => n,
@@ -1342,6 +1358,10 @@ impl IoInner {
                     Some(r) => r,
                     None => return Err(MonorubyErr::ioerr("not opened for reading")),
                 };
+                if !reader.buffer().is_empty() {
+                    out.extend(take_buffered(reader, need));
+                    return Ok(out);
+                }
                 let mut buf = vec![0u8; need];
                 let n = match read_step(reader.get_mut(), &mut buf) {
                     Ok(n) => n,
@@ -1390,10 +1410,23 @@ impl IoInner {
         }
         // Best-effort: sync a seekable File's BufReader to its logical
         // position (discarding its buffer) so the raw read below is at
-        // the right offset; pipes/sockets aren't seekable and skip it.
-        if let IoKind::File(file) = &mut self.kind {
-            let reader = &mut *Rc::get_mut(file).unwrap().reader;
-            let _ = reader.seek(SeekFrom::Current(0));
+        // the right offset; pipes/sockets aren't seekable and return what
+        // is buffered first.
+        let buffered = match &mut self.kind {
+            IoKind::File(file) => {
+                let reader = &mut *Rc::get_mut(file).unwrap().reader;
+                let _ = reader.seek(SeekFrom::Current(0));
+                take_buffered(reader, maxlen)
+            }
+            IoKind::Popen(popen) => match &mut Rc::get_mut(popen).unwrap().reader {
+                Some(reader) => take_buffered(reader, maxlen),
+                None => vec![],
+            },
+            IoKind::Stdin => take_buffered(&mut stdin_buf(), maxlen),
+            _ => vec![],
+        };
+        if !buffered.is_empty() {
+            return Ok(NonblockRead::Data(buffered));
         }
         let fd = self.fileno()?;
         self.set_nonblock()?;
-- 
2.43.0


From ffb2a3b3750ac5f25ba4b0cf1bf33614233d72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:21 +0000
Subject: [PATCH 09/62] fix: send buffered output before write_nonblock

write_nonblock went to the descriptor while earlier output was still
buffered, so the output was reordered. For a child process it also used
the reading end of the pipe.
---
 monoruby/src/value/rvalue/io.rs | 54 ++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index ab90074..30e8f69 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -235,6 +235,20 @@ fn read_step(reader: &mut impl Read, buf: &mut [u8]) -> std::io::Result<usize> {
     }
 }
 
+/// Set `O_NONBLOCK` on `fd` (idempotent).
+fn set_nonblock(fd: i32) -> Result<()> {
+    // SAFETY: fd is a valid descriptor supplied by an open IO.
+    unsafe {
+        let flags = libc::fcntl(fd, libc::F_GETFL);
+        if flags < 0 || libc::fcntl(fd, libc::F_SETFL, flags | libc::O_NONBLOCK) < 0 {
+            return Err(MonorubyErr::ioerr(
+                std::io::Error::last_os_error().to_string(),
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// How much a single unbuffered `read(2)` asks for at most.
 const READ_CHUNK: usize = 8192;
 
@@ -1381,21 +1395,6 @@ impl IoInner {
         Ok(out)
     }
 
-    /// Set `O_NONBLOCK` on the underlying fd (idempotent).
-    fn set_nonblock(&self) -> Result<()> {
-        let fd = self.fileno()?;
-        // SAFETY: fd is a valid descriptor for the lifetime of this IO.
-        unsafe {
-            let flags = libc::fcntl(fd, libc::F_GETFL);
-            if flags < 0 || libc::fcntl(fd, libc::F_SETFL, flags | libc::O_NONBLOCK) < 0 {
-                return Err(MonorubyErr::ioerr(
-                    std::io::Error::last_os_error().to_string(),
-                ));
-            }
-        }
-        Ok(())
-    }
-
     /// `IO#read_nonblock` core: a single non-blocking read of up to
     /// `maxlen` bytes. Drains ungetc pushback first; otherwise sets
     /// `O_NONBLOCK` and issues one raw `read(2)`. Reports `WouldBlock`
@@ -1429,7 +1428,7 @@ impl IoInner {
             return Ok(NonblockRead::Data(buffered));
         }
         let fd = self.fileno()?;
-        self.set_nonblock()?;
+        set_nonblock(fd)?;
         let mut buf = vec![0u8; maxlen];
         // SAFETY: fd is valid; buf has `maxlen` bytes of capacity.
         let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, maxlen) };
@@ -1456,8 +1455,27 @@ impl IoInner {
         if !self.is_writable() {
             return Err(MonorubyErr::ioerr("not opened for writing"));
         }
-        let fd = self.fileno()?;
-        self.set_nonblock()?;
+        let fd = self.wait_fd_for(libc::POLLOUT)?;
+        set_nonblock(fd)?;
+        // Buffered output goes first. The fd is non-blocking, so this
+        // cannot wait and no signal has to interrupt it.
+        let res = match &mut self.kind {
+            IoKind::Stdout => stdout_buf().drain(&|| false),
+            IoKind::Stderr => stderr_buf().drain(&|| false),
+            IoKind::File(file) => unread_before_write(file).and_then(|_| file.drain_wbuf()),
+            IoKind::Popen(popen) => match &mut Rc::get_mut(popen).unwrap().writer {
+                Some(writer) => writer.drain(&|| false),
+                None => Ok(()),
+            },
+            IoKind::Stdin | IoKind::Closed(..) => Ok(()),
+        };
+        match res {
+            Ok(()) => {}
+            Err(DrainErr::Io(err)) => {
+                return Err(MonorubyErr::from_io_err(store, &err, "write_nonblock".to_string()));
+            }
+            Err(_) => return Ok(NonblockWrite::WouldBlock),
+        }
         // SAFETY: fd is valid; bytes is a valid buffer of `bytes.len()`.
         let n = unsafe {
             libc::write(fd, bytes.as_ptr() as *const libc::c_void, bytes.len())
-- 
2.43.0


From b7f2625af536a4393c168f681cbde88d9e49840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:21 +0000
Subject: [PATCH 10/62] fix: write out buffered output of streams that are not
 closed explicitly

Buffered output was lost when a stream was collected without a close,
and when close_write closed a child's input with sync turned off.
---
 monoruby/src/value/rvalue/io.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 30e8f69..bfecb10 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -497,6 +497,12 @@ fn unread_before_write(file: &mut Rc<FileDescriptor>) -> std::result::Result<(),
 
 impl Drop for FileDescriptor {
     fn drop(&mut self) {
+        // Output of a stream that was never closed. There is nobody to
+        // report a failure to.
+        {
+            let mut sink: &std::fs::File = self.reader.get_ref();
+            let _ = self.wbuf.get_mut().drain(&mut sink, &|| false);
+        }
         let fd = self.reader.get_ref().as_raw_fd();
         // SAFETY: `reader` is wrapped in `ManuallyDrop` and is only taken
         // here, exactly once, in `Drop`. After this, `self.reader` must not
@@ -525,6 +531,14 @@ pub struct PopenDescriptor {
     pushback: RefCell<Vec<u8>>,
 }
 
+impl Drop for PopenDescriptor {
+    fn drop(&mut self) {
+        if let Some(writer) = &mut self.writer {
+            let _ = writer.drain(&|| false);
+        }
+    }
+}
+
 /// What an [`IoInner`] is a stream *over*.
 #[derive(Debug)]
 pub enum IoKind {
@@ -874,6 +888,9 @@ impl IoInner {
     pub fn popen_close_write(&mut self) {
         if let IoKind::Popen(popen) = &mut self.kind {
             let popen = Rc::get_mut(popen).unwrap();
+            if let Some(writer) = &mut popen.writer {
+                let _ = writer.drain(&|| false);
+            }
             popen.writer = None;
             if popen.reader.is_none() {
                 self.close_kind();
-- 
2.43.0


From ed373745fdc9a7b9dc1233e3bb555b7814194aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:21 +0000
Subject: [PATCH 11/62] fix: give bytes back to standard input

Standard input had no way to give bytes back. A read interrupted by a
signal lost what it had read, a paragraph read lost the first byte of
the next paragraph, and ungetc raised an error.
---
 monoruby/src/value/rvalue/io.rs     | 33 ++++++++++++++++++++++-------
 monoruby/src/value/rvalue/io/buf.rs | 18 ++++++++++++++++
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index bfecb10..c26f240 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1116,9 +1116,13 @@ impl IoInner {
     pub fn unget(&mut self, bytes: &[u8]) -> Result<()> {
         match &self.kind {
             IoKind::Closed(..) => Err(MonorubyErr::ioerr("closed stream")),
-            IoKind::Stdin | IoKind::Stdout | IoKind::Stderr => {
+            IoKind::Stdout | IoKind::Stderr => {
                 Err(MonorubyErr::ioerr("not opened for reading"))
             }
+            IoKind::Stdin => {
+                stdin_buf().unread(bytes);
+                Ok(())
+            }
             IoKind::File(f) if !f.readable => {
                 Err(MonorubyErr::ioerr("not opened for reading"))
             }
@@ -1215,10 +1219,8 @@ impl IoInner {
         // read helpers), bytes already consumed from the fd are pushed back
         // so that the retried read (after a `Signal.trap` handler ran, or
         // after the green thread was parked until the fd became ready)
-        // returns them first and no data is lost. `pushback` is `None` for
-        // Stdin, which has no pushback cell — an interrupted stdin read may
-        // drop the partial data, like the pre-existing ungetc limitation
-        // there.
+        // returns them first and no data is lost. Stdin has no pushback
+        // cell: its bytes go back into the read buffer.
         let interrupted = |kind: std::io::ErrorKind,
                            partial: Vec<u8>,
                            pushback: Option<&RefCell<Vec<u8>>>|
@@ -1241,7 +1243,12 @@ impl IoInner {
                 };
                 match res {
                     Ok(()) => Ok(buf),
-                    Err(e) => Err(map_read_err(e, MonorubyErr::runtimeerr)),
+                    Err(e) => {
+                        if is_interrupt_kind(e.kind()) {
+                            stdin_buf().unread(&buf);
+                        }
+                        Err(map_read_err(e, MonorubyErr::runtimeerr))
+                    }
                 }
             }
             IoKind::Stdout => Err(MonorubyErr::argumenterr("can't read from $stdin")),
@@ -1617,8 +1624,18 @@ impl IoInner {
         };
         let size = match &mut self.kind {
             IoKind::Closed(..) => return Err(MonorubyErr::ioerr("closed stream")),
-            IoKind::Stdin => read_until_step(&mut *stdin_buf(), b'\n', &mut buf)
-                .map_err(|e| map_read_err(e, MonorubyErr::runtimeerr))?,
+            IoKind::Stdin => {
+                let mut reader = stdin_buf();
+                match read_until_step(&mut *reader, b'\n', &mut buf) {
+                    Ok(n) => n,
+                    Err(e) => {
+                        if is_interrupt_kind(e.kind()) {
+                            reader.unread(&buf);
+                        }
+                        return Err(map_read_err(e, MonorubyErr::runtimeerr));
+                    }
+                }
+            }
             IoKind::Stdout => return Err(MonorubyErr::argumenterr("can't read from $stdin")),
             IoKind::Stderr => return Err(MonorubyErr::argumenterr("can't read from $stderr")),
             IoKind::File(file) => {
diff --git a/monoruby/src/value/rvalue/io/buf.rs b/monoruby/src/value/rvalue/io/buf.rs
index a76ea44..92b7f92 100644
--- a/monoruby/src/value/rvalue/io/buf.rs
+++ b/monoruby/src/value/rvalue/io/buf.rs
@@ -136,6 +136,24 @@ impl<T> IoReader<T> {
         self.inner
     }
 
+    /// Put `bytes` back in front of the unconsumed bytes.
+    pub(crate) fn unread(&mut self, bytes: &[u8]) {
+        if bytes.len() <= self.pos {
+            self.pos -= bytes.len();
+            self.buf[self.pos..self.pos + bytes.len()].copy_from_slice(bytes);
+            return;
+        }
+        let mut v = bytes.to_vec();
+        v.extend_from_slice(self.buffer());
+        self.pos = 0;
+        self.cap = v.len();
+        if v.len() < self.buf.len() {
+            self.buf[..v.len()].copy_from_slice(&v);
+        } else {
+            self.buf = v.into_boxed_slice();
+        }
+    }
+
     fn discard_buffer(&mut self) {
         self.pos = 0;
         self.cap = 0;
-- 
2.43.0


From 91f5c1d01559e9681acedb73a39843b1aa12c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:21 +0000
Subject: [PATCH 12/62] fix: flush standard output at exit even if a signal is
 pending

The final flush stopped before writing anything when a signal was still
pending, and the buffered output was lost.
---
 monoruby/src/value/rvalue/io.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index c26f240..b57e11a 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -57,8 +57,10 @@ fn stderr_buf() -> MutexGuard<'static, IoWriter<StdFd>> {
 /// interpreter exit, where there is no longer anywhere to report a
 /// failure to.
 pub fn flush_std_streams() {
-    let _ = stdout_buf().drain(&signal_pending);
-    let _ = stderr_buf().drain(&signal_pending);
+    // No signal is handled any more, so a pending one must not keep the
+    // output back.
+    let _ = stdout_buf().drain(&|| false);
+    let _ = stderr_buf().drain(&|| false);
 }
 
 /// Append to monoruby's stdout buffer, flushing per the stream's policy.
-- 
2.43.0


From 75f36b72d02001a0df7bd6c5dd38071671698dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:20 +0000
Subject: [PATCH 13/62] fix: wake the other callers of offloaded operations
 when their wake-up byte is drained

A caller that drained the completion pipe could swallow the byte of another
caller that was still parked on it, leaving that caller blocked after its
operation had finished.
---
 monoruby/src/native_pool.rs | 18 +++++++++++++-----
 monoruby/src/scheduler.rs   | 24 ++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/native_pool.rs b/monoruby/src/native_pool.rs
index de60fb3..02129d3 100644
--- a/monoruby/src/native_pool.rs
+++ b/monoruby/src/native_pool.rs
@@ -96,13 +96,17 @@ pub(crate) fn wake_fd() -> i32 {
 
 /// Drain the completion pipe (called by a woken waiter before it
 /// re-checks its ticket; the pipe is level-triggered, so leftover bytes
-/// would make the poller spin).
-pub(crate) fn drain() {
+/// would make the poller spin). Returns whether there was anything in it.
+pub(crate) fn drain() -> bool {
     PIPE.with(|p| {
         let mut buf = [0u8; 64];
+        let mut any = false;
         // SAFETY: reading our own non-blocking pipe read end.
-        while unsafe { libc::read(p.0, buf.as_mut_ptr() as _, buf.len()) } > 0 {}
-    });
+        while unsafe { libc::read(p.0, buf.as_mut_ptr() as _, buf.len()) } > 0 {
+            any = true;
+        }
+        any
+    })
 }
 
 /// Submit `op` to a worker thread; returns the ticket to poll with
@@ -197,6 +201,10 @@ pub(crate) fn run_blocking(
             discard(id);
             return Err(err);
         }
-        drain();
+        if drain() {
+            // The drained bytes may announce completions of other waiters
+            // that are still parked: let them re-check their tickets.
+            crate::scheduler::wake_fd_waiters(wake_fd());
+        }
     }
 }
diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 7937142..ba18424 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1009,6 +1009,30 @@ pub(crate) fn wait_fds(
     }
 }
 
+/// Wake every thread parked on `fd` without waiting for the descriptor to
+/// become ready (again).
+pub(crate) fn wake_fd_waiters(fd: i32) {
+    SCHEDULER.with(|s| {
+        let mut s = s.borrow_mut();
+        let main = s.main;
+        let parked: Vec<Value> = s
+            .io_waiters
+            .iter()
+            .filter(|(f, _, _)| *f == fd)
+            .map(|(_, _, t)| *t)
+            .collect();
+        for mut t in parked {
+            let inner = t.as_thread_inner_mut();
+            if inner.state() == ThreadState::IoWaiting {
+                inner.state = ThreadState::Runnable;
+                if Some(t) != main {
+                    s.ready.push_back(t);
+                }
+            }
+        }
+    });
+}
+
 fn unregister_io_waiter(thread: Value) {
     SCHEDULER.with(|s| {
         s.borrow_mut().io_waiters.retain(|(_, _, t)| *t != thread);
-- 
2.43.0


From 954c89f2828d6bdafe2071e4246d1173a7af20cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:32 +0000
Subject: [PATCH 14/62] fix: do not lose the timeslice timer when it is
 restarted while it exits

A timer thread that had already seen the request to stop was taken for a
running one, so no thread was preempted until the number of live threads
changed again.
---
 monoruby/src/preempt.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/preempt.rs b/monoruby/src/preempt.rs
index c5c98b4..f942144 100644
--- a/monoruby/src/preempt.rs
+++ b/monoruby/src/preempt.rs
@@ -46,6 +46,9 @@ const TICK: std::time::Duration = std::time::Duration::from_millis(10);
 struct Shared {
     /// Tells the timer thread to exit at its next tick.
     stop: AtomicBool,
+    /// The timer thread has decided to exit. Set with `flag_addr` locked,
+    /// so that a restart cannot count on a timer that is about to return.
+    exited: AtomicBool,
     /// Address of this interpreter's poll word (0 = detached). The mutex
     /// makes timer writes and detachment mutually exclusive, so the
     /// timer can never write into freed JIT memory.
@@ -62,6 +65,7 @@ thread_local! {
     static STATE: RefCell<State> = RefCell::new(State {
         shared: Arc::new(Shared {
             stop: AtomicBool::new(false),
+            exited: AtomicBool::new(false),
             flag_addr: Mutex::new(0),
         }),
         timer: None,
@@ -113,12 +117,16 @@ pub(crate) fn on_thread_count(live: usize) {
     STATE.with(|st| {
         let mut st = st.borrow_mut();
         if live >= 2 {
-            st.shared.stop.store(false, Ordering::Relaxed);
-            let running = st.timer.as_ref().is_some_and(|t| !t.is_finished());
+            let running = {
+                let _addr = st.shared.flag_addr.lock().unwrap();
+                st.shared.stop.store(false, Ordering::Relaxed);
+                st.timer.is_some() && !st.shared.exited.load(Ordering::Relaxed)
+            };
             if !running {
                 if let Some(t) = st.timer.take() {
                     let _ = t.join();
                 }
+                st.shared.exited.store(false, Ordering::Relaxed);
                 let shared = st.shared.clone();
                 st.timer = Some(std::thread::spawn(move || timer_loop(shared)));
             }
@@ -131,10 +139,11 @@ pub(crate) fn on_thread_count(live: usize) {
 fn timer_loop(shared: Arc<Shared>) {
     loop {
         std::thread::sleep(TICK);
+        let addr = shared.flag_addr.lock().unwrap();
         if shared.stop.load(Ordering::Relaxed) {
+            shared.exited.store(true, Ordering::Relaxed);
             return;
         }
-        let addr = shared.flag_addr.lock().unwrap();
         if *addr != 0 {
             // SAFETY: non-zero only while the owning `Codegen` is alive;
             // the lock excludes concurrent detachment.
-- 
2.43.0


From 7c9aa1fa36475426dc5660c1af53fb5eeb3d9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:36 +0000
Subject: [PATCH 15/62] fix: leave no trace of the other threads in a fork
 child

Threads that do not survive a fork stayed in the ready queue, the sleeper
list and the fd waiter list of the child, where they were resumed. The
timeslice timer was taken for a running one although its OS thread does not
exist in the child.
---
 monoruby/src/poll_flag.rs |  5 +++++
 monoruby/src/preempt.rs   | 15 +++++++++++++++
 monoruby/src/scheduler.rs |  8 ++++++++
 3 files changed, 28 insertions(+)

diff --git a/monoruby/src/poll_flag.rs b/monoruby/src/poll_flag.rs
index 076a15d..72efabd 100644
--- a/monoruby/src/poll_flag.rs
+++ b/monoruby/src/poll_flag.rs
@@ -116,6 +116,11 @@ pub(crate) fn unregister(addr: *mut u32) {
     );
 }
 
+/// Address of this thread's poll word (0 = none registered).
+pub(crate) fn flag_addr() -> usize {
+    FLAG_ADDR.try_with(|a| a.get()).unwrap_or(0)
+}
+
 /// Run `f` on this thread's poll word, or return `None` if no interpreter
 /// is registered on this thread.
 fn with_flag<R>(f: impl FnOnce(&AtomicU32) -> R) -> Option<R> {
diff --git a/monoruby/src/preempt.rs b/monoruby/src/preempt.rs
index f942144..9170f6b 100644
--- a/monoruby/src/preempt.rs
+++ b/monoruby/src/preempt.rs
@@ -136,6 +136,21 @@ pub(crate) fn on_thread_count(live: usize) {
     });
 }
 
+/// In a fork child the timer thread does not exist, and it may have held
+/// the lock at the time of the fork: start over with a fresh state.
+pub(crate) fn reset_after_fork() {
+    STATE.with(|st| {
+        let mut st = st.borrow_mut();
+        std::mem::forget(st.timer.take());
+        let shared = Arc::new(Shared {
+            stop: AtomicBool::new(false),
+            exited: AtomicBool::new(false),
+            flag_addr: Mutex::new(crate::poll_flag::flag_addr()),
+        });
+        std::mem::forget(std::mem::replace(&mut st.shared, shared));
+    });
+}
+
 fn timer_loop(shared: Arc<Shared>) {
     loop {
         std::thread::sleep(TICK);
diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index ba18424..0e49b26 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -350,7 +350,15 @@ pub(crate) fn fork_child_reset_threads(vm: &mut Executor) {
                 t.as_thread_inner_mut().mark_dead_for_fork();
             }
         }
+        // Nothing may dispatch or wake them any more.
+        let mut s = s.borrow_mut();
+        s.threads.retain(|t| Some(*t) == cur);
+        s.ready.retain(|t| Some(*t) == cur);
+        s.sleepers.retain(|(_, t)| Some(*t) == cur);
+        s.io_waiters.retain(|(_, _, t)| Some(*t) == cur);
     });
+    crate::preempt::reset_after_fork();
+    notify_thread_count();
 }
 
 /// Whether a live (not dead) thread with the given object id exists.
-- 
2.43.0


From e6c3d1100a0662bfa9093b9386345377e5d316ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:36 +0000
Subject: [PATCH 16/62] fix: forget the deadline of a descriptor wait that
 ended early

A thread woken by readiness left its deadline in the sleeper list.
When that time came, it ended whatever the thread was waiting for by then.
---
 monoruby/src/scheduler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 0e49b26..e0f6f4b 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1043,7 +1043,10 @@ pub(crate) fn wake_fd_waiters(fd: i32) {
 
 fn unregister_io_waiter(thread: Value) {
     SCHEDULER.with(|s| {
-        s.borrow_mut().io_waiters.retain(|(_, _, t)| *t != thread);
+        let mut s = s.borrow_mut();
+        s.io_waiters.retain(|(_, _, t)| *t != thread);
+        // The deadline of this wait must not end a later one.
+        s.sleepers.retain(|(_, t)| *t != thread);
     });
 }
 
-- 
2.43.0


From f811ffec99c1055999ba2c987f0c78199153dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:36 +0000
Subject: [PATCH 17/62] fix: do not wake the main thread for a masked exception

An exception forwarded from a dying thread ended the sleep of a main
thread that had masked it.
---
 monoruby/src/scheduler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index e0f6f4b..7673c2c 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1700,7 +1700,11 @@ fn forward_exception_to_main(globals: &mut Globals, thread: Value) -> bool {
         .pending
         .push_back(PendingInterrupt::Raise(err));
     // Wake a parked main so delivery happens promptly (mirrors
-    // `interrupt`); delivery itself still honors handle_interrupt masks.
+    // `interrupt`), unless everything queued is masked; delivery itself
+    // still honors handle_interrupt masks.
+    if !wake_worthy(&globals.store, main) {
+        return true;
+    }
     let inner = main.as_thread_inner_mut();
     if matches!(
         inner.state(),
-- 
2.43.0


From 4e4704df74f8920bb76526340b57fb2817efd056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:36 +0000
Subject: [PATCH 18/62] fix: accept enormous timeouts in join and sleep

A join timeout or a sleep beyond what the clock can represent panicked.
---
 monoruby/src/builtins/kernel.rs | 5 ++++-
 monoruby/src/builtins/thread.rs | 4 +++-
 monoruby/src/scheduler.rs       | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index 6e7b091..fd6e045 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -3816,7 +3816,10 @@ fn sleep(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                         "time interval must not be negative or NaN",
                     ));
                 }
-                Some(std::time::Duration::from_secs_f64(sec))
+                Some(
+                    std::time::Duration::try_from_secs_f64(sec)
+                        .unwrap_or(std::time::Duration::MAX),
+                )
             }
             None => None,
         };
diff --git a/monoruby/src/builtins/thread.rs b/monoruby/src/builtins/thread.rs
index 2c46308..b7e63fa 100644
--- a/monoruby/src/builtins/thread.rs
+++ b/monoruby/src/builtins/thread.rs
@@ -550,7 +550,9 @@ fn join_timeout(vm: &mut Executor, globals: &mut Globals, lfp: Lfp) -> Result<Op
                     "time interval must not be negative or NaN",
                 ));
             }
-            Ok(Some(std::time::Duration::from_secs_f64(secs)))
+            Ok(Some(
+                std::time::Duration::try_from_secs_f64(secs).unwrap_or(std::time::Duration::MAX),
+            ))
         }
     }
 }
diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 7673c2c..04d2d54 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -662,7 +662,8 @@ pub(crate) fn join(
             "Target thread must not be current thread",
         ));
     }
-    let deadline = timeout.map(|d| Instant::now() + d);
+    // An enormous timeout is no timeout (see `sleep`).
+    let deadline = timeout.and_then(|d| Instant::now().checked_add(d));
     loop {
         flush_pending_reports(vm, globals);
         deliver_pending_now(vm, globals, cur, true)?;
-- 
2.43.0


From 81183cec774ca02d36d4165f3350a793b5625c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:36 +0000
Subject: [PATCH 19/62] fix: unpark the main thread when the scheduler fails

After a deadlock error or a failed poll the main thread ran on while it
was still recorded as asleep, with its old deadline in the sleeper list.
---
 monoruby/src/scheduler.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 04d2d54..2365c76 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1106,8 +1106,13 @@ fn scheduler_run(vm: &mut Executor, globals: &mut Globals) -> Result<()> {
         let mut s = s.borrow_mut();
         s.in_scheduler = false;
         s.machinery = false;
-        let main = s.main.unwrap();
+        let mut main = s.main.unwrap();
         s.current = Some(main);
+        if result.is_err() {
+            // Main goes on with the error: it is not parked any more.
+            main.as_thread_inner_mut().state = ThreadState::Runnable;
+            s.sleepers.retain(|(_, t)| *t != main);
+        }
     });
     result
 }
-- 
2.43.0


From b5209f4cf57e2166bd1649ff476573a8931eb8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:36 +0000
Subject: [PATCH 20/62] fix: do not panic when an error reaches main during
 exit

A pass that fails returns its error and leaves none set to be taken.
---
 monoruby/src/scheduler.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 2365c76..c2202d4 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -567,9 +567,7 @@ pub(crate) fn terminate_all(vm: &mut Executor, globals: &mut Globals) {
         }
         // An error delivered to the main thread here has nowhere to go —
         // the script is already over.
-        if pass(vm, globals).is_err() {
-            let _ = vm.take_error();
-        }
+        let _ = pass(vm, globals);
     }
 }
 
-- 
2.43.0


From 02be45fbd1fa7753618a245d29d6c5a9b46f9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:36 +0000
Subject: [PATCH 21/62] fix: keep the main thread out of a child forked by
 another thread

When the forking thread parked or ended, the child went on with the code
of the main thread, which does not exist there. The child now runs its
own threads on that stack and exits after the last one.
---
 monoruby/src/scheduler.rs           | 40 +++++++++++++++++++++++++++--
 monoruby/src/value/rvalue/thread.rs |  1 +
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index c2202d4..5f095cb 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -616,6 +616,9 @@ pub(crate) fn pass(vm: &mut Executor, globals: &mut Globals) -> Result<()> {
                             result = Err(err);
                             break;
                         }
+                        if is_main_dead() {
+                            exit_orphaned_child(scheduler_loop(vm, globals));
+                        }
                     }
                     None => break,
                 }
@@ -1100,6 +1103,9 @@ fn scheduler_run(vm: &mut Executor, globals: &mut Globals) -> Result<()> {
         s.machinery = true;
     });
     let result = scheduler_loop(vm, globals);
+    if is_main_dead() {
+        exit_orphaned_child(result);
+    }
     SCHEDULER.with(|s| {
         let mut s = s.borrow_mut();
         s.in_scheduler = false;
@@ -1115,6 +1121,32 @@ fn scheduler_run(vm: &mut Executor, globals: &mut Globals) -> Result<()> {
     result
 }
 
+/// Whether this is a child forked by a green thread: the main thread did
+/// not survive, only the stack it was parked on did.
+fn is_main_dead() -> bool {
+    SCHEDULER.with(|s| s.borrow().main.unwrap().as_thread_inner().is_dead())
+}
+
+/// The threads of a child without a main thread are done (or one of them
+/// ended the process): main's code must not go on here.
+fn exit_orphaned_child(result: Result<()>) -> ! {
+    let reports = SCHEDULER.with(|s| std::mem::take(&mut s.borrow_mut().pending_reports));
+    let mut main = SCHEDULER.with(|s| s.borrow().main.unwrap());
+    let status = match main.as_thread_inner_mut().pending.pop_front() {
+        Some(PendingInterrupt::Raise(err)) => match err.kind() {
+            MonorubyErrKind::SystemExit(status) => *status as i32,
+            _ => 1,
+        },
+        _ if result.is_err() && has_other_live_threads() => 1,
+        _ => !reports.is_empty() as i32,
+    };
+    for text in reports {
+        eprint!("{text}");
+    }
+    crate::rvalue::io::flush_std_streams();
+    std::process::exit(status)
+}
+
 fn scheduler_loop(vm: &mut Executor, globals: &mut Globals) -> Result<()> {
     loop {
         wake_due_sleepers();
@@ -1130,8 +1162,12 @@ fn scheduler_loop(vm: &mut Executor, globals: &mut Globals) -> Result<()> {
         }
         let (main_ready, next) = SCHEDULER.with(|s| {
             let mut s = s.borrow_mut();
-            let main_ready =
-                s.main.unwrap().as_thread_inner().state() == ThreadState::Runnable;
+            let main = s.main.unwrap();
+            let main = main.as_thread_inner();
+            // A dead main (forked child) only ends the process, once an
+            // exit was forwarded to it.
+            let main_ready = main.state() == ThreadState::Runnable
+                || (main.is_dead() && !main.pending.is_empty());
             let next = if main_ready { None } else { s.ready.pop_front() };
             (main_ready, next)
         });
diff --git a/monoruby/src/value/rvalue/thread.rs b/monoruby/src/value/rvalue/thread.rs
index d4d17e1..a4f608e 100644
--- a/monoruby/src/value/rvalue/thread.rs
+++ b/monoruby/src/value/rvalue/thread.rs
@@ -283,6 +283,7 @@ impl ThreadInner {
     pub(crate) fn mark_dead_for_fork(&mut self) {
         self.state = ThreadState::Dead;
         self.killed = true;
+        self.pending.clear();
     }
 
     pub(crate) fn proc(&self) -> Option<&Proc> {
-- 
2.43.0


From 3f41888bd41c2c85043050ceaf33b53bb28121b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:00:59 +0000
Subject: [PATCH 22/62] fix: count live and freed objects from the swept pages

heap_live_slots left out the old generation after a minor collection, and
total_freed_objects missed the objects on pages given back as a whole.
---
 monoruby/src/alloc.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index 4deaeb1..f871a2b 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1894,11 +1894,14 @@ impl<T: GCBox> Allocator<T> {
         debug_assert!(demoted <= self.old_count);
         self.old_count = self.old_count.saturating_sub(demoted);
         self.free = anchor.next();
-        // Cells that were already on the free list are swept again (the
-        // sweep is idempotent), so they appear in both counts: what this
-        // collection actually reclaimed is the growth of the list.
-        self.total_freed_objects += c.saturating_sub(self.free_list_count);
         self.free_list_count = c;
+        // What is neither on the free list nor untouched space of the
+        // current page is live. The number of marked objects would leave
+        // out the old generation in a minor GC, and the growth of the free
+        // list the cells that went away with salvaged pages.
+        let live = self.pages.len() * DATA_LEN + self.used_in_current - c;
+        self.mark_counter = live;
+        self.total_freed_objects = self.total_allocated_objects - live;
         if let Some(log) = log {
             let gc = self.total_gc_counter as u32;
             let kind = self.current_kind;
-- 
2.43.0


From 5de4f44f63cc4f69b421e0dd47dd5135668db0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:11 +0000
Subject: [PATCH 23/62] fix: drop tombstones before switching an emptied hash
 to identity mode

---
 monoruby/src/value/rvalue/hash.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index a3fd368..80c2ca8 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -1650,6 +1650,7 @@ impl<'a> HashRefMut<'a> {
             self.as_ref().len(),
             "the map must be empty to change its mode"
         );
+        self.compact_if_dirty();
         if ident {
             if self.is_inline() {
                 // stays inline: the empty pair array serves both modes
-- 
2.43.0


From b88d55ac965da18f3a20b681c48161ee6e2fc325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:11 +0000
Subject: [PATCH 24/62] fix: digest equal hashes alike whatever the order of
 their pairs

---
 monoruby/src/value/rvalue/hash.rs | 42 +++++++++++--------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index 80c2ca8..ff4e798 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -1118,35 +1118,23 @@ impl RubyHash<Executor, Globals, MonorubyErr> for HashRef<'_> {
         e: &mut Executor,
         g: &mut Globals,
     ) -> Result<()> {
-        match self.content() {
-            ContentRef::Inline(pairs) => {
-                if self.is_ident_inline() {
-                    // digest keys by id, matching `IdentKey::ruby_hash`
-                    // so inline and boxed identity hashes digest alike
-                    for (key, val) in pairs {
-                        key.id().hash(state);
-                        val.ruby_hash(state, e, g)?;
-                    }
-                } else {
-                    for (key, val) in pairs {
-                        key.ruby_hash(state, e, g)?;
-                        val.ruby_hash(state, e, g)?;
-                    }
-                }
-            }
-            ContentRef::Map(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
-            }
-            ContentRef::Ident(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
+        // Order does not matter for equality, so the digests of the live
+        // pairs are summed up. The keys of an identity hash are digested by
+        // id, whatever the representation.
+        let ident = self.is_compare_by_identity();
+        let mut sum = 0u64;
+        for (key, val) in self.iter() {
+            let mut pair = crate::value::seeded_hasher();
+            if ident {
+                key.id().hash(&mut pair);
+            } else {
+                key.ruby_hash(&mut pair, e, g)?;
             }
+            val.ruby_hash(&mut pair, e, g)?;
+            sum = sum.wrapping_add(std::hash::Hasher::finish(&pair));
         }
+        self.len().hash(state);
+        sum.hash(state);
         Ok(())
     }
 }
-- 
2.43.0


From 1020e327f49e0f067b84ee01afbecd1105595013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:30 +0000
Subject: [PATCH 25/62] fix: refuse Hash#replace during iteration

---
 monoruby/src/builtins/hash.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index dba023e..d6df062 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -1685,6 +1685,7 @@ fn clear(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let mut self_ = lfp.self_val().as_hash_mut(&globals.store)?;
     let arg = lfp.arg(0).coerce_to_hash(vm, globals)?;
+    self_.check_iter()?;
     self_.replace_inner(arg.inner().clone_inner());
 
     Ok(lfp.self_val())
-- 
2.43.0


From 4a800dad6526ba6070041dad28b05b605a985e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:57 +0000
Subject: [PATCH 26/62] fix: let the blocks of Hash#select!, keep_if, delete_if
 and reject! delete pairs

---
 monoruby/src/builtins/hash.rs | 83 ++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 44 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index d6df062..d8c6bcd 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -1824,6 +1824,33 @@ fn select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
     Ok(Value::hash_from_inner(inner))
 }
 
+/// Keys of the pairs for which the block answers `wanted`.
+///
+/// The block may delete pairs, so the walk goes by position under the
+/// iteration guard. The keys are left on the temp stack: the block can delete
+/// their pairs before the caller gets to them.
+fn collect_removals(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    hash: Hashmap,
+    data: &ProcData,
+    wanted: bool,
+) -> Result<Vec<Value>> {
+    let _iter_guard = hash.iter_guard();
+    let mut remove = vec![];
+    let mut i = 0;
+    while i < hash.entry_count() {
+        if let Some((k, v)) = hash.entry_at(i)
+            && vm.invoke_block(globals, data, &[k, v])?.as_bool() == wanted
+        {
+            vm.temp_push(k);
+            remove.push(k);
+        }
+        i += 1;
+    }
+    Ok(remove)
+}
+
 ///
 /// ### Hash#select
 ///
@@ -1844,17 +1871,8 @@ fn select_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if !vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
-            }
-        }
-    }
+    vm.with_temp_scope(|vm| {
+    let remove = collect_removals(vm, globals, lfp.self_val().as_hash(), &data, false)?;
     let changed = !remove.is_empty();
     let mut h = lfp.self_val().as_hash();
     for k in remove {
@@ -1865,6 +1883,7 @@ fn select_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     } else {
         Value::nil()
     })
+    })
 }
 
 ///
@@ -2037,22 +2056,14 @@ fn delete_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
-            }
-        }
-    }
+    vm.with_temp_scope(|vm| {
+    let remove = collect_removals(vm, globals, lfp.self_val().as_hash(), &data, true)?;
     let mut h = lfp.self_val().as_hash();
     for k in remove {
         h.remove(k, vm, globals)?;
     }
     Ok(lfp.self_val())
+    })
 }
 
 ///
@@ -2073,17 +2084,8 @@ fn reject_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
-            }
-        }
-    }
+    vm.with_temp_scope(|vm| {
+    let remove = collect_removals(vm, globals, lfp.self_val().as_hash(), &data, true)?;
     let changed = !remove.is_empty();
     let mut h = lfp.self_val().as_hash();
     for k in remove {
@@ -2094,6 +2096,7 @@ fn reject_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     } else {
         Value::nil()
     })
+    })
 }
 
 ///
@@ -3233,22 +3236,14 @@ fn keep_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if !vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
-            }
-        }
-    }
+    vm.with_temp_scope(|vm| {
+    let remove = collect_removals(vm, globals, lfp.self_val().as_hash(), &data, false)?;
     let mut h = lfp.self_val().as_hash();
     for k in remove {
         h.remove(k, vm, globals)?;
     }
     Ok(lfp.self_val())
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0c0c514aa76d475f30758088fc27ce13e7251607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:12:28 +0000
Subject: [PATCH 27/62] fix: keep the pairs alive while Hash methods run
 callbacks for them

---
 monoruby/src/builtins/hash.rs | 67 +++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index d8c6bcd..532ff17 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -689,7 +689,8 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
         return Ok(Value::bool(false));
     }
     crate::value::exec_recursive_paired(self_val.id(), rhs_v.id(), || {
-        for (k, lhs_value) in lhs.iter() {
+        vm.with_temp_scope(|vm| {
+        for (k, lhs_value) in rooted_pairs(vm, lhs) {
             if let Some(rhs_value) = rhs.get(k, vm, globals)?
                 && vm.eq_values_bool(globals, lhs_value, rhs_value)?
             {
@@ -699,6 +700,7 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
             }
         }
         Ok(Value::bool(true))
+        })
     }, Value::bool(true))
 }
 
@@ -731,7 +733,8 @@ fn eql(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     }
     let eql_id = IdentId::EQL_;
     crate::value::exec_recursive_paired(self_val.id(), rhs_v.id(), || {
-        for (k, lhs_value) in lhs.iter() {
+        vm.with_temp_scope(|vm| {
+        for (k, lhs_value) in rooted_pairs(vm, lhs) {
             let Some(rhs_value) = rhs.get(k, vm, globals)? else {
                 return Ok(Value::bool(false));
             };
@@ -748,6 +751,7 @@ fn eql(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
             }
         }
         Ok(Value::bool(true))
+        })
     }, Value::bool(true))
 }
 
@@ -782,7 +786,8 @@ fn hash(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             const KEY_OFFSET: i64 = 0x9e3779b97f4a7c15u64 as i64;
             let mut acc: i64 = (h.len() as i64).wrapping_mul(0x9ddfea08eb382d69u64 as i64);
             let hash_id = IdentId::HASH;
-            for (k, v) in h.iter() {
+            vm.with_temp_scope(|vm| {
+            for (k, v) in rooted_pairs(vm, h) {
                 let kh = vm
                     .invoke_method_inner(globals, hash_id, k, &[], None, None)?
                     .try_fixnum()
@@ -798,6 +803,7 @@ fn hash(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             // Fold into Fixnum range: a Bignum digest would degrade to 0
             // when this hash is itself an element of an outer Hash.
             Ok(Value::from_hash_digest(acc as u64))
+            })
         },
         recursive_marker,
     )
@@ -810,7 +816,8 @@ fn hash_subset(
     vm: &mut Executor,
     globals: &mut Globals,
 ) -> Result<bool> {
-    for (k, sub_value) in sub.iter() {
+    vm.with_temp_scope(|vm| {
+    for (k, sub_value) in rooted_pairs(vm, sub) {
         if let Some(sup_value) = sup.get(k, vm, globals)?
             && vm.eq_values_bool(globals, sub_value, sup_value)?
         {
@@ -820,6 +827,7 @@ fn hash_subset(
         }
     }
     Ok(true)
+    })
 }
 
 ///
@@ -1816,12 +1824,27 @@ fn select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
     if src.is_compare_by_identity() {
         inner.compare_by_identity(vm, globals)?;
     }
-    for (k, v) in src.iter() {
+    vm.with_temp_scope(|vm| {
+    for (k, v) in rooted_pairs(vm, src) {
         if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
             inner.insert(k, v, vm, globals)?;
         }
     }
     Ok(Value::hash_from_inner(inner))
+    })
+}
+
+/// The pairs of `hash`, kept alive until the enclosing temp scope ends.
+///
+/// For methods that run Ruby code for each pair: that code may change the
+/// hash, and then neither its storage nor its pairs can be relied upon.
+fn rooted_pairs(vm: &mut Executor, hash: Hashmap) -> Vec<(Value, Value)> {
+    let pairs: Vec<(Value, Value)> = hash.iter().collect();
+    for (k, v) in &pairs {
+        vm.temp_push(*k);
+        vm.temp_push(*v);
+    }
+    pairs
 }
 
 /// Keys of the pairs for which the block answers `wanted`.
@@ -2030,12 +2053,14 @@ fn reject(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
         inner.compare_by_identity(vm, globals)?;
     }
     let p = vm.get_block_data(globals, bh)?;
-    for (k, v) in lfp.self_val().as_hash().iter() {
+    vm.with_temp_scope(|vm| {
+    for (k, v) in rooted_pairs(vm, lfp.self_val().as_hash()) {
         if !vm.invoke_block(globals, &p, &[k, v])?.as_bool() {
             inner.insert(k, v, vm, globals)?;
         }
     }
     Ok(Value::hash_from_inner(inner))
+    })
 }
 
 ///
@@ -2186,12 +2211,14 @@ fn sort(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
 fn assoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let key = lfp.arg(0);
     let hash = lfp.self_val().as_hash();
-    for (k, v) in hash.iter() {
+    vm.with_temp_scope(|vm| {
+    for (k, v) in rooted_pairs(vm, hash) {
         if vm.eq_values_bool(globals, key, k)? {
             return Ok(Value::array_from_vec(vec![k, v]));
         }
     }
     Ok(Value::nil())
+    })
 }
 
 ///
@@ -2204,12 +2231,14 @@ fn assoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn rassoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let value = lfp.arg(0);
     let hash = lfp.self_val().as_hash();
-    for (k, v) in hash.iter() {
+    vm.with_temp_scope(|vm| {
+    for (k, v) in rooted_pairs(vm, hash) {
         if vm.eq_values_bool(globals, value, v)? {
             return Ok(Value::array_from_vec(vec![k, v]));
         }
     }
     Ok(Value::nil())
+    })
 }
 
 ///
@@ -2223,10 +2252,12 @@ fn invert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     lfp.expect_no_block()?;
     let hash = lfp.self_val().as_hash();
     let mut map = RubyMap::default();
-    for (k, v) in hash.iter() {
+    vm.with_temp_scope(|vm| {
+    for (k, v) in rooted_pairs(vm, hash) {
         map.insert(v, k, vm, globals)?;
     }
     Ok(Value::hash(map))
+    })
 }
 
 ///
@@ -2249,7 +2280,7 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         let data = vm.get_block_data(globals, block)?;
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
-            for (k, other_v) in other_val.iter() {
+            for (k, other_v) in rooted_pairs(vm, other_val) {
                 if let Some(self_v) = h.get(k, vm, globals)? {
                     let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
                     h.insert(k, v, vm, globals)?;
@@ -2261,7 +2292,7 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     } else {
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
-            for (k, v) in other_val.iter() {
+            for (k, v) in rooted_pairs(vm, other_val) {
                 h.insert(k, v, vm, globals)?;
             }
         }
@@ -2283,12 +2314,13 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 #[monoruby_builtin]
 fn merge_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let mut h = lfp.self_val().as_hash_mut(&globals.store)?;
+    vm.with_temp_scope(|vm| {
     if let Some(block) = lfp.block() {
         let data = vm.get_block_data(globals, block)?;
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
             let other = other_val;
-            for (k, other_v) in other.iter() {
+            for (k, other_v) in rooted_pairs(vm, other) {
                 if let Some(self_v) = h.get(k, vm, globals)? {
                     let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
                     h.insert(k, v, vm, globals)?;
@@ -2301,12 +2333,13 @@ fn merge_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
             let other = other_val;
-            for (k, v) in other.iter() {
+            for (k, v) in rooted_pairs(vm, other) {
                 h.insert(k, v, vm, globals)?;
             }
         }
     }
     Ok(lfp.self_val())
+    })
 }
 
 ///
@@ -2348,11 +2381,15 @@ fn values_at(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let hash = lfp.self_val().as_hash();
     let keys = lfp.arg(0).as_array();
     let mut res = vec![];
+    vm.with_temp_scope(|vm| {
     for k in keys.iter() {
         let v = hash.index(vm, globals, *k)?;
+        // The value may come from a default proc: nothing else holds it.
+        vm.temp_push(v);
         res.push(v);
     }
     Ok(Value::array_from_vec(res))
+    })
 }
 
 /// ### Hash#dig
@@ -3210,12 +3247,14 @@ fn shift(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn key(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let hash = lfp.self_val().as_hash();
     let target = lfp.arg(0);
-    for (k, v) in hash.iter() {
+    vm.with_temp_scope(|vm| {
+    for (k, v) in rooted_pairs(vm, hash) {
         if vm.eq_values_bool(globals, v, target)? {
             return Ok(k);
         }
     }
     Ok(Value::nil())
+    })
 }
 
 ///
-- 
2.43.0


From ef08aab9ef9f394ab24d978947ad24dd17f6ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:44:11 +0000
Subject: [PATCH 28/62] fix: release the lock when Mutex#synchronize is
 interrupted at its end

---
 monoruby/builtins/thread.rb | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/monoruby/builtins/thread.rb b/monoruby/builtins/thread.rb
index 108ecc1..5e72a13 100644
--- a/monoruby/builtins/thread.rb
+++ b/monoruby/builtins/thread.rb
@@ -495,7 +495,14 @@ class Thread
       begin
         yield
       ensure
-        unlock
+        # The entry of #unlock is a safepoint: a raise / kill arriving there
+        # must not skip the release. Without waiters the lock is released
+        # right here, where there is none.
+        if @owner == Thread.current && (@waiters.nil? || @waiters.empty?)
+          @owner = nil
+        else
+          Thread.__uninterruptible { unlock }
+        end
       end
     end
 
-- 
2.43.0


From 6df4bb02ca8f82315795dd4ef60b76fc99fe4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:44:11 +0000
Subject: [PATCH 29/62] fix: wake a waiter of a Mutex when its holder or the
 woken waiter ends

---
 monoruby/builtins/thread.rb | 77 +++++++++++++++++++++++--------------
 monoruby/src/scheduler.rs   | 17 ++++++++
 2 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/monoruby/builtins/thread.rb b/monoruby/builtins/thread.rb
index 5e72a13..6771580 100644
--- a/monoruby/builtins/thread.rb
+++ b/monoruby/builtins/thread.rb
@@ -41,6 +41,10 @@ class Thread
 
   attr_reader :name
 
+  # The Mutex this thread is blocked on, read by the native finalizer: the
+  # waiters of a thread that terminates holding a Mutex are woken.
+  attr_accessor :__awaited_mutex
+
   # CRuby coerces the name with #to_str (TypeError otherwise), rejects
   # embedded NULs, and allows nil to clear the name.
   def name=(name)
@@ -425,7 +429,9 @@ class Thread
       # between the test and the set.
       cur = Thread.current
       cur_fiber = Fiber.current
-      if @owner
+      # A lock whose owner has terminated is free (see #locked?); `alive?`
+      # is a native method and no safepoint.
+      if (o = @owner) && o.alive?
         false
       else
         @owner = cur
@@ -440,24 +446,27 @@ class Thread
       # trying to acquire it again — recursively or from a sibling fiber —
       # would park the one thread that could release it. Raise rather than
       # hang. (Ownership *reported* by #owned? is still per-Fiber.)
-      raise ThreadError, "deadlock; recursive locking" if @owner == Thread.current
-      until try_lock
-        # Reclaim a lock abandoned by a terminated owner (a dead thread
-        # never unlocks or wakes waiters, so a contender must take it over
-        # rather than park forever). Clearing @owner is idempotent under a
-        # race — concurrent reclaimers write the same nil — and the actual
-        # acquisition still goes through try_lock's atomic test-and-set, so
-        # no two threads can both win.
-        if (o = @owner) && !o.alive?
-          @owner = nil
-          next
-        end
-        (@waiters ||= []) << Thread.current
-        begin
-          Thread.stop
-        ensure
-          @waiters.delete(Thread.current)
+      cur = Thread.current
+      raise ThreadError, "deadlock; recursive locking" if @owner == cur
+      acquired = false
+      begin
+        until try_lock
+          (@waiters ||= []) << cur
+          # The scheduler wakes us if the owner terminates while we wait.
+          cur.__awaited_mutex = self
+          begin
+            Thread.stop
+          ensure
+            cur.__awaited_mutex = nil
+            @waiters.delete(cur)
+          end
         end
+        acquired = true
+      ensure
+        # A wake may have been handed to this thread by #unlock: when it
+        # leaves through a raise / kill instead of taking the free lock,
+        # the next waiter gets the wake.
+        Thread.__uninterruptible { __wake_waiter } unless acquired || @owner
       end
       self
     end
@@ -472,23 +481,35 @@ class Thread
       unless @owner == Thread.current
         raise ThreadError, "Attempt to unlock a mutex which is locked by another thread"
       end
-      @owner = nil
-      # Hand the next waiter a chance; it re-contends in its lock loop.
+      # Hand the next waiter a chance; it re-contends in its lock loop. The
+      # waiter is looked for first: the loop head is a safepoint where a
+      # raise / kill can arrive, and one arriving between the release and
+      # the wake would lose the wake.
+      w = nil
       if @waiters
         while (w = @waiters.shift)
-          if w.alive?
-            # Permit-arming wake: unlike the public Thread#wakeup, a wake
-            # racing the waiter's park in Mutex#lock (preempted between
-            # registering and parking) is not lost — the next park returns
-            # immediately and the lock loop re-contends.
-            w.__wakeup_permit
-            break
-          end
+          break if w.alive?
         end
       end
+      @owner = nil
+      # Permit-arming wake: unlike the public Thread#wakeup, a wake
+      # racing the waiter's park in Mutex#lock (preempted between
+      # registering and parking) is not lost — the next park returns
+      # immediately and the lock loop re-contends.
+      w.__wakeup_permit if w
       self
     end
 
+    def __wake_waiter
+      while @waiters && (w = @waiters.shift)
+        if w.alive?
+          w.__wakeup_permit
+          break
+        end
+      end
+    end
+    private :__wake_waiter
+
     def synchronize
       raise ThreadError, "must be called with a block" unless block_given?
       lock
diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 5f095cb..993b907 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -1569,6 +1569,7 @@ fn finalize_common(globals: &mut Globals, mut thread: Value) {
         s.threads.retain(|t| *t != thread);
     });
     notify_thread_count();
+    wake_mutex_waiters(globals, thread);
     // A `SystemExit` that escapes any thread terminates the process: CRuby
     // re-raises it in the main thread (`Kernel#exit` from a thread exits
     // the interpreter once main handles it). The same forwarding applies
@@ -1578,6 +1579,22 @@ fn finalize_common(globals: &mut Globals, mut thread: Value) {
     forward_exception_to_main(globals, thread);
 }
 
+/// A `Mutex` is released when its owner terminates: wake the threads blocked
+/// in `Mutex#lock` on one that `thread` held.
+fn wake_mutex_waiters(globals: &Globals, thread: Value) {
+    let awaited = IdentId::get_id("@__awaited_mutex");
+    let owner = IdentId::get_id("@owner");
+    let threads = SCHEDULER.with(|s| s.borrow().threads.clone());
+    for t in threads {
+        if let Some(mutex) = globals.store.get_ivar(t, awaited)
+            && !mutex.is_nil()
+            && globals.store.get_ivar(mutex, owner) == Some(thread)
+        {
+            wakeup_permit(t);
+        }
+    }
+}
+
 /// `Thread#report_on_exception` (instance flag, falling back to the
 /// `Thread` class-level default; both default true): render the report
 /// for a thread that died with an unhandled exception and queue it for
-- 
2.43.0


From e8f4be8d69d8441c470f9d88444c62395a2dfdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:44:11 +0000
Subject: [PATCH 30/62] fix: drop a park permit once its park is over

---
 monoruby/src/scheduler.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/scheduler.rs b/monoruby/src/scheduler.rs
index 993b907..5e976da 100644
--- a/monoruby/src/scheduler.rs
+++ b/monoruby/src/scheduler.rs
@@ -478,7 +478,10 @@ pub(crate) fn sleep(
     // A pending interrupt allowed at blocking points fires *instead of*
     // parking (also the case where it was queued while running).
     let cur0 = SCHEDULER.with(|s| s.borrow().current.unwrap());
-    deliver_pending_now(vm, globals, cur0, true)?;
+    if let Err(err) = deliver_pending_now(vm, globals, cur0, true) {
+        clear_park_permit(cur0);
+        return Err(err);
+    }
     set_park_blocking(cur0, true);
     // Consume a park permit armed by a wakeup that raced this park (see
     // `ThreadInner::park_permit`): return immediately instead of
@@ -502,7 +505,9 @@ pub(crate) fn sleep(
             main.as_thread_inner_mut().state = ThreadState::Sleeping;
             s.sleepers.push((deadline, main));
         });
-        scheduler_run(vm, globals)?;
+        let res = scheduler_run(vm, globals);
+        clear_park_permit(cur0);
+        res?;
         flush_pending_reports(vm, globals);
         take_main_pending(vm, globals, true)?;
     } else {
@@ -513,11 +518,20 @@ pub(crate) fn sleep(
             s.sleepers.push((deadline, cur));
             cur
         });
-        park_switch(vm, globals, cur)?;
+        let res = park_switch(vm, globals, cur);
+        clear_park_permit(cur0);
+        res?;
     }
     Ok(start.elapsed())
 }
 
+/// Drop a park permit whose park is over: a wakeup that arrived after the
+/// thread was made runnable (or interrupted) belongs to the park that just
+/// ended and must not cut a later, unrelated sleep short.
+fn clear_park_permit(mut thread: Value) {
+    thread.as_thread_inner_mut().park_permit = false;
+}
+
 /// Terminate every live thread except main at process exit, the way
 /// CRuby's `rb_thread_terminate_all` does after the `at_exit` handlers:
 /// each thread is killed — an unrescuable unwind that runs the ensure
@@ -877,6 +891,9 @@ pub(crate) fn set_uninterruptible(mut thread: Value, on: bool) {
         inner.uninterruptible += 1;
     } else {
         inner.uninterruptible -= 1;
+        // The wait this section ended (`Mutex#sleep`) is over; see
+        // `clear_park_permit`.
+        inner.park_permit = false;
     }
 }
 
-- 
2.43.0


From b2ad90390d78a1e2e6fe82510d0e855a5f6e1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:44:11 +0000
Subject: [PATCH 31/62] fix: hand a signal on when the signaled
 ConditionVariable waiter is interrupted

---
 monoruby/builtins/thread.rb | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoruby/builtins/thread.rb b/monoruby/builtins/thread.rb
index 6771580..0e67759 100644
--- a/monoruby/builtins/thread.rb
+++ b/monoruby/builtins/thread.rb
@@ -800,14 +800,19 @@ class Thread
     # elapses), then re-acquire `mutex` before returning — also on an
     # exception raised into the waiter.
     def wait(mutex, timeout = nil)
-      @waiters << Thread.current
+      cur = Thread.current
+      @waiters << cur
+      returned = false
       begin
         # Delegate to Mutex#sleep so the mutex is atomically released,
         # the caller parks, and the mutex is re-acquired on wake — exactly
         # as CRuby does (which is why `#wait` calls `#sleep` on its arg).
         mutex.sleep(timeout)
+        returned = true
       ensure
-        @waiters.delete(Thread.current)
+        # A waiter that was signaled and leaves through a raise / kill
+        # hands the signal on.
+        Thread.__uninterruptible { signal } unless @waiters.delete(cur) || returned
       end
       self
     end
-- 
2.43.0


From 1f405ab7117f40136dd3557331e2bd01f648794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:44:11 +0000
Subject: [PATCH 32/62] fix: keep Queue and SizedQueue waiters from missing a
 change when a thread is interrupted

---
 monoruby/builtins/thread.rb | 87 ++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 35 deletions(-)

diff --git a/monoruby/builtins/thread.rb b/monoruby/builtins/thread.rb
index 0e67759..6cca19e 100644
--- a/monoruby/builtins/thread.rb
+++ b/monoruby/builtins/thread.rb
@@ -594,8 +594,11 @@ class Thread
     def push(item)
       @mutex.synchronize do
         raise ClosedQueueError, "queue closed" if @closed
-        @items.push(item)
+        # Signal first: a raise / kill arriving at the entry of #signal
+        # must not leave an item that no consumer was woken for. The
+        # woken consumer waits for @mutex.
         @cv_pop.signal
+        @items.push(item)
       end
       self
     end
@@ -630,20 +633,28 @@ class Thread
     def pop(non_block = false, timeout: nil)
       timeout = __check_timeout(timeout, non_block)
       deadline = timeout && Process.clock_gettime(Process::CLOCK_MONOTONIC) + timeout
+      waited = false
       @mutex.synchronize do
-        while true
-          return __pop_locked unless @items.empty?
-          # CRuby raises even on a closed queue: only a *blocking* pop
-          # returns nil for closed-and-drained.
-          raise ThreadError, "queue empty" if non_block
-          return nil if @closed
-          if deadline
-            remaining = deadline - Process.clock_gettime(Process::CLOCK_MONOTONIC)
-            return nil if remaining <= 0
-            @cv_pop.wait(@mutex, remaining)
-          else
-            @cv_pop.wait(@mutex)
+        begin
+          while true
+            return __pop_locked unless @items.empty?
+            # CRuby raises even on a closed queue: only a *blocking* pop
+            # returns nil for closed-and-drained.
+            raise ThreadError, "queue empty" if non_block
+            return nil if @closed
+            waited = true
+            if deadline
+              remaining = deadline - Process.clock_gettime(Process::CLOCK_MONOTONIC)
+              return nil if remaining <= 0
+              @cv_pop.wait(@mutex, remaining)
+            else
+              @cv_pop.wait(@mutex)
+            end
           end
+        ensure
+          # A consumer woken for an item that leaves without it (raise /
+          # kill) hands the wake on.
+          Thread.__uninterruptible { @cv_pop.signal } if waited && !@items.empty?
         end
       end
     end
@@ -669,8 +680,8 @@ class Thread
     def close
       @mutex.synchronize do
         return self if @closed
-        @closed = true
         @cv_pop.broadcast
+        @closed = true
       end
       self
     end
@@ -725,10 +736,9 @@ class Thread
     def max=(new_max)
       new_max = __check_capacity(new_max)
       @mutex.synchronize do
-        grew = new_max > @max
-        @max = new_max
         # Growing frees capacity: every parked producer re-checks.
-        @cv_push.broadcast if grew
+        @cv_push.broadcast if new_max > @max
+        @max = new_max
       end
       new_max
     end
@@ -736,22 +746,30 @@ class Thread
     def push(item, non_block = false, timeout: nil)
       timeout = __check_timeout(timeout, non_block)
       deadline = timeout && Process.clock_gettime(Process::CLOCK_MONOTONIC) + timeout
+      waited = false
       @mutex.synchronize do
-        while true
-          raise ClosedQueueError, "queue closed" if @closed
-          if @items.size < @max
-            @items.push(item)
-            @cv_pop.signal
-            return self
-          end
-          raise ThreadError, "queue full" if non_block
-          if deadline
-            remaining = deadline - Process.clock_gettime(Process::CLOCK_MONOTONIC)
-            return nil if remaining <= 0
-            @cv_push.wait(@mutex, remaining)
-          else
-            @cv_push.wait(@mutex)
+        begin
+          while true
+            raise ClosedQueueError, "queue closed" if @closed
+            if @items.size < @max
+              @cv_pop.signal
+              @items.push(item)
+              return self
+            end
+            raise ThreadError, "queue full" if non_block
+            waited = true
+            if deadline
+              remaining = deadline - Process.clock_gettime(Process::CLOCK_MONOTONIC)
+              return nil if remaining <= 0
+              @cv_push.wait(@mutex, remaining)
+            else
+              @cv_push.wait(@mutex)
+            end
           end
+        ensure
+          # A producer woken for a free slot that leaves without using it
+          # (raise / kill) hands the wake on.
+          Thread.__uninterruptible { @cv_push.signal } if waited && @items.size < @max
         end
       end
     end
@@ -760,9 +778,9 @@ class Thread
 
     def clear
       @mutex.synchronize do
-        @items.clear
         # Clearing frees capacity (CRuby wakes blocked producers here).
         @cv_push.broadcast
+        @items.clear
       end
       self
     end
@@ -770,9 +788,9 @@ class Thread
     def close
       @mutex.synchronize do
         return self if @closed
-        @closed = true
         @cv_pop.broadcast
         @cv_push.broadcast
+        @closed = true
       end
       self
     end
@@ -784,10 +802,9 @@ class Thread
     private
 
     def __pop_locked
-      v = @items.shift
       # Popping frees a slot: let one parked producer through.
       @cv_push.signal
-      v
+      @items.shift
     end
   end
 
-- 
2.43.0


From 184f930cbe1de4828c692c29050cee99f13d2704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:44:11 +0000
Subject: [PATCH 33/62] fix: make Monitor exclude other threads and its
 condition variables wait

---
 monoruby/builtins/monitor.rb | 78 +++++++++++++++++++++++++++---------
 monoruby/stdlib/monitor.rb   | 78 +++++++++++++++++++++++++++---------
 2 files changed, 116 insertions(+), 40 deletions(-)

diff --git a/monoruby/builtins/monitor.rb b/monoruby/builtins/monitor.rb
index 354782d..b4860ef 100644
--- a/monoruby/builtins/monitor.rb
+++ b/monoruby/builtins/monitor.rb
@@ -1,29 +1,44 @@
 # frozen_string_literal: true
 #
-# Monitor implementation for monoruby.
-# In single-threaded mode, most operations are no-ops but
-# we maintain correct interface and state tracking.
+# Monitor implementation for monoruby: a re-entrant lock on top of
+# Thread::Mutex, with condition variables on top of
+# Thread::ConditionVariable.
+#
+# Every method entry and loop head is a safepoint where the thread can be
+# preempted, raised into or killed. @owner / @count only change while @mutex
+# is held, and never with a safepoint between the change and the mutex
+# operation it belongs to (or inside Thread.__uninterruptible).
 #
 
 class Monitor
   def initialize
+    @mutex = Thread::Mutex.new
     @owner = nil
     @count = 0
   end
 
   def enter
-    @owner = Thread.current
-    @count += 1
+    cur = Thread.current
+    if @owner == cur
+      @count += 1
+    else
+      @mutex.lock
+      @owner = cur
+      @count = 1
+    end
     self
   end
   alias mon_enter enter
 
   def exit
-    raise ThreadError, "current thread not owner" if @owner != Thread.current && @count > 0
-    if @count > 0
+    mon_check_owner
+    if @count > 1
       @count -= 1
-      if @count == 0
+    else
+      Thread.__uninterruptible do
         @owner = nil
+        @count = 0
+        @mutex.unlock
       end
     end
     self
@@ -31,11 +46,12 @@ class Monitor
   alias mon_exit exit
 
   def try_enter
-    if @owner == Thread.current
+    cur = Thread.current
+    if @owner == cur
       @count += 1
       true
-    elsif @owner.nil?
-      @owner = Thread.current
+    elsif @mutex.try_lock
+      @owner = cur
       @count = 1
       true
     else
@@ -50,7 +66,7 @@ class Monitor
     begin
       yield
     ensure
-      exit
+      Thread.__uninterruptible { self.exit }
     end
   end
   alias mon_synchronize synchronize
@@ -61,24 +77,46 @@ class Monitor
   alias mon_owned? owned?
 
   def locked?
-    @count > 0
+    @mutex.locked?
   end
   alias mon_locked? locked?
 
+  def mon_check_owner
+    raise ThreadError, "current thread not owner" unless @owner == Thread.current
+    nil
+  end
+
   def new_cond
     ConditionVariable.new(self)
   end
 
+  # Release the monitor completely, wait for +cond+ and take the monitor
+  # back as often as it was entered. The mutex is owned again however the
+  # wait ends.
+  def wait_for_cond(cond, timeout)
+    cur = Thread.current
+    count = @count
+    begin
+      @owner = nil
+      @count = 0
+      cond.wait(@mutex, timeout)
+    ensure
+      @owner = cur
+      @count = count
+    end
+    true
+  end
+
   # Monitor::ConditionVariable
   class ConditionVariable
     def initialize(monitor)
       @monitor = monitor
+      @cond = Thread::ConditionVariable.new
     end
 
     def wait(timeout = nil)
-      # In single-threaded mode, this is effectively a no-op
-      # since no other thread can signal us
-      nil
+      @monitor.mon_check_owner
+      @monitor.wait_for_cond(@cond, timeout)
     end
 
     def wait_while
@@ -94,13 +132,13 @@ class Monitor
     end
 
     def signal
-      # No-op in single-threaded mode
-      nil
+      @monitor.mon_check_owner
+      @cond.signal
     end
 
     def broadcast
-      # No-op in single-threaded mode
-      nil
+      @monitor.mon_check_owner
+      @cond.broadcast
     end
   end
 end
diff --git a/monoruby/stdlib/monitor.rb b/monoruby/stdlib/monitor.rb
index 354782d..b4860ef 100644
--- a/monoruby/stdlib/monitor.rb
+++ b/monoruby/stdlib/monitor.rb
@@ -1,29 +1,44 @@
 # frozen_string_literal: true
 #
-# Monitor implementation for monoruby.
-# In single-threaded mode, most operations are no-ops but
-# we maintain correct interface and state tracking.
+# Monitor implementation for monoruby: a re-entrant lock on top of
+# Thread::Mutex, with condition variables on top of
+# Thread::ConditionVariable.
+#
+# Every method entry and loop head is a safepoint where the thread can be
+# preempted, raised into or killed. @owner / @count only change while @mutex
+# is held, and never with a safepoint between the change and the mutex
+# operation it belongs to (or inside Thread.__uninterruptible).
 #
 
 class Monitor
   def initialize
+    @mutex = Thread::Mutex.new
     @owner = nil
     @count = 0
   end
 
   def enter
-    @owner = Thread.current
-    @count += 1
+    cur = Thread.current
+    if @owner == cur
+      @count += 1
+    else
+      @mutex.lock
+      @owner = cur
+      @count = 1
+    end
     self
   end
   alias mon_enter enter
 
   def exit
-    raise ThreadError, "current thread not owner" if @owner != Thread.current && @count > 0
-    if @count > 0
+    mon_check_owner
+    if @count > 1
       @count -= 1
-      if @count == 0
+    else
+      Thread.__uninterruptible do
         @owner = nil
+        @count = 0
+        @mutex.unlock
       end
     end
     self
@@ -31,11 +46,12 @@ class Monitor
   alias mon_exit exit
 
   def try_enter
-    if @owner == Thread.current
+    cur = Thread.current
+    if @owner == cur
       @count += 1
       true
-    elsif @owner.nil?
-      @owner = Thread.current
+    elsif @mutex.try_lock
+      @owner = cur
       @count = 1
       true
     else
@@ -50,7 +66,7 @@ class Monitor
     begin
       yield
     ensure
-      exit
+      Thread.__uninterruptible { self.exit }
     end
   end
   alias mon_synchronize synchronize
@@ -61,24 +77,46 @@ class Monitor
   alias mon_owned? owned?
 
   def locked?
-    @count > 0
+    @mutex.locked?
   end
   alias mon_locked? locked?
 
+  def mon_check_owner
+    raise ThreadError, "current thread not owner" unless @owner == Thread.current
+    nil
+  end
+
   def new_cond
     ConditionVariable.new(self)
   end
 
+  # Release the monitor completely, wait for +cond+ and take the monitor
+  # back as often as it was entered. The mutex is owned again however the
+  # wait ends.
+  def wait_for_cond(cond, timeout)
+    cur = Thread.current
+    count = @count
+    begin
+      @owner = nil
+      @count = 0
+      cond.wait(@mutex, timeout)
+    ensure
+      @owner = cur
+      @count = count
+    end
+    true
+  end
+
   # Monitor::ConditionVariable
   class ConditionVariable
     def initialize(monitor)
       @monitor = monitor
+      @cond = Thread::ConditionVariable.new
     end
 
     def wait(timeout = nil)
-      # In single-threaded mode, this is effectively a no-op
-      # since no other thread can signal us
-      nil
+      @monitor.mon_check_owner
+      @monitor.wait_for_cond(@cond, timeout)
     end
 
     def wait_while
@@ -94,13 +132,13 @@ class Monitor
     end
 
     def signal
-      # No-op in single-threaded mode
-      nil
+      @monitor.mon_check_owner
+      @cond.signal
     end
 
     def broadcast
-      # No-op in single-threaded mode
-      nil
+      @monitor.mon_check_owner
+      @cond.broadcast
     end
   end
 end
-- 
2.43.0


From 3db4e93a0c3fee3576fc3afcedaf43a0dd46784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:48:58 +0000
Subject: [PATCH 34/62] fix: reap the child of a failed spawn when the wait is
 interrupted

A signal during the wait for the failed child left it behind as a zombie
and did not set $?.
---
 monoruby/src/builtins/spawn.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/spawn.rs b/monoruby/src/builtins/spawn.rs
index f211e0d..eb9de0c 100644
--- a/monoruby/src/builtins/spawn.rs
+++ b/monoruby/src/builtins/spawn.rs
@@ -679,8 +679,14 @@ pub(crate) fn do_spawn(
         let stage = buf[0];
         let e = i32::from_le_bytes([buf[1], buf[2], buf[3], buf[4]]);
         let mut raw: i32 = 0;
-        // SAFETY: waitpid on the child we just forked.
-        let r = unsafe { libc::waitpid(pid, &mut raw, 0) };
+        // SAFETY: waitpid on the child we just forked, which is about to
+        // exit: a signal must not leave it behind as a zombie.
+        let r = loop {
+            let r = unsafe { libc::waitpid(pid, &mut raw, 0) };
+            if r >= 0 || errno() != libc::EINTR {
+                break r;
+            }
+        };
         if r == pid {
             set_status(vm, globals, raw, pid)?;
         }
-- 
2.43.0


From 75d7991f03c15120c3f5f5d79fc564c96cdff4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:48:58 +0000
Subject: [PATCH 35/62] fix: report the error of an executable found in PATH
 that cannot be started

With several directories in PATH every error but ENOENT was replaced by
ENOENT, and the search went on behind an executable file the system refused
to start, for example for a too long argument list.
---
 monoruby/src/builtins/spawn.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/monoruby/src/builtins/spawn.rs b/monoruby/src/builtins/spawn.rs
index eb9de0c..a6172dc 100644
--- a/monoruby/src/builtins/spawn.rs
+++ b/monoruby/src/builtins/spawn.rs
@@ -549,7 +549,6 @@ unsafe fn child_exec(spec: &ExecSpec) -> (u8, i32) {
             .map(|e| e.as_ptr())
             .chain(std::iter::once(std::ptr::null()))
             .collect();
-        let mut last_errno = libc::ENOENT;
         for cand in &spec.candidates {
             libc::execve(cand.as_ptr(), argv_ptrs.as_ptr(), envp_ptrs.as_ptr());
             let e = errno();
@@ -566,18 +565,12 @@ unsafe fn child_exec(spec: &ExecSpec) -> (u8, i32) {
             let e = if e == libc::EISDIR { libc::EACCES } else { e };
             match e {
                 libc::ENOENT | libc::ENOTDIR => {}
-                other => {
-                    // Only meaningful for multi-candidate PATH walks:
-                    // CRuby's own search skips non-executable candidates
-                    // and ends with ENOENT.
-                    if spec.candidates.len() == 1 {
-                        return (STAGE_EXEC, other);
-                    }
-                    last_errno = libc::ENOENT;
-                }
+                // CRuby's own search skips non-executable candidates and
+                // ends with ENOENT.
+                libc::EACCES if spec.candidates.len() > 1 => {}
+                other => return (STAGE_EXEC, other),
             }
         }
-        let _ = last_errno;
         (STAGE_EXEC, libc::ENOENT)
     }
 }
-- 
2.43.0


From ce45ebd84d982991ec166b5845f4f7cdd2ab1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:49:30 +0000
Subject: [PATCH 36/62] fix: keep the error report of spawn apart from the
 redirected descriptors

A redirect to the number of the report pipe, or close_others, lost the error
of a failed start: spawn returned the pid of a process that never ran its
program, and the error was written into the file of the redirect. A redirect
from that number handed the pipe to the program, and spawn waited for its
end.
---
 monoruby/src/builtins/spawn.rs | 38 +++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/builtins/spawn.rs b/monoruby/src/builtins/spawn.rs
index a6172dc..5c9bf9d 100644
--- a/monoruby/src/builtins/spawn.rs
+++ b/monoruby/src/builtins/spawn.rs
@@ -50,6 +50,19 @@ pub(crate) struct ExecSpec {
     close_others: bool,
 }
 
+impl ExecSpec {
+    /// All descriptors named by the redirects, on either side.
+    fn redirect_fds(&self) -> impl Iterator<Item = i32> + '_ {
+        self.redirects.iter().flat_map(|r| {
+            let source = match r.target {
+                RedirectTarget::Fd(fd) | RedirectTarget::Child(fd) => Some(fd),
+                _ => None,
+            };
+            r.child_fds.iter().copied().chain(source)
+        })
+    }
+}
+
 const STAGE_CHDIR: u8 = b'c';
 const STAGE_EXEC: u8 = b'x';
 
@@ -455,12 +468,14 @@ fn parse_redirect(
 
 /// Apply the child-side process attributes and fd plumbing, then
 /// `execve` through the candidate list. Only returns on failure, with
-/// `(stage, errno)`. Async-signal-safe: no allocation.
+/// `(stage, errno)`. Async-signal-safe: no allocation. `report_fd` is
+/// the descriptor failures are reported through (-1: none), it stays
+/// open until `execve`.
 ///
 /// # Safety
 /// Must only be called in a freshly forked child (or, for `exec`, on a
 /// process that is about to be replaced), single-threaded.
-unsafe fn child_exec(spec: &ExecSpec) -> (u8, i32) {
+unsafe fn child_exec(spec: &ExecSpec, report_fd: i32) -> (u8, i32) {
     unsafe {
         // Restore default signal dispositions (monoruby ignores SIGPIPE
         // etc.; a fresh program expects the defaults).
@@ -533,7 +548,7 @@ unsafe fn child_exec(spec: &ExecSpec) -> (u8, i32) {
                     .redirects
                     .iter()
                     .any(|r| r.child_fds.contains(&fd));
-                if !redirected {
+                if !redirected && fd != report_fd {
                     libc::close(fd);
                 }
             }
@@ -635,7 +650,20 @@ pub(crate) fn do_spawn(
         // SAFETY: freshly forked, single-threaded.
         unsafe {
             libc::close(rfd);
-            let (stage, e) = child_exec(spec);
+            // Keep the report pipe off the descriptors of the redirects.
+            let mut wfd = wfd;
+            let mut failed = None;
+            if spec.redirect_fds().any(|fd| fd == wfd) {
+                let floor = spec.redirect_fds().max().unwrap_or(0) + 1;
+                match libc::fcntl(wfd, libc::F_DUPFD_CLOEXEC, floor) {
+                    -1 => failed = Some((STAGE_EXEC, errno())),
+                    moved => {
+                        libc::close(wfd);
+                        wfd = moved;
+                    }
+                }
+            }
+            let (stage, e) = failed.unwrap_or_else(|| child_exec(spec, wfd));
             let buf = [stage, (e & 0xff) as u8, ((e >> 8) & 0xff) as u8, ((e >> 16) & 0xff) as u8, ((e >> 24) & 0xff) as u8];
             let _ = libc::write(wfd, buf.as_ptr() as *const libc::c_void, buf.len());
             libc::_exit(127);
@@ -693,7 +721,7 @@ pub(crate) fn do_spawn(
 pub(crate) fn do_exec(globals: &mut Globals, spec: &ExecSpec) -> MonorubyErr {
     // SAFETY: exec replaces this process; on failure only fd/process
     // state that CRuby also clobbers has changed.
-    let (stage, e) = unsafe { child_exec(spec) };
+    let (stage, e) = unsafe { child_exec(spec, -1) };
     stage_error(globals, spec, stage, e)
 }
 
-- 
2.43.0


From 161a16ae46dec715ee340b1218c7f0cf5addae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:50:00 +0000
Subject: [PATCH 37/62] fix: apply redirects of spawn and exec to the parent's
 view in any order

1=>2 together with 2=>1 sent both to the same place, and
err: [:child, :out] given before out: missed the new standard output.
---
 monoruby/src/builtins/spawn.rs | 54 ++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/monoruby/src/builtins/spawn.rs b/monoruby/src/builtins/spawn.rs
index 5c9bf9d..dbdbde7 100644
--- a/monoruby/src/builtins/spawn.rs
+++ b/monoruby/src/builtins/spawn.rs
@@ -12,7 +12,7 @@
 use super::*;
 use std::ffi::CString;
 
-/// One redirect operation, applied in the child in option order.
+/// One redirect operation, applied in the child.
 pub(crate) struct Redirect {
     /// The child fds being redirected (`[:out, :err] => ...` lists two).
     child_fds: Vec<i32>,
@@ -497,9 +497,34 @@ unsafe fn child_exec(spec: &ExecSpec, report_fd: i32) -> (u8, i32) {
         {
             return (STAGE_CHDIR, errno());
         }
-        for r in &spec.redirects {
+        // Redirects from descriptors and files refer to the parent's view,
+        // whatever the order of the options: save the sources that another
+        // redirect overwrites before they are used. Closing and
+        // `[:child, fd]` come after them.
+        let floor = spec.redirect_fds().max().unwrap_or(0) + 1;
+        let mut sources = Vec::with_capacity(spec.redirects.len());
+        for (i, r) in spec.redirects.iter().enumerate() {
+            let RedirectTarget::Fd(src) = r.target else {
+                sources.push(-1);
+                continue;
+            };
+            let overwritten = spec.redirects[..i].iter().any(|p| {
+                p.child_fds.contains(&src)
+                    && matches!(p.target, RedirectTarget::Fd(_) | RedirectTarget::File { .. })
+            });
+            if overwritten && !r.child_fds.contains(&src) {
+                let saved = libc::fcntl(src, libc::F_DUPFD_CLOEXEC, floor);
+                if saved < 0 {
+                    return (STAGE_EXEC, errno());
+                }
+                sources.push(saved);
+            } else {
+                sources.push(src);
+            }
+        }
+        for (r, src) in spec.redirects.iter().zip(&sources) {
             match &r.target {
-                RedirectTarget::Fd(src) => {
+                RedirectTarget::Fd(_) => {
                     for &cfd in &r.child_fds {
                         if *src == cfd {
                             // `fd => fd`: keep the fd open across exec by
@@ -524,16 +549,21 @@ unsafe fn child_exec(spec: &ExecSpec, report_fd: i32) -> (u8, i32) {
                         libc::close(fd);
                     }
                 }
-                RedirectTarget::Close => {
-                    for &cfd in &r.child_fds {
-                        libc::close(cfd);
-                    }
+                RedirectTarget::Close | RedirectTarget::Child(_) => {}
+            }
+        }
+        for r in &spec.redirects {
+            if let RedirectTarget::Close = r.target {
+                for &cfd in &r.child_fds {
+                    libc::close(cfd);
                 }
-                RedirectTarget::Child(other) => {
-                    for &cfd in &r.child_fds {
-                        if *other != cfd && libc::dup2(*other, cfd) < 0 {
-                            return (STAGE_EXEC, errno());
-                        }
+            }
+        }
+        for r in &spec.redirects {
+            if let RedirectTarget::Child(other) = r.target {
+                for &cfd in &r.child_fds {
+                    if other != cfd && libc::dup2(other, cfd) < 0 {
+                        return (STAGE_EXEC, errno());
                     }
                 }
             }
-- 
2.43.0


From 6243c34d663d0a67139c319c4c08208ae4f10115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 38/62] fix: let a fiber be resumed after it was transferred to
 and then yielded

Whether a fiber may be resumed depended on a flag that stayed set after the
first transfer. A fiber that had yielded since could not be resumed any more,
and the root fiber waiting in a transfer could be. Look at whether the fiber
is suspended in a yield instead.
---
 monoruby/src/executor.rs           | 12 ------------
 monoruby/src/value/rvalue/fiber.rs |  7 ++++---
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/monoruby/src/executor.rs b/monoruby/src/executor.rs
index d140328..0f63696 100644
--- a/monoruby/src/executor.rs
+++ b/monoruby/src/executor.rs
@@ -384,9 +384,6 @@ pub struct Executor {
     /// This fiber is suspended in `Fiber.yield` (CRuby's `yielding` flag).
     /// A yielding fiber can be resumed but not transferred to.
     yielding: bool,
-    /// This fiber has been the target of `Fiber#transfer` at least once;
-    /// such a fiber can never be `#resume`d again (CRuby).
-    transferred: bool,
     /// The `blocking:` flag of this fiber (`Fiber#blocking?`). Root
     /// executors (threads) are blocking; `Fiber.new` defaults to
     /// non-blocking, matching CRuby 3.x.
@@ -439,7 +436,6 @@ impl std::default::Default for Executor {
             resuming_fiber: None,
             return_to: None,
             yielding: false,
-            transferred: false,
             fiber_blocking: true,
             killed: false,
             thread_root: None,
@@ -2001,14 +1997,6 @@ impl Executor {
         self.yielding = b;
     }
 
-    pub(crate) fn is_transferred(&self) -> bool {
-        self.transferred
-    }
-
-    pub(crate) fn set_transferred(&mut self) {
-        self.transferred = true;
-    }
-
     pub(crate) fn is_fiber_blocking(&self) -> bool {
         self.fiber_blocking
     }
diff --git a/monoruby/src/value/rvalue/fiber.rs b/monoruby/src/value/rvalue/fiber.rs
index 5ff0395..b18e51d 100644
--- a/monoruby/src/value/rvalue/fiber.rs
+++ b/monoruby/src/value/rvalue/fiber.rs
@@ -221,9 +221,11 @@ impl Fiber {
                 "attempt to resume a resuming fiber".to_string(),
             ));
         }
-        if self.executor().is_transferred() {
+        // Suspended in a `transfer` (started by one, or transferring away
+        // after a resume): control can only come back by a transfer.
+        if self.state() == FiberState::Suspended && !self.executor().is_yielding() {
             return Err(MonorubyErr::fibererr(
-                "cannot resume transferred Fiber".to_string(),
+                "attempt to resume a transferring fiber".to_string(),
             ));
         }
         Ok(())
@@ -259,7 +261,6 @@ impl Fiber {
         if self.state() == FiberState::Terminated {
             return Err(MonorubyErr::fibererr("dead fiber called".to_string()));
         }
-        self.executor_mut().set_transferred();
         if self.executor_ptr() == (vm as *mut Executor) {
             // Transferring to the currently running fiber: continue in
             // place, the call evaluating to its own arguments.
-- 
2.43.0


From c46cf4c893c73b24ed76eacb6941b35675a638f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 39/62] fix: refuse to advance an enumerator whose fiber waits
 in a transfer

Enumerator#next entered such a fiber and overwrote its resumer.
---
 monoruby/src/value/rvalue/fiber.rs | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/monoruby/src/value/rvalue/fiber.rs b/monoruby/src/value/rvalue/fiber.rs
index b18e51d..ac36546 100644
--- a/monoruby/src/value/rvalue/fiber.rs
+++ b/monoruby/src/value/rvalue/fiber.rs
@@ -520,7 +520,9 @@ impl Fiber {
     }
 
     pub(super) fn resume_fiber(&mut self, vm: &mut Executor, val: Value) -> Result<Value> {
-        self.check_not_across_resume(vm)?;
+        // The enumerator-internal path comes here without the checks of
+        // `resume`.
+        self.check_resumable(vm)?;
         vm.set_resuming_fiber(std::ptr::NonNull::new(self.executor_ptr()));
         {
             let vm_ptr = std::ptr::NonNull::new(vm as *mut Executor).unwrap();
@@ -533,29 +535,6 @@ impl Fiber {
         self.receive_switch_back(vm, res)
     }
 
-    /// Guard the enumerator-internal resume path (which skips
-    /// `check_resumable`) against switching into a live executor: resuming
-    /// the current context or an executor already on the active chain would
-    /// switch the native stack into a live frame (SIGSEGV).
-    fn check_not_across_resume(&mut self, vm: &mut Executor) -> Result<()> {
-        let target = self.executor_ptr() as *const Executor;
-        if target == (vm as *const Executor) {
-            return Err(MonorubyErr::fibererr(
-                "attempt to resume the current fiber".to_string(),
-            ));
-        }
-        let mut cur = vm.parent_fiber();
-        while let Some(p) = cur {
-            if (p.as_ptr() as *const Executor) == target {
-                return Err(MonorubyErr::fibererr(
-                    "attempt to resume a resumed fiber (double resume)".to_string(),
-                ));
-            }
-            cur = unsafe { p.as_ref().parent_fiber() };
-        }
-        Ok(())
-    }
-
     ///
     /// Post-switch bookkeeping: runs on the *receiving* side of every
     /// switch-back into `vm` (yield-back, termination, or a value passed
-- 
2.43.0


From 266cdf6a6c58bb22090431e051e0402f56211fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 40/62] fix: do not raise the kill of a fiber in the fiber it
 returns to

A killed fiber that ended in another fiber than its killer passed the
termination on, which ended an unrelated fiber.
---
 monoruby/src/executor.rs           | 13 ++++++-------
 monoruby/src/value/rvalue/fiber.rs | 18 +++++-------------
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/monoruby/src/executor.rs b/monoruby/src/executor.rs
index 0f63696..000d5b9 100644
--- a/monoruby/src/executor.rs
+++ b/monoruby/src/executor.rs
@@ -388,8 +388,8 @@ pub struct Executor {
     /// executors (threads) are blocking; `Fiber.new` defaults to
     /// non-blocking, matching CRuby 3.x.
     fiber_blocking: bool,
-    /// This fiber is being killed (`Fiber#kill`): the receiver of its
-    /// termination swallows the kill unwind instead of propagating it.
+    /// This fiber is being killed (`Fiber#kill`): its termination swallows
+    /// the kill unwind instead of relaying it.
     killed: bool,
     /// The root executor of the thread this fiber belongs to (`None` for a
     /// root executor itself). Start of the resuming-chain walk.
@@ -2005,10 +2005,6 @@ impl Executor {
         self.fiber_blocking = b;
     }
 
-    pub(crate) fn is_killed(&self) -> bool {
-        self.killed
-    }
-
     pub(crate) fn set_killed(&mut self) {
         self.killed = true;
     }
@@ -2096,7 +2092,10 @@ pub(crate) extern "C" fn fiber_on_terminate(child: &mut Executor) -> *mut Execut
         .return_to
         .or(child.parent_fiber)
         .expect("terminating fiber has no return target");
-    if let Some(err) = std::mem::take(&mut child.exception) {
+    // The kill unwind of a killed fiber ends with it: nothing is relayed.
+    if let Some(err) = std::mem::take(&mut child.exception)
+        && !(child.killed && matches!(err.kind(), MonorubyErrKind::FiberKill))
+    {
         // SAFETY: the return target is suspended (its context saved), so its
         // executor is valid and quiescent; its error slot is empty because a
         // suspended fiber cannot hold an in-flight exception.
diff --git a/monoruby/src/value/rvalue/fiber.rs b/monoruby/src/value/rvalue/fiber.rs
index ac36546..d5765ae 100644
--- a/monoruby/src/value/rvalue/fiber.rs
+++ b/monoruby/src/value/rvalue/fiber.rs
@@ -544,9 +544,8 @@ impl Fiber {
     ///   `prev` and our `resuming_fiber`) and marks a yield-suspension.
     /// - Maps the null switch value to "an error was relayed into MY
     ///   executor" (termination relay / raise injection).
-    /// - Swallows the kill unwind of a killed child (`Fiber#kill`).
-    /// - Delivers a `Fiber#kill` that targeted *us* while we were an active
-    ///   ancestor on the resume chain.
+    /// - A null switch value without an error is the end of a killed fiber,
+    ///   which need not be the one activated here.
     ///
     fn receive_switch_back(&mut self, vm: &mut Executor, res: Option<Value>) -> Result<Value> {
         vm.set_resuming_fiber(None);
@@ -569,22 +568,15 @@ impl Fiber {
         match res {
             Some(val) => Ok(val),
             None => {
-                let killed = self.executor().is_killed();
                 if vm.has_error() {
-                    let err = vm.take_error();
-                    if killed && matches!(err.kind(), MonorubyErrKind::FiberKill) {
-                        Ok(Value::nil())
-                    } else {
-                        Err(err)
-                    }
-                } else if killed {
-                    Ok(Value::nil())
+                    Err(vm.take_error())
                 } else if self.executor().has_error() {
                     // Legacy activation-error path: the error stayed on the
                     // child executor.
                     Err(self.executor_mut().take_error())
                 } else {
-                    Err(MonorubyErr::fibererr("fiber switch failed".to_string()))
+                    // A killed fiber ended (see `fiber_on_terminate`).
+                    Ok(Value::nil())
                 }
             }
         }
-- 
2.43.0


From 39b6cd42cb26521e1df9de7a3bd7f848587fefba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 41/62] fix: take the thread root of a fiber from the context
 that activates it

Fibers created inside an enumerator took the executor of the enumerator for
the root of the thread and returned to it after it had ended.
---
 monoruby/src/value/rvalue/fiber.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoruby/src/value/rvalue/fiber.rs b/monoruby/src/value/rvalue/fiber.rs
index d5765ae..214de99 100644
--- a/monoruby/src/value/rvalue/fiber.rs
+++ b/monoruby/src/value/rvalue/fiber.rs
@@ -447,8 +447,12 @@ impl Fiber {
         if resume_style {
             vm.set_resuming_fiber(std::ptr::NonNull::new(self.executor_ptr()));
         }
+        let root = vm.thread_root_or_self();
         let handle = self.executor_mut();
         handle.set_current_fiber(fiber_val);
+        // An enumerator's fiber learns its thread here; without it, fibers
+        // made in its body would take its own executor for the root.
+        handle.set_thread_root(root);
         handle.set_return_to(return_to);
     }
 
-- 
2.43.0


From a78da8a1557422d82d29e6e768f0ce422c51a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 42/62] fix: determine where a fiber returns to when it ends

The target was recorded when the fiber was transferred to and could have
ended since.
---
 monoruby/src/codegen/arch/aarch64/invoker.rs |  4 +-
 monoruby/src/codegen/arch/x86_64/invoker.rs  |  8 +-
 monoruby/src/executor.rs                     | 33 ++++----
 monoruby/src/value/rvalue/fiber.rs           | 79 ++++----------------
 4 files changed, 33 insertions(+), 91 deletions(-)

diff --git a/monoruby/src/codegen/arch/aarch64/invoker.rs b/monoruby/src/codegen/arch/aarch64/invoker.rs
index 48ef4eb..1351cea 100644
--- a/monoruby/src/codegen/arch/aarch64/invoker.rs
+++ b/monoruby/src/codegen/arch/aarch64/invoker.rs
@@ -343,8 +343,8 @@ impl JitModule {
     /// leaves `parent_fiber` unset so a yield inside raises FiberError. On
     /// body termination `fiber_on_terminate` (Rust) marks the child dead,
     /// relays a pending error to the return target's executor, and yields
-    /// the executor whose saved context to restore (the eagerly maintained
-    /// `return_to`). Mirrors the x86 fiber_invoker_inner.
+    /// the executor whose saved context to restore. Mirrors the x86
+    /// fiber_invoker_inner.
     pub(in crate::codegen) fn a64_fiber_invoker(
         &mut self,
         with_self: bool,
diff --git a/monoruby/src/codegen/arch/x86_64/invoker.rs b/monoruby/src/codegen/arch/x86_64/invoker.rs
index 0187bab..2b57226 100644
--- a/monoruby/src/codegen/arch/x86_64/invoker.rs
+++ b/monoruby/src/codegen/arch/x86_64/invoker.rs
@@ -140,9 +140,8 @@ impl JitModule {
     /// On body termination (and on an activation error, whose unwind used to
     /// pop garbage from the child stack), `fiber_on_terminate` marks the
     /// child dead, relays a pending error to the return target's executor,
-    /// and yields the executor whose saved context is restored — the eagerly
-    /// maintained `return_to`, which for a transferred fiber is *not* the
-    /// activator.
+    /// and yields the executor whose saved context is restored — which for
+    /// a transferred fiber is *not* the activator.
     fn fiber_invoker_inner(&mut self, with_self: bool, write_parent: bool) -> FiberInvoker {
         let codeptr = self.jit.get_current_address();
 
@@ -369,8 +368,7 @@ impl JitModule {
     /// `Fiber#transfer` switch primitive: like `resume_fiber` but does NOT
     /// establish the child's `parent_fiber` (CRuby `prev`) link — a
     /// transferred fiber must not `Fiber.yield` back to its transferrer.
-    /// All link bookkeeping (including the eager termination target) is done
-    /// on the Rust side before this is called.
+    /// All link bookkeeping is done on the Rust side before this is called.
     pub(in crate::codegen) fn transfer_fiber(
         &mut self,
     ) -> extern "C" fn(*mut Executor, &mut Executor, Value) -> Option<Value> {
diff --git a/monoruby/src/executor.rs b/monoruby/src/executor.rs
index 000d5b9..4d6f0e1 100644
--- a/monoruby/src/executor.rs
+++ b/monoruby/src/executor.rs
@@ -374,13 +374,6 @@ pub struct Executor {
     /// walked from the thread root to find where a terminating *transferred*
     /// fiber returns control.
     resuming_fiber: Option<std::ptr::NonNull<Executor>>,
-    /// Where control goes when this fiber's body terminates (read by
-    /// `fiber_on_terminate` from the invoker glue). Recomputed eagerly at
-    /// every switch-in: the resumer for a resume, CRuby's
-    /// `return_fiber(terminate=true)` for a transfer. Distinct from
-    /// `parent_fiber` (CRuby's `prev`), which stays `None` for transferred
-    /// fibers so `Fiber.yield` inside them correctly raises FiberError.
-    return_to: Option<std::ptr::NonNull<Executor>>,
     /// This fiber is suspended in `Fiber.yield` (CRuby's `yielding` flag).
     /// A yielding fiber can be resumed but not transferred to.
     yielding: bool,
@@ -434,7 +427,6 @@ impl std::default::Default for Executor {
             deferred_unwind: vec![],
             current_fiber: None,
             resuming_fiber: None,
-            return_to: None,
             yielding: false,
             fiber_blocking: true,
             killed: false,
@@ -1981,10 +1973,6 @@ impl Executor {
         self.resuming_fiber = f;
     }
 
-    pub(crate) fn set_return_to(&mut self, f: std::ptr::NonNull<Executor>) {
-        self.return_to = Some(f);
-    }
-
     pub(crate) fn set_parent_fiber(&mut self, f: Option<std::ptr::NonNull<Executor>>) {
         self.parent_fiber = f;
     }
@@ -2082,16 +2070,23 @@ impl Executor {
 ///   the pending `resume`/`transfer` call on that side can pick it up from
 ///   its *own* executor — the receiver of a transferred fiber's death is
 ///   not necessarily the fiber that activated it.
-/// - Returns the executor whose saved context the glue must restore: the
-///   eagerly maintained `return_to` (falling back to `parent_fiber` for
-///   robustness).
+/// - Returns the executor whose saved context the glue must restore
+///   (CRuby's `return_fiber`): the resumer, or for a transferred fiber the
+///   deepest fiber on the thread root's resuming chain. Decided only now: a
+///   transferred fiber may have waited in a `resume` while the chain
+///   changed.
 ///
 pub(crate) extern "C" fn fiber_on_terminate(child: &mut Executor) -> *mut Executor {
     child.set_terminated();
-    let mut target = child
-        .return_to
-        .or(child.parent_fiber)
-        .expect("terminating fiber has no return target");
+    let mut target = child.parent_fiber.unwrap_or_else(|| {
+        let mut cur = child.thread_root_or_self();
+        // SAFETY: resuming-chain members are suspended executors, valid
+        // while their fibers are alive.
+        while let Some(next) = unsafe { cur.as_ref() }.resuming_fiber() {
+            cur = next;
+        }
+        cur
+    });
     // The kill unwind of a killed fiber ends with it: nothing is relayed.
     if let Some(err) = std::mem::take(&mut child.exception)
         && !(child.killed && matches!(err.kind(), MonorubyErrKind::FiberKill))
diff --git a/monoruby/src/value/rvalue/fiber.rs b/monoruby/src/value/rvalue/fiber.rs
index 214de99..52600ce 100644
--- a/monoruby/src/value/rvalue/fiber.rs
+++ b/monoruby/src/value/rvalue/fiber.rs
@@ -234,10 +234,9 @@ impl Fiber {
     ///
     /// `Fiber#transfer` (CRuby `rb_fiber_transfer_kw`): the target must not
     /// be on a resume chain nor suspended in `Fiber.yield`; a self-transfer
-    /// is a no-op that passes its arguments through. Where the target's
-    /// body *terminates* is computed here (CRuby's `return_fiber`): its
-    /// `prev` if it was resumed, otherwise the deepest fiber on the current
-    /// thread root's resuming chain.
+    /// is a no-op that passes its arguments through. Where control goes when
+    /// the target's body *terminates* is decided at that point (see
+    /// `fiber_on_terminate`).
     ///
     pub fn transfer(
         &mut self,
@@ -266,34 +265,15 @@ impl Fiber {
             // place, the call evaluating to its own arguments.
             return Ok(Self::passing_arg(args));
         }
-        // CRuby return_fiber(terminate=true), evaluated eagerly: nothing
-        // that runs while the target is on top can change this answer (its
-        // own nested switches restore the links before it continues).
-        let return_to = match self.executor().parent_fiber() {
-            Some(prev) => prev,
-            None => {
-                let mut cur = vm.thread_root_or_self();
-                // SAFETY: resuming-chain members are suspended executors,
-                // valid while their fibers are alive.
-                while let Some(next) = unsafe { cur.as_ref() }.resuming_fiber() {
-                    cur = next;
-                }
-                cur
-            }
-        };
         let val = Self::passing_arg(args);
         match self.state() {
             FiberState::Created => {
-                self.prepare_activation(vm, return_to, false);
+                self.prepare_activation(vm, false);
                 let res = self.invoke_fiber_inner(vm, globals, args, None, false);
                 self.receive_switch_back(vm, res)
             }
             FiberState::Suspended => {
-                {
-                    let child = self.executor_mut();
-                    child.set_return_to(return_to);
-                    child.set_yielding(false);
-                }
+                self.executor_mut().set_yielding(false);
                 let invoker = CODEGEN.with(|codegen| codegen.borrow().transfer_fiber);
                 let res = invoker(vm as _, self.executor_mut(), val);
                 self.receive_switch_back(vm, res)
@@ -337,9 +317,7 @@ impl Fiber {
             // normal resume so an unwind returns to us.
             vm.set_resuming_fiber(std::ptr::NonNull::new(self.executor_ptr()));
             {
-                let vm_ptr = std::ptr::NonNull::new(vm as *mut Executor).unwrap();
                 let child = self.executor_mut();
-                child.set_return_to(vm_ptr);
                 child.set_yielding(false);
                 child.set_error(err);
             }
@@ -349,24 +327,8 @@ impl Fiber {
             let res = invoker(vm as _, self.executor_mut(), 0);
             self.receive_switch_back(vm, res)
         } else {
-            // Transfer-style (fiber suspended in a transfer): same return
-            // target computation as a transfer.
-            let return_to = match self.executor().parent_fiber() {
-                Some(prev) => prev,
-                None => {
-                    let mut cur = vm.thread_root_or_self();
-                    // SAFETY: see `transfer`.
-                    while let Some(next) = unsafe { cur.as_ref() }.resuming_fiber() {
-                        cur = next;
-                    }
-                    cur
-                }
-            };
-            {
-                let child = self.executor_mut();
-                child.set_return_to(return_to);
-                child.set_error(err);
-            }
+            // Transfer-style (fiber suspended in a transfer).
+            self.executor_mut().set_error(err);
             let invoker = CODEGEN.with(|codegen| codegen.borrow().transfer_fiber);
             // SAFETY: same ABI, see `RawSwitch`.
             let invoker: RawSwitch = unsafe { std::mem::transmute(invoker) };
@@ -433,14 +395,9 @@ impl Fiber {
     }
 
     /// Pre-switch bookkeeping shared by first activations: allocate the
-    /// stack, record the Fiber identity, set the termination target and
-    /// (for resume-style activations) the resume links.
-    fn prepare_activation(
-        &mut self,
-        vm: &mut Executor,
-        return_to: std::ptr::NonNull<Executor>,
-        resume_style: bool,
-    ) {
+    /// stack, record the Fiber identity and (for resume-style activations)
+    /// set the resume links.
+    fn prepare_activation(&mut self, vm: &mut Executor, resume_style: bool) {
         assert_eq!(FiberState::Created, self.state());
         let fiber_val = self.0;
         self.initialize();
@@ -453,12 +410,11 @@ impl Fiber {
         // An enumerator's fiber learns its thread here; without it, fibers
         // made in its body would take its own executor for the root.
         handle.set_thread_root(root);
-        handle.set_return_to(return_to);
     }
 
     ///
     /// Initialize and invoke the fiber (resume-style: the caller becomes
-    /// both `prev` and the termination target).
+    /// `prev`).
     ///
     /// - the fiber must be FiberState::Created.
     ///
@@ -468,8 +424,7 @@ impl Fiber {
         globals: &mut Globals,
         arg: &[Value],
     ) -> Result<Value> {
-        let vm_ptr = std::ptr::NonNull::new(vm as *mut Executor).unwrap();
-        self.prepare_activation(vm, vm_ptr, true);
+        self.prepare_activation(vm, true);
         let res = self.invoke_fiber_inner(vm, globals, arg, None, true);
         self.receive_switch_back(vm, res)
     }
@@ -486,8 +441,7 @@ impl Fiber {
         arg: &[Value],
         self_val: Value,
     ) -> Result<Value> {
-        let vm_ptr = std::ptr::NonNull::new(vm as *mut Executor).unwrap();
-        self.prepare_activation(vm, vm_ptr, true);
+        self.prepare_activation(vm, true);
         let res = self.invoke_fiber_inner(vm, globals, arg, Some(self_val), true);
         self.receive_switch_back(vm, res)
     }
@@ -528,12 +482,7 @@ impl Fiber {
         // `resume`.
         self.check_resumable(vm)?;
         vm.set_resuming_fiber(std::ptr::NonNull::new(self.executor_ptr()));
-        {
-            let vm_ptr = std::ptr::NonNull::new(vm as *mut Executor).unwrap();
-            let child = self.executor_mut();
-            child.set_return_to(vm_ptr);
-            child.set_yielding(false);
-        }
+        self.executor_mut().set_yielding(false);
         let invoker = CODEGEN.with(|codegen| codegen.borrow().resume_fiber);
         let res = invoker(vm as _, self.executor_mut(), val);
         self.receive_switch_back(vm, res)
-- 
2.43.0


From a4af9494ece8a4e928964d3e173b88e05858573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 43/62] fix: copy the hash in Fiber#storage and Fiber#storage=

Changing the returned or assigned hash changed the storage of the fiber.
---
 monoruby/src/builtins/fiber.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/fiber.rs b/monoruby/src/builtins/fiber.rs
index 17652b0..03cfc63 100644
--- a/monoruby/src/builtins/fiber.rs
+++ b/monoruby/src/builtins/fiber.rs
@@ -657,9 +657,11 @@ fn storage_get(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePt
             "Fiber storage can only be accessed from the Fiber it belongs to",
         ));
     }
+    // A copy: changing the returned Hash must not change the storage.
     Ok(globals
         .store
         .get_ivar(lfp.self_val(), storage_ivar_id())
+        .map(|v| v.dup())
         .unwrap_or_default())
 }
 
@@ -679,7 +681,7 @@ fn storage_set(_: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     validate_storage(globals, hash)?;
     globals
         .store
-        .set_ivar(lfp.self_val(), storage_ivar_id(), hash)?;
+        .set_ivar(lfp.self_val(), storage_ivar_id(), hash.dup())?;
     Ok(hash)
 }
 
-- 
2.43.0


From fec47d73acf7da69d13258a86cf4a3a509db734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 44/62] fix: reject Fiber#storage= from another fiber

The reader already refused this.
---
 monoruby/src/builtins/fiber.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/fiber.rs b/monoruby/src/builtins/fiber.rs
index 03cfc63..bd1d5df 100644
--- a/monoruby/src/builtins/fiber.rs
+++ b/monoruby/src/builtins/fiber.rs
@@ -646,17 +646,25 @@ fn class_storage_set(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Byte
 }
 
 ///
-/// ### Fiber#storage
+/// `Fiber#storage` / `Fiber#storage=` are only legal from the fiber itself.
 ///
-/// [https://docs.ruby-lang.org/ja/latest/method/Fiber/i/storage.html]
-#[monoruby_builtin]
-fn storage_get(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+fn check_storage_owner(vm: &mut Executor, globals: &mut Globals, fiber: Value) -> Result<()> {
     let cur = current_fiber_obj(vm, globals)?;
-    if cur.id() != lfp.self_val().id() {
+    if cur.id() != fiber.id() {
         return Err(MonorubyErr::argumenterr(
             "Fiber storage can only be accessed from the Fiber it belongs to",
         ));
     }
+    Ok(())
+}
+
+///
+/// ### Fiber#storage
+///
+/// [https://docs.ruby-lang.org/ja/latest/method/Fiber/i/storage.html]
+#[monoruby_builtin]
+fn storage_get(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+    check_storage_owner(vm, globals, lfp.self_val())?;
     // A copy: changing the returned Hash must not change the storage.
     Ok(globals
         .store
@@ -670,7 +678,8 @@ fn storage_get(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePt
 ///
 /// [https://docs.ruby-lang.org/ja/latest/method/Fiber/i/storage=3d.html]
 #[monoruby_builtin]
-fn storage_set(_: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+fn storage_set(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+    check_storage_owner(vm, globals, lfp.self_val())?;
     let hash = lfp.arg(0);
     if hash.is_nil() {
         globals
-- 
2.43.0


From 7dc42e9d8c999148f2b0056b912cd56ed4b8d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 45/62] fix: accept storage: true in Fiber.new

It means the same as leaving the option out: inherit a copy.
---
 monoruby/src/builtins/fiber.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/fiber.rs b/monoruby/src/builtins/fiber.rs
index bd1d5df..8d8cee2 100644
--- a/monoruby/src/builtins/fiber.rs
+++ b/monoruby/src/builtins/fiber.rs
@@ -220,12 +220,13 @@ fn fiber_new(
     let storage = match storage_kw {
         // `storage: nil` — start empty, lazily materialized; no inheritance.
         Some(v) if v.is_nil() => None,
-        Some(v) => {
+        Some(v) if v != Value::bool(true) => {
             validate_storage(globals, v)?;
             Some(v.dup())
         }
-        // Default: inherit a copy of the creating fiber's storage.
-        None => current_fiber_storage(vm, globals)?,
+        // Default, and `storage: true`: inherit a copy of the creating
+        // fiber's storage.
+        _ => current_fiber_storage(vm, globals)?,
     };
     let proc = vm.generate_proc(globals, bh, pc)?;
     let owner = crate::scheduler::current_thread(vm).id();
-- 
2.43.0


From 34c03e0cd63c4f59163e35e9a9c5c4525bb58ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 46/62] fix: return a copy from Enumerator#peek and
 #peek_values

Changing the returned array changed what the next call of next gave.
---
 monoruby/src/value/rvalue/enumerator.rs | 27 ++++++++++++-------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/monoruby/src/value/rvalue/enumerator.rs b/monoruby/src/value/rvalue/enumerator.rs
index 38f5b32..c4edd95 100644
--- a/monoruby/src/value/rvalue/enumerator.rs
+++ b/monoruby/src/value/rvalue/enumerator.rs
@@ -206,13 +206,7 @@ impl Enumerator {
     /// Peek next yield value from the enumerator.
     ///
     pub fn peek(&mut self, vm: &mut Executor, globals: &mut Globals) -> Result<Value> {
-        if let Some(ary) = self.buffer {
-            Ok(ary.peel())
-        } else {
-            let ary = self.yield_next_values(vm, globals)?;
-            self.buffer = Some(ary);
-            Ok(ary.peel())
-        }
+        Ok(self.peek_values(vm, globals)?.peel())
     }
 
     ///
@@ -221,14 +215,19 @@ impl Enumerator {
     /// becomes `[value]` (do NOT peel — that's what distinguishes
     /// `peek_values` from `peek`).
     ///
+    /// The Array is a copy: the one kept for the next `#next` must not
+    /// change with what the caller does to it.
+    ///
     pub fn peek_values(&mut self, vm: &mut Executor, globals: &mut Globals) -> Result<Array> {
-        if let Some(ary) = self.buffer {
-            Ok(ary)
-        } else {
-            let ary = self.yield_next_values(vm, globals)?;
-            self.buffer = Some(ary);
-            Ok(ary)
-        }
+        let ary = match self.buffer {
+            Some(ary) => ary,
+            None => {
+                let ary = self.yield_next_values(vm, globals)?;
+                self.buffer = Some(ary);
+                ary
+            }
+        };
+        Ok(Array::new_from_vec(ary.to_vec()))
     }
 
     ///
-- 
2.43.0


From ca1a418d7cd98affad7e064001b17aa715c5e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 47/62] fix: keep the producer of an enumerator that asks
 itself for a value

The call raises FiberError, but it also dropped the running producer and the
fed value, so the iteration started over.
---
 monoruby/src/value/rvalue/enumerator.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/enumerator.rs b/monoruby/src/value/rvalue/enumerator.rs
index c4edd95..43f145d 100644
--- a/monoruby/src/value/rvalue/enumerator.rs
+++ b/monoruby/src/value/rvalue/enumerator.rs
@@ -274,19 +274,24 @@ impl Enumerator {
         // resumes past a yield — which is what makes `feed; next; feed`
         // a TypeError.
         let feed = if internal.state() == FiberState::Suspended {
-            self.feed.take().unwrap_or_default()
+            self.feed.take()
         } else {
-            Value::nil()
+            None
         };
-        let v = match internal.enum_yield_values(vm, globals, *self, feed) {
+        let v = match internal.enum_yield_values(vm, globals, *self, feed.unwrap_or_default()) {
             Ok(v) => v,
             Err(err) => {
                 // The producer blew up, leaving its fiber dead. CRuby
                 // drops the fiber here so a later `#next` restarts the
                 // iteration from the beginning rather than reporting
-                // StopIteration forever.
-                self.internal = None;
-                self.buffer = None;
+                // StopIteration forever. A producer that could not be
+                // resumed (it is the one asking) stays where it is.
+                if internal.is_terminated() {
+                    self.internal = None;
+                    self.buffer = None;
+                } else if feed.is_some() {
+                    self.feed = feed;
+                }
                 return Err(err);
             }
         };
-- 
2.43.0


From 5792dd49f2e47e8958e5aa52d2178ae05ba2531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:41:00 +0000
Subject: [PATCH 48/62] fix: forget a fed value when the enumerator ends

Enumerator#feed raised TypeError after an iteration that had ended without
using the value.
---
 monoruby/src/value/rvalue/enumerator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoruby/src/value/rvalue/enumerator.rs b/monoruby/src/value/rvalue/enumerator.rs
index 43f145d..9bfc7a1 100644
--- a/monoruby/src/value/rvalue/enumerator.rs
+++ b/monoruby/src/value/rvalue/enumerator.rs
@@ -299,6 +299,7 @@ impl Enumerator {
             // `v` is the iterated method's own return value here —
             // surfaced by `StopIteration#result`.
             self.stop_result = Some(v);
+            self.feed = None;
             return Err(MonorubyErr::stopiterationerr_with_result(
                 "iteration reached an end".to_string(),
                 v,
-- 
2.43.0


From e4d722b79e6fd5d9cbb9051586f707070c033924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 49/62] fix: close the socket when the local address of
 TCPSocket.new is unusable

---
 monoruby/src/builtins/socket.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/socket.rs b/monoruby/src/builtins/socket.rs
index a80fea7..2eedeed 100644
--- a/monoruby/src/builtins/socket.rs
+++ b/monoruby/src/builtins/socket.rs
@@ -653,8 +653,9 @@ fn tcp_socket_new(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
             timeout = Some(timeout.map_or(d, |t: std::time::Duration| t.min(d)));
         }
     }
-    let fd = new_tcp_fd(&globals.store)?;
-    // Optional local bind (local_host, local_port).
+    // Optional local bind (local_host, local_port). Resolved before the
+    // fd exists, so that nothing is left open when the address is bad.
+    let mut local = None;
     if let Some(lh) = lfp.try_arg(2)
         && (!lh.is_nil() || lfp.try_arg(3).is_some_and(|v| !v.is_nil()))
     {
@@ -664,7 +665,10 @@ fn tcp_socket_new(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
             _ => 0,
         };
         let laddr = resolve_ipv4(&globals.store, lhost.as_deref(), true)?;
-        let lsin = sockaddr_in(laddr, lport);
+        local = Some(sockaddr_in(laddr, lport));
+    }
+    let fd = new_tcp_fd(&globals.store)?;
+    if let Some(lsin) = local {
         // SAFETY: bind(2) on our fresh fd.
         if unsafe {
             libc::bind(
-- 
2.43.0


From 882a25a4ce6148e76787d542ecede2ee650b50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 50/62] fix: restore the blocking mode after a failed
 Socket#connect

---
 monoruby/src/builtins/socket.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/socket.rs b/monoruby/src/builtins/socket.rs
index 2eedeed..951f69f 100644
--- a/monoruby/src/builtins/socket.rs
+++ b/monoruby/src/builtins/socket.rs
@@ -1678,7 +1678,10 @@ fn socket_connect(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
         let errno = last_errno();
         match errno {
             libc::EINPROGRESS | libc::EINTR | libc::EAGAIN => {
-                wait_connect_settled(vm, globals, fd, deadline, "connect(2)")?;
+                if let Err(err) = wait_connect_settled(vm, globals, fd, deadline, "connect(2)") {
+                    set_blocking(fd);
+                    return Err(err);
+                }
             }
             _ => {
                 set_blocking(fd);
-- 
2.43.0


From d9eb78ac262d6430a8a01bd143cae8530a91287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 51/62] fix: raise IOError when a socket is closed during
 Socket#connect

---
 monoruby/src/builtins/socket.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/builtins/socket.rs b/monoruby/src/builtins/socket.rs
index 951f69f..cf26c48 100644
--- a/monoruby/src/builtins/socket.rs
+++ b/monoruby/src/builtins/socket.rs
@@ -1618,9 +1618,16 @@ fn wait_connect_settled(
     fd: i32,
     deadline: Option<std::time::Instant>,
     ctx: &str,
+    io: Option<Value>,
 ) -> Result<()> {
     loop {
-        park_on_fd(vm, globals, fd, libc::POLLOUT, deadline)?;
+        let res = park_on_fd(vm, globals, fd, libc::POLLOUT, deadline);
+        // A `close` from another thread wakes us; the fd number may
+        // already belong to another file by now.
+        if io.is_some_and(|io| io.as_io_inner().is_closed()) {
+            return res.and(Err(MonorubyErr::ioerr("stream closed in another thread")));
+        }
+        res?;
         let mut soerr: i32 = 0;
         let mut len = std::mem::size_of::<i32>() as libc::socklen_t;
         // SAFETY: getsockopt out-params sized to an i32.
@@ -1670,7 +1677,8 @@ fn socket_connect(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
         }
         _ => None,
     };
-    let fd = lfp.self_val().as_io_inner().fileno()?;
+    let io = lfp.self_val();
+    let fd = io.as_io_inner().fileno()?;
     set_nonblocking(fd);
     // SAFETY: connect(2) with a length-matched byte buffer.
     let rc = unsafe { libc::connect(fd, sa.as_ptr() as *const libc::sockaddr, sa.len() as libc::socklen_t) };
@@ -1678,8 +1686,10 @@ fn socket_connect(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
         let errno = last_errno();
         match errno {
             libc::EINPROGRESS | libc::EINTR | libc::EAGAIN => {
-                if let Err(err) = wait_connect_settled(vm, globals, fd, deadline, "connect(2)") {
-                    set_blocking(fd);
+                if let Err(err) = wait_connect_settled(vm, globals, fd, deadline, "connect(2)", Some(io)) {
+                    if !io.as_io_inner().is_closed() {
+                        set_blocking(fd);
+                    }
                     return Err(err);
                 }
             }
@@ -2167,7 +2177,7 @@ fn unix_socket_new(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Byteco
         let errno = last_errno();
         match errno {
             libc::EINPROGRESS => {
-                if let Err(e) = wait_connect_settled(vm, globals, fd, None, "connect(2)") {
+                if let Err(e) = wait_connect_settled(vm, globals, fd, None, "connect(2)", None) {
                     // SAFETY: closing the fd we own.
                     unsafe { libc::close(fd) };
                     return Err(e);
-- 
2.43.0


From d24a8d44bba44d113e39a5e121a35ce1655a19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 52/62] fix: retry Socket#connect to a local server whose queue
 is full

---
 monoruby/src/builtins/socket.rs | 35 +++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/socket.rs b/monoruby/src/builtins/socket.rs
index cf26c48..a5a77f3 100644
--- a/monoruby/src/builtins/socket.rs
+++ b/monoruby/src/builtins/socket.rs
@@ -1680,18 +1680,45 @@ fn socket_connect(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
     let io = lfp.self_val();
     let fd = io.as_io_inner().fileno()?;
     set_nonblocking(fd);
-    // SAFETY: connect(2) with a length-matched byte buffer.
-    let rc = unsafe { libc::connect(fd, sa.as_ptr() as *const libc::sockaddr, sa.len() as libc::socklen_t) };
-    if rc < 0 {
+    loop {
+        // SAFETY: connect(2) with a length-matched byte buffer.
+        let rc = unsafe { libc::connect(fd, sa.as_ptr() as *const libc::sockaddr, sa.len() as libc::socklen_t) };
+        if rc == 0 {
+            break;
+        }
         let errno = last_errno();
         match errno {
-            libc::EINPROGRESS | libc::EINTR | libc::EAGAIN => {
+            // Backlog full on AF_UNIX: nothing is under way, retry after
+            // a bounded park.
+            libc::EAGAIN => {
+                let now = std::time::Instant::now();
+                if deadline.is_some_and(|dl| now >= dl) {
+                    set_blocking(fd);
+                    return Err(errno_err(&globals.store, libc::ETIMEDOUT, "connect(2)"));
+                }
+                let pause = now + std::time::Duration::from_millis(50);
+                let until = deadline.map_or(pause, |dl| dl.min(pause));
+                let res = if crate::executor::execute_gc(vm, globals).is_none() {
+                    Err(vm.take_error())
+                } else {
+                    park_on_fd(vm, globals, fd, libc::POLLOUT, Some(until))
+                };
+                if io.as_io_inner().is_closed() {
+                    return res.and(Err(MonorubyErr::ioerr("stream closed in another thread")));
+                }
+                if let Err(err) = res {
+                    set_blocking(fd);
+                    return Err(err);
+                }
+            }
+            libc::EINPROGRESS | libc::EINTR => {
                 if let Err(err) = wait_connect_settled(vm, globals, fd, deadline, "connect(2)", Some(io)) {
                     if !io.as_io_inner().is_closed() {
                         set_blocking(fd);
                     }
                     return Err(err);
                 }
+                break;
             }
             _ => {
                 set_blocking(fd);
-- 
2.43.0


From 74d42de4c96194e066497c2f8eb77692e00f69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 53/62] fix: answer nil from recv_nonblock at the end of a
 stream

---
 monoruby/src/builtins/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/socket.rs b/monoruby/src/builtins/socket.rs
index a5a77f3..cf47a0f 100644
--- a/monoruby/src/builtins/socket.rs
+++ b/monoruby/src/builtins/socket.rs
@@ -1199,7 +1199,7 @@ fn basic_recv(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
 ///
 /// ### BasicSocket#recv_nonblock
 ///
-/// - recv_nonblock(maxlen, flags = 0, outbuf = nil, exception: true) -> String | :wait_readable
+/// - recv_nonblock(maxlen, flags = 0, outbuf = nil, exception: true) -> String | :wait_readable | nil
 ///
 #[monoruby_builtin]
 fn basic_recv_nonblock(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
@@ -1210,6 +1210,8 @@ fn basic_recv_nonblock(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: By
     }
     let fd = lfp.self_val().as_io_inner().fileno()?;
     match recvfrom_attempt(fd, maxlen, flags) {
+        // End of the stream, as in `recv`.
+        Ok((data, _)) if data.is_empty() && maxlen > 0 && is_stream_socket(fd) => Ok(Value::nil()),
         Ok((data, _)) => Ok(data_to_result(data, outbuf)),
         Err(errno) if errno == libc::EAGAIN => {
             if exception {
-- 
2.43.0


From 50d3530c494aa30ba2d3c4b3a7fee099f82b6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 54/62] fix: treat infinite and enormous connect timeouts as no
 limit

---
 monoruby/src/builtins/socket.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/socket.rs b/monoruby/src/builtins/socket.rs
index cf47a0f..f54bb2c 100644
--- a/monoruby/src/builtins/socket.rs
+++ b/monoruby/src/builtins/socket.rs
@@ -649,8 +649,10 @@ fn tcp_socket_new(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
             && !v.is_nil()
         {
             let secs = v.coerce_to_f64(vm, globals)?;
-            let d = std::time::Duration::from_secs_f64(secs.max(0.0));
-            timeout = Some(timeout.map_or(d, |t: std::time::Duration| t.min(d)));
+            // A limit that no clock can reach is no limit.
+            if let Ok(d) = std::time::Duration::try_from_secs_f64(secs.max(0.0)) {
+                timeout = Some(timeout.map_or(d, |t: std::time::Duration| t.min(d)));
+            }
         }
     }
     // Optional local bind (local_host, local_port). Resolved before the
@@ -702,7 +704,7 @@ fn tcp_socket_new(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
             unsafe { libc::close(fd) };
             return Err(errno_err(&globals.store, errno, &connect_ctx(host.as_deref(), port)));
         }
-        let deadline = timeout.map(|t| std::time::Instant::now() + t);
+        let deadline = timeout.and_then(|t| std::time::Instant::now().checked_add(t));
         loop {
             if let Err(e) = park_on_fd(vm, globals, fd, libc::POLLOUT, deadline) {
                 // SAFETY: closing the fd we own.
@@ -1675,7 +1677,10 @@ fn socket_connect(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
     let deadline = match lfp.try_arg(1) {
         Some(v) if !v.is_nil() => {
             let secs = v.coerce_to_f64(vm, globals)?;
-            Some(std::time::Instant::now() + std::time::Duration::from_secs_f64(secs.max(0.0)))
+            // A limit that no clock can reach is no limit.
+            std::time::Duration::try_from_secs_f64(secs.max(0.0))
+                .ok()
+                .and_then(|d| std::time::Instant::now().checked_add(d))
         }
         _ => None,
     };
-- 
2.43.0


From 6b31afdd5de8df0b6eae1cc8278d2e7e78b406fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 55/62] fix: test readiness before reading the pending error of
 a connect

---
 monoruby/src/builtins/socket.rs | 82 +++++++++++++++++----------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/monoruby/src/builtins/socket.rs b/monoruby/src/builtins/socket.rs
index f54bb2c..3df2623 100644
--- a/monoruby/src/builtins/socket.rs
+++ b/monoruby/src/builtins/socket.rs
@@ -711,7 +711,30 @@ fn tcp_socket_new(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
                 unsafe { libc::close(fd) };
                 return Err(e);
             }
-            // Connection settled (or deadline passed): read SO_ERROR.
+            // Settled, or a spurious wake, or the deadline passed?
+            // Ask before SO_ERROR is read: an attempt that fails between
+            // the two would otherwise look like a connection.
+            let mut pfd = libc::pollfd {
+                fd,
+                events: libc::POLLOUT,
+                revents: 0,
+            };
+            // SAFETY: one pollfd, length 1, timeout 0.
+            let ready = unsafe { libc::poll(&mut pfd, 1, 0) };
+            if ready <= 0 {
+                if let Some(dl) = deadline
+                    && std::time::Instant::now() >= dl
+                {
+                    // SAFETY: closing the fd we own.
+                    unsafe { libc::close(fd) };
+                    return Err(errno_err(
+                        &globals.store,
+                        libc::ETIMEDOUT,
+                        &connect_ctx(host.as_deref(), port),
+                    ));
+                }
+                continue;
+            }
             let mut soerr: i32 = 0;
             let mut len = std::mem::size_of::<i32>() as libc::socklen_t;
             // SAFETY: getsockopt out-params sized to an i32.
@@ -725,30 +748,7 @@ fn tcp_socket_new(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
                 );
             }
             if soerr == 0 {
-                // Either connected, or still in progress after a spurious
-                // wake. Distinguish with a zero-timeout POLLOUT check.
-                let mut pfd = libc::pollfd {
-                    fd,
-                    events: libc::POLLOUT,
-                    revents: 0,
-                };
-                // SAFETY: one pollfd, length 1, timeout 0.
-                let ready = unsafe { libc::poll(&mut pfd, 1, 0) };
-                if ready > 0 {
-                    break;
-                }
-                if let Some(dl) = deadline
-                    && std::time::Instant::now() >= dl
-                {
-                    // SAFETY: closing the fd we own.
-                    unsafe { libc::close(fd) };
-                    return Err(errno_err(
-                        &globals.store,
-                        libc::ETIMEDOUT,
-                        &connect_ctx(host.as_deref(), port),
-                    ));
-                }
-                continue;
+                break;
             }
             // SAFETY: closing the fd we own.
             unsafe { libc::close(fd) };
@@ -1632,21 +1632,8 @@ fn wait_connect_settled(
             return res.and(Err(MonorubyErr::ioerr("stream closed in another thread")));
         }
         res?;
-        let mut soerr: i32 = 0;
-        let mut len = std::mem::size_of::<i32>() as libc::socklen_t;
-        // SAFETY: getsockopt out-params sized to an i32.
-        unsafe {
-            libc::getsockopt(
-                fd,
-                libc::SOL_SOCKET,
-                libc::SO_ERROR,
-                &mut soerr as *mut i32 as *mut libc::c_void,
-                &mut len,
-            );
-        }
-        if soerr != 0 {
-            return Err(errno_err(&globals.store, soerr, ctx));
-        }
+        // Readiness first: an attempt that fails after SO_ERROR was read
+        // must not look like a connection.
         let mut pfd = libc::pollfd {
             fd,
             events: libc::POLLOUT,
@@ -1655,6 +1642,21 @@ fn wait_connect_settled(
         // SAFETY: one pollfd, length 1, timeout 0.
         let ready = unsafe { libc::poll(&mut pfd, 1, 0) };
         if ready > 0 {
+            let mut soerr: i32 = 0;
+            let mut len = std::mem::size_of::<i32>() as libc::socklen_t;
+            // SAFETY: getsockopt out-params sized to an i32.
+            unsafe {
+                libc::getsockopt(
+                    fd,
+                    libc::SOL_SOCKET,
+                    libc::SO_ERROR,
+                    &mut soerr as *mut i32 as *mut libc::c_void,
+                    &mut len,
+                );
+            }
+            if soerr != 0 {
+                return Err(errno_err(&globals.store, soerr, ctx));
+            }
             return Ok(());
         }
         if let Some(dl) = deadline
-- 
2.43.0


From 6dae9696fa7ee70667aec289e16da4b8cc1f9321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 56/62] fix: keep waiting in IO#wait after a signal

---
 monoruby/src/builtins/io.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/io.rs b/monoruby/src/builtins/io.rs
index a5664b4..18795e8 100644
--- a/monoruby/src/builtins/io.rs
+++ b/monoruby/src/builtins/io.rs
@@ -4889,14 +4889,30 @@ fn wait_single_fd_events(
     events: i16,
     timeout_ms: i32,
 ) -> Result<i16> {
-    if !crate::scheduler::has_other_live_threads() {
-        return poll_single_fd(self_val, events, timeout_ms);
-    }
     let deadline = if timeout_ms >= 0 {
         Some(std::time::Instant::now() + std::time::Duration::from_millis(timeout_ms as u64))
     } else {
         None
     };
+    let mut remaining_ms = timeout_ms;
+    while !crate::scheduler::has_other_live_threads() {
+        let revents = poll_single_fd(self_val, events, remaining_ms)?;
+        if revents != 0 {
+            return Ok(revents);
+        }
+        if let Some(dl) = deadline {
+            let left = dl.saturating_duration_since(std::time::Instant::now());
+            if left.is_zero() {
+                return Ok(0);
+            }
+            remaining_ms = left.as_nanos().div_ceil(1_000_000) as i32;
+        }
+        // A signal interrupted the wait: run its handler (or raise), then
+        // wait for the rest of the time.
+        if crate::executor::execute_gc(vm, globals).is_none() {
+            return Err(vm.take_error());
+        }
+    }
     loop {
         // Zero-timeout probe; also raises IOError once the stream is
         // closed (including by another thread while we were parked).
-- 
2.43.0


From 6759c48ba3e2c0ef04dbc473ef142a4702b6c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 57/62] fix: report hang-ups and errors as ready from IO#wait

---
 monoruby/src/builtins/io.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monoruby/src/builtins/io.rs b/monoruby/src/builtins/io.rs
index 18795e8..190a51c 100644
--- a/monoruby/src/builtins/io.rs
+++ b/monoruby/src/builtins/io.rs
@@ -4953,6 +4953,11 @@ fn poll_single_fd(self_val: Value, events: i16, timeout_ms: i32) -> Result<i16>
     if (pfd.revents & (libc::POLLNVAL as i16)) != 0 {
         return Err(MonorubyErr::ioerr("closed stream"));
     }
+    // A hang-up or an error makes every requested operation possible: it
+    // ends at once. (The kernel reports them without POLLIN / POLLOUT.)
+    if (pfd.revents & (libc::POLLHUP | libc::POLLERR) as i16) != 0 {
+        return Ok(pfd.revents | events);
+    }
     Ok(pfd.revents)
 }
 
-- 
2.43.0


From 615533fe010fddf0663561f628b0c889213083ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 58/62] fix: report buffered data as readable from IO#wait

---
 monoruby/src/builtins/io.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monoruby/src/builtins/io.rs b/monoruby/src/builtins/io.rs
index 190a51c..c5654ae 100644
--- a/monoruby/src/builtins/io.rs
+++ b/monoruby/src/builtins/io.rs
@@ -4889,6 +4889,12 @@ fn wait_single_fd_events(
     events: i16,
     timeout_ms: i32,
 ) -> Result<i16> {
+    // Unread bytes in the buffer can be read without the kernel (see
+    // `io_read_pending`).
+    if events & libc::POLLIN as i16 != 0 && io_read_pending(self_val) {
+        let others = poll_single_fd(self_val, events & !(libc::POLLIN as i16), 0)?;
+        return Ok(others | libc::POLLIN as i16);
+    }
     let deadline = if timeout_ms >= 0 {
         Some(std::time::Instant::now() + std::time::Duration::from_millis(timeout_ms as u64))
     } else {
-- 
2.43.0


From 28baffadf3b6cd79d999a497b23174adcc7ed248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 59/62] fix: allow descriptors beyond FD_SETSIZE in IO.select

---
 monoruby/src/builtins/io.rs | 43 ++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/monoruby/src/builtins/io.rs b/monoruby/src/builtins/io.rs
index c5654ae..dd32d17 100644
--- a/monoruby/src/builtins/io.rs
+++ b/monoruby/src/builtins/io.rs
@@ -4401,9 +4401,16 @@ fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
 
     // SAFETY: libc fd_set operations are standard POSIX.
     unsafe {
-        let mut readfds: libc::fd_set = std::mem::zeroed();
-        let mut writefds: libc::fd_set = std::mem::zeroed();
-        let mut errorfds: libc::fd_set = std::mem::zeroed();
+        // As many sets in a row as the largest fd needs: a single `fd_set`
+        // ends at FD_SETSIZE.
+        let sets = (nfds as usize).div_ceil(libc::FD_SETSIZE).max(1);
+        let mut readfds: Vec<libc::fd_set> = vec![std::mem::zeroed(); sets];
+        let mut writefds = readfds.clone();
+        let mut errorfds = readfds.clone();
+        let set_and_bit = |fd: i32| {
+            let fd = fd as usize;
+            (fd / libc::FD_SETSIZE, (fd % libc::FD_SETSIZE) as i32)
+        };
 
         // On Linux, select(2) updates the timeval to the time not slept,
         // so re-entering after an EINTR (below) continues with the
@@ -4415,18 +4422,21 @@ fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
 
         let ret = loop {
             // select(2) mutates the fd sets, so rebuild them each attempt.
-            libc::FD_ZERO(&mut readfds);
-            libc::FD_ZERO(&mut writefds);
-            libc::FD_ZERO(&mut errorfds);
+            readfds.fill(std::mem::zeroed());
+            writefds.fill(std::mem::zeroed());
+            errorfds.fill(std::mem::zeroed());
 
             for &fd in &read_fds {
-                libc::FD_SET(fd, &mut readfds);
+                let (set, bit) = set_and_bit(fd);
+                libc::FD_SET(bit, &mut readfds[set]);
             }
             for &fd in &write_fds {
-                libc::FD_SET(fd, &mut writefds);
+                let (set, bit) = set_and_bit(fd);
+                libc::FD_SET(bit, &mut writefds[set]);
             }
             for &fd in &error_fds {
-                libc::FD_SET(fd, &mut errorfds);
+                let (set, bit) = set_and_bit(fd);
+                libc::FD_SET(bit, &mut errorfds[set]);
             }
 
             let timeout_ptr = if timeout.is_some() {
@@ -4440,17 +4450,17 @@ fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
                 if read_fds.is_empty() {
                     std::ptr::null_mut()
                 } else {
-                    &mut readfds
+                    readfds.as_mut_ptr()
                 },
                 if write_fds.is_empty() {
                     std::ptr::null_mut()
                 } else {
-                    &mut writefds
+                    writefds.as_mut_ptr()
                 },
                 if error_fds.is_empty() {
                     std::ptr::null_mut()
                 } else {
-                    &mut errorfds
+                    errorfds.as_mut_ptr()
                 },
                 timeout_ptr,
             );
@@ -4484,19 +4494,22 @@ fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
         // Build result arrays
         let mut ready_read = vec![];
         for (i, &fd) in read_fds.iter().enumerate() {
-            if libc::FD_ISSET(fd, &readfds) {
+            let (set, bit) = set_and_bit(fd);
+            if libc::FD_ISSET(bit, &readfds[set]) {
                 ready_read.push(read_ios[i]);
             }
         }
         let mut ready_write = vec![];
         for (i, &fd) in write_fds.iter().enumerate() {
-            if libc::FD_ISSET(fd, &writefds) {
+            let (set, bit) = set_and_bit(fd);
+            if libc::FD_ISSET(bit, &writefds[set]) {
                 ready_write.push(write_ios[i]);
             }
         }
         let mut ready_error = vec![];
         for (i, &fd) in error_fds.iter().enumerate() {
-            if libc::FD_ISSET(fd, &errorfds) {
+            let (set, bit) = set_and_bit(fd);
+            if libc::FD_ISSET(bit, &errorfds[set]) {
                 ready_error.push(error_ios[i]);
             }
         }
-- 
2.43.0


From 83c7aa6f4a631dbb013957147a53a3721a3aa4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 60/62] fix: wait for the write side of two-way pipes in
 IO.select

---
 monoruby/src/builtins/io.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/builtins/io.rs b/monoruby/src/builtins/io.rs
index dd32d17..8fe3945 100644
--- a/monoruby/src/builtins/io.rs
+++ b/monoruby/src/builtins/io.rs
@@ -4148,11 +4148,12 @@ fn io_write_nonblock(
     }
 }
 
-/// Helper: extract raw fd from a Value that is an IO (or responds to to_io).
-fn value_to_fd(vm: &mut Executor, globals: &mut Globals, v: Value) -> Result<i32> {
+/// Helper: extract the raw fd to poll for `events` from a Value that is an
+/// IO (or responds to to_io).
+fn value_to_fd(vm: &mut Executor, globals: &mut Globals, v: Value, events: i16) -> Result<i32> {
     if let Some(rv) = v.try_rvalue() {
         if rv.ty() == ObjTy::IO {
-            return v.as_io_inner().fileno();
+            return v.as_io_inner().wait_fd_for(events);
         }
     }
     // Duck typing: CRuby converts non-IO entries through #to_io.
@@ -4162,7 +4163,7 @@ fn value_to_fd(vm: &mut Executor, globals: &mut Globals, v: Value) -> Result<i32
         if let Some(rv) = io.try_rvalue()
             && rv.ty() == ObjTy::IO
         {
-            return io.as_io_inner().fileno();
+            return io.as_io_inner().wait_fd_for(events);
         }
     }
     Err(MonorubyErr::typeerr(format!(
@@ -4245,15 +4246,15 @@ fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     // Get fds (non-IO entries convert through #to_io).
     let mut read_fds: Vec<i32> = Vec::with_capacity(read_ios.len());
     for v in &read_ios {
-        read_fds.push(value_to_fd(vm, globals, *v)?);
+        read_fds.push(value_to_fd(vm, globals, *v, libc::POLLIN)?);
     }
     let mut write_fds: Vec<i32> = Vec::with_capacity(write_ios.len());
     for v in &write_ios {
-        write_fds.push(value_to_fd(vm, globals, *v)?);
+        write_fds.push(value_to_fd(vm, globals, *v, libc::POLLOUT)?);
     }
     let mut error_fds: Vec<i32> = Vec::with_capacity(error_ios.len());
     for v in &error_ios {
-        error_fds.push(value_to_fd(vm, globals, *v)?);
+        error_fds.push(value_to_fd(vm, globals, *v, libc::POLLPRI)?);
     }
 
     // All sets empty, no timeout: with other live threads this parks
-- 
2.43.0


From 53705d1fbe551a2e664d4d6c584eabc6cefa7909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 61/62] fix: report buffered data of converted objects from
 IO.select

---
 monoruby/src/builtins/io.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/monoruby/src/builtins/io.rs b/monoruby/src/builtins/io.rs
index 8fe3945..a901ae7 100644
--- a/monoruby/src/builtins/io.rs
+++ b/monoruby/src/builtins/io.rs
@@ -4148,12 +4148,11 @@ fn io_write_nonblock(
     }
 }
 
-/// Helper: extract the raw fd to poll for `events` from a Value that is an
-/// IO (or responds to to_io).
-fn value_to_fd(vm: &mut Executor, globals: &mut Globals, v: Value, events: i16) -> Result<i32> {
+/// Helper: extract the IO from a Value that is one (or responds to to_io).
+fn value_to_io(vm: &mut Executor, globals: &mut Globals, v: Value) -> Result<Value> {
     if let Some(rv) = v.try_rvalue() {
         if rv.ty() == ObjTy::IO {
-            return v.as_io_inner().wait_fd_for(events);
+            return Ok(v);
         }
     }
     // Duck typing: CRuby converts non-IO entries through #to_io.
@@ -4163,7 +4162,9 @@ fn value_to_fd(vm: &mut Executor, globals: &mut Globals, v: Value, events: i16)
         if let Some(rv) = io.try_rvalue()
             && rv.ty() == ObjTy::IO
         {
-            return io.as_io_inner().wait_fd_for(events);
+            // Nobody else may know the converted IO: keep it alive.
+            vm.temp_push(io);
+            return Ok(io);
         }
     }
     Err(MonorubyErr::typeerr(format!(
@@ -4189,6 +4190,13 @@ fn io_read_pending(v: Value) -> bool {
 /// [https://docs.ruby-lang.org/ja/latest/method/IO/s/select.html]
 #[monoruby_builtin]
 fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+    let temp_len = vm.temp_len();
+    let res = io_select_inner(vm, globals, lfp);
+    vm.temp_clear(temp_len);
+    res
+}
+
+fn io_select_inner(vm: &mut Executor, globals: &mut Globals, lfp: Lfp) -> Result<Value> {
     let read_arg = lfp.arg(0);
     let write_arg = lfp.try_arg(1).unwrap_or(Value::nil());
     let error_arg = lfp.try_arg(2).unwrap_or(Value::nil());
@@ -4244,17 +4252,22 @@ fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     };
 
     // Get fds (non-IO entries convert through #to_io).
+    let mut read_objs: Vec<Value> = Vec::with_capacity(read_ios.len());
     let mut read_fds: Vec<i32> = Vec::with_capacity(read_ios.len());
     for v in &read_ios {
-        read_fds.push(value_to_fd(vm, globals, *v, libc::POLLIN)?);
+        let io = value_to_io(vm, globals, *v)?;
+        read_fds.push(io.as_io_inner().wait_fd_for(libc::POLLIN)?);
+        read_objs.push(io);
     }
     let mut write_fds: Vec<i32> = Vec::with_capacity(write_ios.len());
     for v in &write_ios {
-        write_fds.push(value_to_fd(vm, globals, *v, libc::POLLOUT)?);
+        let io = value_to_io(vm, globals, *v)?;
+        write_fds.push(io.as_io_inner().wait_fd_for(libc::POLLOUT)?);
     }
     let mut error_fds: Vec<i32> = Vec::with_capacity(error_ios.len());
     for v in &error_ios {
-        error_fds.push(value_to_fd(vm, globals, *v, libc::POLLPRI)?);
+        let io = value_to_io(vm, globals, *v)?;
+        error_fds.push(io.as_io_inner().wait_fd_for(libc::POLLPRI)?);
     }
 
     // All sets empty, no timeout: with other live threads this parks
@@ -4310,7 +4323,7 @@ fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
         loop {
             let mut ready_read = vec![];
             for (i, &fd) in read_fds.iter().enumerate() {
-                if io_read_pending(read_ios[i]) || probe(fd, libc::POLLIN | libc::POLLPRI)? {
+                if io_read_pending(read_objs[i]) || probe(fd, libc::POLLIN | libc::POLLPRI)? {
                     ready_read.push(read_ios[i]);
                 }
             }
@@ -4354,7 +4367,7 @@ fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     // Buffered read data makes an IO immediately ready (see
     // `io_read_pending`): report those without entering select(2),
     // adding any other fds that are kernel-ready right now.
-    if read_ios.iter().any(|v| io_read_pending(*v)) {
+    if read_objs.iter().any(|v| io_read_pending(*v)) {
         let poll0 = |fd: i32, events: i16| -> bool {
             let mut pfd = libc::pollfd {
                 fd,
@@ -4367,7 +4380,7 @@ fn io_select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
         };
         let mut ready_read = vec![];
         for (i, &fd) in read_fds.iter().enumerate() {
-            if io_read_pending(read_ios[i]) || poll0(fd, libc::POLLIN | libc::POLLPRI) {
+            if io_read_pending(read_objs[i]) || poll0(fd, libc::POLLIN | libc::POLLPRI) {
                 ready_read.push(read_ios[i]);
             }
         }
-- 
2.43.0


From 6a1147bbad3db6af26b8845fdd92f376c9ac42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:27 +0000
Subject: [PATCH 62/62] fix: raise IOError when a stream is closed during
 IO.select

---
 monoruby/src/builtins/io.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monoruby/src/builtins/io.rs b/monoruby/src/builtins/io.rs
index a901ae7..ab8aaef 100644
--- a/monoruby/src/builtins/io.rs
+++ b/monoruby/src/builtins/io.rs
@@ -4259,15 +4259,18 @@ fn io_select_inner(vm: &mut Executor, globals: &mut Globals, lfp: Lfp) -> Result
         read_fds.push(io.as_io_inner().wait_fd_for(libc::POLLIN)?);
         read_objs.push(io);
     }
+    let mut other_objs: Vec<Value> = vec![];
     let mut write_fds: Vec<i32> = Vec::with_capacity(write_ios.len());
     for v in &write_ios {
         let io = value_to_io(vm, globals, *v)?;
         write_fds.push(io.as_io_inner().wait_fd_for(libc::POLLOUT)?);
+        other_objs.push(io);
     }
     let mut error_fds: Vec<i32> = Vec::with_capacity(error_ios.len());
     for v in &error_ios {
         let io = value_to_io(vm, globals, *v)?;
         error_fds.push(io.as_io_inner().wait_fd_for(libc::POLLPRI)?);
+        other_objs.push(io);
     }
 
     // All sets empty, no timeout: with other live threads this parks
@@ -4361,6 +4364,11 @@ fn io_select_inner(vm: &mut Executor, globals: &mut Globals, lfp: Lfp) -> Result
                 fds.push((fd, libc::POLLPRI));
             }
             crate::scheduler::wait_fds(vm, globals, &fds, deadline)?;
+            // The fd of a stream closed while this thread was parked is
+            // gone, or belongs to another stream by now.
+            if read_objs.iter().chain(&other_objs).any(|io| io.as_io_inner().is_closed()) {
+                return Err(MonorubyErr::ioerr("stream closed in another thread"));
+            }
         }
     }
 
-- 
2.43.0

