From 04aa577032f280fcfa149da3f1cfd2dc6ca46720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:32 +0000
Subject: [PATCH 01/30] fix: iterator keeps every line around over-long,
 escaped and blank ones

Dropping an over-long line used the unread part of the buffer, discarded the rest of a full
chunk and underflowed on a split escape; a failed read left padding in the buffer; an escaped
real newline was not counted; and long runs of blank or over-long lines overflowed the stack.
---
 iterator/src/iterator.rs | 167 ++++++++++++++++-----------------------
 1 file changed, 70 insertions(+), 97 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index cf9fe95..cc8d144 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -105,6 +105,8 @@ pub struct BytesLines<R: Read> {
     split_json: Option<JsonState>,
     prev_pos: usize,
     escaped: bool,
+    // The current line is over the limit, everything is discarded until its separator.
+    dropping: bool,
 }
 
 struct JsonState {
@@ -120,7 +122,6 @@ impl<R: Read> Iterator for BytesLines<R> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.state {
             State::EoF => None,
-            State::Scanning(_) if self.buf.is_empty() => self.read_slice(),
             State::Scanning(_) => self.get_slice(),
         }
     }
@@ -150,90 +151,99 @@ impl<R: Read> BytesLines<R> {
             line_count: 0,
             prev_pos: 0,
             escaped: false,
+            dropping: false,
             split_json,
         }
     }
 
-    // Read a new chunk and call get_slice
-    fn read_slice(&mut self) -> Option<Result<LogLine>> {
+    // Read a new chunk after the left-overs and return its size
+    fn read_slice(&mut self) -> Result<usize> {
         let pos = self.buf.len();
         // When pos is at 0, we are at Step A, otherwise this is Step G
         self.buf.resize(pos + self.chunk_size, 0);
-        match self.reader.read(&mut self.buf[pos..]) {
-            // We read some data.
-            Ok(n) if n > 0 => {
-                self.buf.truncate(pos + n);
-                self.get_slice()
-            }
-
-            // Step H: We reached the end of the reader, but we have left-overs.
-            Ok(_) if pos > 0 => {
-                self.update_line_counter(State::EoF);
-                Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)))
-            }
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
-
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
-        }
+        let res = self.reader.read(&mut self.buf[pos..]);
+        // Only keep what has been read.
+        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));
+        res
     }
 
     // Find the next line in the buffer
     fn get_slice(&mut self) -> Option<Result<LogLine>> {
-        match self.find_next_line() {
-            // Step J: The current line is over the limit, and we don't know where it ends.
-            None if self.buf.len() > self.max_line_length => {
-                self.prev_pos = 0;
-                self.buf.clear();
-                self.buf.reserve(self.chunk_size);
-                self.drop_until_next_line()
-            }
+        loop {
+            match self.find_next_line() {
+                // Step J: The current line is over the limit, and we don't know where it ends.
+                None if self.dropping || self.pending_line_length() > self.max_line_length => {
+                    self.dropping = true;
+                    self.prev_pos = 0;
+                    self.buf.clear();
+                    self.buf.reserve(self.chunk_size);
+                }
 
-            // Step I: The current line is over the limit, we need to discard it.
-            Some((pos, sep)) if pos > self.max_line_length => {
-                self.prev_pos = 0;
-                // The next line is already in the buffer, so we can just advance.
-                self.buf.advance(pos + sep.len());
-                self.get_slice()
-            }
+                // Step I: The current line is over the limit, we need to discard it.
+                Some((end, sep)) if self.dropping || end - sep.len() > self.max_line_length => {
+                    self.dropping = false;
+                    self.prev_pos = 0;
+                    // The next line is already in the buffer, so we can just advance.
+                    self.buf.advance(end);
+                    continue;
+                }
+
+                // Step E: We haven't found the end of the line, we need more data.
+                None => {
+                    // Step F: reserve() will attempt to reclaim space in the buffer.
+                    self.prev_pos = self.buf.len();
+                    self.buf.reserve(self.chunk_size);
+                }
 
-            // Step E: We haven't found the end of the line, we need more data.
-            None => {
-                // Step F: reserve() will attempt to reclaim space in the buffer.
-                self.prev_pos = self.buf.len();
-                self.buf.reserve(self.chunk_size);
-                self.read_slice()
+                // Step B: We found the end of the line, we can return it now.
+                Some((end, sep)) => {
+                    self.prev_pos = 0;
+                    // Step C: split_to() creates a new zero copy reference to the buffer.
+                    let res = self.buf.split_to(end - sep.len()).freeze();
+                    // Step D: advance the starting position
+                    self.buf.advance(sep.len());
+                    if res.is_empty() {
+                        continue;
+                    }
+                    return Some(Ok((res, self.line_count)));
+                }
             }
 
-            // Step B: We found the end of the line, we can return it now.
-            Some((pos, sep)) => {
-                self.prev_pos = 0;
-                // Step C: split_to() creates a new zero copy reference to the buffer.
-                let res = self.buf.split_to(pos).freeze();
-                // Step D: advance the starting position
-                self.buf.advance(sep.len());
-                if res.is_empty() {
-                    self.get_slice()
-                } else {
-                    Some(Ok((res, self.line_count)))
+            match self.read_slice() {
+                // We read some data.
+                Ok(n) if n > 0 => {}
+
+                // Step H: We reached the end of the reader, but we have left-overs.
+                Ok(_) if !self.buf.is_empty() && self.buf.len() <= self.max_line_length => {
+                    self.update_line_counter(State::EoF);
+                    return Some(Ok((self.buf.split().freeze(), self.line_count)));
                 }
+
+                // We reached the end of the reader, this is the end.
+                Ok(_) => return None,
+
+                // There was a reading error, we return it.
+                Err(e) => return Some(Err(e)),
             }
         }
     }
 
-    // Find the next line position and update the line count
+    // The size of the line being read, without an escape character that may start a separator.
+    fn pending_line_length(&self) -> usize {
+        self.buf.len() - usize::from(self.escaped && !self.buf.is_empty())
+    }
+
+    // Find the end of the next line separator and update the line count
     fn find_next_line(&mut self) -> Option<(usize, Sep)> {
         let slice = self.buf.as_ref();
         for (pos, c) in slice[self.prev_pos..].iter().enumerate() {
             let c = *c as char;
             let sep = if self.escaped {
                 self.escaped = false;
-                if c == 'n' {
-                    Some(Sep::SubLine)
-                } else {
-                    None
+                match c {
+                    'n' => Some(Sep::SubLine),
+                    '\n' => Some(Sep::NewLine),
+                    _ => None,
                 }
             } else if c == '\\' {
                 self.escaped = true;
@@ -249,11 +259,7 @@ impl<R: Read> BytesLines<R> {
             if let Some(sep) = sep {
                 // We found a separator.
                 self.update_line_counter(State::Scanning(sep));
-                let line_separator_pos = match sep {
-                    Sep::SubLine => self.prev_pos + pos - 1,
-                    _ => self.prev_pos + pos,
-                };
-                return Some((line_separator_pos, sep));
+                return Some((self.prev_pos + pos + 1, sep));
             }
         }
         None
@@ -266,39 +272,6 @@ impl<R: Read> BytesLines<R> {
         }
         self.state = state;
     }
-
-    // Drop until we find the next line
-    fn drop_until_next_line(&mut self) -> Option<Result<LogLine>> {
-        self.buf.resize(self.chunk_size, 0);
-        match self.reader.read(&mut self.buf) {
-            // We read some data.
-            Ok(n) if n > 0 => match self.find_next_line() {
-                // the long line terminated at the end of the buffer.
-                Some(_) if n == self.chunk_size => {
-                    self.buf.clear();
-                    self.read_slice()
-                }
-
-                // the next line is already in the buffer
-                Some((pos, sep)) => {
-                    self.buf.advance(pos + sep.len());
-                    self.get_slice()
-                }
-
-                // No line terminator found, keep on draining.
-                None => {
-                    self.buf.clear();
-                    self.drop_until_next_line()
-                }
-            },
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
-
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
-        }
-    }
 }
 
 // Check if the given char is a json k/v separator.
-- 
2.43.0


From b37e75aa6da62ce909d104e3c2da750b2623d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:42 +0000
Subject: [PATCH 02/30] fix: anomaly contexts do not depend on the chunk
 boundaries

The lines following the last anomaly of a chunk were also used as the context preceding the next
one, and they were not collected when the rest of the source only contained known lines.
---
 model/src/process.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index a36074e..3ce2aea 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -182,7 +182,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
         }
 
         // We reached the end of the file and the last chunk is not completed
-        if !self.targets.is_empty() {
+        if !self.buffer.is_empty() {
             self.do_search_anomalies();
         }
         if let Some(anomaly) = &self.current_anomaly {
@@ -273,6 +273,8 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
                 for ((bytes, _), _) in &self.buffer[last_context_pos..] {
                     let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                     anomaly.after.push(raw_str);
+                    // This line must not be used again in the next anomaly before context.
+                    last_context_pos += 1;
                     if anomaly.after.len() >= CTX_DISTANCE {
                         // The current anomaly is completed. TODO: try using std::mem::replace
                         self.anomalies.push_back(anomaly.clone());
-- 
2.43.0


From 4288709a8a5665940602a98619464fc28bb93038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:53 +0000
Subject: [PATCH 03/30] fix: the lines following our own task are never
 processed

The processor only stopped until the pending anomalies were consumed.
---
 model/src/process.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index 3ce2aea..c4e57a1 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -95,6 +95,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     skip_lines: &'a mut HashSet<String>,
     /// The current line coordinate.
     coord: usize,
+    /// The end of the useful lines has been reached.
+    completed: bool,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -135,14 +137,18 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             anomalies: VecDeque::new(),
             skip_lines,
             coord: 0,
+            completed: false,
             line_count: 0,
             byte_count: 0,
         }
     }
 
     fn read_anomalies(&mut self) -> Result<()> {
-        while let Some(line) = self.reader.next() {
-            let line = line?;
+        while !self.completed {
+            let line = match self.reader.next() {
+                Some(line) => line?,
+                None => break,
+            };
             let raw_str = std::str::from_utf8(&line.0[..])
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             self.line_count += 1;
@@ -151,6 +157,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
 
             // Special check to break when we are processing ourself
             if raw_str.contains("TASK [log-classify") {
+                self.completed = true;
                 break;
             }
 
-- 
2.43.0


From 3d3e8915ee3c6a398a2c36af6bab4c39812d20aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:23 +0000
Subject: [PATCH 04/30] fix: a read error does not discard the anomalies that
 precede it

---
 model/src/process.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index c4e57a1..c60bcee 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -97,6 +97,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     coord: usize,
     /// The end of the useful lines has been reached.
     completed: bool,
+    /// The error to return once the anomalies that precede it are consumed.
+    error: Option<anyhow::Error>,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -138,12 +140,32 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             skip_lines,
             coord: 0,
             completed: false,
+            error: None,
             line_count: 0,
             byte_count: 0,
         }
     }
 
     fn read_anomalies(&mut self) -> Result<()> {
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+        match self.read_chunk() {
+            Ok(()) => Ok(()),
+            Err(e) => {
+                // Do not loose the anomalies found in the lines already read.
+                self.flush_chunk();
+                if self.anomalies.is_empty() {
+                    Err(e)
+                } else {
+                    self.error = Some(e);
+                    Ok(())
+                }
+            }
+        }
+    }
+
+    fn read_chunk(&mut self) -> Result<()> {
         while !self.completed {
             let line = match self.reader.next() {
                 Some(line) => line?,
@@ -188,6 +210,11 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             }
         }
 
+        self.flush_chunk();
+        Ok(())
+    }
+
+    fn flush_chunk(&mut self) {
         // We reached the end of the file and the last chunk is not completed
         if !self.buffer.is_empty() {
             self.do_search_anomalies();
@@ -197,7 +224,6 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             self.anomalies.push_back(anomaly.clone());
             self.current_anomaly = None;
         }
-        Ok(())
     }
 
     /// Helper function for the anomalies_from_reader implementation.
-- 
2.43.0


From 67350234fb0d664ae3b014c36e6060341f93ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 05/30] fix: walking an index does not lose the urls found by
 the last workers

---
 httpdir/src/httpdir.rs | 59 ++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 5d4a447..fa4beda 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -30,7 +30,6 @@ use regex::Regex;
 use reqwest::blocking::Client;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
-use std::time::Duration;
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -117,10 +116,11 @@ impl Crawler {
     pub fn walk(self, url: Url) -> impl Iterator<Item = Result<Url>> {
         // Submit the initial task.
         self.start(url);
-        // Create the iterator state.
+        // Create the iterator state. The sender is dropped, so that the channel is disconnected once
+        // the last task is completed.
         CrawlerIter {
             workers: self.workers,
-            abort: false,
+            done: false,
             rx: self.rx,
         }
     }
@@ -180,49 +180,34 @@ impl Default for Crawler {
 // The state of the iterator.
 struct CrawlerIter {
     workers: ThreadPool,
-    abort: bool,
+    done: bool,
     rx: Receiver<Message>,
 }
 
-impl CrawlerIter {
-    // We are done when all the work is completed: no worker are active or queued.
-    fn is_done(&self) -> bool {
-        self.abort
-            || (self.workers.active_count() + self.workers.queued_count() == 0
-                // ensure that when there is a panic, we propagate the error.
-                && self.workers.panic_count() == 0)
-    }
-}
-
 impl Iterator for CrawlerIter {
     type Item = Result<Url>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.rx.try_recv() {
-            // A new url was found, we return it.
-            Ok(Some(r)) => Some(r),
-
-            // A worker finished it's job, we keep on iterating.
-            Ok(None) => self.next(),
-
-            // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if self.is_done() => None,
-
-            // There was a panic
-            Err(_) if self.workers.panic_count() > 0 => {
-                self.abort = true;
-                Some(Err(mk_error("Crawler panicked!")))
+        while !self.done {
+            match self.rx.recv() {
+                // A new url was found, we return it.
+                Ok(Some(r)) => return Some(r),
+
+                // A worker finished it's job, we keep on iterating.
+                Ok(None) => {}
+
+                // Every task was dropped, along with its sender: there won't be any new message.
+                Err(_) => {
+                    self.done = true;
+                    // ensure that when there is a panic, we propagate the error.
+                    self.workers.join();
+                    if self.workers.panic_count() > 0 {
+                        return Some(Err(mk_error("Crawler panicked!")));
+                    }
+                }
             }
-
-            // The workers are still active, we can block recv to wait for the next message.
-            Err(_) => match self.rx.recv_timeout(Duration::from_secs(1)) {
-                // A new url was found, we can return it.
-                Ok(Some(r)) => Some(r),
-
-                // A worker completed it's task, we keep on iterating.
-                _ => self.next(),
-            },
         }
+        None
     }
 }
 
-- 
2.43.0


From 1b86f56b1f1f2b067f436099491aff77fccaec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 06/30] fix: a failed listing does not leak in the next one

---
 httpdir/src/httpdir.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index fa4beda..9506ad2 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -108,7 +108,9 @@ impl Crawler {
         if self.workers.panic_count() > 0 {
             Err(mk_error("Crawler panicked!"))
         } else {
-            self.rx.try_iter().flatten().collect()
+            // Empty the channel even when there is an error, so that the crawler can be used again.
+            let results: Vec<Result<Url>> = self.rx.try_iter().flatten().collect();
+            results.into_iter().collect()
         }
     }
 
-- 
2.43.0


From ae1372d9a0c011c2b03d608142a99343ba47eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 07/30] fix: files with a single character name are listed

---
 httpdir/src/httpdir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 9506ad2..6458a47 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -244,7 +244,7 @@ pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
 fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
     // TODO check for title and support different types of indexes
     lazy_static! {
-        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9][^"]+)">"#).unwrap();
+        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9][^"]*)">"#).unwrap();
     }
 
     RE.captures_iter(page)
-- 
2.43.0


From 53721304e3f01ccbdf8c06719cad8ab673b1d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 08/30] fix: the error page of a directory is not its index

---
 httpdir/src/httpdir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 6458a47..487c496 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -229,7 +229,7 @@ fn path_dir(url: &Url) -> Option<Url> {
 /// List the files and directories of a single url.
 pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
     // dbg!(&url);
-    match client.get(url).send() {
+    match client.get(url).send().and_then(|r| r.error_for_status()) {
         Ok(resp) => {
             let url = resp.url().clone();
             match resp.text() {
-- 
2.43.0


From f8c9316808c38c92ec36abd47361d02e4e3dda3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 09/30] fix: the crawler stays in the directory it is given

---
 httpdir/src/httpdir.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 487c496..a0d1f0c 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -247,6 +247,11 @@ fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
         static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9][^"]*)">"#).unwrap();
     }
 
+    // The links are relative to the directory of the page.
+    let dir_url = base_url
+        .join("./")
+        .map_err(|e| mk_error(&format!("Invalid base {}", e)))?;
+
     RE.captures_iter(page)
         .map(|c| c.get(1).unwrap().as_str())
         // .map(|link| dbg!(link))
@@ -255,6 +260,11 @@ fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
                 .join(link)
                 .map_err(|e| mk_error(&format!("Invalid link {}", e)))
         })
+        // Stay in the directory: ignore the links to the parent, other locations and other hosts.
+        .filter(|link| match link {
+            Ok(link) => link.as_str().starts_with(dir_url.as_str()),
+            Err(_) => true,
+        })
         .collect()
 }
 
-- 
2.43.0


From 1563ad297e0dc62f024422810d8dd3609d9c3334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:01 +0000
Subject: [PATCH 10/30] fix: rotated and compressed logs are grouped with the
 current one

---
 model/src/files.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/src/files.rs b/model/src/files.rs
index ae4a1e6..4dbfe76 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -159,6 +159,7 @@ impl IndexName {
         } else {
             // removes number and symbols
             shortfilename
+                .trim_end_matches(".gz")
                 .replace(
                     |c: char| !c.is_ascii_alphabetic() && !matches!(c, '/' | '.' | '_' | '-'),
                     "",
-- 
2.43.0


From aa207a872c96654344ff26977aab0b82ce766bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:56 +0000
Subject: [PATCH 11/30] fix: a file name that is not utf-8 does not crash the
 analysis

---
 model/src/model.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 5dc13c3..282ca78 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -97,8 +97,11 @@ impl Source {
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-            Source::Local(base_len, path) => &path.to_str().unwrap_or("")[*base_len..],
-            Source::Remote(base_len, url) => &url.as_str()[*base_len..],
+            Source::Local(base_len, path) => path
+                .to_str()
+                .and_then(|s| s.get(*base_len..))
+                .unwrap_or(""),
+            Source::Remote(base_len, url) => url.as_str().get(*base_len..).unwrap_or(""),
         }
     }
 
-- 
2.43.0


From 6ae4c01714ca425299a41ebe47c7c92e9cfd193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:56 +0000
Subject: [PATCH 12/30] fix: local compressed files are decompressed

---
 model/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 07ec6df..35e98b0 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -52,7 +52,7 @@ use DecompressReader::*;
 pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
-    Ok(if extension == ".gz" {
+    Ok(if extension == "gz" {
         Gz(GzDecoder::new(fp))
     } else {
         Flat(fp)
-- 
2.43.0


From 7544d7dda36d27301f0be76aa48fec7e13e64d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:56 +0000
Subject: [PATCH 13/30] fix: a source that can't be opened does not hide the
 other ones

---
 model/src/model.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 282ca78..a8460b3 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -508,10 +508,7 @@ impl Model {
                                     });
                                 }
                             }
-                            Err(err) => {
-                                read_errors.push((source.clone(), format!("{}", err)));
-                                break;
-                            }
+                            Err(err) => read_errors.push((source.clone(), format!("{}", err))),
                         }
                     }
                 }
-- 
2.43.0


From 07278ff5b963938de9616a0d2708b43221ff1283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:11 +0000
Subject: [PATCH 14/30] fix: report the write errors when saving a model or a
 report

---
 model/src/model.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index a8460b3..0a47a4f 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -240,14 +240,14 @@ pub struct Report {
 
 impl Report {
     pub fn save(&self, path: &Path) -> Result<()> {
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create report file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save report")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create report file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save report")?;
+        // Most of the data may only be written now, do not rely on drop because it ignores the errors.
+        encoder.finish().context("Can't write report")?;
+        Ok(())
     }
 
     pub fn load(path: &Path) -> Result<Report> {
@@ -445,14 +445,13 @@ impl Model {
 
     pub fn save(&self, path: &Path) -> Result<()> {
         tracing::info!(path = path.to_str(), "Saving model");
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save model")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save model")?;
+        encoder.finish().context("Can't write model")?;
+        Ok(())
     }
 
     /// Get the matching index for a given Source.
-- 
2.43.0


From a8245f8e713761caa1d89a48ebc126f016fe0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:11 +0000
Subject: [PATCH 15/30] fix: opening the file of a short directory url does not
 crash

---
 model/src/urls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/urls.rs b/model/src/urls.rs
index c8558fa..b0c005f 100644
--- a/model/src/urls.rs
+++ b/model/src/urls.rs
@@ -32,7 +32,7 @@ impl Source {
         if prefix == 0 {
             crate::reader::from_url(url, url)
         } else {
-            crate::reader::from_url(&Url::parse(&url.as_str()[..42])?, url)
+            crate::reader::from_url(&Url::parse(&url.as_str()[..prefix])?, url)
         }
     }
 
-- 
2.43.0


From 973b2fe94f787387eed522fc462ccb15395bab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:11 +0000
Subject: [PATCH 16/30] fix: an http error page is not the content of a source

---
 model/src/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 35e98b0..50c7177 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -29,7 +29,11 @@ mod remote {
     use super::*;
 
     pub fn get_url(url: &Url) -> Result<Response> {
-        CLIENT.get(url.clone()).send().context("Can't get url")
+        CLIENT
+            .get(url.clone())
+            .send()
+            .and_then(|resp| resp.error_for_status())
+            .context("Can't get url")
     }
 
     pub fn head(url: &Url) -> Result<bool> {
-- 
2.43.0


From 1e2cbf178a39216fde3763c5b0bd5d4c35e0f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:20 +0000
Subject: [PATCH 17/30] fix: an incomplete download is never served by the
 cache

---
 cache/src/cache.rs | 77 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 17 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 29cacf2..bc0bb87 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -8,6 +8,7 @@ use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 use std::fs::File;
 use std::io::{Read, Write};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use url::Url;
 
 // Low level functions to create unique file names
@@ -69,7 +70,9 @@ impl Cache {
         } else {
             filename::head_failure(base, path)
         };
-        self.create(&fp).map(|_| result)
+        let (_, pending) = self.create(&fp)?;
+        pending.commit()?;
+        Ok(result)
     }
 
     /// Get a cached file reader.
@@ -82,10 +85,10 @@ impl Cache {
 
     /// Add a file reader to the cache.
     pub fn remote_add<R: Read>(&self, base: &Url, path: &Url, obj: R) -> Result<CacheReader<R>> {
-        let fp = self.create(&filename::http(base, path))?;
+        let (fp, pending) = self.create(&filename::http(base, path))?;
         Ok(CacheReader {
             remote: obj,
-            local: GzEncoder::new(fp, flate2::Compression::fast()),
+            local: Some((GzEncoder::new(fp, flate2::Compression::fast()), pending)),
         })
     }
 
@@ -99,8 +102,9 @@ impl Cache {
 
     /// Add a httpdir to the cache.
     pub fn httpdir_add(&self, url: &Url, paths: &[Url]) -> Result<()> {
-        let fp = self.create(&filename::httpdir(url))?;
-        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")
+        let (fp, pending) = self.create(&filename::httpdir(url))?;
+        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")?;
+        pending.commit().context("Failed to save httpdir")
     }
 
     /// Remove a remote file from the cache.
@@ -123,8 +127,8 @@ impl Cache {
         }
     }
 
-    // creates a new cache entry.
-    fn create(&self, path: &str) -> Result<File> {
+    // creates a new cache entry, which needs to be commited when it is complete.
+    fn create(&self, path: &str) -> Result<(File, PendingFile)> {
         let buf = self.xdg.get_cache_file(path);
         let path = buf.as_path();
         if path.exists() {
@@ -132,29 +136,68 @@ impl Cache {
         } else {
             let parent = path.parent().context("Failed to get cache parent")?;
             std::fs::create_dir_all(parent).context("Failed to create parent dir")?;
-            File::create(buf).context("Failed to create local cache file")
+            let pending = PendingFile::new(buf);
+            let fp = File::create(&pending.tmp).context("Failed to create local cache file")?;
+            Ok((fp, pending))
         }
     }
 }
 
+/// A cache entry being written: it only becomes visible when it is commited.
+struct PendingFile {
+    tmp: std::path::PathBuf,
+    path: std::path::PathBuf,
+}
+
+impl PendingFile {
+    fn new(path: std::path::PathBuf) -> PendingFile {
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+        let mut tmp = path.clone().into_os_string();
+        let uniq = COUNTER.fetch_add(1, Ordering::Relaxed);
+        tmp.push(format!(".{}-{}", std::process::id(), uniq));
+        PendingFile {
+            tmp: tmp.into(),
+            path,
+        }
+    }
+
+    fn commit(self) -> std::io::Result<()> {
+        std::fs::rename(&self.tmp, &self.path)
+    }
+}
+
+impl Drop for PendingFile {
+    fn drop(&mut self) {
+        // This is a no-op when the entry was commited.
+        let _ = std::fs::remove_file(&self.tmp);
+    }
+}
+
 /// A Reader object that saves remote data to a local compressed file.
 pub struct CacheReader<R: Read> {
     remote: R,
-    local: GzEncoder<File>,
+    // The compressed file, until the remote data is complete.
+    local: Option<(GzEncoder<File>, PendingFile)>,
 }
 
 impl<R: Read> Read for CacheReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        // Take the local file, so that an incomplete one is discarded when there is an error.
+        let local = self.local.take();
         // Read remote data.
-        let remote_read = self.remote.read(buf);
-        match remote_read {
-            // Write to the local file
-            Ok(remote_size) => self
-                .local
-                .write_all(&buf[..remote_size])
-                .map(|()| remote_size),
-            Err(e) => Err(e),
+        let remote_size = self.remote.read(buf)?;
+        if let Some((mut fp, pending)) = local {
+            if remote_size == 0 && !buf.is_empty() {
+                // The remote data is complete.
+                fp.finish()?;
+                pending.commit()?;
+            } else {
+                // Write to the local file
+                fp.write_all(&buf[..remote_size])?;
+                self.local = Some((fp, pending));
+            }
         }
+        Ok(remote_size)
     }
 }
 
-- 
2.43.0


From 1b57b398181155e212e298c36ecc5e7dc8ced000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:40 +0000
Subject: [PATCH 18/30] fix: a path that starts with http is not a url

---
 model/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 0a47a4f..85b3a47 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -44,7 +44,7 @@ pub enum Input {
 
 impl Input {
     pub fn from_string(s: String) -> Input {
-        match s.starts_with("http") {
+        match s.starts_with("http://") || s.starts_with("https://") {
             true => Input::Url(s),
             false => Input::Path(s),
         }
-- 
2.43.0


From 419372cf882ad7eaaf2d3a83a44941be9cc6bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:58 +0000
Subject: [PATCH 19/30] fix: an invalid url is reported

---
 model/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 85b3a47..5d239f6 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -331,7 +331,7 @@ impl Content {
         match input {
             Input::Path(path_str) => Content::from_path(Path::new(&path_str)),
             Input::Url(url_str) => {
-                Content::from_url(Url::parse(&url_str).expect("Failed to parse url"))
+                Content::from_url(Url::parse(&url_str).context("Failed to parse url")?)
             }
         }
     }
-- 
2.43.0


From 17fcb47ba62ead2721b177ac261898c16d659750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:58 +0000
Subject: [PATCH 20/30] fix: the web root of zuul may contain a /t/ directory

---
 model/src/zuul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 5db1d76..9940697 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -172,7 +172,7 @@ fn is_uid(s: &str) -> bool {
 
 fn api_from_webui(url: &Url, tenant: &str) -> Result<Url> {
     url.as_str()
-        .split_once("/t/")
+        .rsplit_once(&format!("/t/{}/build/", tenant))
         .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
         .and_then(|(base, _)| {
             Url::parse(&format!("{}/api/tenant/{}/", base, tenant))
-- 
2.43.0


From b5dd6d858ee1f2f887c30869314d8f5b498ac94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:58 +0000
Subject: [PATCH 21/30] fix: a build without logs, ref or change does not crash
 the analysis

---
 model/src/zuul.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 9940697..0f3075b 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -59,9 +59,11 @@ impl Build {
 
     fn baseline_score(&self, target: &zuul_build::Build, now: &NaiveDate) -> Option<i32> {
         let mut score = 0;
+        // Check the build has a change
+        let change = target.change?;
         // Rules
         if self.project == target.project {
-            if self.change == target.change? {
+            if self.change == change {
                 // We don't want to compare with the same change
                 score -= 500;
             } else {
@@ -107,7 +109,7 @@ impl Build {
         let samples = self.get_success_samples()?;
         let max_builds = 1;
         let now = Utc::now().date_naive();
-        Ok(samples
+        samples
             .into_iter()
             // Compute a score value
             .map(|build| (self.baseline_score(&build, &now), build))
@@ -122,7 +124,7 @@ impl Build {
             .take(max_builds)
             // Create the content data type
             .map(|(_score, build)| new_content(self.api.clone(), build))
-            .collect())
+            .collect()
     }
 
     pub fn sources_iter(&self) -> Box<dyn Iterator<Item = Result<Source>>> {
@@ -130,8 +132,8 @@ impl Build {
     }
 }
 
-fn new_content(api: Url, build: zuul_build::Build) -> Content {
-    Content::Zuul(Box::new(Build {
+fn new_content(api: Url, build: zuul_build::Build) -> Result<Content> {
+    Ok(Content::Zuul(Box::new(Build {
         api,
         uuid: build.uuid,
         job_name: build.job_name,
@@ -139,11 +141,11 @@ fn new_content(api: Url, build: zuul_build::Build) -> Content {
         branch: build.branch,
         result: build.result,
         pipeline: build.pipeline,
-        log_url: build.log_url.expect("Invalid build"),
-        ref_url: build.ref_url.expect("Invalid build"),
+        log_url: build.log_url.context("The build has no log url")?,
+        ref_url: build.ref_url.context("The build has no ref url")?,
         end_time: build.end_time,
-        change: build.change.expect("Invalid build"),
-    }))
+        change: build.change.context("The build has no change")?,
+    })))
 }
 
 fn get_build(api: &Url, uid: &str) -> Result<zuul_build::Build> {
@@ -216,7 +218,7 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
 impl Content {
     pub fn from_zuul_url(url: &Url) -> Option<Result<Content>> {
         get_zuul_api_url(url).map(|res| {
-            res.and_then(|(api, uid)| get_build(&api, uid).map(|build| new_content(api, build)))
+            res.and_then(|(api, uid)| get_build(&api, uid).and_then(|build| new_content(api, build)))
         })
     }
 }
-- 
2.43.0


From e4919ee33e91e2dd0617965e69d0af6a74208250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:21 +0000
Subject: [PATCH 22/30] fix: the text of the logs is escaped in the html report

---
 report/src/report.rs | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index e9aa306..bc11300 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -34,6 +34,25 @@ impl Html {
     }
 }
 
+/// Escape the text that comes from the logs, so that it is shown as is.
+fn escape(text: &str) -> Cow<'_, str> {
+    if !text.contains(['&', '<', '>', '"', '\'']) {
+        return Cow::Borrowed(text);
+    }
+    let mut escaped = String::with_capacity(text.len() + 16);
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            '\'' => escaped.push_str("&#39;"),
+            _ => escaped.push(c),
+        }
+    }
+    Cow::Owned(escaped)
+}
+
 fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Result<()> {
     let mut div = parent
         .div()
@@ -54,7 +73,7 @@ fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Resul
     for row in rows.iter() {
         let mut tr = tbody.tr();
         for cell in row.iter() {
-            tr.td().write_str(cell)?;
+            tr.td().write_str(&escape(cell))?;
         }
     }
     Ok(())
@@ -69,7 +88,7 @@ fn add_head(parent: &mut Node, title: &str) -> Result<()> {
             .attr("crossorigin=\"anonymous\"");
     }
     let mut head = parent.head();
-    head.title().write_str(title)?;
+    head.title().write_str(&escape(title))?;
     head.meta().attr("charset='utf-8'");
     for (href, integrity) in STYLES {
         add_link(&mut head, href, integrity);
@@ -258,7 +277,7 @@ fn render_content_report(
                     let mut desc = pf_body.div().attr("class=\"list-view-pf-description\"");
                     desc.div()
                         .attr("class=\"list-group-item-heading\"")
-                        .write_str(log_report.source.get_relative())?;
+                        .write_str(&escape(log_report.source.get_relative()))?;
                 }
 
                 {
@@ -273,9 +292,9 @@ fn render_content_report(
                         .a()
                         .attr(&format!(
                             "href=\"{}\"",
-                            model_anchor(&log_report.index_name)
+                            escape(&model_anchor(&log_report.index_name))
                         ))
-                        .write_str(&format!("{}", log_report.index_name))?;
+                        .write_str(&escape(&format!("{}", log_report.index_name)))?;
                     additional_item.write_str(" model")?;
                 }
 
@@ -286,7 +305,7 @@ fn render_content_report(
                     additional_item.span().attr("class=\"fa fa-external-link\"");
                     additional_item
                         .a()
-                        .attr(&format!("href=\"{}\"", log_report.source.as_str()))
+                        .attr(&format!("href=\"{}\"", escape(log_report.source.as_str())))
                         .write_str("file")?;
                 }
 
@@ -319,8 +338,8 @@ fn render_content_report(
             for source in index_report.sources.iter().take(3) {
                 ul.li()
                     .a()
-                    .attr(&format!("href=\"{}\"", source.as_str()))
-                    .write_str(source.as_str())?
+                    .attr(&format!("href=\"{}\"", escape(source.as_str())))
+                    .write_str(&escape(source.as_str()))?
             }
         }
 
@@ -338,7 +357,7 @@ fn render_context(loglines: &mut Node, pos: usize, xs: &[String]) -> Result<()>
     for (idx, line) in xs.iter().enumerate() {
         loglines
             .pre()
-            .write_str(&format!("   {:4} | {}", pos + 1 + idx, line))?;
+            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
     }
     Ok(())
 }
@@ -363,7 +382,9 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
             .attr(&format!("style=\"color: #{:2X}0000\"", color))
             .write_str(&format!(
                 "{:02} {:4} | {}",
-                dist, anomaly.anomaly.pos, anomaly.anomaly.line
+                dist,
+                anomaly.anomaly.pos,
+                escape(&anomaly.anomaly.line)
             ))?;
 
         render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;
-- 
2.43.0


From d74299a04a2799022f03ece99c8beed293309a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:21 +0000
Subject: [PATCH 23/30] fix: the context of a line made of several parts does
 not crash the html report

---
 report/src/report.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index bc11300..2dd91c3 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -366,7 +366,7 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
     let mut last_pos = None;
 
     for anomaly in anomalies {
-        let starting_pos = anomaly.anomaly.pos - 1 - anomaly.before.len();
+        let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len());
         if let Some(last_pos) = last_pos {
             if last_pos != starting_pos {
                 loglines.hr().attr("class=\"ls\"");
-- 
2.43.0


From a40a6c997da3481fbe3810cbd61e4523bb9fc881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 24/30] fix: the context lines are printed with their own
 number

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index cfeba4d..daf2968 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -279,7 +279,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
     let print_context = |pos: usize, xs: &[String]| {
         xs.iter()
             .enumerate()
-            .for_each(|(idx, line)| println!("   {} | {}", pos + idx, line))
+            .for_each(|(idx, line)| println!("   {} | {}", pos + 1 + idx, line))
     };
 
     let mut progress_sep_shown = false;
-- 
2.43.0


From 5d7fdcf09826903fce0422d851239a4e2cd7af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 25/30] fix: a source that can't be opened does not stop the
 command

---
 cli/src/main.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index daf2968..1dcde73 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -340,7 +340,6 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
                     }
                     Err(err) => {
                         println!("Could not read {}: {}", &source, err);
-                        break;
                     }
                 }
             }
-- 
2.43.0


From ea1dd5d016a1404562a15557e0d909fd7e49387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 26/30] fix: rotated and compressed json files are read like
 the current one

---
 model/src/model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 5d239f6..21b4614 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -93,7 +93,8 @@ impl Source {
         Source::Local(0, p)
     }
     pub fn is_json(&'_ self) -> bool {
-        self.get_relative().ends_with(".json")
+        // Use the index name, so that the sources which are compared together are read the same way.
+        IndexName::from_source(self).as_str().ends_with(".json")
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-- 
2.43.0


From d985dcc82666adcc5a27e59cad30895eb89c4959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:34 +0000
Subject: [PATCH 27/30] fix: an assignment is not an encoded blob

The padding of a base64 value is only at its end: a word such as
MemoryAvailableBytes=1234 was taken for a blob depending on the
length of its value.
---
 tokenizer/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer/src/tokenizer.rs b/tokenizer/src/tokenizer.rs
index ad1995f..b9bff89 100644
--- a/tokenizer/src/tokenizer.rs
+++ b/tokenizer/src/tokenizer.rs
@@ -215,7 +215,7 @@ fn is_url(word: &str) -> bool {
 
 fn is_base64(word: &str) -> bool {
     lazy_static! {
-        static ref RE: Regex = Regex::new(concat!("^", "[A-Za-z0-9+/=]+", "$")).unwrap();
+        static ref RE: Regex = Regex::new(concat!("^", "[A-Za-z0-9+/]+=*", "$")).unwrap();
     }
     word.ends_with("==") || (word.len() > 24 && RE.is_match(word))
 }
-- 
2.43.0


From a41e9ddc2b4f73bfe8d1ef88b3e423f0d0387cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:26 +0000
Subject: [PATCH 28/30] fix: list every file of a web directory once

A page may link the same file or directory several times (e.g. from its icon
and from its name, or with and without index.html), and two pages may link the
same file: the file was then listed several times and the directory crawled
several times.
---
 httpdir/src/httpdir.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index a0d1f0c..b89c915 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -28,8 +28,10 @@
 use lazy_static::lazy_static;
 use regex::Regex;
 use reqwest::blocking::Client;
+use std::collections::HashSet;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
+use std::sync::{Arc, Mutex};
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -41,19 +43,29 @@ pub fn list(url: Url) -> Result<Vec<Url>> {
 /// Helper struct to prevent infinit loop.
 struct Visitor {
     // todo: add unique host check
-    // todo: add url hashset to check for unique url
     min_len: usize,
+    // The url already seen by any worker.
+    seen: Arc<Mutex<HashSet<Url>>>,
 }
 
 impl Visitor {
     fn new() -> Visitor {
-        Visitor { min_len: 0 }
+        Visitor {
+            min_len: 0,
+            seen: Arc::default(),
+        }
+    }
+
+    /// Returns true the first time the url is encountered.
+    fn is_new(&self, url: &Url) -> bool {
+        self.seen.lock().unwrap().insert(url.clone())
     }
 
     fn visit(&self, url: &Url) -> Option<Visitor> {
         let min_len = url.path().len();
-        if min_len > self.min_len {
-            Some(Visitor { min_len })
+        if min_len > self.min_len && self.is_new(url) {
+            let seen = self.seen.clone();
+            Some(Visitor { min_len, seen })
         } else {
             None
         }
@@ -157,7 +169,7 @@ impl Crawler {
                         } else if let Some(url) = path_dir(&url) {
                             // Recursively call the handler on sub directory.
                             Crawler::process(&visitor, &client, &sub_pool, &tx, url)
-                        } else {
+                        } else if visitor.is_new(&url) {
                             // Send file location to the mpsc channel.
                             tx.send(Some(Ok(url))).unwrap()
                         }
-- 
2.43.0


From 0ae93275e9f179b4c33672ce43e3e83cb17e40fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:58 +0000
Subject: [PATCH 29/30] fix: do not crawl the /etc/ directory when it is linked
 through its index.html

---
 httpdir/src/httpdir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index b89c915..c32af12 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -163,6 +163,8 @@ impl Crawler {
                 // We decoded some urls.
                 Ok(urls) => {
                     for url in urls {
+                        // A directory may be linked through its index page.
+                        let url = path_dir(&url).unwrap_or(url);
                         if url.path().ends_with("/etc/") {
                             // Special case to avoid system config directory
                             continue;
-- 
2.43.0


From 0f0dc0ddcf09a5af5903805056494424a6bdf254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:44 +0000
Subject: [PATCH 30/30] fix: read every member of a compressed log

A gzip file made of several members, like concatenated logs, was silently cut
after the first one.
---
 model/src/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 50c7177..9c02087 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -10,7 +10,7 @@ use url::Url;
 
 use std::fs::File;
 
-use flate2::read::GzDecoder;
+use flate2::read::{GzDecoder, MultiGzDecoder};
 
 // TODO: use a struct to pass these references.
 lazy_static::lazy_static! {
@@ -46,6 +46,8 @@ mod remote {
 #[allow(clippy::large_enum_variant)]
 pub enum DecompressReader {
     Flat(File),
+    // Local files may be made of multiple gzip members.
+    MultiGz(MultiGzDecoder<File>),
     Gz(GzDecoder<File>),
     // TODO: support BZIP2 compression
     Remote(Response),
@@ -57,7 +59,7 @@ pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
     Ok(if extension == "gz" {
-        Gz(GzDecoder::new(fp))
+        MultiGz(MultiGzDecoder::new(fp))
     } else {
         Flat(fp)
     })
@@ -112,6 +114,7 @@ impl Read for DecompressReader {
         // TODO: refactor using the enum_dispatch crate.
         match self {
             Flat(r) => r.read(buf),
+            MultiGz(r) => r.read(buf),
             Gz(r) => r.read(buf),
             Remote(r) => r.read(buf),
             Cached(r) => r.read(buf),
-- 
2.43.0

