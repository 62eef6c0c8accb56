From 19a5a8dd7e8b2715e6f8ea64f0024b5e31e3d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 01/30] fix: let only reached nodes match in a tree router with
 hyperlinks

With find_hyperlinks on, the variable and sequence search branches of the
last node were recorded as matches of their own, including ones continuing
a sequence, whose node was never reached.
---
 src/handler/tree_router.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 6855d5d..748d038 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -178,9 +178,10 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                     }
                 }
 
-                matches.push((&current.item, environment.route_state.clone()));
-
+                //each node is on the stack once per branch, but it's only one match
                 if branch == Static {
+                    matches.push((&current.item, environment.route_state.clone()));
+
                     let base_link = Link {
                         method: None,
                         path: vec![],
-- 
2.43.0


From 4643d7c15563aca098cba98181ed3ee9c755a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 02/30] fix: try the other matching nodes when a tree router
 node rejects

Without hyperlinks, the first node at the end of the path decided the
outcome, even if it rejected the request. The other matches are now tried,
as they are with hyperlinks, each starting with the initial status.
---
 src/handler/tree_router.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 748d038..c4c6b86 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -159,23 +159,33 @@ impl<T: FromHandler<H> + ApplyContext, D: AsRef<[u8]>, H> FromIterator<(Method,
 
 impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
+        let initial_status = environment.response.status();
         let now = environment.route_state.snapshot();
         let mut stack = vec![(self, Wildcard, now), (self, Variable, now), (self, Static, now)];
 
         let mut hyperlinks = vec![];
         let mut matches = vec![];
+        let mut found = false;
 
         while let Some((current, branch, snapshot)) = stack.pop() {
             environment.route_state.go_to(snapshot);
             if environment.route_state.is_empty() {
                 if !self.find_hyperlinks {
-                    let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
-                    if let Err(returned_environment) = current.item.handle_request(new_environment) {
-                        environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
-                        return Err(environment);
-                    } else {
-                        return Ok(());
+                    //each node is on the stack once per branch, but should only be tried once
+                    if branch == Static {
+                        found = true;
+                        environment.response.set_status(initial_status);
+                        let route_state = environment.route_state.clone();
+                        let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
+                        if let Err(returned_environment) = current.item.handle_request(new_environment) {
+                            environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
+                            environment.route_state = route_state;
+                        } else {
+                            return Ok(());
+                        }
                     }
+
+                    continue;
                 }
 
                 //each node is on the stack once per branch, but it's only one match
@@ -265,7 +275,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             }
         }
 
-        if matches.is_empty() {
+        if !found && matches.is_empty() {
             environment.response.set_status(StatusCode::NotFound);
         } else if self.find_hyperlinks {
             hyperlinks.sort();
@@ -274,6 +284,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
             for (handler, snapshot) in matches {
                 new_environment.route_state = snapshot;
+                new_environment.response.set_status(initial_status);
                 if let Err(returned_environment) = handler.handle_request(new_environment) {
                     new_environment = returned_environment;
                 } else {
-- 
2.43.0


From 34b95b1e6b2947a0f1bc0b14842a88e4f9c638a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 03/30] fix: hand a rejected request back as it was received

A tree router left the route state wherever its search ended and Variables
left its variables in the context, so a fallback behind them continued from
a consumed path and saw variables of the route that rejected the request.
---
 src/handler/tree_router.rs | 3 ++-
 src/handler/variables.rs   | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index c4c6b86..978d2db 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -160,6 +160,7 @@ impl<T: FromHandler<H> + ApplyContext, D: AsRef<[u8]>, H> FromIterator<(Method,
 impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
         let initial_status = environment.response.status();
+        let initial_state = environment.route_state.clone();
         let now = environment.route_state.snapshot();
         let mut stack = vec![(self, Wildcard, now), (self, Variable, now), (self, Static, now)];
 
@@ -295,7 +296,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             environment = new_environment.replace_hyperlinks(old_hyperlinks).0;
         }
 
-
+        environment.route_state = initial_state;
         Err(environment)
     }
 
diff --git a/src/handler/variables.rs b/src/handler/variables.rs
index 690acdc..9ce4383 100644
--- a/src/handler/variables.rs
+++ b/src/handler/variables.rs
@@ -61,8 +61,12 @@ impl<'a, H: Build<'a>> Build<'a> for Variables<H> {
 
 impl<H: HandleRequest> HandleRequest for Variables<H> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
-        environment.context.variables = environment.route_state.variables(&self.variables).into();
-        self.handler.handle_request(environment)
+        let variables = environment.route_state.variables(&self.variables).into();
+        let old_variables = ::std::mem::replace(&mut environment.context.variables, variables);
+        self.handler.handle_request(environment).map_err(|mut environment| {
+            environment.context.variables = old_variables;
+            environment
+        })
     }
 
     fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
-- 
2.43.0


From cbd61f16d1e93745a0eb71783a29492b3d50a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 04/30] fix: accept empty segments when building a tree router

Routes like 'a//b' made path, on_path and on_route panic.
---
 src/handler/tree_router.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 978d2db..266fcbd 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -464,7 +464,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -513,7 +513,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -607,7 +607,7 @@ impl<'a, T> Builder<'a, T> {
             panic!("expected at most a single label, but got a longer path");
         }
 
-        if label[0] == b':' || label[0] == b'*' {
+        if label.starts_with(b":") || label.starts_with(b"*") {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-- 
2.43.0


From f8fcba40504acbe7a1f58442be6cc04960cb9800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 05/30] fix: don't discard the handler given to on_route

It was silently dropped if the node already existed, or if the label was
the root path, unlike with on_path and handler.
---
 src/handler/tree_router.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 266fcbd..e434ad3 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -596,11 +596,7 @@ impl<'a, T> Builder<'a, T> {
         let label = if let Some(label) = label_iter.next() {
             label
         } else {
-            return Builder {
-                node: self.node,
-                variables: self.variables.clone(),
-                context: self.context.clone()
-            };
+            return self.handler(handler);
         };
 
         if label_iter.next().is_some() {
@@ -611,11 +607,16 @@ impl<'a, T> Builder<'a, T> {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-        let node = self.node.find_or_insert_router(label, || {
-            let mut new_context = context.clone().into_owned();
-            new_context.insert(VariableNames(variables.clone().into_owned()));
-            T::from_handler(new_context, handler)
-        });
+        let mut new_context = context.clone().into_owned();
+        new_context.insert(VariableNames(variables.clone().into_owned()));
+        let mut handler = Some(T::from_handler(new_context, handler));
+
+        let node = self.node.find_or_insert_router(label, || handler.take().unwrap());
+
+        //the node did already exist, so it has to be given the handler
+        if let Some(handler) = handler {
+            node.item = handler;
+        }
 
         Builder {
             node: node,
-- 
2.43.0


From d38a3043a483afc5ca0e6f8dff915496a2999d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 06/30] fix: don't panic when a response filter silently drops
 a chunk

---
 src/response.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 4656a17..f98f263 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -939,8 +939,7 @@ impl<'a, 'b> Chunked<'a, 'b> {
             Some(Err(e)) => Err(Error::Io(e)),
             None => match filter_result {
                 Action::Abort(e) => Err(Error::Filter(e)),
-                Action::Next(None) => Ok(0),
-                _ => unreachable!()
+                _ => Ok(0)
             }
         }
     }
-- 
2.43.0


From 6d644ad869cc144badf5fea78629c00c2569bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 07/30] fix: report an error when ending a chunked response
 that has failed

It panicked with 'can only finish once' after a failed send had been reported.
---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index f98f263..694bee0 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -953,7 +953,10 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = try!(self.writer.take().expect("can only finish once"));
+        let mut writer = match self.writer.take() {
+            Some(writer) => try!(writer),
+            None => return Err(Error::Io(io::Error::new(io::ErrorKind::BrokenPipe, "end after close")))
+        };
         let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
 
         for action in write_queue {
-- 
2.43.0


From 201bbc7d989ba415ecb8fde3fe28e9f1b7b3b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 08/30] fix: report the consumed amount when writing to a
 chunked response

Writers are expected to return how much of the input they consumed, which
isn't the size of the filtered output.
---
 src/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 694bee0..192f8cb 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -985,7 +985,8 @@ impl<'a, 'b> Chunked<'a, 'b> {
 
 impl<'a, 'b> Write for Chunked<'a, 'b> {
     fn write(&mut self, content: &[u8]) -> io::Result<usize> {
-        response_to_io_result(self.try_send(content))
+        //the filters may change the size of the content, but all of it is consumed
+        response_to_io_result(self.try_send(content).map(|_| content.len()))
     }
 
     fn write_all(&mut self, content: &[u8]) -> io::Result<()> {
-- 
2.43.0


From 154cd8bbba7b7ce8e86bffb2920b041eb41a8b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 09/30] fix: only drop the silently aborted part of the initial
 and final content

Everything queued by other response filters after it was dropped as well.
---
 src/response.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 192f8cb..c068266 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -671,7 +671,7 @@ impl<'a, 'b> Response<'a, 'b> {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::SilentAbort => {}
                 }
             }
 
@@ -688,7 +688,7 @@ impl<'a, 'b> Response<'a, 'b> {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::SilentAbort => {}
                 }
             }
 
@@ -795,7 +795,7 @@ impl<'a, 'b> Response<'a, 'b> {
                     Action::Next(Some(content)) => try!(writer.write_all(content.as_bytes())),
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::SilentAbort => {}
                 }
             }
 
-- 
2.43.0


From b4d6654817487fc00a6769aad9bb176f803f8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 10/30] fix: pass the final output of response filters to the
 filters after them

The reversed outputs were paired with the filters in forward order, so they
went through the wrong filters. Errors from ResponseFilter::end were silently
ignored.
---
 src/response.rs | 57 ++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index c068266..d34b4e5 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1203,46 +1203,45 @@ fn filter_content<'a, 'd: 'a, Content: Into<Data<'d>>>(filters: &'a [Box<Respons
 }
 
 fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_storage: &mut AnyMap) -> Result<Vec<Action<'a>>, Error> {
-    let otuputs: Vec<_> = filters.into_iter()
-        .rev()
-        .map(|filter| {
+    let mut outputs = vec![];
+
+    for (index, filter) in filters.into_iter().enumerate().rev() {
+        let action = {
             let filter_context = FilterContext {
                 storage: filter_storage,
                 global: global,
             };
 
             filter.end(filter_context)
-        })
-        .take_while(|a| if let Action::Next(_) = *a { true } else { false })
-        .map(Some)
-        .collect();
-
-    let mut write_queue = vec![];
+        };
 
-    for (filter, action) in filters.into_iter().zip(otuputs.into_iter().chain(::std::iter::repeat(None))) {
-        let mut error = None;
+        match action {
+            Action::Abort(e) => return Err(Error::Filter(e)),
+            Action::SilentAbort => break,
+            action => outputs.push((index, action))
+        }
+    }
 
-        write_queue = write_queue.into_iter().filter_map(|action| match action {
-            Action::Next(content) => {
-                let filter_context = FilterContext {
-                    storage: filter_storage,
-                    global: global,
-                };
-                Some(filter.write(filter_context, content))
-            },
-            Action::SilentAbort => None,
-            Action::Abort(e) => {
-                error = Some(e);
-                None
-            }
-        }).collect();
+    let mut write_queue = vec![];
 
-        if let Some(e) = error {
-            return Err(Error::Filter(e))
+    //the output from each filter has to go through the filters that comes after it
+    for (index, mut action) in outputs {
+        for filter in &filters[index + 1..] {
+            action = match action {
+                Action::Next(content) => {
+                    let filter_context = FilterContext {
+                        storage: filter_storage,
+                        global: global,
+                    };
+                    filter.write(filter_context, content)
+                },
+                _ => break
+            };
         }
 
-        if let Some(action) = action {
-            write_queue.push(action);
+        match action {
+            Action::Abort(e) => return Err(Error::Filter(e)),
+            action => write_queue.push(action)
         }
     }
 
-- 
2.43.0


From 86250d983da316f99fd9fd3b342d77f35fb5984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 11/30] fix: don't send a success response when a handler
 panics

The dropped response sent what it had as 200 OK, and ran the response
filters while panicking. Hyper answers with 500 when it's left to it.
---
 src/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index d34b4e5..7fb7dbe 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -835,7 +835,8 @@ impl<'a, 'b> Response<'a, 'b> {
 impl<'a, 'b> Drop for Response<'a, 'b> {
     ///Writes status code and headers and closes the connection.
     fn drop(&mut self) {
-        if self.writer.is_some() {
+        //leave it to the inner response to tell the client about a panic
+        if self.writer.is_some() && !std::thread::panicking() {
             self.send_sized(&[][..]);
         }
     }
-- 
2.43.0


From f0e5b1a31d24f43770e9ee891f8c5d68826adfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 12/30] fix: let writing to a mock response succeed

It reported that nothing was written, which is a WriteZero error to most writers.
---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 7fb7dbe..fe28846 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -465,7 +465,7 @@ impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::S
         if let MaybeMock::Actual(ref mut response) = *self {
             response.write(buffer)
         } else {
-            Ok(0)
+            Ok(buffer.len())
         }
     }
 
-- 
2.43.0


From 1c01b51ab94ecfc66fecec245aafb565ac0ad5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 13/30] fix: don't send directories as files

Opening a directory succeeds on some platforms, so the head of a 200 response
with the size of the directory was sent before the reading failed.
---
 src/response.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index fe28846..8b5d301 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -38,7 +38,7 @@ use std::borrow::Cow;
 use std::convert::From;
 use std::str::{from_utf8, Utf8Error};
 use std::string::{FromUtf8Error};
-use std::fs::File;
+use std::fs::{File, Metadata};
 use std::path::{Path, PathBuf};
 use std::fmt;
 
@@ -344,7 +344,7 @@ impl<'d, 'a, 'b> SendResponse<'a, 'b> for &'d Path {
             .and_then(|ext| ::file::ext_to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(self) {
+        let file = match open_file(self) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, response))
         };
@@ -366,7 +366,7 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
     type Error = FileError<'a, 'b>;
 
     fn send_response(mut self, response: Response<'a, 'b>) -> Result<(), FileError<'a, 'b>> {
-        let metadata = match self.metadata() {
+        let metadata = match file_metadata(&self) {
             Ok(metadata) => metadata,
             Err(e) => return Err(FileError::Open(e, response)),
         };
@@ -376,6 +376,24 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
     }
 }
 
+///Open a file for sending. This excludes directories.
+fn open_file(path: &Path) -> io::Result<File> {
+    let file = try!(File::open(path));
+    try!(file_metadata(&file));
+    Ok(file)
+}
+
+///Get the metadata of a file that can be sent. This excludes directories,
+///which may be possible to open.
+fn file_metadata(file: &File) -> io::Result<Metadata> {
+    let metadata = try!(file.metadata());
+    if metadata.is_dir() {
+        Err(io::Error::new(io::ErrorKind::Other, "can't send a directory as a file"))
+    } else {
+        Ok(metadata)
+    }
+}
+
 ///Helper trait for dealing with errors that may occur while sending a
 ///response. It provides a default method of handling the error.
 pub trait ResponseError {
@@ -759,7 +777,7 @@ impl<'a, 'b> Response<'a, 'b> {
             .and_then(|ext| to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(path) {
+        let file = match open_file(path) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, self))
         };
-- 
2.43.0


From a7a6d670b2731ccace606da7e4d9a2d4edeb42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 14/30] fix: use the remaining size as length when sending a
 partially read file

---
 src/response.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 8b5d301..064c157 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -32,7 +32,7 @@
 //![raw]: struct.Raw.html
 
 use std;
-use std::io::{self, Write};
+use std::io::{self, Write, Seek, SeekFrom};
 use std::error;
 use std::borrow::Cow;
 use std::convert::From;
@@ -371,7 +371,13 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
             Err(e) => return Err(FileError::Open(e, response)),
         };
 
-        let mut writer = unsafe { response.into_raw(metadata.len()) };
+        //only the part after the current position will be sent
+        let length = match self.seek(SeekFrom::Current(0)) {
+            Ok(position) => metadata.len().saturating_sub(position),
+            Err(_) => metadata.len() //not seekable
+        };
+
+        let mut writer = unsafe { response.into_raw(length) };
         io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
     }
 }
-- 
2.43.0


From 36774e4df47bd46569cc2a6edf12e6cf01fb7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 15/30] fix: map video file extensions to video MIME types

---
 build/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/mime.rs b/build/mime.rs
index 0f9b1fb..e48cdb0 100644
--- a/build/mime.rs
+++ b/build/mime.rs
@@ -37,7 +37,7 @@ pub fn gen() {
             "text" => "MaybeKnown::Known(::mime::TopLevel::Text)".into(),
             "image" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
             "audio" => "MaybeKnown::Known(::mime::TopLevel::Audio)".into(),
-            "video" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
+            "video" => "MaybeKnown::Known(::mime::TopLevel::Video)".into(),
             "application" => "MaybeKnown::Known(::mime::TopLevel::Application)".into(),
             "multipart" => "MaybeKnown::Known(::mime::TopLevel::Multipart)".into(),
             "message" => "MaybeKnown::Known(::mime::TopLevel::Message)".into(),
-- 
2.43.0


From 28ea6c4866934dfb393358e5de7db74a5dae81e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 16/30] fix: don't take a question mark in the fragment for the
 start of the query

---
 src/server/instance.rs | 43 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 327f455..d007d5f 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -238,37 +238,24 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
 }
 
 fn parse_path(path: &str) -> ParsedUri {
-    match path.find('?') {
-        Some(index) => {
-            let (query, fragment) = parse_fragment(&path[index+1..]);
+    //the fragment comes last and may contain question marks
+    let (path, fragment) = parse_fragment(path);
 
-            let mut path: Vec<_> = percent_decode(path[..index].as_bytes()).collect();
-            if path.is_empty() {
-                path.push(b'/');
-            }
-
-            ParsedUri {
-                host: None,
-                uri_path: UriPath::Path(path.into()),
-                query: utils::parse_parameters(query.as_bytes()),
-                fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into()),
-            }
-        },
-        None => {
-            let (path, fragment) = parse_fragment(&path);
+    let (path, query) = match path.find('?') {
+        Some(index) => (&path[..index], utils::parse_parameters(path[index+1..].as_bytes())),
+        None => (path, Parameters::new())
+    };
 
-            let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
-            if path.is_empty() {
-                path.push(b'/');
-            }
+    let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
+    if path.is_empty() {
+        path.push(b'/');
+    }
 
-            ParsedUri {
-                host: None,
-                uri_path: UriPath::Path(path.into()),
-                query: Parameters::new(),
-                fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into())
-            }
-        }
+    ParsedUri {
+        host: None,
+        uri_path: UriPath::Path(path.into()),
+        query: query,
+        fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into())
     }
 }
 
-- 
2.43.0


From 630114de6e00d941e5878850dbc95de801bfedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 17/30] fix: don't read a parameter from nothing in a query
 string

An empty query, or a doubled ampersand, gave a parameter without name and value.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2b01eee..e2f6fd7 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -8,7 +8,7 @@ pub fn parse_parameters(source: &[u8]) -> Parameters {
                                 .map(|&e| if e == b'+' { b' ' } else { e })
                                 .collect();
 
-    for parameter in source.split(|&e| e == b'&') {
+    for parameter in source.split(|&e| e == b'&').filter(|p| !p.is_empty()) {
         let mut parts = parameter.split(|&e| e == b'=');
 
         match (parts.next(), parts.next()) {
-- 
2.43.0


From a253f963fb912e602ca434f4985d1444a3ec0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 18/30] fix: parse the query of absolute targets like other
 queries

They were decoded as text, which corrupted parameters that are not UTF-8.
---
 src/server/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index d007d5f..95a6b1b 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -270,9 +270,9 @@ fn parse_url(url: &Url) -> ParsedUri {
     let mut path = vec![];
     path.extend(percent_decode(url.path().as_bytes()));
 
-    let query = url.query_pairs()
-        .map(|(k, v)| (k.into_owned(), v.into_owned()))
-        .collect();
+    let query = url.query()
+        .map(|q| utils::parse_parameters(q.as_bytes()))
+        .unwrap_or_else(Parameters::new);
 
     let host = url.host_str().map(|host| (host.into(), url.port()));
 
-- 
2.43.0


From 84e480e8470098b5f9ebcfe2e90ade9e06f5cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 19/30] fix: count out connections that are lost in a panic

The number of busy threads was never decreased after a handler panic, so
keep-alive was eventually refused for every connection.
---
 src/server/instance.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 95a6b1b..ba8b58a 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -1,5 +1,6 @@
 use std::net::SocketAddr;
 use std::sync::atomic::{AtomicUsize, Ordering};
+use std::thread;
 
 use time;
 
@@ -127,6 +128,18 @@ impl<R: HandleRequest + 'static> ServerInstance<R> {
 
 }
 
+///Counts out a connection that is lost because of a panic, since
+///`on_connection_end` will never be called for it.
+struct PanicGuard<'a>(&'a AtomicUsize);
+
+impl<'a> Drop for PanicGuard<'a> {
+    fn drop(&mut self) {
+        if thread::panicking() {
+            self.0.fetch_sub(1, Ordering::SeqCst);
+        }
+    }
+}
+
 struct ParsedUri {
     host: Option<(String, Option<u16>)>,
     uri_path: UriPath,
@@ -136,6 +149,8 @@ struct ParsedUri {
 
 impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
     fn handle<'a, 'b>(&'a self, request: hyper::server::request::Request<'a, 'b>, writer: hyper::server::response::Response<'a>) {
+        let _panic_guard = PanicGuard(&self.threads_in_use);
+
         let (
             request_addr,
             request_method,
-- 
2.43.0


From aa0e4d41d48474f85d3005be76adc0e22260deac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 20/30] fix: order strings and byte strings correctly relative
 to MaybeUtf8

The comparison was reversed when the MaybeUtf8 was on the right hand side.
---
 src/context/maybe_utf8.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/context/maybe_utf8.rs b/src/context/maybe_utf8.rs
index 3b387b5..049de8b 100644
--- a/src/context/maybe_utf8.rs
+++ b/src/context/maybe_utf8.rs
@@ -313,7 +313,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -322,7 +322,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -331,7 +331,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for String where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -340,7 +340,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for Cow<'a, str> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self.as_ref())
+        other.partial_cmp(self.as_ref()).map(Ordering::reverse)
     }
 }
 
@@ -349,7 +349,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -358,7 +358,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -367,7 +367,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for Vec<u8> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
-- 
2.43.0


From 13a158dbe855bc320835d69295cb81807513a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 21/30] fix: keep the connection usable when a response filter
 aborts

The empty response that replaces the aborted one kept any Content-Length
from the handler or filters, so the client waited for a body, and it didn't
tell the client about a forced close.
---
 src/response.rs | 100 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 36 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 064c157..8c1d5d1 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -677,47 +677,65 @@ impl<'a, 'b> Response<'a, 'b> {
             }
             writer.send(content.into().as_bytes()).map_err(|e| e.into())
         } else {
-            let mut buffer = vec![];
-
-            let (status, write_queue) = try!(filter_headers(
-                self.filters,
-                writer.status(),
-                writer.headers_mut(),
-                self.global,
-                &mut filter_storage
-            ));
+            let result = self.filter_sized(&mut writer, &mut filter_storage, content);
+
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
-            *writer.status_mut() = status;
-            for action in write_queue {
-                match action {
-                    Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => {}
+
+            match result {
+                Ok(buffer) => writer.send(&buffer).map_err(|e| e.into()),
+                Err(e) => {
+                    remove_content_length(writer.headers_mut());
+                    Err(e)
                 }
             }
+        }
+    }
+
+    fn filter_sized<'d, Content: Into<Data<'d>>>(
+        &self,
+        writer: &mut MaybeMock<hyper::server::response::Response<'a>>,
+        filter_storage: &mut AnyMap,
+        content: Content
+    ) -> Result<Vec<u8>, Error> {
+        let mut buffer = vec![];
 
-            let filter_result = filter_content(self.filters, content, self.global, &mut filter_storage);
-            match filter_result {
+        let (status, write_queue) = try!(filter_headers(
+            self.filters,
+            writer.status(),
+            writer.headers_mut(),
+            self.global,
+            filter_storage
+        ));
+        *writer.status_mut() = status;
+        for action in write_queue {
+            match action {
                 Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
+                Action::Next(None) => {},
                 Action::Abort(e) => return Err(Error::Filter(e)),
-                _ => {}
+                Action::SilentAbort => {}
             }
+        }
 
-            let write_queue = try!(filter_end(self.filters, self.global, &mut filter_storage));
-            for action in write_queue {
-                match action {
-                    Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => {}
-                }
-            }
+        let filter_result = filter_content(self.filters, content, self.global, filter_storage);
+        match filter_result {
+            Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
+            Action::Abort(e) => return Err(Error::Filter(e)),
+            _ => {}
+        }
 
-            writer.send(&buffer).map_err(|e| e.into())
+        let write_queue = try!(filter_end(self.filters, self.global, filter_storage));
+        for action in write_queue {
+            match action {
+                Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
+                Action::Next(None) => {},
+                Action::Abort(e) => return Err(Error::Filter(e)),
+                Action::SilentAbort => {}
+            }
         }
+
+        Ok(buffer)
     }
 
     ///Send a static file with a specified MIME type to the client.
@@ -798,19 +816,23 @@ impl<'a, 'b> Response<'a, 'b> {
         let mut writer = self.writer.take().expect("response used after drop");
 
         //Make sure it's chunked
-        writer.headers_mut().remove::<::header::ContentLength>();
-        writer.headers_mut().remove_raw("content-length");
+        remove_content_length(writer.headers_mut());
 
-        let writer = filter_headers(
+        let filter_result = filter_headers(
             self.filters,
             writer.status(),
             writer.headers_mut(),
             self.global,
             self.filter_storage_mut()
-        ).and_then(|(status, write_queue)|{
-            if self.force_close {
-                writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
-            }
+        );
+
+        if self.force_close {
+            writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+        }
+        //The filters may have added it, but the length is still unknown
+        remove_content_length(writer.headers_mut());
+
+        let writer = filter_result.and_then(|(status, write_queue)|{
             *writer.status_mut() = status;
             let mut writer = try!(writer.start());
 
@@ -1137,6 +1159,12 @@ impl<'a> Write for Raw<'a> {
     }
 }
 
+//Without it, the length of the body will be decided by what's sent
+fn remove_content_length(headers: &mut Headers) {
+    headers.remove::<::header::ContentLength>();
+    headers.remove_raw("content-length");
+}
+
 fn response_to_io_result<T>(res:  Result<T, Error>) -> io::Result<T> {
     match res {
         Ok(v) => Ok(v),
-- 
2.43.0


From de2ea5cd336c72c1ea7cb307cd336e07dea75371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 22/30] fix: don't take what's left of a body for the next
 request

The unread part of a request body was parsed as the next request on a
persistent connection. It's now skipped when the body reader is dropped, and
no more requests are read if the body can't be followed to its end.
---
 src/context/body.rs    | 94 ++++++++++++++++++++++++++++++++++++++----
 src/server/instance.rs | 10 ++++-
 2 files changed, 93 insertions(+), 11 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 0fc8b7c..5cb037a 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -3,7 +3,10 @@
 #[cfg(feature = "multipart")]
 use multipart::server::{HttpRequest, Multipart};
 
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read, Write};
+use std::net::SocketAddr;
+use std::thread;
+use std::time::Duration;
 
 use hyper::buffer::BufReader;
 use hyper::http::h1::HttpReader;
@@ -15,6 +18,8 @@ use header::Headers;
 ///A reader for a request body.
 pub struct BodyReader<'a, 'b: 'a> {
     reader: MaybeMock<HttpReader<&'a mut BufReader<&'b mut NetworkStream>>>,
+    keep_alive: bool,
+    failed: bool,
 
     #[cfg(feature = "multipart")]
     multipart_boundary: Option<String>
@@ -24,7 +29,7 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[doc(hidden)]
     #[cfg(feature = "multipart")]
     ///Internal and may change without warning.
-    pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers) -> BodyReader<'a, 'b> {
+    pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers, keep_alive: bool) -> BodyReader<'a, 'b> {
         use header::ContentType;
         use mime::{Mime, TopLevel, SubLevel, Attr, Value};
 
@@ -43,6 +48,8 @@ impl<'a, 'b> BodyReader<'a, 'b> {
 
         BodyReader {
             reader: MaybeMock::Actual(reader),
+            keep_alive: keep_alive,
+            failed: false,
             multipart_boundary: boundary
         }
     }
@@ -50,9 +57,11 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[doc(hidden)]
     #[cfg(not(feature = "multipart"))]
     ///Internal and may change without warning.
-    pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, _headers: &Headers) -> BodyReader<'a, 'b> {
+    pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, _headers: &Headers, keep_alive: bool) -> BodyReader<'a, 'b> {
         BodyReader {
-            reader: MaybeMock::Actual(reader)
+            reader: MaybeMock::Actual(reader),
+            keep_alive: keep_alive,
+            failed: false
         }
     }
 
@@ -77,6 +86,8 @@ impl<'a, 'b> BodyReader<'a, 'b> {
 
         BodyReader {
             reader: MaybeMock::Mock,
+            keep_alive: false,
+            failed: false,
             multipart_boundary: boundary,
         }
     }
@@ -85,7 +96,9 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[cfg(not(feature = "multipart"))]
     pub fn mock(_headers: &'b Headers) -> BodyReader<'static, 'static> {
         BodyReader {
-            reader: MaybeMock::Mock
+            reader: MaybeMock::Mock,
+            keep_alive: false,
+            failed: false
         }
     }
 }
@@ -144,10 +157,12 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[cfg(feature = "multipart")]
     pub fn as_multipart<'r>(&'r mut self) -> Option<Multipart<MultipartRequest<'r, 'a, 'b>>> {
         if let MaybeMock::Actual(ref mut reader) = self.reader {
+            let failed = &mut self.failed;
             self.multipart_boundary.as_ref().and_then(move |boundary|
                 Multipart::from_request(MultipartRequest {
                     boundary: boundary,
-                    reader: reader
+                    reader: reader,
+                    failed: failed
                 }).ok()
             )
         } else {
@@ -186,7 +201,67 @@ impl<'a, 'b> BodyReader<'a, 'b> {
 impl<'a, 'b> Read for BodyReader<'a, 'b> {
     ///Read the request body.
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        self.reader.read(buf)
+        note_failure(self.reader.read(buf), &mut self.failed)
+    }
+}
+
+impl<'a, 'b> Drop for BodyReader<'a, 'b> {
+    ///Makes sure that nothing of the body is taken for the next request.
+    fn drop(&mut self) {
+        if !self.keep_alive || thread::panicking() {
+            return;
+        }
+
+        if let MaybeMock::Actual(ref mut reader) = self.reader {
+            if self.failed || io::copy(reader, &mut io::sink()).is_err() {
+                //There's no telling where the next request would begin.
+                let connection = reader.get_mut();
+                *connection.get_mut() = Box::leak(Box::new(Closed));
+                let remaining = connection.get_buf().len();
+                connection.consume(remaining);
+            }
+        }
+    }
+}
+
+fn note_failure(result: io::Result<usize>, failed: &mut bool) -> io::Result<usize> {
+    if let Err(ref e) = result {
+        *failed = *failed || e.kind() != io::ErrorKind::Interrupted;
+    }
+
+    result
+}
+
+///A replacement for connections that shouldn't be read from anymore.
+struct Closed;
+
+impl Read for Closed {
+    fn read(&mut self, _buf: &mut [u8]) -> io::Result<usize> {
+        Ok(0)
+    }
+}
+
+impl Write for Closed {
+    fn write(&mut self, _buf: &[u8]) -> io::Result<usize> {
+        Err(io::ErrorKind::BrokenPipe.into())
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
+
+impl NetworkStream for Closed {
+    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
+        Err(io::ErrorKind::NotConnected.into())
+    }
+
+    fn set_read_timeout(&self, _dur: Option<Duration>) -> io::Result<()> {
+        Ok(())
+    }
+
+    fn set_write_timeout(&self, _dur: Option<Duration>) -> io::Result<()> {
+        Ok(())
     }
 }
 
@@ -194,7 +269,8 @@ impl<'a, 'b> Read for BodyReader<'a, 'b> {
 #[cfg(feature = "multipart")]
 pub struct MultipartRequest<'r, 'a: 'r, 'b: 'a> {
     boundary: &'r str,
-    reader: &'r mut HttpReader<&'a mut BufReader<&'b mut NetworkStream>>
+    reader: &'r mut HttpReader<&'a mut BufReader<&'b mut NetworkStream>>,
+    failed: &'r mut bool
 }
 
 #[cfg(feature = "multipart")]
@@ -214,7 +290,7 @@ impl<'r, 'a, 'b> HttpRequest for MultipartRequest<'r, 'a, 'b> {
 impl<'r, 'a, 'b> Read for MultipartRequest<'r, 'a, 'b> {
     ///Read the request body.
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        self.reader.read(buf)
+        note_failure(self.reader.read(buf), self.failed)
     }
 }
 
diff --git a/src/server/instance.rs b/src/server/instance.rs
index ba8b58a..369bcd3 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -12,6 +12,7 @@ use url::Url;
 use hyper;
 use hyper::server::Handler as HyperHandler;
 use hyper::header::{Date, ContentType};
+use hyper::http::should_keep_alive;
 use hyper::mime::Mime;
 use hyper::uri::RequestUri;
 
@@ -166,6 +167,10 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
             false
         };
 
+        //The rest of the body is in the way if there may be more requests.
+        let keep_alive = self.keep_alive.is_some() && !force_close && should_keep_alive(request_version, &request_headers);
+        let body = context::body::BodyReader::from_reader(request_reader, &request_headers, keep_alive);
+
         let mut response = Response::new(writer, &self.response_filters, &self.global, force_close);
         response.headers_mut().set(Date(HttpDate(time::now_utc())));
         response.headers_mut().set(ContentType(self.content_type.clone()));
@@ -194,8 +199,6 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
                     });
                 }
 
-                let body = context::body::BodyReader::from_reader(request_reader, &request_headers);
-
                 let mut context = Context {
                     headers: request_headers,
                     http_version: request_version,
@@ -228,12 +231,15 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
                                 if environment.response.status() == StatusCode::Ok {
                                     environment.response.set_status(StatusCode::NotFound);
                                 }
+                                //respond before what's left of the body is read
+                                drop(environment.response);
                             }
                         }
                     },
                     ContextAction::Abort(status) => {
                         *response.filter_storage_mut() = filter_storage;
                         response.set_status(status);
+                        drop(response);
                     }
                 }
             },
-- 
2.43.0


From 7d450b05b4aa9ffa578c9f8a583789a2d89a9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 23/30] fix: don't complete chunked responses, or involve
 filters, when a handler panics

---
 src/response.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 8c1d5d1..53822ee 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1050,7 +1050,10 @@ impl<'a, 'b> Write for Chunked<'a, 'b> {
 impl<'a, 'b> Drop for Chunked<'a, 'b> {
     ///Finishes writing and closes the connection.
     fn drop(&mut self) {
-        if self.writer.is_some() {
+        if std::thread::panicking() {
+            //what has been sent isn't the whole response, so it must not look like that
+            std::mem::forget(self.writer.take());
+        } else if self.writer.is_some() {
             self.finish();
         }
     }
-- 
2.43.0


From 89ef0a95406fb4b98954f405a7c85dbfb65614e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 24/30] fix: report that a raw response never started when
 ending it

The error may have been taken by a send, which ignores it, and end would
then claim that the response was sent.
---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 53822ee..99575c6 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1128,7 +1128,7 @@ impl<'a> Raw<'a> {
     pub fn end(mut self) -> io::Result<()> {
         let writer = match self.writer.take() {
             Some(Ok(writer)) => writer,
-            None => return Ok(()), //It has already ended
+            None => return Err(io::Error::new(io::ErrorKind::BrokenPipe, "end after close")),
             Some(Err(e)) => return Err(e)
         };
         writer.end()
-- 
2.43.0


From a54feca711a783080fc9d57d39456b1a0dd572f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:22 +0000
Subject: [PATCH 25/30] fix: don't overflow when more threads should be free
 than can be counted

---
 src/server/instance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 369bcd3..40f078c 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -162,7 +162,7 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
         ) = request.deconstruct();
 
         let force_close = if let Some(ref keep_alive) = self.keep_alive {
-            self.threads_in_use.load(Ordering::SeqCst) + keep_alive.free_threads > self.threads
+            self.threads_in_use.load(Ordering::SeqCst).saturating_add(keep_alive.free_threads) > self.threads
         } else {
             false
         };
-- 
2.43.0


From 2f39ae141f59ab7d7c0dc7a4e67363a3b29fe6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 26/30] fix: don't complete a chunked response when a filter
 panics at its end

---
 src/response.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 99575c6..0ba7f20 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1000,11 +1000,16 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = match self.writer.take() {
+        let writer = match self.writer.take() {
             Some(writer) => try!(writer),
             None => return Err(Error::Io(io::Error::new(io::ErrorKind::BrokenPipe, "end after close")))
         };
-        let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
+
+        //dropping the writer completes the response, which must not happen if a filter panics
+        let writer = std::mem::ManuallyDrop::new(writer);
+        let write_queue = filter_end(self.filters, self.global, &mut self.filter_storage);
+        let mut writer = std::mem::ManuallyDrop::into_inner(writer);
+        let write_queue = try!(write_queue);
 
         for action in write_queue {
             try!{
-- 
2.43.0


From 97ba3ac29c2272047205be5956a86aca7495ddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 27/30] fix: accept utf-8 as a multipart boundary

---
 src/context/body.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 5cb037a..33033ad 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -31,17 +31,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     ///Internal and may change without warning.
     pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers, keep_alive: bool) -> BodyReader<'a, 'b> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref boundary)| boundary.as_str().to_owned())
             },
             _ => None
         };
@@ -69,17 +65,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[cfg(feature = "multipart")]
     pub fn mock(headers: &'b Headers) -> BodyReader<'static, 'static> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref boundary)| boundary.as_str().to_owned())
             },
             _ => None
         };
-- 
2.43.0


From 995ee9b0fe615083fadf2150374430269a13d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 28/30] fix: apply a build context to the items of a tree
 router also when it has no variable names

---
 src/handler/tree_router.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index e434ad3..563fc5c 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -360,16 +360,20 @@ impl<T: FromHandler<H>, H> FromHandler<H> for TreeRouter<T> {
 
 impl<T: ApplyContext> ApplyContext for TreeRouter<T> {
     fn apply_context(&mut self, mut context: BuilderContext) {
-        if let Some(VariableNames(variables)) = context.remove() {
+        let variables = context.remove::<VariableNames>();
+
+        if let Some(ref variables) = variables {
             let mut variable_context = BuilderContext::new();
-            variable_context.insert(VariableNames(variables.clone()));
+            variable_context.insert(variables.clone());
 
             self.item.prepend_context(variable_context);
-            self.item.apply_context(context.clone());
-
-            context.insert(VariableNames(variables));
         }
 
+        self.item.apply_context(context.clone());
+
+        if let Some(variables) = variables {
+            context.insert(variables);
+        }
 
         for (_, mut node) in &mut self.static_routes {
             node.apply_context(context.clone());
-- 
2.43.0


From 99aaa47cf4fa3d7c1ff179a6685da3a4b34ba88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 29/30] fix: keep the description of shared and boxed handlers

---
 src/handler/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handler/mod.rs b/src/handler/mod.rs
index f8bf982..96217c6 100644
--- a/src/handler/mod.rs
+++ b/src/handler/mod.rs
@@ -180,12 +180,20 @@ impl<T: Handler> Handler for Arc<T> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 impl Handler for Box<Handler> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 ///A request environment, containing the context, response and route state.
-- 
2.43.0


From d00886ff04d19d1c914248a97ffe67be838b44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 30/30] fix: let go of a failed chunked writer when panicking

---
 src/response.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 0ba7f20..73760f7 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1057,7 +1057,9 @@ impl<'a, 'b> Drop for Chunked<'a, 'b> {
     fn drop(&mut self) {
         if std::thread::panicking() {
             //what has been sent isn't the whole response, so it must not look like that
-            std::mem::forget(self.writer.take());
+            if let Some(Ok(writer)) = self.writer.take() {
+                std::mem::forget(writer);
+            }
         } else if self.writer.is_some() {
             self.finish();
         }
-- 
2.43.0

