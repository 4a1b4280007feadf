From 707df1542f5ac52c3797517b6dd418b102014825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 01/24] fix: don't yield the CR of a boundary's CRLF when it
 ends the buffer

---
 src/server/boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 21f37d1..831f484 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -211,6 +211,11 @@ fn find_boundary(buf: &[u8], boundary: &[u8]) -> Result<usize, usize> {
         }
     }
 
+    // hold back a trailing CR as it may be the start of the CRLF preceding the boundary
+    if buf.ends_with(b"\r") {
+        return Err(buf.len() - 1);
+    }
+
     Err(buf.len())
 }
 
-- 
2.43.0


From 0e49c0b90d21f8f881f6ccdb7abf98b71163892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 02/24] fix: skip unread field data before verifying a found
 boundary

---
 src/server/boundary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 831f484..f3da47b 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -131,6 +131,10 @@ impl<R> BoundaryReader<R> where R: Read {
             self.consume(buf_len);
         }
 
+        // discard any unread field data first so that the whole boundary fits in the buffer
+        let unread = self.search_idx;
+        self.consume(unread);
+
         let consume_amt = {
             let buf = self.source.fill_buf()?;
 
-- 
2.43.0


From 48daa6df07c482a4611bca5f1c108a0c34e7dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 03/24] fix: grow the buffer with the minimum buffer size so
 fields aren't cut short

---
 src/server/boundary.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index f3da47b..00fdac3 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -109,6 +109,15 @@ impl<R> BoundaryReader<R> where R: Read {
         let min_buf_size = cmp::max(self.boundary.len() * 2, min_buf_size);
 
         self.source.policy_mut().0 = min_buf_size;
+
+        // the buffer only makes room for more data if at least `min_buf_size` bytes are free
+        let min_capacity = min_buf_size.saturating_mul(2);
+
+        if self.source.capacity() < min_capacity {
+            self.source.make_room();
+            let buf_len = self.source.buf_len();
+            self.source.reserve(min_capacity - buf_len);
+        }
     }
 
     pub fn consume_boundary(&mut self) -> io::Result<bool> {
-- 
2.43.0


From be3fa385f5dac468408484350ca732c8490a3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 04/24] fix: count text fields in the content length of a
 prepared request

---
 src/client/lazy.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 4df40cf..7117c4e 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -312,6 +312,7 @@ impl<'d> PreparedFields<'d> {
             boundary.push_str("--");
         }
 
+        content_len += text_data.len() as u64;
         content_len += boundary.len() as u64;
 
         Ok(PreparedFields {
-- 
2.43.0


From 0924f75345804bf5cc5919087d77ea1bba859f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 05/24] fix: write the closing boundary of a prepared request
 without fields

---
 src/client/lazy.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 7117c4e..7bde2f5 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -305,12 +305,8 @@ impl<'d> PreparedFields<'d> {
             }
         }
 
-        // So we don't write a spurious end boundary
-        if text_data.is_empty() && streams.is_empty() {
-            boundary = String::new();
-        } else {
-            boundary.push_str("--");
-        }
+        // always write the closing boundary, even for empty bodies
+        boundary.push_str("--");
 
         content_len += text_data.len() as u64;
         content_len += boundary.len() as u64;
-- 
2.43.0


From 81f31a5d13492c55fa394b40741ea68a3dad5756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 06/24] fix: retry interrupted stream reads in a prepared
 request instead of losing bytes

---
 src/client/lazy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 7bde2f5..8ba2610 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -351,6 +351,11 @@ impl<'d> Read for PreparedFields<'d> {
             } else if let Some(mut field) = self.streams.pop() {
                 match field.read(buf) {
                     Ok(0) => continue,
+                    // bytes that were already copied to `buf` must not be lost
+                    Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {
+                        self.streams.push(field);
+                        continue;
+                    }
                     res => {
                         self.streams.push(field);
                         res
-- 
2.43.0


From 8e9f9b43bc5bf4acc0eaafe83784209dd0cba2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 07/24] fix: parse Content-Disposition parameters in any order
 and respect quotes

---
 src/server/field.rs | 71 +++++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 6ccf952..1ce67c7 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -178,20 +178,17 @@ impl ContentDisp {
         };
 
         // Content-Disposition: form-data; name=?
-        let (field_name, filename) = match get_str_after("name=", ';', after_disp_type) {
+        let field_name = match get_param("name", after_disp_type) {
             None => invalid_cont_disp!(
                 "expected field name and maybe filename, got",
                 after_disp_type
             ),
-            // Content-Disposition: form-data; name={field_name}; filename=?
-            Some((field_name, after_field_name)) => {
-                let field_name = trim_quotes(field_name);
-                let filename = get_str_after("filename=", ';', after_field_name)
-                    .map(|(filename, _)| trim_quotes(filename).to_owned());
-                (field_name, filename)
-            }
+            Some(field_name) => field_name,
         };
 
+        // Content-Disposition: form-data; name={field_name}; filename=?
+        let filename = get_param("filename", after_disp_type).map(str::to_owned);
+
         Ok(ContentDisp {
             field_name: field_name.to_owned(),
             filename,
@@ -352,20 +349,50 @@ fn trim_quotes(s: &str) -> &str {
     s.trim_matches('"')
 }
 
-/// Get the string after `needle` in `haystack`, stopping before `end_val_delim`
-fn get_str_after<'a>(
-    needle: &str,
-    end_val_delim: char,
-    haystack: &'a str,
-) -> Option<(&'a str, &'a str)> {
-    let val_start_idx = try_opt!(haystack.find(needle)) + needle.len();
-    let val_end_idx = haystack[val_start_idx..]
-        .find(end_val_delim)
-        .map_or(haystack.len(), |end_idx| end_idx + val_start_idx);
-    Some((
-        &haystack[val_start_idx..val_end_idx],
-        &haystack[val_end_idx..],
-    ))
+/// Get the value of the parameter `name` from a list of parameters (`; name=value; name="value"`),
+/// without its quotes.
+fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
+    let mut rest = params;
+
+    loop {
+        rest = rest.trim_start_matches(|c: char| c == ';' || c.is_whitespace());
+
+        if rest.is_empty() {
+            return None;
+        }
+
+        let (param, after_param) = rest.split_at(param_len(rest));
+
+        if let Some((param_name, val)) = split_once(param, '=') {
+            if param_name.trim().eq_ignore_ascii_case(name) {
+                return Some(trim_quotes(val[1..].trim()));
+            }
+        }
+
+        rest = after_param;
+    }
+}
+
+/// Get the length of the first parameter in `params`, up to but excluding the `;` after it.
+///
+/// A quoted value may contain `;`, it ends at a quote which is at the end of the parameter.
+fn param_len(params: &str) -> usize {
+    let is_delim = |idx: &usize| {
+        let after = params[idx + 1..].trim_start();
+        after.is_empty() || after.starts_with(';')
+    };
+
+    let end_quote = split_once(params, '=')
+        .filter(|(name, val)| !name.contains(';') && val[1..].trim_start().starts_with('"'))
+        .and_then(|(name, val)| {
+            let start_quote = name.len() + try_opt!(val.find('"'));
+            params.match_indices('"').map(|(idx, _)| idx)
+                .filter(|idx| *idx > start_quote)
+                .find(is_delim)
+        });
+
+    let start = end_quote.unwrap_or(0);
+    params[start..].find(';').map_or(params.len(), |idx| start + idx)
 }
 
 fn io_str_utf8(buf: &[u8]) -> io::Result<&str> {
-- 
2.43.0


From c620f30dbfcb6b9ea7d858aa43b3c097130747de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 08/24] fix: count the bytes read to memory towards the size
 limit of a saved file

---
 src/server/save.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index fa95c9e..442e9e7 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -422,7 +422,10 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
                 .map(move |size| SavedData::File(path, size as u64))
         );
 
-        self.write_to(file).map(move |written| data.add_size(written))
+        // the bytes that were already read count towards the limit
+        let limit = self.size_limit.saturating_sub(bytes.len() as u64);
+
+        self.write_limited(file, limit).map(move |written| data.add_size(written))
     }
 
 
@@ -432,9 +435,14 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     /// (tested by `MultipartFile::fill_buf().is_empty()` so no bytes are consumed).
     ///
     /// Retries on interrupts.
-    pub fn write_to<W: Write>(&mut self, mut dest: W) -> SaveResult<u64, u64> {
+    pub fn write_to<W: Write>(&mut self, dest: W) -> SaveResult<u64, u64> {
+        let limit = self.size_limit;
+        self.write_limited(dest, limit)
+    }
+
+    fn write_limited<W: Write>(&mut self, mut dest: W, limit: u64) -> SaveResult<u64, u64> {
         if self.size_limit < u64::MAX {
-            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), self.size_limit)
+            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), limit)
         } else {
             try_read_buf(&mut self.savable, |buf| try_write_all(buf, &mut dest))
         }
-- 
2.43.0


From 49f04b4b85d60cbd4377d5a9cd5d924c0df5803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 09/24] fix: never touch the disk when the size limit is within
 the memory threshold

---
 src/server/save.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 442e9e7..2a69d46 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -406,7 +406,7 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let (bytes, reason) = try_partial!(self.save_mem(bytes));
 
         match reason {
-            SizeLimit if !self.cmp_size_limit(bytes.len()) => (),
+            SizeLimit if self.size_limit > self.memory_threshold => (),
             other => return Partial(bytes.into(), other)
         }
 
-- 
2.43.0


From af5060dce8c290fd436a0d7912f486a9edd707ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 10/24] fix: report invalid UTF-8 anywhere in a forced text
 field and always terminate

---
 src/server/save.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 2a69d46..22ec41c 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -466,13 +466,17 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let res = self.read_mem(|buf| {
             match str::from_utf8(buf) {
                 Ok(s) => { string.push_str(s); Full(buf.len()) },
-                // buffer should always be bigger
-                Err(e) => if buf.len() < 4 {
-                        Partial(0, e.into())
+                Err(e) => {
+                    let valid = e.valid_up_to();
+                    string.push_str(str::from_utf8(&buf[..valid]).unwrap());
+
+                    // a character cut off at the end of the buffer may be completed by the next one
+                    if valid > 0 && e.error_len().is_none() {
+                        Full(valid)
                     } else {
-                        string.push_str(str::from_utf8(&buf[..e.valid_up_to()]).unwrap());
-                        Full(e.valid_up_to())
+                        Partial(valid, e.into())
                     }
+                }
             }
         }, 0);
 
@@ -982,9 +986,11 @@ fn try_copy_limited<R: BufRead, Wb: FnMut(&[u8]) -> SaveResult<usize, usize>>(sr
     try_read_buf(src, |buf| {
         let new_copied = copied.saturating_add(buf.len() as u64);
         if new_copied > limit { return Partial(0, PartialReason::SizeLimit) }
-        copied = new_copied;
 
-        with_buf(buf)
+        let res = with_buf(buf);
+        // may be less than the whole buffer
+        if let Full(amt) = res { copied = copied.saturating_add(amt as u64); }
+        res
     })
 }
 
-- 
2.43.0


From 1a1d51338a4f143a86409782f67a35cc20f624a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 11/24] fix: don't lose the bytes already read from a field
 when saving it fails

---
 src/server/save.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 22ec41c..67888aa 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -414,7 +414,9 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
 
         let mut file = match create_dir_all(&path).and_then(|_| self.open_opts.open(&path)) {
             Ok(file) => file,
-            Err(e) => return Error(e),
+            // don't lose what was already read from the field
+            Err(e) => return if bytes.is_empty() { Error(e) }
+                             else { Partial(bytes.into(), e.into()) },
         };
 
         let data = try_full!(
@@ -425,7 +427,11 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         // the bytes that were already read count towards the limit
         let limit = self.size_limit.saturating_sub(bytes.len() as u64);
 
-        self.write_limited(file, limit).map(move |written| data.add_size(written))
+        match self.write_limited(file, limit) {
+            // don't lose what was already written to the file
+            Error(e) => Partial(data, e.into()),
+            other => other.map(move |written| data.add_size(written)),
+        }
     }
 
 
-- 
2.43.0


From 9c475b72c3b43da0e38c69c383391bd8c3a77b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 12/24] fix: accept exactly as many fields as the count limit
 and don't drop the next one

---
 src/server/save.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 67888aa..8d2086e 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -306,7 +306,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
             saver.with_dir(entries.save_dir.as_path())
         };
 
-        while entries.fields_count < count_limit {
+        loop {
             let mut field: MultipartField<M> = match res {
                 ReadEntryResult::Entry(field) => field,
                 ReadEntryResult::End(_) => return Full(entries), // normal exit point
@@ -319,6 +319,19 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 )
             };
 
+            if entries.fields_count >= count_limit {
+                return Partial(
+                    PartialEntries {
+                        entries,
+                        partial: Some(PartialSavedField {
+                            source: field,
+                            dest: None,
+                        }),
+                    },
+                    PartialReason::CountLimit
+                );
+            }
+
             let (dest, reason) = match save_field(&mut field, &entries) {
                 Full(saved) => {
                     entries.push_field(field.headers, saved);
@@ -340,14 +353,6 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 reason
             );
         }
-
-        Partial(
-            PartialEntries {
-                entries,
-                partial: None,
-            },
-            PartialReason::CountLimit
-        )
     }
 }
 
-- 
2.43.0


From 3adaf90f4f39aad54a86cad416c1b192adeae215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 13/24] fix: save a field with a given file name in the
 temporary directory itself

---
 src/server/save.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 8d2086e..d96870a 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -372,10 +372,9 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     ///
     /// See `with_path()` for more details.
     pub fn with_filename(&mut self, filename: &str) -> FieldSaveResult {
-        let mut tempdir = env::temp_dir();
-        tempdir.set_file_name(filename);
+        let path = env::temp_dir().join(filename);
 
-        self.with_path(tempdir)
+        self.with_path(path)
     }
 
     /// Save the field data, potentially using a file with a random alphanumeric name
-- 
2.43.0


From f539e9a8ee4b1881c577084397123340a3a0c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 14/24] fix: create the configured parent directory of the iron
 middleware

---
 src/server/iron.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index c4bef57..13ed4bc 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -10,7 +10,7 @@ use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
 
 use std::path::PathBuf;
-use std::{error, fmt, io};
+use std::{error, fmt, fs, io};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
@@ -128,7 +128,8 @@ impl Intercept {
         let tempdir = self.temp_dir_path.as_ref()
                 .map_or_else(
                     || tempfile::Builder::new().prefix("multipart-iron").tempdir(),
-                    |path| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    |path| fs::create_dir_all(path)
+                        .and_then(|_| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path))
                 )
                 .map_err(|e| io_to_iron(e, "Error opening temporary directory for request."))?;
 
-- 
2.43.0


From a073b606ca10ba7162831c73e93dcf75be0ad59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 15/24] fix: check the content type of nickel requests

---
 src/server/nickel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/nickel.rs b/src/server/nickel.rs
index 0f725a3..057c183 100644
--- a/src/server/nickel.rs
+++ b/src/server/nickel.rs
@@ -3,6 +3,7 @@ pub extern crate nickel;
 
 use self::nickel::hyper;
 use self::hyper::header::ContentType;
+use self::hyper::mime::{Mime, TopLevel, SubLevel};
 
 pub use self::nickel::Request as NickelRequest;
 pub use self::nickel::hyper::server::Request as HyperRequest;
@@ -21,7 +22,11 @@ impl<'r, 'mw: 'r, 'server: 'mw, D: 'mw> HttpRequest for Maybe<'r, 'mw, 'server,
     fn multipart_boundary(&self) -> Option<&str> {
         // we can't use the impl from the `hyper` module because it might be the wrong version
         let cont_type = try_opt!(self.0.origin.headers.get::<ContentType>());
-        cont_type.get_param("boundary").map(|v| v.as_str())
+        if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **cont_type {
+            cont_type.get_param("boundary").map(|v| v.as_str())
+        } else {
+            None
+        }
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From fe1cbd664aac7a2c9ff72f2a61aeaa7134256b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 16/24] fix: check the content type of tiny_http requests and
 unquote the boundary

---
 src/server/tiny_http.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index ae246cf..0626872 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -22,12 +22,17 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
             .find(|header| header.field.equiv("Content-Type")))
         .value
         .as_str();
-        let start = try_opt!(content_type.find(BOUNDARY)) + BOUNDARY.len();
-        let end = content_type[start..]
-            .find(';')
-            .map_or(content_type.len(), |end| start + end);
+        let mut parts = content_type.split(';').map(str::trim);
 
-        Some(&content_type[start..end])
+        if !try_opt!(parts.next()).eq_ignore_ascii_case("multipart/form-data") {
+            return None;
+        }
+
+        let param = try_opt!(parts.find(|param| param
+            .get(..BOUNDARY.len())
+            .map_or(false, |name| name.eq_ignore_ascii_case(BOUNDARY))));
+
+        Some(param[BOUNDARY.len()..].trim_matches('"'))
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 9b13d206e34e51006ffe071eabb81e83c585c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 17/24] fix: never write the same bytes twice to the inner
 writer of StdoutTee

---
 src/mock.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mock.rs b/src/mock.rs
index 2947661..10358cf 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -193,7 +193,8 @@ impl<'s, W> StdoutTee<'s, W> {
 impl<'s, W: Write> Write for StdoutTee<'s, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
         self.inner.write_all(buf)?;
-        self.stdout.write(buf)
+        self.stdout.write_all(buf)?;
+        Ok(buf.len())
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 2aa9d8f5fb12f156eb73d2ae88851b6e6e93dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 18/24] fix: recognise the boundary 'utf-8' in hyper requests

---
 src/server/hyper.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/server/hyper.rs b/src/server/hyper.rs
index 57022dc..f1fe845 100644
--- a/src/server/hyper.rs
+++ b/src/server/hyper.rs
@@ -16,7 +16,7 @@ use hyper::server::{Handler, Request, Response};
 
 pub use hyper::server::Request as HyperRequest;
 
-use hyper::mime::{Mime, TopLevel, SubLevel, Attr, Value};
+use hyper::mime::{Mime, TopLevel, SubLevel, Attr};
 
 use super::{Multipart, HttpRequest};
 
@@ -89,12 +89,7 @@ impl<'a, 'b> HttpRequest for HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
@@ -123,12 +118,7 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
-- 
2.43.0


From cee7acac1e0ce6f6e13fa0c389d38b6f036cd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:38 +0000
Subject: [PATCH 19/24] fix: don't read from the source again after it has
 ended

---
 src/server/boundary.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 00fdac3..1a7f30c 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -30,10 +30,37 @@ enum State {
     AtEnd
 }
 
+/// Doesn't read from the source again once it has ended as not all readers allow that.
+#[derive(Debug)]
+struct UntilEof<R> {
+    reader: R,
+    ended: bool,
+}
+
+impl<R: Read> Read for UntilEof<R> {
+    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
+        if self.ended || out.is_empty() {
+            return Ok(0);
+        }
+
+        let read = self.reader.read(out)?;
+        self.ended = read == 0;
+        Ok(read)
+    }
+}
+
+#[cfg(feature = "bench")]
+impl<R: Seek> Seek for UntilEof<R> {
+    fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
+        self.ended = false;
+        self.reader.seek(pos)
+    }
+}
+
 /// A struct implementing `Read` and `BufRead` that will yield bytes until it sees a given sequence.
 #[derive(Debug)]
 pub struct BoundaryReader<R> {
-    source: BufReader<R, MinBuffered>,
+    source: BufReader<UntilEof<R>, MinBuffered>,
     boundary: Vec<u8>,
     search_idx: usize,
     state: State,
@@ -44,7 +71,7 @@ impl<R> BoundaryReader<R> where R: Read {
     pub fn from_reader<B: Into<Vec<u8>>>(reader: R, boundary: B) -> BoundaryReader<R> {
         let mut boundary = boundary.into();
         safemem::prepend(b"--", &mut boundary);
-        let source = BufReader::new(reader).set_policy(MinBuffered(MIN_BUF_SIZE));
+        let source = BufReader::new(UntilEof { reader, ended: false }).set_policy(MinBuffered(MIN_BUF_SIZE));
 
         BoundaryReader {
             source,
@@ -248,7 +275,7 @@ impl<'a> BoundaryReader<io::Cursor<&'a [u8]>> {
 
 impl<R> Borrow<R> for BoundaryReader<R> {
     fn borrow(&self) -> &R {
-        self.source.get_ref()
+        &self.source.get_ref().reader
     }
 }
 
-- 
2.43.0


From 8c8fbae619ac65bf761359da62f7f52f2829560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 20/24] fix: SaveResult::into_result_strict returns an error
 for every partial result

---
 src/server/save.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index d96870a..33aa452 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -976,7 +976,9 @@ impl<S, P> SaveResult<S, P> where P: Into<S> {
         match self {
             Full(entries) => Ok(entries),
             Partial(_, PartialReason::IoError(e)) | Error(e) => Err(e),
-            Partial(partial, _) => Ok(partial.into()),
+            Partial(_, reason) => Err(io::Error::new(
+                io::ErrorKind::Other, format!("save operation quit partway through: {:?}", reason)
+            )),
         }
     }
 }
-- 
2.43.0


From 0590c06fb7c0acc366d0630459d96cd41c079ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 21/24] fix: with_dir creates the save directory itself

---
 src/server/save.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 33aa452..8da1162 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -271,7 +271,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
     pub fn with_dir<P: Into<PathBuf>>(self, dir: P) -> EntriesSaveResult<M> {
         let dir = dir.into();
 
-        try_start!(create_dir_all(&dir));
+        try_start!(fs::create_dir_all(&dir));
 
         self.with_entries(Entries::new(SaveDir::Perm(dir)))
     }
-- 
2.43.0


From f4abd22f950d99e05509924108e75593bb543a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 22/24] fix: a ';' within quotes does not end a Content-Type
 parameter (tiny_http)

---
 src/server/tiny_http.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index 0626872..ed65921 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -22,7 +22,14 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
             .find(|header| header.field.equiv("Content-Type")))
         .value
         .as_str();
-        let mut parts = content_type.split(';').map(str::trim);
+        // a `;` within quotes does not end a parameter
+        let mut quoted = false;
+        let mut parts = content_type
+            .split(|c: char| {
+                quoted ^= c == '"';
+                c == ';' && !quoted
+            })
+            .map(str::trim);
 
         if !try_opt!(parts.next()).eq_ignore_ascii_case("multipart/form-data") {
             return None;
-- 
2.43.0


From a4154fd4a128632549ab0b920cc83b3ae2e2382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 23/24] fix: a save that cannot write to its file keeps what
 was read to memory

---
 src/server/save.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 8da1162..16e7067 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -39,15 +39,6 @@ macro_rules! try_start (
     )
 );
 
-macro_rules! try_full (
-    ($try:expr) => {
-        match $try {
-            Full(full) => full,
-            other => return other,
-        }
-    }
-);
-
 macro_rules! try_partial (
     ($try:expr) => {
         match $try {
@@ -423,10 +414,12 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
                              else { Partial(bytes.into(), e.into()) },
         };
 
-        let data = try_full!(
-            try_write_all(&bytes, &mut file)
-                .map(move |size| SavedData::File(path, size as u64))
-        );
+        let data = match try_write_all(&bytes, &mut file) {
+            Full(size) => SavedData::File(path, size as u64),
+            // don't lose what was already read from the field
+            Partial(_, reason) => return Partial(bytes.into(), reason),
+            Error(e) => return Partial(bytes.into(), e.into()),
+        };
 
         // the bytes that were already read count towards the limit
         let limit = self.size_limit.saturating_sub(bytes.len() as u64);
-- 
2.43.0


From 0669f16bd1e5729226c68762905fc61c7ffdc563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 24/24] fix: a read of a prepared request doesn't lose data
 when a stream fails

---
 src/client/lazy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 8ba2610..e691f98 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -343,7 +343,8 @@ impl<'d> Read for PreparedFields<'d> {
 
         let mut total_read = 0;
 
-        while total_read < buf.len() && !cursor_at_end(&self.end_boundary) {
+        // don't read on once there is data, it would be lost if that fails
+        while total_read == 0 && !cursor_at_end(&self.end_boundary) {
             let buf = &mut buf[total_read..];
 
             total_read += if !cursor_at_end(&self.text_data) {
-- 
2.43.0

