From b641fcf1b0c4f28216b6748c24ef865c259ee1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 01/20] fix: classify byte 0xFF instead of indexing past the
 byte tables

---
 src/byte.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/byte.rs b/src/byte.rs
index e604a3d..6d8c83a 100644
--- a/src/byte.rs
+++ b/src/byte.rs
@@ -17,7 +17,7 @@
 //! Byte verification functions.
 
 /// Bytes allowed in non-quoted header fields.
-static HEADER_FIELDS: [bool; 255] = [
+static HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -86,12 +86,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes allowed in quoted header fields.
-static QUOTED_HEADER_FIELDS: [bool; 255] = [
+static QUOTED_HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -160,12 +160,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes that are considered tokens.
-static TOKENS: [bool; 255] = [
+static TOKENS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, false,
@@ -234,7 +234,7 @@ false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
-false, false, false, false, false, false, false
+false, false, false, false, false, false, false, false
 
 ];
 
-- 
2.43.0


From 79e56d7dd71c35248933e04e51c5229ed3227baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 02/20] fix: do not read past an empty slice when detecting the
 message type

---
 src/http1/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index e95d2da..b969590 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -482,6 +482,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             });
         }
 
+        exit_if_eos!(self, context);
+
         unsafe {
             if bs_starts_with1!(context, b"H") {
                 if bs_has_bytes!(context, 9) {
-- 
2.43.0


From afbb9496e3ec3fefa3cdb94c133099ea3341bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 03/20] fix: report the whole method when it begins like HTTP/
 and arrives in small pieces

---
 src/http1/parser.rs | 92 +++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 44 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index b969590..c3a8f95 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -560,7 +560,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect2(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect2(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -574,21 +574,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes detected so far are the start of the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"H",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect3(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect3(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -602,21 +603,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes detected so far are the start of the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HT",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect4(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect4(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -630,21 +632,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes detected so far are the start of the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HTT",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect5(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect5(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -658,17 +661,18 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes detected so far are the start of the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HTTP",
+            RequestMethod,
+            request_method
+        );
     }
 
     // ---------------------------------------------------------------------------------------------
-- 
2.43.0


From 14e43979b78cc904207d9420dae0ee599b0d94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:24 +0000
Subject: [PATCH 04/20] fix: end a chunked body whose last chunk has extensions

---
 src/http1/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index c3a8f95..cc7fd7e 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2170,6 +2170,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         bs_next!(context);
 
         if context.byte == b'\n' {
+            if self.length == 0 {
+                // last chunk
+                transition!(
+                    self,
+                    context,
+                    HeaderCr2,
+                    header_cr2
+                );
+            }
+
             transition!(
                 self,
                 context,
-- 
2.43.0


From a8712c1b8e8f0c076f94653c3b7b1e33bbe10bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:58 +0000
Subject: [PATCH 05/20] fix: find a multipart boundary whose CR follows a
 partial boundary

---
 src/http1/parser.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index cc7fd7e..a0436ee 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2538,13 +2538,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
-            // so let's send the data to the callback and get back to parsing
+            // so let's send the data to the callback and get back to parsing this byte, which can
+            // be the start of the boundary
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', context.byte],
+                b"\r\n",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2568,13 +2571,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
-            // so let's send the data to the callback and get back to parsing
+            // so let's send the data to the callback and get back to parsing this byte, which can
+            // be the start of the boundary
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', b'-', context.byte],
+                b"\r\n-",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2859,12 +2865,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        // this byte can be the start of the boundary
+        bs_replay!(context);
+
         callback_transition!(
             self,
             handler,
             context,
             on_multipart_data,
-            &[b'\r', context.byte],
+            b"\r",
             MultipartDataByByte,
             multipart_data_by_byte
         );
-- 
2.43.0


From ddf775e127bcbd962d246f4a063d8b8aabf81ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 06/20] fix: count the last bytes of a URL encoded body once

---
 src/http1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index a0436ee..5ca8f26 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -298,6 +298,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                         self.state          = ParserState::BodyFinished;
                         self.state_function = Parser::body_finished;
 
+                        // these bytes are counted again below
+                        self.byte_count -= length;
+
                         self.parse(&mut handler, &mut context)
                     } else {
                         self.length -= length;
-- 
2.43.0


From 1bd7fe137992a87fc811efbf24e2fc6e3ea47567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:31 +0000
Subject: [PATCH 07/20] fix: accept percent-encoded bytes in query names

---
 src/util/query.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/query.rs b/src/util/query.rs
index b863296..c6f7bc9 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -200,11 +200,13 @@ impl<'a> Iterator for QueryIterator<'a> {
                                 self.context,
                                 QueryError::Name
                             ));
-                        } else if bs_has_bytes!(self.context, 1) {
-                            bs_next!(self.context);
-                        }
+                        } else {
+                            if bs_has_bytes!(self.context, 1) {
+                                bs_next!(self.context);
+                            }
 
-                        submit_error!(self, QueryError::Name);
+                            submit_error!(self, QueryError::Name);
+                        }
                     },
                     b'+' => {
                         self.name.push(b' ');
-- 
2.43.0


From 6429fcf2f8133c00d6a0b8ab23c23a4895f3268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:51 +0000
Subject: [PATCH 08/20] fix: end query iteration after an invalid hex sequence

---
 src/collect.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/collect.rs b/src/collect.rs
index 2b93e1c..298c401 100644
--- a/src/collect.rs
+++ b/src/collect.rs
@@ -95,9 +95,7 @@ macro_rules! collect_hex8_iter {
             } else if b'`' < $context.byte && $context.byte < b'g' {
                 ($context.byte - 0x57) << 4
             } else {
-                (*$iter.on_error)($error($context.byte));
-
-                return None;
+                submit_error!($iter, $error);
             } as u8
         )
         +
@@ -112,9 +110,7 @@ macro_rules! collect_hex8_iter {
                 } else if b'`' < $context.byte && $context.byte < b'g' {
                     $context.byte - 0x57
                 } else {
-                    (*$iter.on_error)($error($context.byte));
-
-                    return None;
+                    submit_error!($iter, $error);
                 } as u8
             )
         }
-- 
2.43.0


From bbe769781b447a4042c4b8f4a7f123be23c5cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:52 +0000
Subject: [PATCH 09/20] fix: end a quoted field value at the delimiter that
 follows it

---
 src/util/field.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 8f26600..94e799b 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -237,12 +237,6 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     submit_name_value!(self)
                                 );
 
-                                if bs_available!(self.context) == 0 {
-                                    submit_name_value!(self);
-                                }
-
-                                bs_next!(self.context);
-
                                 if self.context.byte == self.delimiter {
                                     submit_name_value!(self);
                                 }
-- 
2.43.0


From 8049736a83cf9d3353505462f931fd653eb3071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 10/20] fix: keep field names that end with an upper-case byte
 or a slash

---
 src/util/field.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 94e799b..2fc071c 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -169,17 +169,17 @@ impl<'a> Iterator for FieldIterator<'a> {
         self.name.clear();
         self.value.clear();
 
-        loop {
-            // parsing name
-            consume_linear_space!(
-                self.context,
+        consume_linear_space!(
+            self.context,
 
-                // on end-of-stream
-                return None
-            );
+            // on end-of-stream
+            return None
+        );
 
-            bs_replay!(self.context);
+        bs_replay!(self.context);
 
+        loop {
+            // parsing name
             bs_mark!(self.context);
 
             collect_tokens!(
-- 
2.43.0


From 979600cbbf93ca59152e8c94bd6d7e2c185e351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:55 +0000
Subject: [PATCH 11/20] fix: report a field value ending in a backslash as a
 value error

---
 src/util/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 2fc071c..ba3027d 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -246,7 +246,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                             } else if self.context.byte == b'\\' {
                                 // found backslash
                                 if bs_is_eos!(self.context) {
-                                    submit_error!(self, FieldError::Name);
+                                    submit_error!(self, FieldError::Value);
                                 }
 
                                 self.value.extend_from_slice(bs_slice_ignore!(self.context));
-- 
2.43.0


From 955c748e73ef51694977abe958427461d03cc021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:28 +0000
Subject: [PATCH 12/20] fix: report decoded text that is not valid UTF-8 as an
 error

---
 src/util/decode.rs | 17 ++++++-----
 src/util/field.rs  | 19 +++++++-----
 src/util/mod.rs    | 73 +++++++++++++++++++++++-----------------------
 src/util/query.rs  |  9 +++---
 4 files changed, 62 insertions(+), 56 deletions(-)

diff --git a/src/util/decode.rs b/src/util/decode.rs
index e7b8fc1..06807d1 100644
--- a/src/util/decode.rs
+++ b/src/util/decode.rs
@@ -17,6 +17,7 @@
 use byte_slice::ByteStream;
 
 use std::fmt;
+use util::into_string;
 
 /// Decoding errors.
 pub enum DecodeError {
@@ -96,13 +97,13 @@ impl fmt::Display for DecodeError {
 /// ```
 pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
     macro_rules! submit {
-        ($string:expr, $slice:expr) => (unsafe {
-            $string.as_mut_vec().extend_from_slice($slice);
+        ($bytes:expr, $slice:expr) => ({
+            $bytes.extend_from_slice($slice);
         });
     }
 
     let mut context = ByteStream::new(encoded);
-    let mut string  = String::new();
+    let mut bytes   = Vec::new();
 
     loop {
         bs_mark!(context);
@@ -117,22 +118,22 @@ pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
             // on end-of-stream
             {
                 if context.mark_index < context.stream_index {
-                    submit!(string, bs_slice!(context));
+                    submit!(bytes, bs_slice!(context));
                 }
 
-                return Ok(string);
+                return into_string(&bytes).map_err(DecodeError::Byte);
             }
         );
 
         if bs_slice_length!(context) > 1 {
-            submit!(string, bs_slice_ignore!(context));
+            submit!(bytes, bs_slice_ignore!(context));
         }
 
         if context.byte == b'+' {
-            submit!(string, b" ");
+            submit!(bytes, b" ");
         } else if context.byte == b'%' {
             if bs_has_bytes!(context, 2) {
-                submit!(string, &[
+                submit!(bytes, &[
                     collect_hex8!(context, DecodeError::HexSequence)
                 ]);
             } else {
diff --git a/src/util/field.rs b/src/util/field.rs
index ba3027d..e4d97aa 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -18,6 +18,7 @@ use byte::{ is_header_field, is_quoted_header_field, is_token };
 
 use byte_slice::ByteStream;
 use std::fmt;
+use util::into_string;
 
 /// Field errors.
 pub enum FieldError {
@@ -198,7 +199,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.name.extend_from_slice(bs_slice!(self.context));
                     }
 
-                    submit_name!(self);
+                    submit_name!(self, FieldError::Name);
                 }
             );
 
@@ -210,7 +211,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.context,
 
                         // on end-of-stream
-                        submit_name!(self)
+                        submit_name!(self, FieldError::Name)
                     );
 
                     if self.context.byte == b'"' {
@@ -234,11 +235,11 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.context,
 
                                     // on end-of-stream
-                                    submit_name_value!(self)
+                                    submit_name_value!(self, FieldError::Name, FieldError::Value)
                                 );
 
                                 if self.context.byte == self.delimiter {
-                                    submit_name_value!(self);
+                                    submit_name_value!(self, FieldError::Name, FieldError::Value);
                                 }
 
                                 // expected a semicolon to end the value
@@ -279,17 +280,19 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.value.extend_from_slice(bs_slice!(self.context));
                                 }
 
-                                submit_name_value!(self);
+                                submit_name_value!(self, FieldError::Name, FieldError::Value);
                             }
                         );
 
                         if bs_slice_length!(self.context) == 0 {
                             // name without a value
-                            submit_name!(self);
+                            submit_name!(self, FieldError::Name);
                         }
 
                         if self.context.byte == self.delimiter {
-                            submit_name_value!(self.name, bs_slice_ignore!(self.context));
+                            self.value.extend_from_slice(bs_slice_ignore!(self.context));
+
+                            submit_name_value!(self, FieldError::Name, FieldError::Value);
                         } else {
                             bs_jump!(self.context, bs_available!(self.context));
 
@@ -305,7 +308,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                 },
                 byte if byte == self.delimiter => {
                     // name without a value
-                    submit_name!(self);
+                    submit_name!(self, FieldError::Name);
                 },
                 byte if byte > 0x40 && byte < 0x5B => {
                     // upper-cased byte, let's lower-case it
diff --git a/src/util/mod.rs b/src/util/mod.rs
index ca22235..52cb592 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -16,6 +16,8 @@
 
 //! Utility functions for handling encoded data, query strings, and header fields.
 
+use std::str;
+
 macro_rules! submit_error {
     ($iter:expr, $error:expr) => ({
         bs_jump!($iter.context, bs_available!($iter.context));
@@ -27,52 +29,51 @@ macro_rules! submit_error {
 }
 
 macro_rules! submit_name {
-    ($iter:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            None
-        ));
+    ($iter:expr, $name_error:expr) => ({
+        return Some((submit_text!($iter, $iter.name, $name_error), None));
     });
 }
+
 macro_rules! submit_name_value {
-    ($name:expr, $value:expr) => ({
+    ($iter:expr, $name_error:expr, $value_error:expr) => ({
         return Some((
-            unsafe {
-                let mut s = String::with_capacity($name.len());
-
-                s.as_mut_vec().extend_from_slice(&$name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($value.len());
-
-                s.as_mut_vec().extend_from_slice(&$value);
-                Some(s)
-            }
+            submit_text!($iter, $iter.name, $name_error),
+            Some(submit_text!($iter, $iter.value, $value_error))
         ));
     });
+}
 
-    ($iter:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
+macro_rules! submit_text {
+    ($iter:expr, $bytes:expr, $error:expr) => (
+        match into_string(&$bytes) {
+            Ok(string) => string,
+            Err(byte) => {
+                bs_jump!($iter.context, bs_available!($iter.context));
 
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($iter.value.len());
+                (*$iter.on_error)($error(byte));
 
-                s.as_mut_vec().extend_from_slice(&$iter.value);
-                Some(s)
+                return None;
             }
-        ));
-    });
+        }
+    );
+}
+
+/// Convert bytes into a `String`.
+///
+/// # Arguments
+///
+/// **`bytes`**
+///
+/// The bytes.
+///
+/// # Errors
+///
+/// The first byte that is not valid UTF-8.
+fn into_string(bytes: &[u8]) -> Result<String, u8> {
+    match str::from_utf8(bytes) {
+        Ok(string) => Ok(string.to_string()),
+        Err(error) => Err(bytes[error.valid_up_to()])
+    }
 }
 
 // -------------------------------------------------------------------------------------------------
diff --git a/src/util/query.rs b/src/util/query.rs
index c6f7bc9..87122d1 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -16,6 +16,7 @@
 
 use byte_slice::ByteStream;
 use std::fmt;
+use util::into_string;
 
 /// Query errors.
 pub enum QueryError {
@@ -184,7 +185,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.name.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name!(self);
+                        submit_name!(self, QueryError::Name);
                     }
                 );
 
@@ -226,7 +227,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name without a value
-                        submit_name!(self);
+                        submit_name!(self, QueryError::Name);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
@@ -257,7 +258,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.value.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError::Name, QueryError::Value);
                     }
                 );
 
@@ -287,7 +288,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name with a value
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError::Name, QueryError::Value);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
-- 
2.43.0


From 8bfd0710cbf0dcf0e7ca07849714ca7ab4aba99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:42 +0000
Subject: [PATCH 13/20] fix: keep the first bytes of a stream id that arrives
 in pieces

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5a926fe..29aaf96 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -411,7 +411,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 16;
+        self.bit_data32b |= (get_u8!(context) as u32) << 16;
 
         transition!(
             self,
@@ -426,7 +426,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 8;
+        self.bit_data32b |= (get_u8!(context) as u32) << 8;
 
         transition!(
             self,
-- 
2.43.0


From 5868c9863652021c2ba78d1cb50818e45100a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:44 +0000
Subject: [PATCH 14/20] fix: read all four bytes of a GOAWAY stream id that
 arrives in pieces

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 29aaf96..2d772e4 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -658,8 +658,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            GoAwayStreamId3,
-            go_away_stream_id3
+            GoAwayStreamId4,
+            go_away_stream_id4
         );
     }
 
-- 
2.43.0


From fe6880a42f009f417e85c20a2b6c4f18995b6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:45 +0000
Subject: [PATCH 15/20] fix: read all four bytes of a setting value that
 arrives in pieces

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 2d772e4..41515a7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1388,8 +1388,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            SettingsValue3,
-            settings_value3
+            SettingsValue4,
+            settings_value4
         );
     }
 
-- 
2.43.0


From 219807f8abc8cb97f79556e778674c4eeae4b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:47 +0000
Subject: [PATCH 16/20] fix: clear the reserved bit of promised stream ids and
 window increments

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 41515a7..18fa6d3 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1174,7 +1174,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
-        if handler.on_push_promise(self.bit_data32b) {
+        if handler.on_push_promise(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
@@ -1508,7 +1508,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        if handler.on_window_update(self.bit_data32b) {
+        if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
-- 
2.43.0


From aca06c3a038e894220fdf47c8f26dd9f7d746935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 17/20] fix: reject HTTP/2 frames too short for their fixed
 fields and padding

---
 src/http2/parser.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 18fa6d3..0f73316 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -47,6 +47,15 @@ macro_rules! actual_length {
     });
 }
 
+/// Exit with `ParserError` if the frame payload cannot hold the padding and `$length` more bytes.
+macro_rules! check_payload_length {
+    ($parser:expr, $length:expr) => ({
+        if payload_length!($parser) < pad_length!($parser) + $length {
+            exit_error!(Dead);
+        }
+    });
+}
+
 /// Decrease payload length.
 macro_rules! dec_payload_length {
     ($parser:expr, $length:expr) => ({
@@ -578,6 +587,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         self.bit_data32a |= get_u8!(context) as u32;
 
+        check_payload_length!(self, 1);
         dec_payload_length!(self, 1);
 
         transition!(
@@ -755,6 +765,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        check_payload_length!(self, 8);
         dec_payload_length!(self, 8);
 
         if payload_length!(self) > 0 {
@@ -797,6 +808,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         self.bit_data32a |= get_u8!(context) as u32;
 
+        check_payload_length!(self, 1);
         dec_payload_length!(self, 1);
 
         transition!(
@@ -814,6 +826,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         self.bit_data32a |= get_u8!(context) as u32;
 
+        check_payload_length!(self, 1);
         dec_payload_length!(self, 1);
 
         transition!(
@@ -905,6 +918,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         self.bit_data16a = (get_u8!(context) as u16) << 8;
 
         // decrease payload by stream id (4) and weight (1)
+        check_payload_length!(self, 5);
         dec_payload_length!(self, 5);
 
         transition!(
@@ -1083,6 +1097,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         self.bit_data32a |= get_u8!(context) as u32;
 
+        check_payload_length!(self, 1);
         dec_payload_length!(self, 1);
 
         transition!(
@@ -1172,6 +1187,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
 
         // decrease payload by stream id (4)
+        check_payload_length!(self, 4);
         dec_payload_length!(self, 4);
 
         if handler.on_push_promise(self.bit_data32b & 0x7FFFFFFF) {
@@ -1536,6 +1552,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         self.bit_data32a |= get_u8!(context) as u32;
 
+        check_payload_length!(self, 1);
         dec_payload_length!(self, 1);
 
         transition!(
-- 
2.43.0


From a373184a3258081120621364832cf130a465958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:22 +0000
Subject: [PATCH 18/20] fix: do not read settings from an empty SETTINGS frame

---
 src/http2/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 0f73316..2d435f7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -500,7 +500,12 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 set_state!(self, RstStreamErrorCode1, rst_stream_error_code1);
             },
             FR_SETTINGS => {
-                set_state!(self, SettingsId1, settings_id1);
+                if payload_length!(self) > 0 {
+                    set_state!(self, SettingsId1, settings_id1);
+                } else {
+                    // an acknowledgement has no settings
+                    set_state!(self, FrameLength1, frame_length1);
+                }
             },
             FR_PUSH_PROMISE => {
                 if has_flag!(self, FL_PADDED) {
-- 
2.43.0


From 19b65c59d864d47283398eca92df7d983c46ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:24 +0000
Subject: [PATCH 19/20] fix: report empty payloads and push promises without
 waiting for the next frame

---
 src/http2/parser.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 2d435f7..e55cdda 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -97,6 +97,10 @@ macro_rules! payload_length {
 /// Parse payload data.
 macro_rules! parse_payload_data {
     ($parser:expr, $handler:expr, $context:expr, $callback:ident) => ({
+        if actual_length!($parser) > 0 {
+            exit_if_eos!($parser, $context);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
@@ -606,8 +610,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn data_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -792,8 +794,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_debug_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -961,8 +961,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_fragment(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -978,8 +976,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn ping_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -1189,8 +1185,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         // decrease payload by stream id (4)
         check_payload_length!(self, 4);
         dec_payload_length!(self, 4);
@@ -1571,8 +1565,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn unsupported_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
-- 
2.43.0


From cd16f41828eb4afc4e0037a279b270d24644b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 20/20] fix: let settings and frame formats be constructed

---
 src/http2/frame_format.rs | 2 +-
 src/http2/setting.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/frame_format.rs b/src/http2/frame_format.rs
index 2b407b1..c365311 100644
--- a/src/http2/frame_format.rs
+++ b/src/http2/frame_format.rs
@@ -29,7 +29,7 @@ pub struct FrameFormat {
 
 impl FrameFormat {
     /// Create a new `FrameFormat`.
-    pub fn new(&mut self, payload_length: u32, frame_type: u8, flags: u8, stream_id: u32)
+    pub fn new(payload_length: u32, frame_type: u8, flags: u8, stream_id: u32)
     -> FrameFormat {
         FrameFormat{
             flags:                     flags,
diff --git a/src/http2/setting.rs b/src/http2/setting.rs
index 7c86b9a..4cc0533 100644
--- a/src/http2/setting.rs
+++ b/src/http2/setting.rs
@@ -60,7 +60,7 @@ pub enum Setting {
 
 impl Setting {
     /// Create a new `Setting`.
-    pub fn new(&mut self, id: u16, value: u32) -> Setting {
+    pub fn new(id: u16, value: u32) -> Setting {
         match id {
             S_HEADER_TABLE_SIZE      => Setting::HeaderTableSize(value),
             S_ENABLE_PUSH            => Setting::EnablePush(value),
-- 
2.43.0

