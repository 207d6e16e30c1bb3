From e507b326c66c7c62bf831aa504d4c887ba203caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 01/16] fix: track JSON string escapes one character at a time

---
 src/json/json_minifier.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index ad9fae2..3d9f6ab 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -32,16 +32,16 @@ pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&ch
 fn is_whitespace_outside_string(
     minifier: &mut JsonMinifier,
     item1: &char,
-    item2: Option<&char>,
+    _item2: Option<&char>,
 ) -> bool {
     if !minifier.is_string && item1.eq(&'"') {
         minifier.is_string = true;
     } else if minifier.is_string {
-        if item1.eq(&'\\') && item2.eq(&Some(&'"')) {
-            minifier.escaped_quotation = 4;
-        }
         if minifier.escaped_quotation > 0 {
-            minifier.escaped_quotation -= 1;
+            // This character is escaped by the backslash before it.
+            minifier.escaped_quotation = 0;
+        } else if item1.eq(&'\\') {
+            minifier.escaped_quotation = 1;
         } else if item1.eq(&'"') {
             minifier.is_string = false;
         }
-- 
2.43.0


From e829ddc2fb962e3199da7e5408c2382e8cd1f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 02/16] fix: keep DEL characters inside JSON strings

---
 src/json/json_minifier.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index 3d9f6ab..fd9a60c 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -23,8 +23,9 @@ impl JsonMinifier {
 
 #[inline]
 pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> bool {
-    let remove_element =
-        item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1, item2);
+    let remove_element = is_whitespace_outside_string(minifier, item1, item2)
+        // A DEL character is allowed (and significant) inside a JSON string.
+        || (item1.is_ascii_control() && !(minifier.is_string && item1.eq(&'\u{7f}')));
     !remove_element
 }
 
-- 
2.43.0


From dd90b575ac00cc6f06689bd262bb8e06ade63e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 03/16] fix: do not take a short read for the end of the JSON
 stream

---
 src/json/read/internal_buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 90eebcd..abd6060 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -6,7 +6,6 @@ const ARRAY_DEFAULT: u8 = 0;
 pub struct Buffer {
     buffer: Vec<u8>,
     read_pos: usize,
-    buffer_size: usize,
     data_size: usize,
 }
 
@@ -15,7 +14,6 @@ impl Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
             read_pos: 0,
-            buffer_size: size,
             data_size: 0,
         }
     }
@@ -39,6 +37,8 @@ impl Buffer {
     }
 
     pub fn cont(&self) -> bool {
-        self.data_size == self.buffer_size
+        // Only an empty read is the end of the stream: a reader is allowed to return less data
+        // than what was asked.
+        self.data_size > 0
     }
 }
-- 
2.43.0


From 2bca90ec4ce6d918fc4f9ea9f0d364924e6c4f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 04/16] fix: return the reader's own error when streaming JSON

---
 src/json/read/internal_reader.rs | 9 +++++++--
 src/json/read/json_read.rs       | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index 45f178f..0cf2011 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -3,7 +3,7 @@
 use super::internal_buffer::Buffer;
 use std::{
     fmt,
-    io::{Error, Read},
+    io::{Error, ErrorKind, Read},
 };
 
 pub struct InternalReader<R> {
@@ -24,7 +24,12 @@ impl<R: Read> InternalReader<R> {
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
-        let size = read.read(buffer.as_mut())?;
+        let size = loop {
+            match read.read(buffer.as_mut()) {
+                Err(ref err) if err.kind() == ErrorKind::Interrupted => {}
+                res => break res?,
+            }
+        };
         buffer.update_metadata(size);
         Ok(())
     }
diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 338db13..e5b65fc 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -100,7 +100,10 @@ where
 }
 
 impl From<CharsError> for Error {
-    fn from(_: CharsError) -> Self {
-        Error::from(ErrorKind::InvalidData)
+    fn from(err: CharsError) -> Self {
+        match err {
+            CharsError::NotUtf8 => Error::from(ErrorKind::InvalidData),
+            CharsError::Other(err) => err,
+        }
     }
 }
-- 
2.43.0


From 887d9fd940fb5e89fd89d072fddb6fec5e8c3c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 05/16] fix: do not panic when reading JSON again after a
 failed first read

---
 src/json/read/byte_to_char.rs    |  8 ++++----
 src/json/read/internal_buffer.rs |  5 ++++-
 src/json/read/internal_reader.rs | 10 ++++------
 src/json/read/json_read.rs       |  4 +++-
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/json/read/byte_to_char.rs b/src/json/read/byte_to_char.rs
index a1ca6ec..c3df98a 100644
--- a/src/json/read/byte_to_char.rs
+++ b/src/json/read/byte_to_char.rs
@@ -13,10 +13,10 @@ pub struct ByteToChar<R> {
 
 impl<R: Read> ByteToChar<R> {
     #[inline]
-    pub fn new(read: R, buffer_size: usize) -> Result<Self, Error> {
-        Ok(ByteToChar {
-            iter: InternalReader::new(read, buffer_size)?,
-        })
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        ByteToChar {
+            iter: InternalReader::new(read, buffer_size),
+        }
     }
 
     fn get_next(&mut self) -> Result<Option<u8>, CharsError> {
diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index abd6060..be39a4d 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -7,6 +7,7 @@ pub struct Buffer {
     buffer: Vec<u8>,
     read_pos: usize,
     data_size: usize,
+    end: bool,
 }
 
 impl Buffer {
@@ -15,6 +16,7 @@ impl Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
             read_pos: 0,
             data_size: 0,
+            end: false,
         }
     }
 
@@ -25,6 +27,7 @@ impl Buffer {
     pub fn update_metadata(&mut self, size: usize) {
         self.read_pos = 0;
         self.data_size = size;
+        self.end = size == 0;
     }
 
     pub fn next(&mut self) -> Option<u8> {
@@ -39,6 +42,6 @@ impl Buffer {
     pub fn cont(&self) -> bool {
         // Only an empty read is the end of the stream: a reader is allowed to return less data
         // than what was asked.
-        self.data_size > 0
+        !self.end
     }
 }
diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index 0cf2011..f90b1fa 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -13,14 +13,12 @@ pub struct InternalReader<R> {
 }
 
 impl<R: Read> InternalReader<R> {
-    pub fn new(mut read: R, buffer_size: usize) -> Result<Self, Error> {
-        let mut buffer = Buffer::new(buffer_size);
-        InternalReader::read_data(&mut read, &mut buffer)?;
-        Ok(InternalReader {
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        InternalReader {
             read,
             buffer_size,
-            buffer,
-        })
+            buffer: Buffer::new(buffer_size),
+        }
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index e5b65fc..d614a96 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -80,7 +80,9 @@ where
         }
 
         if !self.initialized {
-            self.iter = Some(ByteToChar::new(self.read.take().unwrap(), buf.len())?);
+            if let Some(read) = self.read.take() {
+                self.iter = Some(ByteToChar::new(read, buf.len()));
+            }
             self.item1 = self.get_next()?;
             self.initialized = true;
         }
-- 
2.43.0


From 129117c0f7f6369a0ffc7fae2041f8a986fc91e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 06/16] fix: deliver every byte of a character split between
 two output buffers

---
 src/json/read/json_read.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index d614a96..37f48a4 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -87,15 +87,19 @@ where
             self.initialized = true;
         }
 
-        while let Some(item) = self.item1.take() {
+        // Deliver what is left of a character which didn't fit into the previous buffer.
+        self.add_char_to_buffer(buf, &mut buf_pos);
+
+        while buf_pos < buf.len() {
+            let item = match self.item1.take() {
+                Some(item) => item,
+                None => break,
+            };
             self.item1 = self.get_next()?;
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
                 self.item_iter = Some(item.to_string().into_bytes().into_iter());
                 self.add_char_to_buffer(buf, &mut buf_pos);
             }
-            if buf_pos >= buf.len() {
-                break;
-            }
         }
         Ok(buf_pos)
     }
-- 
2.43.0


From 3ae46d5af2bfebab02dd778f2d6284335d76af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 07/16] fix: end a JavaScript line comment at the end of the
 source

---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 1241141..11a352f 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -557,7 +557,10 @@ fn get_line_comment<'a>(
             }
         }
     }
-    None
+    // The last line of a source may not end with a line break.
+    let ret = Some(Token::Comment(&source[*start_pos..]));
+    *start_pos = source.len();
+    ret
 }
 
 fn get_regex<'a>(
-- 
2.43.0


From b1c9489f561e710779c12b83a0ce3d01f92cf69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 08/16] fix: do not slice inside the last character of an
 unclosed JavaScript comment

---
 src/js/token.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 11a352f..3fa0124 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -650,12 +650,12 @@ fn get_comment<'a>(
         Token::Comment
     };
 
-    let mut current_pos = *start_pos;
+    // Unclosed comment so returning it anyway...
+    let mut end_pos = source.len();
     for (pos, c) in iterator {
-        current_pos = pos;
         if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Slash && prev == ReservedChar::Star {
-                current_pos -= 2;
+                end_pos = pos - 1;
                 break;
             }
             prev = c;
@@ -663,10 +663,8 @@ fn get_comment<'a>(
             prev = ReservedChar::Space;
         }
     }
-    // Unclosed comment so returning it anyway...
-    current_pos = std::cmp::min(current_pos, source.len() - 1);
-    let ret = builder(&source[*start_pos..=current_pos]);
-    *start_pos = current_pos + 2;
+    let ret = builder(&source[*start_pos..end_pos]);
+    *start_pos = end_pos + 1;
     ret
 }
 
-- 
2.43.0


From 94bab571e606d5e7cb3844208a5bc6bf3b6f326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 09/16] fix: resume at the right character after a slash which
 starts no regex

---
 src/js/token.rs | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 3fa0124..26ec3a3 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -846,50 +846,38 @@ fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, sour
 
 struct MyPeekable<'a> {
     inner: CharIndices<'a>,
-    saved: Vec<(usize, char)>,
+    saved: Option<(CharIndices<'a>, Option<(usize, char)>)>,
     peeked: Option<(usize, char)>,
-    is_saving: bool,
 }
 
 impl<'a> MyPeekable<'a> {
     fn new(indices: CharIndices<'a>) -> MyPeekable<'a> {
         MyPeekable {
             inner: indices,
-            saved: Vec::with_capacity(500),
+            saved: None,
             peeked: None,
-            is_saving: false,
         }
     }
 
     fn start_save(&mut self) {
-        self.is_saving = true;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
-        }
+        self.saved = Some((self.inner.clone(), self.peeked));
     }
 
     fn drop_save(&mut self) {
-        self.is_saving = false;
-        self.saved.clear();
+        self.saved = None;
     }
 
+    /// Goes back to where `start_save` was called.
     fn stop_save(&mut self) {
-        self.is_saving = false;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
+        if let Some((inner, peeked)) = self.saved.take() {
+            self.inner = inner;
+            self.peeked = peeked;
         }
-        self.peeked = None;
     }
 
-    /// Returns None if saving.
     fn peek(&mut self) -> Option<(usize, char)> {
         if self.peeked.is_none() {
             self.peeked = self.inner.next();
-            if self.is_saving {
-                if let Some(p) = self.peeked {
-                    self.saved.push(p);
-                }
-            }
         }
         self.peeked
     }
@@ -902,16 +890,7 @@ impl Iterator for MyPeekable<'_> {
         if self.peeked.is_some() {
             self.peeked.take()
         } else {
-            if !self.is_saving && !self.saved.is_empty() {
-                return Some(self.saved.remove(0));
-            }
-            match self.inner.next() {
-                Some(r) if self.is_saving => {
-                    self.saved.push(r);
-                    Some(r)
-                }
-                r => r,
-            }
+            self.inner.next()
         }
     }
 }
-- 
2.43.0


From 406446013834c2076e388c4d8bedd5452d71b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 10/16] fix: keep the leading zeros of JavaScript numbers

---
 src/js/token.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 26ec3a3..30f9508 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -767,7 +767,11 @@ fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: us
     if start < pos {
         if let Ok(w) = Keyword::try_from(&source[start..pos]) {
             v.push(Token::Keyword(w));
-        } else if let Ok(n) = usize::from_str(&source[start..pos]) {
+        } else if let (Ok(n), false) = (
+            usize::from_str(&source[start..pos]),
+            // Leading zeros would be lost and they change the value.
+            pos - start > 1 && source[start..pos].starts_with('0'),
+        ) {
             v.push(Token::Number(n))
         } else if f64::from_str(&source[start..pos]).is_ok() {
             v.push(Token::FloatingNumber(&source[start..pos]))
-- 
2.43.0


From 2541555b6592d252f93dc681eeaaee18bed8e9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 11/16] fix: keep JavaScript words apart from the names created
 by aggregation and from numbers

---
 src/js/token.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 30f9508..6035131 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -528,6 +528,7 @@ impl Token<'_> {
             Token::Keyword(_)
             | Token::Other(_)
             | Token::CreatedVarDecl(_)
+            | Token::CreatedVar(_)
             | Token::Number(_)
             | Token::FloatingNumber(_) => Some(' '),
             _ => None,
@@ -1010,8 +1011,7 @@ macro_rules! tokens_writer {
         for i in 0..tokens.len() {
             if i > 0
                 && tokens[i].requires_before()
-                && !tokens[i - 1].is_keyword()
-                && !tokens[i - 1].is_other()
+                && tokens[i - 1].get_required().is_none()
                 && !tokens[i - 1].is_reserved_char()
                 && !tokens[i - 1].is_string()
             {
@@ -1019,7 +1019,14 @@ macro_rules! tokens_writer {
             }
             write!($w, "{}", tokens[i])?;
             if let Some(c) = match tokens[i] {
-                Token::Keyword(_) | Token::Other(_) if i + 1 < tokens.len() => {
+                Token::Keyword(_)
+                | Token::Other(_)
+                | Token::CreatedVarDecl(_)
+                | Token::CreatedVar(_)
+                | Token::Number(_)
+                | Token::FloatingNumber(_)
+                    if i + 1 < tokens.len() =>
+                {
                     tokens[i + 1].get_required()
                 }
                 _ => None,
-- 
2.43.0


From ec6e97d309e62ed7f222f8367706c3d2c4e2d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 12/16] fix: never aggregate JavaScript strings under a name
 the program already uses

---
 src/js/tools.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index d264c7c..fc36ace 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -206,10 +206,7 @@ impl fmt::Display for Minified<'_> {
 }
 
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
-fn get_variables_name<'a>(
-    tokens: &'a Tokens<'a>,
-) -> (HashSet<&'a str>, HashMap<&'a str, (usize, usize)>) {
-    let mut ret = HashSet::new();
+fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, usize)> {
     let mut variables = HashMap::new();
     let mut pos = 0;
 
@@ -224,7 +221,6 @@ fn get_variables_name<'a>(
                         pos += 1;
                         continue;
                     }
-                    ret.insert(var_name);
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
                     variables.insert(s, (var_pos, value_pos));
@@ -233,7 +229,27 @@ fn get_variables_name<'a>(
         }
         pos += 1;
     }
-    (ret, variables)
+    variables
+}
+
+// A name is used as soon as it appears anywhere, not only when it is declared: it can also be a
+// function, a parameter or a global. Strings count too because of template literals.
+fn get_used_names(tokens: &Tokens<'_>, prefix: &str) -> HashSet<String> {
+    let mut names = HashSet::new();
+
+    for token in tokens.iter() {
+        let text: &str = match token {
+            Token::Other(s) | Token::String(s) => s,
+            Token::CreatedVarDecl(s) | Token::CreatedVar(s) => s,
+            _ => continue,
+        };
+        for word in text.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
+            if word.starts_with(prefix) {
+                names.insert(word.to_owned());
+            }
+        }
+    }
+    names
 }
 
 fn aggregate_strings_inner<'a, 'b: 'a>(
@@ -250,8 +266,9 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         let mut var_gen = VariableNameGenerator::new(Some("r_"), 2);
         let mut next_name = var_gen.to_string();
 
-        let (all_variables, values) = get_variables_name(&tokens);
-        while all_variables.contains(&next_name.as_str()) {
+        let values = get_variables_name(&tokens);
+        let used_names = get_used_names(&tokens, "r_");
+        while used_names.contains(&next_name) {
             var_gen.next();
             next_name = var_gen.to_string();
         }
@@ -278,7 +295,7 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
                         validated.insert(token, next_name.clone());
                         var_gen.next();
                         next_name = var_gen.to_string();
-                        while all_variables.contains(&next_name.as_str()) {
+                        while used_names.contains(&next_name) {
                             var_gen.next();
                             next_name = var_gen.to_string();
                         }
-- 
2.43.0


From c2e5fbe5e0e1286e8ddc4c1b7d8e7c5adef61645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 13/16] fix: declare aggregated JavaScript strings with the
 literal they replace

---
 src/js/tools.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index fc36ace..1d75c27 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -430,6 +430,10 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         let mut array_pos = 0;
         for s in current_array_values.iter() {
             if let Some(st) = tokens.0[*s].get_string() {
+                if st.starts_with('`') {
+                    array_pos += 1;
+                    continue;
+                }
                 strs.insert(&st[1..st.len() - 1], (array_pos, vec![], false));
                 array_pos += 1;
                 validated.insert(&st[1..st.len() - 1]);
@@ -444,7 +448,8 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             }
             let token = &tokens[pos];
             if let Some(str_token) = token.get_string() {
-                if !filter(&tokens, pos) {
+                // The value of a template literal depends on where it is.
+                if str_token.starts_with('`') || !filter(&tokens, pos) {
                     continue;
                 }
                 let s = &str_token[1..str_token.len() - 1];
@@ -510,7 +515,12 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             if !create_array_entry {
                 continue;
             }
-            to_insert.push((end_bracket, Token::CreatedVar(format!("\"{}\"", *s))));
+            let value = if s.contains('"') {
+                tokens[tokens_pos[0]].to_string()
+            } else {
+                format!("\"{}\"", *s)
+            };
+            to_insert.push((end_bracket, Token::CreatedVar(value)));
             if iter.peek().is_none() && current_array_values.is_empty() {
                 continue;
             }
-- 
2.43.0


From ee4f3816508dc365a679290432a179cc8095d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 14/16] fix: find JavaScript regexes after keywords and up to
 their real end

---
 src/js/token.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 6035131..10d464f 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -588,19 +588,32 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
+            // No value can come right before: this slash isn't a division.
+            Token::Keyword(k)
+                if !matches!(
+                    k,
+                    Keyword::This | Keyword::Null | Keyword::True | Keyword::False
+                ) =>
+            {
+                break
+            }
             t if t.is_operation() || t.is_condition() => break,
             _ => return None,
         }
     }
     iterator.start_save();
+    let mut is_in_class = false;
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
             // we skip next character
             iterator.next();
             continue;
+        } else if c == '[' || c == ']' {
+            // A slash doesn't end the regex inside a class.
+            is_in_class = c == '[';
         }
         if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Slash {
+            if c == ReservedChar::Slash && !is_in_class {
                 let mut is_global = false;
                 let mut is_interactive = false;
                 let mut add = 0;
-- 
2.43.0


From 69f0a314a1f84f97faefc3a8e94af2b84bdeada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 15/16] fix: do not truncate the output file before the input
 is minified

---
 src/cli.rs | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 7625228..def50b8 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -111,10 +111,10 @@ impl From<&PathBuf> for FileType {
         if ext.is_none() {
             return Self::Unknown;
         };
-        match ext.unwrap().to_ascii_lowercase().to_str().unwrap() {
-            "css" => Self::Css,
-            "js" => Self::Js,
-            "json" => Self::Json,
+        match ext.unwrap().to_ascii_lowercase().to_str() {
+            Some("css") => Self::Css,
+            Some("js") => Self::Js,
+            Some("json") => Self::Json,
             _ => Self::Unknown,
         }
     }
@@ -123,7 +123,7 @@ impl From<&PathBuf> for FileType {
 pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     let mut file = File::open(file_path)?;
     let mut data = String::new();
-    file.read_to_string(&mut data).unwrap();
+    file.read_to_string(&mut data)?;
     Ok(data)
 }
 
@@ -139,6 +139,19 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     match get_all_data(file_path) {
         Ok(content) => {
+            let minified = match file_ext {
+                FileType::Css => css::minify(&content).map(|m| m.to_string()),
+                FileType::Js => js::minify(&content).map(|m| m.to_string()),
+                FileType::Json => Ok(json::minify(&content).to_string()),
+                FileType::Unknown => Err("unknow file extension..."),
+            };
+            let minified = match minified {
+                Ok(minified) => minified,
+                Err(e) => {
+                    eprintln!("{file_path:?}: {e}");
+                    return;
+                }
+            };
             let out = match out_path {
                 Some(op) => {
                     let mut op = op.clone();
@@ -146,8 +159,13 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                         op.push(file_path);
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
-                    if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-                        std::fs::create_dir_all(op.parent().unwrap()).unwrap();
+                    if let Some(parent) = op.parent() {
+                        if !parent.as_os_str().is_empty() && !parent.is_dir() {
+                            if let Err(e) = std::fs::create_dir_all(parent) {
+                                eprintln!("Impossible to create {parent:?}: {e}");
+                                return;
+                            }
+                        }
                     };
                     op
                 }
@@ -163,17 +181,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 .create(true)
                 .open(&out)
             {
-                let func = |s: &str| -> String {
-                    match file_ext {
-                        FileType::Css => {
-                            css::minify(s).expect("css minification failed").to_string()
-                        }
-                        FileType::Js => js::minify(s).expect("js minification failed").to_string(),
-                        FileType::Json => json::minify(s).to_string(),
-                        FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
-                    }
-                };
-                if let Err(e) = write!(file, "{}", func(&content)) {
+                if let Err(e) = write!(file, "{minified}") {
                     eprintln!("Impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
-- 
2.43.0


From 4eae1dbe55a3eb9aaa6f9f9af0ad17e0beb8d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 16/16] fix: stop rendering a JavaScript regex after a write
 error

---
 src/js/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 10d464f..f269b00 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -395,14 +395,14 @@ impl fmt::Display for Token<'_> {
                 is_global,
                 is_interactive,
             } => {
-                let x = write!(f, "/{regex}/");
+                write!(f, "/{regex}/")?;
                 if is_global {
                     write!(f, "g")?;
                 }
                 if is_interactive {
                     write!(f, "i")?;
                 }
-                x
+                Ok(())
             }
             Token::Condition(x) => write!(f, "{x}"),
             Token::Operation(x) => write!(f, "{x}"),
-- 
2.43.0

