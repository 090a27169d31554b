From 9506cb2077d4487a390063d41976530516671066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 01/14] fix: resolve `with` variables by name across include
 boundaries

The name of a `with` variable was stored as a span and looked up in the
source of whichever template was being rendered. In an included template
that is the wrong source, which resolved the wrong variable or panicked.
---
 src/render/core.rs  | 2 +-
 src/render/stack.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/render/core.rs b/src/render/core.rs
index 91da89e..46f853e 100644
--- a/src/render/core.rs
+++ b/src/render/core.rs
@@ -192,7 +192,7 @@ where
 
                 Instr::WithStart(name) => {
                     let value = expr.take().unwrap();
-                    self.stack.push(State::Var(name, value))
+                    self.stack.push(State::Var(&t.source[name.span], value))
                 }
 
                 Instr::WithEnd => {
diff --git a/src/render/stack.rs b/src/render/stack.rs
index b5f8ec1..81d9b3e 100644
--- a/src/render/stack.rs
+++ b/src/render/stack.rs
@@ -17,7 +17,7 @@ pub enum State<'a> {
     Scope(ValueCow<'a>),
 
     /// A single variable.
-    Var(&'a ast::Ident, ValueCow<'a>),
+    Var(&'a str, ValueCow<'a>),
 
     /// The current state of a loop iteration
     Loop(LoopState<'a>),
@@ -32,7 +32,7 @@ impl std::fmt::Debug for State<'_> {
         match self {
             Self::ValueFn(_) => f.debug_tuple("ValueFn").field(&(..)).finish(),
             Self::Scope(scope) => f.debug_tuple("Scope").field(scope).finish(),
-            Self::Var(ident, value) => f.debug_tuple("Var").field(ident).field(value).finish(),
+            Self::Var(name, value) => f.debug_tuple("Var").field(name).field(value).finish(),
             Self::Loop(state) => f.debug_tuple("Loop").field(state).finish(),
             Self::Boundary => write!(f, "Boundary"),
         }
@@ -82,7 +82,7 @@ impl<'a> Stack<'a> {
                     None => continue,
                 },
 
-                State::Var(name, var) if source[v.first().access.span()] == source[name.span] => {
+                State::Var(name, var) if &source[v.first().access.span()] == *name => {
                     return lookup_path(source, var, v.rest());
                 }
 
@@ -125,7 +125,7 @@ impl<'a> Stack<'a> {
         }
     }
 
-    pub fn pop_var(&mut self) -> (&'a ast::Ident, ValueCow<'a>) {
+    pub fn pop_var(&mut self) -> (&'a str, ValueCow<'a>) {
         match self.stack.pop().unwrap() {
             State::Var(name, value) => (name, value),
             _ => panic!("expected variable"),
-- 
2.43.0


From 9365f3486de72816e0e800c4af997f5c4d3d9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 02/14] fix: optional access on a loop variable yields none

A missing optional segment on a loop variable made the lookup fall through
to the outer scopes instead of evaluating to none.
---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index 8d1c410..b3b6c2d 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -165,7 +165,7 @@ impl<'a> LoopState<'a> {
                 for m in var.rest() {
                     v = match lookup(source, v, m)? {
                         Some(v) => v,
-                        None => return Ok(None),
+                        None => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                     };
                 }
                 v
-- 
2.43.0


From 3074b5ed0f5158261911f1a44d5fc9b0bf36a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 03/14] fix: optional access on `loop` short circuits the rest
 of the path

---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index b3b6c2d..7c3af39 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -268,7 +268,7 @@ impl<'a> LoopState<'a> {
             (_, "index") => Value::Integer(i as i64),
             (_, "first") => Value::Bool(i == 0),
             (_, "last") => Value::Bool(rem == 0),
-            (ast::AccessOp::Optional, _) => Value::None,
+            (ast::AccessOp::Optional, _) => return Ok(Some(ValueCow::Owned(Value::None))),
             (ast::AccessOp::Direct, _) => {
                 return Err(Error::render("not found in map", source, member.span))
             }
-- 
2.43.0


From f99c3966948beb31b8ca6fda5cefbc4e0863fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 04/14] fix: a string literal may end with an escaped backslash

---
 src/compile/lex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index b075b46..425498f 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -367,7 +367,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        let mut curr = '"';
+        let mut escaped = false;
         loop {
             match iter.next() {
                 None => {
@@ -376,11 +376,11 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                 Some((j, '\r' | '\n')) => {
                     return Err(self.err_undelimited_string(i..j));
                 }
-                Some((j, '"')) if curr != '\\' => {
+                Some((j, '"')) if !escaped => {
                     return Ok((Token::String, j + 1));
                 }
                 Some((_, c)) => {
-                    curr = c;
+                    escaped = c == '\\' && !escaped;
                 }
             }
         }
-- 
2.43.0


From d527611f28d859d874d5234d1c927fd1e9f66864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 05/14] fix: trim only the raw text between two tags

With a custom end delimiter that ends in whitespace, trimming before the
next tag could reach into the delimiter and produce an invalid span.
---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 425498f..a61e70d 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -173,7 +173,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
 
         let mut trim_raw_token = |mut i, mut j, right_trim| {
             if right_trim {
-                j = self.source[..j].trim_end().len();
+                j = i + self.source[i..j].trim_end().len();
             }
             if self.left_trim {
                 self.left_trim = false;
-- 
2.43.0


From e413375f749dfcd230644eebe1ba520e0b7fed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 06/14] fix: allow an empty comment

---
 src/compile/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 363e24d..8782d68 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -117,7 +117,9 @@ impl<'engine, 'source> Parser<'engine, 'source> {
 
                 // The start of a comment, e.g. `{# ... #}`
                 (Token::BeginComment, _) => {
-                    self.expect(Token::Raw)?;
+                    if self.is_next(Token::Raw)? {
+                        self.expect(Token::Raw)?;
+                    }
                     self.expect(Token::EndComment)?;
                     continue;
                 }
-- 
2.43.0


From 882020914b78d54d99f31b7ead26085bb3538547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 07/14] fix: point at the invalid digit of a signed integer
 literal

---
 src/compile/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 8782d68..81615b0 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -684,7 +684,7 @@ impl<'engine, 'source> Parser<'engine, 'source> {
             .filter(|(_, &d)| d != b'_')
             .try_fold(0i64, |acc, (j, &d)| {
                 let x = (d as char).to_digit(radix).ok_or_else(|| {
-                    let m = span.m + i + j;
+                    let m = span.n - raw.len() + i + j;
                     Error::syntax(
                         format!("invalid digit for base {radix} literal"),
                         self.source(),
-- 
2.43.0


From e86fb35d6877d3c003c68fb9c480e48db5608263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 08/14] fix: a number may follow a keyword that ends a path

In `{% for n in 5 | range %}` the literal was lexed as a list index.
---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index a61e70d..c23cd3e 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -292,7 +292,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
             (BlockState::Unknown, Token::Ident) => {
                 self.state = State::BlockPath { begin, end };
             }
-            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon) => {
+            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon | Token::Keyword) => {
                 self.state = State::Block { begin, end };
             }
             _ => {}
-- 
2.43.0


From 5b6a788622ff2bb0016ed4a6956b07bb2922ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 09/14] fix: a number literal may be directly followed by a
 trimming end tag

In `{{ 5-}}` the number token swallowed the hyphen of the end tag.
---
 src/compile/lex.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index c23cd3e..d7ff33a 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -275,7 +275,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                     '"' => self.lex_string(iter, i)?,
                     c if c.is_ascii_digit() => match block_state {
                         BlockState::Path => self.lex_index(iter),
-                        BlockState::Unknown => self.lex_number(iter),
+                        BlockState::Unknown => self.lex_number(iter, i),
                     },
                     c if is_whitespace(c) => self.lex_whitespace(iter),
                     c if is_ident_start(c) => self.lex_ident_or_keyword(iter, i),
@@ -386,11 +386,16 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
         }
     }
 
-    fn lex_number<I>(&mut self, iter: I) -> (Token, usize)
+    fn lex_number<I>(&mut self, iter: I, i: usize) -> (Token, usize)
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        (Token::Number, self.lex_while(iter, is_number))
+        let j = self.lex_while(iter, is_number);
+        // A number must not swallow the start of a tag, e.g. `5-}}`.
+        match self.engine.searcher.find_at(self.source, i) {
+            Some((_, m, n)) if m < j && j < n => (Token::Number, m),
+            _ => (Token::Number, j),
+        }
     }
 
     fn lex_index<I>(&mut self, iter: I) -> (Token, usize)
-- 
2.43.0


From 77908ea995b0e70201d40d2204e3a817d70536a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 10/14] fix: locate errors by byte offset

The line and column of an error were computed by comparing a byte offset
with display widths, which pointed at the wrong place, even the wrong line,
in sources with CRLF line endings or non-ASCII text.
---
 src/error.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e6767f2..bfd771e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -229,13 +229,11 @@ struct Pretty {
 
 impl Pretty {
     fn build(source: &str, span: Span) -> Self {
-        let lines: Vec<_> = source.split_terminator('\n').collect();
-        let (ln, col) = to_ln_col(&lines, span.m);
+        let (ln, m) = to_ln_offset(source, span.m);
+        let text = source[m..].split('\n').next().unwrap().to_string();
+        // Unlike the underlined width, tabs count as a single column here.
+        let col = display_width(&source[m..span.m].replace('\t', " "));
         let width = max(1, display_width(&source[span]));
-        let text = lines
-            .get(ln)
-            .unwrap_or_else(|| lines.last().unwrap())
-            .to_string();
         Self {
             ln,
             col,
@@ -275,19 +273,13 @@ impl Pretty {
     }
 }
 
-fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
-    let mut n = 0;
-    for (i, line) in lines.iter().enumerate() {
-        let len = display_width(line) + 1;
-        if n + len > offset {
-            return (i, offset - n);
-        }
-        n += len;
-    }
-    (
-        lines.len(),
-        lines.last().map(|l| display_width(l)).unwrap_or(0),
-    )
+/// Returns the zero-indexed line number containing the given byte offset and
+/// the byte offset of the start of that line.
+fn to_ln_offset(source: &str, offset: usize) -> (usize, usize) {
+    let before = &source[..offset];
+    let ln = before.matches('\n').count();
+    let m = before.rfind('\n').map_or(0, |i| i + 1);
+    (ln, m)
 }
 
 #[cfg(feature = "unicode")]
-- 
2.43.0


From 585306e73f8388b16ddd39f1fe141a171bcefba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 11/14] fix: report a write error that a formatter ignored

---
 src/fmt.rs        | 8 ++++++++
 src/render/mod.rs | 9 ++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index db14832..c4ea4c5 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -183,6 +183,10 @@ where
 {
     #[inline]
     fn write_str(&mut self, s: &str) -> fmt::Result {
+        // Nothing more is written after an error, even if it was ignored.
+        if self.err.is_some() {
+            return Err(fmt::Error);
+        }
         self.writer.write_all(s.as_bytes()).map_err(|e| {
             self.err = Some(e);
             fmt::Error
@@ -191,6 +195,10 @@ where
 
     #[inline]
     fn write_char(&mut self, c: char) -> fmt::Result {
+        // Nothing more is written after an error, even if it was ignored.
+        if self.err.is_some() {
+            return Err(fmt::Error);
+        }
         self.writer
             .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())
             .map_err(|e| {
diff --git a/src/render/mod.rs b/src/render/mod.rs
index e9f7118..cbc55a1 100644
--- a/src/render/mod.rs
+++ b/src/render/mod.rs
@@ -28,9 +28,12 @@ where
 {
     let mut w = Writer::new(writer);
     let mut f = Formatter::with_writer(&mut w);
-    RendererImpl { inner, stack }
-        .render(&mut f)
-        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))
+    let result = RendererImpl { inner, stack }.render(&mut f);
+    // A write error takes precedence, even if a formatter ignored it.
+    match w.take_err() {
+        Some(err) => Err(Error::from(err)),
+        None => result,
+    }
 }
 
 type TemplateFn<'a> = dyn FnMut(&str) -> std::result::Result<&'a crate::Template<'a>, String> + 'a;
-- 
2.43.0


From a72b6a18aee42b1e3039506d95bde65571b5fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 12/14] fix: find a tag at a position without searching the
 rest of the template

The lexer asks at every token in a tag whether a tag starts there, and at every
number where the next tag starts. Both searched to the next tag, or to the end
of the template, so that compiling a tag took time quadratic in its length.
---
 src/compile/lex.rs        |  4 ++--
 src/compile/search/mod.rs | 28 +++++++++++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index d7ff33a..04f8523 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -392,8 +392,8 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     {
         let j = self.lex_while(iter, is_number);
         // A number must not swallow the start of a tag, e.g. `5-}}`.
-        match self.engine.searcher.find_at(self.source, i) {
-            Some((_, m, n)) if m < j && j < n => (Token::Number, m),
+        match self.engine.searcher.find_before(self.source, i, j) {
+            Some((_, m, n)) if j < n => (Token::Number, m),
             _ => (Token::Number, j),
         }
     }
diff --git a/src/compile/search/mod.rs b/src/compile/search/mod.rs
index 9cb308b..3c7bb25 100644
--- a/src/compile/search/mod.rs
+++ b/src/compile/search/mod.rs
@@ -6,12 +6,18 @@ use crate::types::syntax::{Kind, Syntax};
 #[cfg_attr(internal_debug, derive(Debug))]
 pub struct Searcher {
     imp: AhoCorasick,
+    /// The length of the longest pattern.
+    longest: usize,
 }
 
 impl Searcher {
     pub fn new(syntax: Syntax) -> Self {
+        let longest = syntax.patterns.iter().map(|(_, p)| p.len()).max();
         let imp = AhoCorasick::new(syntax.patterns);
-        Self { imp }
+        Self {
+            imp,
+            longest: longest.unwrap_or(0),
+        }
     }
 
     pub fn find_at<T>(&self, haystack: T, at: usize) -> Option<(Kind, usize, usize)>
@@ -24,15 +30,23 @@ impl Searcher {
         })
     }
 
+    /// Like [`find_at`][Self::find_at] but only finds matches that start before
+    /// `end`, and does not look further than necessary to find them.
+    pub fn find_before<T>(&self, haystack: T, at: usize, end: usize) -> Option<(Kind, usize, usize)>
+    where
+        T: AsRef<[u8]>,
+    {
+        let haystack = haystack.as_ref();
+        let n = haystack.len().min(end + self.longest);
+        self.find_at(&haystack[..n], at)
+            .filter(|&(_, i, _)| i < end)
+    }
+
     pub fn starts_with<T>(&self, haystack: T, at: usize) -> Option<(Kind, usize)>
     where
         T: AsRef<[u8]>,
     {
-        let (kind, i, j) = self.find_at(haystack, at)?;
-        if at == i {
-            Some((kind, j))
-        } else {
-            None
-        }
+        let (kind, _, j) = self.find_before(haystack, at, at + 1)?;
+        Some((kind, j))
     }
 }
-- 
2.43.0


From b2c06492dce32fc4bcb258af77dae9c319e80e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 13/14] fix: do not build an error for every float literal

Each float literal was first parsed as an integer, and the error for that was
built, with the line and column, although it is only used if the literal is not
a float either. Compiling took time quadratic in the number of float literals.
---
 src/compile/parse.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 81615b0..335acf5 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -662,7 +662,8 @@ impl<'engine, 'source> Parser<'engine, 'source> {
                     if raw.contains(['.', '-', '+']) {
                         Err(err2)
                     } else {
-                        Err(err)
+                        let (reason, span) = err;
+                        Err(Error::syntax(reason, self.source(), span))
                     }
                 }
             },
@@ -670,7 +671,15 @@ impl<'engine, 'source> Parser<'engine, 'source> {
     }
 
     /// Parse an integer.
-    fn parse_literal_integer(&self, raw: &str, span: Span, sign: Sign) -> Result<ast::Literal> {
+    ///
+    /// On failure this only returns what is wrong and where, because the
+    /// literal can still be a float.
+    fn parse_literal_integer(
+        &self,
+        raw: &str,
+        span: Span,
+        sign: Sign,
+    ) -> std::result::Result<ast::Literal, (String, Span)> {
         let digits = raw.as_bytes();
         let (i, radix) = match digits {
             [b'0', b'b', ..] => (2, 2),
@@ -685,16 +694,14 @@ impl<'engine, 'source> Parser<'engine, 'source> {
             .try_fold(0i64, |acc, (j, &d)| {
                 let x = (d as char).to_digit(radix).ok_or_else(|| {
                     let m = span.n - raw.len() + i + j;
-                    Error::syntax(
+                    (
                         format!("invalid digit for base {radix} literal"),
-                        self.source(),
-                        m..m + 1,
+                        Span::from(m..m + 1),
                     )
                 })?;
                 let err = || {
-                    Error::syntax(
+                    (
                         format!("base {radix} literal out of range for 64-bit integer"),
-                        self.source(),
                         span,
                     )
                 };
-- 
2.43.0


From 9f58866a1abcb8961e29cb452b78d54b020ff0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:54 +0000
Subject: [PATCH 14/14] fix: print errors at columns beyond 65535

---
 src/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index bfd771e..4538949 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -251,7 +251,8 @@ impl Pretty {
         let num = (self.ln + 1).to_string();
         let col = self.col + 1;
         let pad = display_width(&num);
-        let align = self.col + self.width;
+        // Not a formatting width, which is limited to 16 bits.
+        let gap = " ".repeat(self.col);
 
         let z = "";
         let pipe = "|";
@@ -266,7 +267,7 @@ impl Pretty {
             "\n\n {z:pad$}--> {name}:{num}:{col}\
              \n {z:pad$} {pipe}\
              \n {num:>} {pipe} {text}\
-             \n {z:pad$} {pipe} {underline:>align$}{extra}\
+             \n {z:pad$} {pipe} {gap}{underline}{extra}\
              \n {z:pad$} {pipe}\
              \n {z:pad$} {equals} reason: {reason}\n",
         )
-- 
2.43.0

