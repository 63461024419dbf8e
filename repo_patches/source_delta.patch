From 011b628a1f2bae334c493e6544afc3ab373e4c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 1/9] fix: do not panic on a backslash at the end of an
 unquoted heredoc body

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c565d4..7299991 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1321,7 +1321,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         _ => false,
                     };
 
-                    if special || self.iter.peek() == delim_close.as_ref() {
+                    if special
+                        || (delim_close.is_some() && self.iter.peek() == delim_close.as_ref())
+                    {
                         store!(SimpleWordKind::Escaped(
                             self.iter.next().unwrap().to_string()
                         ))
-- 
2.43.0


From 6f5e51afac888491d10be2d369d44bc5d32811c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 2/9] fix: only strip leading tabs from the lines of a <<-
 heredoc

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7299991..b052acf 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1001,7 +1001,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
             'line: loop {
-                if strip_tabs {
+                // NB: only *leading* tabs should be stripped
+                if strip_tabs && line.is_empty() {
                     let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
                         let stripped = w.trim_start_matches('\t');
                         let num_tabs = w.len() - stripped.len();
-- 
2.43.0


From 1180b9f5e578ca6c2a9739d5504171b3b5742e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 3/9] fix: do not treat a word with a leading + as a file
 descriptor

---
 src/parse.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b052acf..885a2a0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -719,9 +719,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             }
         }
 
+        // NB: `from_str_radix` accepts a leading `+`, but `+5` is not a file descriptor
+        fn parse_fd(s: &str) -> Option<u16> {
+            if s.chars().all(|c| c.is_digit(10)) {
+                u16::from_str_radix(s, 10).ok()
+            } else {
+                None
+            }
+        }
+
         fn as_num<C>(word: &ComplexWordKind<C>) -> Option<u16> {
             match *word {
-                Single(Simple(SimpleWordKind::Literal(ref s))) => u16::from_str_radix(s, 10).ok(),
+                Single(Simple(SimpleWordKind::Literal(ref s))) => parse_fd(s),
                 Single(_) => None,
                 Concat(ref fragments) => {
                     let mut buf = String::new();
@@ -733,7 +742,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         }
                     }
 
-                    u16::from_str_radix(&buf, 10).ok()
+                    parse_fd(&buf)
                 }
             }
         }
-- 
2.43.0


From 5bf2c9e2517c7299dbc698a262607d056adb00a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 4/9] fix: keep the comments before the ; of a for loop without
 words

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 885a2a0..c108473 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2025,7 +2025,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         } else if Some(&Semi) == self.iter.peek() {
             // `for name \n*;\n* do_group`
             eat!(self, { Semi => {} });
-            (None, self.linebreak())
+            let mut pre_body_comments = post_var_comments;
+            pre_body_comments.extend(self.linebreak());
+            (None, pre_body_comments)
         } else if self.peek_reserved_word(&[DO]).is_none() {
             // If we didn't find an `in` keyword, and we havent hit the body
             // (a `do` keyword), then we can reasonably say the script has
-- 
2.43.0


From be73107de04d386d9ade4433a9044a2a66636c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 5/9] fix: name the until command when its do is missing

---
 src/parse.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index c108473..0ee6a91 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1875,10 +1875,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         &mut self,
     ) -> ParseResult<(builder::LoopKind, builder::GuardBodyPairGroup<B::Command>), B::Error> {
         let start_pos = self.iter.pos();
-        let kind = match self
+        let cmd = self
             .reserved_word(&[WHILE, UNTIL])
-            .map_err(|_| self.make_unexpected_err())?
-        {
+            .map_err(|_| self.make_unexpected_err())?;
+        let kind = match cmd {
             WHILE => builder::LoopKind::While,
             UNTIL => builder::LoopKind::Until,
             _ => unreachable!(),
@@ -1896,7 +1896,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 },
             )),
             None => Err(ParseError::IncompleteCmd(
-                WHILE,
+                cmd,
                 start_pos,
                 DO,
                 self.iter.pos(),
-- 
2.43.0


From 2b790be95f9141ac5bc70687eea004a7f7b91309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 6/9] fix: restore the token stream when a heredoc body fails
 to parse

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 0ee6a91..9560466 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1093,8 +1093,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
             mem::swap(&mut self.iter, &mut tok_backup);
-            let mut body = self.word_interpolated_raw(None, heredoc_start_pos)?;
+            let body = self.word_interpolated_raw(None, heredoc_start_pos);
             let _ = mem::replace(&mut self.iter, tok_backup);
+            let mut body = body?;
 
             if body.len() > 1 {
                 Concat(body.into_iter().map(Simple).collect())
-- 
2.43.0


From 29f7c5dfef37c105d11a4ff6dbc10ab051d72490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 7/9] fix: account for peeked tokens in Lexer::size_hint's
 upper bound

---
 src/lexer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index af7b2eb..68f8a91 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -260,7 +260,13 @@ impl<I: Iterator<Item = char>> Iterator for Lexer<I> {
         // themselves for the worst possible case. A high estimate
         // is better than no estimate.
         let (_, hi) = self.inner.size_hint();
-        let low = if self.peeked.is_some() { 1 } else { 0 };
-        (low, hi)
+        // Any characters which were already consumed for the peeked
+        // tokens are no longer accounted for by the inner iterator.
+        let peeked = match self.peeked {
+            Some(Escaped(Some(_))) => 2,
+            Some(_) => 1,
+            None => 0,
+        };
+        (peeked, hi.and_then(|hi| hi.checked_add(peeked)))
     }
 }
-- 
2.43.0


From cf126301798a9f75137941a9435dc24249f1df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 8/9] fix: parentheses between double quotes have no special
 meaning when looking for the end of a backquoted command or of a heredoc's
 line

---
 src/parse/iter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index e874b8d..7cd52da 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -555,7 +555,14 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             }
 
             Some(ParenOpen) => {
-                self.stack.push((ParenClose, cur_pos));
+                match self.stack.last() {
+                    // Already accounted for when the preceding $ was yielded
+                    Some(&(ParenClose, pos)) if pos == cur_pos => {}
+                    // Outside of a substitution parentheses have
+                    // no special meaning between double quotes
+                    Some(&(DoubleQuote, _)) => {}
+                    _ => self.stack.push((ParenClose, cur_pos)),
+                }
                 Some(Ok(ParenOpen))
             }
 
@@ -563,7 +570,7 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
                 match self.iter.peek() {
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
-                    Some(&ParenOpen) => {} // Already handled by paren case above
+                    Some(&ParenOpen) => self.stack.push((ParenClose, cur_pos)),
 
                     // We have nothing further to match
                     _ => {
-- 
2.43.0


From 3e9ea17f766fc1dc679170e31947fa46ca5e5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:58 +0000
Subject: [PATCH 9/9] fix: a # right after the = of an assignment is part of
 the value

---
 src/parse.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 9560466..b70f86d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -606,6 +606,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 if let Some(Name(var)) = self.iter.next() {
                     self.iter.next(); // Consume the =
 
+                    // A `#` directly after the `=` is in the middle of a word,
+                    // thus it is a literal and does not start a comment.
+                    if let Some(&Pound) = self.iter.peek() {
+                        let pos = self.iter.pos();
+                        self.iter.next();
+                        self.iter.buffer_tokens_to_yield_first(
+                            vec![Literal(Pound.to_string())],
+                            pos,
+                        );
+                    }
+
                     let value = if let Some(&Whitespace(_)) = self.iter.peek() {
                         None
                     } else {
-- 
2.43.0

