From a59ad5c9c3c658dc15b896115273a988aad98ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 01/20] fix: recognise a number at the very end of the text

`tokenize("VISIBLE 10")` gave the symbols "1" and "0": with no character
after the number the scan found no end and gave up.
---
 src/lexer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index bbf053e..bac01e6 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -14,7 +14,7 @@ mod tests;
 
 fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     let mut has_dot_been_used = false;
-    let position = code.chars().enumerate().position(|(index, char)| {
+    let end_of_number = code.chars().enumerate().position(|(index, char)| {
         if index as i32 == 0 && (char == '-' || char == '+') {
             return false;
         };
@@ -26,9 +26,9 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
             return false;
         };
         true
-    })?;
+    });
 
-    let number_str = &code[0..position];
+    let number_str = &code[0..end_of_number.unwrap_or(code.len())];
     let number = if has_dot_been_used {
         NumberToken::Float(number_str.parse().ok()?)
     } else {
-- 
2.43.0


From 2c6579fa139fcd350a9936de04d4a9cf22cf1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 02/20] fix: only recognise keywords that are whole words

A name that starts with a keyword was cut in two: "Apple" gave A and
"pple", "Result" gave R and "esult", "WINNER" gave WIN and "NER". For the
same reason "ANY OF" could never be tokenized: it gave AN and "Y".
---
 src/lexer/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index bac01e6..fac6770 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -37,11 +37,19 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     return Some((number_str, number));
 }
 
+/// Whether the code starts with the given word, and the word ends there, instead of being just the
+/// start of a longer name
+fn starts_with_word(code: &str, word: &str) -> bool {
+    code.strip_prefix(word).map_or(false, |rest| {
+        !rest.starts_with(|char: char| char == '_' || char.is_ascii_alphanumeric())
+    })
+}
+
 fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
     Keywords::iter()
         .find(|keyword| {
             let keyword_str: &str = keyword.to_string_slice();
-            code.starts_with(keyword_str)
+            starts_with_word(code, keyword_str)
         })
         .and_then(|keyword| {
             Some((
@@ -134,9 +142,9 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
     let true_str = Keywords::WIN.to_string_slice();
     let false_str = Keywords::FAIL.to_string_slice();
 
-    if code.starts_with(true_str) {
+    if starts_with_word(code, true_str) {
         Some((&code[..true_str.len()], true))
-    } else if code.starts_with(false_str) {
+    } else if starts_with_word(code, false_str) {
         Some((&code[..false_str.len()], false))
     } else {
         None
@@ -146,7 +154,7 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
 fn parse_noob(code: &str) -> Option<&str> {
     let noob_str = Keywords::NOOB.to_string_slice();
 
-    if code.starts_with(noob_str) {
+    if starts_with_word(code, noob_str) {
         Some(&code[..noob_str.len()])
     } else {
         None
-- 
2.43.0


From f14da532998b85cd337b94494fccd4c17cde2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 03/20] fix: allow digits in names, after the first character

"var1" gave the identifier "var" and the number 1. LOLCODE names are
letters, digits and underscores, and the tests' own names (Arg1,
Access_1) have digits.
---
 src/lexer/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index fac6770..337996b 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -63,8 +63,12 @@ fn parse_identifier(code: &str) -> Option<&str> {
     let non_ident_position = code
         .chars()
         .into_iter()
-        .take_while(|char| {
-            *char == '_' || (*char >= 'a' && *char <= 'z') || (*char >= 'A' && *char <= 'Z')
+        .enumerate()
+        .take_while(|(index, char)| {
+            *char == '_'
+                || (*char >= 'a' && *char <= 'z')
+                || (*char >= 'A' && *char <= 'Z')
+                || (*index > 0 && *char >= '0' && *char <= '9')
         })
         .count();
 
-- 
2.43.0


From 00eed52501c6cd4bc4ecc034037d669f68844b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 04/20] fix: slice yarns at byte offsets, not at character
 counts
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A yarn with a non-ASCII character was cut short or made tokenize panic
for slicing inside a character, for example in VISIBLE "olá".
---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 337996b..66c2f44 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -80,7 +80,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
 }
 
 fn parse_string(code: &str) -> Option<(&str, &str)> {
-    let mut chars = code.chars().enumerate().peekable();
+    let mut chars = code.char_indices().peekable();
     if let Some((_, char)) = chars.next() {
         if char != '"' {
             return None;
-- 
2.43.0


From b4604046adba4466c6888eaf604e517d527956e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 05/20] fix: an escaped colon does not escape the quote after
 it

In "a::" the second colon is escaped by the first, so the quote ends the
yarn. It was taken for an escaped quote, and the yarn swallowed the code
that follows it.
---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 66c2f44..dcd966b 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -89,7 +89,7 @@ fn parse_string(code: &str) -> Option<(&str, &str)> {
 
     while let Some((index, char)) = chars.next() {
         if char == ':' {
-            if let Some((_, '"')) = chars.peek() {
+            if let Some((_, '"' | ':')) = chars.peek() {
                 chars.next();
             }
         }
-- 
2.43.0


From e293dde3183351129e19e1c15c4d820096e05218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 06/20] fix: tokenize the single-character ellipsis without
 panicking

The character is three bytes long, and slicing one byte of it panicked.
---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index dcd966b..17cbac3 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -136,7 +136,7 @@ fn parse_ellipsis(code: &str) -> Option<&str> {
     if code.starts_with("...") {
         Some(&code[..3])
     } else if code.starts_with('\u{2026}') {
-        Some(&code[..1])
+        Some(&code[..'\u{2026}'.len_utf8()])
     } else {
         None
     }
-- 
2.43.0


From 57cd692c4bef302d0aa2a57a36c7f676b34188e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 07/20] fix: tokenize a non-ASCII symbol without panicking

Any non-ASCII character outside a yarn or a comment made tokenize panic
for slicing one byte of it.
---
 src/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 17cbac3..1958b58 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -375,7 +375,8 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        let raw_symbol = &code[..1];
+        let symbol_len_bytes = code.chars().next().map_or(0, char::len_utf8);
+        let raw_symbol = &code[..symbol_len_bytes];
         tokens.push(make_token(
             &mut code,
             &mut current_position,
-- 
2.43.0


From 856483f5c1a2731d3b11daa3cf2d06fd2f9165d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 08/20] fix: give the question mark its own token

The branch for it tested for a comma, so "?" became a symbol and
TokenType::QuestionMark was never produced. The parser takes both forms,
as hand-made tokens use the symbol.
---
 src/lexer/mod.rs               | 2 +-
 src/parser/statements/o_rly.rs | 1 +
 src/parser/statements/wtf.rs   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 1958b58..a635634 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -256,7 +256,7 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        if code.starts_with(',') {
+        if code.starts_with('?') {
             let raw_question_mark = &code[..1];
             tokens.push(make_token(
                 &mut code,
diff --git a/src/parser/statements/o_rly.rs b/src/parser/statements/o_rly.rs
index 33e37cf..c769000 100644
--- a/src/parser/statements/o_rly.rs
+++ b/src/parser/statements/o_rly.rs
@@ -54,6 +54,7 @@ impl ORly {
         tokens: &mut StatementIterator,
     ) -> Result<ORly, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 04e88b6..73d5a2e 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -37,6 +37,7 @@ impl Wtf {
         tokens: &mut StatementIterator,
     ) -> Result<Wtf, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
-- 
2.43.0


From 556e668a38f8c7f47f800b05a0d3b2560741d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 09/20] fix: count the newlines inside a token in positions

After a comment or yarn that spans lines, every later token had too small
a line number, and tokens on the line where it ends had a column counted
from where it started.
---
 src/lexer/position.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lexer/position.rs b/src/lexer/position.rs
index b8d262e..24201da 100644
--- a/src/lexer/position.rs
+++ b/src/lexer/position.rs
@@ -40,19 +40,19 @@ impl PartialOrd for Position {
 
 impl Add<&str> for Position {
     type Output = Position;
-    fn add(self, rhs: &str) -> Self::Output {
-        return Position {
-            line: self.line,
-            column: self.column + rhs.len() as i32,
-            chars: self.chars + rhs.chars().count() as i32,
-            bytes: self.bytes + rhs.bytes().len() as i32,
-        };
+    fn add(mut self, rhs: &str) -> Self::Output {
+        self += rhs;
+        self
     }
 }
 
 impl AddAssign<&str> for Position {
     fn add_assign(&mut self, rhs: &str) -> () {
-        self.column = self.column + rhs.len() as i32;
+        self.line = self.line + rhs.matches('\n').count() as i32;
+        self.column = match rhs.rfind('\n') {
+            Some(last_newline) => (rhs.len() - last_newline) as i32,
+            None => self.column + rhs.len() as i32,
+        };
         self.chars = self.chars + rhs.chars().count() as i32;
         self.bytes = self.bytes + rhs.bytes().len() as i32;
     }
-- 
2.43.0


From d421bc7dd8a51c5a0629a864951a6e97ce2d99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 10/20] fix: treat a carriage return as blank space

In a text with CRLF line ends every line ended in a symbol token "\r",
which made every statement of it an error.
---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index a635634..466eba7 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -120,7 +120,7 @@ fn parse_whitespace(code: &str, position: &mut Position) -> usize {
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
                 true
-            } else if *char == ' ' || *char == '\t' {
+            } else if *char == ' ' || *char == '\t' || *char == '\r' {
                 position.column += 1;
                 position.bytes += char.len_utf8() as i32;
                 position.chars += 1;
-- 
2.43.0


From dcd02eac9534bcaae5aa0b4d3469cb181fe54d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 11/20] fix: report a missing R instead of panicking

A statement that starts with a name followed by anything but R or HAS A
("var 10") reached unreachable!(). VariableAssignmentError::MissingR is
documented for exactly this case.
---
 src/parser/statements/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements/mod.rs b/src/parser/statements/mod.rs
index b0c50ef..cd5ffb0 100644
--- a/src/parser/statements/mod.rs
+++ b/src/parser/statements/mod.rs
@@ -216,8 +216,8 @@ pub(crate) fn parse_statement(
                 BukkitSetSlot::parse(variable_access, tokens).map(|t| t.into())
             }
 
-            // TODO - fix this mess
-            Some(_) => unreachable!(),
+            // Reports the missing R
+            Some(_) => VariableAssignment::parse(variable_access, tokens).map(|t| t.into()),
         };
     }
 
-- 
2.43.0


From 3117183647a669899bd742cbdf1933859246f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 12/20] fix: report MAEK as unexpected instead of panicking

Casts are not supported yet, but a program that has one made parse
panic in todo!().
---
 src/parser/expression/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 96a9903..6f3fdc3 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -351,7 +351,8 @@ impl ASTExpression {
                     // String concat operation
                     Keywords::SMOOSH => NaryOperation::parse(NaryOpt::Smoosh(first_token), tokens),
                     // Type Cast operation
-                    Keywords::MAEK => todo!(),
+                    // TODO - not supported yet, there is no expression for it
+                    Keywords::MAEK => Err(ASTErrorType::UnexpectedToken(first_token)),
 
                     _ => Err(ASTErrorType::UnexpectedToken(first_token)),
                 }
-- 
2.43.0


From 38685c21bde58261186009415dd9f054f8e4caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 13/20] fix: do not swallow the statement after HAI, OIC and IF
 U SAY SO

These statements moved on to the next statement themselves, and then
the block did so again: the statement after them was reported as
TooManyTokens. "HAI 1.2\nVISIBLE 1" lost its VISIBLE.
---
 src/parser/statements/hai.rs      | 2 +-
 src/parser/statements/how_is_i.rs | 2 --
 src/parser/statements/wtf.rs      | 2 --
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/parser/statements/hai.rs b/src/parser/statements/hai.rs
index f60c73b..73c743c 100644
--- a/src/parser/statements/hai.rs
+++ b/src/parser/statements/hai.rs
@@ -18,7 +18,7 @@ impl Hai {
     ) -> Result<Hai, ASTErrorType> {
         Ok(Hai {
             hai_token: first_token,
-            version: tokens.next_statement(),
+            version: tokens.collect(),
         })
     }
 }
diff --git a/src/parser/statements/how_is_i.rs b/src/parser/statements/how_is_i.rs
index 83e918d..7337d59 100644
--- a/src/parser/statements/how_is_i.rs
+++ b/src/parser/statements/how_is_i.rs
@@ -69,8 +69,6 @@ impl HowIzI {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(HowIzI {
             how_iz_i_token: first_token,
             body,
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 73d5a2e..be660dc 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -81,8 +81,6 @@ impl Wtf {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(Wtf {
             wtf_token: first_token,
             omg,
-- 
2.43.0


From b45fda3781ab15f12d707bd48d5684e6fbb19cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 14/20] fix: parse empty blocks

The first statement of a block was parsed without looking whether it is
the word that ends the block, so that in "IM IN YR a\nIM OUTTA YR a" and
the like the closing word was an unexpected token and the block never
closed.
---
 src/parser/blocks.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ec76fc2..f5d8a84 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -135,6 +135,11 @@ fn parse_block(
 ) -> ASTBlock {
     let mut block = ASTBlock::default();
     loop {
+        match statement_iterator.peek() {
+            Some(token) if should_stop_at_token(token) => break,
+            _ => {}
+        }
+
         match statement_iterator.next() {
             Some(token) => block.0.push_back(
                 parse_statement(token, statement_iterator).unwrap_or_else(|err| err.into()),
@@ -146,10 +151,8 @@ fn parse_block(
             .next_statement_should_be_empty()
             .unwrap_or_else(|err| block.0.push_back(err.into()));
 
-        match statement_iterator.peek() {
-            Some(token) if should_stop_at_token(token) => break,
-            None => break,
-            Some(_) => {}
+        if statement_iterator.peek().is_none() {
+            break;
         }
     }
     block
-- 
2.43.0


From 4f07b92b195c88dbb98d3ded8d231bd82516fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 15/20] fix: excess tokens in a block header do not take the
 next statement along

Reporting excess tokens after a header ("HOW IZ I f x", "YA RLY x")
moved on to the next statement, and the enclosing block then moved on
again, so that the statement after the header was also reported as
TooManyTokens.
---
 src/parser/blocks.rs             | 9 ++++++---
 src/parser/statement_iterator.rs | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index f5d8a84..fd905bb 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -147,9 +147,12 @@ fn parse_block(
             None => {}
         };
 
-        statement_iterator
-            .next_statement_should_be_empty()
-            .unwrap_or_else(|err| block.0.push_back(err.into()));
+        let remaining_tokens = statement_iterator.next_statement();
+        if !remaining_tokens.is_empty() {
+            block
+                .0
+                .push_back(ASTErrorType::TooManyTokens(remaining_tokens).into());
+        }
 
         if statement_iterator.peek().is_none() {
             break;
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index a918a55..3c4ad31 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -50,10 +50,12 @@ impl StatementIterator {
     }
 
     pub fn next_statement_should_be_empty(&mut self) -> Result<(), ASTErrorType> {
-        let remaining_tokens = self.next_statement();
+        let remaining_tokens: VecDeque<Token> = self.collect();
         if !remaining_tokens.is_empty() {
+            // Stays in this statement. The block that reports the error will move to the next one
             Err(ASTErrorType::TooManyTokens(remaining_tokens))
         } else {
+            self.next_statement();
             Ok(())
         }
     }
-- 
2.43.0


From f73f9d30abfd9ce78d4826159a573584f82895d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 16/20] fix: an ellipsis before a comma does not end the
 program

A statement of which nothing but an ellipsis is left ("...\n, VISIBLE 1",
or one followed by a comma) looked like the end of the program or block,
and everything after it was dropped without an error.
---
 src/parser/statement_iterator.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 3c4ad31..9a8788c 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -11,11 +11,26 @@ pub struct StatementIterator {
 
 impl StatementIterator {
     pub fn new(tokens: Vec<Token>) -> StatementIterator {
-        StatementIterator {
-            current_line: tokens.first().map(|t| t.range.start_line()).unwrap_or(0),
+        let mut statement_iterator = StatementIterator {
+            current_line: 0,
             tokens_iter: tokens.into_iter().peekable(),
             peeked: None,
-        }
+        };
+        statement_iterator.start_statement();
+        statement_iterator
+    }
+
+    /// Skips everything that can come before the first token of a statement
+    fn start_statement(&mut self) {
+        while self
+            .tokens_iter
+            .next_if(|t| matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis))
+            .is_some()
+        {}
+
+        self.tokens_iter
+            .peek()
+            .map(|t| self.current_line = t.range.start_line());
     }
 
     pub fn peek(&mut self) -> Option<&Token> {
@@ -64,15 +79,7 @@ impl StatementIterator {
         let remaining_tokens = self.collect();
         self.peeked = None;
 
-        while self
-            .tokens_iter
-            .next_if(|t| t.token_type == TokenType::Comma)
-            .is_some()
-        {}
-
-        self.tokens_iter
-            .peek()
-            .map(|t| self.current_line = t.range.start_line());
+        self.start_statement();
 
         remaining_tokens
     }
-- 
2.43.0


From bca3ceae0efc8c77a2ea7b14e6a82f7cbb3f1000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 17/20] fix: skip consecutive ellipses in a loop

Each ellipsis in a row took another stack frame, so a long run of them
overflowed the stack.
---
 src/parser/statement_iterator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 9a8788c..ba4e868 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -118,15 +118,20 @@ impl Iterator for StatementIterator {
             None => {}
         };
 
+        let mut line = self.current_line;
+        while self
+            .tokens_iter
+            .next_if(|t| t.token_type == TokenType::Ellipsis && t.range.start_line() == line)
+            .is_some()
+        {
+            self.tokens_iter
+                .peek()
+                .map(|t| line = t.range.start_line());
+        }
+        self.current_line = line;
+
         match self.tokens_iter.peek().map(|t| (&t.token_type, &t.range)) {
             None | Some((TokenType::Comma, _)) => None,
-            Some((TokenType::Ellipsis, range)) if range.start_line() == self.current_line => {
-                self.tokens_iter.next();
-                self.tokens_iter
-                    .peek()
-                    .map(|t| self.current_line = t.range.start_line());
-                self.next()
-            }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
                     self.tokens_iter.next()
-- 
2.43.0


From 13ef5188872f0d704cfc8a78153e06998137ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 18/20] fix: a statement continues on the line where a yarn
 ends

With the lines of tokens now right, the tokens after a yarn that spans
lines would start a new statement.
---
 src/lexer/range.rs               | 4 ++++
 src/parser/statement_iterator.rs | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/lexer/range.rs b/src/lexer/range.rs
index 7bb3f05..a850325 100644
--- a/src/lexer/range.rs
+++ b/src/lexer/range.rs
@@ -33,6 +33,10 @@ impl Range {
     pub(crate) fn start_line(&self) -> i32 {
         self.0.line
     }
+
+    pub(crate) fn end_line(&self) -> i32 {
+        self.1.line
+    }
 }
 
 #[cfg(test)]
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index ba4e868..26fd39e 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -134,6 +134,7 @@ impl Iterator for StatementIterator {
             None | Some((TokenType::Comma, _)) => None,
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
+                    self.current_line = range.end_line();
                     self.tokens_iter.next()
                 } else {
                     None
-- 
2.43.0


From 4e1e462d37bcad0c276083865ccd0ff74bcd4c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 19/20] fix: ignore comments when parsing

Every comment was an unexpected token, so that a program with comments
always had errors, and a comment after a statement made it one.
---
 src/parser/statement_iterator.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 26fd39e..1e611c0 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -13,7 +13,17 @@ impl StatementIterator {
     pub fn new(tokens: Vec<Token>) -> StatementIterator {
         let mut statement_iterator = StatementIterator {
             current_line: 0,
-            tokens_iter: tokens.into_iter().peekable(),
+            tokens_iter: tokens
+                .into_iter()
+                .filter(|t| {
+                    !matches!(
+                        t.token_type,
+                        TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)
+                    )
+                })
+                .collect::<Vec<Token>>()
+                .into_iter()
+                .peekable(),
             peeked: None,
         };
         statement_iterator.start_statement();
-- 
2.43.0


From 13e61762bc89d757b1ec0e7495f738cf328703ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 20/20] fix: implement the iterator over a block's errors

iter_errors() returned an iterator that panicked in todo!() on its first
use, and whose items had no type to the caller.
---
 src/parser/blocks.rs | 54 +++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index fd905bb..f3e39ba 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -29,17 +29,14 @@ impl<const T: usize> From<[Node; T]> for ASTBlock {
 }
 
 struct ASTBlockErrorIterator<'a> {
-    blocks: Vec<&'a ASTBlock>,
-    current_block_index: usize,
-    current_block_statement: usize,
+    /// The blocks that are being iterated, from the outermost to the innermost
+    blocks: Vec<std::collections::vec_deque::Iter<'a, Node>>,
 }
 
 impl<'a> ASTBlockErrorIterator<'a> {
     pub fn new(first_block: &'a ASTBlock) -> ASTBlockErrorIterator<'a> {
         ASTBlockErrorIterator {
-            blocks: vec![first_block],
-            current_block_index: 0,
-            current_block_statement: 0,
+            blocks: vec![first_block.0.iter()],
         }
     }
 }
@@ -76,46 +73,31 @@ impl Node {
     }
 }
 
-enum ASTErrorOrBlock<'a> {
-    Error(&'a ASTErrorType),
-    Block(Vec<&'a ASTBlock>),
-}
-
 impl<'a> Iterator for ASTBlockErrorIterator<'a> {
     type Item = ASTErrorType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let _block_node = self
-            .blocks
-            .iter()
-            .skip(self.current_block_index)
-            .find_map(|block| {
-                block
-                    .0
-                    .iter()
-                    .skip(self.current_block_statement)
-                    .find_map(|node| {
-                        self.current_block_statement += 1;
-                        node.get_inner_block()
-                            .map(|block| ASTErrorOrBlock::Block(block))
-                            .or_else(|| match node {
-                                Node::ASTError(error) => Some(ASTErrorOrBlock::Error(error)),
-                                _ => None,
-                            })
-                    })
-                    .or_else(|| {
-                        self.current_block_index += 1;
-                        None
-                    })
-            });
+        while let Some(block) = self.blocks.last_mut() {
+            match block.next() {
+                Some(Node::ASTError(error)) => return Some(error.clone()),
+                Some(node) => {
+                    let inner_blocks = node.get_inner_block().unwrap_or_default();
+                    self.blocks
+                        .extend(inner_blocks.into_iter().rev().map(|block| block.0.iter()));
+                }
+                None => {
+                    self.blocks.pop();
+                }
+            }
+        }
 
-        todo!()
+        None
     }
 }
 
 impl ASTBlock {
     /// Iterates over any errors inside the block
-    pub fn iter_errors(&self) -> impl Iterator + '_ {
+    pub fn iter_errors(&self) -> impl Iterator<Item = ASTErrorType> + '_ {
         ASTBlockErrorIterator::new(self)
     }
 }
-- 
2.43.0

