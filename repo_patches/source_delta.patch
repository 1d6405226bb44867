From 2619549c8bd52e11269cb6d56ddc99a7f25e80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:29 +0000
Subject: [PATCH 01/26] fix: abstract << and >> operators whose file operand is
 missing instead of panicking

---
 crates/wolfram-parser/src/abstract_cst.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index a31d31c..126d914 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -500,7 +500,9 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                         )],
                         data,
                     ),
-                    _ => unhandled(),
+                    // The operand is not a file name if it is missing,
+                    // e.g. `<<` at the end of input.
+                    rand => Ast::call(st::Get, vec![abstract_(rand)], data),
                 }
             },
 
@@ -620,25 +622,24 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     data,
                 ),
                 BinaryOperator::Put | BinaryOperator::PutAppend => {
-                    let (str, data1) = match right {
+                    let right = match right {
                         // {left_, _, LeafNode[String, str_, data1_]}
                         Cst::Token(Token {
                             tok: TokenKind::String,
                             ref input,
                             src: data1,
-                        }) => (input.as_str(), data1),
-                        _ => unhandled(),
+                        }) => Ast::string(
+                            escapeString_of_abstractFileString(input.as_str()),
+                            data1,
+                        ),
+                        // The operand is not a file name if it is missing,
+                        // e.g. `a >>` at the end of input.
+                        right => abstract_(right),
                     };
 
                     Ast::call(
                         op.to_symbol(),
-                        vec![
-                            abstract_(left),
-                            Ast::string(
-                                escapeString_of_abstractFileString(str),
-                                data1,
-                            ),
-                        ],
+                        vec![abstract_(left), right],
                         data,
                     )
                 },
-- 
2.43.0


From 1f4f0f25dac5b027b071a60a7a325a543af5c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:29 +0000
Subject: [PATCH 02/26] fix: abstract naked bracket groups with several inner
 expressions instead of panicking

---
 crates/wolfram-parser/src/abstract_cst.rs | 27 ++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 126d914..051ed91 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1032,7 +1032,14 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        // Several expressions, e.g. around a stray closer
+                        _ => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::OpenSquare,
+                            abstract_cst_seq(NodeSeq(
+                                part_span_drop_first_and_last(children.0),
+                            )),
+                            data,
+                        ),
                     }
                 },
 
@@ -1070,7 +1077,14 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        // Several expressions, e.g. around a stray closer
+                        _ => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::ColonColonOpenSquare,
+                            abstract_cst_seq(NodeSeq(
+                                part_span_drop_first_and_last(children.0),
+                            )),
+                            data,
+                        ),
                     }
                 },
 
@@ -1108,7 +1122,14 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        // Several expressions, e.g. around a stray closer
+                        _ => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::LeftDoubleBracket,
+                            abstract_cst_seq(NodeSeq(
+                                part_span_drop_first_and_last(children.0),
+                            )),
+                            data,
+                        ),
                     }
                 },
 
-- 
2.43.0


From 889082c51bccb0d11ea6d6d1f7478846aadd6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:29 +0000
Subject: [PATCH 03/26] fix: give the expression for f' the source of the whole
 postfix expression

---
 crates/wolfram-parser/src/abstract_cst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 051ed91..ab4dc24 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -547,7 +547,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstractedBody],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         // PostfixNode[Derivative, {rand_, LeafNode[Token`Boxes`MultiSingleQuote, quoteStr_, _]}, data_]
@@ -565,7 +565,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstract_(operand)],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         _ => unhandled(),
-- 
2.43.0


From f758c28ae3ace0fc4838061c3d35f0ad7fa43527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:38 +0000
Subject: [PATCH 04/26] fix: do not require * as the separator when negating or
 flattening a product

---
 crates/wolfram-parser/src/abstract_cst.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index ab4dc24..cbd5414 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1721,8 +1721,9 @@ impl<I: TokenInput + Debug, S: TokenSource + Debug> Negated<I, S> {
                 }
             },
             Negated::InfixTimesSeq(NodeSeq(children)) => {
-                let children =
-                    part_span_even_children(children, Some(TK::Star));
+                // Not only `*` separates factors: there are also implicit
+                // Times, \[Times] and \[InvisibleTimes].
+                let children = part_span_even_children(children, None);
 
                 let infix = InfixNode(OperatorNode {
                     op: InfixOperator::Times,
@@ -2080,7 +2081,7 @@ where
             op: InfixOperator::Times,
             children: NodeSeq(children),
         })) => {
-            let children = part_span_even_children(children, Some(TK::Star));
+            let children = part_span_even_children(children, None);
 
             flattenTimes(children, data.clone())
         },
-- 
2.43.0


From eece6e88e2fe9d624455e8d4f698a1b1895e0b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:52 +0000
Subject: [PATCH 05/26] fix: parse an unterminated group in input that is not
 valid UTF-8 instead of panicking

---
 crates/wolfram-parser/src/parse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/parse.rs b/crates/wolfram-parser/src/parse.rs
index 3f93e84..f74dfcb 100644
--- a/crates/wolfram-parser/src/parse.rs
+++ b/crates/wolfram-parser/src/parse.rs
@@ -1478,12 +1478,13 @@ impl<'i, B: ParseBuilder<'i> + 'i> ParserSession<'i, B> {
 
         self.pop_group();
 
-        // The input MUST be valid UTF-8, because we only reduce an *unterminated*
-        // group node if we've read an EOF (which is how we know it must be
-        // unterminated: we've read all the input).
-        let input = std::str::from_utf8(self.input()).expect(
-            "cannot reparse unterminated group node: input is not valid UTF-8",
-        );
+        // The contents of an unterminated group can only be cut down to their
+        // useful part if the input is text; otherwise keep them all.
+        let Ok(input) = std::str::from_utf8(self.input()) else {
+            return self
+                .builder
+                .reduce_group_missing_closer(ctx_data, op, group_state);
+        };
 
         let tab_width = self.tokenizer.tab_width as usize;
 
-- 
2.43.0


From 30207798fc922f0769c5ee76b17a38fc2fddc9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:53 +0000
Subject: [PATCH 06/26] fix: count characters, not bytes, in character index
 positions of unterminated tokens

---
 crates/wolfram-parser/src/error.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index e5472b1..5f49d13 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -534,15 +534,21 @@ fn to_lines_and_expand_tabs(input: &str, _tab_width: u32) -> Vec<Line> {
 }
 
 fn StringLength(s: &str) -> usize {
-    // FIXME: StringLength is NOT equal to string byte count. StringLengh counts
-    //        WL characters (e.g. \[Alpha] counts as 1 character), but
-    //        String::len() counts bytes. This is wrong.
-    s.len()
+    // CharacterIndex positions count characters of the source, not bytes.
+    s.chars().count()
 }
 
 fn StringTake(s: &str, range: CharacterSpan) -> &str {
-    // FIXME: This treats WL characters as bytes.
-    &s[range.to_rust_range()]
+    let Range { start, end } = range.to_rust_range();
+
+    // Convert an index in characters to an offset in bytes
+    let byte_offset = |index: usize| {
+        s.char_indices()
+            .nth(index)
+            .map_or(s.len(), |(offset, _)| offset)
+    };
+
+    &s[byte_offset(start)..byte_offset(end)]
 }
 
 //==========================================================
-- 
2.43.0


From 6a51e5f7f958c44aff46c02c98ccf910f6a63ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:53 +0000
Subject: [PATCH 07/26] fix: include the last line of an unterminated token in
 its text

---
 crates/wolfram-parser/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index 5f49d13..b9cf80e 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -154,9 +154,9 @@ fn reparse_unterminated_token_error_node<'i>(
                     .index_columns(tab_width, better_src.start.column()..),
             );
 
-            if first_chunk.len() > 1 {
+            if last_good_line_index >= 1 {
                 components.extend(
-                    first_chunk[1..last_good_line_index]
+                    first_chunk[1..=last_good_line_index]
                         .iter()
                         .map(|line: &Line| line.content),
                 );
-- 
2.43.0


From 963a0047a5be9435f938eaeac58a5f4dc53b3b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:53 +0000
Subject: [PATCH 08/26] fix: allow \[InvisibleComma] where the comma parselet
 is entered

---
 crates/wolfram-parser/src/parse/parselet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/parse/parselet.rs b/crates/wolfram-parser/src/parse/parselet.rs
index d38fba2..bbf4ac6 100644
--- a/crates/wolfram-parser/src/parse/parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet.rs
@@ -1795,7 +1795,10 @@ impl<'i, B: ParseBuilder<'i> + 'i> InfixParselet<'i, B> for CommaParselet {
     ) -> B::Node {
         panic_if_aborted!();
 
-        debug_assert_eq!(tok_in.tok, TokenKind::Comma);
+        debug_assert!(matches!(
+            tok_in.tok,
+            TokenKind::Comma | TokenKind::LongName_InvisibleComma
+        ));
 
         let tok_in = session.push_syntax_and_next(tok_in);
 
-- 
2.43.0


From d6d20d59db9e366229d517db3608f704d775fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:53 +0000
Subject: [PATCH 09/26] fix: a span overlaps a span that encloses it

---
 crates/wolfram-parser/src/source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index be4c7ad..b6d7f8e 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -899,7 +899,7 @@ impl LineColumnSpan {
     pub fn overlaps(&self, cursor: LineColumnSpan) -> bool {
         let LineColumnSpan { start, end } = cursor;
 
-        self.contains(start) || self.contains(end)
+        self.contains(start) || self.contains(end) || cursor.contains(self.start)
     }
 
     #[cfg_attr(not(debug_assertions), allow(dead_code))]
-- 
2.43.0


From e6722abe107aaa45f0a0566cd9615408ab65d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:53 +0000
Subject: [PATCH 10/26] fix: tokenize a string that contains a byte order mark
 instead of panicking

---
 crates/wolfram-parser/src/lib.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/wolfram-parser/src/lib.rs b/crates/wolfram-parser/src/lib.rs
index 0f36c4c..5e4de17 100644
--- a/crates/wolfram-parser/src/lib.rs
+++ b/crates/wolfram-parser/src/lib.rs
@@ -377,8 +377,11 @@ pub fn tokenize<'i>(
     input: &'i str,
     opts: &ParseOptions,
 ) -> NodeSeq<Token<TokenStr<'i>>> {
-    tokenize_bytes(input.as_bytes(), opts)
-        .expect("unexpected character encoding error tokenizing &str")
+    // A &str is always valid UTF-8: the only thing that can be flagged in it is
+    // a byte order mark, which is an ordinary token.
+    let (tokens, _) = tokenize_bytes_and_flag(input.as_bytes(), opts);
+
+    tokens
 }
 
 /// Parse bytes containing Wolfram Language input into a sequence of tokens.
@@ -386,6 +389,16 @@ pub fn tokenize_bytes<'i>(
     input: &'i [u8],
     opts: &ParseOptions,
 ) -> Result<NodeSeq<Token<TokenStr<'i>>>, UnsafeCharacterEncoding> {
+    match tokenize_bytes_and_flag(input, opts) {
+        (_, Some(flag)) => Err(flag),
+        (tokens, None) => Ok(tokens),
+    }
+}
+
+fn tokenize_bytes_and_flag<'i>(
+    input: &'i [u8],
+    opts: &ParseOptions,
+) -> (NodeSeq<Token<TokenStr<'i>>>, Option<UnsafeCharacterEncoding>) {
     let mut tokenizer = Tokenizer::new(input, opts);
 
     let mut tokens = Vec::new();
@@ -406,10 +419,6 @@ pub fn tokenize_bytes<'i>(
         tok.skip(&mut tokenizer);
     } // while (true)
 
-    if let Some(flag) = tokenizer.unsafe_character_encoding_flag {
-        return Err(flag);
-    }
-
     if let Ok(input) = std::str::from_utf8(tokenizer.input) {
         NodeSeq(tokens) = crate::error::reparse_unterminated_tokens(
             NodeSeq(tokens),
@@ -418,7 +427,7 @@ pub fn tokenize_bytes<'i>(
         );
     }
 
-    return Ok(NodeSeq(tokens));
+    return (NodeSeq(tokens), tokenizer.unsafe_character_encoding_flag);
 }
 
 //======================================
-- 
2.43.0


From b52bbe375f5ce99aca63d0e1e5a4d2608865247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:07 +0000
Subject: [PATCH 11/26] fix: treat escapes that name a surrogate like other
 escapes that name no character

---
 .../wolfram-parser/src/read/character_decoder.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/read/character_decoder.rs b/crates/wolfram-parser/src/read/character_decoder.rs
index 0752264..c962f39 100644
--- a/crates/wolfram-parser/src/read/character_decoder.rs
+++ b/crates/wolfram-parser/src/read/character_decoder.rs
@@ -641,7 +641,13 @@ fn CharacterDecoder_handle4Hex(
     let d1 = u32::from(utils::toDigit(hexStartBuf[2]));
     let d0 = u32::from(utils::toDigit(hexStartBuf[3]));
     let point: u32 = d3 << 12 | d2 << 8 | d1 << 4 | d0;
-    let mut point = CodePoint::from_u32(point).unwrap();
+
+    // Surrogates are not characters
+    let Some(mut point) = CodePoint::from_u32(point) else {
+        session.seek(colon);
+
+        return WLCharacter::new('\\');
+    };
 
     match point {
         CodePoint::Char(CODEPOINT_ACTUAL_DOUBLEQUOTE) => {
@@ -960,13 +966,13 @@ fn CharacterDecoder_handle6Hex(
 
     // TODO: Is this logic here correct? Why always return a \ if point is out
     //       of range?
-    if point > 0x10ffff {
+    //
+    // Surrogates are not characters either.
+    let Some(mut point) = CodePoint::from_u32(point) else {
         session.seek(bar);
 
         return WLCharacter::new('\\');
-    }
-
-    let mut point = CodePoint::from_u32(point).unwrap();
+    };
 
     //
     // Success!
-- 
2.43.0


From 7a44f21bb458b4bcd43eec148ded9e5cbe9c50aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:10 +0000
Subject: [PATCH 12/26] fix: abstract a call whose brackets hold more than an
 inner bracket group instead of panicking

---
 .../src/abstract_cst/abstract_call_node.rs         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
index b38cc87..dce1bb4 100644
--- a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
+++ b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
@@ -88,11 +88,15 @@ pub(super) fn abstract_call_node<
                 })),
             src: data,
         } if matches!(
-            children.0[1], // inner
-            Cst::Group(GroupNode(OperatorNode {
-                op: GroupOperator::CodeParser_GroupSquare,
-                ..
-            }))
+            children.0.as_slice(), // {first, inner, last}
+            [
+                _,
+                Cst::Group(GroupNode(OperatorNode {
+                    op: GroupOperator::CodeParser_GroupSquare,
+                    ..
+                })),
+                _
+            ]
         ) =>
         {
             // {first_, inner:GroupNode[GroupSquare, _, _], last_}
-- 
2.43.0


From a81f785673e81b28fb0054a44b2d914eed0fa057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:10 +0000
Subject: [PATCH 13/26] fix: negate parentheses that do not hold exactly one
 expression instead of panicking

---
 crates/wolfram-parser/src/abstract_cst.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index cbd5414..871ff0b 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1599,10 +1599,9 @@ fn parenthesizedIntegerOrRealQ<I: Debug, S: Debug>(node: &Cst<I, S>) -> bool {
             op: GroupOperator::CodeParser_GroupParen,
             children,
         })) => {
-            let [_, child, _]: &[_; 3] =
-                children.0.as_slice().try_into().expect(
-                    "GroupParen Group node has unexpected number of children",
-                );
+            let [_, child, _] = children.0.as_slice() else {
+                return false;
+            };
 
             parenthesizedIntegerOrRealQ(child)
         },
@@ -1658,7 +1657,9 @@ fn possiblyNegatedZeroQ<I: TokenInput + Debug, S: Debug>(
             op: GroupOperator::CodeParser_GroupParen,
             children,
         })) => {
-            expect_children!(children, {_, child:_, _});
+            let Ok([_, child, _]) = <[_; 3]>::try_from(children.0) else {
+                return false;
+            };
 
             possiblyNegatedZeroQ(child)
         },
@@ -1792,7 +1793,7 @@ fn negate<I: TokenInput + Debug, S: TokenSource + Debug>(
     })) = node.clone()
     {
         // TODO(optimization): Avoid this clone().
-        if possiblyNegatedZeroQ(children[1].clone()) {
+        if children.len() == 3 && possiblyNegatedZeroQ(children[1].clone()) {
             return negate(children.remove(1));
         }
     }
-- 
2.43.0


From 502340a40c298229fb3df365cf9eef7ac47bb04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:15 +0000
Subject: [PATCH 14/26] fix: abstract strings that are not valid UTF-8 instead
 of panicking

---
 crates/wolfram-parser/src/abstract_cst.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 871ff0b..be9849b 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -374,7 +374,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     st::Slot,
                                     vec![Ast::string(
                                         escapeString_of_abstractSymbolString(
-                                            s.as_str(),
+                                            &s,
                                         ),
                                         data1,
                                     )],
@@ -391,7 +391,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     st::Slot,
                                     vec![Ast::string(
                                         escapeString_of_abstractSymbolString(
-                                            s.as_str(),
+                                            &s,
                                         ),
                                         data1,
                                     )],
@@ -495,7 +495,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     }) => Ast::call(
                         st::Get,
                         vec![Ast::string(
-                            escapeString_of_abstractFileString(str.as_str()),
+                            escapeString_of_abstractFileString(&str),
                             data1,
                         )],
                         data,
@@ -629,7 +629,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             ref input,
                             src: data1,
                         }) => Ast::string(
-                            escapeString_of_abstractFileString(input.as_str()),
+                            escapeString_of_abstractFileString(input),
                             data1,
                         ),
                         // The operand is not a file name if it is missing,
@@ -1453,7 +1453,10 @@ pub(crate) fn expect_children<I: Debug, S: Debug, const N: usize>(
 
 
 /// Ported composition of `escapeString(abstractSymbolString(s))`.
-fn escapeString_of_abstractSymbolString(s: &str) -> String {
+fn escapeString_of_abstractSymbolString<I: TokenInput>(input: &I) -> String {
+    // The text of the token need not be valid UTF-8
+    let s: &str = &String::from_utf8_lossy(input.as_bytes());
+
     // FIXME: This is made up. Consult original WL source and finish porting
     //        this function.
     if s.starts_with('"') {
@@ -1466,7 +1469,10 @@ fn escapeString_of_abstractSymbolString(s: &str) -> String {
 }
 
 /// Ported composition of `escapeString(abstractFileString(s))`.
-fn escapeString_of_abstractFileString(s: &str) -> String {
+fn escapeString_of_abstractFileString<I: TokenInput>(input: &I) -> String {
+    // The text of the token need not be valid UTF-8
+    let s: &str = &String::from_utf8_lossy(input.as_bytes());
+
     // FIXME: This is made up. Consult original WL source and finish porting
     //        this function.
     if s.starts_with('"') {
@@ -2280,7 +2286,7 @@ fn abstractMessageName<I: TokenInput + Debug, S: TokenSource + Debug>(
             input: str,
             src: data,
         }) => Ast::string(
-            escapeString_of_abstractSymbolString(str.as_str()),
+            escapeString_of_abstractSymbolString(&str),
             data,
         ),
         // FIXME: The original WL here didn't call abstract[..] here. Is that
-- 
2.43.0


From 8e9162ead9fd062524841dc3b5244e6dcf990625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:40 +0000
Subject: [PATCH 15/26] fix: abstract \[InvisibleApplication] below an operator
 of the same name instead of panicking

---
 crates/wolfram-parser/src/abstract_cst.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index be9849b..c145eb2 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -2206,8 +2206,10 @@ pub(crate) fn processInfixBinaryAtQuirk<
         return node;
     }
 
-    // TODO: Make this a debug_assert!?
-    assert!(matches!(middle, Cst::Token(Token { tok: TK::At, .. })));
+    // The quirk is about `@` only, not about \[InvisibleApplication]
+    if !matches!(middle, Cst::Token(Token { tok: TK::At, .. })) {
+        return node;
+    }
 
     // let data = rhs.source();
 
-- 
2.43.0


From 0147722dfd58440b6cb10cc23c21f94ed251bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:40 +0000
Subject: [PATCH 16/26] fix: do not splice the arguments of an explicit
 CodeParser`Comma call into its group

---
 crates/wolfram-parser/src/abstract_cst.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index c145eb2..15412d2 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -2886,10 +2886,13 @@ fn selectChildren(node: Ast) -> Vec<Ast> {
             if let Ast::Leaf {
                 kind: TK::Symbol,
                 input,
-                data: _,
+                data,
             } = &**head
             {
-                if input.as_str() == "CodeParser`Comma" {
+                // A symbol that is written in the source has a source
+                if input.as_str() == "CodeParser`Comma"
+                    && data.source.is_unknown()
+                {
                     // TODO(optimization): Refactor to remove this clone()
                     args.clone()
                 } else {
-- 
2.43.0


From f41519997b1e6d2a4c07fa227ea85355d1a1033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 17/26] hooks: count decoded source characters under
 cfg(verif_hooks)

---
 crates/wolfram-parser/src/lib.rs  | 36 +++++++++++++++++++++++++++++++
 crates/wolfram-parser/src/read.rs |  3 +++
 2 files changed, 39 insertions(+)

diff --git a/crates/wolfram-parser/src/lib.rs b/crates/wolfram-parser/src/lib.rs
index 5e4de17..5eddd45 100644
--- a/crates/wolfram-parser/src/lib.rs
+++ b/crates/wolfram-parser/src/lib.rs
@@ -109,6 +109,42 @@ pub mod macros;
 
 mod parse_cst;
 
+/// Counts the source characters decoded on this thread, for external monitors.
+///
+/// Only compiled with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    use std::cell::Cell;
+
+    thread_local! {
+        static STEPS: Cell<u64> = Cell::new(0);
+        static LIMIT: Cell<u64> = Cell::new(u64::MAX);
+    }
+
+    /// Reset the counter, and panic when it later exceeds `limit`.
+    pub fn reset(limit: u64) {
+        STEPS.with(|s| s.set(0));
+        LIMIT.with(|l| l.set(limit));
+    }
+
+    pub fn steps() -> u64 {
+        STEPS.with(|s| s.get())
+    }
+
+    pub(crate) fn tick() {
+        let steps = STEPS.with(|s| {
+            s.set(s.get() + 1);
+            s.get()
+        });
+
+        if steps > LIMIT.with(|l| l.get()) {
+            LIMIT.with(|l| l.set(u64::MAX));
+            panic!("verif_hooks: step limit exceeded");
+        }
+    }
+}
+
 //==========================================================
 // API
 //==========================================================
diff --git a/crates/wolfram-parser/src/read.rs b/crates/wolfram-parser/src/read.rs
index 00d4de4..db56039 100644
--- a/crates/wolfram-parser/src/read.rs
+++ b/crates/wolfram-parser/src/read.rs
@@ -162,6 +162,9 @@ impl<'i> Reader<'i> {
         &mut self,
         policy: NextPolicy,
     ) -> SourceCharacter {
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::tick();
+
         ByteDecoder_nextSourceCharacter(self, policy)
     }
 
-- 
2.43.0


From e71f74748f9f5fbc76153c2228f0e07c2fdcfbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:23 +0000
Subject: [PATCH 18/26] fix: keep the text of an unterminated file string to
 itself

The nodes that follow it on the same line were repeated in its text.
---
 crates/wolfram-parser/src/error.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index b9cf80e..4b8ebc8 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -24,6 +24,12 @@ pub(crate) fn reparse_unterminated<'i>(
     nodes.visit_mut(&mut |node| {
         let Cst::Token(token) = node else { return };
 
+        // An unterminated file string ends at the next whitespace, not at the
+        // end of the input: what follows it are separate nodes.
+        if token.tok == TokenKind::Error_UnterminatedFileString {
+            return;
+        }
+
         if token.tok.isError() && token.tok.isUnterminated() {
             reparse_unterminated_token_error_node(token, input, tab_width);
         }
-- 
2.43.0


From fccecb0b036a4714147637f63bf5428af1ffdb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:42 +0000
Subject: [PATCH 19/26] fix: keep a # at the beginning of a script that is not
 part of #!

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 4dc8919..611fcb8 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -175,6 +175,8 @@ impl<'i> Tokenizer<'i> {
                 // Handle the optional #! shebang
                 //
 
+                let mark = self.mark();
+
                 let mut peek = self.peek_token();
 
                 if peek.tok != TokenKind::Hash {
@@ -190,6 +192,9 @@ impl<'i> Tokenizer<'i> {
                 if peek.tok != TokenKind::Bang {
                     // not #!
 
+                    // The # is part of the program, so give it back.
+                    self.seek(mark);
+
                     return;
                 }
 
@@ -229,6 +234,8 @@ impl<'i> Tokenizer<'i> {
                 // Handle the #! shebang
                 //
 
+                let mark = self.mark();
+
                 let mut peek = self.peek_token();
 
                 if peek.tok != TokenKind::Hash {
@@ -248,6 +255,9 @@ impl<'i> Tokenizer<'i> {
                     // TODO: add to Issues
                     //
 
+                    // The # is part of the program, so give it back.
+                    self.seek(mark);
+
                     return;
                 }
 
-- 
2.43.0


From 8e46c5e909fa0aeabdb4adc74aa5e1d0bf791895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:52 +0000
Subject: [PATCH 20/26] fix: skip exactly the first line of a script, whatever
 quotes and comment openers it holds

---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 28 ++++++-------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 611fcb8..e43a2ce 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -209,19 +209,13 @@ impl<'i> Tokenizer<'i> {
                         break;
                     }
 
-                    let peek = self.peek_token();
+                    // The line is not Wolfram Language: quotes and
+                    // comment openers in it do not matter.
+                    let c = self.next_source_char(TOPLEVEL);
 
-                    if peek.tok == TokenKind::EndOfFile {
+                    if matches!(c, EndOfFile | Char('\n' | '\r') | CRLF) {
                         break;
                     }
-
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
-
-                        break;
-                    }
-
-                    peek.skip(self);
                 } // while (true)
 
                 //
@@ -268,19 +262,13 @@ impl<'i> Tokenizer<'i> {
                         break;
                     }
 
-                    let peek = self.peek_token();
+                    // The line is not Wolfram Language: quotes and
+                    // comment openers in it do not matter.
+                    let c = self.next_source_char(TOPLEVEL);
 
-                    if peek.tok == TokenKind::EndOfFile {
+                    if matches!(c, EndOfFile | Char('\n' | '\r') | CRLF) {
                         break;
                     }
-
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
-
-                        break;
-                    }
-
-                    peek.skip(self);
                 } // while (true)
             },
         }
-- 
2.43.0


From 857c9361f35dfd93c217ed87f8357354e111fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 21/26] fix: report a strange first character of a message tag
 where it is (property P16)

The character had been consumed already, so the issue had the empty span
after it.
---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index e43a2ce..125893c 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1661,14 +1661,11 @@ fn Tokenizer_handleString_stringifyAsTag<'i>(
     //
 
     if c.isLetterlike() || c.isMBLetterlike() {
-        let letterlikeBuf = session.buffer();
-        let letterlikeLoc = session.SrcLoc;
-
         Tokenizer_handleSymbolSegment(
             session,
             token_start,
-            letterlikeBuf,
-            letterlikeLoc,
+            token_start.buf,
+            token_start.loc,
             c,
             policy,
         );
-- 
2.43.0


From cc7a01f709355bd60596e0981c96af0534eb5f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:57 +0000
Subject: [PATCH 22/26] fix: read what follows the first # of a possible script
 as the parser will (property P18)

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 125893c..f2ea18d 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -187,7 +187,8 @@ impl<'i> Tokenizer<'i> {
 
                 peek.skip(self);
 
-                peek = self.peek_token();
+                // Read what follows the # as it will be read if this is not #!
+                peek = self.peek_token_with(INSIDE_SLOT);
 
                 if peek.tok != TokenKind::Bang {
                     // not #!
@@ -242,7 +243,8 @@ impl<'i> Tokenizer<'i> {
 
                 peek.skip(self);
 
-                peek = self.peek_token();
+                // Read what follows the # as it will be read if this is not #!
+                peek = self.peek_token_with(INSIDE_SLOT);
 
                 if peek.tok != TokenKind::Bang {
                     //
-- 
2.43.0


From 65ec3ffeba94c1ae6db245870b9b59fb3317b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:42 +0000
Subject: [PATCH 23/26] fix: read the base of a number that begins on, or is
 split by, a continuation line (property P07)

---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index f2ea18d..435bf3e 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -2097,28 +2097,27 @@ fn Tokenizer_handleNumber<'i>(
 
                 Ctxt.InvalidBase = true;
             } else {
-                // PRE_COMMIT: Compute string length differently
-                let baseStrLen = BufferAndLength::between(
+                //
+                // The digits of the base, without any line continuations
+                // that come before or between them.
+                //
+                let baseDigits: Vec<i32> = BufferAndLength::between(
                     nonZeroStartBuf,
                     caret1Buf.unwrap(),
                 )
                 .buf
-                .len();
+                .iter()
+                .filter(|byte| byte.is_ascii_digit())
+                .map(|byte| i32::from(utils::toDigit(*byte)))
+                .collect();
 
                 //
                 // bases can only be between 2 and 36, so we know they can only be 1 or 2 characters
                 //
-                if baseStrLen > 2 {
-                    Ctxt.InvalidBase = true;
-                } else if baseStrLen == 2 {
-                    let d1 = i32::from(utils::toDigit(nonZeroStartBuf[0]));
-                    let d0 = i32::from(utils::toDigit(nonZeroStartBuf[1]));
-                    Ctxt.Base = d1 * 10 + d0;
-                } else {
-                    assert!(baseStrLen == 1);
-
-                    let d0 = i32::from(utils::toDigit(nonZeroStartBuf[0]));
-                    Ctxt.Base = d0;
+                match baseDigits[..] {
+                    [d1, d0] => Ctxt.Base = d1 * 10 + d0,
+                    [d0] => Ctxt.Base = d0,
+                    _ => Ctxt.InvalidBase = true,
                 }
 
                 if !(2 <= Ctxt.Base && Ctxt.Base <= 36) {
-- 
2.43.0


From 139e13af7fc5747234173145c43d2f5f27d40f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:42 +0000
Subject: [PATCH 24/26] fix: print \[RawDoubleQuote] and \[RawBackslash]
 characters instead of panicking (property P24)

---
 crates/wolfram-parser/src/byte_encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/wolfram-parser/src/byte_encoder.rs b/crates/wolfram-parser/src/byte_encoder.rs
index 4f1ca1d..83ee724 100644
--- a/crates/wolfram-parser/src/byte_encoder.rs
+++ b/crates/wolfram-parser/src/byte_encoder.rs
@@ -15,6 +15,11 @@ pub(crate) fn encodeBytes(
             return Ok(());
         },
         //
+        // Coming from \[RawDoubleQuote] and \[RawBackslash]
+        //
+        StringMeta_DoubleQuote => stream.write_char('"'),
+        StringMeta_Backslash => stream.write_char('\\'),
+        //
         // e.g., GTest was trying to print
         //
         Unsafe1ByteUtf8Sequence
-- 
2.43.0


From ec13f99417c73e30733b6868a35a3ea60992634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:35 +0000
Subject: [PATCH 25/26] fix: abstract boxes that only resemble a part or
 derivative box instead of panicking (property P25)

---
 crates/wolfram-parser/src/abstract_cst.rs | 32 ++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 15412d2..5303d44 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -3058,7 +3058,11 @@ fn try_subscript_box_part_special_cases<
             CodeParser_GroupSquare,
             children1:_
         ]) => {
-            let [o1, group, c1] = expect_children(children1);
+            let Ok([o1, group, c1]) =
+                <[Cst<I, S>; 3]>::try_from(children1.0)
+            else {
+                return Err(box_node);
+            };
 
             match o1 {
                 LHS!(LeafNode[OpenSquare, _, _]) => (),
@@ -3077,7 +3081,11 @@ fn try_subscript_box_part_special_cases<
                     CodeParser_GroupSquare,
                     children2:_
                 ]) => {
-                    let [o2, b, c2] = expect_children(children2);
+                    let Ok([o2, b, c2]) =
+                        <[Cst<I, S>; 3]>::try_from(children2.0)
+                    else {
+                        return Err(box_node);
+                    };
 
                     match o2 {
                         LHS!(LeafNode[OpenSquare, _, _]) => (),
@@ -3126,7 +3134,11 @@ fn try_subscript_box_part_special_cases<
             CodeParser_GroupDoubleBracket,
             children1:_
         ]) => {
-            let [o, b, c] = expect_children(children1);
+            let Ok([o, b, c]) =
+                <[Cst<I, S>; 3]>::try_from(children1.0)
+            else {
+                return Err(box_node);
+            };
 
             match o {
                 LHS!(LeafNode[LongName_LeftDoubleBracket, _, _]) => (),
@@ -3225,7 +3237,7 @@ fn try_superscript_box_derivative_special_case<
 
     let (a, middle) = match children.0.as_slice() {
         [a, middle, ..] => (a.clone(), middle.clone()),
-        _ => todo!("Error?"),
+        _ => return Err(box_node),
     };
 
     let LHS!(BoxNode[
@@ -3237,7 +3249,11 @@ fn try_superscript_box_derivative_special_case<
         return Err(box_node);
     };
 
-    let [left, t] = expect_children(children1);
+    let Ok([left, t]) =
+        <[Cst<I, S>; 2]>::try_from(children1.0)
+    else {
+        return Err(box_node);
+    };
 
     let data2 = left.get_source();
 
@@ -3262,7 +3278,11 @@ fn try_superscript_box_derivative_special_case<
             && second.try_as_symbol().map(wolfram_expr::Symbol::as_str)
                 == Some("System`Derivative") =>
         {
-            let [o, b, c] = expect_children(children2);
+            let Ok([o, b, c]) =
+                <[Cst<I, S>; 3]>::try_from(children2.0)
+            else {
+                return Err(box_node);
+            };
 
             let [o @ LHS!(LeafNode[OpenParen, _, _]), b @ _, c @ LHS!(LeafNode[CloseParen, _, _])] =
                 [o, b, c]
-- 
2.43.0


From b37d436311920fa1338810079dd898d041ff2e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:05 +0000
Subject: [PATCH 26/26] fix: end the command line tool's prompt loop at the end
 of its input

---
 crates/wolfram-parser/src/bin/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/bin/main.rs b/crates/wolfram-parser/src/bin/main.rs
index 37c28bf..a59f54e 100644
--- a/crates/wolfram-parser/src/bin/main.rs
+++ b/crates/wolfram-parser/src/bin/main.rs
@@ -84,7 +84,10 @@ fn read_std_in(mode: ApiMode, output_mode: OutputMode, quirks: QuirkSettings) {
         print!(">>> ");
         io::stdout().flush().unwrap();
 
-        io::stdin().read_line(&mut input).unwrap();
+        if io::stdin().read_line(&mut input).unwrap() == 0 {
+            // End of input
+            break;
+        }
 
         handle(input.trim_end().as_bytes(), mode, output_mode, quirks)
     }
-- 
2.43.0

