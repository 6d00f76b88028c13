From 414c2421c2407959ab18599534072ef78e977e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 01/23] fix: backslash is not an escape inside long brackets

---
 src/parser/lexer_util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index d0db6e5..0e1d375 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -147,13 +147,12 @@ pub fn get_multiline_string_level(chars: &mut TChars, start: usize) -> usize {
 pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize) -> (usize, usize, bool, String) {
     // we already got "[==[" symbols
     let mut end = start;
-    let mut escaped = false;
     let mut result = String::new();
 
     loop {
         match chars.next() {
             Some((text_end, ch)) => {
-                if !escaped && ch == ']' {
+                if ch == ']' {
                     let cur_level = get_multiline_string_level(chars, text_end + 1);
 
                     if level == cur_level {
@@ -174,7 +173,6 @@ pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize)
                 }
 
                 end = text_end;
-                escaped = ch == '\\';
             }
             None => return (end + 1, end + 1, false, result),
         }
-- 
2.43.0


From c26a38558bb937cc293b85775392e6053212c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 02/23] fix: keep the text of a one-line comment that ends the
 file with '[' or '[='

---
 src/parser/lexer_util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 0e1d375..4890e8c 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -208,7 +208,10 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
 
                             return (text_start, text_end, token_end, None, succ, result);
                         }
-                        None => return (text_start, text_start + level + 1, text_start + level + 1, None, true, String::new()),
+                        None => {
+                            let result = format!("[{}", "=".repeat(level));
+                            return (text_start, text_start + level + 1, text_start + level + 1, None, true, result);
+                        }
                     }
                 }
                 Some(&(square_2_index, '[')) => {
@@ -223,7 +226,7 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
                     result.insert(0, '[');
                     return (text_start, text_end, token_end, None, succ, result);
                 }
-                None => return (text_start, text_start + 1, text_start + 1, None, true, String::new()),
+                None => return (text_start, text_start + 1, text_start + 1, None, true, "[".to_string()),
             }
         }
         _ => {
-- 
2.43.0


From ff43cbfe73e69ddf9d3966499bc2c35796c3673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 03/23] fix: accept '+' in the exponent of a numeral

---
 src/parser/lexer_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 4890e8c..25e9a44 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -74,9 +74,9 @@ pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String)
 
             let mut cur_ind = i;
             match chars.peek() {
-                Some(&(si, '-')) => {
+                Some(&(si, sign @ '-')) | Some(&(si, sign @ '+')) => {
                     chars.next();
-                    result.push('-');
+                    result.push(sign);
                     cur_ind = si;
                 }
                 Some(&(_, _)) => {}
-- 
2.43.0


From 35de58b5fa410eb1ef19a9d304b6716e232b229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 04/23] fix: keep '[' apart from an index that starts with a
 long bracket

---
 src/parser/lua_ast.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3577d98..48e9b8d 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -338,6 +338,15 @@ impl list::ListOfItems<Node> for Node {
 }
 
 impl Node {
+    // `[` must not be glued to an expression that starts with a long bracket
+    fn open_square_bracket_hint(&self) -> &'static str {
+        match self {
+            Node::MultiLineStringLiteral(..) => " ",
+            Node::BinaryOp(_, _, _, l, _) => l.open_square_bracket_hint(),
+            _ => "",
+        }
+    }
+
     fn test_oneline_table_cfg(&self, cfg: &Config) -> Option<Config> {
         if let Node::TableConstructor(span, _, _, _) = self {
             if cfg.fmt.max_width.is_some()
@@ -630,8 +639,8 @@ impl ConfiguredWrite for Node {
                 out_of_range_write!(f, cfg, buf, state, span, "[", locs[0], e1, locs[1], "]", locs[2], "=", locs[3], e2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], ""), e1, Hint(&locs[1], ""), "]", Hint(&locs[2], " "),
-                           "=", Hint(&locs[3], " "), e2)
+                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], e1.open_square_bracket_hint()), e1, Hint(&locs[1], ""),
+                           "]", Hint(&locs[2], " "), "=", Hint(&locs[3], " "), e2)
             }
             FieldNamed(span, locs, e1, e2) => {
                 out_of_range_write!(f, cfg, buf, state, span, e1, locs[0], "=", locs[1], e2);
@@ -644,7 +653,7 @@ impl ConfiguredWrite for Node {
 
             TableIndex(span, locs, e) => {
                 out_of_range_write!(f, cfg, buf, state, span, "[", locs[0], e, locs[1], "]");
-                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], ""), e, Hint(&locs[1], ""), "]")
+                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], e.open_square_bracket_hint()), e, Hint(&locs[1], ""), "]")
             }
             TableMember(span, locs, n) => {
                 out_of_range_write!(f, cfg, buf, state, span, ".", locs[0], n);
-- 
2.43.0


From 8b6f92ab32e35b0a83635ee8f481e1d0af9bdd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 05/23] fix: do not lose the call suffixes of a partially
 formatted return expression

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 48e9b8d..6438185 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -704,7 +704,7 @@ impl ConfiguredWrite for Node {
             }
 
             VarRoundSuffix(span, locs, n1, n2) => {
-                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")");
+                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")", locs[2], n2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
-- 
2.43.0


From 1298eb2215dbc9f1d034eec644a0df2e73cf1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 06/23] fix: report an unreadable config file instead of
 panicking

---
 src/config.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index bea1310..c4bb080 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -303,8 +303,12 @@ impl Config {
     }
 
     pub fn reload_format_from_file(&self, file_path: &PathBuf) -> Result<Self, String> {
-        let content = fs::read_to_string(file_path)
-            .expect(&format!("An error occured while reading config file `{}`", file_path.display()));
+        let content = match fs::read_to_string(file_path) {
+            Ok(content) => content,
+            Err(err) => {
+                return Err(format!("An error occured while reading config file `{}`: {}", file_path.display(), err))
+            }
+        };
 
         let mut cfg = self.clone();
 
-- 
2.43.0


From 4940c01aef35d79e3f2fc437240b752dfe0ddab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 07/23] fix: accept stacked unary operators and unary operands
 of '^'

---
 src/parser/lua_syntax.lalrpop | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/parser/lua_syntax.lalrpop b/src/parser/lua_syntax.lalrpop
index 5dee540..9164d7a 100644
--- a/src/parser/lua_syntax.lalrpop
+++ b/src/parser/lua_syntax.lalrpop
@@ -529,20 +529,28 @@ Op9<T>: Node = {
 }
 
 Op10<T>: Node = {
-    <ls:@L> "not" <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
+    Unary<Op11<T>>,
+}
+
+Unary<T>: Node = {
+    <ls:@L> "-"   <l1:@R> <r1:@L> <e:UnaryNoMinus<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
+    UnaryNoMinus<T>,
+}
+
+UnaryNoMinus<T>: Node = {
+    <ls:@L> "not" <l1:@R> <r1:@L> <e:Unary<T>> <rs:@R>
         => Node::UnaryNot(Loc(ls, rs), [Loc(l1, r1)], Box::new(e)),
-    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Unary<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("#"), Box::new(e)),
-    <ls:@L> "-"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
-        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
-    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Unary<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("~"), Box::new(e)),
-    Op11<T>,
+    T,
 }
 
 // right-associative operation, but we make it left-associative
 Op11<T>: Node = {
-    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:T> <rs:@R>
+    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:Unary<T>> <rs:@R>
         => Node::BinaryOp(Loc(ls, rs), [Loc(l1, r1), Loc(l2, r2)], Str("^"), Box::new(e1), Box::new(e2)),
     T,
 }
-- 
2.43.0


From 3c1816487e86ee39b682cfbb50e82eaf5de47437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 08/23] fix: accept upper-case 0X

---
 src/parser/lua_lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index 4b85454..f95bff7 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -406,10 +406,10 @@ impl<'input> Iterator for Lexer<'input> {
                 Some(&(i, '0')) => {
                     self.chars.next();
                     match self.chars.peek() {
-                        Some(&(_, 'x')) => {
+                        Some(&(_, x @ 'x')) | Some(&(_, x @ 'X')) => {
                             self.chars.next();
                             let (end, succ, mut val) = get_hex_integer_end(&mut self.chars, i + 2);
-                            val.insert_str(0, "0x");
+                            val.insert_str(0, &format!("0{}", x));
 
                             match succ {
                                 true => return ok(i, Numeral(val), end),
-- 
2.43.0


From 2254903538fec4f02411b88e4ae765e0323e06da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 09/23] fix: trimmed comment text must not open or close a long
 comment

---
 src/parser/comment_ast.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 9758393..33ab1c0 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -82,6 +82,10 @@ impl<'a> list::AnyListItem<'a, Node> for Node {
     }
 }
 
+fn starts_with_long_bracket(s: &str) -> bool {
+    s.starts_with('[') && s[1..].trim_start_matches('=').starts_with('[')
+}
+
 impl ConfiguredWrite for Node {
     fn configured_write(&self, f: &mut String, cfg: &Config, buf: &str, state: &mut State) -> std::fmt::Result {
         use Node::*;
@@ -136,7 +140,12 @@ impl ConfiguredWrite for Node {
                             if strimmed.is_empty() {
                                 write!(f, "--\n")?;
                             } else {
-                                write!(f, "--{}{}\n", prefix, strimmed)?;
+                                // do not turn the comment into a multi-line one
+                                let text = format!("{}{}", prefix, strimmed);
+                                match starts_with_long_bracket(&text) {
+                                    true => write!(f, "-- {}\n", text)?,
+                                    false => write!(f, "--{}\n", text)?,
+                                }
                             }
                             Ok(())
                         }
@@ -152,21 +161,22 @@ impl ConfiguredWrite for Node {
                     Some(true) => Ok(()),
                     _ => {
                         let level_str = (0..*level).map(|_| "=").collect::<String>();
-                        match (
+                        let mut text = match (
                             cfg.fmt.hint_before_multiline_comment_text.as_ref(),
                             cfg.fmt.hint_after_multiline_comment_text.as_ref(),
                         ) {
-                            (Some(prefix), Some(suffix)) => {
-                                write!(f, "--[{}[{}{}{}]{}]", level_str, prefix, s.trim(), suffix, level_str)
-                            }
-                            (Some(prefix), None) => {
-                                write!(f, "--[{}[{}{}]{}]", level_str, prefix, s.trim_start(), level_str)
-                            }
-                            (None, Some(suffix)) => {
-                                write!(f, "--[{}[{}{}]{}]", level_str, s.trim_end(), suffix, level_str)
-                            }
-                            _ => write!(f, "--[{}[{}]{}]", level_str, s, level_str),
+                            (Some(prefix), Some(suffix)) => format!("{}{}{}", prefix, s.trim(), suffix),
+                            (Some(prefix), None) => format!("{}{}", prefix, s.trim_start()),
+                            (None, Some(suffix)) => format!("{}{}", s.trim_end(), suffix),
+                            _ => s.to_string(),
+                        };
+
+                        // do not let the end of the trimmed text close the comment
+                        if text.ends_with(&format!("]{}", level_str)) {
+                            text.push(' ');
                         }
+
+                        write!(f, "--[{}[{}]{}]", level_str, text, level_str)
                     }
                 }
             }
-- 
2.43.0


From 68f0e3479230d7526d8222ba2067e182b3fc4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 10/23] fix: keep '-' apart from a comment that follows it

---
 src/formatting/loc_hint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 6ff98b8..72e27f9 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -51,6 +51,11 @@ impl CommentLocHint<'_, '_> {
             write!(f, "{}", cfg.fmt.hint_before_comment.as_ref().unwrap())?;
         }
 
+        // `-` must not be glued to the comment
+        if f.ends_with('-') && comment_block.starts_with('-') {
+            write!(f, " ")?;
+        }
+
         write!(f, "{}", comment_block)?;
 
         // hint after comment block, ending with ']'
-- 
2.43.0


From e074a286faa58a5a051f369f88d3a93f569d1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 11/23] fix: do not panic when a single-line option is set
 without max_width

---
 src/formatting/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 835162a..3187766 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -48,9 +48,9 @@ macro_rules! test_oneline {
                 let left_len = util::get_len_after_newline($wrt, $cfg);
                 let right_len = util::get_len_till_newline(&buffer, $cfg);
 
-                match left_len + right_len < $cfg.fmt.max_width.unwrap() {
-                    true => Some(buffer),
-                    false => None,
+                match $cfg.fmt.max_width {
+                    Some(max_width) if left_len + right_len < max_width => Some(buffer),
+                    _ => None,
                 }
             }
             true => None
-- 
2.43.0


From 82e7bca3c260e74aa4fa28806e6f508f8c34f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 12/23] fix: do not panic when the written text ends with a
 multi-byte character of an option value

---
 src/formatting/loc_hint.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 72e27f9..2c57013 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -81,10 +81,11 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
         match parse_comment(&comment_buffer) {
             Ok(node_tree) => {
                 let mut formatted_comment_block = String::new();
-                formatted_comment_block.push(f.chars().last().unwrap_or(' '));
+                let last_char = f.chars().last().unwrap_or(' ');
+                formatted_comment_block.push(last_char);
 
                 match node_tree.configured_write(&mut formatted_comment_block, cfg, &comment_buffer, state) {
-                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[1..]),
+                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[last_char.len_utf8()..]),
                     Err(err) => Err(err),
                 }
             }
-- 
2.43.0


From c83d9461423ca36e560c7e48fc96e9ee071753cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 13/23] fix: do not write a second space before a table
 constructor

---
 src/parser/lua_ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 6438185..c2224ce 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -588,8 +588,9 @@ impl ConfiguredWrite for Node {
 
                 let bnl = cfg.fmt.write_newline_at_multiline_table == Some(true) && !opts.is_oneline.get();
 
+                // the space before the table belongs to the enclosing node
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-                cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), &hint)), "{{", IncFuncLevel())?;
+                cfg_write!(f, cfg, buf, state, If(bnl, &IfNewLine(bnl, Hint(&Loc(0, 0), ""))), "{{", IncFuncLevel())?;
 
                 let ind = match cfg.fmt.force_single_line_table == Some(true)
                     && opts.is_iv_table == Some(true)
-- 
2.43.0


From 9f1c9f10163876a3576c2c2f3808a0fa47b040a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:39 +0000
Subject: [PATCH 14/23] fix: line range inside the text between two tokens

---
 src/formatting/list.rs     | 9 ++++-----
 src/formatting/loc_hint.rs | 9 +++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index ccad8a5..1557cc6 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -109,17 +109,16 @@ where
             for i in 1..items.len() {
                 let item = &items[i];
 
-                if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                let hint = Hint::new(&item.0, item.1.list_item_prefix_hint(cfg));
+                if hint.test_out_of_range(state) {
+                    cfg_write!(f, cfg, buf, state, hint)?;
                 } else {
                     let prev_item_tp = &items[i - 1];
-                    let hint = item.1.list_item_prefix_hint(cfg);
                     let need_newline = list_node.need_newlines(cfg)
                         && item.1.need_newline(&prev_item_tp.1, list_node, f, cfg, buf, state);
                     indent = indent || need_newline;
 
-                    #[cfg_attr(rustfmt, rustfmt_skip)]
-                    cfg_write!(f, cfg, buf, state, IfNewLine(need_newline, Hint::new(&items[i].0, hint)))?;
+                    cfg_write!(f, cfg, buf, state, IfNewLine(need_newline, hint))?;
                 }
 
                 cfg_write!(f, cfg, buf, state, item.1)?;
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 2c57013..b04ebe3 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -13,6 +13,7 @@ pub struct SpaceLocHint<'a, 'b>(pub &'a Loc, pub &'b str);
 pub trait LocHintConstructible<'a, 'b> {
     fn new(loc: &'a Loc, s: &'b str) -> Self;
     fn get_loc(&self) -> &'a Loc;
+    fn test_out_of_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -23,6 +24,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn test_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.pos_range, self.0)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -33,6 +38,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn test_out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.comment_pos_range, self.0)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
-- 
2.43.0


From 802e1b10de8a408b828bc7965e9ed27b9922c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 15/23] fix: reject numerals without digits after the exponent
 mark or 0x, and with two periods

---
 src/parser/lexer_util.rs | 13 +++++++++----
 src/parser/lua_lexer.rs  |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 25e9a44..0a1965e 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -40,9 +40,10 @@ pub fn get_shebang_ends(chars: &mut TChars, start: usize) -> (usize, usize, Stri
 }
 
 pub fn get_integer_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
-    let (end, succ, result) = seek_end_by_predicate(chars, start, &|ch: char, _| !ch.is_ascii_digit());
+    let (end, _, result) = seek_end_by_predicate(chars, start, &|ch: char, _| !ch.is_ascii_digit());
 
-    if start >= end && !succ {
+    if start >= end {
+        // no digits
         return (end, false, result);
     } else {
         // integer numbers always end correctly
@@ -51,11 +52,12 @@ pub fn get_integer_end(chars: &mut TChars, start: usize) -> (usize, bool, String
 }
 
 pub fn get_hex_integer_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
-    let (end, succ, result) = seek_end_by_predicate(chars, start, &|ch: char, _| {
+    let (end, _, result) = seek_end_by_predicate(chars, start, &|ch: char, _| {
         !ch.is_ascii_digit() && !(ch >= 'A' && ch <= 'F') && !(ch >= 'a' && ch <= 'f')
     });
 
-    if start >= end && !succ {
+    if start >= end {
+        // no digits
         return (end, false, result);
     } else {
         // hex integer numbers always end correctly
@@ -66,6 +68,9 @@ pub fn get_hex_integer_end(chars: &mut TChars, start: usize) -> (usize, bool, St
 pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String) {
     // we already got one float symbol
     let (end, _, mut result) = seek_end_by_predicate(chars, start, &|ch: char, _| !ch.is_ascii_digit() && ch != '.');
+    if result.matches('.').count() > 1 {
+        return (end, false, result);
+    }
 
     match chars.peek() {
         Some(&(i, ch @ 'e')) | Some(&(i, ch @ 'E')) => {
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index f95bff7..c97bac5 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -289,9 +289,10 @@ impl<'input> Iterator for Lexer<'input> {
                         }
                         Some(&(_, ch)) if ch.is_ascii_digit() => {
                             let (end, succ, mut val) = get_float_end(&mut self.chars, i);
+                            let second_period = val.contains('.');
                             val.insert(0, '.');
 
-                            match succ {
+                            match succ && !second_period {
                                 true => return ok(i, Numeral(val), end),
                                 false => return Some(Err(LexicalError::UnexpectedEOF)),
                             }
-- 
2.43.0


From 999363ebc90102e09758e1038b5e50b345b6c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 16/23] fix: report standard input that cannot be read instead
 of panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3872269..f148b98 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -79,7 +79,10 @@ fn main() {
 
     if rel_paths.is_empty() {
         let mut buffer = String::new();
-        io::stdin().read_to_string(&mut buffer).unwrap();
+        if let Err(err) = io::stdin().read_to_string(&mut buffer) {
+            eprintln!("An error occured while reading standard input: {}", err);
+            return;
+        }
 
         match formatter::process_buffer_with_config(&buffer, &config, program_opts.verbose) {
             Ok(output) => print!("{}", output),
-- 
2.43.0


From 6815d528402f02e66972145cd465b49747419182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 17/23] fix: single-line layout does not depend on the width of
 white space in the input

---
 src/formatting/util.rs |  5 +++++
 src/parser/lua_ast.rs  | 14 +++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 3187766..5a57031 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -96,6 +96,11 @@ pub fn get_len_till_newline(s: &str, _cfg: &Config) -> usize {
     return s.chars().take_while(|&c| c != '\n').count();
 }
 
+// the space between tokens does not matter: it will be replaced
+pub fn get_code_len(s: &str) -> usize {
+    return s.chars().filter(|c| !c.is_whitespace()).count();
+}
+
 pub fn has_newlines(s: &str) -> bool {
     return s.find('\n').is_some();
 }
diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index c2224ce..de4ae02 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -347,12 +347,12 @@ impl Node {
         }
     }
 
-    fn test_oneline_table_cfg(&self, cfg: &Config) -> Option<Config> {
+    fn test_oneline_table_cfg(&self, cfg: &Config, buf: &str, state: &State) -> Option<Config> {
         if let Node::TableConstructor(span, _, _, _) = self {
             if cfg.fmt.max_width.is_some()
                 && cfg.fmt.newline_format_table_constructor.is_some()
                 && cfg.fmt.force_single_line_table == Some(true)
-                && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                && util::get_code_len(span.substr(buf, state, 0)) < 2 * cfg.fmt.max_width.unwrap_or(0)
             {
                 // disable IfNewLine within table constructor
                 // one-line tables are forced to have no trailing separator
@@ -375,7 +375,7 @@ impl Node {
             FieldNamedBracket(span, _, _, _) | FieldNamed(span, _, _, _) | FieldSequential(span, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_table_field.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && util::get_code_len(span.substr(buf, state, 0)) < 2 * cfg.fmt.max_width.unwrap_or(0) =>
             {
                 return test_oneline_no_nl!(f, cfg, buf, state, self);
             }
@@ -401,7 +401,7 @@ impl Node {
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.force_single_line_if == Some(true)
                     && cfg.fmt.newline_format_if.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && util::get_code_len(span.substr(buf, state, 0)) < 2 * cfg.fmt.max_width.unwrap_or(0) =>
             {
                 // disable IfNewLine within table constructor
                 let mut test_cfg = cfg.clone();
@@ -419,11 +419,11 @@ impl Node {
             FuncBody(span, _) | FuncPBody(span, _, _) | FuncBodyB(span, _, _) | FuncPBodyB(span, _, _, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_function.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
                     && ((state.function_nested_level == 0
                         && cfg.fmt.force_single_line_top_level_function == Some(true))
                         || (state.function_nested_level > 0
-                            && cfg.fmt.force_single_line_scoped_function == Some(true))) =>
+                            && cfg.fmt.force_single_line_scoped_function == Some(true)))
+                    && util::get_code_len(span.substr(buf, state, 0)) < 2 * cfg.fmt.max_width.unwrap_or(0) =>
             {
                 // disable IfNewLine within function body
                 let mut test_cfg = cfg.clone();
@@ -570,7 +570,7 @@ impl ConfiguredWrite for Node {
             TableConstructor(span, locs, n, opts) => {
                 out_of_range_write!(f, cfg, buf, state, span, "{{", locs[0], n, locs[1], "}}");
 
-                if let Some(test_cfg) = self.test_oneline_table_cfg(cfg) {
+                if let Some(test_cfg) = self.test_oneline_table_cfg(cfg, buf, state) {
                     match test_oneline_no_nl!(f, &test_cfg, buf, state, self) {
                         Some(line) => {
                             opts.is_oneline.set(true);
-- 
2.43.0


From bdcba8678cf59a04f099cc88a96cc83c615ff97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 18/23] fix: no blank line in front of a table that is already
 on a line of its own

---
 src/parser/lua_ast.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index de4ae02..aa12236 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -586,7 +586,11 @@ impl ConfiguredWrite for Node {
                 let hint = cfg.fmt.hint_table_constructor.as_ref().unwrap_or(&default_hint);
                 let mut nl = cfg.fmt.newline_format_table_constructor == Some(1);
 
-                let bnl = cfg.fmt.write_newline_at_multiline_table == Some(true) && !opts.is_oneline.get();
+                // the table may already be on an indented line of its own
+                let is_indented = !f.ends_with('\n') && util::trim_end_spaces_and_tabs(f).ends_with('\n');
+                let bnl = cfg.fmt.write_newline_at_multiline_table == Some(true)
+                    && !opts.is_oneline.get()
+                    && !is_indented;
 
                 // the space before the table belongs to the enclosing node
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-- 
2.43.0


From 9729483fff861d93543a0ea520e4a7e3601fc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 19/23] fix: keep a minus apart from a comment behind it when
 the line is broken there

---
 src/formatting/decoration.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index 764da8a..710815e 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -20,6 +20,11 @@ where
             Ok(..) => {
                 let trimmed = trim_end_spaces_and_tabs(&comment_block);
                 if !trimmed.is_empty() {
+                    // `-` must not be glued to the comment
+                    if f.ends_with('-') && trimmed.starts_with('-') {
+                        write!(f, " ")?;
+                    }
+
                     write!(f, "{}", &trimmed)?;
 
                     if trimmed.chars().last() != Some('\n') {
-- 
2.43.0


From b41fe3d7070a9970eebbd8103ad250f183f9a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 20/23] fix: remove all blanks at the end of a line that is
 broken at a comment, not just one

---
 src/formatting/decoration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatting/decoration.rs b/src/formatting/decoration.rs
index 710815e..d3e25b6 100644
--- a/src/formatting/decoration.rs
+++ b/src/formatting/decoration.rs
@@ -34,7 +34,7 @@ where
                     // if there was trailing spaces in the line, we need remove them.
                     // But if at this point we are in the CommentLocHint, we have a pseudo-string, and we cannot
                     // remove the first letter.
-                    if f.len() > 1 && (f.chars().last() == Some(' ') || f.chars().last() == Some('\t')) {
+                    while f.len() > 1 && (f.ends_with(' ') || f.ends_with('\t')) {
                         f.pop();
                     }
 
-- 
2.43.0


From 3ee560d189d693b971ccd6c78bfb986b75a05d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 21/23] fix: take vertical tabs and form feeds for white space

---
 src/parser/comment_lexer.rs | 2 +-
 src/parser/lua_lexer.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/comment_lexer.rs b/src/parser/comment_lexer.rs
index 509f0c4..fe02f92 100644
--- a/src/parser/comment_lexer.rs
+++ b/src/parser/comment_lexer.rs
@@ -80,7 +80,7 @@ impl<'input> Iterator for Lexer<'input> {
                     }
                     return None;
                 }
-                Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ' | '\r' | '\t' | '\u{b}' | '\u{c}')) => {
                     self.chars.next();
                 }
 
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index c97bac5..04890ca 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -231,7 +231,7 @@ impl<'input> Iterator for Lexer<'input> {
                     return None;
                 }
 
-                Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ' | '\n' | '\r' | '\t' | '\u{b}' | '\u{c}')) => {
                     self.chars.next();
                 }
 
-- 
2.43.0


From 8e760600cfba2be62806e9efea384498756d090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 22/23] fix: no overflow with a very large max_width

---
 src/parser/lua_ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index aa12236..a72d57b 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -352,7 +352,7 @@ impl Node {
             if cfg.fmt.max_width.is_some()
                 && cfg.fmt.newline_format_table_constructor.is_some()
                 && cfg.fmt.force_single_line_table == Some(true)
-                && util::get_code_len(span.substr(buf, state, 0)) < 2 * cfg.fmt.max_width.unwrap_or(0)
+                && util::get_code_len(span.substr(buf, state, 0)) < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2)
             {
                 // disable IfNewLine within table constructor
                 // one-line tables are forced to have no trailing separator
@@ -375,7 +375,7 @@ impl Node {
             FieldNamedBracket(span, _, _, _) | FieldNamed(span, _, _, _) | FieldSequential(span, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_table_field.is_some()
-                    && util::get_code_len(span.substr(buf, state, 0)) < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && util::get_code_len(span.substr(buf, state, 0)) < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2) =>
             {
                 return test_oneline_no_nl!(f, cfg, buf, state, self);
             }
@@ -401,7 +401,7 @@ impl Node {
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.force_single_line_if == Some(true)
                     && cfg.fmt.newline_format_if.is_some()
-                    && util::get_code_len(span.substr(buf, state, 0)) < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && util::get_code_len(span.substr(buf, state, 0)) < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2) =>
             {
                 // disable IfNewLine within table constructor
                 let mut test_cfg = cfg.clone();
@@ -423,7 +423,7 @@ impl Node {
                         && cfg.fmt.force_single_line_top_level_function == Some(true))
                         || (state.function_nested_level > 0
                             && cfg.fmt.force_single_line_scoped_function == Some(true)))
-                    && util::get_code_len(span.substr(buf, state, 0)) < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && util::get_code_len(span.substr(buf, state, 0)) < cfg.fmt.max_width.unwrap_or(0).saturating_mul(2) =>
             {
                 // disable IfNewLine within function body
                 let mut test_cfg = cfg.clone();
-- 
2.43.0


From eb6ff9b9b6cae627b6c1bf674a6966dcf0b3c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 23/23] fix: use the gap behind the bracket to decide on the
 indentation of suffixes

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index a72d57b..27930a9 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -714,7 +714,7 @@ impl ConfiguredWrite for Node {
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
 
-                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[0], "")) == Ok(true);
+                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[2], "")) == Ok(true);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, If(ind, &IncIndent(None)), Hint(&locs[2], ""), n2, If(ind, &DecIndent()))
-- 
2.43.0

