From bb0fb420330d867536ab1979ba4502f9f4b103ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 01/28] fix: Span::lines yields no line past the end of the
 span

A span that ends right after a line feed covered the following line too.
---
 core/src/span.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/span.rs b/core/src/span.rs
index 31ac3aa..99c1504 100644
--- a/core/src/span.rs
+++ b/core/src/span.rs
@@ -406,7 +406,8 @@ pub struct LinesSpan<'i> {
 impl<'i> Iterator for LinesSpan<'i> {
     type Item = Span<'i>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos > self.span.end {
+        // A line that starts where the span ends is not covered, unless the span is empty.
+        if self.pos >= self.span.end && self.pos > self.span.start {
             return None;
         }
         let pos = position::Position::new(self.span.input, self.pos)?;
-- 
2.43.0


From 65014a5a267965d86ff0b868c9d66e93c2dfb7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 02/28] fix: show positions and spans at line starts, at the
 end and in empty inputs

A span starting right after a line feed was shown as starting on the line
before; a position at the end of its input printed nothing; a span of an empty
input panicked.
---
 core/src/formatter.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/src/formatter.rs b/core/src/formatter.rs
index 2d32c22..1e04851 100644
--- a/core/src/formatter.rs
+++ b/core/src/formatter.rs
@@ -131,6 +131,12 @@ impl<Writer: fmt::Write> Default for FormatOption<FmtPtr<Writer>, FmtPtr<Writer>
     }
 }
 
+/// All lines of `input`, including the empty one after a trailing line feed (or of an empty input).
+fn all_lines(input: &str) -> impl Iterator<Item = &str> {
+    let last = (input.is_empty() || input.ends_with('\n')).then_some("");
+    input.split_inclusive('\n').chain(last)
+}
+
 impl<SF, MF, NF> FormatOption<SF, MF, NF> {
     /// Create option with given functions.
     pub fn new<Writer>(span_formatter: SF, marker_formatter: MF, number_formatter: NF) -> Self
@@ -338,10 +344,11 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         let mut start = None;
         let mut end = None;
         let mut pos = 0usize;
-        let input = Span::new(span.get_input(), 0, span.get_input().len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let input = span.get_input();
+        let mut iter = all_lines(input).enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() >= span.start() {
+            // Only the last line does not end with a line feed.
+            if pos + line.len() > span.start() || !line.ends_with('\n') {
                 start = Some(Pos {
                     line: *index,
                     col: span.start() - pos,
@@ -363,8 +370,7 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         }
         let start = start.unwrap();
         let end = end.unwrap();
-        let mut lines = input
-            .lines()
+        let mut lines = all_lines(input)
             .skip(start.line)
             .take(end.line - start.line + 1)
             .peekable();
@@ -417,10 +423,10 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         NF: FnMut(&str, &mut Writer) -> fmt::Result,
     {
         let mut pos = 0usize;
-        let input = Span::new(position.input, 0, position.input.len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let mut iter = all_lines(position.input).enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() > position.pos() {
+            // Only the last line does not end with a line feed.
+            if pos + line.len() > position.pos() || !line.ends_with('\n') {
                 let l = *index;
                 let c = position.pos() - pos;
                 let index_digit = Self::ceil_log10(l + 1);
-- 
2.43.0


From edd03e3b2abfc8099184941a8b1c5a63df06b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 03/28] fix: a double quote in a character literal denotes
 itself

---
 meta/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5afb4ad..ce81335 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -878,7 +878,8 @@ fn parse_node(
 }
 
 fn string_content(pair: &Pair<'_, Rule>) -> Result<String, Error<Rule>> {
-    let string = unescape(pair.as_str()).ok_or(Error::new_from_span(
+    let string = pair.as_str();
+    let string = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
         ErrorVariant::CustomError {
             message: "invalid string literal".to_string(),
         },
@@ -945,7 +946,6 @@ fn unescape(string: &str) -> Option<String> {
                 }
                 _ => return None,
             },
-            Some('"') => (),
             Some(c) => result.push(c),
             None => return Some(result),
         };
-- 
2.43.0


From d7ce3ae0f9b47893de1008b9b49cd53ed4cf4a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 04/28] fix: read the content of raw strings that are delimited
 with pounds

---
 meta/src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index ce81335..fbf2ff3 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -633,11 +633,12 @@ fn parse_string(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Error<Ru
 
 fn parse_raw_string(pair: Pair<'_, Rule>, span: &Span) -> ParseNode {
     let span = span.from_pest(pair.as_span());
-    let mut pairs = pair.into_inner();
-
-    pairs.next().unwrap(); // quote
-
-    let content = pairs.next().unwrap().as_str();
+    // Skip pounds and quotes.
+    let content = pair
+        .into_inner()
+        .find(|pair| pair.as_rule() == Rule::inner_raw_str)
+        .unwrap()
+        .as_str();
     let expr = ParseExpr::Str(content.to_owned());
 
     ParseNode { expr, span }
-- 
2.43.0


From a19ba4218dda07620a026585fa34d832fbd8189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 05/28] fix: reject imports with arguments instead of panicking

---
 meta/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index fbf2ff3..2035075 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -336,7 +336,12 @@ fn _parse<P: AsRef<Path>>(
                 };
                 let (mod_path, args) = parse_path_raw(path_pair, &span_path, &PrattParser::new())?;
                 if args.is_some() {
-                    todo!("import module node with arguments.")
+                    return Err(Error::new_from_span(
+                        ErrorVariant::CustomError {
+                            message: "cannot import a module with arguments".to_string(),
+                        },
+                        span_path2,
+                    ));
                 }
                 let (mut fs_path, mut alias) = (None, None);
                 for pair in pairs {
-- 
2.43.0


From 65662e98fc2d7f31805d6b997fbca451ee9e52ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 06/28] fix: a rule whose name starts with `as` can follow an
 import

---
 meta/src/grammar.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index 7aa7598..a071f98 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -11,7 +11,9 @@ grammar_rules = _{
 	SOI ~ grammar_doc* ~ import* ~ grammar_rule ~ (import | grammar_rule)* ~ EOI
 }
 
-import = { "use " ~ path ~ ("in" ~ string)? ~ ("as" ~ identifier)? }
+import = { "use " ~ path ~ ("in" ~ string)? ~ (!word_as ~ "as" ~ identifier)? }
+// A longer identifier that starts with `as`, like the name of the next rule.
+word_as = @{ "as" ~ ("_" | alpha_num) }
 
 grammar_rule = {
     rule_doc* ~
-- 
2.43.0


From 4bd421dcbdef4278b396cae930dd26142823c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 07/28] fix: accept trivia marks on every choice operator, not
 just the first

---
 meta/src/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/grammar.pest b/meta/src/grammar.pest
index a071f98..c9c0a4b 100644
--- a/meta/src/grammar.pest
+++ b/meta/src/grammar.pest
@@ -48,7 +48,7 @@ terminal   = _{ string | raw_string | insensitive_string | path | range }
 
 overridable_operator = _{ tilde_operator | caret_operator }
 prefix_operator      = _{ positive_predicate_operator | negative_predicate_operator }
-infix_operator       = _{ sequence_operator | tilde_operator | caret_operator | choice_operator }
+infix_operator       = _{ choice_operator | sequence_operator | tilde_operator | caret_operator }
 postfix_operator     = _{
     overridable_operator? ~ (
         optional_operator |
-- 
2.43.0


From 98d6169968efbf89ef9e83e68207581808f57b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 08/28] fix: listing the children of `push` agrees with
 visiting them

---
 core/src/typed/template/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index fd9e713..fda3a74 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -959,9 +959,6 @@ impl<R: RuleType, T: PairContainer<R>> PairContainer<R> for push<T> {
     fn for_each_child_pair(&self, f: &mut impl FnMut(crate::token::Pair<R>)) {
         self.content.for_self_or_for_each_child_pair(f)
     }
-    fn vec_children_pairs(&self) -> Vec<crate::token::Pair<R>> {
-        self.content.vec_children_pairs()
-    }
 }
 
 /// Match `[START..END]` in top-to-bottom order of the stack.
-- 
2.43.0


From 2e441e2bbd5c18b15d2a0e869a5810bc0b07337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 09/28] fix: read the derive attributes
 `box_rules_only_if_needed` and `no_getter`

---
 generator/src/typed/attr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/attr.rs b/generator/src/typed/attr.rs
index 16ea319..b739dc7 100644
--- a/generator/src/typed/attr.rs
+++ b/generator/src/typed/attr.rs
@@ -21,8 +21,10 @@ pub(crate) fn parse_derive(ast: DeriveInput) -> (Ident, Generics, Vec<GrammarSou
             config.no_span = get_bool(attr, "no_span");
         } else if path.is_ident("no_warnings") {
             config.no_warnings = get_bool(attr, "no_warnings");
-        } else if path.is_ident("box_all_rules") {
-            config.box_rules_only_if_needed = get_bool(attr, "box_all_rules");
+        } else if path.is_ident("box_rules_only_if_needed") {
+            config.box_rules_only_if_needed = get_bool(attr, "box_rules_only_if_needed");
+        } else if path.is_ident("no_getter") {
+            config.no_getter = get_bool(attr, "no_getter");
         } else if path.is_ident("rules_mod") {
             let value = get_string(attr, "rules_mod");
             if value.is_empty() {
-- 
2.43.0


From cbc6f44e8557c3b836f9be33a281d0c26ce82869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 10/28] fix: reject modules and trivia that are defined twice

---
 generator/src/typed/generator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6d21323..e603f57 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -627,7 +627,7 @@ fn process_rules<'g>(
                     ),
                 );
                 let imported = child_mod_sys.take();
-                mod_sys.insert(imported, name);
+                mod_sys.insert(imported, name).unwrap();
                 new_prefix.pop().unwrap();
                 Some(module)
             }
@@ -635,9 +635,14 @@ fn process_rules<'g>(
         .collect();
     let mut output = Output::new(module, modules, config.rules_mod.clone());
     let reachability = collect_reachability(rules);
+    let mut trivia = BTreeSet::new();
     for rule in rules.iter() {
         match rule.name.as_str() {
-            "~" | "^" => {}
+            "~" | "^" => assert!(
+                trivia.insert(&rule.name),
+                "Trivia `{}` is already defined.",
+                rule.name
+            ),
             _ => mod_sys.insert_rule(rule).unwrap(),
         }
     }
-- 
2.43.0


From 08251008fad82d6eac5f720e328face70b015c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 11/28] fix: reject arguments given to a parameter

---
 generator/src/typed/generator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index e603f57..7c735fc 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -371,6 +371,11 @@ fn process_expr<'g>(
         }
         ParseExpr::Path(prefix, args) => {
             if prefix.len() == 1 && rule_config.grammar.args.contains(&prefix[0]) {
+                assert!(
+                    args.is_none(),
+                    "Unexpected arguments of parameter `{}`.",
+                    prefix[0]
+                );
                 let ident = format_ident!("r#{}", prefix[0]);
                 let typename = quote! {#ident};
                 let getter = GetterByName::from_generics_arg(&prefix[0]);
-- 
2.43.0


From c2acc1116bfd4b615f2f670db5352e61fb3432e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 12/28] fix: return errors in imported grammars instead of
 panicking

---
 meta/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 2035075..9b9ef87 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -387,7 +387,7 @@ fn _parse<P: AsRef<Path>>(
                                     &path,
                                     cache,
                                 )
-                                .unwrap_or_else(|err| panic!("{}", err));
+                                .map_err(|err| err.with_path(&path.to_string_lossy()))?;
                                 cache.insert(path, module.clone());
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
-- 
2.43.0


From 8861b2ef1d16891bdb8151b84c92a05c9a882da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 13/28] fix: report cyclic imports instead of overflowing the
 stack

---
 meta/src/parser.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 9b9ef87..d6d21a7 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -311,7 +311,7 @@ pub enum Import {
 fn _parse<P: AsRef<Path>>(
     input: &str,
     root: &P,
-    cache: &mut HashMap<PathBuf, Arc<GrammarModule>>,
+    cache: &mut HashMap<PathBuf, Option<Arc<GrammarModule>>>,
 ) -> Result<Arc<GrammarModule>, Error<Rule>> {
     let mut res = GrammarModule::default();
     let GrammarModule {
@@ -369,9 +369,20 @@ fn _parse<P: AsRef<Path>>(
                     let path = fs_path;
 
                     let import = {
-                        let module = match cache.get(&path) {
-                            Some(module) => module.clone(),
+                        // The same file may be reached with different spellings.
+                        let key = path.canonicalize().unwrap_or_else(|_| path.clone());
+                        let module = match cache.get(&key) {
+                            Some(Some(module)) => module.clone(),
+                            Some(None) => {
+                                return Err(Error::new_from_span(
+                                    ErrorVariant::CustomError {
+                                        message: format!("{path:?} imports itself"),
+                                    },
+                                    span_path2,
+                                ))
+                            }
                             None => {
+                                cache.insert(key.clone(), None);
                                 dependencies.insert(path.clone());
                                 let module = _parse(
                                     &read_to_string(&path).map_err(|err| {
@@ -388,7 +399,7 @@ fn _parse<P: AsRef<Path>>(
                                     cache,
                                 )
                                 .map_err(|err| err.with_path(&path.to_string_lossy()))?;
-                                cache.insert(path, module.clone());
+                                cache.insert(key, Some(module.clone()));
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
                             }
-- 
2.43.0


From 3d1890f17d024c7456fd88597726142488f328f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 14/28] fix: substitute all arguments of a silent meta-rule at
 once and in every call argument

---
 generator/src/typed/generator.rs | 13 ++++++------
 meta/src/parser.rs               | 34 +++++++++++++++++++-------------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 7c735fc..6a6d7bd 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -902,12 +902,13 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                                 {
                                     assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
                                     let mut new_expr = silent_rule.node.expr.clone();
-                                    for (arg, silent_arg_name) in
-                                        args.iter().zip(silent_rule.args.iter())
-                                    {
-                                        replaced |=
-                                            new_expr.replace(silent_arg_name.as_str(), &arg.expr);
-                                    }
+                                    let args: Vec<_> = silent_rule
+                                        .args
+                                        .iter()
+                                        .zip(args)
+                                        .map(|(name, arg)| (name.as_str(), &arg.expr))
+                                        .collect();
+                                    replaced |= new_expr.replace_all(&args);
                                     if replaced {
                                         replace_expr = Some(new_expr);
                                     }
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index d6d21a7..fb0ed5d 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -216,10 +216,21 @@ pub enum ParseExpr {
 
 impl ParseExpr {
     pub fn replace(&mut self, arg_name: &str, new_expr: &ParseExpr) -> bool {
+        self.replace_all(&[(arg_name, new_expr)])
+    }
+
+    /// Replace several arguments at once, that is,
+    /// names in the replacements are not replaced again.
+    pub fn replace_all(&mut self, args: &[(&str, &ParseExpr)]) -> bool {
         match self {
-            Self::Path(p, None) if p.len() == 1 && p[0] == arg_name => {
-                *self = new_expr.clone();
-                true
+            Self::Path(p, None) if p.len() == 1 => {
+                match args.iter().find(|(arg_name, _)| p[0] == *arg_name) {
+                    Some((_, new_expr)) => {
+                        *self = (*new_expr).clone();
+                        true
+                    }
+                    None => false,
+                }
             }
             Self::PosPred(inner)
             | Self::NegPred(inner)
@@ -227,20 +238,15 @@ impl ParseExpr {
             | Self::Rep(inner)
             | Self::RepOnce(inner)
             | Self::RepRange(inner, _)
-            | Self::Separated(inner, _) => inner.expr.replace(arg_name, new_expr),
-            Self::Seq(lhs, rhs, _) => {
-                let replaced_lhs = lhs.expr.replace(arg_name, new_expr);
-                let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
-                replaced_lhs || replaced_rhs
-            }
-            Self::Choice(lhs, rhs) => {
-                let replaced_lhs = lhs.expr.replace(arg_name, new_expr);
-                let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
+            | Self::Separated(inner, _) => inner.expr.replace_all(args),
+            Self::Seq(lhs, rhs, _) | Self::Choice(lhs, rhs) => {
+                let replaced_lhs = lhs.expr.replace_all(args);
+                let replaced_rhs = rhs.expr.replace_all(args);
                 replaced_lhs || replaced_rhs
             }
-            Self::Path(_, Some(PathArgs::Call(args))) => args
+            Self::Path(_, Some(PathArgs::Call(nodes))) => nodes
                 .iter_mut()
-                .any(|arg| arg.expr.replace(arg_name, new_expr)),
+                .fold(false, |replaced, node| node.expr.replace_all(args) || replaced),
             _ => false,
         }
     }
-- 
2.43.0


From a1746c50e0d7fbe4242f3582d1aef90abf5a85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 15/28] fix: expand silent meta-rules in call arguments and
 without used parameters

---
 generator/src/typed/generator.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6a6d7bd..363aa37 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -908,10 +908,9 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                                         .zip(args)
                                         .map(|(name, arg)| (name.as_str(), &arg.expr))
                                         .collect();
-                                    replaced |= new_expr.replace_all(&args);
-                                    if replaced {
-                                        replace_expr = Some(new_expr);
-                                    }
+                                    new_expr.replace_all(&args);
+                                    replaced = true;
+                                    replace_expr = Some(new_expr);
                                 }
                             }
                         }
@@ -946,6 +945,9 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                 ParseExpr::PosPred(inner) | ParseExpr::NegPred(inner) => {
                     nodes.push(inner);
                 }
+                ParseExpr::Path(_, Some(PathArgs::Call(args))) => {
+                    nodes.extend(args);
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From 46e98f1160124932e5759da4cd8921d9f2f782c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 16/28] fix: expand silent meta-rules by path, in imported
 modules too, and reject recursive ones

---
 generator/src/typed/generator.rs | 83 +++++++++++++++++++++++---------
 meta/src/parser.rs               | 26 ++++++++++
 2 files changed, 86 insertions(+), 23 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 363aa37..1b206dd 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -26,6 +26,7 @@ use std::{
     fmt::Display,
     path::PathBuf,
     rc::Rc,
+    sync::Arc,
 };
 use syn::{DeriveInput, Generics};
 
@@ -856,32 +857,70 @@ fn generate_typed_pair_from_rule<'g>(
     quote! {#output}
 }
 
-fn collect_silent_rules_with_args<'a>(
-    path: Option<&'a str>,
-    module: &'a GrammarModule,
-) -> BTreeMap<Option<&'a str>, BTreeMap<&'a str, &'a ParseRule>> {
+/// Silent rules with arguments that are reachable from a module, by path.
+///
+/// Paths in their definitions are relative to that module, too.
+fn collect_silent_rules_with_args(
+    prefix: &[String],
+    module: &GrammarModule,
+) -> BTreeMap<Vec<String>, ParseRule> {
     let mut result = BTreeMap::new();
-    result.insert(
-        path,
-        module
-            .rules
-            .iter()
-            .filter(|rule| rule.silent && !rule.args.is_empty())
-            .map(|rule| (rule.name.as_str(), rule))
-            .collect(),
+    for rule in module.rules.iter() {
+        if rule.silent && !rule.args.is_empty() {
+            let mut rule = rule.clone();
+            let args = rule.args.clone();
+            rule.node.expr.for_each_path(&mut |path| {
+                let arg = path.len() == 1 && args.contains(&path[0]);
+                if !arg && path[0] != "pest" {
+                    path.splice(0..0, prefix.iter().cloned());
+                }
+            });
+            result.insert([prefix, &[rule.name.clone()]].concat(), rule);
+        }
+    }
+    for import in module.imports.iter() {
+        if let Import::File(name, module) = import {
+            let prefix = [prefix, &[name.clone()]].concat();
+            result.extend(collect_silent_rules_with_args(&prefix, module));
+        }
+    }
+    result
+}
+
+/// Expanding a silent rule that contains itself would never end.
+fn reject_recursive_silent_rule(
+    path: &[String],
+    silent_rules: &BTreeMap<Vec<String>, ParseRule>,
+    parents: &mut Vec<Vec<String>>,
+) {
+    let Some(rule) = silent_rules.get(path) else {
+        return;
+    };
+    assert!(
+        !parents.iter().any(|parent| parent == path),
+        "Silent rule `{}` with arguments cannot be expanded in itself.",
+        rule.name
     );
-    module.imports.iter().for_each(|import| {
-        if let Import::File(path, module) = import {
-            result.extend(collect_silent_rules_with_args(Some(path), module));
+    parents.push(path.to_vec());
+    rule.node.expr.clone().for_each_path(&mut |path| {
+        if path.len() > 1 || !rule.args.contains(&path[0]) {
+            reject_recursive_silent_rule(path, silent_rules, parents)
         }
     });
-
-    result
+    parents.pop();
 }
 
 fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
-    let silent_rules = collect_silent_rules_with_args(None, &module);
+    let silent_rules = collect_silent_rules_with_args(&[], &module);
+    for path in silent_rules.keys() {
+        reject_recursive_silent_rule(path, &silent_rules, &mut vec![]);
+    }
     let mut new_module = module.clone();
+    for import in new_module.imports.iter_mut() {
+        if let Import::File(_, module) = import {
+            *module = Arc::new(inline_silent_rules_with_args(module.as_ref().clone()));
+        }
+    }
     new_module
         .rules
         .retain(|rule| !rule.silent || rule.args.is_empty());
@@ -895,11 +934,9 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                     let mut replace_expr = None;
                     if let ParseExpr::Path(path, args) = &node.expr {
                         if let Some(PathArgs::Call(args)) = args {
-                            if let Some(rule_name) = path.last() {
-                                if let Some(silent_rule) = silent_rules
-                                    .iter()
-                                    .find_map(|(mod_path, rules)| rules.get(rule_name.as_str()))
-                                {
+                            // Arguments are called like rules, but cannot take arguments.
+                            if path.len() > 1 || !rule.args.contains(&path[0]) {
+                                if let Some(silent_rule) = silent_rules.get(path) {
                                     assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
                                     let mut new_expr = silent_rule.node.expr.clone();
                                     let args: Vec<_> = silent_rule
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index fb0ed5d..0f3165f 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -252,6 +252,32 @@ impl ParseExpr {
     }
 }
 
+impl ParseExpr {
+    /// Visit every path, including those in arguments.
+    pub fn for_each_path(&mut self, f: &mut impl FnMut(&mut Vec<String>)) {
+        match self {
+            Self::Str(_) | Self::Insens(_) | Self::Range(_, _) => (),
+            Self::Path(path, args) => {
+                f(path);
+                if let Some(PathArgs::Call(args)) = args {
+                    args.iter_mut().for_each(|arg| arg.expr.for_each_path(f))
+                }
+            }
+            Self::PosPred(inner)
+            | Self::NegPred(inner)
+            | Self::Opt(inner)
+            | Self::Rep(inner)
+            | Self::RepOnce(inner)
+            | Self::RepRange(inner, _)
+            | Self::Separated(inner, _) => inner.expr.for_each_path(f),
+            Self::Seq(lhs, rhs, _) | Self::Choice(lhs, rhs) => {
+                lhs.expr.for_each_path(f);
+                rhs.expr.for_each_path(f);
+            }
+        }
+    }
+}
+
 impl Display for ParseExpr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-- 
2.43.0


From 7ff551f426c4166eb3585a256aebdba27aae8467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:09 +0000
Subject: [PATCH 17/28] fix: refer to imported modules by the name given in
 `rules_mod`

---
 generator/src/common.rs          |  8 ++++----
 generator/src/typed/generator.rs |  6 ++++--
 generator/src/typed/module.rs    | 28 +++++++++++++++++++++-------
 generator/src/typed/output.rs    |  2 +-
 4 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/generator/src/common.rs b/generator/src/common.rs
index a6abc27..fc3d4be 100644
--- a/generator/src/common.rs
+++ b/generator/src/common.rs
@@ -40,7 +40,7 @@ pub(crate) fn generate_include(name: &Ident, paths: Vec<PathBuf>) -> TokenStream
     }
 }
 
-pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
+pub(crate) fn generate_rule_enum(module: &GrammarModule, rules_mod: &TokenStream) -> TokenStream {
     let this = pest();
     let GrammarModule {
         rules,
@@ -68,7 +68,7 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                #ident(rules::#ident::Rule),
+                #ident(#rules_mod::#ident::Rule),
             }
         }
     });
@@ -77,8 +77,8 @@ pub(crate) fn generate_rule_enum(module: &GrammarModule) -> TokenStream {
         Import::File(name, module) => {
             let ident = format_ident!("r#{}", name);
             quote! {
-                impl #this::typed::SuperRule<rules::#ident::Rule> for Rule {
-                    fn cvt_from(rule: rules::#ident::Rule) -> Self {
+                impl #this::typed::SuperRule<#rules_mod::#ident::Rule> for Rule {
+                    fn cvt_from(rule: #rules_mod::#ident::Rule) -> Self {
                         Self::#ident(rule)
                     }
                 }
diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 1b206dd..11aadd0 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -3,7 +3,7 @@ use super::{
     config::Config,
     getter::GetterByName,
     module::{ModuleNode, ModuleSystem},
-    output::{generics, Output, Tracker},
+    output::{generics, types_mod, Output, Tracker},
 };
 use crate::{
     common::generate_include,
@@ -649,7 +649,9 @@ fn process_rules<'g>(
                 "Trivia `{}` is already defined.",
                 rule.name
             ),
-            _ => mod_sys.insert_rule(rule).unwrap(),
+            _ => mod_sys
+                .insert_rule(rule, types_mod(config.rules_mod.as_deref()))
+                .unwrap(),
         }
     }
     for rule in rules.iter() {
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 7911490..d3d2d96 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -37,7 +37,9 @@ impl<'g> ModuleError<'g> {
 #[derive(Clone, Debug)]
 pub enum RuleGenerics {
     /// Defined rule in current module.
-    Rule { argc: usize },
+    ///
+    /// - Identifier of modules that contain generated rules.
+    Rule { argc: usize, rules_mod: TokenStream },
     BuiltIn {
         /// Built-in rule that accepts nothing as argument.
         ///
@@ -64,12 +66,16 @@ impl RuleGenerics {
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
         let name = format_ident!("r#{}", name_str);
+        let rules_mod = match self {
+            Self::Rule { rules_mod, .. } => Some(rules_mod),
+            Self::BuiltIn { .. } => None,
+        };
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = format_ident!("{}", sec);
-            quote! {#sec::rules::}
+            quote! {#sec::#rules_mod::}
         });
         let res = match self {
-            Self::Rule { argc } => match (argc, args) {
+            Self::Rule { argc, .. } => match (argc, args) {
                 (0, None) => {
                     let typename = quote! { #(#current)* #name::<'i> };
                     let getter = GetterByName::from_rule(&typename, name_str);
@@ -185,10 +191,14 @@ impl<'g> ModuleNode<'g> {
         };
         Ok(res)
     }
-    pub fn insert_rule(&mut self, rule: &'g ParseRule) -> Result<(), ModuleError<'g>> {
+    pub fn insert_rule(
+        &mut self,
+        rule: &'g ParseRule,
+        rules_mod: TokenStream,
+    ) -> Result<(), ModuleError<'g>> {
         let key = &rule.name;
         let argc = rule.args.len();
-        let value = RuleGenerics::Rule { argc };
+        let value = RuleGenerics::Rule { argc, rules_mod };
         if let ModuleNode::Collection(root) = self {
             let prev = root.insert(key, Rc::new(ModuleNode::Generics(value)));
             if prev.is_some() {
@@ -339,8 +349,12 @@ impl<'g> ModuleSystem<'g> {
     pub fn insert(&mut self, node: ModuleNode<'g>, name: &'g str) -> Result<(), ModuleError<'g>> {
         self.root.alias(node.into(), name)
     }
-    pub fn insert_rule(&mut self, rule: &'g ParseRule) -> Result<(), ModuleError<'g>> {
-        self.root.insert_rule(rule)
+    pub fn insert_rule(
+        &mut self,
+        rule: &'g ParseRule,
+        rules_mod: TokenStream,
+    ) -> Result<(), ModuleError<'g>> {
+        self.root.insert_rule(rule, rules_mod)
     }
     pub fn resolve_node(
         &self,
diff --git a/generator/src/typed/output.rs b/generator/src/typed/output.rs
index 27d16d9..1289194 100644
--- a/generator/src/typed/output.rs
+++ b/generator/src/typed/output.rs
@@ -206,7 +206,7 @@ impl<'g> Output<'g> {
         modules: Vec<(Ident, Self)>,
         rules_mod: Option<String>,
     ) -> Self {
-        let rule_enum = generate_rule_enum(module);
+        let rule_enum = generate_rule_enum(module, &types_mod(rules_mod.as_deref()));
         Self {
             content: Vec::new(),
             optional_trivia: None,
-- 
2.43.0


From eada4d329ef4b744cebbe7d39e1dbfff53af703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 18/28] fix: built-in rules can be imported under another name

---
 generator/src/typed/module.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index d3d2d96..32e77c5 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -41,6 +41,8 @@ pub enum RuleGenerics {
     /// - Identifier of modules that contain generated rules.
     Rule { argc: usize, rules_mod: TokenStream },
     BuiltIn {
+        /// Name of the type, which can differ from the name used by a grammar.
+        id: &'static str,
         /// Built-in rule that accepts nothing as argument.
         ///
         /// - Whether it requires lifetime specifier.
@@ -65,11 +67,11 @@ impl RuleGenerics {
         root: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
-        let name = format_ident!("r#{}", name_str);
-        let rules_mod = match self {
-            Self::Rule { rules_mod, .. } => Some(rules_mod),
-            Self::BuiltIn { .. } => None,
+        let (id, rules_mod) = match self {
+            Self::Rule { rules_mod, .. } => (name_str, Some(rules_mod)),
+            Self::BuiltIn { id, .. } => (*id, None),
         };
+        let name = format_ident!("r#{}", id);
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = format_ident!("{}", sec);
             quote! {#sec::#rules_mod::}
@@ -105,6 +107,7 @@ impl RuleGenerics {
                 }
             },
             Self::BuiltIn {
+                id: _,
                 direct,
                 slice,
                 callable,
@@ -280,6 +283,7 @@ impl<'g> ModuleSystem<'g> {
                     Rc::new(
                         ModuleNode::Generics(
                             RuleGenerics::BuiltIn {
+                                id: core::stringify!($name),
                                 direct: None $( .or(Some(pest_direct! { $($direct)* })) )?,
                                 slice: None $( .or(Some(pest_slice! { $( $slice )* })) )?,
                                 callable: None $( .or(Some(pest_callable! { $( $callable )* })) )?,
-- 
2.43.0


From 11e6b0dfe50e8b71b7190859eed59c720690029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 19/28] fix: modules can be imported as a name that is a Rust
 keyword

---
 generator/src/common.rs          | 6 ++++++
 generator/src/typed/generator.rs | 4 ++--
 generator/src/typed/module.rs    | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/generator/src/common.rs b/generator/src/common.rs
index fc3d4be..5f2b970 100644
--- a/generator/src/common.rs
+++ b/generator/src/common.rs
@@ -40,6 +40,12 @@ pub(crate) fn generate_include(name: &Ident, paths: Vec<PathBuf>) -> TokenStream
     }
 }
 
+/// Identifier of the Rust module generated for an imported module.
+pub(crate) fn module_ident(name: &str) -> Ident {
+    // Keywords are not accepted.
+    syn::parse_str(name).unwrap_or_else(|_| format_ident!("r#{}", name))
+}
+
 pub(crate) fn generate_rule_enum(module: &GrammarModule, rules_mod: &TokenStream) -> TokenStream {
     let this = pest();
     let GrammarModule {
diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 11aadd0..44986b7 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -6,7 +6,7 @@ use super::{
     output::{generics, types_mod, Output, Tracker},
 };
 use crate::{
-    common::generate_include,
+    common::{generate_include, module_ident},
     config::collect_data,
     expr,
     typed::getter,
@@ -621,7 +621,7 @@ fn process_rules<'g>(
                 let mut child_mod_sys = ModuleSystem::new(global.clone());
                 new_prefix.push(name.clone());
                 let module = (
-                    format_ident!("{name}"),
+                    module_ident(name),
                     process_rules(
                         module,
                         &mut child_mod_sys,
diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 32e77c5..2e91e92 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -3,6 +3,7 @@ use super::{
     getter::GetterByName,
     output::generics,
 };
+use crate::common::module_ident;
 use pest3_core::unicode::unicode_property_names;
 use pest3_meta::parser::{ParseRule, Range};
 use proc_macro2::TokenStream;
@@ -73,7 +74,7 @@ impl RuleGenerics {
         };
         let name = format_ident!("r#{}", id);
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
-            let sec = format_ident!("{}", sec);
+            let sec = module_ident(sec);
             quote! {#sec::#rules_mod::}
         });
         let res = match self {
-- 
2.43.0


From 4754948e56e82c693ca4be20e35c5e8eb64b4530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 20/28] fix: a grammar may name a rule, parameter or module
 `Option`

---
 core/src/typed/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/typed/traits.rs b/core/src/typed/traits.rs
index 200ae7a..d59fd60 100644
--- a/core/src/typed/traits.rs
+++ b/core/src/typed/traits.rs
@@ -137,7 +137,7 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<($crate::Position<'i>, Self)> {
+            ) -> ::core::option::Option<($crate::Position<'i>, Self)> {
                 tracker.record_option_during(
                     input,
                     |tracker| {
@@ -153,7 +153,7 @@ macro_rules! full_rule_struct {
                 input: $crate::Position<'i>,
                 stack: &mut $crate::Stack<$crate::Span<'i>>,
                 tracker: &mut $crate::typed::Tracker<'i, $Rule>,
-            ) -> Option<$crate::Position<'i>> {
+            ) -> ::core::option::Option<$crate::Position<'i>> {
                 tracker.record_empty_during::<Self>(
                     input,
                     |tracker| {
-- 
2.43.0


From 006291caf35c8fda99502db7acb83a78f40bc8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 21/28] fix: reject silent meta-rules that are defined twice

---
 generator/src/typed/generator.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 44986b7..bcb76cf 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -917,6 +917,23 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
     for path in silent_rules.keys() {
         reject_recursive_silent_rule(path, &silent_rules, &mut vec![]);
     }
+    for rule in module.rules.iter() {
+        if rule.silent && !rule.args.is_empty() {
+            let rules = module.rules.iter().map(|rule| &rule.name);
+            let imports = module.imports.iter().map(|import| match import {
+                Import::Builtin(name, _) | Import::File(name, _) => name,
+            });
+            assert!(
+                rules
+                    .chain(imports)
+                    .filter(|name| **name == rule.name)
+                    .count()
+                    == 1,
+                "Rule `{}` is already defined.",
+                rule.name
+            );
+        }
+    }
     let mut new_module = module.clone();
     for import in new_module.imports.iter_mut() {
         if let Import::File(_, module) = import {
-- 
2.43.0


From 20e1288dc16f41325fbb017ee3fbb1c4a30a394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 22/28] fix: reject arguments given to a parameter of a silent
 meta-rule

---
 generator/src/typed/generator.rs | 9 +++++++--
 meta/src/parser.rs               | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index bcb76cf..e397913 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -871,8 +871,13 @@ fn collect_silent_rules_with_args(
         if rule.silent && !rule.args.is_empty() {
             let mut rule = rule.clone();
             let args = rule.args.clone();
-            rule.node.expr.for_each_path(&mut |path| {
+            rule.node.expr.for_each_path(&mut |path, path_args| {
                 let arg = path.len() == 1 && args.contains(&path[0]);
+                assert!(
+                    !arg || path_args.is_none(),
+                    "Unexpected arguments of parameter `{}`.",
+                    path[0]
+                );
                 if !arg && path[0] != "pest" {
                     path.splice(0..0, prefix.iter().cloned());
                 }
@@ -904,7 +909,7 @@ fn reject_recursive_silent_rule(
         rule.name
     );
     parents.push(path.to_vec());
-    rule.node.expr.clone().for_each_path(&mut |path| {
+    rule.node.expr.clone().for_each_path(&mut |path, _| {
         if path.len() > 1 || !rule.args.contains(&path[0]) {
             reject_recursive_silent_rule(path, silent_rules, parents)
         }
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 0f3165f..8a7218a 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -253,12 +253,12 @@ impl ParseExpr {
 }
 
 impl ParseExpr {
-    /// Visit every path, including those in arguments.
-    pub fn for_each_path(&mut self, f: &mut impl FnMut(&mut Vec<String>)) {
+    /// Visit every path and its arguments, including those in arguments.
+    pub fn for_each_path(&mut self, f: &mut impl FnMut(&mut Vec<String>, &Option<PathArgs>)) {
         match self {
             Self::Str(_) | Self::Insens(_) | Self::Range(_, _) => (),
             Self::Path(path, args) => {
-                f(path);
+                f(path, args);
                 if let Some(PathArgs::Call(args)) = args {
                     args.iter_mut().for_each(|arg| arg.expr.for_each_path(f))
                 }
-- 
2.43.0


From 3a81d298639ef004854077be1fa95b6ac9447526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 23/28] fix: an error in a grammar names the file it is in

---
 meta/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 8a7218a..3450ae2 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -430,7 +430,11 @@ fn _parse<P: AsRef<Path>>(
                                     &path,
                                     cache,
                                 )
-                                .map_err(|err| err.with_path(&path.to_string_lossy()))?;
+                                .map_err(|err| match err.path() {
+                                    // The error is in a module imported by this one.
+                                    Some(_) => err,
+                                    None => err.with_path(&path.to_string_lossy()),
+                                })?;
                                 cache.insert(key, Some(module.clone()));
                                 dependencies.extend(module.dependencies.iter().cloned());
                                 module
-- 
2.43.0


From 3e0d8eff2ce41b492ac824f71c951bfc937adf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 24/28] fix: Span::get overflowed on bounds at usize::MAX

---
 core/src/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/span.rs b/core/src/span.rs
index 99c1504..efdcc12 100644
--- a/core/src/span.rs
+++ b/core/src/span.rs
@@ -85,11 +85,11 @@ impl<'i> Span<'i> {
     pub fn get(&self, range: impl RangeBounds<usize>) -> Option<Span<'i>> {
         let start = match range.start_bound() {
             Bound::Included(offset) => *offset,
-            Bound::Excluded(offset) => *offset + 1,
+            Bound::Excluded(offset) => offset.checked_add(1)?,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(offset) => *offset + 1,
+            Bound::Included(offset) => offset.checked_add(1)?,
             Bound::Excluded(offset) => *offset,
             Bound::Unbounded => self.as_str().len(),
         };
-- 
2.43.0


From f48615cb62f92b2beb162be77edadce56a94c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 25/28] fix: pop recorded the pushed text instead of the
 matched location

---
 core/src/typed/template/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index fda3a74..b68fb4e 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -826,9 +826,10 @@ impl<'i, R: RuleType> TypedNode<'i, R> for pop<'i> {
         stack: &mut Stack<Span<'i>>,
         tracker: &mut Tracker<'i, R>,
     ) -> Option<(Position<'i>, Self)> {
+        let start = input;
         match stack.pop() {
             Some(span) => match input.match_string(span.as_str()) {
-                true => Some((input, Self::from(span))),
+                true => Some((input, Self::from(start.span(&input)))),
                 false => None,
             },
             None => {
-- 
2.43.0


From 6774e5fbae0588c619cef7cd50819091b2e11b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 26/28] fix: a parameter may have the name of its rule or of a
 module it uses

Type parameters of a generated rule hid the rule's own type and the modules
in its paths, so that such grammars did not compile.
---
 generator/src/typed/generator.rs | 21 +++++++++++++++++++--
 generator/src/typed/getter.rs    |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index e397913..97576ef 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -38,6 +38,23 @@ impl<'g> RuleConfig<'g> {
     fn from(rule: &'g ParseRule) -> Self {
         Self { grammar: rule }
     }
+    /// Type parameter for an argument of this rule.
+    ///
+    /// It must not hide this rule or a module that is used here.
+    pub(crate) fn argument(&self, name: &str) -> Ident {
+        let mut hidden = BTreeSet::from([self.grammar.name.clone()]);
+        self.grammar.node.expr.clone().for_each_path(&mut |path, _| {
+            if path.len() > 1 {
+                hidden.insert(path[0].clone());
+            }
+        });
+        let mut ident = name.to_string();
+        while hidden.contains(&ident) {
+            hidden.extend(self.grammar.args.iter().cloned());
+            ident.push('_');
+        }
+        format_ident!("r#{}", ident)
+    }
 }
 
 /// Information about the output of this rule.
@@ -167,7 +184,7 @@ fn create_rule<'g>(
         .grammar
         .args
         .iter()
-        .map(|s| format_ident!("r#{}", s))
+        .map(|s| rule_config.argument(s))
         .collect();
     let get_rule = |n| {
         let supers = prefix.iter().take(n).map(|s| quote! {super::super::});
@@ -377,7 +394,7 @@ fn process_expr<'g>(
                     "Unexpected arguments of parameter `{}`.",
                     prefix[0]
                 );
-                let ident = format_ident!("r#{}", prefix[0]);
+                let ident = rule_config.argument(&prefix[0]);
                 let typename = quote! {#ident};
                 let getter = GetterByName::from_generics_arg(&prefix[0]);
                 return Intermediate { typename, getter };
diff --git a/generator/src/typed/getter.rs b/generator/src/typed/getter.rs
index 69ea945..bd2b7a1 100644
--- a/generator/src/typed/getter.rs
+++ b/generator/src/typed/getter.rs
@@ -125,7 +125,7 @@ impl<'g> Node<'g> {
         match self {
             Node::Rule(tokens, _) => (quote! {res}, quote! {&'s #tokens}),
             Node::GenericsArg(name) => {
-                let ident = format_ident!("r#{}", name);
+                let ident = config.argument(name);
                 (quote! {res}, quote! {&'s #ident})
             }
             Node::Content(inner) => {
-- 
2.43.0


From aa2c3f3b7c8d70be78921c08d06cd88a7f4fb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 27/28] fix: imports are read from the directory of the grammar
 whatever its name and that of the directory end in

---
 generator/src/typed/generator.rs | 4 ++--
 meta/src/parser.rs               | 3 ---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 97576ef..3a0af75 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -1087,10 +1087,10 @@ pub fn derive_typed_parser(
     let module = data
         .iter()
         .map(|(input, root)| {
-            let mut root = root.clone().unwrap_or_else(|| {
+            let root = root.clone().unwrap_or_else(|| {
                 PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap_or(".".to_owned()))
+                    .join("_.rs")
             });
-            root.push("_.rs");
             match parser::parse(input, &root) {
                 Ok(pairs) => pairs,
                 Err(error) => panic!("error parsing \n{}", error.renamed_rules(rename_meta_rule)),
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 3450ae2..c34d7d9 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -318,9 +318,6 @@ fn mod_path_to_fs_path(root: &impl AsRef<Path>, mod_path: &[String]) -> PathBuf
         .parent()
         .expect("Grammar file path cannot be root.")
         .to_owned();
-    if matches!(path.extension().map(|x| x.to_str()), Some(Some("pest"))) {
-        path.pop();
-    }
     for sec in mod_path {
         let sec = match sec.as_str() {
             "super" => "..",
-- 
2.43.0


From 357a2ddd6da99787a71482830b027a171e4310ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 28/28] fix: accessors of an aliased Unicode property are named
 after the alias

---
 generator/src/typed/module.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 2e91e92..4244ea0 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -157,7 +157,8 @@ impl RuleGenerics {
 pub enum ModuleNode<'g> {
     Collection(HashMap<&'g str, Rc<ModuleNode<'g>>>),
     Generics(RuleGenerics),
-    Absolute(Box<dyn Fn(&TokenStream) -> Intermediate<'g>>),
+    /// Takes the root of the crate, and the name used by a grammar, which can be an alias.
+    Absolute(Box<dyn Fn(&TokenStream, &'g str) -> Intermediate<'g>>),
 }
 
 impl<'g> ModuleNode<'g> {
@@ -189,7 +190,7 @@ impl<'g> ModuleNode<'g> {
                 if !empty {
                     Err(ModuleError::UnexpectedArguments(rule_ref.clone()))?
                 }
-                f(root)
+                f(root, node)
             }
             Self::Generics(generics) => generics.call(node, rule_ref, args.as_ref(), root)?,
         };
@@ -310,9 +311,9 @@ impl<'g> ModuleSystem<'g> {
 
                     let name = lower.as_str();
                     let ident = format_ident!("{}", upper);
-                    let node = ModuleNode::Absolute(Box::new(move |root| {
+                    let node = ModuleNode::Absolute(Box::new(move |root, used_name| {
                         let typename = quote! { #root::unicode::#ident};
-                        let getter = GetterByName::from_rule(&typename, name);
+                        let getter = GetterByName::from_rule(&typename, used_name);
                         Intermediate { typename, getter }
                     }));
                     let node = Rc::new(node);
-- 
2.43.0

