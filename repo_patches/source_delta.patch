From 8a7a2a3b2d5191cd7a19f0c3fc5596a95752ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 01/22] fix: use the second identifier of a selector as its
 value

---
 crates/localiser/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bf3c916..b312a0a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1347,7 +1347,7 @@ fn pattern_selectors(
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
         let first_token = tree.token(&tree.tokens(first).unwrap()[0]);
-        let last = tree.first(selector).unwrap();
+        let last = tree.last(selector).unwrap();
         if tree.node_type(last) != &NodeType::Identifier {
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
-- 
2.43.0


From 909071578e63c0681c46b8a3d41225b87e20daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 02/22] fix: end literal text at its closing backtick

---
 crates/localiser/src/tree.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 07e2716..871e857 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -164,7 +164,7 @@ impl Tree {
         let mut patterns = HashMap::<String, usize>::new();
 
         // Process the tokens
-        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?.enumerate();
+        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?.enumerate().peekable();
         while let Some((current, token)) = lexer.next() {
             if token.token_type == TokenType::Grammar {
                 has_grammar = true;
@@ -386,12 +386,11 @@ impl Tree {
                         && tokens[current].string.as_str() == "`"
                     {
                         // Skip over 1st ` token.
-                        let Some((next, token)) = lexer.next() else {
-                            return Err(TreeError::EndedAbruptly);
-                        };
-                        Tree::push_token(&mut tokens, &mut lengths, token);
-                        if tokens[current].string.as_str() == "`" {
+                        if let Some((next, token)) =
+                            lexer.next_if(|(_, token)| token.string.as_str() == "`")
+                        {
                             // Literal 2nd ` found.
+                            Tree::push_token(&mut tokens, &mut lengths, token);
                             Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                         } else {
                             Tree::end_nested_state(&mut nodes, &mut parser);
@@ -408,7 +407,8 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "}"
                     {
-                        Tree::end_nested_state(&mut nodes, &mut parser);
+                        // Already moved to the parent node at the end of the literal text.
+                        parser.state = parser.nested_states.pop().unwrap();
                         continue;
                     }
                     return Err(TreeError::InvalidToken(
@@ -444,17 +444,8 @@ impl Tree {
                             }
                             Tree::end_nested_state(&mut nodes, &mut parser);
                         } else if token_str == "`" {
-                            // Skip over ` token as next token is a literal.
-                            let Some((next, token)) = lexer.next() else {
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &next,
-                            );
+                            // Skip over ` token as it marks start of literal text.
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::Text);
                             parser.nested_states.push(ParserState::Command);
                             parser.state = ParserState::LiteralText;
                         } else if token_str == "#" {
-- 
2.43.0


From 66b236b8ccf78a7b8be415025873d938c6e3c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 03/22] fix: return to the command node after its delay marker

---
 crates/localiser/src/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 871e857..45728ff 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -465,6 +465,7 @@ impl Tree {
                                 NodeType::NumberSign,
                                 &current,
                             );
+                            Tree::move_to_container(&mut nodes, &mut parser);
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
-- 
2.43.0


From 218ec571523824aa5fdb32542ce9662c2eaff82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 04/22] fix: start a named string with a pattern, an escape or
 a syntax character

---
 crates/localiser/src/tree.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 45728ff..7b35452 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -566,16 +566,19 @@ impl Tree {
                                     tokens[current].string.to_string(),
                                 ));
                             }
-                            let Some((_currrent, token)) = lexer.next() else {
-                                // Skip the next token
+                            let Some((next, token)) = lexer.next() else {
+                                // Skip over { token as it marks start of pattern.
                                 return Err(TreeError::EndedAbruptly);
                             };
                             Tree::push_token(&mut tokens, &mut lengths, token);
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                            parser.nested_states.push(ParserState::NamedString);
+                            parser.state = ParserState::SubString;
                             match Tree::pattern_start(
                                 &mut nodes,
                                 &mut parser,
                                 &mut tokens,
-                                &current,
+                                &next,
                                 &mut patterns,
                             ) {
                                 Ok(_) => {}
@@ -604,6 +607,7 @@ impl Tree {
                                 NodeType::Text,
                                 &current,
                             );
+                            parser.state = ParserState::SubString;
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
@@ -629,6 +633,7 @@ impl Tree {
                             NodeType::Text,
                             &current,
                         );
+                        parser.state = ParserState::SubString;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                         // Valid WhiteSpace is only a separator between Identifier and Substring.
                         let children = nodes[parser.current.unwrap()].children.as_ref().unwrap();
-- 
2.43.0


From 12470b0fae3c13ab63e4024382a0b107b1a69d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 05/22] fix: reject stray grammar characters among the options
 of a pattern

---
 crates/localiser/src/tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 7b35452..e43a105 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -366,9 +366,14 @@ impl Tree {
                         parser.current = nodes.get(parser.current.take().unwrap()).unwrap().parent;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                     } else if tokens[current].token_type == TokenType::Grammar {
-                        if tokens[current].string.as_str() == "}" {
-                            Tree::end_nested_state(&mut nodes, &mut parser);
+                        if tokens[current].string.as_str() != "}" {
+                            return Err(TreeError::InvalidToken(
+                                parser.state,
+                                tokens[current].start_grapheme,
+                                tokens[current].string.to_string(),
+                            ));
                         }
+                        Tree::end_nested_state(&mut nodes, &mut parser);
                     } else {
                         return Err(TreeError::InvalidToken(
                             parser.state,
-- 
2.43.0


From aa2cacc846565a82ce1e1f7262a74625832bcbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 06/22] fix: a selector can't refer to the main string

---
 crates/localiser/src/formatter.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b312a0a..bed97d1 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -42,6 +42,9 @@ use std::sync::Arc as RefCount;
 
 use std::str::FromStr;
 
+// Name of the main pattern. Not an identifier, thus can't be the name of a named string.
+const MAIN_PATTERN: &str = "";
+
 pub(crate) struct Formatter {
     language_tag: RefCount<LanguageTag>,
     icu_language: RefCount<IcuLanguage>,
@@ -77,7 +80,6 @@ impl Formatter {
         }
         let icu_language = localiser.language_tag_registry().icu_language(language_tag);
         let mut patterns = HashMap::<String, Vec<PatternPart>>::new();
-        patterns.insert("_".to_string(), Vec::<PatternPart>::new()); // Insert empty main pattern.
         let mut numbers = Vec::<String>::new();
         let mut selectors = Vec::<HashMap<String, String>>::new();
         let option_selectors = OptionSelectors {
@@ -176,7 +178,7 @@ impl Formatter {
                 return Err(FormatterError::InvalidNode(NodeType::String));
             }
         }
-        patterns.insert("_".to_string(), pattern);
+        patterns.insert(MAIN_PATTERN.to_string(), pattern);
         Ok(Formatter {
             language_tag: RefCount::clone(language_tag),
             icu_language,
@@ -192,7 +194,7 @@ impl Formatter {
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
     ) -> Result<(String, &RefCount<LanguageTag>), FormatterError> {
-        let pattern_string = self.format_pattern(localiser, values, "_")?;
+        let pattern_string = self.format_pattern(localiser, values, MAIN_PATTERN)?;
         Ok((pattern_string, &self.language_tag))
     }
 
-- 
2.43.0


From d4c1e56c48b15b5009ca255e66cafd704fcd965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 07/22] fix: forget the numbers of the previous format call

---
 crates/localiser/src/formatter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bed97d1..3ec21b1 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -194,6 +194,8 @@ impl Formatter {
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
     ) -> Result<(String, &RefCount<LanguageTag>), FormatterError> {
+        // Numbers of a previous use of the formatter must not be shown.
+        self.numbers.iter_mut().for_each(String::clear);
         let pattern_string = self.format_pattern(localiser, values, MAIN_PATTERN)?;
         Ok((pattern_string, &self.language_tag))
     }
-- 
2.43.0


From 13aa0da86e3b56af62152d75520f5e7152084d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 08/22] fix: use the selector `other` for values without their
 own selector

---
 crates/localiser/src/formatter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 3ec21b1..82d0d66 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -604,7 +604,10 @@ impl Formatter {
             let Some(selectors) = self.selectors.get(selectors_index) else {
                 return Err(FormatterError::SelectorsIndex(selectors_index));
             };
-            let Some(named) = selectors.get(&category) else {
+            let Some(named) = selectors
+                .get(&category)
+                .or_else(|| selectors.get("other"))
+            else {
                 return Err(FormatterError::SelectorsIndexNamed(
                     category,
                     selectors_index,
@@ -652,7 +655,10 @@ impl Formatter {
         let Some(selectors) = self.selectors.get(selectors_index) else {
             return Err(FormatterError::SelectorsIndex(selectors_index));
         };
-        let Some(named) = selectors.get(string_value) else {
+        let Some(named) = selectors
+            .get(string_value)
+            .or_else(|| selectors.get("other"))
+        else {
             return Err(FormatterError::SelectorsIndexNamed(
                 string_value.to_string(),
                 selectors_index,
-- 
2.43.0


From 2b8c46b254a750feb1989490011719ddf4254251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 09/22] fix: accept ISO time strings without a fraction, and
 with the Z time zone

---
 crates/localiser/src/formatter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 82d0d66..6669e93 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -981,7 +981,7 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
     trace!("Decompose ISO time string into ICU Time instance.");
 
     let no_t = string.trim_start_matches('T');
-    let no_plus = match no_t.find('+') {
+    let no_plus = match no_t.find(['+', 'Z']) {
         None => no_t,
         Some(pos) => &no_t[..pos],
     };
@@ -1019,7 +1019,9 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
                 // try nanosecond
                 let mut no_second = &no_minute[2..];
                 no_second = no_second.trim_start_matches('.');
-                nano = NanoSecond::from_str(no_second)?;
+                if !no_second.is_empty() {
+                    nano = NanoSecond::from_str(no_second)?;
+                }
             }
         }
     }
-- 
2.43.0


From e3482d0abeb51e440eae8f55dff3fe8b68dadf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 10/22] fix: use all digits of the year of an ISO date string
 +YYYYY

---
 crates/localiser/src/formatter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 6669e93..b6348e4 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -913,7 +913,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
         return Ok(date);
     }
     let parts: Vec<&str> = no_plus.split('-').collect();
-    if parts.len() == 1 {
+    if parts.len() == 1 && string.starts_with('+') {
+        // +YYYYY
+        year = i32::from_str(parts[0])?;
+    } else if parts.len() == 1 {
         // YYYYMMDD or YYYY. ISO 8601 may re-add YYYYMM in the future, once most historical data has been
         // converted from YYMMDD.
         if let Some(slice) = parts[0].get(..4) {
-- 
2.43.0


From 675d1fb3515ccfab24aa9b8e4db359b65fd8b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 11/22] fix: english_a_or_an does not panic for an empty string

---
 crates/localiser/src/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 9b0291f..f5e94d3 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -222,8 +222,8 @@ pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, Comm
         _ => return Err(CommandError::InvalidType(command.clone(), 1)),
     };
     let mut chars = string.chars();
-    match chars.next().unwrap() {
-        'a' | 'e' | 'i' | 'o' | 'u' => Ok("an".to_string()),
+    match chars.next() {
+        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
         _ => Ok("a".to_string()),
     }
 }
-- 
2.43.0


From e5b461fc1f382570e2d1844ff22510bc952d4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 12/22] fix: caching a string of another language than
 requested does not panic or drop entries

---
 crates/localiser/src/localiser.rs | 48 ++++++++-----------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index c96ac04..5446fb3 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -1036,7 +1036,7 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                self.add_string_to_cache(combined, &string, &localised.1);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1048,7 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                        self.add_string_to_cache(combined, &string, &localised.1);
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1141,7 +1141,6 @@ impl Localiser {
         let mut combined = component.to_string();
         combined.push('/');
         combined.push_str(identifier);
-        let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1150,7 +1149,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1207,7 +1205,7 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+            self.add_string_to_cache(combined, &string, &localised.1);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1261,7 +1259,6 @@ impl Localiser {
 
     fn add_string_to_cache(
         &self,
-        language_exists: bool,
         combined: String,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>,
@@ -1269,38 +1266,17 @@ impl Localiser {
         #[cfg(feature = "logging")]
         debug!("Caching literal string.");
 
-        if !language_exists {
-            // Language tag does not exist in cache
-            let mut data_entry = HashMap::<String, CacheData>::new();
-            data_entry.insert(
-                combined.to_string(),
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
-
-            #[cfg(not(feature = "sync"))]
-            self.cache
-                .borrow_mut()
-                .insert(RefCount::clone(tag), data_entry);
-
-            #[cfg(feature = "sync")]
-            self.cache
-                .write()
-                .unwrap()
-                .insert(RefCount::clone(tag), data_entry);
-        } else {
-            // Language tag does exist in cache
-            #[cfg(not(feature = "sync"))]
-            let mut binding = self.cache.borrow_mut();
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.cache.borrow_mut();
 
-            #[cfg(feature = "sync")]
-            let mut binding = self.cache.write().unwrap();
+        #[cfg(feature = "sync")]
+        let mut binding = self.cache.write().unwrap();
 
-            let data_entry = binding.get_mut(tag);
-            data_entry.unwrap().insert(
-                combined,
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
-        }
+        // Language tag of the found string may be absent in cache, even if requested language tag is present.
+        binding.entry(RefCount::clone(tag)).or_default().insert(
+            combined,
+            CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
+        );
     }
 }
 
-- 
2.43.0


From 61b98ec8fbf1cd8de7861b6bafe91f2243333326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 13/22] fix: formatting a string after its literal was cached

---
 crates/localiser/src/localiser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 5446fb3..1458c23 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -1204,7 +1204,8 @@ impl Localiser {
 
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
-        if caching {
+        // Pattern strings are not cached, as formatting methods would return the cached string unformatted.
+        if caching && !string.contains(|character| self.grammar.contains(character)) {
             self.add_string_to_cache(combined, &string, &localised.1);
         }
         Ok((string, RefCount::clone(&localised.1)))
-- 
2.43.0


From c87f78136c2d575af16f8b2486393a2a7ccba35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 14/22] fix: a cached string is not used for another component,
 or when fallback is not wanted

---
 crates/localiser/src/localiser.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 1458c23..b449326 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -46,7 +46,7 @@ pub struct Localiser {
     expander: LocaleExpander,
     fallback: MutCell<bool>,
     caching: MutCell<bool>,
-    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<String, CacheData>>>,
+    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>>,
     language_tag: MutCell<RefCount<LanguageTag>>,
     language_script_data: MutCell<Option<ScriptData>>,
 }
@@ -151,7 +151,7 @@ impl Localiser {
             fallback: MutCell::new(fallback),
             caching: MutCell::new(caching),
             cache: MutCell::new(
-                HashMap::<RefCount<LanguageTag>, HashMap<String, CacheData>>::new(),
+                HashMap::<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>::new(),
             ),
             language_tag: MutCell::new(tag),
             language_script_data: MutCell::new(language_script_data),
@@ -947,9 +947,7 @@ impl Localiser {
         fallback: bool, // true = fallback to default language.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier.as_ref());
+        let combined = (component.to_string(), identifier.to_string(), fallback);
         let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
@@ -1069,7 +1067,7 @@ impl Localiser {
             debug!("Caching formatting string.");
 
             if !_language_entry {
-                let mut data_entry = HashMap::<String, CacheData>::new();
+                let mut data_entry = HashMap::<CacheKey, CacheData>::new();
                 data_entry.insert(
                     combined.clone(),
                     CacheData::Formatter(MutCell::new(formatter)),
@@ -1138,9 +1136,7 @@ impl Localiser {
         fallback: bool, // true = fallback to default language, None = use the Localiser default.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier);
+        let combined = (component.to_string(), identifier.to_string(), fallback);
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1260,7 +1256,7 @@ impl Localiser {
 
     fn add_string_to_cache(
         &self,
-        combined: String,
+        combined: CacheKey,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>,
     ) {
@@ -1283,6 +1279,9 @@ impl Localiser {
 
 // Internal structs, enums, etc
 
+// Component, identifier, and whether fallback was allowed.
+type CacheKey = (String, String, bool);
+
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
     Formatter(MutCell<Formatter>),
-- 
2.43.0


From 1671e4199ec0e237e5e3ce12851da4a30e994fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:09 +0000
Subject: [PATCH 15/22] fix: reject ISO date strings with month 00 or day 00

---
 crates/localiser/src/formatter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b6348e4..573aaa4 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -12,7 +12,7 @@ use i18n_lexer::{DataProvider, IcuDataProvider, Token, TokenType};
 use i18n_utility::{LanguageTag, PlaceholderValue};
 use icu_calendar::{
     types::{IsoHour, IsoMinute, IsoSecond, NanoSecond, Time},
-    Date, DateTime, Iso,
+    CalendarError, Date, DateTime, Iso,
 };
 use icu_datetime::{
     options::length::{Bag, Date as DateLength, Time as TimeLength},
@@ -955,6 +955,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
             }
         }
     }
+    if month == 0 || day == 0 {
+        // Not detected by ICU4X, which then panics when the date is formatted.
+        return Err(CalendarError::OutOfRange.into());
+    }
     let result = Date::try_new_iso_date(year, month, day)?;
     Ok(result)
 }
-- 
2.43.0


From f9f9784bde3e4ad100c9ef39cc0ce852ce290d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:46 +0000
Subject: [PATCH 16/22] fix: Armenian, Kannada, Khojki and Kaithi are written
 from left to right

---
 crates/localiser/src/script.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index cbc06da..b3c5e12 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -55,7 +55,7 @@ impl DataProvider {
             "Armn".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
@@ -655,7 +655,7 @@ impl DataProvider {
             "Khoj".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -671,7 +671,7 @@ impl DataProvider {
             "Knda".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -699,7 +699,7 @@ impl DataProvider {
             "Kthi".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
-- 
2.43.0


From eabd897751a017fffe599a5c0b5896a4f38afeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:59 +0000
Subject: [PATCH 17/22] fix: string_exact_match() does not use strings of the
 parent languages

---
 crates/provider/sqlite3/src/provider.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 539671c..5f7a273 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -451,6 +451,9 @@ impl LocalisationProviderSqlite3 {
 
                 return Ok(strings);
             }
+            if exact {
+                break;
+            }
             tag = match tag.rsplit_once('-') {
                 None => String::new(),
                 Some(value) => value.0.to_owned(),
-- 
2.43.0


From 878006a14ac559856386414050ee2ea168f54818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:03 +0000
Subject: [PATCH 18/22] fix: match language tags by whole subtags, the language
 tag itself first

---
 crates/provider/sqlite3/src/provider.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 5f7a273..3174126 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -407,9 +407,6 @@ impl LocalisationProviderSqlite3 {
         let mut strings = Vec::<(String, RefCount<LanguageTag>)>::new();
         let mut tag = language_tag.as_str().to_string();
         while !tag.is_empty() {
-            if !exact {
-                tag.push('%');
-            }
             let mut rows = match statement.query([identifier, tag.as_str(), component]) {
                 Ok(value) => value,
                 Err(error) => {
@@ -2163,14 +2160,16 @@ fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
     match schema_version {
         "1.0" => {
             let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND \
-            languageTag "
+            component = ?3 AND "
                 .to_string();
             if exact {
-                query.push_str("= ?2")
+                query.push_str("languageTag = ?2")
             } else {
-                query.push_str("LIKE ?2")
+                // The language tag itself, else those having additional subtags.
+                query.push_str(
+                    "( languageTag = ?2 OR languageTag LIKE ?2 || '-%' ) ORDER BY languageTag",
+                )
             }
-            query.push_str(" AND component = ?3");
             if only_one {
                 query.push_str(" LIMIT 1")
             }
-- 
2.43.0


From 6a169ebe6c587b9247fd57e83d99de6be223776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:03 +0000
Subject: [PATCH 19/22] fix: identifier details have the languages of both
 files, and are not an error without a string

---
 crates/provider/sqlite3/src/provider.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 3174126..58d37a5 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1434,9 +1434,19 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
         match components.get(component) {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
-                let mut languages = self.identifier_languages(component, identifier, true)?;
-                if languages.is_empty() {
-                    languages = self.identifier_languages(component, identifier, false)?;
+                let component_files = self.components.get(component).unwrap();
+                let mut languages = Vec::<RefCount<LanguageTag>>::new();
+                if component_files.0 {
+                    languages = self.identifier_languages(component, identifier, true)?;
+                }
+                if component_files.1 {
+                    let languages_separate =
+                        self.identifier_languages(component, identifier, false)?;
+                    for language in languages_separate {
+                        if !languages.contains(&language) {
+                            languages.push(language);
+                        }
+                    }
                 }
                 Ok(IdentifierDetails {
                     languages,
-- 
2.43.0


From dd341804791cf781d68b60ecd73fa78c11a0f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:59 +0000
Subject: [PATCH 20/22] fix: the repository details have the contributors of
 each language

---
 crates/provider/sqlite3/src/provider.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 58d37a5..8383c86 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1088,6 +1088,13 @@ impl LocalisationProviderSqlite3 {
                 }
                 let repository_language = repository_details.languages.get_mut(language).unwrap();
                 repository_language.count += language_data.count;
+                for contributor in language_data.contributors.iter() {
+                    if !repository_language.contributors.contains(contributor) {
+                        repository_language
+                            .contributors
+                            .push(contributor.to_string());
+                    }
+                }
                 component_details.total_strings += language_data.count;
                 repository_details.total_strings += language_data.count;
             }
-- 
2.43.0


From 9c01379f3140a70afbeefec641095ba5e77bc37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:14 +0000
Subject: [PATCH 21/22] fix: verify_schema() detects missing columns at the end
 of a table

---
 crates/provider/sqlite3/src/provider.rs | 42 ++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 8383c86..795748c 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1598,7 +1598,27 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             table_exists(&table_list, "component")?;
             table_exists(&table_list, "languageData")?;
 
-            // Check required columns exists
+            // Required columns exists
+            #[rustfmt::skip]
+            columns_exists(connection, "contributor", &[
+                "rowID", "component", "languageTag", "contributor", "substituteFor", "comment", "verified",
+            ])?;
+            #[rustfmt::skip]
+            columns_exists(connection, "language", &["rowID", "tag", "englishName", "added"])?;
+            #[rustfmt::skip]
+            columns_exists(connection, "pattern", &[
+                "rowID", "component", "identifier", "languageTag", "string", "comment", "verified",
+            ])?;
+            #[rustfmt::skip]
+            columns_exists(connection, "component", &[
+                "rowID", "identifier", "languageTag", "comment", "added",
+            ])?;
+            #[rustfmt::skip]
+            columns_exists(connection, "languageData", &[
+                "rowID", "component", "languageTag", "count", "ratio",
+            ])?;
+
+            // Check required columns
             // Table: contributor
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('contributor');")?;
@@ -1948,6 +1968,26 @@ fn table_exists(table_list: &Vec<String>, name: &str) -> Result<(), SchemaError>
     Ok(())
 }
 
+/// Check the columns of the table exists.
+fn columns_exists(
+    connection: &Connection,
+    table: &str,
+    columns: &[&str],
+) -> Result<(), SchemaError> {
+    let mut statement =
+        connection.prepare("SELECT count( * ) FROM pragma_table_info( ?1 ) WHERE name = ?2;")?;
+    for column in columns {
+        let count: usize = statement.query_row([table, *column], |row| row.get(0))?;
+        if count == 0 {
+            return Err(SchemaError::MissingColumn(
+                table.to_string(),
+                column.to_string(),
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// Holds the default value of the column.
 #[allow(dead_code)]
 enum DefaultValue {
-- 
2.43.0


From b9ed953de87f183db0c6ffb4e500dc565bf91439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:52 +0000
Subject: [PATCH 22/22] fix: file and directory names that are not UTF-8 do not
 panic

---
 crates/provider/sqlite3/src/provider.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 795748c..77c6028 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -139,7 +139,10 @@ impl LocalisationProviderSqlite3 {
             if let Some(extension) = entry_data.path().extension() {
                 if extension == "sqlite3" {
                     let path = entry_data.path();
-                    let component = path.file_stem().unwrap().to_str().unwrap().to_string();
+                    let Some(component) = path.file_stem().and_then(|stem| stem.to_str()) else {
+                        continue; // Never a component identifier, as it is not UTF-8.
+                    };
+                    let component = component.to_string();
 
                     #[cfg(logging)]
                     trace!("Sqlite3 file: {}", component);
@@ -1944,7 +1947,7 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
         }
         _ => {
             return Err(SchemaError::Version(
-                connection.path().unwrap().to_string(),
+                connection.path().unwrap_or_default().to_string(),
                 "1.0".to_string(),
             ))
         }
-- 
2.43.0

