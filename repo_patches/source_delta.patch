From a4ea25eb659b13f132228d960ea9626ffdd5a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:42 +0000
Subject: [PATCH 01/42] fix: end literal text at its closing backtick, so
 literal patterns and command literals parse

---
 crates/localiser/src/tree.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 07e2716..e95332b 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -164,7 +164,9 @@ impl Tree {
         let mut patterns = HashMap::<String, usize>::new();
 
         // Process the tokens
-        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?.enumerate();
+        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?
+            .enumerate()
+            .peekable();
         while let Some((current, token)) = lexer.next() {
             if token.token_type == TokenType::Grammar {
                 has_grammar = true;
@@ -385,13 +387,12 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "`"
                     {
-                        // Skip over 1st ` token.
-                        let Some((next, token)) = lexer.next() else {
-                            return Err(TreeError::EndedAbruptly);
-                        };
-                        Tree::push_token(&mut tokens, &mut lengths, token);
-                        if tokens[current].string.as_str() == "`" {
-                            // Literal 2nd ` found.
+                        // Skip over 1st ` token. Only when it is followed by a 2nd ` token is it a literal `, otherwise
+                        // the literal text ends here, and the following token belongs to the enclosing state.
+                        if let Some((next, token)) =
+                            lexer.next_if(|(_, token)| token.string.as_str() == "`")
+                        {
+                            Tree::push_token(&mut tokens, &mut lengths, token);
                             Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                         } else {
                             Tree::end_nested_state(&mut nodes, &mut parser);
@@ -408,7 +409,8 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "}"
                     {
-                        Tree::end_nested_state(&mut nodes, &mut parser);
+                        // The Text node has been left already, thus remain at its container node.
+                        parser.state = parser.nested_states.pop().unwrap();
                         continue;
                     }
                     return Err(TreeError::InvalidToken(
@@ -444,17 +446,8 @@ impl Tree {
                             }
                             Tree::end_nested_state(&mut nodes, &mut parser);
                         } else if token_str == "`" {
-                            // Skip over ` token as next token is a literal.
-                            let Some((next, token)) = lexer.next() else {
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &next,
-                            );
+                            // Skip over ` token as it marks start of literal text.
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::Text);
                             parser.nested_states.push(ParserState::Command);
                             parser.state = ParserState::LiteralText;
                         } else if token_str == "#" {
-- 
2.43.0


From 701c704875f819d193b4a5e731923c041d8a0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 02/42] fix: named strings may start with an escape, a syntax
 character or a pattern

---
 crates/localiser/src/tree.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index e95332b..97ee6e9 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -567,21 +567,21 @@ impl Tree {
                                     tokens[current].string.to_string(),
                                 ));
                             }
-                            let Some((_currrent, token)) = lexer.next() else {
-                                // Skip the next token
+                            // Skip over { token as it marks start of pattern.
+                            let Some((next, token)) = lexer.next() else {
                                 return Err(TreeError::EndedAbruptly);
                             };
                             Tree::push_token(&mut tokens, &mut lengths, token);
-                            match Tree::pattern_start(
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                            parser.nested_states.push(ParserState::NamedString);
+                            parser.state = ParserState::SubString;
+                            Tree::pattern_start(
                                 &mut nodes,
                                 &mut parser,
                                 &mut tokens,
-                                &current,
+                                &next,
                                 &mut patterns,
-                            ) {
-                                Ok(_) => {}
-                                Err(error) => return Err(error),
-                            };
+                            )?;
                         } else if token_str == "`" {
                             // ` may only appear after Identifier node indicating start of SubString.
                             let children =
@@ -605,6 +605,7 @@ impl Tree {
                                 NodeType::Text,
                                 &current,
                             );
+                            parser.state = ParserState::SubString;
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
@@ -630,6 +631,7 @@ impl Tree {
                             NodeType::Text,
                             &current,
                         );
+                        parser.state = ParserState::SubString;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                         // Valid WhiteSpace is only a separator between Identifier and Substring.
                         let children = nodes[parser.current.unwrap()].children.as_ref().unwrap();
-- 
2.43.0


From fc1f1581436d30928cead835f4e83dd3dfecbfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:45 +0000
Subject: [PATCH 03/42] fix: delayed command pattern without parameters no
 longer panics

---
 crates/localiser/src/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 97ee6e9..e00190b 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -467,6 +467,7 @@ impl Tree {
                                 NodeType::NumberSign,
                                 &current,
                             );
+                            Tree::move_to_container(&mut nodes, &mut parser);
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
-- 
2.43.0


From 3d3ce8e353396b534c1e211f68dc38925101728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:48 +0000
Subject: [PATCH 04/42] fix: reject stray grammar tokens after a pattern
 keyword

---
 crates/localiser/src/tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index e00190b..8999980 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -368,9 +368,14 @@ impl Tree {
                         parser.current = nodes.get(parser.current.take().unwrap()).unwrap().parent;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                     } else if tokens[current].token_type == TokenType::Grammar {
-                        if tokens[current].string.as_str() == "}" {
-                            Tree::end_nested_state(&mut nodes, &mut parser);
+                        if tokens[current].string.as_str() != "}" {
+                            return Err(TreeError::InvalidToken(
+                                parser.state,
+                                tokens[current].start_grapheme,
+                                tokens[current].string.to_string(),
+                            ));
                         }
+                        Tree::end_nested_state(&mut nodes, &mut parser);
                     } else {
                         return Err(TreeError::InvalidToken(
                             parser.state,
-- 
2.43.0


From 86abd723490e03fe33869a1aa6e99198bd0c7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 05/42] fix: english_a_or_an no longer panics on an empty
 parameter

---
 crates/localiser/src/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 9b0291f..f5e94d3 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -222,8 +222,8 @@ pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, Comm
         _ => return Err(CommandError::InvalidType(command.clone(), 1)),
     };
     let mut chars = string.chars();
-    match chars.next().unwrap() {
-        'a' | 'e' | 'i' | 'o' | 'u' => Ok("an".to_string()),
+    match chars.next() {
+        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
         _ => Ok("a".to_string()),
     }
 }
-- 
2.43.0


From 7c2de8b63f68233e7756702c2f0e5f7c7454d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 06/42] fix: read the value of an option or selector, instead
 of its name twice

---
 crates/localiser/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bf3c916..b312a0a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1347,7 +1347,7 @@ fn pattern_selectors(
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
         let first_token = tree.token(&tree.tokens(first).unwrap()[0]);
-        let last = tree.first(selector).unwrap();
+        let last = tree.last(selector).unwrap();
         if tree.node_type(last) != &NodeType::Identifier {
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
-- 
2.43.0


From 98f64a112e7ac4277506029e96ea2dda830205d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:24 +0000
Subject: [PATCH 07/42] fix: a selector can not select the main string, which
 recursed without end

---
 crates/localiser/src/formatter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b312a0a..25cd62a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -77,7 +77,6 @@ impl Formatter {
         }
         let icu_language = localiser.language_tag_registry().icu_language(language_tag);
         let mut patterns = HashMap::<String, Vec<PatternPart>>::new();
-        patterns.insert("_".to_string(), Vec::<PatternPart>::new()); // Insert empty main pattern.
         let mut numbers = Vec::<String>::new();
         let mut selectors = Vec::<HashMap<String, String>>::new();
         let option_selectors = OptionSelectors {
@@ -112,7 +111,10 @@ impl Formatter {
 
                 // Two children: Identifier, String
                 let identifier_token = tree.token(&tree.tokens(identifier).unwrap()[0]);
-                if patterns.contains_key(identifier_token.string.as_str()) {
+                // The identifier `_` is reserved for the main pattern, which is not available to selectors.
+                if identifier_token.string.as_str() == "_"
+                    || patterns.contains_key(identifier_token.string.as_str())
+                {
                     return Err(FormatterError::NamedStringIdentifier(
                         identifier_token.string.as_str().to_string(),
                     ));
-- 
2.43.0


From 435f30beb287193c377b673b7f19208991ff21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:27 +0000
Subject: [PATCH 08/42] fix: a named string chosen by select no longer shows
 the number of an earlier plural selection

---
 crates/localiser/src/formatter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 25cd62a..ed290d2 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -656,7 +656,18 @@ impl Formatter {
                 selectors_index,
             ));
         };
-        let part_string = self.format_pattern(localiser, values, &named.to_string())?;
+        let named = named.to_string();
+
+        // No number selected this named string, thus clear any number of an earlier selection.
+        let Some(pattern) = self.patterns.get(&named) else {
+            return Err(FormatterError::PatternNamed(named));
+        };
+        for part in pattern.iter() {
+            if let PatternPart::NumberSign(index) = part {
+                self.numbers[*index].clear();
+            }
+        }
+        let part_string = self.format_pattern(localiser, values, &named)?;
         string.push_str(part_string.as_str());
         Ok(())
     }
-- 
2.43.0


From 7a5f46c25af554cb1c5b1e077ae3ac19251fe8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:30 +0000
Subject: [PATCH 09/42] fix: plural, ordinal and select fall back to their
 other selector

---
 crates/localiser/src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index ed290d2..652b802 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -602,7 +602,7 @@ impl Formatter {
             let Some(selectors) = self.selectors.get(selectors_index) else {
                 return Err(FormatterError::SelectorsIndex(selectors_index));
             };
-            let Some(named) = selectors.get(&category) else {
+            let Some(named) = selectors.get(&category).or_else(|| selectors.get("other")) else {
                 return Err(FormatterError::SelectorsIndexNamed(
                     category,
                     selectors_index,
@@ -650,7 +650,10 @@ impl Formatter {
         let Some(selectors) = self.selectors.get(selectors_index) else {
             return Err(FormatterError::SelectorsIndex(selectors_index));
         };
-        let Some(named) = selectors.get(string_value) else {
+        let Some(named) = selectors
+            .get(string_value)
+            .or_else(|| selectors.get("other"))
+        else {
             return Err(FormatterError::SelectorsIndexNamed(
                 string_value.to_string(),
                 selectors_index,
-- 
2.43.0


From c478ea8aa8444c8358bdfdda641c5c2d76c08172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:39 +0000
Subject: [PATCH 10/42] fix: ISO time strings without a nanosecond or with the
 UTC designator are accepted

---
 crates/localiser/src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 652b802..4ceb9cf 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -991,10 +991,11 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
         None => no_t,
         Some(pos) => &no_t[..pos],
     };
-    let trimmed = match no_plus.find('-') {
+    let no_minus = match no_plus.find('-') {
         None => no_plus,
         Some(pos) => &no_plus[..pos],
     };
+    let trimmed = no_minus.trim_end_matches('Z');
     if trimmed.is_empty() {
         return Ok(Time::new(
             IsoHour::zero(),
@@ -1025,7 +1026,9 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
                 // try nanosecond
                 let mut no_second = &no_minute[2..];
                 no_second = no_second.trim_start_matches('.');
-                nano = NanoSecond::from_str(no_second)?;
+                if !no_second.is_empty() {
+                    nano = NanoSecond::from_str(no_second)?;
+                }
             }
         }
     }
-- 
2.43.0


From 522f31701bf7a76407cb2957bcdfea515dd815cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 11/42] fix: ISO date strings of the form +YYYYY keep all the
 digits of the year

---
 crates/localiser/src/formatter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 4ceb9cf..7e531dd 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -919,7 +919,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
         return Ok(date);
     }
     let parts: Vec<&str> = no_plus.split('-').collect();
-    if parts.len() == 1 {
+    if parts.len() == 1 && string.starts_with('+') {
+        // +YYYYY
+        year = i32::from_str(parts[0])?;
+    } else if parts.len() == 1 {
         // YYYYMMDD or YYYY. ISO 8601 may re-add YYYYMM in the future, once most historical data has been
         // converted from YYMMDD.
         if let Some(slice) = parts[0].get(..4) {
-- 
2.43.0


From bf0f47ee0fd083314856826f4d4b0d6d52417ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 12/42] fix: cache literal strings under the requested language
 tag, like formatters

---
 crates/localiser/src/localiser.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index c96ac04..60f5368 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -1036,7 +1036,13 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                self.add_string_to_cache(
+                    _language_entry,
+                    language_tag,
+                    combined,
+                    &string,
+                    &localised.1,
+                );
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1054,13 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                        self.add_string_to_cache(
+                            _language_entry,
+                            language_tag,
+                            combined,
+                            &string,
+                            &localised.1,
+                        );
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1207,7 +1219,13 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+            self.add_string_to_cache(
+                _language_entry,
+                language_tag,
+                combined,
+                &string,
+                &localised.1,
+            );
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1262,6 +1280,7 @@ impl Localiser {
     fn add_string_to_cache(
         &self,
         language_exists: bool,
+        language_tag: &RefCount<LanguageTag>, // requested language, may differ to language of the string.
         combined: String,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>,
@@ -1280,13 +1299,13 @@ impl Localiser {
             #[cfg(not(feature = "sync"))]
             self.cache
                 .borrow_mut()
-                .insert(RefCount::clone(tag), data_entry);
+                .insert(RefCount::clone(language_tag), data_entry);
 
             #[cfg(feature = "sync")]
             self.cache
                 .write()
                 .unwrap()
-                .insert(RefCount::clone(tag), data_entry);
+                .insert(RefCount::clone(language_tag), data_entry);
         } else {
             // Language tag does exist in cache
             #[cfg(not(feature = "sync"))]
@@ -1295,7 +1314,7 @@ impl Localiser {
             #[cfg(feature = "sync")]
             let mut binding = self.cache.write().unwrap();
 
-            let data_entry = binding.get_mut(tag);
+            let data_entry = binding.get_mut(language_tag);
             data_entry.unwrap().insert(
                 combined,
                 CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-- 
2.43.0


From 1e9501c3471727385a084bd8ed4eb17924c1caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:47 +0000
Subject: [PATCH 13/42] fix: cached strings are reused only for the same kind
 of request

---
 crates/localiser/src/localiser.rs | 33 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 60f5368..d81e735 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -46,7 +46,7 @@ pub struct Localiser {
     expander: LocaleExpander,
     fallback: MutCell<bool>,
     caching: MutCell<bool>,
-    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<String, CacheData>>>,
+    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>>,
     language_tag: MutCell<RefCount<LanguageTag>>,
     language_script_data: MutCell<Option<ScriptData>>,
 }
@@ -151,7 +151,7 @@ impl Localiser {
             fallback: MutCell::new(fallback),
             caching: MutCell::new(caching),
             cache: MutCell::new(
-                HashMap::<RefCount<LanguageTag>, HashMap<String, CacheData>>::new(),
+                HashMap::<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>::new(),
             ),
             language_tag: MutCell::new(tag),
             language_script_data: MutCell::new(language_script_data),
@@ -947,9 +947,12 @@ impl Localiser {
         fallback: bool, // true = fallback to default language.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier.as_ref());
+        let combined = (
+            component.to_string(),
+            identifier.to_string(),
+            false,
+            fallback,
+        );
         let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
@@ -1081,7 +1084,7 @@ impl Localiser {
             debug!("Caching formatting string.");
 
             if !_language_entry {
-                let mut data_entry = HashMap::<String, CacheData>::new();
+                let mut data_entry = HashMap::<CacheKey, CacheData>::new();
                 data_entry.insert(
                     combined.clone(),
                     CacheData::Formatter(MutCell::new(formatter)),
@@ -1150,9 +1153,12 @@ impl Localiser {
         fallback: bool, // true = fallback to default language, None = use the Localiser default.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier);
+        let combined = (
+            component.to_string(),
+            identifier.to_string(),
+            true,
+            fallback,
+        );
         let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
@@ -1281,7 +1287,7 @@ impl Localiser {
         &self,
         language_exists: bool,
         language_tag: &RefCount<LanguageTag>, // requested language, may differ to language of the string.
-        combined: String,
+        combined: CacheKey,
         string: &RefCount<String>,
         tag: &RefCount<LanguageTag>,
     ) {
@@ -1290,9 +1296,9 @@ impl Localiser {
 
         if !language_exists {
             // Language tag does not exist in cache
-            let mut data_entry = HashMap::<String, CacheData>::new();
+            let mut data_entry = HashMap::<CacheKey, CacheData>::new();
             data_entry.insert(
-                combined.to_string(),
+                combined,
                 CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
             );
 
@@ -1325,6 +1331,9 @@ impl Localiser {
 
 // Internal structs, enums, etc
 
+// Component, identifier, whether the string is a literal, and whether falling back was allowed.
+type CacheKey = (String, String, bool, bool);
+
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
     Formatter(MutCell<Formatter>),
-- 
2.43.0


From 671754d47d5d1a1528933dc43604d07ecf9fc0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:55 +0000
Subject: [PATCH 14/42] fix: language tags are matched on whole subtags, and an
 exact match is preferred

---
 crates/provider/sqlite3/src/provider.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 539671c..68d9c1b 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -407,9 +407,6 @@ impl LocalisationProviderSqlite3 {
         let mut strings = Vec::<(String, RefCount<LanguageTag>)>::new();
         let mut tag = language_tag.as_str().to_string();
         while !tag.is_empty() {
-            if !exact {
-                tag.push('%');
-            }
             let mut rows = match statement.query([identifier, tag.as_str(), component]) {
                 Ok(value) => value,
                 Err(error) => {
@@ -2159,15 +2156,15 @@ fn columns_check(
 fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
     match schema_version {
         "1.0" => {
-            let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND \
-            languageTag "
-                .to_string();
+            let mut query =
+                "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND ".to_string();
             if exact {
-                query.push_str("= ?2")
+                query.push_str("languageTag = ?2")
             } else {
-                query.push_str("LIKE ?2")
+                // The language tag itself, or the language tag followed by further subtags.
+                query.push_str("( languageTag LIKE ?2 OR languageTag LIKE ?2 || '-%' )")
             }
-            query.push_str(" AND component = ?3");
+            query.push_str(" AND component = ?3 ORDER BY languageTag");
             if only_one {
                 query.push_str(" LIMIT 1")
             }
-- 
2.43.0


From 997219959534185a7ae73b1d1a720b5b02bd57e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 15/42] fix: an exact match does not fall back to a parent
 language tag

---
 crates/provider/sqlite3/src/provider.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 68d9c1b..b95c190 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -448,6 +448,9 @@ impl LocalisationProviderSqlite3 {
 
                 return Ok(strings);
             }
+            if exact {
+                break;
+            }
             tag = match tag.rsplit_once('-') {
                 None => String::new(),
                 Some(value) => value.0.to_owned(),
-- 
2.43.0


From 8a5a8600e32c560da7f9c55787c5c5facf8e23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 16/42] fix: identifier details cover both the all-in-one and
 the component file

---
 crates/provider/sqlite3/src/provider.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index b95c190..d7a6582 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1434,9 +1434,17 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
         match components.get(component) {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
-                let mut languages = self.identifier_languages(component, identifier, true)?;
-                if languages.is_empty() {
-                    languages = self.identifier_languages(component, identifier, false)?;
+                let component_files = self.components.get(component).unwrap();
+                let mut languages = Vec::<RefCount<LanguageTag>>::new();
+                if component_files.0 {
+                    languages = self.identifier_languages(component, identifier, true)?;
+                }
+                if component_files.1 {
+                    for language in self.identifier_languages(component, identifier, false)? {
+                        if !languages.contains(&language) {
+                            languages.push(language);
+                        }
+                    }
                 }
                 Ok(IdentifierDetails {
                     languages,
-- 
2.43.0


From 19fa71ce709ab41372de949ece1f733f4da3428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 17/42] fix: schema verification detects missing trailing
 columns

---
 crates/provider/sqlite3/src/provider.rs | 60 +++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index d7a6582..fd1e9c1 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1591,6 +1591,19 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
 
             // Check required columns exists
             // Table: contributor
+            columns_exist(
+                connection,
+                "contributor",
+                &[
+                    "rowID",
+                    "component",
+                    "languageTag",
+                    "contributor",
+                    "substituteFor",
+                    "comment",
+                    "verified",
+                ],
+            )?;
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('contributor');")?;
             let mut rows = statement.query([])?;
@@ -1679,6 +1692,11 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             }
 
             // Table: language
+            columns_exist(
+                connection,
+                "language",
+                &["rowID", "tag", "englishName", "added"],
+            )?;
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('language');")?;
             let mut rows = statement.query([])?;
@@ -1718,6 +1736,19 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             }
 
             // Table: pattern
+            columns_exist(
+                connection,
+                "pattern",
+                &[
+                    "rowID",
+                    "component",
+                    "identifier",
+                    "languageTag",
+                    "string",
+                    "comment",
+                    "verified",
+                ],
+            )?;
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('pattern');")?;
             let mut rows = statement.query([])?;
@@ -1790,6 +1821,11 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             }
 
             // Table: component
+            columns_exist(
+                connection,
+                "component",
+                &["rowID", "identifier", "languageTag", "comment", "added"],
+            )?;
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('component');")?;
             let mut rows = statement.query([])?;
@@ -1848,6 +1884,11 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             }
 
             // Table: languageData
+            columns_exist(
+                connection,
+                "languageData",
+                &["rowID", "component", "languageTag", "count", "ratio"],
+            )?;
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('languageData');")?;
             let mut rows = statement.query([])?;
@@ -1939,6 +1980,25 @@ fn table_exists(table_list: &Vec<String>, name: &str) -> Result<(), SchemaError>
     Ok(())
 }
 
+/// Check the columns exist, as a table may have fewer columns than required.
+fn columns_exist(connection: &Connection, table: &str, names: &[&str]) -> Result<(), SchemaError> {
+    let mut statement = connection.prepare("SELECT name FROM pragma_table_info(?1);")?;
+    let mut rows = statement.query([table])?;
+    let mut columns = Vec::<String>::new();
+    while let Some(row) = rows.next()? {
+        columns.push(row.get(0)?);
+    }
+    for name in names {
+        if !columns.iter().any(|column| column == name) {
+            return Err(SchemaError::MissingColumn(
+                table.to_string(),
+                name.to_string(),
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// Holds the default value of the column.
 #[allow(dead_code)]
 enum DefaultValue {
-- 
2.43.0


From 5fe62022619126c91d868e687fe38bfe87ba87f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 18/42] fix: the feature icu_extended takes effect, as the code
 was guarded by a name that is not a feature

---
 crates/localiser/src/formatter.rs |  4 ++--
 crates/utility/src/error.rs       | 16 ++++++++--------
 crates/utility/src/language.rs    |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 7e531dd..13a875b 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -22,10 +22,10 @@ use icu_decimal::{options, FixedDecimalFormatter};
 use icu_plurals::{PluralCategory, PluralRules};
 use icu_provider::prelude::DataLocale;
 
-#[cfg(not(feature = "extend"))]
+#[cfg(not(feature = "icu_extended"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
 
-#[cfg(feature = "extend")]
+#[cfg(feature = "icu_extended")]
 use icu_locid::Locale as IcuLanguage;
 
 #[cfg(feature = "logging")]
diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index e9afd00..5950212 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -21,9 +21,9 @@ use std::{
 #[derive(Debug, PartialEq, Copy, Clone)]
 #[non_exhaustive]
 pub enum RegistryError {
-    #[cfg(not(feature = "extend"))]
+    #[cfg(not(feature = "icu_extended"))]
     LanguageIdentifier(ParserError),
-    #[cfg(feature = "extend")]
+    #[cfg(feature = "icu_extended")]
     Locale(ParserError),
 }
 
@@ -33,7 +33,7 @@ impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
         let type_string = PlaceholderValue::String("IcuError".to_string());
         match self {
-            #[cfg(not(feature = "extend"))]
+            #[cfg(not(feature = "icu_extended"))]
             RegistryError::LanguageIdentifier(error) => {
                 // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
@@ -53,7 +53,7 @@ impl LocalisationTrait for RegistryError {
                 }
             }
 
-            #[cfg(feature = "extend")]
+            #[cfg(feature = "icu_extended")]
             RegistryError::Locale(error) => {
                 // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
@@ -79,12 +79,12 @@ impl LocalisationTrait for RegistryError {
 impl Display for RegistryError {
     fn fmt(&self, formatter: &mut Formatter) -> Result {
         match self {
-            #[cfg(not(feature = "extend"))]
+            #[cfg(not(feature = "icu_extended"))]
             RegistryError::LanguageIdentifier(ref error) => {
                 write!(formatter, "RegistryError::LanguageIdentifier: [{}].", error)
             }
 
-            #[cfg(feature = "extend")]
+            #[cfg(feature = "icu_extended")]
             RegistryError::Locale(ref error) => {
                 write!(formatter, "RegistryError::Locale: [{}].", error)
             }
@@ -96,12 +96,12 @@ impl Display for RegistryError {
 impl Error for RegistryError {}
 
 impl From<ParserError> for RegistryError {
-    #[cfg(not(feature = "extend"))]
+    #[cfg(not(feature = "icu_extended"))]
     fn from(error: ParserError) -> RegistryError {
         RegistryError::LanguageIdentifier(error)
     }
 
-    #[cfg(feature = "extend")]
+    #[cfg(feature = "icu_extended")]
     fn from(error: ParserError) -> RegistryError {
         RegistryError::Locale(error)
     }
diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index e2a3033..2f991d6 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -5,10 +5,10 @@
 
 use crate::RegistryError;
 
-#[cfg(not(feature = "extend"))]
+#[cfg(not(feature = "icu_extended"))]
 use icu_locid::LanguageIdentifier as IcuLanguage;
 
-#[cfg(feature = "extend")]
+#[cfg(feature = "icu_extended")]
 use icu_locid::Locale as IcuLanguage;
 
 #[cfg(not(feature = "sync"))]
-- 
2.43.0


From 1ef385ccfebaf678e69445b931b985570b7b0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:56 +0000
Subject: [PATCH 19/42] fix: the calendar option accepts the documented
 calendars

---
 crates/localiser/src/formatter.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 13a875b..01abcbf 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -19,6 +19,7 @@ use icu_datetime::{
     DateFormatter, DateTimeFormatter, TimeFormatter,
 };
 use icu_decimal::{options, FixedDecimalFormatter};
+use icu_locid::Locale;
 use icu_plurals::{PluralCategory, PluralRules};
 use icu_provider::prelude::DataLocale;
 
@@ -82,10 +83,10 @@ impl Formatter {
         let option_selectors = OptionSelectors {
             valid_plurals: vec!["zero", "one", "two", "few", "many", "other"],
             calendars: vec![
-                "gregorian",
+                "gregory",
                 "buddhist",
                 "japanese",
-                "ethiopian",
+                "ethiopic",
                 "indian",
                 "coptic",
                 "iso",
@@ -1126,7 +1127,7 @@ fn part_pattern(
         let strings = pattern_selectors(tree, index)?;
         let mut length_date: Option<DateLength> = None;
         let mut length_time: Option<TimeLength> = None;
-        let mut calendar: Option<IcuLanguage> = None;
+        let mut calendar: Option<Locale> = None;
         for (key, value) in strings.iter() {
             if key.as_str() == "date" {
                 length_date = Some(date_length(value.as_str())?);
@@ -1474,7 +1475,7 @@ enum PatternPart {
         placeholder: String,
         length_date: Option<DateLength>,
         length_time: Option<TimeLength>,
-        calendar: Option<IcuLanguage>,
+        calendar: Option<Locale>,
     },
     PatternComplex {
         placeholder: String,
-- 
2.43.0


From f9289349429ab2e45c0d2747c790ade8f95ad18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:38 +0000
Subject: [PATCH 20/42] fix: threads registering the same language tag at the
 same time share one instance

---
 crates/utility/src/language.rs | 39 +++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index 2f991d6..8f8934d 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -203,6 +203,23 @@ impl LanguageTagRegistry {
         // Requested tag is not in tags or deprecated, add to registry and return reference counted
         // tag.
         let rc_new_tag = RefCount::new(LanguageTag { tag: new_tag });
+
+        #[cfg(not(feature = "sync"))]
+        self.tags.borrow_mut().insert(
+            rc_new_tag.as_str().to_string(),
+            RefCount::clone(&rc_new_tag),
+        );
+
+        // Another thread may have registered the tag in the meantime, then its instance is shared.
+        #[cfg(feature = "sync")]
+        let rc_new_tag = RefCount::clone(
+            self.tags
+                .lock()
+                .unwrap()
+                .entry(rc_new_tag.as_str().to_string())
+                .or_insert(rc_new_tag),
+        );
+
         if language_tag != rc_new_tag.as_str() {
             #[cfg(not(feature = "sync"))]
             self.deprecated
@@ -216,18 +233,6 @@ impl LanguageTagRegistry {
                 .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));
         }
 
-        #[cfg(not(feature = "sync"))]
-        self.tags.borrow_mut().insert(
-            rc_new_tag.as_str().to_string(),
-            RefCount::clone(&rc_new_tag),
-        );
-
-        #[cfg(feature = "sync")]
-        self.tags.lock().unwrap().insert(
-            rc_new_tag.as_str().to_string(),
-            RefCount::clone(&rc_new_tag),
-        );
-
         Ok(RefCount::clone(&rc_new_tag))
     }
 
@@ -276,10 +281,14 @@ impl LanguageTagRegistry {
             RefCount::clone(&icu_language),
         );
 
+        // Another thread may have added the instance in the meantime, then that instance is shared.
         #[cfg(feature = "sync")]
-        self.icu.lock().unwrap().insert(
-            RefCount::clone(language_tag),
-            RefCount::clone(&icu_language),
+        let icu_language = RefCount::clone(
+            self.icu
+                .lock()
+                .unwrap()
+                .entry(RefCount::clone(language_tag))
+                .or_insert(icu_language),
         );
 
         icu_language
-- 
2.43.0


From 913267e9d008037e1f41272366b73aa1940443e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:20 +0000
Subject: [PATCH 21/42] fix: script data of Armn, Ethi, Hrkt, Khoj, Knda, Kthi,
 Todr, and Yiii

---
 crates/localiser/src/script.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index cbc06da..b8ab11d 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -55,7 +55,7 @@ impl DataProvider {
             "Armn".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
@@ -321,7 +321,7 @@ impl DataProvider {
             ScriptData {
                 category: Category::Abugida,
                 directions: vec![ScriptDirection::TopToBottomLeftToRight],
-                historic: true,
+                historic: false,
             },
         );
         data.insert(
@@ -549,7 +549,7 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Hikt".to_string(),
+            "Hrkt".to_string(),
             ScriptData {
                 category: Category::Syllabic,
                 directions: vec![
@@ -655,7 +655,7 @@ impl DataProvider {
             "Khoj".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -671,8 +671,8 @@ impl DataProvider {
             "Knda".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
-                historic: true,
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
+                historic: false,
             },
         );
         data.insert(
@@ -699,7 +699,7 @@ impl DataProvider {
             "Kthi".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -1484,7 +1484,7 @@ impl DataProvider {
             "Todr".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
@@ -1569,10 +1569,10 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Yezi".to_string(),
+            "Yiii".to_string(),
             ScriptData {
                 category: Category::Syllabic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
-- 
2.43.0


From 5afffd67ca6586c57df58d7a297c18930a5f4eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:47 +0000
Subject: [PATCH 22/42] fix: a tag another thread registered is not noted as a
 deprecated spelling

---
 crates/utility/src/language.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index 8f8934d..35a4da3 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -192,10 +192,13 @@ impl LanguageTagRegistry {
 
             #[cfg(feature = "sync")]
             if let Some(result) = self.tags.lock().unwrap().get(&new_tag) {
-                self.deprecated
-                    .lock()
-                    .unwrap()
-                    .insert(language_tag.to_string(), RefCount::clone(result));
+                // Another thread may have registered the tag itself in the meantime.
+                if language_tag != new_tag {
+                    self.deprecated
+                        .lock()
+                        .unwrap()
+                        .insert(language_tag.to_string(), RefCount::clone(result));
+                }
                 return Ok(RefCount::clone(result));
             }
         }
-- 
2.43.0


From a9676af87676de868d95c578de87a2704d7613b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:06 +0000
Subject: [PATCH 23/42] fix: month and day zero of an ISO date are refused
 instead of a panic or a wrong date

---
 crates/localiser/src/formatter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 01abcbf..a50b7e9 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -12,7 +12,7 @@ use i18n_lexer::{DataProvider, IcuDataProvider, Token, TokenType};
 use i18n_utility::{LanguageTag, PlaceholderValue};
 use icu_calendar::{
     types::{IsoHour, IsoMinute, IsoSecond, NanoSecond, Time},
-    Date, DateTime, Iso,
+    CalendarError, Date, DateTime, Iso,
 };
 use icu_datetime::{
     options::length::{Bag, Date as DateLength, Time as TimeLength},
@@ -962,6 +962,21 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
             }
         }
     }
+    // ICU4X only checks the upper limits.
+    if month == 0 {
+        return Err(CalendarError::Underflow {
+            field: "month",
+            min: 1,
+        }
+        .into());
+    }
+    if day == 0 {
+        return Err(CalendarError::Underflow {
+            field: "day",
+            min: 1,
+        }
+        .into());
+    }
     let result = Date::try_new_iso_date(year, month, day)?;
     Ok(result)
 }
-- 
2.43.0


From 9fd8badb0d4d20cae7fb4b9c31e172da3889dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:23 +0000
Subject: [PATCH 24/42] fix: the calendar option works for languages with other
 extensions

---
 crates/localiser/src/formatter.rs | 44 ++++++-------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index a50b7e9..487decf 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -19,7 +19,7 @@ use icu_datetime::{
     DateFormatter, DateTimeFormatter, TimeFormatter,
 };
 use icu_decimal::{options, FixedDecimalFormatter};
-use icu_locid::Locale;
+use icu_locid::{extensions_unicode_key, Locale};
 use icu_plurals::{PluralCategory, PluralRules};
 use icu_provider::prelude::DataLocale;
 
@@ -1156,41 +1156,13 @@ fn part_pattern(
                         placeholder_token.string.as_str().to_string(),
                     ));
                 }
-                let mut new_calendar = "-u-ca-".to_string();
-                new_calendar.push_str(value.as_str());
-                let mut locale_string = icu_language.to_string();
-                match locale_string.find("-u-ca-") {
-                    None => {
-                        locale_string.push_str(new_calendar.as_str());
-                    }
-                    Some(tag_position) => {
-                        let mut hyphens = locale_string.match_indices('-');
-                        while let Some(pair) = hyphens.next() {
-                            if pair.0 == tag_position {
-                                hyphens.next(); // There is an experimental advance_by( 2 ) to replace two next()
-                                hyphens.next();
-                                match hyphens.next() {
-                                    None => {
-                                        // The calendar tag is last tag
-                                        let old_calendar =
-                                            locale_string.get(tag_position..).unwrap();
-                                        locale_string = locale_string
-                                            .replace(old_calendar, new_calendar.as_str());
-                                    }
-                                    Some(end) => {
-                                        new_calendar.push('-');
-                                        let old_calendar =
-                                            locale_string.get(tag_position..=end.0).unwrap();
-                                        locale_string = locale_string
-                                            .replace(old_calendar, new_calendar.as_str());
-                                    }
-                                }
-                                break;
-                            }
-                        }
-                    }
-                }
-                let calendar_locale = locale_string.parse()?;
+                // The language may already have a calendar, or other extensions.
+                let mut calendar_locale: Locale = icu_language.to_string().parse()?;
+                calendar_locale
+                    .extensions
+                    .unicode
+                    .keywords
+                    .set(extensions_unicode_key!("ca"), value.parse()?);
                 calendar = Some(calendar_locale);
             } else {
                 return Err(FormatterError::InvalidOption(
-- 
2.43.0


From 372a187884c86dcd01808975e0c72994712b81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:33 +0000
Subject: [PATCH 25/42] fix: errors name the components and strings that their
 messages are shipped in

---
 crates/lexer/src/error.rs     |  8 ++++----
 crates/localiser/src/error.rs | 18 +++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 370003c..99a50cf 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -125,7 +125,7 @@ impl LocalisationTrait for IcuError {
 
             IcuError::Grapheme => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "grapheme".to_string(),
                     values: None,
                 };
@@ -147,7 +147,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::Syntax => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "syntax".to_string(),
                     values: None,
                 };
@@ -169,7 +169,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::WhiteSpace => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "white_space".to_string(),
                     values: None,
                 };
@@ -272,7 +272,7 @@ impl LocalisationTrait for LexerError {
             LexerError::NoGrammar => {
                 let message = LocalisationData {
                     component: "i18n_lexer".to_string(),
-                    identifier: "no_grammar_syntax".to_string(),
+                    identifier: "no_grammar".to_string(),
                     values: None,
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index eb598b1..b229981 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -77,7 +77,7 @@ impl LocalisationTrait for TreeError {
             }
             TreeError::EndedAbruptly => {
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "string_ended_abruptly".to_string(),
                     values: None,
                 };
@@ -109,7 +109,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_token".to_string(),
                     values: Some(message_values),
                 };
@@ -136,7 +136,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_pattern".to_string(),
                     values: Some(message_values),
                 };
@@ -163,7 +163,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::Unsigned(*position as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "multi_number_sign".to_string(),
                     values: Some(message_values),
                 };
@@ -190,7 +190,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_named".to_string(),
                     values: Some(message_values),
                 };
@@ -309,7 +309,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "already_exists".to_string(),
                     values: Some(message_values),
                 };
@@ -336,7 +336,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "command_not_found".to_string(),
                     values: Some(message_values),
                 };
@@ -367,7 +367,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "parameter_missing".to_string(),
                     values: Some(message_values),
                 };
@@ -398,7 +398,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_type".to_string(),
                     values: Some(message_values),
                 };
-- 
2.43.0


From ce1b30e0ee5873ca6e6ac87acf342ff207f9905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:33 +0000
Subject: [PATCH 26/42] fix: the shipped strings of the lexer belong to the
 component i18n_lexer

---
 crates/lexer/l10n/i18n_lexer.sqlite3 | Bin 57344 -> 57344 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/crates/lexer/l10n/i18n_lexer.sqlite3 b/crates/lexer/l10n/i18n_lexer.sqlite3
index 624a48a3165869a6e5610ccba24c16fc99d7c62a..fc57b914ba34c6ecba04aef4e82e47f07ada1639 100644
GIT binary patch
delta 265
zcmZoTz}#?vd4e<}`$QRMR(1xxvd)bu@$!s$n~%tw3IM5J`ZIvM$&>x{8S@q&_6G`0
zJ`%44lz1M0!yiZ;Sg#EdJFs44(}7dmK-PnMB9rf*wgR&L-xHr~c*YaRsy>qrBp;v2
z0g?e{bAjZ(v&npU@j0m#sYU5Ui3J&{xswyl8cdEqXAG3wa9?cl%5xyaV&_YNcJ!PN
z<_B^f+>-;6|L-XRNyYmzK+^6$$Zc`=Wr1YPeF+&<6H_xwSQJ<lmBkq|4J|;XDgc#T
Pye}<+rYtp2H_8zJQl4yQ

delta 265
zcmZoTz}#?vd4e<}+e8^>RyGE`v{xHb;^i5WHXo5U6#!Dd^k)EhlPCM@GbSxQ><<*0
zd?a28DDgc0hCh%xuwEM^c3{28rUR$AfvgAjL?+)qZ3Sfgzb8J~@Qf#rRedHMNIpK3
z10(~^<^sumXOsDo;&W0fQj5}y5(_d?b0;U9HJBWK&KM}U;l9}9mFGZ;#m<)k?dUll
z%n#%|xF-iB|KC#tl8X0bfTZ1hklW(!%L2)o`w}v!CZ=YVuqd!9DvL8_8d`u%RRAix
PcwbrsO<8K5Zj>Vc>*H%?

-- 
2.43.0


From 7cd49a59d957c79e9f7feceaaa686d8b03ab26a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:18 +0000
Subject: [PATCH 27/42] fix: the values of errors have the names that the
 shipped messages use

---
 crates/localiser/l10n/i18n_localiser.sqlite3 | Bin 73728 -> 73728 bytes
 crates/localiser/src/error.rs                |  22 +++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/localiser/l10n/i18n_localiser.sqlite3 b/crates/localiser/l10n/i18n_localiser.sqlite3
index 631fa164db468629e47c614e5d5f0a7b958ff301..7cf83f9f42e15d84346763655328f420eda0968e 100644
GIT binary patch
delta 146
zcmZoTz|wGlWr8##`$QRMR(1xxvd)bui{CS{Z07jD!N{p>z{#MgE7+Jj`QS&1$%a78
z^M!Xh6Cb1K<lK*5ObiU0w|`v6!{sLlQYPLQpFRB`FQfS6wtq^KJr40s-u|xvsAjVH
w{|k(aTR9llGIExC09EP>HVRMQ$H*8o{QwiAIES&Wfw``M3Bz`MCdP}h0JXL)+5i9m

delta 153
zcmZoTz|wGlWr8##+e8^>RyGE`v{xHb7Qbg?*v#>PgOO9!fRjN}SFo{g^1+W1lMR8G
z^Bn)=u#fSZw|`v6!xbP2k``}F&Ypgdmr;Cj+drkr>}UBWZ~fOW+5G<nMux2%jB6P=
zD?EV8^aUG5r|)BA43e+P%+E`$RY*zA$w^cwE-A{)OHb4@GB7gMH89sTFxjrp#CTB_
E04#nqR{#J2

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index b229981..5118ab9 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -305,7 +305,7 @@ impl LocalisationTrait for CommandError {
             CommandError::AlreadyExists(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -332,7 +332,7 @@ impl LocalisationTrait for CommandError {
             CommandError::NotFound(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -359,11 +359,11 @@ impl LocalisationTrait for CommandError {
             CommandError::ParameterMissing(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
@@ -390,11 +390,11 @@ impl LocalisationTrait for CommandError {
             CommandError::InvalidType(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
@@ -1323,7 +1323,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1389,7 +1389,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1451,7 +1451,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1478,7 +1478,7 @@ impl LocalisationTrait for FormatterError {
             FormatterError::InvalidSelector(option, keyword, placeholder) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "option".to_string(),
+                    "selector".to_string(),
                     PlaceholderValue::String(option.to_string()),
                 );
                 message_values.insert(
@@ -1486,7 +1486,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
-- 
2.43.0


From 8c9693812b722eef636542b5914425e280b4532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:18 +0000
Subject: [PATCH 28/42] fix: the shipped messages format the numbers they are
 given

---
 crates/localiser/l10n/i18n_localiser.sqlite3 | Bin 73728 -> 73728 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/crates/localiser/l10n/i18n_localiser.sqlite3 b/crates/localiser/l10n/i18n_localiser.sqlite3
index 7cf83f9f42e15d84346763655328f420eda0968e..8be4f16ea18a5c285955966b267426747da3b0b6 100644
GIT binary patch
delta 809
zcmZvZUr19?9LMi(_inp?ce{ce)3vEf)-ZMcnFALt@-IYxC^DF&t!5@pWmyaq)8m6Z
z6yfa<=P`S+w@^li38l2>UV^9yw1?=S7fl=_D%~mV7W8%w=W~9a@9+1USmq{{x#=R{
zb!QXs^VeoqAwukH9+`=7UUtOt2<D(v*N;iKB~M^{We9giiIPF&db*M?j`iH=8;Hiq
zbUGnOh-Z8rG<umte-@^umY3KRe6vdRU7Q+p#4P;~V!D(k@-MkinwJ{IcjADsBTNa1
zpW)rC$3AA;wgs&BtTGp8)9_i>OJy8!8p<HTy@?WX>f=$8*cmjPt2<%IS!4j^2y0gk
zfY#l76X@KH2##t4sMc_pOs@~S|KuI3tnt^>R``Pz{yH2e%pwQ}uM&N|gskmeFiZIN
z0)oqDyq9UXpU9a4^5T<?Jl^t|$kJAOO5Nz>Qf#Kxmg?Di2H^%qz3+JMs8D9*?{c1W
zT3i(Cg{MM3|J?r8e#Cau`pSy9B)iBou)UT!OBFn1HgSDRR)cU`CtXnh(Tgk`&spdQ
z3%6d5KnR5Kc7v<Zu!p_|=s1yU$vDL0(c<AdxBCWrqklJ8*Jk|iYLoe7Wut(Mf3VUH
z3z&nXX$uSpq2_E^ghTWP3oSYEf}aDC6}{nu*Yfl94L~uC+2Lf4p)<x!j5cO1XwsV4
z&u@4{YUd&L4_34=#Y2}(s;)KQpoYhp{k>6Hh2(#?ldLhoat)(>&`lRrP=#F2<m={P
zx~f8{s%$fyGQ_A4R8bjn+)ZhRx)l-gXS1<29H6=j&X`HQxS*0_7-m%0lOoPLXHdq1
UFJ<RLoi6a2WRnY;spy8xZy~qwl>h($

delta 613
zcmYk3O-vI}6ouz@rZb&aro$+7jHN9tG_}^!QoxA|>4IM|XkgPIF2od3f{>y}YHaK?
zrYtm(=B0USW8zk^O5?68m5obGGzdmlZlG<929@{<8@K1X_niBaDG8a9u<QUS*VF^j
z%B829aG6M3ErsKyw<;-bH=fK2s$okgFBNCqpf!ay<UKhrdo3?4Bhr>ME&dkoi@bSS
zcqjDn8Pl364n<J8Y%Vus#bUe61==+n=E$vzhlrICNEcpLuLua+0}S~zJWfK@0dl80
zSaAR97tv@FlMNlmlQgG-i!ANTlD|7K)Zk!xP{$BI&=ciGg3A}=(9v3gj{RhzGEcTE
zU4_ZL$IzJq^^xtX?X<F5_p{Dx9Yt%XUw$V0EJf*)bV|&cKbj4J@?ZFf>9Z*euiy}u
z%H?8KY#(BN0S(7FniRoaYyfb8b#aiXVGSSVJfwTwO~*{o<x4jwCTC_Qns3~kzcxEH
z(H4zFJ3<j76zSyfi2>H&*Y26=a|Mo&yX$89!348(n1}1At&c&Uj*W4;qJW;i2*>gd
z;VSCrt)=KVI7M$ep_zW;p|w~q0OGCg*a32!uMN;j&q!d<aSJ%;6A3(Mth*Mc<AvnD
zBg;c{TY^N9m83*D(7~{w;W@gjf}8%a!D3_jzj^1Pj0ZI=)p!Kb<oypj-BiJ=avUcp
zyPWz!MYbhnx1iO3R}e<$SUvk)&;E9ly1-B0xS$tdZkQ2vC?8EZ;Vh(!8!l*pf5Gst
Ac>n+a

-- 
2.43.0


From d5bef411cfa646468c8ecf6154431274922365d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:18 +0000
Subject: [PATCH 29/42] fix: messages of errors that have markup but no values
 are formatted

---
 crates/localiser/src/error.rs        | 4 ++--
 crates/provider/sqlite3/src/error.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 5118ab9..e0289c0 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -994,7 +994,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "invalid_root".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
@@ -1684,7 +1684,7 @@ impl LocalisationTrait for FormatterError {
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
                     identifier: "no_icu_provider".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 906833e..6a7b7ac 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -146,7 +146,7 @@ impl LocalisationTrait for ProviderSqlite3Error {
                 let message = LocalisationData {
                     component: "i18n_provider_sqlite3".to_string(),
                     identifier: "path_conversion".to_string(),
-                    values: None,
+                    values: Some(HashMap::new()),
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
-- 
2.43.0


From cac0ed33a5966a0b299ae9e14fb0b494e434e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:18 +0000
Subject: [PATCH 30/42] fix: the localised texts of errors name their own types
 and variants

---
 crates/lexer/src/error.rs     | 4 ++--
 crates/localiser/src/error.rs | 2 +-
 crates/utility/src/error.rs   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 99a50cf..b03fb42 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -155,7 +155,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("Syntax".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -177,7 +177,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("WhiteSpace".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index e0289c0..90115e6 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -290,7 +290,7 @@ impl LocalisationTrait for CommandError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Registry".to_string()),
+                    PlaceholderValue::String("Custom".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index 5950212..3baec13 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -31,7 +31,7 @@ impl LocalisationErrorTrait for RegistryError {}
 
 impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
-        let type_string = PlaceholderValue::String("IcuError".to_string());
+        let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
             #[cfg(not(feature = "icu_extended"))]
             RegistryError::LanguageIdentifier(error) => {
-- 
2.43.0


From 3a2f75974774a3e683549c369e20dfec5bcc675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:29 +0000
Subject: [PATCH 31/42] fix: errors of the tree and the localiser within
 formatter errors are localised

---
 crates/localiser/src/error.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 90115e6..13d358c 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -812,7 +812,6 @@ impl LocalisationTrait for FormatterError {
         let type_string = PlaceholderValue::String("FormatterError".to_string());
         match self {
             FormatterError::Localiser(ref error) => {
-                // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
                 values.insert(
@@ -821,7 +820,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 values.insert(
                     "error".to_string(),
-                    PlaceholderValue::String(error.to_string()),
+                    PlaceholderValue::LocalisationData(error.localisation_data()),
                 );
                 LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -830,7 +829,6 @@ impl LocalisationTrait for FormatterError {
                 }
             }
             FormatterError::Tree(ref error) => {
-                // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
                 values.insert(
@@ -839,7 +837,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 values.insert(
                     "error".to_string(),
-                    PlaceholderValue::String(error.to_string()),
+                    PlaceholderValue::LocalisationData(error.localisation_data()),
                 );
                 LocalisationData {
                     component: "i18n_localiser".to_string(),
-- 
2.43.0


From 84920d832ea7c41a930227a2156c6cdf695f9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 32/42] fix: opening a repository with a file name that is not
 UTF-8 panicked

---
 crates/provider/sqlite3/src/provider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index fd1e9c1..42fce2a 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -139,7 +139,7 @@ impl LocalisationProviderSqlite3 {
             if let Some(extension) = entry_data.path().extension() {
                 if extension == "sqlite3" {
                     let path = entry_data.path();
-                    let component = path.file_stem().unwrap().to_str().unwrap().to_string();
+                    let component = path.file_stem().unwrap().to_string_lossy().to_string();
 
                     #[cfg(logging)]
                     trace!("Sqlite3 file: {}", component);
-- 
2.43.0


From 8cddbd2497d4cd74d2d5086610ec9b0d109d20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 33/42] fix: an invalid option, option value or calendar is
 named with its keyword

---
 crates/localiser/src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 487decf..a4d2ea7 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1126,7 +1126,7 @@ fn part_pattern(
                 group = Some(decimal_grouping_display(value.as_str())?);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
+                    key.as_str().to_string(),
                     "decimal".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
@@ -1150,10 +1150,10 @@ fn part_pattern(
                 length_time = Some(time_length(value.as_str())?);
             } else if key.as_str() == "calendar" {
                 if !option_selectors.calendars.contains(&value.as_str()) {
-                    return Err(FormatterError::InvalidOption(
+                    return Err(FormatterError::InvalidOptionValue(
                         value.as_str().to_string(),
-                        "ordinal".to_string(),
-                        placeholder_token.string.as_str().to_string(),
+                        "calendar".to_string(),
+                        "date_time".to_string(),
                     ));
                 }
                 // The language may already have a calendar, or other extensions.
@@ -1166,8 +1166,8 @@ fn part_pattern(
                 calendar = Some(calendar_locale);
             } else {
                 return Err(FormatterError::InvalidOption(
-                    value.as_str().to_string(),
-                    "date-time".to_string(),
+                    key.as_str().to_string(),
+                    "date_time".to_string(),
                     placeholder_token.string.as_str().to_string(),
                 ));
             }
-- 
2.43.0


From 4be177f3f695d8253d738890e54de5b225399b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 34/42] fix: the missing property of a primary key column is
 named

---
 crates/provider/sqlite3/src/provider.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 42fce2a..2807bc9 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -2053,9 +2053,9 @@ fn columns_check(
         return Err(SchemaError::ColumnProperty(
             table.to_string(),
             name.to_string(),
-            match notnull {
+            match pk {
                 1 => "PRIMARY KEY",
-                _ => "",
+                _ => "NOT PRIMARY KEY",
             }
             .to_string(),
         ));
-- 
2.43.0


From 0b5136f5999e1091d1054ecb1db688601cf53a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 35/42] fix: a numeric default where another is required is a
 ColumnDefault error

---
 crates/provider/sqlite3/src/provider.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 2807bc9..f1179e9 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -2071,7 +2071,8 @@ fn columns_check(
     );
     match type_ {
         "INTEGER" => {
-            let dflt_value: Option<usize> = row.get(4)?;
+            // Sqlite3 states the default value as text for every type.
+            let dflt_value: Option<String> = row.get(4)?;
             match default {
                 DefaultValue::Null => {
                     if dflt_value.is_some() {
@@ -2087,7 +2088,7 @@ fn columns_check(
                 }
                 // Included even though currently no default values are used.
                 DefaultValue::Integer(value) => {
-                    if dflt_value.is_none() || dflt_value != Some(value) {
+                    if dflt_value != Some(value.to_string()) {
                         return Err(SchemaError::ColumnDefault(
                             table.to_string(),
                             name.to_string(),
@@ -2107,7 +2108,8 @@ fn columns_check(
             }
         }
         "REAL" => {
-            let dflt_value: Option<f64> = row.get(4)?;
+            // Sqlite3 states the default value as text for every type.
+            let dflt_value: Option<String> = row.get(4)?;
             match default {
                 DefaultValue::Null => {
                     if dflt_value.is_some() {
@@ -2123,7 +2125,7 @@ fn columns_check(
                 }
                 // Included even though currently no default values are used.
                 DefaultValue::Real(value) => {
-                    if dflt_value.is_none() || dflt_value != Some(value) {
+                    if dflt_value != Some(value.to_string()) {
                         return Err(SchemaError::ColumnDefault(
                             table.to_string(),
                             name.to_string(),
-- 
2.43.0


From 304e001e6142babf61f5e7f45b778ae1f6da496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 36/42] fix: a missing schema version is a MissingVersion error

---
 crates/provider/sqlite3/src/provider.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index f1179e9..50fa7e6 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1573,8 +1573,15 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
         let mut statement =
             connection.prepare("SELECT value FROM metadata WHERE key = 'schema_version';")?;
         let mut rows = statement.query([])?;
+        let mut found = false;
         while let Some(row) = rows.next()? {
             schema_version = row.get(0)?;
+            found = true;
+        }
+        if !found {
+            return Err(SchemaError::MissingVersion(
+                connection.path().unwrap().to_string(),
+            ));
         }
 
         #[cfg(feature = "logging")]
-- 
2.43.0


From 85a614dd6d90b528280746d93872c18517ecaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 37/42] fix: an unsupported version in a directory whose name
 is not UTF-8 made opening panic

---
 crates/provider/sqlite3/src/provider.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 50fa7e6..93afee8 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1580,7 +1580,7 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
         }
         if !found {
             return Err(SchemaError::MissingVersion(
-                connection.path().unwrap().to_string(),
+                connection.path().unwrap_or_default().to_string(),
             ));
         }
 
@@ -1963,7 +1963,7 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
         }
         _ => {
             return Err(SchemaError::Version(
-                connection.path().unwrap().to_string(),
+                connection.path().unwrap_or_default().to_string(),
                 "1.0".to_string(),
             ))
         }
-- 
2.43.0


From a8d930c7724b8183767f1f6bca99c7413e4457b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 38/42] fix: a relative directory that looks like a URI was not
 found

---
 crates/provider/sqlite3/src/provider.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 93afee8..985bdc6 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -27,7 +27,7 @@ use std::cell::{OnceCell as OnceMut, RefCell as MutCell};
 #[cfg(target_has_atomic = "ptr")]
 use std::sync::{Arc as RefCount, Mutex as MutCell, OnceLock as OnceMut};
 
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 /// `LocalisationProviderSqlite3` struct is an implementation of the [`LocalisationProviderTrait`] trait, and uses
 /// Sqlite3 as the data store for localisation data repository. As the directory path of the data store is embedded in
@@ -133,7 +133,9 @@ impl LocalisationProviderSqlite3 {
         #[cfg(feature = "sync")]
         let mut connections = HashMap::<String, (PathBuf, String)>::new();
 
-        let iterator = directory.read_dir()?; // If IO error is returned, usually it is a permission issue.
+        // Sqlite3 would take a relative path that starts with `file:` for a URI.
+        let directory_ = Path::new(".").join(&directory);
+        let iterator = directory_.read_dir()?; // If IO error is returned, usually it is a permission issue.
         for entry in iterator {
             let entry_data = entry?; // If IO error is returned, usually it is a permission issue.
             if let Some(extension) = entry_data.path().extension() {
-- 
2.43.0


From f132801d826259cb79ba954e0f06fe4fe89cc19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 39/42] fix: SchemaError::ColumnMismatch printed table and
 column exchanged

---
 crates/provider/sqlite3/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/provider/sqlite3/src/error.rs b/crates/provider/sqlite3/src/error.rs
index 6a7b7ac..826b1d8 100644
--- a/crates/provider/sqlite3/src/error.rs
+++ b/crates/provider/sqlite3/src/error.rs
@@ -505,8 +505,8 @@ impl Display for SchemaError {
                 formatter,
                 "Check `verify_schema()` as default value type does not match column type for \
                 the column ‘{}’ of table ‘{}’.",
-                table,
-                column
+                column,
+                table
             ),
         }
     }
-- 
2.43.0


From 17081b1c9cc6a7966e83814296011be87cc21e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:04 +0000
Subject: [PATCH 40/42] fix: LocaliserError::CacheEntry printed a line break
 within its text

---
 crates/localiser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 13d358c..24f2e7f 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -663,7 +663,7 @@ impl Display for LocaliserError {
             },
             LocaliserError::CacheEntry( component, identifier ) => write!(
                 formatter,
-                "LocaliserError::CacheEntry: Unable to get the string for the component ‘{}’ with the identifier
+                "LocaliserError::CacheEntry: Unable to get the string for the component ‘{}’ with the identifier \
                 ‘{}’ as the cache entry requires values for formatting.",
                 component,
                 identifier
-- 
2.43.0


From 867039ca914b647a69d72b5d789a0037e5bd429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:04 +0000
Subject: [PATCH 41/42] fix: FormatterError::PatternPart printed the part and
 the named string exchanged

---
 crates/localiser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 24f2e7f..dc37fac 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -1781,7 +1781,7 @@ impl Display for FormatterError {
                 write!(
                     formatter,
                     "FormatterError::PatternPart: Failed to retrieve the part ‘{}’ of the pattern for the named string ‘{}’.",
-                    identifier, index
+                    index, identifier
                 ),
             FormatterError::InvalidOptionValue( value, option, keyword ) =>
                 write!(
-- 
2.43.0


From 9107198b9d7e11983de65b7e1628695a90b3cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 42/42] fix: branches nested in many levels overflowed the
 stack

---
 crates/localiser/src/formatter.rs | 81 +++++++++++++------------------
 1 file changed, 34 insertions(+), 47 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index a4d2ea7..ede2c7e 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -217,17 +217,25 @@ impl Formatter {
         named: &str,
     ) -> Result<String, FormatterError> {
         let mut string = String::new();
-        let mut _len = 0usize;
-        {
-            let Some(pattern) = self.patterns.get(named) else {
-                return Err(FormatterError::PatternNamed(named.to_string()));
-            };
-            _len = pattern.len();
-        }
+        let mut named = named.to_string();
         let mut i = 0usize;
-        while i < _len {
-            let Some(part) = self.part_ref(named, &i) else {
-                return Err(FormatterError::PatternPart(named.to_string(), i));
+
+        // The patterns to continue with, once the pattern of the selected named string is done.
+        let mut suspended = Vec::<(String, usize)>::new();
+        loop {
+            let Some(pattern) = self.patterns.get(&named) else {
+                return Err(FormatterError::PatternNamed(named));
+            };
+            if i >= pattern.len() {
+                let Some(previous) = suspended.pop() else {
+                    break;
+                };
+                (named, i) = previous;
+                continue;
+            }
+            let mut selected: Option<String> = None;
+            let Some(part) = self.part_ref(&named, &i) else {
+                return Err(FormatterError::PatternPart(named, i));
             };
             match part {
                 PatternPart::Text(text) => {
@@ -415,8 +423,7 @@ impl Formatter {
                             match value {
                                 PlaceholderValue::FixedDecimal(number) => self.find_number_sign(
                                     localiser,
-                                    values,
-                                    &mut string,
+                                    &mut selected,
                                     number,
                                     plurals,
                                     &data_locale,
@@ -426,8 +433,7 @@ impl Formatter {
                                     let fixed_decimal = FixedDecimal::from(*number);
                                     self.find_number_sign(
                                         localiser,
-                                        values,
-                                        &mut string,
+                                        &mut selected,
                                         &fixed_decimal,
                                         plurals,
                                         &data_locale,
@@ -438,8 +444,7 @@ impl Formatter {
                                     let fixed_decimal = FixedDecimal::from(*number);
                                     self.find_number_sign(
                                         localiser,
-                                        values,
-                                        &mut string,
+                                        &mut selected,
                                         &fixed_decimal,
                                         plurals,
                                         &data_locale,
@@ -453,8 +458,7 @@ impl Formatter {
                                     )?;
                                     self.find_number_sign(
                                         localiser,
-                                        values,
-                                        &mut string,
+                                        &mut selected,
                                         &fixed_decimal,
                                         plurals,
                                         &data_locale,
@@ -476,8 +480,7 @@ impl Formatter {
                                     let fixed_decimal = FixedDecimal::from(*number);
                                     self.find_number_sign(
                                         localiser,
-                                        values,
-                                        &mut string,
+                                        &mut selected,
                                         &fixed_decimal,
                                         plurals,
                                         &data_locale,
@@ -494,33 +497,19 @@ impl Formatter {
                         ComplexType::Select => {
                             match value {
                                 PlaceholderValue::String(value) => {
-                                    self.select(
-                                        localiser,
-                                        values,
-                                        &mut string,
-                                        value,
-                                        *selectors_index,
-                                    )?;
+                                    self.select(&mut selected, value, *selectors_index)?;
                                 }
                                 PlaceholderValue::TaggedString(value) => {
                                     // LanguageTag is not used, and TaggedString is just treated as String for the selector
                                     self.select(
-                                        localiser,
-                                        values,
-                                        &mut string,
+                                        &mut selected,
                                         value.as_string(),
                                         *selectors_index,
                                     )?;
                                 }
                                 PlaceholderValue::Localised(localised, _) => {
                                     // LanguageTag is not used, and TaggedString is just treated as String for the selector
-                                    self.select(
-                                        localiser,
-                                        values,
-                                        &mut string,
-                                        localised,
-                                        *selectors_index,
-                                    )?;
+                                    self.select(&mut selected, localised, *selectors_index)?;
                                 }
                                 _ => {
                                     return Err(FormatterError::InvalidValue(
@@ -576,16 +565,18 @@ impl Formatter {
                 }
             }
             i += 1;
+            if let Some(selected) = selected {
+                suspended.push((std::mem::replace(&mut named, selected), i));
+                i = 0;
+            }
         }
         Ok(string)
     }
 
-    #[allow(clippy::too_many_arguments)]
     fn find_number_sign(
         &mut self,
         localiser: &Localiser,
-        values: &HashMap<String, PlaceholderValue>,
-        string: &mut String,
+        selected: &mut Option<String>,
         fixed_decimal: &FixedDecimal,
         plurals: PluralRules,
         data_locale: &DataLocale,
@@ -634,16 +625,13 @@ impl Formatter {
                 i += 1;
             }
         }
-        let part_string = self.format_pattern(localiser, values, &_named)?;
-        string.push_str(part_string.as_str());
+        *selected = Some(_named);
         Ok(())
     }
 
     fn select(
         &mut self,
-        localiser: &Localiser,
-        values: &HashMap<String, PlaceholderValue>,
-        string: &mut String,
+        selected: &mut Option<String>,
         string_value: &String,
         selectors_index: usize,
     ) -> Result<(), FormatterError> {
@@ -671,8 +659,7 @@ impl Formatter {
                 self.numbers[*index].clear();
             }
         }
-        let part_string = self.format_pattern(localiser, values, &named)?;
-        string.push_str(part_string.as_str());
+        *selected = Some(named);
         Ok(())
     }
 
-- 
2.43.0

