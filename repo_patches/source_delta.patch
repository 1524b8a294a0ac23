From 8dac72a32052146afebc46b5cc160ab3b2348f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:53 +0000
Subject: [PATCH 01/19] fix: regex tokens and skips with a top level
 alternation match away from the lexing position

The "\A" anchor is simply prefixed to the pattern so, in "(x)|(y)", it only
applies to "(x)" and "(y)" is found anywhere in the rest of the text: the text
before it was silently swallowed into the token (or skipped).
---
 lexan/src/matcher.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index f4a4262..afb4098 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -121,6 +121,12 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
     }
 }
 
+/// Returns the match of `regex` that begins at the start of `text` (if there is one). The `\\A`
+/// prefixed to our patterns only binds to their first alternative so it can't be relied on here.
+fn match_at_start<'t>(regex: &Regex, text: &'t str) -> Option<regex::Match<'t>> {
+    regex.find(text).filter(|m| m.start() == 0)
+}
+
 #[derive(Debug, Default)]
 pub(crate) struct RegexMatcher<T: Copy + Debug> {
     lexemes: Vec<(T, Regex)>,
@@ -145,7 +151,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
         let mut matches = vec![];
         let mut largest_end = 0;
         for (tag, regex) in self.lexemes.iter() {
-            if let Some(m) = regex.find(text) {
+            if let Some(m) = match_at_start(regex, text) {
                 match m.end().cmp(&largest_end) {
                     Ordering::Equal => matches.push(*tag),
                     Ordering::Greater => {
@@ -162,7 +168,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
     /// Returns `true` if we match the start of the text
     pub fn matches(&self, text: &str) -> bool {
         for (_, regex) in self.lexemes.iter() {
-            if regex.find(text).is_some() {
+            if match_at_start(regex, text).is_some() {
                 return true;
             }
         }
@@ -194,7 +200,7 @@ impl SkipMatcher {
         let mut index = 0;
         'outer: while index < text.len() {
             for regex in self.regexes.iter() {
-                if let Some(m) = regex.find(&text[index..]) {
+                if let Some(m) = match_at_start(regex, &text[index..]) {
                     index += m.end();
                     continue 'outer;
                 }
@@ -206,7 +212,7 @@ impl SkipMatcher {
 
     pub fn matches(&self, text: &str) -> bool {
         for regex in self.regexes.iter() {
-            if regex.find(text).is_some() {
+            if match_at_start(regex, text).is_some() {
                 return true;
             }
         }
-- 
2.43.0


From 9c1597cae92a45d3429563bc8311769181c44182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:53 +0000
Subject: [PATCH 02/19] fix: empty regex matches stop lexical analysis from
 making progress

A skip pattern that matches the empty string looped for ever and a token
pattern that does so was delivered as an endless supply of empty tokens.
---
 lexan/src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index afb4098..d821da5 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -121,10 +121,10 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
     }
 }
 
-/// Returns the match of `regex` that begins at the start of `text` (if there is one). The `\\A`
+/// Returns the non empty match of `regex` that begins at the start of `text` (if there is one). The `\\A`
 /// prefixed to our patterns only binds to their first alternative so it can't be relied on here.
 fn match_at_start<'t>(regex: &Regex, text: &'t str) -> Option<regex::Match<'t>> {
-    regex.find(text).filter(|m| m.start() == 0)
+    regex.find(text).filter(|m| m.start() == 0 && !m.is_empty())
 }
 
 #[derive(Debug, Default)]
-- 
2.43.0


From 5b97856f0a45ff0ef547c1d17d5b71bc4ed538cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:53 +0000
Subject: [PATCH 03/19] fix: panic when unexpected text contains a multi byte
 character

distance_to_next_valid_byte() sliced the text at every byte index including
those inside a character.
---
 lexan/src/lexicon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexan/src/lexicon.rs b/lexan/src/lexicon.rs
index e57e0ae..f61cbcc 100644
--- a/lexan/src/lexicon.rs
+++ b/lexan/src/lexicon.rs
@@ -75,7 +75,7 @@ where
 
     /// Returns the distance in bytes to the next valid content in `text`
     pub fn distance_to_next_valid_byte(&self, text: &str) -> usize {
-        for index in 0..text.len() {
+        for (index, _) in text.char_indices() {
             if self.literal_matcher.matches(&text[index..]) {
                 return index;
             }
-- 
2.43.0


From a623a18f741131e726061f178d51e80abc736d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:53 +0000
Subject: [PATCH 04/19] fix: line numbers are wrong after text with mixed line
 endings

The search for "\r\n" was made first and stepped over any "\n" before it.
---
 lexan/src/analyzer.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 3952d04..769f862 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -178,11 +178,8 @@ where
         let slice = &self.text[self.index..next_index];
         let mut i = 0;
         while i < length {
-            if let Some(eol_i) = slice[i..].find("\r\n") {
-                self.location.line_number += 1;
-                self.location.offset = 1;
-                i += eol_i + 2;
-            } else if let Some(eol_i) = slice[i..].find('\n') {
+            // NB "\r\n" also ends in '\n'
+            if let Some(eol_i) = slice[i..].find('\n') {
                 self.location.line_number += 1;
                 self.location.offset = 1;
                 i += eol_i + 1;
-- 
2.43.0


From 52c586689bca59271b971eba895ab8df474d5190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:22 +0000
Subject: [PATCH 05/19] fix: look ahead symbols are lost when item sets with
 the same kernel are merged

Only the look aheads of the kernel items were merged so those of the items
added by closure (and everything reached from them) kept the values that they
had when the state was first created: with "S: a X d | b X e. X: c Y. Y: y."
the generated parser rejected "b c y e".
---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 8f230af..cb53d72 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 88e6d69..8536e07 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
-- 
2.43.0


From f41eee452ac0723c71fe0237811215f441919d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 06/19] fix: the second specification handled by a process
 never gets an accept action

Production identifiers came from a process wide counter so only the first
specification read had its start production identified as number zero.
---
 alalr1_lib/src/grammar.rs    |  8 +++++---
 alalr1_lib/src/production.rs | 11 +++--------
 lalr1_lib/src/grammar.rs     |  8 +++++---
 lalr1_lib/src/production.rs  | 11 +++--------
 4 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 0a3c1a5..36674d2 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -54,7 +54,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let index = spec.productions.len();
+            spec.productions.push(Production::new(index, symbol, tail));
         }
         spec.symbol_table
             .start_non_terminal()
@@ -96,11 +97,12 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        let index = self.productions.len();
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(index, left_hand_side.clone(), tail.clone()));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 6ceb740..3179cbe 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -71,11 +70,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -108,9 +102,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// `index` is the production's position in the list of its specification's productions
+    pub fn new(index: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(index as u32),
             left_hand_side,
             tail,
         }))
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 7d7129c..0949efa 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -50,7 +50,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let index = spec.productions.len();
+            spec.productions.push(Production::new(index, symbol, tail));
         }
         spec.symbol_table
             .start_non_terminal()
@@ -92,11 +93,12 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        let index = self.productions.len();
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(index, left_hand_side.clone(), tail.clone()));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index fc7deb6..fa1ee11 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -67,11 +66,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -104,9 +98,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// `index` is the production's position in the list of its specification's productions
+    pub fn new(index: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(index as u32),
             left_hand_side,
             tail,
         }))
-- 
2.43.0


From cf9b8429f3b84d27d373a8df330beaa81d5070bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:54 +0000
Subject: [PATCH 07/19] fix: stack overflow or incomplete FIRST sets for
 mutually recursive non terminals

---
 alalr1_lib/src/grammar.rs             | 23 +++++++++++++----------
 alalr1_lib/src/symbol/non_terminal.rs | 19 +++++++++++--------
 alalr1_lib/src/symbol/terminal.rs     |  2 +-
 lalr1_lib/src/grammar.rs              | 23 +++++++++++++----------
 lalr1_lib/src/symbol/non_terminal.rs  | 19 +++++++++++--------
 lalr1_lib/src/symbol/terminal.rs      |  2 +-
 6 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 36674d2..c35bdc8 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -57,16 +57,19 @@ impl Specification {
             let index = spec.productions.len();
             spec.productions.push(Production::new(index, symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut firsts_changed = true;
+        while firsts_changed {
+            firsts_changed = spec
+                .symbol_table
+                .start_non_terminal()
+                .set_firsts_data(&spec.productions);
+            firsts_changed |= spec
+                .symbol_table
+                .error_non_terminal()
+                .set_firsts_data(&spec.productions);
+            for non_terminal in spec.symbol_table.non_terminals() {
+                firsts_changed |= non_terminal.set_firsts_data(&spec.productions)
+            }
         }
         Ok(spec)
     }
diff --git a/alalr1_lib/src/symbol/non_terminal.rs b/alalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..c2340ea 100644
--- a/alalr1_lib/src/symbol/non_terminal.rs
+++ b/alalr1_lib/src/symbol/non_terminal.rs
@@ -4,7 +4,7 @@ use std::{cell::RefCell, cmp::Ordering, fmt, rc::Rc};
 use crate::production::Production;
 use crate::symbol::{Symbol, terminal::TokenSet};
 
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone, Default, PartialEq)]
 pub struct FirstsData {
     pub token_set: TokenSet,
     pub transparent: bool,
@@ -190,14 +190,13 @@ impl NonTerminal {
         }
     }
 
-    pub fn set_firsts_data(&self, productions: &[Production]) {
+    /// Update this non terminal's firsts data from the current data of the other non terminals
+    /// and return true if that changed it. To be called for all non terminals until no data changes.
+    pub fn set_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
                 let relevant_productions: Vec<Production> = productions
                     .iter()
                     .filter(|x| x.left_hand_side() == self)
@@ -222,7 +221,8 @@ impl NonTerminal {
                                         }
                                     }
                                     if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
+                                        transparent_production = false;
+                                        break;
                                     }
                                     let firsts_data = non_terminal.firsts_data();
                                     token_set |= &firsts_data.token_set;
@@ -239,15 +239,18 @@ impl NonTerminal {
                             }
                         }
                         if transparent_production {
-                            transparency_changed = !transparent;
+                            transparency_changed = transparency_changed || !transparent;
                             transparent = true;
                         }
                     }
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
+                let firsts_data = Some(FirstsData {
                     token_set,
                     transparent,
                 });
+                let changed = *non_terminal_data.firsts_data.borrow() != firsts_data;
+                *non_terminal_data.firsts_data.borrow_mut() = firsts_data;
+                changed
             }
         }
     }
diff --git a/alalr1_lib/src/symbol/terminal.rs b/alalr1_lib/src/symbol/terminal.rs
index 338c8c8..cecb9e3 100644
--- a/alalr1_lib/src/symbol/terminal.rs
+++ b/alalr1_lib/src/symbol/terminal.rs
@@ -178,7 +178,7 @@ impl Token {
     }
 }
 
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Default, Clone, PartialEq)]
 pub struct TokenSet(BTreeSet<Token>);
 
 impl TokenSet {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 0949efa..34b3699 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -53,16 +53,19 @@ impl Specification {
             let index = spec.productions.len();
             spec.productions.push(Production::new(index, symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut firsts_changed = true;
+        while firsts_changed {
+            firsts_changed = spec
+                .symbol_table
+                .start_non_terminal()
+                .set_firsts_data(&spec.productions);
+            firsts_changed |= spec
+                .symbol_table
+                .error_non_terminal()
+                .set_firsts_data(&spec.productions);
+            for non_terminal in spec.symbol_table.non_terminals() {
+                firsts_changed |= non_terminal.set_firsts_data(&spec.productions)
+            }
         }
         Ok(spec)
     }
diff --git a/lalr1_lib/src/symbol/non_terminal.rs b/lalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..c2340ea 100644
--- a/lalr1_lib/src/symbol/non_terminal.rs
+++ b/lalr1_lib/src/symbol/non_terminal.rs
@@ -4,7 +4,7 @@ use std::{cell::RefCell, cmp::Ordering, fmt, rc::Rc};
 use crate::production::Production;
 use crate::symbol::{Symbol, terminal::TokenSet};
 
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone, Default, PartialEq)]
 pub struct FirstsData {
     pub token_set: TokenSet,
     pub transparent: bool,
@@ -190,14 +190,13 @@ impl NonTerminal {
         }
     }
 
-    pub fn set_firsts_data(&self, productions: &[Production]) {
+    /// Update this non terminal's firsts data from the current data of the other non terminals
+    /// and return true if that changed it. To be called for all non terminals until no data changes.
+    pub fn set_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
                 let relevant_productions: Vec<Production> = productions
                     .iter()
                     .filter(|x| x.left_hand_side() == self)
@@ -222,7 +221,8 @@ impl NonTerminal {
                                         }
                                     }
                                     if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
+                                        transparent_production = false;
+                                        break;
                                     }
                                     let firsts_data = non_terminal.firsts_data();
                                     token_set |= &firsts_data.token_set;
@@ -239,15 +239,18 @@ impl NonTerminal {
                             }
                         }
                         if transparent_production {
-                            transparency_changed = !transparent;
+                            transparency_changed = transparency_changed || !transparent;
                             transparent = true;
                         }
                     }
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
+                let firsts_data = Some(FirstsData {
                     token_set,
                     transparent,
                 });
+                let changed = *non_terminal_data.firsts_data.borrow() != firsts_data;
+                *non_terminal_data.firsts_data.borrow_mut() = firsts_data;
+                changed
             }
         }
     }
diff --git a/lalr1_lib/src/symbol/terminal.rs b/lalr1_lib/src/symbol/terminal.rs
index f5a6ad8..f744605 100644
--- a/lalr1_lib/src/symbol/terminal.rs
+++ b/lalr1_lib/src/symbol/terminal.rs
@@ -178,7 +178,7 @@ impl Token {
     }
 }
 
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Default, Clone, PartialEq)]
 pub struct TokenSet(BTreeSet<Token>);
 
 impl TokenSet {
-- 
2.43.0


From 0f3878ff1f2de14c01fd8a11362784e132560692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 08/19] fix: generator panics on a rejected left hand side or
 duplicate precedence tag

---
 alalr1_lib/src/parser.alaps | 11 +++++++++--
 alalr1_lib/src/parser.rs    | 11 +++++++++--
 lalr1_lib/src/parser.laps   | 11 +++++++++--
 lalr1_lib/src/parser.rs     | 11 +++++++++--
 4 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index c95b08a..021711a 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -275,7 +276,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -303,7 +307,10 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    $$ = AttributeData::LeftHandSide(NonTerminal::new_defined(name, location));
+                }
             }
         !}
     .
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c6ce0f9..221f892 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -8,6 +8,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1514,7 +1515,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1537,7 +1541,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    aa_lhs = AttributeData::LeftHandSide(NonTerminal::new_defined(name, location));
+                }
             }
         
             }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7a12830..270ebee 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -12,6 +12,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -279,7 +280,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -307,7 +311,10 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    $$ = AttributeData::LeftHandSide(NonTerminal::new_defined(name, location));
+                }
             }
         !}
     .
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index a61bd30..8fa1e88 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1435,7 +1436,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1458,7 +1462,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    aa_lhs = AttributeData::LeftHandSide(NonTerminal::new_defined(name, location));
+                }
             }
         
             }
-- 
2.43.0


From 07df4bfedfda3330c1046aea7da7170a70160af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 09/19] fix: productions with predicates but no alternative
 break the generator or its output

---
 alalr1_lib/src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index cb53d72..d186764 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -290,10 +290,9 @@ impl ParserState {
             ))?;
         }
         for (productions, look_ahead_set) in reductions.reductions() {
-            if productions.len() == 1 {
+            if productions.len() == 1 && !productions.iter().any(|x| x.has_predicate()) {
                 // NB this is clumsy but first() for OrderedSet is only experimental
                 let production = productions.iter().next().expect("len() == 1");
-                debug_assert!(!production.has_predicate());
                 wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
@@ -342,6 +341,10 @@ impl ParserState {
                         ))?;
                     }
                 }
+                if productions.iter().all(|x| x.has_predicate()) {
+                    wtr.write_fmt(format_args!("{indent}        }} else {{\n"))?;
+                    wtr.write_fmt(format_args!("{indent}            Action::SyntaxError\n"))?;
+                }
                 wtr.write_fmt(format_args!("{indent}        }}\n"))?;
                 wtr.write_fmt(format_args!("{indent}    }}\n"))?;
             }
-- 
2.43.0


From 1f07980ec1235981b0b07e686ff50ebc6e6c46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 10/19] fix: error recovery never considers the initial state

The generated tables list it as viable but the search stopped short of the bottom of the stack.
---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 135a747..03ff5b7 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -113,7 +113,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 0b5ea6f..81bd696 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -171,7 +171,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
-- 
2.43.0


From 4c59023f0ba9306bbca8653330a77809dc128bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 11/19] fix: a second error can't be recovered from in the
 state used for the first

---
 alalr1/src/lib.rs | 2 ++
 lalr1/src/lib.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 03ff5b7..6e1c9c1 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -89,6 +89,8 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
+        // progress has been made so there's no danger of looping if this state is used again
+        self.last_error_state = None;
     }
 
     fn push_non_terminal(&mut self, non_terminal: N, attribute: A, new_state: u32) {
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 81bd696..09ccb36 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -147,6 +147,8 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
+        // progress has been made so there's no danger of looping if this state is used again
+        self.last_error_state = None;
     }
 
     fn push_non_terminal(&mut self, non_terminal: N, attribute: A, new_state: u32) {
-- 
2.43.0


From bc80edd0729bbf37582ff09135e3bd6a53bec330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 12/19] fix: malformed regexes that are valid after the \A
 prefix are accepted

---
 lexan/src/matcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index d821da5..ccdd4fa 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -139,6 +139,8 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
             if pattern.is_empty() {
                 return Err(LexanError::EmptyPattern(Some(*tag)));
             };
+            // NB: a malformed pattern (e.g. "*a") can be valid with the prefix so check it on its own
+            Regex::new(pattern)?;
             let mut anchored_pattern = "\\A".to_string();
             anchored_pattern.push_str(pattern);
             lexemes.push((*tag, Regex::new(&anchored_pattern)?));
@@ -188,6 +190,7 @@ impl SkipMatcher {
             if regex_str.is_empty() {
                 return Err(LexanError::EmptyPattern(None));
             };
+            Regex::new(regex_str)?;
             let mut anchored_pattern = "\\A".to_string();
             anchored_pattern.push_str(regex_str);
             regexes.push(Regex::new(&anchored_pattern)?);
-- 
2.43.0


From c89c72b16756a410b3ededa87b75e42d92730266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 13/19] fix: generated parsers don't compile if a literal token
 contains braces

The token's text was emitted as a format string.
---
 alalr1_lib/src/grammar.rs | 6 +++---
 lalr1_lib/src/grammar.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index c35bdc8..dc1e603 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -433,19 +433,19 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str(r###\"{}\"###),\n",
                         token_data.name, token_data.text
                     ))?;
                 }
                 Token::Regex(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str(r###\"{}\"###),\n",
                         token_data.name, token_data.name
                     ))?;
                 }
                 Token::End => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str(r###\"{}\"###),\n",
                         token.name(),
                         token.name()
                     ))?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 34b3699..9de94e4 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -429,19 +429,19 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str(r###\"{}\"###),\n",
                         token_data.name, token_data.text
                     ))?;
                 }
                 Token::Regex(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str(r###\"{}\"###),\n",
                         token_data.name, token_data.name
                     ))?;
                 }
                 Token::End => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str(r###\"{}\"###),\n",
                         token.name(),
                         token.name()
                     ))?;
-- 
2.43.0


From 54f977313ca8d135580160e530edcce555692e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 14/19] fix: closures depend on look ahead sets if a non
 terminal derives no text

Grammar construction panics ("key sets should be identical to get here") if
a state that has the same kernel as another but different look ahead sets has
an item with an empty look ahead set i.e. one followed by a non terminal that
can't derive any text.
---
 alalr1_lib/src/grammar.rs | 33 ++++++++++++++++++---------------
 lalr1_lib/src/grammar.rs  | 33 ++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index dc1e603..f596607 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -119,25 +119,28 @@ impl Specification {
                         Symbol::Terminal(_) => debug_assert!(!item_key.is_closable()),
                         Symbol::NonTerminal(prospective_lhs) => {
                             debug_assert!(item_key.is_closable());
+                            // NB the items are needed even if the look ahead set is empty so that
+                            // the items in a state only depend on its kernel's keys
+                            let mut firsts = TokenSet::new();
                             for look_ahead_symbol in look_ahead_set.iter() {
-                                let firsts = TokenSet::first_all_caps(
+                                firsts |= &TokenSet::first_all_caps(
                                     item_key.rhs_tail(),
                                     look_ahead_symbol,
                                 );
-                                for production in self
-                                    .productions
-                                    .iter()
-                                    .filter(|x| x.left_hand_side() == prospective_lhs)
-                                {
-                                    let prospective_key = GrammarItemKey::from(production);
-                                    if let Some(set) = closure_set.get_mut(&prospective_key) {
-                                        let len = set.len();
-                                        *set |= &firsts;
-                                        additions_made = additions_made || set.len() > len;
-                                    } else {
-                                        closure_set.insert(prospective_key, firsts.clone());
-                                        additions_made = true;
-                                    }
+                            }
+                            for production in self
+                                .productions
+                                .iter()
+                                .filter(|x| x.left_hand_side() == prospective_lhs)
+                            {
+                                let prospective_key = GrammarItemKey::from(production);
+                                if let Some(set) = closure_set.get_mut(&prospective_key) {
+                                    let len = set.len();
+                                    *set |= &firsts;
+                                    additions_made = additions_made || set.len() > len;
+                                } else {
+                                    closure_set.insert(prospective_key, firsts.clone());
+                                    additions_made = true;
                                 }
                             }
                         }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 9de94e4..52c2df4 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -115,25 +115,28 @@ impl Specification {
                         Symbol::Terminal(_) => debug_assert!(!item_key.is_closable()),
                         Symbol::NonTerminal(prospective_lhs) => {
                             debug_assert!(item_key.is_closable());
+                            // NB the items are needed even if the look ahead set is empty so that
+                            // the items in a state only depend on its kernel's keys
+                            let mut firsts = TokenSet::new();
                             for look_ahead_symbol in look_ahead_set.iter() {
-                                let firsts = TokenSet::first_all_caps(
+                                firsts |= &TokenSet::first_all_caps(
                                     item_key.rhs_tail(),
                                     look_ahead_symbol,
                                 );
-                                for production in self
-                                    .productions
-                                    .iter()
-                                    .filter(|x| x.left_hand_side() == prospective_lhs)
-                                {
-                                    let prospective_key = GrammarItemKey::from(production);
-                                    if let Some(set) = closure_set.get_mut(&prospective_key) {
-                                        let len = set.len();
-                                        *set |= &firsts;
-                                        additions_made = additions_made || set.len() > len;
-                                    } else {
-                                        closure_set.insert(prospective_key, firsts.clone());
-                                        additions_made = true;
-                                    }
+                            }
+                            for production in self
+                                .productions
+                                .iter()
+                                .filter(|x| x.left_hand_side() == prospective_lhs)
+                            {
+                                let prospective_key = GrammarItemKey::from(production);
+                                if let Some(set) = closure_set.get_mut(&prospective_key) {
+                                    let len = set.len();
+                                    *set |= &firsts;
+                                    additions_made = additions_made || set.len() > len;
+                                } else {
+                                    closure_set.insert(prospective_key, firsts.clone());
+                                    additions_made = true;
                                 }
                             }
                         }
-- 
2.43.0


From 143c763a6a6f662033548793b4b3b911cb2a8d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 15/19] fix: placeholders that name no symbol of the production
 are not expanded (they made the generator panic)

---
 alalr1_lib/src/production.rs | 15 ++++++++++-----
 lalr1_lib/src/production.rs  |  5 ++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 3179cbe..f68ab29 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -152,10 +152,12 @@ impl Production {
             let rhs_len = self.0.tail.0.right_hand_side.len();
             let string = RHS_CRE
                 .replace_all(predicate, |caps: &regex::Captures| {
-                    format!(
-                        "aa_attributes.at_len_minus_n({})",
-                        rhs_len + 1 - usize::from_str(&caps[1]).unwrap()
-                    )
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 && n <= rhs_len => {
+                            format!("aa_attributes.at_len_minus_n({})", rhs_len + 1 - n)
+                        }
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             let string = string.replace("$?", "aa_tag");
@@ -172,7 +174,10 @@ impl Production {
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 && n <= self.len() => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             Some(string)
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index fa1ee11..94594b2 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -146,7 +146,10 @@ impl Production {
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 && n <= self.len() => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             Some(string)
-- 
2.43.0


From 266f40f1595e059c890515c5120ee4439fdcea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 16/19] fix: an existing .states file is not overwritten
 without --force

---
 alalr1_gen/src/main.rs | 9 ++++++++-
 lalr1_gen/src/main.rs  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 1f8df60..032be20 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -59,6 +59,14 @@ fn main() {
         );
         std::process::exit(1);
     }
+    let description_file = with_changed_extension(&output_path, "states");
+    if description_file.exists() && !cl_options.force {
+        eprintln!(
+            "{}: output file already exists",
+            description_file.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
         Err(error) => {
@@ -122,7 +130,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 11a1d2b..c876071 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -60,6 +60,14 @@ fn main() {
         );
         std::process::exit(1);
     }
+    let description_file = with_changed_extension(&output_path, "states");
+    if description_file.exists() && !cl_options.force {
+        eprintln!(
+            "{}: output file already exists",
+            description_file.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
         Err(error) => {
@@ -123,7 +131,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-- 
2.43.0


From 16cc29ca43d8f73bfa17b271205dc0fac4f4ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 17/19] fix: a predicate of more than one line breaks the
 generated parser (the rest of it spilled out of a comment)

---
 alalr1_lib/src/production.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index f68ab29..7f3551c 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -230,6 +230,8 @@ impl Display for Production {
         };
         string += &format!(" #({}, {})", self.associativity(), self.precedence());
         if let Some(predicate) = &self.0.tail.0.predicate {
+            // this is emitted as a (one line) comment
+            let predicate = predicate.replace(['\n', '\r'], " ");
             string += &format!(" ?({predicate}?)");
         };
         write!(f, "{string}")
-- 
2.43.0


From d5dbb825a5dfca9cfe9e928ea96343d1132e3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 18/19] fix: token and skip texts containing "### break the
 generated parser (they ended its raw string literals)

---
 alalr1_lib/src/grammar.rs | 25 ++++++++++++++++++-------
 lalr1_lib/src/grammar.rs  | 25 ++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index f596607..bee7468 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -341,6 +341,15 @@ impl TryFrom<(Specification, bool, bool)> for Grammar {
     }
 }
 
+/// The Rust raw string literal for `text` (with enough `#`s for any text).
+fn raw_string_literal(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    format!("r{hashes}\"{text}\"{hashes}")
+}
+
 impl Grammar {
     fn resolve_conflicts(&mut self) -> (u32, u32) {
         let mut sr_conflicts = 0_u32;
@@ -436,8 +445,9 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => f.write_str(r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        "{} => f.write_str({}),\n",
+                        token_data.name,
+                        raw_string_literal(&token_data.text)
                     ))?;
                 }
                 Token::Regex(token_data) => {
@@ -493,10 +503,11 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
+            let text = token.text();
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(&text[1..text.len() - 1])
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -504,16 +515,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string_literal(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 52c2df4..194346d 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -337,6 +337,15 @@ impl TryFrom<(Specification, bool, bool)> for Grammar {
     }
 }
 
+/// The Rust raw string literal for `text` (with enough `#`s for any text).
+fn raw_string_literal(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    format!("r{hashes}\"{text}\"{hashes}")
+}
+
 impl Grammar {
     fn resolve_conflicts(&mut self) -> (u32, u32) {
         let mut sr_conflicts = 0_u32;
@@ -432,8 +441,9 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => f.write_str(r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        "{} => f.write_str({}),\n",
+                        token_data.name,
+                        raw_string_literal(&token_data.text)
                     ))?;
                 }
                 Token::Regex(token_data) => {
@@ -489,10 +499,11 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
+            let text = token.text();
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(&text[1..text.len() - 1])
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -500,16 +511,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string_literal(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
-- 
2.43.0


From 911772b86b13d543c2362bdf0503bcf888ebd5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 19/19] fix: %inject never works: the injected text is parsed
 before the directive's own full stop

The text is injected before the current token, which was the full stop when the
action was performed, so that any file with tokens was a syntax error. It is now
injected when the directive is complete; a file that injects itself (directly or
otherwise) is reported instead of being read for ever.
---
 alalr1_lib/src/grammar.rs   | 17 +++++++++++++++++
 alalr1_lib/src/parser.alaps | 21 ++++++++++++++-------
 alalr1_lib/src/parser.rs    | 11 ++++++++++-
 lalr1_lib/src/grammar.rs    | 17 +++++++++++++++++
 lalr1_lib/src/parser.laps   | 16 ++++++++++------
 lalr1_lib/src/parser.rs     | 11 ++++++++++-
 6 files changed, 78 insertions(+), 15 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index bee7468..05868e7 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -38,6 +38,8 @@ pub struct Specification {
     pub warning_count: u32,
     pub expected_rr_conflicts: u32,
     pub expected_sr_conflicts: u32,
+    /// for each injected file: the texts in which it was injected last (outermost first)
+    injected_within: BTreeMap<String, Vec<String>>,
 }
 
 impl alalr1::ReportError<AATerminal> for Specification {}
@@ -88,6 +90,21 @@ impl Specification {
         self.warning_count += 1;
     }
 
+    /// Record the injection of a file by the text with the given label.
+    /// Returns false if that text is the file itself or is being injected (directly or otherwise) by it.
+    pub fn start_injection(&mut self, file_path: &str, label: &str) -> bool {
+        let mut within = match self.injected_within.get(label) {
+            Some(labels) => labels.clone(),
+            None => vec![],
+        };
+        within.push(label.to_string());
+        if within.iter().any(|l| l == file_path) {
+            return false;
+        }
+        self.injected_within.insert(file_path.to_string(), within);
+        true
+    }
+
     pub fn set_preamble(&mut self, preamble: &str) {
         self.preamble = preamble.to_string();
     }
diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index 021711a..53e281f 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -55,9 +55,12 @@ Specification: Preamble Configuration "%%" Definitions "%%" ProductionRules.
 
 OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
-InjectionHead: "%inject" Literal
+InjectionHead: "%inject" Literal !{ $$ = $2.clone(); !} .
+
+// NB The text is injected before the token after the "." (which has been read, but not shifted, when this is reduced).
+Injection: InjectionHead "."
         !{
-            let (text, location) = $2.text_and_location();
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -65,7 +68,15 @@ InjectionHead: "%inject" Literal
                     if let Err(err) = file.read_to_string(&mut text) {
                         self.error(location, &format!("Injecting: {err}"));
                     } else if text.is_empty() {
-                        self.error(location, &format!("Injected file \"{file_path}\" is empty."));
+                        self.error(
+                            location,
+                            &format!("Injected file \"{file_path}\" is empty.")
+                        );
+                    } else if !self.start_injection(file_path, location.label()) {
+                        self.error(
+                            location,
+                            &format!("Injected file \"{file_path}\" injects itself")
+                        );
                     } else {
                         $INJECT(text, file_path.to_string());
                     }
@@ -75,10 +86,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index 221f892..9584f5d 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1314,8 +1314,12 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
             }
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
+                 aa_lhs = aa_rhs[1].clone(); 
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -1324,6 +1328,11 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                         self.error(location, &format!("Injecting: {err}"));
                     } else if text.is_empty() {
                         self.error(location, &format!("Injected file \"{file_path}\" is empty."));
+                    } else if !self.start_injection(file_path, location.label()) {
+                        self.error(
+                            location,
+                            &format!("Injected file \"{file_path}\" injects itself")
+                        );
                     } else {
                         aa_inject(text, file_path.to_string());
                     }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 194346d..a040bb7 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -34,6 +34,8 @@ pub struct Specification {
     pub warning_count: u32,
     pub expected_rr_conflicts: u32,
     pub expected_sr_conflicts: u32,
+    /// for each injected file: the texts in which it was injected last (outermost first)
+    injected_within: BTreeMap<String, Vec<String>>,
 }
 
 impl lalr1::ReportError<AATerminal> for Specification {}
@@ -84,6 +86,21 @@ impl Specification {
         self.warning_count += 1;
     }
 
+    /// Record the injection of a file by the text with the given label.
+    /// Returns false if that text is the file itself or is being injected (directly or otherwise) by it.
+    pub fn start_injection(&mut self, file_path: &str, label: &str) -> bool {
+        let mut within = match self.injected_within.get(label) {
+            Some(labels) => labels.clone(),
+            None => vec![],
+        };
+        within.push(label.to_string());
+        if within.iter().any(|l| l == file_path) {
+            return false;
+        }
+        self.injected_within.insert(file_path.to_string(), within);
+        true
+    }
+
     pub fn set_preamble(&mut self, preamble: &str) {
         self.preamble = preamble.to_string();
     }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 270ebee..f2bd0fa 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -56,9 +56,12 @@ Specification: Preamble Configuration "%%" Definitions "%%" ProductionRules.
 
 OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
-InjectionHead: "%inject" Literal
+InjectionHead: "%inject" Literal !{ $$ = $2.clone(); !} .
+
+// NB The text is injected before the token after the "." (which has been read, but not shifted, when this is reduced).
+Injection: InjectionHead "."
         !{
-            let (text, location) = $2.text_and_location();
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -70,6 +73,11 @@ InjectionHead: "%inject" Literal
                             location,
                             &format!("Injected file \"{file_path}\" is empty.")
                         );
+                    } else if !self.start_injection(file_path, location.label()) {
+                        self.error(
+                            location,
+                            &format!("Injected file \"{file_path}\" injects itself")
+                        );
                     } else {
                         $INJECT(text, file_path.to_string());
                     }
@@ -79,10 +87,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index 8fa1e88..deec24e 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1230,8 +1230,12 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
             }
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
+                 aa_lhs = aa_rhs[1].clone(); 
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -1243,6 +1247,11 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                             location,
                             &format!("Injected file \"{file_path}\" is empty.")
                         );
+                    } else if !self.start_injection(file_path, location.label()) {
+                        self.error(
+                            location,
+                            &format!("Injected file \"{file_path}\" injects itself")
+                        );
                     } else {
                         aa_inject(text, file_path.to_string());
                     }
-- 
2.43.0

