From a1b60bf585c1d6fe24e9a96367256556fbfe6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 1/6] fix: include FIRST of an adjacent identical non-terminal
 in FOLLOW

---
 src/grammar/first_follow_symbols.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/grammar/first_follow_symbols.rs b/src/grammar/first_follow_symbols.rs
index f744611..a4dff6c 100644
--- a/src/grammar/first_follow_symbols.rs
+++ b/src/grammar/first_follow_symbols.rs
@@ -395,26 +395,24 @@ impl<T: Clone + Eq + Hash> FirstFollowSymbols<T> {
         let next_symbol_index: usize = production_output_index + 1;
         let next_symbol = production.output.get(next_symbol_index).unwrap();
 
-        if current_symbol.ne(next_symbol) {
-            let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
+        let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
 
-            if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-                first_indexes.clear();
-            }
+        if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+            first_indexes.clear();
+        }
 
-            first_indexes.push(next_symbol_index);
+        first_indexes.push(next_symbol_index);
 
-            let mut current_symbol_follow_symbols =
-                follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
+        let mut current_symbol_follow_symbols =
+            follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
 
-            follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
-                grammar,
-                first_symbols_map,
-                production,
-                first_indexes,
-                &mut current_symbol_follow_symbols,
-            );
-        }
+        follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
+            grammar,
+            first_symbols_map,
+            production,
+            first_indexes,
+            &mut current_symbol_follow_symbols,
+        );
 
         follow_symbols_updated
     }
-- 
2.43.0


From a4431adb3cb8929557f443cba1be7ea2d78a0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 2/6] fix: report an error instead of panicking when input ends
 before a non-terminal

---
 src/parser/recursive_descent_parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 91c49f5..4a1877f 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -440,10 +440,12 @@ impl<
         token_position: usize,
         is_single_path: bool,
     ) -> ParseSymbolResult<TLex, TSyntax> {
-        let current_token_symbol = tokens.get(token_position).unwrap();
-
-        let token_productions =
-            self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type);
+        let token_productions = match tokens.get(token_position) {
+            Some(current_token_symbol) => {
+                self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type)
+            }
+            None => vec![],
+        };
 
         let token_productions_iter = token_productions.into_iter();
 
-- 
2.43.0


From 5cb9914b7a42c4dd28566791666e30f639990183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 3/6] fix: keep backtracked symbols in the parsed symbols of a
 failed production

---
 src/parser/recursive_descent_parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 4a1877f..840a5ba 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -564,7 +564,14 @@ impl<
                                 states.push(State::Parsing(state));
                                 states_pop_success = true;
                             }
-                            _ => {}
+                            _ => {
+                                reversed_failed_symbols.push(State::Parsing(ParsingState::new(
+                                    parsing_state.initial_token_position,
+                                    parsing_state.final_token_position,
+                                    None,
+                                    parsing_state.node,
+                                )));
+                            }
                         }
                     } else {
                         reversed_failed_symbols.push(State::Parsing(parsing_state));
-- 
2.43.0


From e90279167dadd93570631e12ebcd308a5b58d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 4/6] fix: do not consult the error solver while retrying an
 already parsed symbol

---
 src/parser/recursive_descent_parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 840a5ba..f0337bb 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -343,7 +343,7 @@ impl<
                     states.push(State::Parsing(parsing_state));
                 }
                 ParseSymbolResult::Err(failed_symbol) => {
-                    match self.inner_parse_pop_states(&mut states, tokens, is_single_path) {
+                    match self.inner_parse_pop_states(&mut states, tokens) {
                         Some(production_parsing_states) => {
                             return Self::inner_parse_from_tokens_production_build_failed_symbol(
                                 failed_symbol,
@@ -533,7 +533,6 @@ impl<
         &self,
         states: &mut Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>,
         tokens: &Vec<Token<TLex, TSyntax>>,
-        is_single_path: bool,
     ) -> Option<Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>> {
         let mut reversed_failed_symbols: Vec<
             State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>,
@@ -556,7 +555,7 @@ impl<
                             tokens,
                             parsing_state.initial_token_position,
                             productions_iterator,
-                            is_single_path,
+                            false,
                         );
 
                         match state_option {
-- 
2.43.0


From 9a27a88312110e63c352bf1166128d5723ae7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 5/6] fix: consult the error solver only once the input is
 known not to parse

---
 src/parser/recursive_descent_parser.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index f0337bb..ae59d9b 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -134,16 +134,26 @@ impl<
         let first_token_productions =
             self.inner_get_token_productions(symbol_to_derive, &first_token.t_type);
 
-        let first_token_productions_iter = first_token_productions.into_iter();
-
         let parse_symbol_result = self.inner_parse_from_tokens(
             symbol_to_derive,
             &tokens_vector,
             token_position,
-            first_token_productions_iter,
-            true,
+            first_token_productions.clone().into_iter(),
+            false,
         );
 
+        let parse_symbol_result = match parse_symbol_result {
+            ParseSymbolResult::Err(_) if self.syntax_error_solver.is_some() => self
+                .inner_parse_from_tokens(
+                    symbol_to_derive,
+                    &tokens_vector,
+                    token_position,
+                    first_token_productions.into_iter(),
+                    true,
+                ),
+            parse_symbol_result => parse_symbol_result,
+        };
+
         Self::parse_symbol_result_to_parse_result(parse_symbol_result)
     }
 
-- 
2.43.0


From 9bca57c271baa91f83fe2fad6cad7baefaf8463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:52 +0000
Subject: [PATCH 6/6] fix: select productions by FIRST of the whole right-hand
 side and FOLLOW of the left-hand side

---
 .../recursive_descent_parser_transitions.rs   | 94 ++++---------------
 1 file changed, 19 insertions(+), 75 deletions(-)

diff --git a/src/parser/recursive_descent_parser_transitions.rs b/src/parser/recursive_descent_parser_transitions.rs
index 5da0a98..f34747d 100644
--- a/src/parser/recursive_descent_parser_transitions.rs
+++ b/src/parser/recursive_descent_parser_transitions.rs
@@ -74,93 +74,37 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
      *
      * -----------------------------------------------------------------------------
      *
-     * Unfortunately we don't compute FIRST(α). Fortunately, $ is handled as an
-     * additional terminal symbol in the grammar. Keeping this in mind, there's a
-     * way to determine all the terminal symbols a in which M[A; a] = A → α
-     *
-     * -----------------------------------------------------------------------------
-     *
-     * Alternative algorithm:
-     *
-     * INPUT: Grammar G.
-     * OUTPUT: Parsing table M.
-     * METHOD: For each production A → Bα of the grammar, do the following:
-     *
-     *     1. For each terminal a in FIRST(B), add A → α to M[A; a].
-     *     2.1. If B is terminal and B is ε, then for each terminal b in FOLLOW(A),
-     *          add A → α to M[A; b]
-     *     2.2. If B is non terminal and ε is in FIRST(B), then for each terminal b
-     *          in FOLLOW(B), add A → α to M[A; b].
+     * FIRST(α) is not stored anywhere: it's obtained from the FIRST sets of the symbols of α,
+     * up to the first one which cannot derive ε. $ is handled as an additional terminal symbol
+     * in the grammar.
      */
     fn inner_from_get_production_first_symbols(
         grammar: &ContextFreeGrammar<T>,
         production: &ContextFreeGrammarProduction<T>,
         first_follow_symbols: &FirstFollowSymbols<T>,
     ) -> HashSet<T> {
-        let production_first_symbols: HashSet<T>;
+        let mut production_first_symbols: HashSet<T> = HashSet::new();
 
-        let symbol = production.output.get(0).unwrap();
-
-        let symbol_first_symbols = first_follow_symbols.get_first_symbols(&symbol).unwrap();
-
-        if symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_epsilon_first(
-                    grammar,
-                    production,
-                    first_follow_symbols,
-                    symbol,
-                    symbol_first_symbols,
-                );
-        } else {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_non_epsilon_first(
-                    symbol_first_symbols,
-                );
-        }
+        for symbol in &production.output {
+            let symbol_first_symbols = first_follow_symbols.get_first_symbols(symbol).unwrap();
 
-        production_first_symbols
-    }
+            symbol_first_symbols
+                .iter()
+                .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
+                .for_each(|symbol| {
+                    production_first_symbols.insert(symbol.clone());
+                });
 
-    fn inner_from_get_production_first_symbols_on_epsilon_first(
-        grammar: &ContextFreeGrammar<T>,
-        production: &ContextFreeGrammarProduction<T>,
-        first_follow_symbols: &FirstFollowSymbols<T>,
-        symbol: &T,
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
-
-        symbol_first_symbols
-            .iter()
-            .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
-            .for_each(|symbol| {
-                production_first_symbols.insert(symbol.clone());
-            });
-
-        let symbol_follow_symbols: &HashSet<T>;
-
-        if grammar.get_epsilon_symbol().eq(symbol) {
-            symbol_follow_symbols = first_follow_symbols
-                .get_follow_symbols(&production.input)
-                .unwrap();
-        } else {
-            symbol_follow_symbols = first_follow_symbols.get_follow_symbols(&symbol).unwrap();
+            if !symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+                return production_first_symbols;
+            }
         }
 
-        symbol_follow_symbols.iter().for_each(|symbol| {
-            production_first_symbols.insert(symbol.clone());
-        });
-
-        production_first_symbols
-    }
-
-    fn inner_from_get_production_first_symbols_on_non_epsilon_first(
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
+        let input_follow_symbols = first_follow_symbols
+            .get_follow_symbols(&production.input)
+            .unwrap();
 
-        symbol_first_symbols.iter().for_each(|symbol| {
+        input_follow_symbols.iter().for_each(|symbol| {
             production_first_symbols.insert(symbol.clone());
         });
 
-- 
2.43.0

