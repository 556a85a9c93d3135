From 4d5165c088e62425ba0727049146ee23b7f77837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 1/5] fix: step over the surrogate gap in char::next and
 char::prev

char::next('\u{d7ff}') was '\0' and char::prev('\u{e000}') was '\u{ffff}', so splitting
character ranges at either boundary produced wrong (or panicking) ranges.
---
 src/countable.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/countable.rs b/src/countable.rs
index e3a6b21..227569c 100644
--- a/src/countable.rs
+++ b/src/countable.rs
@@ -86,8 +86,15 @@ impl Countable for i64 {
 }
 
 impl Countable for char { 
-    fn next(&self) -> Self { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') }
-    fn prev(&self) -> Self { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') }
+    fn next(&self) -> Self {
+        // The surrogate code points are not valid characters, so they need to be skipped
+        if *self == '\u{d7ff}' { return '\u{e000}'; }
+        char::from_u32((*self as u32)+1).unwrap_or('\u{0000}')
+    }
+    fn prev(&self) -> Self {
+        if *self == '\u{e000}' { return '\u{d7ff}'; }
+        char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}')
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6286b86d11dac8025e9208a8cc1b71bb48039cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 2/5] fix: don't rewind a tape past its start

The limit was the total number of buffered symbols, including those after the read
position, so a partially rewound tape could be moved before its start (or past a cut).
---
 src/tape.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index afa621e..69d5d4c 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -127,8 +127,15 @@ impl<Symbol: Clone+Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, Sourc
     /// Moves backwards by num_symbols
     ///
     pub fn rewind(&mut self, num_symbols: usize) {
+        // Only the symbols between the start of the buffer and the current position can be rewound over
+        let available = if self.first_symbol_index > self.read_index {
+            (self.read_index + self.buffer.len()) - self.first_symbol_index
+        } else {
+            self.read_index - self.first_symbol_index
+        };
+
         // Do nothing if we're over the maximum length of the buffer
-        if num_symbols > self.buffer_size() {
+        if num_symbols > available {
             panic!("Can't rewind beyond the start of the tape");
         }
 
-- 
2.43.0


From 7fef3d7852f801f176d108a6d4c6592dc010d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 3/5] fix: keep dropped split readers at the 'dropped' position

Clearing the buffer moved the marker for a dropped reader, so dropping the other reader
afterwards tried to discard close to 2^64 symbols and never returned.
---
 src/split_reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/split_reader.rs b/src/split_reader.rs
index ce96077..b3950e5 100644
--- a/src/split_reader.rs
+++ b/src/split_reader.rs
@@ -73,7 +73,10 @@ impl<'a, Symbol: Clone> SplitSymbolReaderBuffer<'a, Symbol> {
                 }
 
                 for pos in self.positions.iter_mut() {
-                    *pos -= lowest_pos;
+                    // Readers that have been dropped stay at the maximum position
+                    if *pos < usize::max_value() {
+                        *pos -= lowest_pos;
+                    }
                 }
             }
         }
-- 
2.43.0


From c9466caab4f154d01e0bfed9e505252d30f11d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 4/5] fix: find every overlapping range in a symbol map

Only one range before the insertion position was considered, so ranges were missed
if the map contained ranges that overlap each other (eg 4-4 did not find 0-10 in a map
of 0-10, 1-2 and 5-6).
---
 src/overlapping_symbols.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/overlapping_symbols.rs b/src/overlapping_symbols.rs
index fc7b91b..40c440f 100644
--- a/src/overlapping_symbols.rs
+++ b/src/overlapping_symbols.rs
@@ -99,23 +99,13 @@ impl<Symbol: Ord+Clone+Countable> SymbolMap<Symbol> {
     pub fn find_overlapping_ranges(&self, range: &SymbolRange<Symbol>) -> Vec<&SymbolRange<Symbol>> {
         let mut result = vec![];
 
-        // Find the first range that matches (or the insertion position, which should be the first range wit a lowest value higher than the target range)
-        let existing = self.ranges.binary_search_by(|test_range| { SymbolMap::order_ranges(test_range, range) });
-
-        // Start returning values from here
-        let mut pos = match existing {
-            Ok(found_position) => found_position,
-            Err(insert_position) => insert_position
-        };
+        // The ranges in this map can overlap each other, so any of the ranges starting before the target might reach it
+        let mut pos = 0;
 
-        // Move backwards if the previous position overlaps this one
-        if pos > 0 && self.ranges[pos-1].highest >= range.lowest {
-            pos -= 1;
-        }
-
-        // TODO: can we construct a set of ranges such that one is missed here? Think maybe we can
         while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest {
-            result.push(&self.ranges[pos]);
+            if self.ranges[pos].overlaps(range) {
+                result.push(&self.ranges[pos]);
+            }
             pos += 1;
         }
 
-- 
2.43.0


From ed054ccb0dcd11841c7518d9639859de3928b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:05 +0000
Subject: [PATCH 5/5] fix: use the lowest output symbol when a state is joined
 to several accepting states

An NDFA state joined to several accepting states reported whichever output a HashSet
happened to return first, and patterns sharing an end state overwrote each other's output,
so a zero-length match could produce any of the clashing output symbols (and a different one
on each run) rather than the lowest.
---
 src/dfa_compiler.rs  |  2 +-
 src/ndfa.rs          | 15 ++++++++++++---
 src/state_machine.rs | 19 +++++++++++++++++++
 src/tokenizer.rs     |  6 ++++--
 4 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/dfa_compiler.rs b/src/dfa_compiler.rs
index 87d65be..314418e 100644
--- a/src/dfa_compiler.rs
+++ b/src/dfa_compiler.rs
@@ -199,7 +199,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol: Ord+Clone, DfaType, Ndfa: StateMachin
                     transitions.push((symbol, DfaState::create(vec![state])));
                 }
 
-                if let Some(source_output) = self.ndfa.output_symbol_for_state(*source_state) {
+                for source_output in self.ndfa.output_symbols_for_state(*source_state) {
                     output.push(source_output.clone());
                 }
             }
diff --git a/src/ndfa.rs b/src/ndfa.rs
index 8c67231..4a567d9 100644
--- a/src/ndfa.rs
+++ b/src/ndfa.rs
@@ -35,7 +35,7 @@
 //!
 
 use std::collections::HashMap;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 
 use super::state_machine::*;
 use super::overlapping_symbols::*;
@@ -75,11 +75,11 @@ impl<InputSymbol: Clone, OutputSymbol> Ndfa<InputSymbol, OutputSymbol> {
     /// Retrieves the complete set of states whose transitions should be returned due to joining for a given state
     ///
     #[inline]
-    fn get_join_closure(&self, state: StateId) -> HashSet<StateId> {
+    fn get_join_closure(&self, state: StateId) -> BTreeSet<StateId> {
         // TODO: this is a great use-case for the BitSet collection (available in the nightlies)
 
         // The result is initially empty. We'll add the initial state in the first pass
-        let mut result: HashSet<StateId> = HashSet::new();
+        let mut result: BTreeSet<StateId> = BTreeSet::new();
 
         // Add in any joined states
         let mut stack = vec![];
@@ -195,6 +195,15 @@ impl<InputSymbol: Clone, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> f
             _ => result
         }
     }
+
+    ///
+    /// Retrieves the output symbols for a particular state and all of the states that are joined to it
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.get_join_closure(state).iter()
+            .filter_map(|joined| self.output_symbols.get(joined))
+            .collect()
+    }
 }
 
 impl<InputSymbol : Clone, OutputSymbol> MutableStateMachine<InputSymbol, OutputSymbol> for Ndfa<InputSymbol, OutputSymbol> {
diff --git a/src/state_machine.rs b/src/state_machine.rs
index 7deaaa6..67fdbed 100644
--- a/src/state_machine.rs
+++ b/src/state_machine.rs
@@ -53,6 +53,15 @@ pub trait StateMachine<InputSymbol, OutputSymbol> {
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol>;
+
+    ///
+    /// Returns every output symbol that applies to a state
+    ///
+    /// There can be more than one of these if a state accepts for several reasons (eg, because it's joined to several accepting states)
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.output_symbol_for_state(state).into_iter().collect()
+    }
 }
 
 ///
@@ -117,6 +126,11 @@ impl<InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for Rc<S
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
 
 ///
@@ -137,4 +151,9 @@ impl<'a, InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 253b69e..1a25ec9 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -67,8 +67,10 @@ impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static>
             // Compile each pattern starting at state 0
             let end_state = pattern.compile(&mut ndfa, 0);
 
-            // Set the output for this pattern
-            ndfa.set_output_symbol(end_state, output.clone());
+            // Set the output for this pattern (patterns can share an end state so each one needs its own accepting state)
+            let accept_state = ndfa.count_states();
+            ndfa.join_states(end_state, accept_state);
+            ndfa.set_output_symbol(accept_state, output.clone());
         }
 
         // Clear out any overlapping ranges so we can build a valid DFA
-- 
2.43.0

