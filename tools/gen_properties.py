#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the statements are easy to edit and review).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Countable gives the exact successor and predecessor",
  "For every provided symbol type, `next` returns the smallest value greater than its argument and `prev` the largest value smaller than it, whenever such a value exists in the type. For `char` this includes the two values on either side of the surrogate gap, so `next` and `prev` are inverse of each other wherever both are defined.",
  ["inputs"], "every value of every integer type implementing Countable, and every char",
  "The tests step over a handful of small values per type; the ranges are up to 2^64 values and the surrogate gap is one value wide.",
  ["src/countable.rs"], [("impl Countable for <integers>, char", "src/countable.rs")], observe=["Countable::next", "Countable::prev"])

p("C02", "Symbol ranges are closed intervals with exact algebra",
  "A symbol range built from `lowest <= highest` contains exactly the symbols between its two ends, both included (and building one with lowest > highest panics). `overlaps` is true exactly when the two ranges share a symbol and is symmetric, `join` gives the smallest range covering both, and ranges are ordered by lowest symbol and then by highest, consistently with equality.",
  ["inputs"], "all pairs of ranges over any totally ordered symbol type, all symbols",
  "Tests use a few u8-sized ranges; orderings of four endpoints plus a symbol, for every ordered type, are not enumerated.",
  ["src/symbol_range.rs"], [("SymbolRange::new/overlaps/includes/join, Ord, PartialOrd, PartialEq", "src/symbol_range.rs")])

p("C03", "A symbol map keeps every range once and finds exactly the overlapping ones",
  "After any sequence of `add_range` calls a symbol map holds exactly the set of distinct ranges that were added, in ascending order. `find_overlapping_ranges` returns exactly those ranges of the map that share a symbol with the target, in ascending order.",
  ["inputs", "histories"], "all sequences of added ranges and all targets, over any ordered symbol type",
  "Tests look up one or two targets in maps of at most four ranges; nested ranges and targets falling between ranges are an unbounded family.",
  ["src/overlapping_symbols.rs"], [("SymbolMap::add_range, find_overlapping_ranges", "src/overlapping_symbols.rs")],
  state=[("ranges", "sorted, duplicate-free list of the ranges added", "src/overlapping_symbols.rs SymbolMap")])

p("C04", "Making a map non-overlapping partitions its ranges exactly",
  "`to_non_overlapping_map` returns a sorted map of pairwise disjoint ranges that cover exactly the same symbols as the original map. Every returned range lies either completely inside or completely outside each original range, so no original range is widened, narrowed or merged with another.",
  ["inputs"], "all symbol maps (any number of ranges, nested, touching, equal-start, overlapping), any countable symbol type",
  "Tests run a few maps of two or three ranges; the interesting cases depend on the relative order of all endpoints of all ranges.",
  ["src/overlapping_symbols.rs"], [("SymbolMap::to_non_overlapping_map", "src/overlapping_symbols.rs")])

p("C05", "An NDFA records every mutation and nothing else",
  "Each `add_transition`, `join_states`, `create_state` and `set_output_symbol` on an NDFA adds exactly that transition, join, state or output and leaves all earlier ones as they were. `count_states` is always one more than the highest state mentioned by any call so far, so it names an unused state.",
  ["histories"], "all sequences of mutating calls with arbitrary state ids in any order",
  "Tests build small machines with states mentioned in ascending order; histories with gaps, back references or repeats are unbounded.",
  ["src/ndfa.rs"], [("impl MutableStateMachine for Ndfa, count_states", "src/ndfa.rs")],
  state=[("max_state", "highest state mentioned", "src/ndfa.rs Ndfa"), ("transitions/joined_with/output_symbols", "the recorded machine", "src/ndfa.rs Ndfa")])

p("C06", "Joined states follow the transitive closure of the joins",
  "The transitions and output symbols reported for an NDFA state are exactly those attached to the states reachable from it through any number of joins, the state itself included: nothing reachable is missed, also through chains, diamonds and cycles, and nothing unreachable or reached only by following a join backwards is included.",
  ["inputs", "histories"], "all join graphs (any size, cycles and self joins included) and all states",
  "Tests join two or three states; reachability over arbitrary graphs, including cycles, is not sampled.",
  ["src/ndfa.rs"], [("Ndfa::get_join_closure, get_transitions_for_state, output_symbol_for_state, output_symbols_for_state", "src/ndfa.rs")])

p("C07", "Removing overlaps keeps every state's transitions",
  "`fix_overlapping_ranges` replaces each transition of an NDFA by transitions to the same target on pieces of its range, taken from one non-overlapping partition built from all the ranges of all the states. No transition is lost, added, moved to another state or retargeted, and joins and outputs are untouched.",
  ["inputs"], "all NDFAs over symbol ranges",
  "Tests fix one or two tiny machines with at most two overlapping ranges from one state.",
  ["src/ndfa.rs", "src/overlapping_symbols.rs"], [("Ndfa::fix_overlapping_ranges", "src/ndfa.rs")])

p("C08", "Patterns compile to fragments that match exactly what they describe",
  "Compiling a pattern onto a state machine adds a fragment whose paths from the start state to the returned state spell exactly the described inputs: nothing for epsilon, the literal symbols in order, one symbol of an inclusive range, at least n (or start <= n < end) consecutive copies for repeats, all the sub-patterns in order for sequences, and any one of them for alternatives. The fragment only ever leaves the start state and never enters it or ends in a state it later leaves, so fragments sharing a start state or appended to each other cannot interfere.",
  ["inputs", "programs"], "all patterns, nested to any depth, with all repeat counts and any number of sub-patterns",
  "Tests match a dozen patterns with counts below four; repeat counts, nesting and combinations are unbounded.",
  ["src/regular_pattern.rs"], [("Pattern::compile, Pattern::to_ndfa", "src/regular_pattern.rs")])

p("C09", "DFA compilation is the subset construction",
  "The DFA compiler builds the subset construction: each DFA state stands for a set of NDFA states, the first one for the set holding only state 0; for each symbol with transitions leaving some member the DFA state has one transition, and that transition leads to a DFA state standing for exactly the union of the targets of those transitions. States are numbered in the order they are given to the builder, and the transitions of a state are given once per symbol, in ascending order, after the state was started and before the next one is.",
  ["inputs"], "all NDFAs (any implementation of the state machine trait) with non-overlapping symbols",
  "Tests compile a few machines and mostly check matches; convergence of sets reached by different routes and numbering depend on the whole graph.",
  ["src/dfa_compiler.rs"], [("DfaCompiler::compile, DfaTransitions::merge_states, DfaState::create", "src/dfa_compiler.rs")])

p("C10", "The lowest output symbol wins when several patterns match",
  "The output symbol given to a DFA state is the least, in the order of the output type, of all the output symbols of the NDFA states it stands for, including outputs those states acquire through joins, and a state has none only if no member has one. A token matcher compiles each of its patterns from state 0 with an accepting state of its own, so the lowest output wins whatever order the patterns were added in.",
  ["inputs"], "all sets of outputs on all members of all DFA states; all token matchers",
  "Tests use two patterns with one conflict, both at the same literal; joins to several accepting states and insertion orders are not covered.",
  ["src/dfa_compiler.rs", "src/ndfa.rs", "src/tokenizer.rs"], [("DfaTransitions::output_symbol, output collection in compile", "src/dfa_compiler.rs"), ("Ndfa::output_symbols_for_state", "src/ndfa.rs"), ("TokenMatcher::to_ndfa", "src/tokenizer.rs")])

p("C11", "Building the transition table keeps each state's transitions",
  "The symbol range DFA that a builder produces has one state per `start_state` call, in order; each has exactly the accept symbol and the transitions given to the builder between that call and the next. Neighbouring transitions may be merged only when they lead to the same state and their ranges are directly adjacent, so every symbol keeps its target, and transitions never spill over into another state.",
  ["histories", "inputs"], "all sequences of builder calls",
  "Tests build tables with one or two states; merges at state boundaries and runs of more than two adjacent ranges are not sampled.",
  ["src/symbol_range_dfa.rs"], [("impl DfaBuilder for SymbolRangeDfaBuilder, impl StateMachine for SymbolRangeDfa", "src/symbol_range_dfa.rs")],
  state=[("states/transitions/accept", "offsets into one flat transition table", "src/symbol_range_dfa.rs SymbolRangeDfa")])

p("C12", "Running a DFA remembers the longest match seen so far",
  "Feeding a symbol to a running DFA moves to the target of the transition of the current state whose range contains it, counts one more symbol, and remembers the new state's output together with that count if the new state accepts, keeping the earlier remembered match otherwise. When no transition of the current state contains the symbol, or the input ends, the result is the remembered match (zero symbols if only the start state accepts) and a rejection only if there is none.",
  ["inputs", "histories"], "all prepared DFAs, all states, all symbols, all input lengths",
  "Tests run a few short strings; the claim is about every table and every position, including matches found long before the failing symbol.",
  ["src/symbol_range_dfa.rs"], [("SymbolRangeDfa::start, SymbolRangeState::next/finish", "src/symbol_range_dfa.rs")],
  state=[("state/count/accept", "run-time state of a match", "src/symbol_range_dfa.rs SymbolRangeState")])

p("C13", "Matching feeds each symbol once, in order, and stops at the first decision",
  "`match_pattern` passes every symbol it reads to the matcher exactly once and in order, tells it about the end of the input exactly when the reader has ended, and returns the first decision the matcher makes without reading any further. `matches` and `matches_prepared` report the accepted length when the decision is to accept and nothing when it is to reject. `is_accepted` says yes exactly to an acceptance whose output equals the one asked for.",
  ["inputs", "schedules"], "all matchers, all readers, all input lengths",
  "Tests run finite literal strings through one matcher type and only look at the final answer.",
  ["src/matches.rs"], [("match_pattern, matches, matches_prepared", "src/matches.rs")])

p("C14", "A tape replays its source faithfully under rewinds and cuts",
  "Reading from a tape always yields the source symbol at the tape's current position and advances it by one; `rewind(n)` moves back exactly n symbols when n is at most the number of symbols between the last cut and the current position, and panics otherwise, and `cut` changes nothing but how far one can rewind. The reported position is the number of symbols before the current one, the source is read only when nothing is buffered and never again once it has ended, and the tape reports being at its end only when every symbol has been read and the source has ended.",
  ["histories", "inputs"], "all interleavings of reads, rewinds, cuts and resizes, all buffer sizes and wrap-around positions",
  "Tests exercise a handful of read/rewind sequences; the circular buffer has a state for every combination of read, first and last index.",
  ["src/tape.rs"], [("Tape::next_symbol, rewind, cut, resize, buffer_size, at_end_of_reader", "src/tape.rs")],
  state=[("buffer/read_index/first_symbol_index/last_symbol_index", "circular buffer of symbols that may be re-read", "src/tape.rs Tape")])

p("C15", "A token covers the matched input and a failed match consumes nothing",
  "When the tokenizer finds a token it returns the range starting at the current position whose length is that of the longest non-empty match, with the matcher's output symbol, and continues directly after that range. When nothing (or only the empty string) matches it returns nothing and the position is unchanged, so the input can be tried again or skipped symbol by symbol.",
  ["inputs", "histories"], "all matchers, all inputs, all positions",
  "Tests tokenize a few short strings; look-ahead beyond the accepted match depends on the grammar and input.",
  ["src/tokenizer.rs"], [("Tokenizer::next_token, skip_input, next_symbol", "src/tokenizer.rs")])

p("C16", "Iterating a tokenizer visits every token and always makes progress",
  "Iterating over a tokenizer returns every token in order; when no token starts at the current position it skips exactly one symbol and tries again, and it ends only when the whole input was consumed. Each step consumes at least one symbol or finds the end, so the returned ranges are non-empty, ascending and disjoint and the iteration terminates on every finite input.",
  ["inputs"], "all matchers and all finite inputs, matching or not",
  "Tests iterate over one or two inputs; termination and completeness are claims about all inputs.",
  ["src/tokenizer.rs"], [("impl Iterator for Tokenizer", "src/tokenizer.rs")])

p("C17", "Split readers independently see the whole stream",
  "Each of the two readers made by splitting a reader sees exactly the results of the source, in order, from the point of the split, no matter how reads from the two are interleaved. Dropping one reader at any point never changes what the other sees, and dropping both is always safe.",
  ["schedules", "histories"], "all interleavings of reads and drops of the two readers",
  "Tests interleave a few fixed schedules; the buffer state depends on the distance between the two readers.",
  ["src/split_reader.rs"], [("SplitSymbolReaderBuffer::read, clear_buffer, split, Drop", "src/split_reader.rs")],
  state=[("positions/buffer", "relative positions of the readers and the symbols one has not read yet", "src/split_reader.rs")])

p("C18", "Tagging keeps every symbol of the stream in order",
  "Replacing a range of a tagged stream by a tag, one at a time or with a list of ascending disjoint ranges, puts one tag symbol in place of each range, holding exactly the symbols of that range in order, and keeps all the other symbols in order around it. So flattening all tags gives back the original stream; a list that is out of order is refused, and tokenizing a stream tags exactly the ranges of the tokens found.",
  ["inputs"], "all streams, all tag lists, all ranges within the stream",
  "Tests tag one to three ranges of short strings.",
  ["src/tagged_stream.rs"], [("TaggedStream::tag, tag_range, with_tags, from_reader, tokenize", "src/tagged_stream.rs")])

p("C19", "Symbol readers deliver their source unchanged",
  "Reading from a vector, slice iterator, string, byte stream, filtered iterator, boxed reader or consumed vector yields exactly the source's symbols in order and then nothing; mapping a reader applies the function once to each symbol as it is read; collecting a reader into a vector reads it to its end and keeps every symbol in order.",
  ["inputs"], "all sources of any length, all mapping functions",
  "Tests read a few short literals.",
  ["src/symbol_reader.rs"], [("impls of SymbolSource, SymbolReader, ReaderToVector, MapSymbolReader", "src/symbol_reader.rs")])

p("C20", "Combining patterns keeps their parts, order and repeat counts",
  "Appending one pattern to another gives a pattern meaning the first followed by the second, and `or` one meaning either, for every combination of pattern kinds: literals are concatenated in order and sequences and alternatives keep all their members in order. Repeats keep their bounds and body, and every way of turning a value into a pattern gives the same literal symbols in order.",
  ["inputs", "programs"], "all pairs of patterns of all kinds, any number of members",
  "Tests combine two literals and check one match each; the merging rules differ for each pair of pattern kinds.",
  ["src/regular_pattern.rs"], [("PatternCombiner::append/or, PatternTransformer, ToPattern, IntoPattern", "src/regular_pattern.rs")])

p("C21", "Matching cannot change a prepared matcher",
  "A prepared matcher is immutable: running it, any number of times and from any number of places at once, cannot change it or any other shared state, so the same input always gets the same answer. It contains no interior mutability, the library keeps no global state and uses no unsafe code, and no result depends on the iteration order of a hash table.",
  ["histories", "schedules"], "all sequences and interleavings of uses of a prepared matcher",
  "Tests use each matcher once or twice; independence of history is a statement about all uses.",
  ["src/symbol_range_dfa.rs", "src/matches.rs", "src/dfa_compiler.rs"], [("type structure of SymbolRangeDfa and SymbolRangeState; statics; unsafe; hash iteration", "src/*.rs")])

p("C22", "Every way of preparing and holding a machine gives the same machine",
  "Preparing a pattern, a string, a reference to a pattern, a boxed state machine or an already prepared matcher all lead through the same conversion, with the same pattern, and preparing a prepared matcher returns it unchanged. A state machine behaves identically when used through a `Box` or an `Rc`: every query is forwarded with the same arguments and its answer returned unchanged.",
  ["inputs", "programs"], "all patterns, all state machines, all queries",
  "Tests prepare literals and strings only, and never query a machine through Rc.",
  ["src/prepare.rs", "src/state_machine.rs", "src/regular_pattern.rs", "src/tokenizer.rs"], [("impls of PrepareToMatch, ToNdfa, StateMachine for Rc/Box", "src/prepare.rs")])

p("C23", "Saved matchers load back with every part in place",
  "Serializing a prepared matcher writes all of its tables, each under its own name, and deserializing reads each table back from the same name (or position) into the same place, refusing data in which one is missing. The same holds for symbol ranges. A state that gives an output and one that gives none stay different in every format.",
  ["inputs", "configurations"], "all prepared matchers and symbol ranges, all self-describing and positional formats",
  "No test saves a matcher, and a round trip through one format would only exercise that format and one shape of tables.",
  ["src/symbol_range_dfa.rs", "src/symbol_range.rs"], [("Serialize/Deserialize of SymbolRangeDfa and SymbolRange", "src/symbol_range_dfa.rs")])

p("C24", "Preparing a pattern finds the longest match of its language",
  "Taken as a whole, matching a pattern against an input returns the length of the longest prefix of the input that belongs to the pattern's language, and nothing if there is no such prefix.",
  ["inputs", "programs"], "all patterns and all inputs",
  "Tests check a few dozen (pattern, input) pairs.",
  ["src/matches.rs", "src/prepare.rs", "src/regular_pattern.rs", "src/ndfa.rs", "src/overlapping_symbols.rs", "src/dfa_compiler.rs", "src/symbol_range_dfa.rs", "src/symbol_range.rs", "src/countable.rs"], [("the composition of all stages", "src/*.rs")])

p("C25", "Compilation terminates with a bounded number of states",
  "Compiling any pattern terminates and the number of DFA states produced stays within a bound that depends only on the pattern: following joins, splitting ranges and building sets of states all come to an end, and no set of states is built without end.",
  ["inputs", "programs"], "all patterns",
  "Tests compile small patterns only.",
  ["src/dfa_compiler.rs", "src/ndfa.rs", "src/overlapping_symbols.rs", "src/regular_pattern.rs"], [("worklist in DfaCompiler::compile", "src/dfa_compiler.rs"), ("worklist in Ndfa::get_join_closure", "src/ndfa.rs"), ("worklist in SymbolMap::to_non_overlapping_map", "src/overlapping_symbols.rs"), ("recursion of Pattern::compile", "src/regular_pattern.rs")])

p("C26", "Buffers hold only what may still be needed",
  "A split reader keeps a symbol only as long as a live half has still to read it: after every read and every drop the slower live half is at the front of the buffer, and a dropped half holds nothing back. A tokenizer that has returned a token keeps nothing of the input before the token's end, and a tape's buffer only grows when it is filled with symbols that can still be rewound to. Endless streams can so be read in bounded memory.",
  ["inputs", "histories"], "all streams, all interleavings of reading and dropping, all matchers and token lengths",
  "What a buffer still holds is not visible through the interface, so no test notices a buffer that is never emptied.",
  ["src/split_reader.rs", "src/tokenizer.rs", "src/tape.rs"], [("SplitSymbolReaderBuffer::read / clear_buffer, Drop of SplitSymbolReader", "src/split_reader.rs"), ("Tokenizer::next_token", "src/tokenizer.rs"), ("Tape::next_symbol / resize / cut", "src/tape.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
