def c(pid, technique, note): return {"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough", "technique": technique, "level": "other", "level_note": note}
CHECKS = [
 c("S01", "lint over HIR/MIR (rustc driver): unsafe-construct exclusion", "every item, block and attribute of the crate is visited; trusted: the compiler's own safety checking and dependencies"),
 c("S03", "who-may-call rule over all call sites + value analysis of written paths", "all call sites of the crate; trusted: std models"),
 c("S02", "whole-crate effect rules over call sites, casts and types, with a flow rule for sequences taken from hash containers", "all call sites and casts of the crate; trusted: serde and the ordered containers of std; sequences whose use is not recognised give no answer rather than a pass"),
 c("S04", "path-partitioned dataflow (typestate of io::Result values)", "all abstract paths of the functions performing I/O, loops summarised for any number of iterations"),
 c("C01", "path-partitioned abstract interpretation of MIR: step byte partitioned into its 256 values, compared with the documented table", "the step bytes of all 256 values in all storage forms; the mapping function and the enumeration's numbers"),
 c("C15", "abstract evaluation of the terms of every path over linear forms of unknown bytes; loops stepped through in that domain", "all byte values and all four-byte numbers, by number of bytes; path numbers one by one below 384; trusted: engine and std models"),
 c("C02", "path-partitioned abstract interpretation of MIR (affine offsets) of the chunk decoder, per opcode", "256 opcodes (with the deciding second byte), all lengths symbolic; trusted: engine and std models; arithmetic assumed not to wrap"),
 c("C03", "relational abstract interpretation of every record emitter: the symbolic bytes left in the output are parsed with the format table", "all emitters in use, all their paths, keys partitioned into values, lengths symbolic (1..255); trusted: engine and std models"),
 c("C04", "path and loop-iteration balance analysis (directory depth, write position) plus symbolic length of the output buffer", "every path and loop iteration of assembly, any number of components"),
 c("C12", "symbolic memory lookup of header bytes in the assembled buffer, with loop write-range summaries", "all paths of assembly; records opaque but bounded to lie behind their write position"),
 c("C14", "loop summaries of assembly: per iteration over a component collection, the emitted records related to the entry of that iteration", "every path and loop iteration of assembly; record emitters, encode_text and put_int as single steps (their own behaviour is C03, C07); trusted: engine and std models"),
 c("C13", "loop summaries of the two nested decoding loops over MIR (affine positions, carried state, every exit's path facts)", "both loops with arbitrary state at each iteration; trusted: engine and std models; arithmetic assumed not to wrap"),
 c("B04", "transducer extraction from MIR: one iteration of the lexer's loops per class of character, string state, nesting and word, compared with the language", "every path of one iteration of both loops from an arbitrary state; trusted: engine and std models"),
 c("B06", "transducer extraction from MIR: one iteration of the source lexer per class of character and word, and of the loops over a script block, a string and a calculation, compared with the language", "every path of one iteration from an arbitrary state in normal mode, in script blocks, strings and calculations; trusted: engine and std models; the mode for assertions is never entered and not covered"),
 c("B07", "grammar conformance by path analysis of MIR: the token kinds every accepting path through a declaration has established at each position", "every path through one declaration from an arbitrary position of an arbitrary token sequence; trusted: engine and std models"),
 c("B05", "termination analysis: lexicographic ranking measures of every loop and descent of every recursion in the compile path", "every loop of every function reachable from compilation and assembly, any iteration state; trusted: engine and std models; standard iterators over finite collections end"),
 c("B02", "pushdown abstraction of the parser extracted from MIR: per token kind and innermost open block, the emitted block steps and stack change", "every path of one iteration from an arbitrary state; trusted: engine and std models"),
 c("B03", "loop-iteration summaries of the parser: emitted step, argument-collecting loops and consumed tokens per step name and token kind", "every path of one iteration from an arbitrary state, every step name; trusted: engine and std models"),
 c("B01", "loop-iteration summaries of the declaration parser (effects on the component collections per token kind, key freshness) and value flow through main to the assembler and the JSON dump", "every path of one iteration from an arbitrary state, every declaration kind; one source file per run; trusted: engine and std models"),
 c("S05", "path-fact analysis of main: conditions on the command line and on the tests of every path that runs, skips or feeds the test environment", "every path through one iteration of the compile and decompile loops; the functions called are opaque; trusted: engine and std models"),
 c("S06", "loop and path summaries of the command-line driver over MIR: data flow from the named files to the compiler, the decoder and the written outputs", "every path through one iteration of each loop of main and of the two writing functions; trusted: engine and std models of paths, files and clap"),
 c("S08", "extraction of the derived option parser from MIR: every builder call of every option and group, and every path from parsed values to fields, compared with the documented options", "all options and groups, all paths that fill the fields; trusted: clap does what its builder calls say"),
 c("S07", "path analysis of the (derived) serialisers over MIR, over all types reachable from the file type", "every path of every serialiser; trusted: engine, serde_json, the serialisers of the standard types"),
 c("C05", "path-fact analysis: every write to a component map with the directory-path facts that dominate it, and every loop iteration consistent with a documented record has its effect", "all writes of decompile_fmp12_file to the decoded file, all abstract paths"),
 c("C06", "path-partitioned abstract interpretation + loop summaries: record extents and offsets of the three script decoders", "all step decoding sites; loops summarised for any number of records"),
 c("C07", "bytewise transducer extraction from MIR (256 byte values), lookup-table extraction and composition, per-iteration rules", "all bytes, all characters of the set, texts of any length; trusted: engine and std models"),
 c("C08", "ranking-measure / visited-set termination analysis of all loops and recursion reachable from decompilation", "every loop of every function reachable from the decompiler"),
 c("C09", "path-partitioned abstract interpretation of one iteration of the token loop, per token byte", "256 token bytes and the second bytes of two-byte tokens, symbolic lengths"),
 c("C10", "path-fact analysis of the comparison number against the constructed operator", "all 256 comparison numbers at every construction of a relationship"),
 c("C11", "search-loop analysis: hit/miss conditions of the search that guards each insertion", "all insertions of relationships, symbolic pair and symbolic set of known relationships"),
 c("V01", "relational analysis of the run loops: the interpreter state at the start of a test, per path and loop iteration, related to what an earlier test left", "both run functions, load_test and clear_records, any earlier state; known findings listed; trusted: engine and std models"),
 c("V02", "typestate of the verdict over the run loops and one interpreter step, with the stop and report conditions of each path", "every path of both run loops and of one step from an arbitrary state; trusted: engine and std models"),
 c("V03", "stack-balance analysis: calls and scopes opened and closed on every path of one interpreter step; where variables are read and written", "every path of one step from an arbitrary state; known findings listed; trusted: engine and std models"),
 c("V04", "effect analysis of the instruction position on every path of one interpreter step", "every path of one step from an arbitrary state, skip loops as summaries; known finding listed; trusted: engine and std models"),
 c("V05", "loop summaries of the skip loops of the control steps (which steps end the skipping, whether nesting is counted) and effects on the loop and branch state", "every path of the control steps from an arbitrary state; known findings listed; trusted: engine and std models"),
 c("V06", "construction-site reachability (steps the compiler can build) against the cases of the interpreter", "every construction site of a step reachable from the burn compiler, every path of one step; known finding listed"),
 c("V07", "effect classification of the database functions and path facts of one interpreter step in find mode", "every path of one step possible in find mode; known finding listed; trusted: engine and std models"),
 c("D01", "effect analysis of all functions of the database on column lengths, loops summarised over all columns", "every function of the database and its tables, any contents; known finding listed; trusted: engine and std models"),
 c("D02", "symbolic position bounds per navigation function under the facts of each path", "every path of every navigation function, any found set including the empty one; known findings listed; trusted: engine and std models"),
 c("D03", "effect and loop-summary analysis of record creation over all occurrences", "every path and loop iteration of record creation, any database; trusted: engine and std models"),
 c("D04", "truth table of each operator's comparison over the three orderings of near and far value, extracted from the paths of the relationship search; registration of both directions", "every path and iteration of the search, all operators; known findings listed; trusted: engine and std models"),
 c("D05", "value flow of the two parts of a qualified name into table, record and field selection", "every read and write of a qualified name in the interpreter, any database; known finding listed; trusted: engine and std models"),
 c("D06", "loop summaries of the find step: which records are collected under which comparison, their order, and what becomes of the found sets", "every path and loop iteration of the find and show-all steps, any criteria and contents; trusted: engine and std models"),
 c("E01", "symbolic evaluation of the calculation evaluator per node kind and operator; truth tables of comparisons; operator tokens extracted from the lexer", "every node kind the parser builds, every operator, every path; floating point operations themselves are std's; known findings listed"),
 c("E02", "type analysis (immutable borrow, no interior mutability reachable) plus call-graph effect exclusion; the borrow checker does the rest", "the evaluation functions and everything reachable from them, all types reachable from the environment"),
 c("E03", "grammar extraction from the precedence-climbing parser (operators, operand level and tree shape per level)", "every path and loop iteration of every level of the parser; trusted: engine and std models"),
 c("E04", "transducer extraction from the calculation lexer: the loop over a string literal and the token it becomes", "every path of one turn from an arbitrary state; known finding listed; trusted: engine and std models"),
]
NA = {
 "N02": "absence of every panic on arbitrary bytes needs bounds on all runtime lengths; most slicing sites are unchecked by design of the prototype; only the progress, extent and termination clauses are claimed (C02, C08)",
 "N03": "behavioural round trip over whole files; the assembler does not emit most component kinds yet, so the statement is false and its decidable clauses are claimed as C03/C04/C07",
}
