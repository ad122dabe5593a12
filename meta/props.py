"""Single source for properties.jsonl and MANIFEST.json (run: python3 meta/gen.py)."""
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Script-step numbers decode to the documented step, for every byte",
  "When a stored script is decoded, every one of the 256 possible step-number bytes is handled: a number documented as a script step yields exactly that step, and a number that is not a step yields no step; no byte value makes decoding fail. Two different numbers never yield the same step, and a step's own number is the number it is decoded from.",
  ["inputs"], "all 256 values of the step-number byte of a stored script step",
  "The tests decode no stored script step at all; a table of 256 entries has to be right in every entry.",
  ["src/fm_script_engine/fm_script_engine_instructions.rs", "src/decompile/decompiler.rs", "doc/fmp_format.md"],
  [("step table indexed by the stored byte", "INSTRUCTIONMAP"), ("step enumeration with explicit numbers", "enum Instruction"), ("documented numbers", "doc/fmp_format.md")],
  ["scripts of a decompiled file"])
p("C02", "Each chunk of a database file is decoded with its exact extent",
  "For every chunk kind of the file format the decoder takes the key, segment number, reference and data from exactly the bytes the format assigns to them, continues at the first byte after the chunk, and pushes or pops exactly the directory levels the chunk stands for. It always moves forward: a chunk is either rejected as invalid or consumes at least its own first byte.",
  ["inputs"], "all byte contents of a chunk, for every chunk opcode",
  "No test decodes individual chunks; the one file-based test reads a single blank file and fails at base.",
  ["src/chunk.rs", "src/encoding_util.rs", "doc/fmp_format.md"],
  [("per-opcode decoding of offset, data, reference, path", "get_chunk_from_code")],
  ["every decoded component of a decompiled file"])
p("C03", "Records the assembler writes are read back as the same key and data",
  "Every kind of data record and directory marker that the assembler can emit for a compiled file is in the form the chunk decoder expects: decoding it yields the same key and the same data bytes and ends exactly where the next emitted record starts. This holds for every key, every directory number below 384 and every length from 1 to 255 bytes of the data and of the key.",
  ["inputs", "programs"], "all key/data values handed to the emitters; all data lengths 1..255, all one-byte keys, all directory numbers below 384",
  "One test checks four data lengths of the length-class function; nothing reads assembler output back.",
  ["src/compile/assembler.rs", "src/chunk.rs"],
  [("record emitters", "Assembler::emit_*"), ("length class of small records", "calc_small_kv_ins"), ("reader", "get_chunk_from_code")],
  ["bytes of the written .fmp12 file"])
p("C04", "Assembled files are well formed: balanced directories, whole sectors",
  "For every compiled input, each directory the assembler opens in the output is closed again; none is closed that is not open, and none is left open at the end. Patching bytes into the output never changes its length, and the output always consists of whole sectors of 4096 bytes.",
  ["programs"], "all compiled files: any number of tables, occurrences, scripts, layouts, any names",
  "No test assembles a file.",
  ["src/compile/assembler.rs", "src/compile/header.rs"],
  [("directory push/pop emitters", "push_directory/pop_directory"), ("in-place patches", "Vec::splice in the emitters"), ("sector allocation", "append_blank_chunk")],
  ["bytes of the written .fmp12 file"])
p("C12", "An assembled file's sector chain visits every sector and ends",
  "In every assembled file the first sector announces the number of the file's last sector, and the chain that starts at sector 2 and follows the next-sector numbers (stored high byte first) visits every further sector exactly once and then ends. The records assembled later do not overwrite these numbers.",
  ["programs"], "all compiled files", "No test assembles a file.",
  ["src/compile/assembler.rs", "src/decompile/sector.rs"],
  [("sector allocation and header fields", "assemble_fmp12/append_blank_chunk"), ("reader of the header", "get_sector")],
  ["bytes 8..12 of every sector of the written .fmp12 file"])
p("C14", "The assembled file lists every table and table occurrence of the schema under its number",
  "For every table of the schema, however many there are and whatever they are called, the assembled file has one record with the table's encoded name linked to the table's number, one record with its number (also stored as four bytes, high byte first) and one directory numbered 128 plus the table's number; for every table occurrence it has one record with its encoded name and one with its number. The file further states the number of tables, layouts and scripts there really are, and its header carries the file's name. No entry is left out, written under another entry's number, or given another entry's name.",
  ["programs"], "all schemas: any number of tables and table occurrences (numbers below 256 in one-byte links, counts below 256)",
  "No test assembles a file; an omitted entry depends on the number and names of the declarations.",
  ["src/compile/assembler.rs"],
  [("table records", "emit_table_metadata"), ("table occurrence records", "emit_relationship_data"), ("counts", "emit_layout_data/emit_script_data"), ("file name", "assemble_fmp12")],
  ["records of the written .fmp12 file"])
p("C15", "Numbers of the file format are read and written with their value",
  "A number stored in one, two or four bytes is read as the number those bytes stand for, high byte first, whatever the bytes; every number that fits four bytes is written as exactly four bytes, high byte first, so that reading gives it back, and writing it never fails. A path number of one byte is that byte, one of two bytes is 128 plus its second byte; every path number below 128 is written as one byte and every one from 128 to 383 as the marker byte 252 and the number less 128, so that reading gives it back.",
  ["inputs"], "all byte values and all numbers below 2^32 (path numbers: below 384, which is all that two bytes can carry)",
  "The tests sample ten values, none of which needs three or four bytes, while lengths, indexes and links of every file go through these functions.",
  ["src/encoding_util.rs"], [("reading", "get_int, get_path_int"), ("writing", "put_int, put_path_int")],
  ["lengths, keys and links of decoded and written files"])
p("C13", "Every record of every sector in the chain is decoded, each sector from the top of the file tree",
  "Decoding starts at sector 2 and follows the next-sector number in each sector's header (bytes 8 to 11, high byte first) until it is 0 or names a sector already decoded. In every sector reached, all records from byte 20 to the end of the sector are decoded one after the other, each starting where the previous one ended; the first record of a sector is taken to lie in the top directory, and the directory reached by one record is where the next one lies. No sector of the chain and no record in it is left out (a record that cannot be decoded stops the program, it is not skipped silently).",
  ["inputs"], "all file contents: all chains of sectors and all sequences of records in a sector",
  "The one sample file has one chain; whether a sector is left out depends on the numbers stored in the file.",
  ["src/decompile/decompiler.rs", "src/decompile/sector.rs", "src/encoding_util.rs", "doc/fmp_format.md"],
  [("sector and chunk loops", "decompile_fmp12_file"), ("sector header", "get_sector"), ("integers in the header", "get_int")],
  ["decoded file structure (JSON dump)"])
p("C05", "Components are decoded only from their documented place in the file tree",
  "A table, field, table occurrence, relationship, layout, script or data source of the decoded file is created or filled in only from chunks found under the directory path documented for that kind of component, and a table, field, layout or script is stored under the identifier given by that path. No chunk elsewhere in the file changes it. Its name, type, description, creators and references (base table of an occurrence, occurrence of a layout, fields of a relationship) are exactly what the record with the documented reference number holds, data sources take the stored names in order, and every such record of a component takes effect, as does every stored argument of a script step on the step with its number.",
  ["inputs"], "all file contents: all directory paths and chunks",
  "The tests contain one sample file; which paths may influence which component quantifies over all paths.",
  ["src/decompile/decompiler.rs", "doc/fmp_format.md"],
  [("match of the directory path", "decompile_fmp12_file")],
  ["decoded file structure (JSON dump)"])
p("C06", "All storage forms of a script decode to the same steps in stored order",
  "Script steps can be stored inline, in one data segment, or spread over several segments; whichever form is used, each complete step record yields the same step, with the same position number and the same arguments, and the steps appear in stored order. Records whose number is not a step, or which are incomplete, are skipped.",
  ["inputs"], "all step records in all storage forms",
  "No test decodes a stored script.",
  ["src/decompile/decompiler.rs"],
  [("three decoders of 28-byte step records", "decompile_fmp12_file")],
  ["scripts of a decompiled file"])
p("C07", "Text obfuscation and the two-byte character set invert each other",
  "Text written with the file's obfuscation is recovered unchanged by reading it, because both directions apply the same self-inverse byte transformation to every byte. Every character of the two-byte character set has its own unique code, encoding yields that code and decoding that code yields the character. An upper-case letter is encoded like its lower-case letter.",
  ["inputs"], "all texts and all characters of the two-byte table",
  "The obfuscation test decodes five strings and never encodes; the charset test aborts at base.",
  ["src/encoding_util.rs", "src/dbcharconv.rs"],
  [("xor key in both directions", "fm_string_encrypt/fm_string_decrypt"), ("character table", "ENCODING_MAPPING")],
  ["names in decoded and assembled files"])
p("C08", "Reading a file's sector chain always terminates",
  "Following the chain of sectors of a database file never visits the same sector twice, whatever next-sector numbers the file contains, so decoding always comes to an end.",
  ["inputs"], "all next-sector numbers in a file, including cycles",
  "Termination on all inputs; the tests read one well-formed file.",
  ["src/decompile/decompiler.rs", "src/decompile/sector.rs"],
  [("sector loop", "decompile_fmp12_file")], ["decompilation finishes"])
p("C09", "Stored calculations are decoded token by token into the text they stand for",
  "A calculation stored in a database file is turned back into text token by token, in stored order: every documented operator, function name, parenthesis and space yields its own text, and a byte that stands for nothing yields none. A string literal, a number and a variable name each take exactly the bytes that their length says (a number always has the same size), and the next token is read directly behind them.",
  ["inputs"], "all calculation bytes: each of the 256 token bytes at any position, each second byte of a two-byte token, all string lengths",
  "No test decodes a stored calculation; the order and extent of tokens quantify over all byte sequences.",
  ["src/decompile/decompiler.rs", "doc/fmp_format.md"],
  [("token loop", "decompile_calculation"), ("obfuscated names and literals", "fm_string_decrypt")],
  ["arguments of script steps of a decompiled file"])
p("C10", "The stored comparison number selects the documented relationship operator",
  "Each comparison number that a database file stores for a relationship is decoded to the comparison operator documented for that number, and two different documented numbers never yield the same operator.",
  ["inputs"], "all comparison numbers that a file can store for a relationship",
  "No test decodes a relationship with a comparison other than equality.",
  ["src/decompile/decompiler.rs", "src/component.rs", "doc/fmp_format.md"],
  [("decoding of relationship definitions", "decompile_fmp12_file")],
  ["relationships of a decompiled file"])
p("C11", "A relationship stored under both of its table occurrences is decoded exactly once",
  "A database file describes each relationship under both table occurrences it connects. Whichever of the two is read first, and however many relationships are already known, the decoded file contains the relationship exactly once: the second description of the same pair of occurrences adds nothing and the first of a new pair is never dropped.",
  ["inputs", "histories"], "all orders of relationship descriptions and all sets of already decoded relationships",
  "The tests decode one file without multi-relationship graphs; the order and number of descriptions are unbounded.",
  ["src/decompile/decompiler.rs", "src/component.rs"],
  [("search among the relationships decoded so far", "decompile_fmp12_file, RelationGraph")],
  ["relationships of a decompiled file"])
p("V01", "Each test starts from a clean environment",
  "When several tests are run one after another, each starts with a passing verdict, no variables, only its own script on the call stack, browse mode, no pending find criteria and, when cleanup was requested, no records, found sets or record positions left by an earlier test. The outcome of a test therefore does not depend on which tests ran before it.",
  ["histories", "programs"], "all sequences of tests and all states an earlier test can leave behind",
  "Every existing test runs a single test definition.",
  ["src/testing/test.rs", "src/testing/database.rs"],
  [("per-test reset", "TestEnvironment::load_test"), ("record cleanup", "run_tests_with_cleanup, Database::clear_records")],
  ["verdicts printed by a run"],
  [("test_state, instruction_ptr, variables, mode, find_criteria", "per-test interpreter state", "TestEnvironment"), ("found_set, record_ptr", "per-occurrence position", "TableOccurrence")])
p("V02", "A failed assertion always makes its test fail",
  "If an assertion step evaluates to false while a test runs, the test is reported as failed: nothing that runs later in the same test turns the verdict back to success, and no further step is executed. Conversely nothing but a false assertion makes the verdict a failure, and exactly one of the two outcomes, the one the verdict says, is reported for every test.",
  ["programs", "histories"], "all scripts and all positions of the failing assertion",
  "The tests only contain passing assertions.",
  ["src/testing/test.rs"],
  [("assertion step", "TestEnvironment::step, Assert"), ("run loop and verdict", "run_tests, run_tests_with_cleanup")],
  ["verdict printed for each test"])
p("V03", "Script calls and variable scopes are paired",
  "Calling a script opens exactly one new, empty variable scope together with the new script position, and leaving a script closes exactly the scope of that script, so the caller sees its own variables again. Calling a script that does not exist opens nothing, and variables are always written and read in the scope of the script that is currently executing.",
  ["programs", "histories"], "all call graphs of scripts, any call depth, repeated calls",
  "No test calls a script.",
  ["src/testing/test.rs"],
  [("call and return", "TestEnvironment::step"), ("variable access", "SetVariable, get_operand_val")],
  None, [("instruction_ptr / variables", "call stack and scope stack, equal height", "TestEnvironment")])
p("V04", "Every executed step moves the interpreter on",
  "Executing one script step always changes the position: the step advances past itself, jumps to another step, enters a called script or leaves the current one; it never stays where it is (a loop with nothing in it aside). A step that is not a jump continues with the very next step. When a called script ends, the caller continues with the step after the call.",
  ["programs"], "all script steps in all interpreter states",
  "The step tests cover a handful of step kinds in success cases only.",
  ["src/testing/test.rs"], [("instruction pointer updates", "TestEnvironment::step")], ["tests finish"])
p("V05", "Conditionals and loops respect nesting",
  "A branch not taken, a taken branch's alternatives, and leaving a loop skip exactly to the matching else/end of the same block, whatever conditionals and loops are nested inside, and the end of a loop returns to the start of that same loop, which is left by a record navigation step only when the step asks for that. At most one branch of a conditional is executed.",
  ["programs"], "all nestings of conditionals and loops",
  "The tests contain one un-nested conditional inside one loop.",
  ["src/testing/test.rs"], [("jumps over steps", "TestEnvironment::step: If, ElseIf, Else, EndIf, Loop, EndLoop, ExitLoopIf")], None)
p("V06", "Every step the burn language can express is executed by the test runner",
  "Each step name accepted in a burn script maps to one script step, and each step that a burn script can contain has an implementation in the test runner; none is silently skipped as unimplemented.",
  ["programs"], "all step names of the language",
  "The tests use about ten of the accepted names.",
  ["src/fm_script_engine/fm_script_engine_instructions.rs", "src/burn_script/parser.rs", "src/testing/test.rs"],
  [("name table", "Instruction::from_str"), ("dispatcher", "TestEnvironment::step")], None)
p("V07", "Find mode never changes stored records",
  "While a script is in find mode, setting a field or creating a request only adds to the pending find; no stored record is created or changed until the find has been performed and the script is back in browse mode.",
  ["programs", "histories"], "all step sequences in find mode",
  "One test enters find mode and sets one field (and fails at base).",
  ["src/testing/test.rs", "src/testing/database.rs"], [("mode checks", "TestEnvironment::step: SetField, NewRecordRequest")], ["table contents after a test"])
p("D01", "All fields of a table always have the same number of records",
  "At any time every field column of a table holds the same number of values: creating a record adds one value to each column, deleting a record removes the same position from each column, and clearing empties all columns. No other operation changes the length of a column.",
  ["histories"], "all sequences of database operations",
  "The tests create records in one table only and delete none.",
  ["src/testing/database.rs"], [("column updates", "Table::add_blank_record, Table::delete_record, Database::clear_records")], None,
  [("fields[*].records", "column-wise storage of records", "Table")])
p("D02", "Record navigation stays inside the found set",
  "Moving to the first, last, previous, next or n-th record leaves the current position on a record of the found set if there is one, and never fails when the found set is empty. Replacing the found set leaves a position that is valid in the new set.",
  ["inputs", "histories"], "all found-set sizes including 0, all positions, all record numbers",
  "No test navigates an empty found set or past its end by number.",
  ["src/testing/database.rs"], [("navigation", "Database::goto_*"), ("found set replacement", "update_found_set, reset_found_set")], None,
  [("record_ptr, found_set", "current position and visible records of an occurrence", "TableOccurrence")])
p("D03", "A new record is visible and current in every occurrence of its table",
  "Creating a record appends exactly one record to the table of the current occurrence, adds that record to the found set of every occurrence of that table and makes it their current record. Occurrences of other tables are not affected.",
  ["inputs", "histories"], "all occurrence/table graphs and all prior found sets",
  "The tests have one occurrence per table.",
  ["src/testing/database.rs"], [("record creation", "Database::create_record")], None)
p("D04", "Relationships compare with the operator stored in the file",
  "Records are related exactly when the relationship's comparison operator holds between the value on the near side and the value on the far side, compared as the stored texts. Following the relationship from its other end applies the mirrored operator with the two fields exchanged.",
  ["inputs"], "all comparison numbers, both directions, all field values",
  "No test uses a relationship other than equality.",
  ["src/decompile/decompiler.rs", "src/testing/database.rs", "doc/fmp_format.md"],
  [("number to operator", "decompile_fmp12_file"), ("operator to comparison", "Database::get_related_record_field"), ("both directions registered", "generate_from_fmp12")], None)
p("D05", "Qualified field references use the named occurrence's current record",
  "Reading or writing a field through a qualified name uses the table and the current record of the occurrence named in it, whatever the current layout is, and touches exactly the named field of exactly that record.",
  ["programs", "histories"], "all qualified names and all current layouts",
  "All tests reference fields of the current layout's occurrence only.",
  ["src/testing/test.rs", "src/testing/database.rs"],
  [("read", "get_operand_val"), ("write", "step: SetField, get_current_record_by_table_field_mut")], None)
p("D06", "A find shows exactly the matching records of the current table",
  "Performing a find makes the found set of the current occurrence consist of exactly the records of its table for which some pending criterion equals the stored value, in stored order and without duplicates, and clears the pending criteria; a find that matches nothing shows all records again; other occurrences keep their found sets. Showing all records makes it consist of all records of its table in stored order.",
  ["inputs", "histories"], "all criteria lists and all table contents",
  "One test performs finds on one table with one criterion (and fails at base).",
  ["src/testing/test.rs", "src/testing/database.rs"],
  [("find", "step: PerformFind"), ("found set replacement", "update_found_set, reset_found_set")], None)
p("E01", "Calculation operators and functions compute what they denote",
  "In every calculation +, -, * and / denote the arithmetic operations on the two operand values in the written order, the six comparison operators the corresponding comparisons (numeric when both operands are numbers), and & the concatenation of the two texts, without their quotation marks, in order. The built-in functions Abs, Acos, Asin, Char and Min apply the operation they are named after to exactly the arguments written between their parentheses.",
  ["inputs", "programs"], "all operators and functions with all operand values",
  "The tests evaluate a few literal expressions; no ordering comparison and one function is exercised.",
  ["src/testing/test.rs", "src/testing/calc_eval.rs"], [("evaluation", "TestEnvironment::evaluate"), ("tokens", "eval_calculation")], None)
p("E02", "Evaluating a calculation changes nothing",
  "Evaluating a calculation, for an assertion, a condition or a value, never changes variables, records, found sets, the current record, the mode or any other state of the test environment.",
  ["programs"], "all calculations in all states",
  "Absence of a side effect for all expressions cannot be sampled.",
  ["src/testing/test.rs"], [("shared borrow of the environment", "eval_calculation, evaluate, get_operand_val")], None)
p("E03", "Operator precedence and left associativity",
  "In a calculation * and / bind tighter than + and -, which bind tighter than &, which binds tighter than the comparisons; operators of equal rank associate to the left and parentheses override both.",
  ["programs"], "all calculation texts",
  "Six sample expressions are evaluated.",
  ["src/testing/calc_eval.rs"], [("precedence climbing", "Parser::parse_comparison, parse_concatenation, parse_expr, parse_term, parse_factor")], None)
p("E04", "The content of string literals is never interpreted as syntax",
  "Inside a quoted string of a calculation no character other than the closing quote has a syntactic meaning: every string literal is one operand with exactly the text between its quotes, whatever commas, parentheses, operators or spaces it contains. (The strings of script arguments and of script blocks in a source are B04 and B06.)",
  ["programs"], "all string literal contents of calculations",
  "The lexer test contains two literals with letters and spaces.",
  ["src/testing/test.rs"],
  [("string scanning", "eval_calculation")], None)
p("B01", "Every component declared in a burn source file reaches the compiled file",
  "Each table, relationship, value list, table occurrence, script and test declared in a burn source file becomes an entry of its own of the compiled file, under the name and with the references (tables of a relationship, table of an occurrence, script and assertions of a test) it was declared with: none overwrites another and none is dropped. What compiling a source, or decoding a file, yields reaches the inspection dump and the assembler with every kind of component.",
  ["programs"], "all numbers and orders of declarations of each kind",
  "No test compiles any component other than one test block.",
  ["src/compile/parser.rs", "src/main.rs"], [("insertion keys", "Parser::parse_program"), ("merge", "main")], ["JSON dump, assembled file"])
p("B04", "A script block is split into words and arguments exactly at its separators",
  "The arguments of a step in a burn script are the pieces of text between its parentheses, separated at exactly those commas that stand neither inside a string literal nor inside inner parentheses; the list ends at the first closing parenthesis that does neither. Every argument keeps all its characters in order, except blanks before its first character, and becomes one argument token. Outside argument lists every word that ends at whitespace, a parenthesis, a brace, a comma, a semicolon or an operator becomes one token with its text unchanged (define, let, loop, if, elif and else become the keyword), every brace, comma, semicolon and operator (+ - * / & = == != < <= > >=) becomes its own token, and nothing is dropped or reordered.",
  ["inputs"], "all texts of script blocks: all characters at any position, any nesting of parentheses, any strings",
  "The tests lex a handful of blocks; where a separator counts depends on everything before it.",
  ["src/burn_script/lexer.rs", "src/burn_script/compiler.rs"],
  [("loop over the characters and loop over an argument list", "Lexer::get_tokens"), ("from block to parser", "BurnScriptCompiler::compile_burn_script")],
  ["steps and arguments of compiled scripts and tests"])
p("B06", "A burn source is split into its words, marks and script blocks exactly",
  "In a burn source every word that ends at whitespace, a mark or a quote becomes one token with its text unchanged (table, relationship, value_list, table_occurence, script, test and end become the keyword), every bracket, brace, parenthesis, colon, semicolon, comma, = and == becomes its own token, and nothing is dropped or reordered. A quoted string, and the text of a calculation up to its closing brace, becomes one token with that text without leading whitespace; words, marks and brackets inside it have no meaning, and what follows it is read as if it stood alone. A script block consists of exactly the text from behind its opening bracket, without leading whitespace, up to the first closing bracket that is not inside a string literal; brackets inside strings belong to the text.",
  ["inputs"], "all source texts: all characters at any position",
  "The tests compile a handful of sources; where a block ends depends on everything before it.",
  ["src/compile/lexer.rs", "src/compile/compiler.rs"],
  [("loop over the characters and loop over a script block", "tokenize"), ("from source to parser", "compile_burn")],
  ["components of compiled sources"])
p("B07", "A burn source with a malformed declaration is rejected",
  "A burn source is compiled only if it is a sequence of complete declarations: a table, value list, table occurrence or test has a name, a relationship or script begins with a colon, a script block stands in brackets, every declaration but a script block is closed by end, its own keyword and a semicolon before the source ends, the table of an occurrence is given by colon and name, and a test has exactly one script. Anything else, including a source that breaks off inside a declaration, stops the program with an error; no file is produced from it.",
  ["inputs"], "all sequences of tokens of a burn source",
  "The tests compile only well-formed sources; where a declaration may break off is unbounded.",
  ["src/compile/parser.rs", "src/compile/compiler.rs"], [("loop over the declarations and loops over their bodies", "Parser::parse_program"), ("error ends compilation", "compile_burn")], ["compilation of malformed sources fails"])
p("B05", "Compiling a burn source always comes to an end",
  "Whatever text is given as a burn source, including sources that end in the middle of a declaration, a string or a block, compiling it and assembling the result comes to an end: with a file, or with an error message. No text makes the lexers, the parsers or the assembler loop forever.",
  ["inputs"], "all source texts, all sequences of tokens",
  "Termination on all texts; the tests compile a handful of complete sources.",
  ["src/compile/lexer.rs", "src/compile/parser.rs", "src/burn_script/lexer.rs", "src/burn_script/parser.rs", "src/compile/assembler.rs"],
  [("tokenising loops", "tokenize, Lexer::get_tokens"), ("parsing loops", "parse_program, Parser::parse"), ("assembly loops", "Assembler::assemble_fmp12")],
  ["compilation finishes"])
p("B02", "Blocks of a burn script are closed by the matching end step",
  "Every conditional opened in a burn script produces exactly one end-of-conditional step and every loop exactly one end-of-loop step, at the closing brace that matches it, in properly nested order. A script with an unclosed block is rejected instead of being compiled.",
  ["programs"], "all nestings of blocks",
  "One test with depth-two nesting.",
  ["src/burn_script/parser.rs"], [("block stack", "Parser::parse")], None)
p("B03", "A burn script compiles to the steps it is written with, in order and with their own arguments",
  "Every definition in a block of burn scripts yields exactly one script, with its own name and its own parameters in the order written. In a script, every step statement (a known step name, its arguments, a semicolon) compiles to exactly one step, at the place where it is written: the step its name stands for, with exactly the arguments of that statement in the order written, empty ones included. The conditions of if and elif belong to their own step. Names that are no steps compile to nothing, and nothing else yields a step.",
  ["programs"], "all scripts: any number of definitions, parameters, steps, names and arguments",
  "The tests compile one script; which step a statement yields is independent of everything else in the script only if no path of the parser carries state across.",
  ["src/burn_script/parser.rs", "src/fm_script_engine/fm_script_engine_instructions.rs", "README.md", "doc/burn_spec.md"],
  [("parser of script blocks", "Parser::parse"), ("step names", "Instruction::from_str")],
  ["scripts of a compiled file (JSON dump)"])
p("S01", "The program contains no operation that can corrupt memory",
  "No code of this repository performs an operation whose memory safety the compiler does not check, so no input file or script can cause undefined behaviour.",
  ["inputs"], "all inputs",
  "Undefined behaviour does not reliably fail a test.",
  ["src"], [("safe language subset", "whole crate")], None)
p("S02", "Output is a deterministic function of the input",
  "Compiling, decompiling or testing the same input always writes byte-identical output files and runs and reports tests in the same order: nothing written or executed depends on hash ordering, addresses, randomness, the clock, the environment or threads. A calculation that asks for the current time is answered with it.",
  ["inputs", "schedules"], "all inputs; all hash seeds",
  "A test run observes one hash seed.",
  ["src/file.rs", "src/main.rs", "src/compile/assembler.rs", "src/decompile/decompiler.rs", "src/testing"], [("ordered containers", "FmpFile")], ["output files"])
p("S03", "Input files are never modified",
  "The program opens the files named on its command line for reading only, and writes nothing except its inspection dumps, the header log and the assembled database named after the input; it deletes or renames no file, runs no other program and uses no network.",
  ["configurations", "inputs"], "all command lines and inputs",
  "Tests do not run the command line program.",
  ["src/main.rs", "src/decompile/decompiler.rs", "src/compile/assembler.rs"], [("file operations", "main, decompile_fmp12_file, emit_assembly")], None)
p("S04", "No input or output error is silently ignored",
  "Whenever opening, reading, writing or serialising fails, the program stops with an error instead of continuing as if the operation had succeeded.",
  ["fault_sequences"], "every I/O operation failing",
  "No test injects I/O faults.",
  ["src"], [("error checks", "main, decompiler, assembler")], None)
p("S05", "Tests run exactly when they are not disabled",
  "When compiling or decompiling, the tests of the file are run exactly if testing was not switched off on the command line and there is at least one test, and with a cleaned-up environment; whether they run does not affect which output is written.",
  ["configurations"], "all command line flag combinations",
  "Tests do not run the command line program.",
  ["src/main.rs", "src/cli.rs"], [("flag checks", "main")], None)
p("S06", "Each operation works on exactly the files named for it",
  "Every file named on the command line is worked on, in its turn and by the operation it is named for. The whole content of a file named for compilation (or for tests) is what is compiled; the database assembled from it is written whole, under the source's name with .fmp12 in place of .burn, which is also the name in the file. A file named for decompilation is the one decoded; the header log is written exactly when it is asked for, holds all bytes of that file, and asking for it does not change what is decoded.",
  ["inputs"], "all command lines: any number of files of each operation, all switches, all file contents",
  "No test runs the program from its command line.",
  ["src/main.rs", "src/decompile/decompiler.rs", "src/compile/assembler.rs", "src/cli.rs"], [("loops over the named files", "main"), ("header log", "decompile_fmp12_file_with_header"), ("writing", "Assembler::emit_assembly")],
  ["header.log", "<name>.fmp12", "inspect_output"])
p("S07", "The inspection dump shows every attribute of every component",
  "Whatever a compiled or decoded file holds appears in the inspection dump: every attribute of the file and of each table, field, relationship, layout, value list, script, script step, table occurrence, data source and test is written, whatever its value, under a name that no other attribute of the same component has, and every kind of script step and of relationship comparison is written under a name of its own.",
  ["inputs", "programs"], "all values of all attributes, all kinds of steps and comparisons",
  "No test looks at a dump.",
  ["src/component.rs", "src/file.rs", "src/fm_script_engine/fm_script_engine_instructions.rs"], [("serialisers", "impl Serialize")],
  ["inspect_output/test_compile", "inspect_output/test_decompile"])
p("S08", "The options of the command line mean what they say",
  "A file is named for compilation with -c, for decompilation with -d and as a source of tests with -t. Each of them may be repeated, and every name given reaches the program unchanged and in order. --print-header and --no-testing are off unless given. Exactly one of compiling and decompiling is asked for: a command line that names neither, or both, is rejected before anything is done; no other option is needed or excludes another.",
  ["inputs"], "all command lines: all combinations, repetitions and orders of options, all file names",
  "No test parses a command line.",
  ["src/cli.rs", "src/main.rs"], [("options and groups", "CLI, MainOperations")], ["which files an invocation works on"])
p("N02", "No malformed input file makes the program crash",
  "For every file content, decompiling ends with a decoded file or an error message, never with a crash.",
  ["inputs"], "all file contents", "One well-formed sample.", ["src/chunk.rs", "src/decompile/decompiler.rs", "src/component.rs"], [("bounds", "slicing throughout")])
p("N03", "Compiling and decompiling a schema yields the same schema",
  "Decompiling the database assembled from a burn source yields the components declared in that source.",
  ["programs"], "all burn sources", "No such test.", ["src/compile", "src/decompile"], [("assembler/decompiler pair", "assemble_fmp12, decompile_fmp12_file")])
