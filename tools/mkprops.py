#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook="Private items of the binary crate are reached through the cfg(burn_verif) entry point in src/main.rs."):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in (state or [])],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":observe,"hook_needed":hook}})
CE="src/testing/calc_eval.rs"; VT="src/testing/test.rs"; DB="src/testing/database.rs"; RM="src/testing/relation_mgr.rs"
BL="src/burn_script/lexer.rs"; BP="src/burn_script/parser.rs"; CL="src/compile/lexer.rs"; CP="src/compile/parser.rs"
DC="src/decompile/decompiler.rs"; CH="src/chunk.rs"; EU="src/encoding_util.rs"; DBC="src/dbcharconv.rs"; AS="src/compile/assembler.rs"
p("C01","Arithmetic in calculations follows the usual precedence and grouping",
 "A calculation built from numbers, variables, fields, + - * / and parentheses evaluates to the value given by ordinary arithmetic: * and / bind tighter than + and -, operators of equal rank group from the left, and parentheses override both, to any nesting depth. The result does not depend on redundant parentheses or on whether an operand is a literal, a variable or a field holding the same number. It is computed in double precision.",
 ["inputs","programs"],"every arithmetic expression (tree shape, operator assignment, operand kind, parenthesisation) up to the stated number of operands",
 "prec_test and calc_test evaluate about a dozen fixed expressions of at most five operands; shapes, operator combinations and nesting are unbounded.",
 [CE,VT],[("recursive-descent calculation parser",CE),("calculation lexer and evaluator",VT)],["show_custom_dialog output","assert verdict"])
p("C02","Comparisons compare numbers by value and text by content",
 "==, !=, <, <=, > and >= between two numbers follow numeric order (10 > 9, 1.50 == 1.5), and between two texts follow the texts' contents; they bind looser than arithmetic and &. The outcome is a truth value that behaves the same whether it is used at once in if, exit_loop_if or assert, stored in a variable first, or compared with another truth value.",
 ["inputs","programs"],"every pair of operands from a boundary-value set of numbers and texts, every operator, operand kind (literal, variable, field, sub-expression) and use site",
 "existing tests use == on small integers only, where textual and numeric order agree.",
 [CE,VT],[("comparison parsing",CE),("comparison evaluation and operand resolution",VT)],["show_custom_dialog output","branches taken","assert verdict"])
p("C03","Text values survive unchanged and & joins them exactly",
 "A text literal evaluates to exactly the characters between its quotes, whatever they are (empty, blanks, digits, punctuation, operators, letters of any script), and a & b is exactly the text of a followed by the text of b, numbers being written as they display. Storing a text in a variable or field and reading it back changes nothing.",
 ["inputs"],"every text up to the stated length over an alphabet with one character of each class the lexers treat specially, every split of it into concatenated parts, and every route (literal, variable, field)",
 "string tests use three fixed words made of letters and blanks.",
 [VT,BL,CL],[("string token recognition",VT),("concatenation",VT)],["show_custom_dialog output"])
p("C04","Built-in functions take all their arguments and nest anywhere",
 "Abs(x) is the absolute value, Min(a, ...) is the smallest of all its arguments (numerically when they are numbers), Char(n) is the text with that character, Acos(x) and Asin(x) are the arc cosine and arc sine, and Get(AccountName) is the account name. A call can stand wherever a value can: as an operand on either side of any operator, inside parentheses, and as an argument of another call, with arbitrary expressions as arguments.",
 ["inputs","programs"],"every expression tree over calls, operators, parentheses and operands up to the stated size; every argument list up to the stated length in every order",
 "calc_test has one call, with its smallest argument in first position.",
 [CE,VT],[("argument list parsing",CE),("call evaluation",VT)],["show_custom_dialog output"])
p("C05","White space between tokens never changes what a program means",
 "Inserting or removing blanks, tabs and newlines between the tokens of a burn file, of a script or of a calculation (where two words stay separated) never changes what is compiled or how it runs. In particular step arguments mean the same with or without surrounding white space.",
 ["programs","inputs"],"every gap between tokens of the template programs, every filler from the white-space set, singly and in pairs of gaps",
 "all test programs use one layout.",
 [BL,CL,VT],[("argument splitting",BL),("top-level tokenizer",CL),("calculation lexer",VT)],["compiled steps","execution trace"])
p("C06","A script compiles to its steps, in order, with its blocks",
 "Every script in a script block becomes one script with its name and argument names; its steps appear once each, in source order, with the step kind and argument texts written in the source. Every if and loop block, however nested and however many branches, opens and closes exactly where the source opens and closes it.",
 ["programs"],"every script up to the stated number of nested blocks and steps, and blocks of several scripts",
 "parse_test_basic compiles one script.",
 [BL,BP,"src/fm_script_engine/fm_script_engine_instructions.rs"],[("script parser",BP),("step-name lookup","src/fm_script_engine/fm_script_engine_instructions.rs")],["scripts of the compiled file"])
p("C07","Punctuation inside text literals never affects how source is parsed",
 "Brackets, braces, parentheses, commas, semicolons, operators, colons and keywords that occur inside a text literal are part of the text: they never end a step argument, a step, a block or a script section, and the steps around the literal compile as if it held a plain word.",
 ["inputs","programs"],"every text up to the stated length over the punctuation alphabet and keyword fragments, in every argument position, within scripts and tests, alone and in pairs",
 "no test has punctuation inside a literal.",
 [BL,CL,BP],[("argument lexer",BL),("script-section scanner",CL)],["compiled steps","execution trace"])
p("C08","Control flow executes exactly the steps the block structure selects",
 "In an if / elif / else chain exactly the first branch whose condition is true runs, or the else branch if none is, or nothing; a loop body repeats until an exit_loop_if in it is true, which leaves only the innermost enclosing loop. This holds for every nesting of conditionals and loops, and the steps before, between and after blocks run exactly once per pass.",
 ["programs"],"every program over marker steps, if/elif/else and loops with exits in every position, up to the stated size and depth, with conditions that change between iterations",
 "basic_loop_test has a single un-nested chain in one loop, and fails for other reasons.",
 [VT,BP],[("step interpreter",VT)],["sequence of dialogs shown"],[("instruction pointer","next step of each active script",VT)])
p("C09","Calling a script runs it once with its own variables and then resumes",
 "perform_script runs the named script from its first step to its end and then continues with the step after the call, inside whatever loops and branches the caller was in. Each call starts with no variables of its own, never sees or changes the caller's, and leaves none behind; calls nest. Calling a script that does not exist skips that step, and exit_script ends only the script it is in.",
 ["programs","histories"],"every call graph over three scripts up to the stated size, with calls in every block position, repeated calls, same-named variables, early exits and missing callees",
 "no test calls a script.",
 [VT],[("call frames",VT)],["sequence of dialogs shown"],[("variables","one scope per active script",VT),("instruction pointers","one per active script",VT)])
p("C10","A test's verdict is exactly the conjunction of its executed assertions",
 "A test is reported as a success if and only if every assertion it executed was true, and as a failure otherwise; execution of that test stops at the first false assertion, wherever it is (branch, loop pass, called script). Assertions that are not reached have no effect, and every test is reported exactly once, by its name, in file order.",
 ["programs","histories"],"every program over assertions (true, false, through variables and fields), markers, branches, loops and calls up to the stated size, and lists of several such tests",
 "the stable tests only ever see passing assertions.",
 [VT],[("assert step",VT),("test loop",VT)],["outcome lines","sequence of dialogs shown"],[("test state","pass/fail of the running test",VT)])
p("C11","Tests run in isolation from each other",
 "When several tests are run in one session, each behaves exactly as if it were run alone on a freshly opened file: variables, records, found sets, the current record and layout, find mode and pending criteria, and unfinished scripts of earlier tests (passing or failing) are not visible to it. The outcome of a test therefore does not depend on the order or number of the tests before it.",
 ["histories"],"every sequence up to the stated length over a pool of tests chosen to leave each kind of state behind and to probe each kind of state",
 "every existing test runs a single burn test per session.",
 [VT,DB],[("test loop and clean-up",VT),("record clean-up",DB)],["sequence of dialogs shown per test","outcome lines"])
p("C12","Found sets stay valid and contain what the operations say",
 "After any sequence of record creation, finds, show-all, navigation and layout changes, each table occurrence's found set lists existing records of its table without repetition, and its current record is one of them whenever the set is not empty. Creating a record adds it to the found set of every occurrence of that table and makes it current there; show-all restores all records; finds, show-all and navigation in one occurrence never change another's found set, current record or data.",
 ["histories"],"every operation sequence up to the stated depth on a schema with two tables and three occurrences, explored over all reachable model states",
 "one test exercises one fixed sequence, on one occurrence.",
 [DB,VT],[("record creation",DB),("found-set update",DB),("find, show-all and layout steps",VT)],["records listed through each layout"],[("found set","records visible in an occurrence",DB),("record pointer","position in the found set",DB)])
p("C13","Fields hold the last value written to them and nothing else changes",
 "Setting a field changes that field of the current record of the named table occurrence and nothing else, and reading it through the same occurrence returns the value set, until it is set again. A new record starts with every field empty; no operation alters the fields of any other record, field or table.",
 ["histories"],"every sequence of create, set, navigate, find and layout-change operations up to the stated depth on two tables with two fields each and two occurrences of one table",
 "one test checks one table's column after one run.",
 [DB,VT],[("field write",VT),("field access by occurrence",DB)],["field values shown through each occurrence"])
p("C14","Record navigation moves as asked and stays inside the found set",
 "first and last go to the ends of the found set, next and previous move one record and stay put at the ends, and a record number goes to that position (counted from zero) or to the last record if there are fewer. A loop that steps with go_to_record next (or previous) and the exit option visits every record of the found set exactly once, in order, and then leaves that loop only; navigation on an empty found set does nothing.",
 ["histories","inputs"],"every navigation sequence up to the stated length from every found set of up to the stated size, and every nesting of visiting loops up to depth two",
 "only two un-nested next-loops over one found set are tested.",
 [DB,VT],[("goto operations",DB),("go to record step",VT)],["record shown after each move"])
p("C15","A find returns exactly the matching records",
 "Performing a find in the current occurrence leaves exactly the records of its whole table whose field equals the requested value (any one of the values if several criteria are given), in table order, positioned on the first; if nothing matches, all records are shown. Criteria apply to one find only, and finding never changes data or other occurrences.",
 ["histories","inputs"],"every assignment of up to the stated number of records over a value alphabet, every criterion list up to two, and every sequence of up to two finds",
 "one test makes two finds with one criterion each.",
 [VT,DB],[("perform find step",VT),("found-set update",DB)],["records listed after the find"])
p("C16","The relationship path found is a real and shortest one",
 "For any set of relationships, the path reported between two table occurrences starts at the first, ends at the second, uses only declared relationships in either direction, and has the smallest possible number of hops; no path is reported exactly when none exists. Repeating a relationship or declaring it in the other direction changes nothing, and an occurrence reaches itself without leaving.",
 ["inputs"],"every undirected graph up to the stated number of occurrences, every ordered pair, and every permutation of insertion order for the smaller ones",
 "graph_test asks three questions about one graph.",
 [RM],[("breadth-first search",RM)],["path query result"])
p("C17","Related values follow the declared relationships",
 "Reading a field of another occurrence from the current record yields the value from the first record that is related to it through the declared fields and comparison (numbers by value), hop by hop along the path; reading it the other way round uses the mirrored comparison. If no record is related, or no path exists, an error is reported and nothing else happens.",
 ["inputs","configurations"],"every comparison, direction, chain of up to three occurrences, and assignment of key values (numbers and texts) to up to the stated number of records",
 "the only related-record assertion is at the end of a failing test, with equal keys.",
 [DB,RM],[("related record search",DB)],["related field query result"])
p("C18","Every top-level declaration is compiled once, under its own name",
 "Compiling a burn file yields exactly one table, table occurrence, relationship, value list or test for each such declaration, and one script for each script defined in a script block, with the declared name (and the declared base table or related tables), in declaration order. This holds for any number, mixture and order of declarations and any contents allowed in their bodies.",
 ["programs"],"every sequence of declarations up to the stated length over all kinds, with several body forms and name shapes",
 "no test compiles a file with more than one declaration of a kind.",
 [CP,CL],[("top-level parser",CP)],["compiled file contents"])
p("C19","Compiling, decompiling, assembling and testing are deterministic",
 "The same input always gives the same output: the JSON description of a compiled or decompiled file, the assembled file's bytes and the results of its tests are identical from run to run, with components listed in the order of their ids.",
 ["inputs","configurations"],"every file of the stated mixture of components up to the stated size, each produced repeatedly under fresh hash seeds and compared with the unique id-ordered result",
 "a unit test runs once and compares no serialised output.",
 ["src/file.rs",AS,DC,DB],[("component maps","src/file.rs"),("assembly order",AS)],["JSON text","assembled bytes","execution trace"])
p("C20","Integer encodings decode back to the number encoded",
 "Encoding any 32-bit number as a fixed-width integer and decoding it returns the number, and one- and two-byte big-endian forms decode to their value. Encoding any directory number the format's one- or two-byte paths can carry and decoding it returns the number, and distinct numbers get distinct encodings.",
 ["inputs"],"every 32-bit value (thorough) or every value of the boundary classes (quick); every encodable path number; every one-, two- and four-byte input of the stated classes",
 "int_testing and path_int_testing look at about ten values.",
 [EU],[("integer and path integer codecs",EU)],["codec results"])
p("C21","Text encodings decode back to the text encoded",
 "Encoding any text with the FileMaker byte encoding and decoding it returns the same text, and undecodable bytes are reported instead of crashing. Encoding any text over the supported characters with the double-byte encoding gives two bytes per character, in order, that decode to the same text; distinct supported characters have distinct codes and letters are case-folded.",
 ["inputs"],"every Unicode scalar value and every text up to the stated length over a class alphabet; every text up to the stated length over the supported double-byte characters",
 "string_testing has five strings; the double-byte test aborts in the baseline.",
 [EU,DBC],[("byte xor codec",EU),("double-byte table",DBC)],["codec results"])
p("C22","Chunk decoding is exact for every opcode and every chunk sequence",
 "Every chunk of the documented opcodes decodes to its documented kind, key, data and segment, and consumes exactly its own bytes, for every length its fields can express. Over a sequence of chunks the reported directory path is exactly the pushes not yet popped, and decoding continues precisely at the next chunk.",
 ["inputs"],"every opcode with every boundary value of each of its fields, and every sequence of chunks up to the stated length over the whole opcode catalogue",
 "no test decodes a chunk.",
 [CH,EU],[("chunk decoder",CH)],["decoded chunk","remaining offset","path"])
p("C23","Decompiling a file recovers the schema stored in it",
 "Decompiling an FMP12 file yields every table with its fields, every layout with its table occurrence, every table occurrence with its base table, and every relationship with its occurrences, fields and comparison, each under the id and name stored in the file. The result does not depend on how the chunks are divided among sectors or where in the file the chained sectors lie.",
 ["inputs","configurations"],"every schema up to the stated size with boundary ids and names, encoded by an independent writer, under every split of the chunk stream into sectors and every placement of the sectors",
 "the only decompiling test fails in the baseline and reads one file.",
 [DC,CH,"src/decompile/sector.rs",EU],[("directory dispatch",DC),("sector chain",DC)],["decompiled file contents"])
p("C24","Decompiling damaged input always terminates",
 "For any damaged FMP12 file (truncated anywhere, any byte altered, any sector link redirected), decompiling ends in bounded time and memory, with a result or an error; it never loops forever.",
 ["fault_sequences","inputs"],"every truncation point, every single-byte alteration over a value set, and every sector-link rewiring of small synthetic files, plus selected double faults",
 "no test reads a damaged file.",
 [DC,CH,"src/decompile/sector.rs"],[("sector chain walk",DC),("chunk advance",CH)],["termination of the decompile call"])
p("C25","Assembled files are well formed and list the schema",
 "Assembling any compiled schema (names over the supported double-byte characters, up to 100 of them) gives a file of whole 4096-byte sectors whose chain and chunks decode without error, in which every directory opened is closed, and whose table and table-occurrence catalogues list every table and occurrence with its id and name, in id order, and nothing else.",
 ["inputs"],"every schema of up to the stated number of tables, occurrences, scripts and layouts with boundary name lengths and ids; every payload length of the short key-value forms",
 "kv_instruction_test checks the opcode choice for four lengths.",
 [AS,DBC,CH],[("assembler",AS)],["assembled bytes, decoded by an independent reader"])
p("C26","The command line runs what it is given and reports it",
 "Compiling a burn file writes its JSON description and an assembled file named after it, decompiling writes the JSON description, and in both modes every test found in the inputs or given with -t is run and reported by name, unless testing is switched off; a test's verdict from the command line is the one its assertions determine. Several inputs are each processed, and the outputs do not depend on what was in the working directory before. A command line that names a file that cannot be read, or is not one of the documented ones, ends with a failing status and writes nothing.",
 ["configurations","inputs"],"every combination of mode, number of inputs, test files (passing, failing, several), flags and initial working-directory contents",
 "no test runs the command line.",
 ["src/main.rs","src/cli.rs"],[("main","src/main.rs")],["files written","outcome lines","exit status"],hook=None)
p("C27","Decompiled scripts have the stored steps, in order, with their calculations",
 "Decompiling a file yields every stored script under its id and name, with exactly its stored steps in order, each with the step kind of its stored code, whether the step list is stored whole or in segments (in any order of arrival). Calculations attached to steps are rendered with every operator, function, number, text and variable they contain, in order.",
 ["inputs"],"every step code; every step list up to the stated length, split into segments at every point and in every order; every calculation up to the stated number of tokens over the documented token set",
 "no passing test decompiles a script.",
 [DC,"src/fm_script_engine/fm_script_engine_instructions.rs"],[("script directory decoding",DC),("step code table","src/fm_script_engine/fm_script_engine_instructions.rs"),("calculation bytecode decoding",DC)],["scripts of the decompiled file"])
p("C28","JSON descriptions hold the whole file",
 "The JSON description of a file (what inspect_output holds) lists every component of the file under its id, with every name, account, text, number, step kind, step argument and test it has, exactly, for any text in them; reading the description back gives the same file.",
 ["inputs"],"every text slot with every word of a boundary set, every pair of slots, every Unicode character, every step kind, boundary numbers and ids, every number of components of each kind up to the bound",
 "no test reads a description.",
 ["src/component.rs","src/file.rs","src/fm_script_engine/fm_script_engine_instructions.rs"],[("component structures","src/component.rs"),("file structure","src/file.rs"),("script steps","src/fm_script_engine/fm_script_engine_instructions.rs")],["JSON text, the file read back from it"])
p("C29","Decompiling a file recovers its external data sources",
 "Decompiling an FMP12 file yields every external data source stored in it, each under its stored id with its own stored name, kind, path, file name and user, whatever the order of the ids and names and however the chunks are divided among sectors.",
 ["inputs","configurations"],"every path of the stated parts, every pair of characters, names, ids, orders, counts, and every division of a file with several data sources among up to three sectors",
 "no test looks at data sources.",
 [DC,"src/component.rs",CH],[("data source directory",DC),("file reference decoding","src/component.rs")],["data sources of the decompiled file"])
p("C30","Compiling damaged source always terminates",
 "For any damaged or incomplete burn source (cut off anywhere, characters or tokens removed, inserted, exchanged or repeated), compiling ends in bounded time and memory, with a result or an error; it never loops forever.",
 ["fault_sequences","inputs"],"every truncation, every single-character deletion, insertion and replacement over a character set, every interval left out, every token removed, repeated or exchanged in sources with every construct, and every sequence of a few tokens in seven contexts",
 "no test compiles a damaged source.",
 ["src/compile/lexer.rs","src/compile/parser.rs","src/burn_script/lexer.rs","src/burn_script/parser.rs"],[("lexers","src/compile/lexer.rs"),("script parser","src/burn_script/parser.rs")],["termination of the compile call"])
p("C31","Malformed declarations are rejected",
 "A burn source is rejected as a whole (the tool reports an error, ends with a non-zero status and writes neither description nor file for it) if a table, table occurrence, value list or test lacks its name; if a relationship, a script section or the table of an occurrence lacks its colon, or a script section its brackets; if a declaration lacks its end before the end of the source, the right word after end, or the semicolon that closes it; if a step lacks its closing semicolon, or an if or elif its opening brace; if the script section of a test defines no script or several; or if the source holds words, numbers, texts or punctuation outside of declarations. This is so wherever the fault is and whatever well-formed declarations are around it.",
 ["inputs","fault_sequences"],"every fault of the stated classes in every kind of declaration, under every name of a set, before and after every other kind, every declaration cut off after every character, and each fault in the tool's inputs and test files",
 "no test compiles a malformed source.",
 ["src/compile/parser.rs","src/compile/lexer.rs","src/burn_script/parser.rs","src/compile/compiler.rs"],[("declaration parser","src/compile/parser.rs"),("script parser","src/burn_script/parser.rs")],["result of the compile call","exit status and files of the tool"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
