rows=[
("C01","Arithmetic","every expression tree over + - * / to 7 (8) operands (minimal and full parentheses); to 4 (5) operands with all operand kinds, all subsets of redundant parentheses, and as both sides of conditions in if / elif / exit_loop_if / assert; chains of 3–24 (64) operators; up to 300 nested parentheses","reference evaluation in f64; shown values compared to 1e-11 relative","a unit test fixes one tree; grouping errors show only for particular operator orders and depths"),
("C02","Comparisons","every pair of 15 numbers and of 14 texts × 6 comparisons × 6×6 operand forms × 15 uses (if, elif, exit_loop_if, assert, stored, compared, in a field); precedence of every pair of arithmetic/& sides up to 3 (4) operands; comparisons of comparisons","reference interpreter with typed values","numbers that order differently as texts, and truth values that change on being stored, need particular pairs and routes"),
("C03","Texts","every text to 2 (3) characters over 33 characters with a special meaning to some lexer, every pair of 26 words, every character of Unicode; every split into two and three joined parts, through variables, fields and both; lengths to 5000","the text itself","the lexers treat each class of character differently in each position"),
("C04","Built-in functions","every tree of up to 3 (4) operators, parentheses and calls × 3 operand assignments; every argument list of Min to 4 (6) of 6 values; every call beside and inside of every other under 8 operators; every character code to 0x3000 (all); calls nested to 100","reference evaluation","argument splitting depends on nesting and neighbours"),
("C05","White space","7 sources with every construct; every gap × 7 fillers, every pair of gaps (× fillers), every interval, alternations, gaps of many blanks; compiled files compared, tests run","the file compiled from the ordinary layout","one wrong gap out of hundreds of pairs"),
("C06","Steps and blocks compile in order","every forest of steps, loops and if/elif/else to weight 6 (9) in three layouts; every step kind × every argument list to 3 (4) of 22 texts; sequences of scripts × names × parameter lists × block divisions; 9 kinds of sizes around 28 limits to 65,537","the generated structure","block ends depend on the whole nesting"),
("C07","Punctuation in literals","every text to 3 (4) characters over 39, and 56 words in pairs, every character of Unicode, in every literal position of 20 templates; lengths to 300 and around limits to 65,537; up to 4,097 literals in one argument, one step and one script","the file of the same source with a plain word","any character × any place"),
("C08","Control flow","every program over markers, if/elif/else (true, false, counter conditions), loops with the exit first or last, further exits, to weight 4 (5), counters reset or not; 8 kinds of chains and nestings to 257, every cycle of 3 of 5 kinds of blocks nested to 257, loops to 1,025 passes","reference interpreter (small-step, states hashed)","interpreter jumps are by step kinds and depend on what is skipped over"),
("C09","Script calls","every acyclic call graph of a test and three scripts × 13 bodies each; recursion guarded by a field, direct and mutual; missing scripts in every position; every pair of 17 names that differ slightly; up to 300 scripts and calls; every sequence of 4 (5) of 10 steps with variables","reference interpreter with frames","what a call disturbs depends on the block it is in and on what the callee does"),
("C10","Verdicts","every program over assertions, markers, branches, loops and calls of asserting scripts to weight 3 (5); assertions over 11×11 operands × 6 comparisons; every list of up to 3 of 14 tests, with different and with equal names; up to 300 assertions, passes, tests or nested blocks with one false","reference interpreter","false assertions in a branch in a called script in a loop …"),
("C11","Isolation","every sequence of up to 3 (4) of 16 tests of which each leaves or reads one kind of state; sessions of up to 257 tests","each test alone on a fresh model","a leak needs a particular pair of tests"),
("C12","Found sets","breadth-first closure of the model database (2 tables, 3 occurrences, ≤ 4 (5) records), every operation from every state; every history to 4 (5) operations; found sets of all occurrences listed; records counted after every history to 4 (5) with unset records and finds without criteria","model database","histories"),
("C13","Field values","every history of 4 (5) operations, and 3 (4) from a prepared state, all fields of all records read back; writes that use the value that is there; 16 values pairwise × occurrences; 210 pairs of similar field names × 7 occurrence names; to 120 tables, 126 occurrences in 4 numberings, 257 records","model database","aliasing of records, fields or names needs particular histories"),
("C14","Navigation","every subset of ≤ 4 records as found set × every sequence of 3 (5) of 11 navigation steps; visiting loops × direction × exit option × start × 7 shapes; written go_to_record and go_to_request","model database","ends of found sets, empty ones, nested loops"),
("C15","Finds","every assignment of ≤ 3 (4) records over 6 values × every find of one or two criteria × layouts; pairs of finds; finds after other operations; every sequence of 4 (5) of 12 operations from a prepared state","model database","found sets depend on the whole table and on left-over criteria"),
("C16","Relationship paths","every graph over ≤ 5 (6) occurrences × ordered pairs × 3 orders of declaration; every sequence of ≤ 4 (5) relationships over 4; all orders for graphs over 4; the same graphs stored in files with three numberings, reached through related values; graphs of up to 300, stored ones of up to 126 occurrences","breadth-first search","shortest paths fail only on particular graphs and orders"),
("C17","Related values","7 comparisons × 2 directions of declaration × key lists ≤ 2 (3) over 4 numbers / 4 texts × one or two tables × 6 ways of reading; chains of two relationships; numbers of fields, tables and occurrences; to 257 keys","joins computed directly","mirrored comparisons, numbers by value, order of records"),
("C18","Declarations","every sequence of ≤ 4 (5) of 16 kinds of declarations; every kind × 28 names beside every other, names built from keywords and of every letter; repeated names; up to 300 declarations","the generated structure","any mixture and order"),
("C19","Determinism","every file of 0–4 (6) components per kind, compiled, described, assembled and tested 6 times with fresh hash seeds; decompiled files with every ≤ 3 of 10 ids","equality, ids in ascending order","hash order differs by run"),
("C20","Integers","put_int/get_int on 300 blocks of 65536 and 96 numbers of every other block (all 2³²); every one- and two-byte form; every directory number and encoding","identity, documented values","boundaries of widths"),
("C21","Text encodings","every scalar value; every text to 3 (4) of 27 representative characters; every byte string to 2 (3) bytes; every double-byte text to 3 (4) supported characters","identity; UTF-8 validity","memory growth and terminators depend on length"),
("C22","Chunks","every documented opcode × keys × lengths × contents × offsets × depths; every sequence of 3 (4) of 60 templates from three paths","chunk layout tables","each opcode has its own length rule"),
("C23","Decompiled schemas","all combinations of small component lists × 3 spellings × 4 divisions; all single, paired (triple) sector cuts, directories open or closed, all sector orders with junk gaps; names (also empty, in each combination), ids, fields, comparisons; to 1025 of a kind and sectors; blocks to 4097 (65,537); with every key, chunk and directory that means nothing, at every place","the database given to the writer","sector boundaries can fall anywhere"),
("C24","Damage","two files; every byte × 255 values; adjacent pairs × 14² (40²) values; every truncation; every byte lost or inserted; every assignment of links × counts, × header flags of each subset of the sectors; payloads of every two bytes in 12 directories","ends within 15 s and 1 GB","one byte of thousands makes a loop"),
("C25","Assembled files","burn files of ≤ 3 tables and 3 (4) occurrences; all sets of ≤ 3 of 12 ids; names to 2 (3) characters and 100; 1–400 components","independent chunk reader; the tool's decompiler","lengths, ids of two bytes and sector ends"),
("C26","Command line","the process for every mode × inputs ≤ 2 (3) × -t files ≤ 1 (2) × options × 3 working directories × 4 placements × orders; to 33 inputs and -t files; header.log for files of up to 1025 sectors × paddings; 13 command lines that must fail; tests that use a decompiled database's records, layouts and scripts","the expected outputs","combinations of options and leftovers"),
("C27","Decompiled scripts","every step code alone and in pairs, every sequence of 3 (4) of 14; every division of step lists into ≤ 3 segments × orders × indices; every sequence of 3 (4) of 36 calculation elements, pairs repeated to 255 bytes; to 1025 steps and scripts; sector cuts; with every key, chunk and directory that means nothing, at every place","the scripts given to the writer","segments arrive in any order"),
("C28","JSON descriptions","41 text slots × 34 words, all pairs of slots, every scalar value; every step kind; every number slot at its boundaries; counts","independent reader of the documented keys; reading back","escaping and key types in each slot"),
("C29","External data sources","every path of ≤ 4 (5) of 13 parts and of every pair of printable characters, lengths; names; every ordered choice of ≤ 3 (4) of 10 ids × orders of names; ids to 1100 (31000); counts to 300; all single and paired (triple) sector cuts; every chunk without a meaning at every place","the sources given to the writer, whose layout was checked against tests/input/blank.fmp12","names and ids are stored in different orders; characters are coded differently"),
("C30","Damaged source","8 sources: every truncation, every character removed, replaced or preceded by 39 characters, every interval left out, every token removed, repeated, exchanged; every sequence of ≤ 3 (4) of 40 tokens in 7 contexts","ends within 15 s and 1 GB","one missing character of hundreds makes a parser wait forever"),
("C31","Malformed declarations","16 kinds × 28 names cut off after every character; 653 faulty declarations × 28 names × every kind before and after; each as input, second input and test file of the tool","an error, a non-zero status, nothing written","a fault slips through only with particular neighbours"),
]
import json
q={};t={}
for l in open('/verif/tools/times.txt'):
    p,k,s=l.split(); (q if k=='quick' else t)[p]=s
out=[]
for i,ti,sp,orc,why in rows:
    out.append("**%s %s** (%s s / %s s).  *Enumerated:* %s.  *Oracle:* %s.  *Beyond tests:* %s."%(i,ti,q.get(i,'?'),t.get(i,'?'),sp,orc,why))
    out.append("")
print("\n".join(out))
