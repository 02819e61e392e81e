HOOKS=["c571417"]
NA={}
MC="model checking: exhaustive bounded enumeration of programs, each replayed on the real interpreter against a reference interpreter"
c("C01",MC,"model_checking","Every arithmetic expression tree up to 7 (thorough 8) operands.")
c("C02",MC,"model_checking","Every operand pair of a boundary set, operator, operand form and use site.")
c("C03",MC,"model_checking","Every text up to 2 (thorough 3) characters over 33 character classes and every pair of 26 words, over every route and split.")
c("C04",MC,"model_checking","Every tree of calls and operators up to 3 (thorough 4) operations and every argument list up to 4 (thorough 6).")
SRC="model checking: exhaustive bounded enumeration of source texts, each compiled by the real compiler and compared with the structure it was generated from"
c("C05",SRC,"model_checking","Seven sources; every filler in every gap, every pair of gaps, every interval, alternations; the tests in them are also run.")
c("C06",SRC,"model_checking","Every block structure up to weight 6 (thorough 9), every step kind with every argument list up to 3 (thorough 4) of 22 texts, every sequence of up to 3 scripts over 24 names.")
c("C07",SRC,"model_checking","Every text up to 3 (thorough 4) characters over 39 and every pair of 56 words, in every literal position of 20 templates.")
c("C18",SRC,"model_checking","Every sequence of up to 4 (thorough 5) declarations over 16 kinds, every pair of names and kinds, up to 300 declarations.")
COD="model checking: exhaustive enumeration of inputs within bounds, each run through the real codec and compared with an independent specification of the encoding"
FIL="model checking: exhaustive bounded enumeration of databases and of the ways to store them, each written as a file by an independent writer, decompiled by the real code and compared with the database it was written from"
ASM="model checking: exhaustive bounded enumeration of schemas, each assembled by the real code and read back with an independent chunk reader"
c("C19",ASM,"model_checking","Every schema of the stated shapes compiled and assembled twice in one process and in separate orders; bytes compared.")
c("C20",COD,"model_checking","All 2^32 integers (thorough), all path numbers, all short inputs.")
c("C21",COD,"model_checking","Every Unicode scalar value, every byte pair, every text up to the stated length.")
c("C22",COD,"model_checking","Every opcode with every value of its length fields; every sequence of chunks up to the stated length.")
c("C23",FIL,"model_checking","Every schema of the stated shapes in every encoding form, chunk order, sector split and chain order.")
c("C24","model checking: exhaustive fault enumeration (every truncation, every byte of a file replaced by every value of a class, every pair of header-field faults) on the real decompiler","fault_enumeration","Every damage of the stated classes to the stated files; the decompiler has to return (any result) within the time limit, without crashing.")
c("C25",ASM,"model_checking","Every schema of the stated shapes, names of every length, ids across byte boundaries, sector boundaries.")
c("C27",FIL,"model_checking","Every step code, every step list up to the bound, every split into segments and arrival order, every calculation up to the stated number of tokens.")
c("C26","model checking: exhaustive enumeration of command lines and working-directory states, each run as a process of the real tool and compared with the expected files, outcome lines and status","model_checking","Every combination of mode, input sequence, -t files, flags, working-directory contents and placement.")
c("C28","model checking: exhaustive bounded enumeration of files, each described by the real serialisation, read by an independent reader of the documented keys and read back by the tool","model_checking","Every text slot, word, pair of slots, character, step kind, boundary number and component count of the stated sets.")
c("C08",MC,"model_checking","Every program over steps, branches, loops and exits up to weight 4 (thorough 5). Defects of src/testing are known findings: a failing case is attributed to them only if it passes with their repairs and the tool acts exactly as the recorded source does.")
c("C09",MC,"model_checking","Every call graph of a test and three scripts out of 13 bodies, recursion, missing scripts, chains. Defects of src/testing are known findings (as for C08).")
c("C10",MC,"model_checking","Every program over assertions, branches, loops and calls up to weight 3 (thorough 5), every list of up to 3 of 14 tests. Defects of src/testing are known findings (as for C08).")
c("C11",MC,"model_checking","Every sequence of up to 3 (thorough 4) of 16 tests that leave or read state. Defects of src/testing are known findings (as for C08).")
DBM="model checking: explicit-state exploration of a reference model of the test database; every explored history is replayed on the real interpreter over a decompiled file"
c("C12",DBM,"model_checking","All model states up to 4 (thorough 5) records, every operation from each, and all histories up to 4 (thorough 5) operations. Defects of src/testing are known findings (as for C08).")
c("C13",DBM,"model_checking","All histories up to 4 (thorough 5) operations and 3 (thorough 4) more after an initial one. Defects of src/testing are known findings (as for C08).")
c("C14",DBM,"model_checking","All navigation sequences up to 3 (thorough 5) from every found set of up to 4 records, visiting loops in 7 shapes. Defects of src/testing are known findings (as for C08).")
c("C15",DBM,"model_checking","All assignments of up to 3 (thorough 4) records over 6 values with all finds of one or two criteria, all pairs of finds. Defects of src/testing are known findings (as for C08).")
c("C16","model checking: exhaustive enumeration of relationship graphs, each given to the real path finder (directly, and through a stored file and a session) and compared with breadth-first search","model_checking","Every graph up to 5 (thorough 6) occurrences, all pairs, orders and directions. Defects of src/testing are known findings (as for C08).")
c("C17","model checking: exhaustive enumeration of relationships and key assignments, each stored in a file, decompiled and read through a real session, compared with a relational reference model","model_checking","Every comparison and direction, key lists up to 2 (thorough 3), chains of two relationships. Defects of src/testing are known findings (as for C08).")

c("C29",FIL,"model_checking","Every path, name, id choice, order and sector division of the stated sets.")
c("C30","model checking: exhaustive fault enumeration (every truncation, every character and token fault of a set of sources, every short token sequence) on the real compiler","fault_enumeration","Every damage of the stated classes to 8 sources; every sequence of up to 3 (thorough 4) of 40 tokens in 7 contexts.")
c("C31","model checking: exhaustive fault enumeration over declarations and their surroundings on the real compiler and the real tool as a process","fault_enumeration","Every fault of 653 faulty declarations under 28 names, alone, before and after every kind of declaration; every declaration cut off after every character.")
