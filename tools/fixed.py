FIXED.update({
"parse every argument of a call, and calls as operands":("C04","Min(5, 3) was 5; Abs(x) + 1 was Abs(x + 1); (a == b) == c lost tokens"),
"compare numbers by value and texts by content":("C02","10 > 9 was false; an empty field was not equal to \"\""),
"keep truth values that are stored in variables and fields":("C02","set_variable(b, 1 == 1) left b empty"),
"keep text literals without letters or digits":("C03","\"\" and \"-\" were dropped from calculations"),
"let every kind of white space separate calculation tokens":("C05","a tab or new line inside a calculation joined two tokens"),
"accept underscores in the field names of calculations":("C13","t::my_field was read as t::my"),
"keep quotation marks that are part of joined texts":("C03","Char(34) & \"x\" lost the quotation mark"),
"recognise the argument of Get()":("C04","Get(AccountName) was an error text"),
"compute Abs() in double precision":("C04","Abs(16777217) was 16777216"),
"make Asin() the arc sine of its argument":("C04","Asin was a textual minimum of two arguments"),
"read and write fields through the occurrence they name":("C13","reading other::field gave the field of the current occurrence; panic without a current record"),
"match branches and loops by nesting":("C08","an inner conditional or loop ended the skipping of an outer one; left loops stayed on the stack"),
"honour a false exit option of go_to_record":("C14","the exit option was on whatever its value"),
"give every script call its own variables and skip unknown scripts":("C09","a second call saw the variables of the first; an unknown script was called forever"),
"end the running script at exit_script":("C09","exit_script did nothing"),
"start every test from a fresh environment":("C11","verdict, records, found sets, layout, find mode and call stack of a test leaked into the next"),
"navigate in an empty found set without crashing":("C14","next, last and go to record n panicked on an empty found set"),
"find records whose field is empty":("C15","finding \"\" did not find records whose field was never set"),
"treat punctuation inside of text literals as text":("C07","commas, parentheses and square brackets in literals ended arguments or the script section"),
"ignore all white space around step arguments":("C05","new lines and trailing blanks became part of a step argument"),
"keep every relationship of a burn file":("C18","all relationships after the first replaced it"),
"keep the components of a file in id order":("C19","the JSON description, the assembled file and the processing order varied from run to run"),
"treat \"}\" inside of text literals of a calculation block as text":("C07","a } inside a literal of a field calculation ended the calculation"),
"accept names that read as floating point words":("C18","a table, script or test named inf, nan or infinity could not be declared"),
"encode double-byte text without growing a vector past its contents":("C21","encode_text grew a vector past its capacity: memory corruption and aborts"),
"decode double-byte text that has no trailing terminator":("C21","decode_bytes panicked without a trailing terminator"),
"use the high byte of two-byte directory numbers":("C20","384 decoded as 128: the high byte was ignored"),
"read the length of 0x1F chunks after their key":("C22","the key of a 0x1F chunk was read as its length"),
"read the length of 0x17 chunks as a length, not as a directory number":("C22","0x17 chunks consumed 128 bytes too many"),
"consume 0x0F chunks that are not segments":("C24","a 0x0F chunk not followed by 0x80 was decoded forever"),
"stop at sectors that link back, and do not trust the sector count":("C24","a cycle of sectors was followed forever; a damaged count exhausted the memory"),
"keep what is known of a component when its directory is entered again":("C23","tables, layouts and fields that span sectors lost their names"),
"take the ids of table occurrences and relationships from the file":("C23","occurrences and relationships were numbered in order of arrival; criteria went to the wrong relationship"),
"attach step data to scripts stored in segments":("C27","scripts stored in segments, in long lists or before their names crashed the decompiler"),
"decode non-ASCII text and names in stored calculations":("C27","non-ASCII text of calculations was decompiled to something else"),
"do not render white space of stored calculations as text literals":("C27","blanks of a calculation became text literals"),
"assemble files of whole sectors":("C25","assembled files were one byte short"),
"assemble the table directories at [3].[16].[5]":("C25","table directories were emitted in the names catalogue"),
"create the directory the JSON descriptions are written to":("C26","the program panicked unless inspect_output existed in the working directory"),
})
FIXED.update({"do not put closing quotation marks and braces into the next token":("C05","a text or calculation followed at once by \"end\" lost the end of the declaration")})
FIXED.update({
"encode integers that need all four bytes":("C20","encoding a number of 2^24 or more panicked in debug builds"),
"skip the zeros at the end of a sector":("C23","a sector that ended inside of a relationship list crashed the decompiler; one that ended in the data source names added empty ones"),
"continue assembled files in further sectors":("C25","schemas of more than some thirty tables and occurrences crashed the assembler"),
})
FIXED.update({"keep the high byte of table ids in the assembled catalogue":("C25","tables from the 256th on were listed under the id of another table")})

FIXED.update({
"take the names of data sources from their own directories":("C29","data sources were given each other's names: the index of names is in another order"),
"keep the letter h in the paths of data sources":("C29","every h was dropped from the paths of data sources"),
})
FIXED.update({
"report a declaration that has no end before the end of the source":("C31","a source that broke off inside of a table, occurrence, relationship, value list or test was compiled without an error"),
"read the last word of a source that ends with it":("C31","a source that ended with a word outside of its declarations was compiled without an error"),
})
FIXED.update({"report words that start with a digit outside of declarations":("C31","a word such as 1st outside of declarations was passed over, or joined to the next word")})
