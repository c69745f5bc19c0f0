#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

IO = ["stdout", "stderr", "exit status"]

p("C01", "Errors in the text are found before anything runs",
  "If any line of a program is not valid Basic (unknown statement, malformed or ill-typed expression, missing or surplus token, name used for two kinds of thing, bad line number), no statement of that program is executed, on RUN, on COMPILE, with --parse or when the file is run: the first offending line is shown on standard error with a caret under the offending position and a message, and --parse exits with failure. A program that is valid is accepted by all of them without any message. The decision is the same whichever of these ways is used.",
  ["programs"], "every program text, the error on any line and at any token, reached through file mode, --parse, COMPILE, RUN or an immediate statement",
  "tests/*.err sample six erroneous programs; none checks that lines before the error printed nothing, nor most of the grammar's error branches.",
  ["Basic/parse.c", "Basic/lexer.c", "Basic/symbol.c", "Basic/run.c", "System/lbasic.c"],
  [("current token and its position", "what the parser is looking at; where the caret goes", "LEX in Basic/lexer.h"),
   ("kind of a parenthesised name", "unknown / array / function / built-in", "SYMBOL.kind in Basic/symbol.h")],
  [("whole program is parsed before the first instruction", "parse_source, Basic/parse.c"),
   ("type of every expression computed while parsing", "expression() and callees, Basic/parse.c"),
   ("recompile only on change", "ensure_program_compiled, Basic/run.c")], IO)

p("C02", "Control goes exactly where GOTO, IF, ELSE and ON GOTO say",
  "Statements run in line order and left to right, except that GOTO and THEN/ELSE line numbers continue at the named line, a false IF goes on with its ELSE part or else with the next line, a true IF skips its ELSE part and the rest of that line after it, ON ... GOTO continues at the k-th listed line when its value is k and otherwise at the following statement, and END or running off the last line stops the program; an ELSE belongs to the nearest IF before it that has none. Jumping to a line that does not exist, or ON with a non-integer value, is a run-time error at that point, never a jump elsewhere.",
  ["programs", "inputs"], "all programs built from these statements: any nesting of IF/ELSE on a line, any number and order of lines, any selector value, any target present or absent",
  "The tests run one program per statement kind with one path through each; nested IF/ELSE, jumps backward into the middle, and missing targets are barely sampled.",
  ["Basic/run.c", "Basic/parse.c", "Basic/bcode.c", "Basic/linemap.c"],
  [("program counter and current code", "next instruction", "CODE_STATE in Basic/run.c"),
   ("line index", "Basic line number to first instruction", "LINE_MAP, Basic/linemap.c")],
  [("skip to ELSE / next line marker", "B_IF_THEN, B_IF_ELSE, B_ELSE in execute(), Basic/run.c"),
   ("jump by line index", "go_to_basic_line, Basic/run.c"),
   ("ELSE pairing", "else_clause, Basic/parse.c")], IO)

p("C03", "FOR and NEXT run the documented loops",
  "A FOR loop body runs at least once and then once for each value start, start+step, ... that has not passed the limit in the direction of the step (for ever with step 0), with limit and step fixed when FOR is executed; NEXT without a name serves the most recently started unfinished loop, NEXT v the loop controlled by v even if it is not the innermost, and NEXT a,b is NEXT a followed by NEXT b. A FOR on a variable already controlling a loop replaces that loop and becomes the innermost; NEXT with no matching loop, or a ninth loop in progress, is a run-time error.",
  ["programs", "inputs", "histories"], "all start/limit/step values including empty ranges, fractional, zero and negative steps; all nestings, early exits by GOTO, re-entries and mismatched NEXTs; in programs and immediate lines",
  "tests/for.bas has six fixed loops, all with positive unit step; exits, replacements, NEXT of an outer loop and the limit are not crossed with each other.",
  ["Basic/run.c", "Basic/parse.c"],
  [("stack of loops in progress", "variable, step, limit and place to continue", "for_stack/for_sp in struct vm, Basic/run.c")],
  [("loop entry and replacement", "B_FOR in execute(), Basic/run.c"),
   ("loop exit or continuation", "next(), Basic/run.c"),
   ("choice of loop", "B_NEXT_VAR/B_NEXT_IMP and find_for, Basic/run.c")], IO)

p("C04", "RETURN resumes after the matching GOSUB",
  "RETURN continues at the statement following the most recent GOSUB or ON ... GOSUB that has not been returned from, whatever jumps, loops or other subroutines happened in between, in programs and from immediate lines alike. RETURN with none outstanding is a run-time error; up to eight GOSUBs can be outstanding and a ninth is a run-time error that leaves the program stopped at that GOSUB.",
  ["programs", "histories"], "all call/return sequences, including recursion, several GOSUBs on one line, GOSUB inside IF/ELSE and FOR, ON GOSUB with selector in or out of range, and depths up to and beyond the limit",
  "tests/gosub.bas nests two calls and tests/ongosub.bas calls once; the limit, RETURN without GOSUB and calls in the middle of a line are never tried.",
  ["Basic/run.c", "Basic/parse.c"],
  [("return stack", "places to continue from", "retstack/rsp in struct vm, Basic/run.c")],
  [("push of the following position", "push_return, Basic/run.c"), ("pop", "pop_return, Basic/run.c"),
   ("size of the ON list skipped on return", "B_ON_GOSUB in execute(), Basic/run.c")], IO)

p("C05", "A variable keeps its last assigned value and nothing else changes it",
  "Reading a simple variable gives the value last assigned to it by LET, FOR/NEXT, READ or INPUT, or 0 / the empty string if none since the last RUN, CLEAR or change of the program; assigning one variable never changes another. Names are the same variable exactly when they are equal ignoring letter case; A, A$, A(...) and A$(...) are four different things. RUN and CLEAR make every variable, array and user-defined function undefined again, and string values are independent copies.",
  ["programs", "histories"], "all sequences of assignments and reads over any set of names (any length up to 127, any case mixture, any number of names), with CLEAR and RUN anywhere, in programs and immediate mode",
  "Tests use a handful of one-letter names; aliasing between names needs particular pairs (hash collisions, common prefixes, case variants, many symbols).",
  ["Basic/symbol.c", "Shared/hash.c", "Basic/run.c", "Basic/lexer.c"],
  [("symbol table", "name, kind, type, value", "SYMTAB in Basic/symbol.h")],
  [("case-insensitive lookup by name and parenthesisation", "sym_lookup, match_paren, Basic/symbol.c"),
   ("clearing values but not names", "clear_symbol_table_values, Basic/symbol.c"),
   ("set/get of simple variables", "set_numeric_simple and friends, Basic/run.c")], IO)

p("C06", "Array elements are independent and bounds are enforced",
  "After DIM with maximum subscripts m (or m,n), exactly the elements with integer subscripts 0..m (0..n) exist, start as 0 or the empty string, and each keeps its own last assigned value; any other subscript or number of subscripts is a run-time error and changes nothing. An undimensioned array comes into being at its first use with each maximum the larger of 10 and the subscript used. Executing DIM again discards all elements and applies the new sizes.",
  ["programs", "inputs"], "all one- and two-dimensional sizes up to the 65536-element limit, all subscripts in, at and beyond the bounds (negative, fractional, huge), numeric and string, with re-dimensioning and any interleaving of accesses to several arrays",
  "tests/dim.bas touches a few cells and never goes out of bounds; overlap of elements shows only for particular shapes and pairs of cells.",
  ["Basic/arrays.c", "Basic/run.c", "Basic/parse.c"],
  [("array sizes and cells", "dimension count, maxima, values", "struct numeric_array / string_array, Basic/arrays.h")],
  [("offset computation and bound test", "compute_element_offset, Basic/arrays.c"),
   ("automatic dimensioning", "dimension_numeric_auto/dimension_string_auto, Basic/run.c"),
   ("re-dimensioning", "B_DIM_NUM, B_DIM_STR in execute(), Basic/run.c")], IO)

p("C07", "User-defined functions compute their latest definition in isolation",
  "Calling a function defined by DEF yields its expression evaluated with the parameter bound to the argument and all other names at their current values, using the most recently executed DEF of that name. The call leaves every variable, including one named like the parameter, as it was. Calling a function whose DEF has not been executed, with a number of arguments other than one, or from inside another function's expression is a run-time error.",
  ["programs", "histories"], "all definitions (numeric and string results), arguments and redefinitions, in programs and immediate mode, before and after CLEAR, with calls nested in arguments, conditions, subscripts, DATA-driven loops and PRINT lists",
  "def.bas, def1.bas and def2.bas check one isolation case and one nesting error; redefinition, errors inside the function and immediate/program sharing are not crossed.",
  ["Basic/run.c", "Basic/def.c", "Basic/bcode.c", "Basic/parse.c"],
  [("function in progress", "where to return, saved parameter variable", "fn in struct vm, Basic/run.c"),
   ("function body", "private copy of the code", "struct def, Basic/def.h")],
  [("save and restore of the parameter variable", "call_def, end_def, Basic/run.c"),
   ("copy of body at DEF time", "bcode_copy_def, Basic/bcode.c")], IO)

p("C08", "Numeric expressions follow the documented operators and precedence",
  "An expression is grouped by the documented precedence (power, negation, times/divide, plus/minus, relations, NOT, AND, OR; equal levels left to right, power right to left) and yields the value of that grouping in double precision; relations yield -1 or 0; and NOT, AND, OR work bit by bit on 32-bit integers (so on true, -1, and false, 0, they are the logical operations), any other operand being a run-time error. Numeric built-ins return their documented values, and an operand outside a function's documented domain is a run-time error. An expression too deep for the evaluation stack is a run-time error, never a wrong value.",
  ["programs", "inputs"], "all expressions over constants, variables, parentheses, all operators and numeric built-ins, to any depth",
  "Tests contain fewer than ten distinct arithmetic expressions; precedence pairs, chained unary operators and associativity need systematic enumeration.",
  ["Basic/parse.c", "Basic/run.c", "Basic/lexer.c"],
  [("numeric stack", "operands", "stack/sp in struct vm, Basic/run.c")],
  [("one parsing function per precedence level", "OR_expression ... primary_expression, Basic/parse.c"),
   ("operators", "arithmetic and logic opcodes in execute(), Basic/run.c"),
   ("stack bound", "push/pop, Basic/run.c")], IO)

p("C09", "String functions obey their length, position and conversion laws",
  "LEFT$, RIGHT$ and MID$ return exactly the requested substring cut at the string's ends (a MID$ start outside the string is an error); + concatenates up to 255 characters and reports an error beyond; comparisons order strings by character codes; LEN, ASC, CHR$, STR$ and VAL agree with each other, with ASC(CHR$(n)) = n for 0 <= n <= 255 and VAL(STR$(x)) equal to x as printed. Arguments are never altered. Invalid counts, positions, codes and numbers are run-time errors.",
  ["programs", "inputs"], "all strings up to the 255-character limit, all counts and positions including 0, fractional, negative and beyond the end, all character codes, all compositions of the functions",
  "tests/string.bas tries one 11-character string with a dozen calls.",
  ["Basic/run.c", "Basic/parse.c", "Basic/builtin.c"],
  [("string stack", "operands, each an owned copy", "strstack/ssp in struct vm, Basic/run.c")],
  [("substring opcodes", "B_LEFT, B_MID3, B_RIGHT in execute(), Basic/run.c"),
   ("concatenation bound", "B_CONCAT in execute(), Basic/run.c"),
   ("number recognition", "convert(), Basic/run.c")], IO)

p("C10", "PRINT puts every item at the documented column",
  "PRINT outputs its items in order: strings as they are, numbers with one space before and after (six significant digits), a comma advancing with spaces to the start of the next 8-column field (at least one space), SPC(n) n spaces, TAB(n) moving to column n, on a new line if that column has been passed; a line ends after the items unless the list ends with a separator. The column is 1 at the start of a run and after every newline, printed or entered by the user, and otherwise counts the characters printed.",
  ["programs", "inputs"], "all item lists and all consecutive PRINT statements sharing a line, with any item widths, embedded control characters, and TAB/SPC arguments",
  "Tests print a few lists with commas; TAB and SPC are not tested at all, nor a column carried over from an earlier PRINT.",
  ["Basic/run.c", "Basic/parse.c"],
  [("print column", "1-based position on the output line", "col in struct vm, Basic/run.c")],
  [("column accounting", "B_PRINT_* opcodes in execute(), Basic/run.c"),
   ("newline suppression", "print_statement, Basic/parse.c")], ["stdout"])

p("C11", "INPUT assigns each item once, in order, or asks again",
  "INPUT shows its prompt and a question mark, reads one line and assigns its comma-separated fields to the items from left to right; a missing field or a field that is not a number for a numeric item is reported and the whole INPUT is repeated with a fresh line, any number of times; surplus text is reported and dropped. LINE INPUT assigns the entire line, commas included. When input has ended the program stops with a run-time error instead of continuing or looping.",
  ["programs", "inputs", "histories"], "all item lists (numeric, string, array elements whose subscripts were just read), all lines up to 126 characters, any sequence of rejected and accepted replies, end of input at any point",
  "No regression test reads any input: INPUT is entirely untested.",
  ["Basic/run.c", "Basic/parse.c"],
  [("input line and position in it", "what is left to assign", "input/inp/input_pc in struct vm, Basic/run.c")],
  [("retry", "B_INPUT_BUF/SEP/NUM/STR/END in execute(), Basic/run.c"),
   ("item list", "input_statement, Basic/parse.c")], IO)

p("C12", "READ consumes DATA items in program order",
  "Successive READ items receive the DATA items of the program in line order, each exactly once, wherever the DATA lines stand and however control reached the READ; RESTORE starts again from the first item and RESTORE n from the first item at or after line n, which must exist. Quoted items keep their spaces and commas, unquoted items lose surrounding spaces. Reading past the last item, with no DATA, or a non-number into a numeric item is a run-time error; RUN starts from the first item, and an immediate READ uses the immediate line's own DATA if it has any.",
  ["programs", "histories"], "all distributions of DATA over lines, all item spellings, all interleavings of READ and RESTORE, numeric and string items, from programs and immediate lines",
  "data.bas and restore.bas read nine items from three layouts.",
  ["Basic/run.c", "Basic/lexer.c", "Basic/parse.c"],
  [("data pointers", "next instruction to search for DATA", "program_data/immediate_data in struct vm, Basic/run.c")],
  [("search for the next item", "find_data, Basic/run.c"), ("RESTORE", "B_RESTORE, B_RESTORE_LINE, Basic/run.c"),
   ("raw DATA text", "lex_next_data, Basic/lexer.c")], IO)

p("C13", "The stored program is what the user's edits say",
  "After any sequence of typed lines, the stored program is exactly the map from line number to the text last entered for it, minus lines deleted by a bare number or NEW; LIST shows it in ascending order of line number with the text unchanged, and LIST a-b, LIST a (from a to the end) and LIST -b show exactly the lines in that range; LIST p waits for ENTER after each page without leaving any line out. RUN always executes this current text, not an earlier version. A line number of 0 or one too large for the machine is refused with a message and changes nothing.",
  ["histories", "inputs"], "all sequences of entering, replacing, deleting, NEW, LIST and RUN, any line numbers and texts up to the 126-character line limit, any program size",
  "Immediate mode has no tests at all (Monitor/interactive.c has no unit or regression test); only internal insert helpers are unit-tested.",
  ["Monitor/interactive.c", "Basic/source.c", "Basic/run.c"],
  [("stored source", "ordered lines", "SOURCE in Basic/source.h"), ("compiled code present or absent", "stale after an edit", "stored_program in struct vm, Basic/run.c")],
  [("ordered insertion/replacement/deletion", "enter_source_line, delete_source_line, Basic/source.c"),
   ("invalidate compiled code", "stored_program_changed, Basic/run.c"),
   ("listing", "list(), Monitor/interactive.c")], IO)

p("C14", "SAVE then LOAD restores the program; LOAD is all or nothing",
  "A program saved with SAVE, whatever the length of its lines, and read back with LOAD, --list or by running the file is the same sequence of line numbers and texts. LOAD of a file that is missing, or has a line that is empty, unnumbered, out of order or holds a null character, reports the problem and leaves the session running with its program unchanged; given as the file to run, such a file is reported and nothing is executed. LOAD replaces the whole previous program, saving never changes the program in memory, and a SAVE that cannot write the file says so.",
  ["histories", "inputs"], "all programs and all load/save/edit sequences, files with and without a final newline, files of any size, any number of LOADs in one session",
  "No test saves or loads through the monitor; file loading is tested only with well-formed files.",
  ["Basic/source.c", "Basic/run.c", "Monitor/interactive.c", "System/lbasic.c"],
  [("stored source", "ordered lines", "SOURCE in Basic/source.h"), ("file on disk", "one line of text per program line", "save_source_file, load_source_file in Basic/source.c")],
  [("writing", "save_source_file, Basic/source.c"), ("reading and validation", "load_source_file, append, parse_line_number in Basic/source.c"),
   ("replacement of the program", "vm_load_source, Basic/run.c")], IO + ["saved files"])

p("C15", "RENUM changes line numbers only, and consistently",
  "RENUM new,old,inc gives the lines from old onward the numbers new, new+inc, ... in the same order and changes every reference to a renumbered line (after GOTO, GOSUB, THEN, ELSE, RESTORE and in ON lists) to its new number; references to absent lines, other numbers, strings, DATA and remarks stay as they are, so the program behaves as before. If the result would not be strictly increasing valid line numbers, RENUM reports an error and changes nothing; after RENUM, jumps typed in immediate mode use the new numbers.",
  ["programs", "inputs"], "all programs with any references (several per line, ON lists, nested IF/ELSE, adjacent to strings and comments), all parameter triples, before or after the program has been run",
  "RENUM has no test.",
  ["Monitor/interactive.c", "Basic/source.c", "Basic/lexer.c", "Basic/linemap.c"],
  [("old-to-new map", "line number mapping", "renumber(), Monitor/interactive.c"), ("source text", "edited in place", "source_replace, Basic/source.c")],
  [("mapping and text update", "renumber(), takes_line_number(), Monitor/interactive.c"), ("re-tokenising after an edit", "lex_refresh, Basic/lexer.c")], IO)

p("C16", "STOP, CONT and immediate statements share one environment",
  "STOP prints its line and returns to the prompt, and CONT then goes on at the next statement with all variables, loops, subroutine returns and the DATA position as the program and the intervening immediate statements left them. Immediate statements see and change the program's variables, arrays and functions, and GOTO, GOSUB and NEXT typed at the prompt enter the program with its state. After any edit, NEW, LOAD or RENUM, or when the program ended or failed, CONT is refused; the program is recompiled when next needed and loop, return and DATA state then starts afresh.",
  ["histories", "programs"], "all interleavings of RUN, STOP, CONT, immediate statements (assignment, PRINT, FOR, NEXT, GOSUB, GOTO, READ, DEF, DIM, CLEAR), edits and errors",
  "Immediate mode and CONT have no tests; tests/stop.bas only checks that a program in a file stops.",
  ["Basic/run.c", "Monitor/interactive.c"],
  [("stopped position", "where CONT resumes", "stopped_program in struct vm, Basic/run.c"),
   ("control state", "loops, returns, data pointers", "struct vm, Basic/run.c")],
  [("continuation", "vm_continue, run(), Basic/run.c"), ("state referring to a vanished immediate line is dropped", "immediate_state, run_immediate, Basic/run.c"),
   ("reset on recompilation", "ensure_program_compiled, reset_control_state, Basic/run.c")], IO)

p("C17", "An error does not damage the session",
  "After any error (syntax or run-time, in a program, a function, an INPUT or an immediate statement, or a bad command line), the interpreter returns to its prompt and every later command behaves as if the failed statement had stopped after the effects it had already had: no value left half-evaluated, no function call left in progress, no capacity used up, however many errors occur. Only BYE and the end of input end the session.",
  ["histories", "fault_sequences"], "all sequences mixing failing and succeeding commands, repeated any number of times, each failure at any point of an expression, call, assignment, INPUT or command",
  "Every regression test ends at its first error, so nothing observes the state after one.",
  ["Basic/run.c", "Monitor/interactive.c", "Basic/lexer.c", "Basic/parse.c", "Basic/source.c"],
  [("evaluation stacks and function in progress", "must not survive an error", "stack, strstack, fn in struct vm, Basic/run.c")],
  [("error exit", "run_error and setjmp in run(), Basic/run.c"), ("parser error exit", "parse_error, parse_source, Basic/parse.c"), ("command errors", "error(), Shared/utils.c")], IO)

p("C18", "A run-time error stops at, and names, the failing line",
  "When a statement fails at run time, everything printed and assigned before the failing operation stands, nothing after it happens, and standard error gets one message 'Runtime error: ...' describing the error followed by the program line being executed (for an error inside a function, the line of its DEF, if that is in the program). Errors are never silently ignored and never reported for valid operations.",
  ["programs", "inputs"], "every kind of run-time error at every position of a line and program: after jumps, loops, subroutine returns, function calls and CONT, when the current line has changed in every possible way",
  "Only two regression tests produce a run-time error, both on a straight-line program.",
  ["Basic/run.c"],
  [("current source line", "line shown with the error", "code_state.source_line in struct vm, Basic/run.c")],
  [("message and line", "run_error, Basic/run.c"), ("current line restored by RETURN, NEXT and function end", "pop_return, next, end_def, Basic/run.c")], ["stderr", "stdout"])

p("C19", "RND is reproducible from its seed and stays in [0,1)",
  "Every value of RND is at least 0 and less than 1. RANDOMIZE n makes the following RND values a fixed sequence determined by n alone, another n giving another sequence (but for 0 and 1, which are alike), and without RANDOMIZE every run of the interpreter produces the same sequence, independent of how many other statements, built-ins or arguments to RND come in between. A negative or fractional n is a run-time error.",
  ["programs", "histories"], "all interleavings of RANDOMIZE n and RND over any seeds and sequence lengths, RND with or without a dummy argument, in programs and immediate mode",
  "tests/rand.bas compares one pair of values for one seed.",
  ["Basic/run.c", "Basic/parse.c", "System/options.c"],
  [("generator state", "position in the sequence of the current seed", "C library generator, B_RND/B_SEED in Basic/run.c")],
  [("seeding", "B_SEED, B_RAND in execute(), Basic/run.c"), ("range", "B_RND in execute(), Basic/run.c")], ["stdout"])

p("C20", "Words are recognised as documented, crunched or not",
  "Keywords and built-in names are recognised in any letter case and only as whole words, so that names may contain keywords; blanks between tokens never matter; the text of strings, DATA items and remarks is taken literally. With --keywords-anywhere the same holds except that a keyword is recognised wherever its letters occur outside strings, DATA items and remarks, so a program with the blanks around its keywords removed runs as the spaced one does.",
  ["programs", "configurations"], "all spellings, spacings and crunchings of all statements, names containing keywords, numbers next to letters, in both modes",
  "tests/crunch.bas is a four-line program; the lexer unit tests check single tokens.",
  ["Basic/lexer.c", "Basic/token.c", "Basic/builtin.c", "Basic/parse.c"],
  [("token and its word", "classification of the text", "LEX in Basic/lexer.h")],
  [("whole-word keyword lookup", "identifier_token, Basic/token.c"), ("prefix lookup", "keyword_prefix, Basic/token.c and lex_next, Basic/lexer.c")], IO)

p("C21", "Observing a program does not change it",
  "--trace-basic writes [n] to standard output exactly when execution enters line n, and apart from these marks the program's output, input handling and errors are those of the untraced run; --trace-log, --trace-for, --report-memory and --quiet do not change them either. --list, --list-names and --code describe the program without running any of it: --list shows its lines, --code the code of every line in order, --list-names each distinct name once in alphabetical order ignoring case, marked * for built-ins and = for printing operators.",
  ["programs", "configurations"], "all programs, and all combinations of the observing options",
  "No test uses any of these options.",
  ["System/lbasic.c", "System/options.c", "Basic/run.c", "Shared/stringuniq.c"],
  [("options", "behaviour switches", "Options, System/options.h and struct vm")],
  [("line marks", "B_SOURCE_LINE in execute(), Basic/run.c"), ("name collection", "list_names, System/lbasic.c and Shared/stringuniq.c")], IO)

p("C22", "No input crashes the interpreter",
  "Whatever program text, command lines and input lines it is given, the interpreter never aborts, never reads or writes memory out of bounds and never ends the session on its own: it either carries out the line or reports an error and carries on. It ends normally with a zero status at BYE or the end of its input.",
  ["inputs", "programs", "histories"], "all byte strings as lines up to the line limits: well-formed, mutated and random token sequences, over-long words, extreme numbers and subscripts, in file and immediate mode",
  "Tests use well-formed programs and a few erroneous ones; assertion failures and overflows need particular malformed combinations.",
  ["Basic/lexer.c", "Basic/parse.c", "Basic/run.c", "Monitor/interactive.c", "Basic/source.c", "Basic/arrays.c"],
  [("fixed-size buffers and stacks", "words, strings, input line, command line, evaluation stacks", "Basic/lexer.h, Basic/run.c, Monitor/interactive.c")],
  [("length checks", "lex_next, append in Basic/lexer.c"), ("stack checks", "push, push_str, push_return, B_FOR in Basic/run.c"), ("argument checks", "identifier(), Basic/parse.c")],
  IO + ["address and undefined-behaviour sanitizer reports"])

p("C23", "Program size does not change program meaning",
  "The behaviour of a program does not depend on how many other lines, names, DATA items, loops or subroutines it contains, where in the program its lines stand or which line numbers (1 to 65535) it uses: adding lines and names that are never reached or used leaves its output unchanged. Long-running loops and repeated calls, definitions, dimensionings and string assignments do not accumulate effects.",
  ["programs", "configurations"], "all programs of any length (hundreds of lines, names and DATA items), any choice of line numbers, any iteration counts",
  "The largest test program has 22 lines and a dozen names, below every initial table capacity in the code.",
  ["Basic/source.c", "Basic/bcode.c", "Basic/linemap.c", "Basic/symbol.c", "Shared/hash.c", "Basic/arrays.c"],
  [("growing tables", "lines, instructions, symbols", "SOURCE, BCODE, SYMTAB"), ("hash tables", "line numbers and names", "Basic/linemap.c, Basic/symbol.c")],
  [("doubling of tables", "ensure_space in Basic/source.c, bcode_next in Basic/bcode.c, sym_insert in Basic/symbol.c"), ("collision chains", "lookup_line_mapping, sym_lookup")], IO)

p("C24", "Every memory block allocated is released",
  "In any run that ends without an error having been reported, in file or immediate mode, the numbers of memory blocks allocated and released shown by --report-memory are equal.",
  ["programs", "histories"], "all error-free programs and sessions: string assignment, arrays, re-dimensioning, redefinition, CLEAR, editing, NEW, LOAD, RENUM, STOP/CONT, INPUT",
  "No test looks at the counters.",
  ["Basic/run.c", "Basic/symbol.c", "Basic/source.c", "Basic/bcode.c", "Basic/arrays.c", "Basic/def.c", "Shared/utils.c"],
  [("allocation counters", "blocks allocated and released", "malloc_count/free_count, Shared/utils.c")],
  [("owned strings and tables freed on replacement and at exit", "delete_vm, delete_symbol_table, undefine_value, set_string_simple")], ["stdout of --report-memory"])

p("C25", "A break stops the program cleanly and CONT resumes it",
  "An interrupt (CTRL-C) while a program or immediate statement is running stops it, prints Break and returns to the prompt (or ends a file run); the interpreter does not exit; if the program was interrupted, immediate statements can then inspect and change variables, and CONT resumes so that the output is what it would have been without the interruption, apart from those changes. An expression or function call is never left half evaluated; interrupting LIST ends the listing, which then lacks its end only; an interrupt does not carry over to the next command.",
  ["schedules", "histories"], "interrupts at every INPUT of a program and at arbitrary points of running loops, any number of times, with inspection, assignment, edits and CONT afterwards",
  "No test delivers a signal.",
  ["Shared/interrupt.c", "Basic/run.c", "Monitor/interactive.c"],
  [("interrupt flag", "set by the signal handler", "interrupted, Shared/interrupt.c"), ("stopped position", "where CONT resumes", "stopped_program in struct vm, Basic/run.c")],
  [("trap and flag", "trap_interrupt, untrap_interrupt, Shared/interrupt.c"), ("loop test and saved position", "run(), vm_continue, Basic/run.c")], IO)

p("C26", "The command line decides what is done, in any order of its words",
  "Options count in their long or short form, in any order and any number of times, before or after the file name: --quiet, --keywords-anywhere, --trace-basic, --trace-log and --report-memory apply to whatever is then done, and of several modes (--run, --list, --list-names, --parse, --code) the last; with a file name the file is run or described as the mode says; without one the interpreter is interactive. An unknown option, a second file name, or a mode without a file is reported on standard error with a failure status and nothing is run, listed or asked; --help, --help-full and --version show just that; a file that was run ends with a zero status, one that cannot be loaded or does not parse under --parse or --code with a failure.",
  ["configurations", "inputs"], "all sequences of options in both forms, known and unknown, and file names, crossed with programs that run, fail, do not parse or are missing",
  "The tests use one fixed command line (-q with a file, sometimes -k).",
  ["System/options.c", "System/lbasic.c", "Monitor/interactive.c"],
  [("options", "what was asked for", "struct Options in System/options.h")],
  [("argument loop", "parse_options, System/options.c"), ("dispatch", "main, process_file, System/lbasic.c")], IO)

p("C27", "The clock: TIME$ and RANDOMIZE without a number",
  "TIME$ is the time of day in the local time zone at the moment it is evaluated, in the 24-hour clock, always as eight characters HH:MM:SS, wherever a string expression may stand; a value stored from it does not change later. RANDOMIZE without a number, and the option --randomize, make the numbers RND then gives depend on the time, so that at another time of the day they are others, and change nothing else: no variable, array, DATA position, loop or subroutine. Otherwise nothing depends on the time: without them, or after RANDOMIZE n, RND gives the same numbers at any time.",
  ["inputs", "configurations", "programs"], "every second of the day, dates from 1970 to beyond 2038, every time zone and daylight saving rule; every expression and statement with TIME$; RANDOMIZE at any point of a program or session",
  "No test uses TIME$ or RANDOMIZE without a number, as their results are not fixed.",
  ["Basic/run.c", "Basic/parse.c", "Basic/builtin.c", "System/options.c"],
  [("state of the C library's generator", "where the numbers stand", "srand, rand in Basic/run.c")],
  [("local time formatted when evaluated", "B_TIME_STR in execute(), Basic/run.c"), ("seeding from the time", "B_RAND in execute(), Basic/run.c; --randomize in System/options.c")], IO)

p("C28", "A line beginning with * goes to the operating system and changes nothing",
  "At the prompt, a line whose first non-blank character is an asterisk is passed on, without the asterisk and unchanged, to the operating system's command interpreter, once; what it writes appears where it is, before the next prompt, and files it makes can be loaded. If nothing follows the asterisk, nothing is done. Whatever the command does or returns, the program, its being able to continue, variables, arrays, definitions, DATA position and loops in progress are as they were, and the session goes on.",
  ["histories", "inputs"], "all such lines of up to 126 characters, with blanks, quotes and asterisks anywhere in them, succeeding, failing, unknown or exiting; between any other commands and statements, after STOP, errors or edits",
  "No test types such a line.",
  ["Monitor/interactive.c"],
  [("command line", "what was typed", "interactive(), Monitor/interactive.c")],
  [("asterisk recognised before commands", "interpret, Monitor/interactive.c"), ("passing it on", "oscli, Monitor/interactive.c")], IO + ["files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
