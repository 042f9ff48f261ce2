#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x.strip()} for x in state.split(",")]
    if obs: a["observe_at"] = [obs]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

T = "The 11 tests diff the listing/object file of one program each; "
prop("P01", "The object file holds exactly the assembled bytes at their addresses",
 "After an assembly without errors, loading the object file yields, in order, exactly the bytes the program's statements define, each at the location counter its statement had when it was assembled. No byte is lost, duplicated, reordered or placed at another address, whatever the mix of location-counter moves, gaps, real and dummy sections, includes and macros that precedes it.",
 ["inputs", "histories"], "every source program that assembles without error, in either output format",
 T + "they cannot cover the histories of pending bytes, flushes and counter moves that end in each record.",
 ["scode.c", "crasm.c", "pseudos.c"], [("pending record, flush on address change", "scode.c:setpc,insert8,flushscoderaw"), ("location counter", "crasm.c:asmline")],
 "rawstart/rawnumber/raw[], pc, starlabel, F_CODE_ON", "file given by -o")
prop("P02", "Every object-file record is well formed for its format",
 "Every line of an object file is a well-formed Motorola S-record or Intel HEX record: correct type for the address width, count, checksum, and at most 16 data bytes. Intel HEX data records are preceded by an extended linear address record whenever the upper address half changes, and the file ends with exactly one terminator record of its format.",
 ["inputs", "histories"], "all programs, all 32-bit addresses, all record lengths and both formats",
 T + "one address range per test; checksum, S2/S3 and extended-address transitions depend on every byte and address.",
 ["scode.c"], [("record writer", "scode.c:flushscoderaw,scodebyte"), ("terminator", "scode.c:closescodefile")],
 "checksum, rawextended", "file given by -o")
prop("P03", "Success is reported, and an object file left, exactly when there is no error",
 "An object file exists after the run only if the second pass reported no error (and only if -o was given and bytes were emitted); a program with at least one erroneous line leaves no object file and the summary says that no code was generated. For a successful assembly the summary gives the number of code bytes generated and the last address; the error total equals the number of error lines reported, and the warning total the number of warnings raised (0 with -s; a warning raised while the listing is off is counted but not shown).",
 ["inputs", "histories"], "all programs, with any number of errors in any position and any combination of -o, -l and -s",
 T + "only error-free programs are tested; the failing ones are unbounded.",
 ["crasm.c", "xref.c", "scode.c"], [("removal on error", "crasm.c:crasm"), ("summary", "xref.c:result")], "errnumber, warnnumber, codelen", "exit, -o file, summary block")
prop("P04", "Every symbol reference resolves to the value of its definition",
 "In an error-free assembly, every reference to a symbol, before or after its definition and whatever the number and order of definitions, yields the value that its (last preceding, or for forward references the only) definition has in the final program. Distinct names never share a value slot, and names differing only in letter case are the same symbol.",
 ["inputs", "histories"], "all sets of definitions, orders of insertion and reference positions",
 T + "the symbol tree's shape depends on insertion order; tests fix a few.",
 ["label.c", "operator.c", "pseudos.c", "crasm.c"], [("symbol tree", "label.c:searchlabel,makelabel,findlabel,deflabel"), ("two passes", "crasm.c:pass, label.c:undeflabels")], "label tree, flags", "object bytes, symbol table")
prop("P05", "Both passes agree: forward references get long forms and final addresses",
 "In an error-free assembly each label's value equals the address its statement really has in the object file, and a reference made before the definition sees that same value. Where the instruction set has a short and a long address form, the short one is chosen exactly when the operand is already known and fits; a program in which a forward reference cannot be resolved consistently is rejected with an error, never silently mis-assembled.",
 ["inputs", "histories"], "all interleavings of definitions, forward references, equates and address-dependent sizes",
 T + "consistency of two passes is a property of pairs of runs over all forward-reference patterns.",
 ["label.c", "cpu6502.c", "cpu6800.c", "crasm.c"], [("FORWARD propagation", "operator.c, label.c:findlabel,deflabel,undeflabels"), ("short form choice", "cpu6502.c:standard, cpu6800.c:findmode")], "label FORWARD flag, advance", "object bytes, listing addresses")
prop("P06", "Illegal definitions are rejected, legal redefinitions take effect",
 "A label (or a symbol that was referenced before its definition) can be defined once only; equates and macros' names obey the documented redefinition rule, an equated value holding from its line to the next equate. Keywords of the pseudo-instructions and of the selected processor cannot be redefined, malformed names and labels without an origin are errors, and a rejected definition leaves the earlier value in force.",
 ["inputs", "histories"], "all sequences of definitions, redefinitions, uses and CPU selections",
 T + "no test has an illegal definition.",
 ["label.c", "crasm.c", "pseudos.c"], [("redefinition", "label.c:deflabel"), ("name syntax", "label.c:checklabel"), ("keyword binding", "label.c:init_label_list")], "label flags NOREDEF/UNDEF/FORWARD", "error lines, object bytes")
prop("P07", "Local labels are private to their segment or macro expansion",
 "A name starting with a period denotes a different symbol in each segment delimited by CODE or DUMMY and in each macro expansion, and the same symbol throughout one of them; after a macro expansion the enclosing scope is in force again. The same local name can therefore be defined once per scope, and references never reach another scope's definition.",
 ["inputs", "histories"], "all sequences of CODE/DUMMY switches, (nested) macro calls and local definitions and references",
 T + "scope numbering must agree between the passes for every nesting history.",
 ["label.c", "pseudos.c", "macro.c"], [("scope number in the key", "label.c:searchlabel"), ("scope switch", "pseudos.c:Xcode,Xdummy; macro.c:macrocall")], "segment, thiscall", "object bytes, error lines")
prop("P08", "Expressions evaluate by the documented operators and precedence",
 "Every well-formed expression evaluates to its mathematical value in two's complement with truncating division, precedence increasing from +-, */, |&^, <<>>, to the unary operators and the HI, LO, ADDR, BIT functions and {}, and parentheses overriding it. Operators of one level group with the operator listed first in the manual (+ * | & <<) splitting last, and equal operators from left to right; ill-typed or malformed expressions are errors, never silently given a value.",
 ["inputs"], "all expressions over all operators, operand types, nestings and values",
 T + "a handful of expressions; operator interaction is combinatorial.",
 ["parse.c", "operator.c", "filter.c"], [("operator table and recursive split", "parse.c:parse2,oplist"), ("operators", "operator.c:op*")], "", "object bytes of DB/DW/DL, error lines")
prop("P09", "Numeric and character constants denote their documented value",
 "Decimal, hexadecimal ($h, hH, 0Xh), binary (%b, bB, 0Bb), octal (oQ) and character constants, in either letter case and with the documented escapes, denote exactly their value up to 32 bits. A malformed constant or a numeric one exceeding 32 bits is reported as an error.",
 ["inputs"], "all constants of all notations and lengths",
 T + "boundary values and malformed digits per notation are unbounded.",
 ["operator.c", "parse.c"], [("constant readers", "operator.c:cstdecimal,csthexa,cstoctal,cstbinary,cstascii"), ("notation table", "parse.c:oplist")], "", "object bytes, error lines")
prop("P10", "Conditional assembly assembles exactly the selected branches",
 "For IF/ELSE/ENDC nested to any depth, the statements assembled are exactly those of the branches whose conditions, evaluated at their place, select them; the skipped ones emit nothing, define nothing, move nothing and raise no error (malformed or misplaced ELSE, ENDC, MACRO, ENDM and EXITM statements themselves apart). Conditions compare with =, ==, !=, <>, <, >, <=, >= or test for non-zero, and unbalanced ELSE or ENDC and conditions that are not yet computable are reported.",
 ["inputs", "histories"], "all nestings of conditionals, conditions and enclosed statements, inside and outside macros and includes",
 T + "one test with a fixed nesting.",
 ["macro.c", "crasm.c"], [("branch selection", "macro.c:Xif,testtrue,Xelse,Xendc"), ("status bits", "crasm.c:asmline")], "status, mystatus, errorjump nesting", "object bytes, error lines, listing")
prop("P11", "A macro call assembles its body with the arguments substituted",
 "A macro call behaves as the recorded body lines with \\1..\\9 replaced by the call's arguments (empty when absent), \\# by their number and \\* by the whole argument text, up to ENDM or an executed EXITM, in a fresh local scope. Calls nest (also recursively under a condition), the caller's state of lines, listing and conditionals is restored afterwards, and more than 9 arguments, nested definitions or ENDM in the wrong place are errors.",
 ["inputs", "histories"], "all macro bodies, argument lists and call nestings",
 T + "one macro test; argument text, nesting and early exit combine without bound.",
 ["macro.c"], [("recording", "macro.c:Xmacro"), ("substitution", "macro.c:linegets"), ("call", "macro.c:macrocall,Xexitm,Xendm")], "source[], macrolevel", "object bytes, error lines, listing")
prop("P12", "INCLUDE assembles the named file as if its lines stood there",
 "INCLUDE continues with the lines of the named file and then with the line after it, to the permitted nesting depth, whether or not the files end with a newline, from main files, include files and macros alike. Line numbers restart in the included file and resume afterwards; a missing file is reported as an error on the including line.",
 ["inputs", "histories"], "all trees of include files, positions and file endings",
 T + "one include test with one file.",
 ["macro.c", "crasm.c"], [("source stack", "macro.c:Xinclude,linegets")], "source[], sourcelevel, linenumber", "object bytes, listing, error lines")
prop("P13", "The location counter follows every statement",
 "The location counter advances by exactly the size of each statement, takes the value assigned to the star symbol, is made even or odd by ALIGN with at most one zero byte, and advances by DS's count filled with its byte; DUMMY sections advance it without generating code. Code before the first origin is an error.",
 ["inputs", "histories"], "all sequences of origins, reservations, alignments, section switches and data",
 T + "tests use a few origins; interactions depend on history.",
 ["crasm.c", "pseudos.c", "scode.c"], [("star label", "crasm.c:asmline; pseudos.c:Xequ"), ("DS, ALIGN, CODE, DUMMY", "pseudos.c")], "starlabel, pc, advance", "object bytes, listing addresses")
prop("P14", "Data directives emit the documented bytes in the processor's byte order",
 "DB, DW, DL and DDB emit one, two, four and two bytes per operand, in operand order, DW and DL in the selected processor's byte order and DDB in the opposite one; ASC emits the characters of its string with the documented escapes decoded. Malformed operands are reported.",
 ["inputs", "configurations"], "all operand lists, values and strings on all processors",
 T + "operand lists and values are unbounded.",
 ["pseudos.c", "scode.c"], [("DB/DW/DL/DDB", "pseudos.c:Xdc,stocke"), ("ASC", "pseudos.c:Xasc"), ("byte order", "scode.c:insert16,insert32")], "F_LOHI", "object bytes, error lines")
prop("P15", "6800/6801/6803 instructions are encoded as the processor requires",
 "Every mnemonic and addressing mode of the 6800 (and, when selected, of the 6801/6803) assembles to the opcode and operand bytes of the processor's instruction set, and combinations the processor does not have are rejected. 6801 instructions are unknown on a 6800.",
 ["inputs", "configurations"], "all mnemonics x addressing modes x operand values, on each processor of the family",
 T + "each instruction appears with at most a few operands; illegal combinations not at all.",
 ["cpu6800.c"], [("tables and encoders", "cpu6800.c:standard*,findmode,codemode,branch,single")], "", "object bytes, error lines")
prop("P16", "6500/6502/65C02 instructions are encoded as the processor requires",
 "Every mnemonic and addressing mode of the 6502 assembles to the opcode and operand bytes of the processor's instruction set, zero page forms being used when they exist and the operand is known and fits. Combinations the selected processor lacks (65C02 additions on a 6502, ROR on a 6500) are rejected.",
 ["inputs", "configurations"], "all mnemonics x addressing modes x operand values, on each processor of the family",
 T + "the illegal combinations and per-processor limits are not tested.",
 ["cpu6502.c"], [("tables and encoder", "cpu6502.c:standard,offsettable,addmodes")], "cpuflag", "object bytes, error lines")
prop("P17", "Z80 instructions are encoded as the processor requires",
 "Every documented Z80 instruction and operand combination, including IX/IY forms with displacement, assembles to the bytes of the processor's instruction set. Operand combinations that the processor does not have are rejected instead of being assembled to another instruction.",
 ["inputs"], "all mnemonics x operand pairs x operand values",
 T + "one reference listing covers the legal table at single operand values, no illegal pair.",
 ["cpuz80.c"], [("operand classes", "cpuz80.c:getreg"), ("encoders", "cpuz80.c:ld,arith,docode,...")], "indexflag, offsetflag, arg flags", "object bytes, error lines")
prop("P18", "Relative branches reach exactly -128..+127 and are encoded right",
 "A relative branch (6800, 6502, Z80 JR and DJNZ) encodes target minus the address of the next instruction as a signed byte, and a target outside -128..+127 of it is an error. This holds for backward and forward targets at every origin.",
 ["inputs"], "all branch mnemonics, distances and origins",
 T + "distances in the tests are whatever the sample programs contain; the limits are not hit.",
 ["cpu6800.c", "cpu6502.c", "cpuz80.c"], [("displacement", "branch/relbranch in each cpu*.c")], "pc", "object bytes, error lines")
prop("P19", "Each erroneous line is reported once, with its line number, and only those",
 "Every erroneous line is reported exactly once, with the number of its line in its file (for macro lines, of the call), in program order, even when the listing is off; lines that are correct are never reported. An erroneous line neither stops the assembly nor changes the meaning of other lines, except through the definitions or bytes it failed to provide.",
 ["inputs", "histories"], "all programs with any set of erroneous lines anywhere, in macros, includes and conditionals",
 T + "no test has an error.",
 ["crasm.c", "macro.c"], [("error recovery", "crasm.c:error, pass; macro.c loops with setjmp")], "errorjump, errnumber, linenumber", "stdout error lines")
prop("P20", "The listing shows every listed line with the bytes and address it produced",
 "With the listing on, each source line appears in program order with its line number, its text, and the address and bytes it generated (or the value it defined), and error and warning messages appear beside the line they concern. LIST, CLIST, MLIST and ILIST control exactly which lines of the file, of skipped branches, of macro expansions and of includes are shown, and are undone at the end of an include or macro as documented.",
 ["inputs", "histories"], "all programs and sequences of listing directives",
 T + "reference listings fix a few programs; listing state depends on the whole history.",
 ["output.c", "crasm.c", "macro.c", "pseudos.c"], [("line buffer", "output.c:outputline,outputbyte,outputaddr"), ("listing flags", "pseudos.c:Xlist..Xilist; macro.c")], "linebuffer, lpos, F_*LIST_ON, lineprefix", "stdout")
prop("P21", "Listing, warning and page options never change what is assembled",
 "The object file, the set of erroneous lines and the reported totals of errors and code bytes are the same whatever the options -l, -s and -x and the LIST, CLIST, MLIST, ILIST, PAGE, NAM and SKIP directives in the source. This also holds inside macros, includes and skipped branches.",
 ["inputs", "configurations"], "all programs x all option and listing-directive combinations",
 T + "a relation between runs, never compared by the tests.",
 ["crasm.c", "macro.c", "output.c"], [("status bits, flags", "crasm.c:asmline; macro.c:Xif,macrocall")], "asmflags", "object bytes, error lines under several option sets")
prop("P22", "The symbol table lists every user symbol once with its value and status",
 "The symbol table printed after a successful listing (or with -x) contains each global user symbol exactly once, in alphabetical order, with its kind and final value, marked when it was never used or was referenced before its definition. Keywords, local labels and the star symbol are not listed.",
 ["inputs", "histories"], "all sets of symbols, kinds, and definition/reference histories",
 T + "symbol flags depend on the order of all events of a program.",
 ["xref.c", "label.c"], [("table printer", "xref.c:printlabel,xref2"), ("usage flags", "label.c:findlabel,deflabel")], "label flags", "stdout symbol table")
prop("P23", "Letter case, blanks, comments and line ends carry no meaning",
 "Changing the case of letters outside strings, the amount and kind of blanks between fields and around operators and commas, adding or removing comments and blank lines, or the newline at the end of a file does not change the object code or the errors. Semicolons, commas and parentheses inside strings are ordinary characters, and unprintable characters are dropped with a warning.",
 ["inputs"], "all programs and all their lexical variants",
 T + "one spelling per program.",
 ["filter.c", "crasm.c", "parse.c", "macro.c"], [("pattern matcher", "filter.c:filter"), ("line splitting", "crasm.c:asmline"), ("reader", "macro.c:linegets")], "", "object bytes, error lines")
prop("P24", "Listing pages obey NAM, PAGE and SKIP",
 "With a page length set, each listing page starts with a header giving the title and consecutive page numbers, and holds exactly the page length in lines; a source line is never listed with more characters than the line length in one listing line, but continued on the next without losing a character other than blanks. PAGE without operand ends the page, SKIP inserts blank lines, and a page length of zero disables the division.",
 ["inputs", "histories"], "all line lengths, page dimensions, titles and sequences of listing events",
 T + "page position depends on the whole listing history.",
 ["output.c", "pseudos.c", "xref.c"], [("pagination", "output.c:outputraw,outputEOP"), ("wrapping", "output.c:outputcar,position"), ("directives", "pseudos.c:Xnam,Xpage,Xskip")], "ppos, lpos, plen, llen, pagenumber", "stdout")
prop("P25", "CPU and OUTPUT select vocabulary, byte order and object format",
 "CPU makes exactly the selected processor's mnemonics and registers available from its line on, with its byte order and default object format (Intel HEX for the Z80, Motorola S-records otherwise); OUTPUT overrides the format for the file. A second CPU, an unknown processor or format, and a processor instruction without CPU are errors, and a user symbol defined earlier keeps its meaning with a warning.",
 ["inputs", "configurations"], "all processors, positions of CPU/OUTPUT and symbols clashing with keywords",
 T + "each test selects one processor at the top.",
 ["pseudos.c", "label.c", "cpulist.c", "cpu6800.c", "cpu6502.c", "cpuz80.c"], [("selection", "pseudos.c:Xcpu,Xoutput; init*"), ("binding", "label.c:init_label_list")], "F_CPU_GV, F_LOHI, F_CODE_HEX", "object file, error lines")
prop("P26", "The command line selects input, output and reports",
 "Exactly one input file is required, -o names the only file written, -l suppresses the listing but not the errors and summary, -s suppresses warnings, -x forces the symbol table, and options combine in any order. Wrong usage prints the syntax and the processors known, an unreadable input a message; either exits with a non-zero status and writes no file; no other run writes anything but the named object file.",
 ["configurations"], "all argument vectors",
 T + "all tests use the same two argument forms.",
 ["crasm.c"], [("option scan", "crasm.c:main"), ("usage", "crasm.c:syntax,fatal")], "flags", "exit status, stdout, files")
prop("P27", "Truncated operands raise a warning, fitting ones do not",
 "An operand of DB or an 8-bit fill byte above 8 bits, an operand of DW or DDB above 16 bits, an 8-bit instruction operand between 256 and 65535 and a Z80 displacement outside -128..127 raise a warning (a 6800 index offset above 255 an error) on their line while their low bits are assembled; an operand that fits and is not negative raises none. Warnings never prevent code generation and are counted in the summary; -s suppresses them.",
 ["inputs", "configurations"], "all instructions and data directives x operand values around the limits",
 T + "no test triggers or checks a warning.",
 ["pseudos.c", "cpu6800.c", "cpu6502.c", "cpuz80.c", "crasm.c"], [("range tests", "stocke, codemode, standard, docode"), ("reporting", "crasm.c:warning")], "warnnumber", "stdout warning lines, object bytes")
prop("P28", "Assembly of any text terminates without crashing, with bounded nesting",
 "For every input text and set of include files the assembler ends normally, having reported errors, or with a fatal message and non-zero status when macros and includes nest deeper than the limit, a macro text ends inside an IF or the page is too narrow for the symbol table; it never crashes, loops or reads text that is not in the sources. The same input always gives the same output.",
 ["inputs", "histories"], "all texts: malformed lines, unbalanced structures, recursion, long lines and operand lists",
 T + "only well-formed programs are tested.",
 ["macro.c", "filter.c", "crasm.c", "parse.c", "operator.c", "output.c"], [("nesting bound", "macro.c:Xinclude,macrocall"), ("recovery", "crasm.c:error"), ("buffers", "filter.c, macro.c:linegets")], "sourcelevel", "exit status, stdout")
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
