------------------------------- MODULE Vocab -------------------------------
(***************************************************************************)
(* The words with a built-in meaning: pseudo-instructions, and for each     *)
(* part of a processor family its mnemonics and registers.                  *)
(*   t  "mnemo" or "regs";  kw  the statement kind;  mod  its opcode        *)
(*   parameter, or the register number;  v  2^number for registers          *)
(***************************************************************************)
EXTENDS Text, Words, Isa

VocabOf(tbl) ==                 \* tbl: << <<"name", "kind", parameter>>, ...>>
  LET word(e) == IF e[2] = "reg" THEN [t |-> "regs", v |-> WShl(W1, e[3]), mod |-> e[3], kw |-> ""]
                 ELSE [t |-> "mnemo", v |-> W0, mod |-> e[3], kw |-> e[2]]
  IN FoldLeft(LAMBDA acc, e : (Upper(T(e[1])) :> word(e)) @@ acc, <<>>, tbl)

PseudoVocab == VocabOf(<<
  <<"EQU", "equ", 0>>, <<"ASC", "asc", 0>>, <<"ALIGN", "align", 0>>, <<"CLIST", "clist", 0>>,
  <<"CODE", "code", 0>>, <<"CPU", "cpu", 0>>, <<"DB", "db", 0>>, <<"DDB", "ddb", 0>>,
  <<"DL", "dl", 0>>, <<"DW", "dw", 0>>, <<"DUMMY", "dummy", 0>>, <<"DS", "ds", 0>>,
  <<"ELSE", "else", 0>>, <<"ENDC", "endc", 0>>, <<"ENDM", "endm", 0>>, <<"EXITM", "exitm", 0>>,
  <<"FAIL", "fail", 0>>, <<"IF", "if", 0>>, <<"ILIST", "ilist", 0>>, <<"INCLUDE", "include", 0>>,
  <<"LIST", "list", 0>>, <<"MACRO", "macro", 0>>, <<"MLIST", "mlist", 0>>, <<"NAM", "nam", 0>>,
  <<"PAGE", "page", 0>>, <<"OUTPUT", "output", 0>>, <<"SKIP", "skip", 0>> >>)

PartVocab == TLCEval([p \in DOMAIN IsaTable |-> VocabOf(IsaTable[p])])

\* statements that take no label, that need one, and that stay active in skipped text
NoLabelKw == {"clist", "code", "cpu", "dummy", "else", "endc", "endm", "exitm", "fail", "if",
              "ilist", "include", "list", "mlist", "nam", "page", "output", "skip"}
LabelKw == {"equ", "macro"}
CondKw == {"if", "else", "endc"}
MacroKw == {"macro", "endm", "exitm"}

\* the processors: the vocabulary parts they have, byte order, default object format
CPUS == << [name |-> T("6800"), parts |-> <<"6800">>, lohi |-> FALSE, hex |-> FALSE, level |-> 0],
           [name |-> T("6801"), parts |-> <<"6800", "6801">>, lohi |-> FALSE, hex |-> FALSE, level |-> 0],
           [name |-> T("6803"), parts |-> <<"6800", "6801">>, lohi |-> FALSE, hex |-> FALSE, level |-> 0],
           [name |-> T("6500"), parts |-> <<"6502">>, lohi |-> TRUE, hex |-> FALSE, level |-> 0],
           [name |-> T("6502"), parts |-> <<"6502">>, lohi |-> TRUE, hex |-> FALSE, level |-> 1],
           [name |-> T("65C02"), parts |-> <<"6502", "65C02">>, lohi |-> TRUE, hex |-> FALSE, level |-> 2],
           [name |-> T("Z80"), parts |-> <<"Z80">>, lohi |-> TRUE, hex |-> TRUE, level |-> 0] >>
=============================================================================
