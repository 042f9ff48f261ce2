------------------------------- MODULE Themes -------------------------------
(***************************************************************************)
(* Small worlds: all programs made of at most so many pieces of text from   *)
(* an alphabet, between a beginning and an end.                             *)
(***************************************************************************)
EXTENDS Text

\* pre, post: text around what the author writes;  alpha: the pieces;  max: how many
\* (q: in the quick run, t: in the thorough one);  files: include files;  opts: of "oslx"
Theme(pre, alpha, post, q, t) ==
  [pre |-> pre, alpha |-> alpha, post |-> post, q |-> q, t |-> t, files |-> <<>>, opts |-> <<"o">>]
C6502 == " cpu 6502\n"
ALL16 == <<"", "o", "l", "s", "x", "ol", "os", "ox", "ls", "lx", "sx", "ols", "olx", "osx", "lsx", "olsx">>

Themes == [
  core |-> Theme(C6502 \o "* = $FFFE\n",
    <<" db 1\n", " ds 17,2\n", "* = * + 2\n", "* = $10\n", " dummy\n", " code\n", " dw 1,2\n", " align even\n", " nop\n", " fail\n", " include a\n", " m\n">>,
    "", 3, 4),
  records |-> Theme(" cpu Z80\n",
    <<"* = $FFF8\n", "* = $FFFFF4\n", "* = $12345678\n", "* = * + 1\n", " ds 15,1\n", " ds 16,2\n", " ds 17,3\n", " db 4\n", " output scode\n", " output hex\n", " dummy\n db 1\n code\n">>,
    "", 3, 5),
  symbols |-> Theme(C6502 \o "* = $1000\n",
    <<"Qa = 1\n", "qa = Qb\n", "Qa db 1\n", " dw qA\n", "Qb = Qa+1\n", "Qb\n", " dw Qb\n", "Qa macro\n db 9\n endm\n", "lda = 5\n">>,
    "", 4, 5),
  passes |-> Theme(C6502 \o "* = $FD\n",
    <<" lda Qa\n", "Qa db 1\n", "Qa = $10\n", " lda Qb,x\n", "Qb = *\n", "* = $FE\n", " ds Qa&3\n", "Qb = Qa\n", " if Qa\n nop\n endc\n">>,
    "", 4, 5),
  scopes |-> Theme(C6502 \o "M macro\n.a db 1\n dw .a\n endm\nN macro\n dw .a\n M\n dw .a\n endm\n* = $10\n",
    <<".a db 2\n", " dw .a\n", " code\n", " dummy\n", " M\n", " N\n", ".a = 5\n", ".b = .a\n">>,
    "", 4, 5),
  exprs |-> Theme("Qa = 6\n* = 8\n dl ",
    <<"7", "2", "+", "-", "*", "/", "<<", "&", "(", ")", "lo", "~", " ", "Qa", "'">>, "\n", 3, 5),
  consts |-> Theme("* = 8\n dl ",
    <<"0", "1", "9", "a", "f", "$", "%", "x", "h", "b", "q", "'", "\\", "n", "4294967295">>, "\n", 3, 5),
  conds |-> Theme(C6502 \o "* = 0\n",
    <<" if 0\n", " if 1\n", " else\n", " endc\n", " db 1\n", "Qa = 1\n", " if Qa > 0\n", " bogus\n">>,
    "", 4, 6),
  macros |-> Theme(C6502 \o "* = 0\n",
    <<"Qm macro\n", " endm\n", " exitm\n", " db \\1,\\#\n", " Qm 5\n", " Qm\n", " if \\1\n", " endc\n", " db 7\n">>,
    "", 4, 5),
  includes |-> [Theme(C6502 \o "M macro\n include b\n db 1\n endm\n* = 0\n",
    <<" include a\n", " include b\n", " include c\n", " db 2\n", " M\n", " if 0\n", " endc\n", " ilist on\n", " list off\n">>,
    "", 3, 5) EXCEPT !.files = << <<"a", " db 3\n include b\n db 4">>, <<"b", " list off\n db 5\n">> >>],
  nesting |-> [Theme(C6502 \o "M macro\n",
    <<" M\n", " N\n", " M \\1-1\n", " include a\n", " if \\1\n", " endc\n", " endm\n", "N macro\n", " db 1\n", " exitm\n", " N 2\n">>,
    " M 3\n", 3, 4) EXCEPT !.files = << <<"a", " M\n include a\n N">> >>],
  data |-> Theme(C6502 \o "* = 0\n",
    <<" db ", " dw ", " ddb ", " dl ", " asc ", "\n", "1", "$1234", ",", "'a\\n'", "-2", " ", "\"a'\"">>, "\n", 3, 5),
  branches |-> Theme(C6502 \o "* = $FF80\nQa\n",
    <<" ds 123\n", " ds 1\n", " ds 2\n", " bne Qa\n", " beq Qb\n", " bcc *+2\n", " bcs *-126\n">>, "Qb nop\n", 4, 6),
  errs |-> [Theme(C6502 \o "M macro\n bogus\n db 1\n lda (\n endm\n* = 0\n",
    <<" db 1\n", " bogus\n", " M\n", " include e\n", " list off\n", " if 0\n", " endc\n", " db 300\n", " else\n", "9x\n", " mlist on\n">>,
    "", 3, 4) EXCEPT !.files = << <<"e", " db 2\n db (\n db 3">> >>],
  listing |-> [Theme(C6502 \o " page 0,60\nM macro\n db 1,2\n if \\1\n nop\n endc\n endm\n* = 0\n",
    <<" list off\n", " list on\n", " mlist on\n", " clist off\n", " M 0\n", " if 0\n", " endc\n", "Qa = 5 ; c\n", " include i\n", " bogus\n", " ds 7,1\n", " ilist on\n">>,
    "", 3, 4) EXCEPT !.files = << <<"i", " db 3\n list off\n">> >>],
  options |-> [Theme(C6502 \o "M macro\n db 1\n endm\n* = 0\n",
    <<" list off\n", " page 0,70\n", " M\n", " skip 2\n", " db 300\n", " bogus\n">>,
    "", 2, 3) EXCEPT !.opts = ALL16],
  symtab |-> [Theme(C6502 \o " page 0,130\n* = 0\n",
    <<"Qa = 5\n", "qb db 1\n", " dw Qa\n", " dw Qb\n", ".c = 1\n", "Qc = 9{3}\n", "Qd = x\n", "Qe macro\n endm\n", " list off\n", " bogus\n">>,
    "", 3, 4) EXCEPT !.opts = <<"", "x", "lx", "l">>],
  lex |-> Theme(C6502 \o "* = 0\n",
    <<"Qa", " ", "\t", "=", "db", "DB", "1", ",", ";", "'", "\n">>, "\n", 4, 5),
  pages |-> Theme(C6502 \o " page 10,62\n nam T\n* = 0\n",
    <<" page\n", " skip 3\n", " skip 9\n", " db 1\n", " list off\n", " list on\n", " page 11,62\n", " nam U\n", " db 1 ; aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa bbbbbbb\n", " bogus\n">>,
    "", 3, 4),
  cpus |-> Theme("* = $12340\n",
    <<" cpu 6502\n", " cpu Z80\n", " cpu 6801\n", " output hex\n", " output scode\n", " nop\n", " dw $1234\n", "nop = 5\n", " lda #1\n", " ld a,1\n", " dw a\n">>,
    "", 3, 4),
  warns |-> Theme(C6502 \o "* = 0\n",
    <<" db ", " dw ", " ddb ", " lda #", " lda ", " ds 1,", "\n", "255", "256", "-1", "$10000", ",">>, "\n", 4, 5),
  garbage |-> Theme("",
    <<"(", ")", "'", "\\", ",", ";", "=", "*", " if 1", " macro", " endm", " ", "\n", "M", "1">>, "\n", 3, 4) ]
=============================================================================
