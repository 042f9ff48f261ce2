------------------------------- MODULE Crasm -------------------------------
(***************************************************************************)
(* The assembler as a state machine over source lines.                      *)
(*                                                                          *)
(* Two passes over the sources; in each, a line is fetched (from the file,  *)
(* include file or macro being read) and decoded, then its statement is     *)
(* executed.  After the second pass the results are reported.               *)
(*                                                                          *)
(* Case: the program and options of this behaviour (see MC modules)         *)
(*   files << [name, lines] >>  (the first one is the main file)            *)
(*   o, l, s, x: the command line options                                   *)
(***************************************************************************)
EXTENDS Instr

CONSTANT Case(_)         \* the cases
VARIABLES c, m          \* the number of the case, the state of the assembler

MAXDEPTH == 10          \* sources open at a time

(******************************** sources ***********************************)
FileFrame(n, mm) ==             \* the n-th file of the case
  [k |-> "file", file |-> n, i |-> 0, ended |-> FALSE,
   ln |-> mm.ln, pre |-> mm.pre, list |-> mm.fl.list]
MacroFrame(body, args, mm) ==
  [k |-> "macro", lines |-> body, i |-> 0, ended |-> FALSE,
   ln |-> mm.ln, pre |-> mm.pre, list |-> mm.fl.list] @@ [args |-> args]
Depth(mm) == Len(mm.src) - 1
Top(mm) == mm.src[Len(mm.src)]
Exhausted(mm) == mm.src[1].ended /\ Depth(mm) = 0

MAXLINE == 249
Visible(ch) == ch = 9 \/ Printable(ch) \/ ch >= 128
\* leave the include files that are used up
RECURSIVE Leave(_)
Leave(mm) ==
  IF Depth(mm) > 0 /\ Top(mm).ended
  THEN LET f == Top(mm) IN
       Leave([mm EXCEPT !.src = Front(@), !.ln = f.ln, !.pre = f.pre, !.fl.list = f.list])
  ELSE mm

ReadFile(m0) ==
  LET f == Top(m0)
      lines == Case(c).files[f.file].lines
      raw == IF f.i < Len(lines) THEN lines[f.i + 1] ELSE <<>>
      long == Len(raw) > MAXLINE
      part == IF long THEN Upto(raw, MAXLINE) ELSE raw
      text == IF \A i \in 1..Len(part) : Visible(part[i]) THEN part ELSE SelectSeq(part, Visible)
      m1 == [m0 EXCEPT !.src[Len(m0.src)] = [f EXCEPT !.i = @ + 1, !.ended = f.i + 1 >= Len(lines)],
                       !.ln = @ + 1, !.line = text]
      m2 == WarnIf(m1, text /= part)
  IN IF long THEN Err([m2 EXCEPT !.adv = 0]) ELSE m2

\* a macro line with its arguments
BACKSL == 92
MAXMACROLINE == 240
RECURSIVE Expand(_, _, _, _)
Expand(s, i, args, out) ==      \* args: the arguments, then the whole operand
  IF i > Len(s) THEN <<out, FALSE>>
  ELSE IF Len(out) > MAXMACROLINE THEN <<out, TRUE>>
  ELSE IF s[i] /= BACKSL THEN Expand(s, i + 1, args, Append(out, s[i]))
  ELSE LET d == IF i < Len(s) THEN s[i + 1] ELSE 0
           n == Len(args) - 1
           Put(a) == IF Len(out) + Len(a) > MAXMACROLINE + 1
                     THEN <<out \o Upto(a, MAXMACROLINE + 1 - Len(out)), TRUE>>
                     ELSE Expand(s, i + 2, args, out \o a)
       IN IF d = 35 THEN Expand(s, i + 2, args, Append(out, 48 + n))
          ELSE IF d = 42 THEN Put(args[n + 1])
          ELSE IF d >= 49 /\ d <= 57 THEN Put(IF d - 48 <= n THEN args[d - 48] ELSE <<>>)
          ELSE Expand(s, i + 1, args, Append(out, BACKSL))
ReadMacro(m0) ==
  LET f == Top(m0) IN
  IF f.i >= Len(f.lines) THEN Fatal(m0, "internal macrocall error")
  ELSE LET s == f.lines[f.i + 1]
           e == IF Has(s, BACKSL) \/ Len(s) > MAXMACROLINE THEN Expand(s, 1, f.args, <<>>) ELSE <<s, FALSE>>
       IN WarnIf([m0 EXCEPT !.src[Len(m0.src)].i = @ + 1, !.line = e[1]], e[2])

ReadLine(m0) == LET l == Leave(m0) IN IF Top(l).k = "file" THEN ReadFile(l) ELSE ReadMacro(l)

(*************************** decoding a statement ***************************)
P_REMARK == T("_?_;?")
P_EQU == T("?_=_?")
P_FIELD == T("? _?")
K_EQU == T("EQU")
K_MACRO == T("MACRO")
NoBlank(s) == \A i \in 1..Len(s) : ~Blank(s[i])

\* the instruction, pseudo-instruction or macro named s: its keyword, "" if none
Word(mm, s) ==
  IF s = <<>> THEN [kw |-> "", mod |-> 0, key |-> <<>>, body |-> <<>>]
  ELSE LET key == Key(s, mm.seg)
           y == Lookup(mm, key)[2]
       IN IF ~Lookup(mm, key)[1] \/ y.u \/ y.t \notin {"mnemo", "macro"}
          THEN [kw |-> "", mod |-> 0, key |-> <<>>, body |-> <<>>]
          ELSE [kw |-> IF y.t = "macro" THEN "call" ELSE y.kw, mod |-> y.mod, key |-> key, body |-> y.body]

\* d: label, word, operand (empty: none);  d.bad: malformed label
Stmt(lab, w, op, bad) == [label |-> lab, w |-> w, op |-> op, bad |-> bad]
Decode(mm, t) ==
  LET e == Match(t, P_EQU) IN
  IF e.ok /\ NoBlank(e.cap[1])
  THEN [label |-> e.cap[1], w |-> Word(mm, K_EQU), op |-> e.cap[2], bad |-> ~GoodName(e.cap[1]),
        lab |-> TRUE, alone |-> FALSE]
  ELSE LET f1 == Match(t, P_FIELD)
           two == f1.ok /\ f1.cap[1] /= <<>> /\ f1.cap[2] /= <<>>
       IN IF ~two
          THEN [label |-> <<>>, w |-> Word(mm, t), op |-> <<>>, bad |-> FALSE, lab |-> FALSE, alone |-> TRUE]
          ELSE LET w1 == Word(mm, f1.cap[1]) IN
               IF w1.kw /= ""
               THEN [label |-> <<>>, w |-> w1, op |-> f1.cap[2], bad |-> FALSE, lab |-> FALSE, alone |-> FALSE]
               ELSE LET f2 == Match(f1.cap[2], P_FIELD)
                        three == f2.ok /\ f2.cap[1] /= <<>> /\ f2.cap[2] /= <<>>
                    IN [label |-> f1.cap[1], lab |-> TRUE, alone |-> FALSE, bad |-> ~GoodName(f1.cap[1]),
                        w |-> Word(mm, IF three THEN f2.cap[1] ELSE f1.cap[2]),
                        op |-> IF three THEN f2.cap[2] ELSE <<>>]

(************************* the ends of a statement **************************)
\* status: m.st2 statements are executed, m.st1 lines are listed
List(mm) == IF mm.st1 THEN OutLine(mm) ELSE mm

\* A statement may end its context: flag "" (no), "else", "endc", "endm", "exitm".
\* m.ctl: the enclosing IFs, macro calls and the macro being defined, innermost last.
Innermost(mm) == mm.ctl[Len(mm.ctl)]
SetStatus(mm) ==        \* for the next line, from the innermost context
  IF mm.ctl = <<>> THEN [mm EXCEPT !.st1 = TRUE, !.st2 = TRUE]
  ELSE [mm EXCEPT !.st1 = Innermost(mm).in1, !.st2 = Innermost(mm).in2]
\* the status of the statement that opened the innermost context
Outer(mm) == [mm EXCEPT !.st1 = Innermost(mm).st1, !.st2 = Innermost(mm).st2, !.ctl = Front(@)]

EnterIf(mm, b) ==
  LET my1 == b \/ mm.fl.iflist
      m1 == IF mm.fl.iflist THEN List(mm) ELSE mm
  IN IF mm.err THEN mm
     ELSE [m1 EXCEPT !.pre = IF mm.st2 /\ ~b THEN 67 ELSE @,
            !.ctl = Append(@, [k |-> "if", st1 |-> mm.st1, st2 |-> mm.st2, b |-> b, part |-> 1, pre |-> mm.pre,
                               in1 |-> mm.st1 /\ my1, in2 |-> mm.st2 /\ b])]

RECURSIVE Drop(_, _)
Drop(mm, depth) == IF Depth(mm) < depth THEN mm ELSE Drop([mm EXCEPT !.src = Front(@)], depth)

RECURSIVE EndStmt(_, _)
EndStmt(mm, flag) ==
  IF mm.err \/ flag = "" THEN mm
  ELSE IF mm.ctl = <<>> THEN Err(mm)                 \* nothing to end
  ELSE LET x == Innermost(mm) IN
  CASE x.k = "if" ->
         LET o == [Outer(mm) EXCEPT !.pre = x.pre]
             l == IF o.fl.iflist THEN List(o) ELSE o
             b == ~x.b
         IN IF flag = "endm" \/ (flag = "else" /\ x.part = 2) THEN Err(o)
            ELSE IF flag = "else"
            THEN [l EXCEPT !.pre = IF x.st2 /\ ~b THEN 67 ELSE @,
                   !.ctl = Append(@, [x EXCEPT !.part = 2, !.in1 = x.st1 /\ (b \/ l.fl.iflist), !.in2 = x.st2 /\ b])]
            ELSE IF flag = "endc" THEN l
            ELSE EndStmt(l, "exitm")
    [] x.k = "call" ->
         LET f == mm.src[x.depth + 1]
             o == [Drop(Outer(mm), x.depth) EXCEPT !.mlev = @ - 1, !.ln = f.ln, !.pre = f.pre, !.fl.list = f.list,
                                                   !.seg = x.seg]
         IN IF flag \notin {"endm", "exitm"} THEN Err(o)
            ELSE IF x.in1 THEN o
            ELSE List([o EXCEPT !.line = x.line])

(****************************** the statements ******************************)
\* a label on a statement: the address of the statement
DefineHere(mm) ==
  IF mm.err \/ ~mm.d.lab \/ ~mm.st2 THEN mm
  ELSE IF mm.d.label = STAR THEN Err(mm)
  ELSE IF ~mm.fl.orggv THEN Err(mm)
  ELSE LET k == Define(mm, Key(mm.d.label, mm.seg), Abs(mm.sym[STAR].v), TRUE) IN
       IF ~k.err /\ ~k.fl.code /\ (k.mlev = 0 \/ k.fl.mlist) /\ k.lpos = 0 /\ k.pass = 2
       THEN OutAddr(Pad(k, 2), k.sym[STAR].v) ELSE k

\* the checks on the label, and its definition
Labelled(mm, kw) ==
  LET m0 == ErrIf(mm, mm.d.bad /\ mm.st2)
      m1 == IF kw \in NoLabelKw THEN ErrIf(m0, mm.d.lab /\ mm.st2) ELSE m0
  IN IF kw \in LabelKw THEN ErrIf(m1, ~mm.d.lab /\ (mm.st2 \/ kw = "macro"))
     ELSE DefineHere(m1)

\* a pseudo-instruction or instruction is complete: its bytes count, it is listed
Done(mm) ==
  IF mm.err THEN mm
  ELSE List(IF mm.adv = 0 THEN mm ELSE [mm EXCEPT !.sym[STAR].v = WAddInt(@, mm.adv)])

Equate(mm) ==
  LET k == Operand(mm, mm.d.op)
      o == IF ~k.err /\ k.r.t = "abs" /\ (k.mlev = 0 \/ k.fl.mlist) /\ k.lpos = 0 /\ k.pass = 2
           THEN OutAddr(Pad(k, 2), k.r.v) ELSE k
  IN Define(o, Key(mm.d.label, mm.seg), k.r, FALSE)

Data(mm, kw, s) ==
  LET k == Numerical(mm, s)
      v == k.r.v
      e == CASE kw = "db" -> Emit(k, Byte(v, 0))
             [] kw = "dw" -> Emit16(k, v)
             [] kw = "dl" -> Emit32(k, v)
             [] kw = "ddb" -> [Emit16([k EXCEPT !.fl.lohi = ~@], v) EXCEPT !.fl.lohi = k.fl.lohi]
  IN IF k.err THEN k
     ELSE WarnIf(e, CASE kw = "db" -> v[1] >= 256 \/ v[2] /= 0
                      [] kw \in {"dw", "ddb"} -> v[2] /= 0
                      [] OTHER -> FALSE)
RECURSIVE DataList(_, _, _)
DataList(mm, kw, s) ==
  LET f == Match(s, COMMA) IN
  IF mm.err THEN mm
  ELSE IF f.ok THEN DataList(Data(mm, kw, f.cap[1]), kw, f.cap[2])
  ELSE Data(mm, kw, s)

\* n times the byte b: many of them are taken together where nothing can happen in between
AllOf(b, n) == [i \in 1..n |-> b]
Quietly(mm) == mm.pass = 1 \/ (mm.adv > 20 /\ mm.lpos > NMARGIN - 3)     \* the listing shows no more bytes
Skim(mm, n) == [mm EXCEPT !.adv = @ + n, !.pc = WAddInt(@, n)]
Block(mm, b, n) ==              \* n bytes of code, in a record of their own
  LET f == IF mm.opened THEN [Flush(mm) EXCEPT !.raw.bytes = AllOf(b, n)] ELSE mm
  IN Skim([f EXCEPT !.codelen = @ + n, !.image = @ \o [i \in 1..n |-> <<WAddInt(mm.pc, i - 1), b>>]], n)
RECURSIVE EmitN(_, _, _)
EmitN(mm, b, n) ==
  IF n = 0 \/ mm.err THEN mm
  ELSE IF ~mm.fl.code /\ mm.adv > 0 THEN Skim(mm, n)
  ELSE IF mm.fl.code /\ n >= 16 /\ Quietly(mm) /\ mm.adv > 0 /\ ~mm.opened THEN EmitN(Block(mm, b, 16), b, n - 16)
  ELSE IF mm.fl.code /\ n >= 16 /\ Quietly(mm) /\ mm.opened /\ Len(mm.raw.bytes) = 16
          /\ WAddInt(mm.raw.start, 16) = mm.pc
       THEN EmitN(Block(mm, b, 16), b, n - 16)
  ELSE EmitN(Emit(mm, b), b, n - 1)
Space(mm) ==
  LET f == Match(mm.d.op, COMMA)
      a == IF f.ok THEN Numerical(mm, f.cap[2]) ELSE mm
      init == IF f.ok THEN a.r.v ELSE W0
      a2 == WarnIf(a, f.ok /\ (init[1] >= 256 \/ init[2] /= 0))
      n == Numerical(a2, IF f.ok THEN f.cap[1] ELSE mm.d.op)
  IN IF n.err THEN n ELSE IF Negative(n.r.v) THEN Err(n)
     ELSE EmitN(n, Byte(init, 0), Val(n.r.v))

RECURSIVE Chars(_, _)
Chars(mm, i) ==                 \* the characters of d.op from i on
  LET s == mm.d.op IN
  IF mm.err THEN mm
  ELSE IF i > Len(s) THEN Err(mm)
  ELSE IF s[i] = s[1] THEN ErrIf(mm, i < Len(s))
  ELSE IF s[i] /= BACKSL THEN Chars(Emit(mm, s[i]), i + 1)
  ELSE LET e == IF i < Len(s) THEN Escape(s[i + 1]) ELSE -1
       IN IF e < 0 THEN Err(mm) ELSE Chars(Emit(mm, e), i + 2)
Ascii(mm) == IF mm.d.op = <<>> \/ mm.d.op[1] \notin {SQ, DQ} THEN Err(mm) ELSE Chars(mm, 2)

P_ON == T("_ON_")
P_OFF == T("_OFF_")
OnOff(mm, on, off) ==
  IF Match(mm.d.op, P_ON).ok THEN on ELSE IF Match(mm.d.op, P_OFF).ok THEN off ELSE Err(mm)

Title(mm) ==
  IF mm.d.op = <<>> THEN Err(mm)
  ELSE LET w == WarnIf(mm, mm.titled) IN
       IF Len(mm.d.op) > 30 THEN Err(w)
       ELSE [w EXCEPT !.title = mm.d.op, !.titled = mm.pass = 2]
Page(mm) ==
  IF mm.d.op = <<>> THEN EndPage(mm)
  ELSE LET f == Match(mm.d.op, COMMA)
           a == Numerical(mm, f.cap[1])
           b == Numerical(a, f.cap[2])
           p == Low32(a.r.v)
           l == Low32(b.r.v)
           w == WarnIf(b, b.paged)
       IN IF ~f.ok THEN Err(mm)
          ELSE IF a.err THEN a ELSE IF b.err THEN b
          ELSE IF p > 200 \/ (p /= 0 /\ p < 10) \/ l < 39 \/ l > 999 THEN Err(w)
          ELSE [w EXCEPT !.plen = p, !.llen = l, !.paged = w.pass = 2]
Skip(mm) ==
  LET k == Numerical(mm, mm.d.op) IN
  IF k.err THEN k
  ELSE LET n == Low32(k.r.v) IN IF n > 100 \/ n < 0 THEN Warn(k) ELSE EndLines(k, n)
P_HEX == T("_HEX_")
P_SCODE == T("_SCODE_")
Output(mm) ==
  LET h == Match(mm.d.op, P_HEX).ok
      k == [mm EXCEPT !.fl.hex = h]
  IN ErrIf(k, ~h /\ ~Match(mm.d.op, P_SCODE).ok)
P_EVEN == T("_EVEN_")
P_ODD == T("_ODD_")
Odd(w) == w[1] % 2 = 1
Align(mm) ==
  IF Match(mm.d.op, P_EVEN).ok THEN (IF Odd(mm.pc) THEN Emit(mm, 0) ELSE mm)
  ELSE IF Match(mm.d.op, P_ODD).ok THEN (IF Odd(mm.pc) THEN mm ELSE Emit(mm, 0))
  ELSE Err(mm)

RECURSIVE Warns(_, _)
Warns(mm, n) == IF n = 0 THEN mm ELSE Warns(Warn(mm), n - 1)
Bind(mm, part) ==       \* make the words of part known; user symbols of the same name stay
  LET earlier(k) == \/ k \in DOMAIN mm.sym
                    \/ \E i \in 1..Len(mm.parts) : /\ k \in DOMAIN PartVocab[mm.parts[i]]
                                                   /\ \A j \in 1..i : mm.parts[j] /= part
                    \/ part \in mm.bound
      hidden == Cardinality({k \in DOMAIN PartVocab[part] : earlier(k)})
      have == \E i \in 1..Len(mm.parts) : mm.parts[i] = part
  IN Warns([mm EXCEPT !.parts = IF have THEN @ ELSE Append(@, part), !.bound = @ \cup {part}], hidden)
Cpu(mm) ==
  LET name == Upper(mm.d.op)
      i == First([k \in 1..Len(CPUS) |-> CPUS[k].name = name])
  IN IF mm.d.op = <<>> \/ mm.fl.cpugv \/ i = 0 THEN Err(mm)
     ELSE FoldLeft(Bind, [mm EXCEPT !.fl.cpugv = mm.pass = 2, !.fl.a16 = TRUE, !.fl.lohi = CPUS[i].lohi,
                                    !.fl.hex = @ \/ CPUS[i].hex, !.level = CPUS[i].level], CPUS[i].parts)

NewScope(mm, code) ==
  IF mm.d.op /= <<>> THEN Err(mm)
  ELSE [mm EXCEPT !.this = @ + 1, !.seg = mm.this + 1, !.fl.code = code]

Include(mm) ==
  LET fs == Case(c).files
      i == First([k \in 1..Len(fs) |-> fs[k].name = mm.d.op])
  IN IF mm.d.op = <<>> \/ i = 0 THEN Err(mm)
     ELSE IF Len(mm.src) >= MAXDEPTH THEN Fatal(mm, "too many nested INCLUDEs and MACROs")
     ELSE LET o == IF mm.fl.list THEN OutLine(mm) ELSE mm IN
          [o EXCEPT !.src = Append(@, FileFrame(i, mm)), !.ln = 0,
                    !.fl.list = @ /\ mm.fl.ilist]

\* the comparison of an IF
Cmp(txt, test) == [p |-> T(txt), test |-> test]
CMPS == << Cmp("?_>=_?", "ge"), Cmp("?_<=_?", "le"), Cmp("?_==_?", "eq"), Cmp("?_!=_?", "ne"),
           Cmp("?_=_?", "eq"), Cmp("?_<>_?", "ne"), Cmp("?_<_?", "lt"), Cmp("?_>_?", "gt") >>
CMPCH == {60, 61, 62}
\* << and >> are shifts, not comparisons: they are hidden while one is looked for
RECURSIVE HideShifts(_)
HideShifts(s) ==
  IF Len(s) < 2 THEN s
  ELSE IF s[1] \in {60, 62} /\ s[2] = s[1] THEN <<46, 46>> \o HideShifts(SubSeq(s, 3, Len(s)))
  ELSE <<s[1]>> \o HideShifts(Tail(s))
Unknown(r) == r.u /\ r.f
Condition(mm) ==                \* m.b: is it true
  LET s == mm.d.op
      h == HideShifts(s)
      i == IF HasAny(h, CMPCH) THEN First([k \in 1..8 |-> Match(h, CMPS[k].p).ok]) ELSE 0
      has == i /= 0
      cap == Match(h, CMPS[i].p).cap
      a == Operand(mm, IF has THEN SubSeq(s, 1, Len(cap[1])) ELSE s)
      b == IF has THEN Operand(a, SubSeq(s, Len(s) - Len(cap[2]) + 1, Len(s))) ELSE [a EXCEPT !.r = Abs(W0)]
      x == a.r
      y == b.r
      test == IF has THEN CMPS[i].test ELSE "ne"
      same == x.mod = y.mod /\ x.v = y.v
      ordered == test \in {"lt", "gt", "le", "ge"}
  IN IF s = <<>> THEN [mm EXCEPT !.b = FALSE]
     ELSE IF a.err THEN a ELSE IF b.err THEN b
     ELSE IF Unknown(x) \/ Unknown(y) \/ x.t /= y.t \/ (ordered /\ x.t /= "abs") THEN Err(b)
     ELSE [b EXCEPT !.b = CASE test = "eq" -> same [] test = "ne" -> ~same
                            [] test = "lt" -> WLess(x.v, y.v) [] test = "gt" -> WLess(y.v, x.v)
                            [] test = "le" -> WLess(x.v, y.v) \/ same [] test = "ge" -> WLess(y.v, x.v) \/ same]
If(mm) == IF ~mm.st2 THEN EnterIf(mm, FALSE)
          ELSE LET k == Condition(mm) IN IF k.err THEN k ELSE EnterIf(k, k.b)

RECURSIVE SplitArgs(_, _)
SplitArgs(s, acc) ==            \* <<too many, arguments>>
  IF s = <<>> THEN <<FALSE, acc>>
  ELSE IF Len(acc) > 8 THEN <<TRUE, acc>>
  ELSE LET f == Match(s, COMMA) IN
       IF f.ok THEN SplitArgs(f.cap[2], Append(acc, f.cap[1])) ELSE <<FALSE, Append(acc, s)>>
Call(mm) ==
  LET w == mm.d.w
      args == SplitArgs(mm.d.op, <<>>)
      used == IF w.key \in DOMAIN mm.sym THEN [mm EXCEPT !.sym[w.key].used = TRUE] ELSE mm
      o == IF mm.fl.mlist THEN List(used) ELSE used
      fr == MacroFrame(w.body, Append(args[2], mm.d.op), mm)
  IN IF Len(mm.d.op) >= 5 /\ Upto(mm.d.op, 5) = K_MACRO /\ mm.d.lab THEN Err(mm)
     ELSE IF ~mm.st2 THEN List(mm)
     ELSE IF Len(mm.src) >= MAXDEPTH THEN Fatal(used, "too many nested INCLUDEs and MACROs")
     ELSE IF args[1] THEN Err(used)
     ELSE [o EXCEPT !.pre = 77, !.src = Append(@, fr), !.mlev = @ + 1, !.this = @ + 1, !.seg = mm.this + 1,
            !.ctl = Append(@, [k |-> "call", st1 |-> mm.st1, st2 |-> mm.st2, depth |-> Len(mm.src), seg |-> mm.seg,
                               line |-> mm.line, in1 |-> mm.st1 /\ mm.fl.mlist, in2 |-> mm.st2])]

MacroDef(mm) ==
  LET k == ErrIf(ErrIf(mm, mm.d.op /= <<>>), mm.mlev > 0)
      l == List(k)
      key == Key(mm.d.label, mm.seg)
      x == IF mm.st2 THEN Define(l, key, [Abs(W0) EXCEPT !.t = "macro"], FALSE) ELSE l
  IN IF x.err THEN x
     ELSE [x EXCEPT !.ctl = Append(@, [k |-> "def", st1 |-> mm.st1, st2 |-> mm.st2, key |-> key, body |-> <<>>,
                                       in1 |-> mm.st1, in2 |-> mm.st2])]
P_BODY == T("?_;?")
P_ENDM == T("_ENDM_")
P_ENDM2 == T("_ENDM ?")
P_ENDM3 == T("_? _ENDM_")
P_ENDM4 == T("_? _ENDM ?")
HasEndm(s) == Match(s, P_ENDM).ok \/ Match(s, P_ENDM2).ok \/ Match(s, P_ENDM3).ok \/ Match(s, P_ENDM4).ok
\* one line of a macro being defined
Record(mm) ==
  LET x == Innermost(mm)
      f == Match(mm.line, P_BODY)
      s == IF f.ok THEN f.cap[1] ELSE mm.line
      \* a malformed ENDM ends the body all the same
      body == IF x.st2 THEN Append(x.body, IF HasEndm(s) /\ ~Match(s, P_ENDM).ok THEN T("ENDM") ELSE s) ELSE x.body
      l == List(mm)
      o == [Outer(l) EXCEPT !.sym = IF x.st2 THEN [@ EXCEPT ![x.key].body = body] ELSE @]
  IN IF ~HasEndm(s) THEN [l EXCEPT !.ctl[Len(mm.ctl)].body = body]
     ELSE ErrIf(o, ~Match(s, P_ENDM).ok)

\* ENDM and EXITM end a macro only when executed in one
EndOrExit(mm, flag) ==
  LET k == ErrIf(mm, mm.d.op /= <<>>)
      l == IF mm.mlev = 0 THEN List(k) ELSE k
  IN EndStmt(l, IF mm.mlev > 0 /\ mm.st2 THEN flag ELSE "")

(****************************** the transitions *****************************)
FreshSym(sym) == IF STAR \in DOMAIN sym
                 THEN [sym EXCEPT ![STAR].u = TRUE, ![STAR].f = FALSE, ![STAR].nr = FALSE, ![STAR].used = TRUE]
                 ELSE (STAR :> [NewSym EXCEPT !.f = FALSE, !.nr = FALSE, !.used = TRUE]) @@ sym
StartPass(mm, n) ==
  SetStatus([mm EXCEPT !.pass = n, !.fl.code = TRUE, !.fl.list = @ \/ ~mm.fl.nolist, !.fl.mlist = FALSE,
     !.fl.iflist = TRUE, !.mlev = 0, !.this = 0, !.seg = 0, !.ln = 0, !.pre = 0, !.nerr = 0, !.nwarn = 0,
     !.codelen = 0, !.image = <<>>, !.sym = FreshSym(@), !.at = "fetch", !.again = FALSE,
     !.src = <<FileFrame(1, mm)>>])
Blank0 ==
  [pass |-> 0, at |-> "fetch", src |-> <<>>, ctl |-> <<>>, line |-> <<>>, ln |-> 0, pre |-> 0, mlev |-> 0,
   seg |-> 0, this |-> 0, sym |-> <<>>, parts |-> <<>>, bound |-> {}, level |-> 0, pc |-> W0, fl |-> NoFlags,
   adv |-> 0, raw |-> NoRaw, ext |-> 0, recs |-> <<>>, opened |-> FALSE, codelen |-> 0, image |-> <<>>,
   nerr |-> 0, nwarn |-> 0, lb |-> <<>>, prev |-> <<>>, lpos |-> 0, lastoff |-> 0, mypc |-> W0, ppos |-> 0,
   page |-> 0, title |-> <<>>, plen |-> 66, llen |-> 76, titled |-> FALSE, paged |-> FALSE, rows |-> <<>>,
   events |-> <<>>, err |-> FALSE, fatal |-> "", again |-> FALSE, st1 |-> TRUE, st2 |-> TRUE, b |-> FALSE,
   r |-> Abs(W0), z |-> NoZ, x |-> Z("none", 0), d |-> [kw |-> "", lab |-> FALSE], first |-> <<>>]

\* after a statement: count its error; the next line comes from the innermost context
After(mm) ==
  IF mm.fatal /= "" THEN [mm EXCEPT !.at = "stop"]
  ELSE SetStatus([mm EXCEPT !.nerr = IF mm.err THEN @ + 1 ELSE @, !.err = FALSE, !.again = mm.err /\ mm.ctl = <<>>,
                            !.at = "fetch"])

InDef == m.ctl /= <<>> /\ Innermost(m).k = "def"
EndOfPass == m.ctl = <<>> /\ Exhausted(m) /\ ~m.again
EndOfText(mm) == Exhausted(mm) /\ mm.line = <<>> /\ mm.ctl /= <<>> /\ Innermost(mm).k /= "call"

\* Fetch: read the next line and see what statement it is
P_ANY == T("?")
Prepare(m0) ==
  LET org == ~m0.sym[STAR].u
      m1 == [m0 EXCEPT !.adv = 0, !.fl.orggv = org]
      m2 == IF org THEN SetPc(m1, m0.sym[STAR].v) ELSE m1
      rem == IF Has(m2.line, 59) THEN Match(m2.line, P_REMARK) ELSE NoMatch
      t == IF rem.ok THEN rem.cap[1] ELSE Trim(m2.line)
      m3 == IF rem.ok THEN m2 ELSE [m2 EXCEPT !.line = TrimR(@)]
      d == Decode(m3, t)
      flush == m2.line /= <<>> /\ ~Blank(m2.line[1])
      kw == IF t = <<>> THEN "blank"
            ELSE IF d.w.kw = "" /\ d.bad /\ m3.st2 THEN "badlabel"
            ELSE IF d.w.kw = "" /\ ~m3.st2 THEN "blank"
            ELSE IF d.w.kw = "" /\ d.alone /\ flush THEN "label"
            ELSE IF d.w.kw = "" THEN "unknown"
            ELSE d.w.kw
  IN [m3 EXCEPT !.at = "exec",
                !.d = d @@ [kw |-> kw, text |-> t]]
FetchLine ==
  LET r == ReadLine(m) IN
  IF r.err THEN After(r)
  ELSE IF EndOfText(r) THEN After(Err(Outer(r)))
  ELSE IF InDef THEN After(Record(r))
  ELSE Prepare(r)
Fetch == m.at = "fetch" /\ ~EndOfPass /\ m' = FetchLine

Is(kw) == m.at = "exec" /\ m.d.kw = kw
L(kw) == Labelled(m, kw)
Do(kw, effect(_)) == Is(kw) /\ m' = After(LET k == L(kw) IN IF k.err THEN k ELSE Done(IF m.st2 THEN effect(k) ELSE k))
Step(kw, effect(_)) == Is(kw) /\ m' = After(LET k == L(kw) IN IF k.err THEN k ELSE effect(k))

BlankLine == Is("blank") /\ m' = After(List(m))
BadLabel == Is("badlabel") /\ m' = After(Err(m))
Unknown_ == Is("unknown") /\ m' = After(Err(m))
LabelLine ==
  Is("label") /\
  m' = After(LET n == m.d.text
                 k == [m EXCEPT !.d.lab = TRUE, !.d.label = n]
             IN IF ~GoodName(n) THEN Err(m) ELSE List(DefineHere(k)))
DoIf == Step("if", If)
DoElse == Step("else", LAMBDA k : EndStmt(ErrIf(k, k.d.op /= <<>>), "else"))
DoEndc == Step("endc", LAMBDA k : EndStmt(ErrIf(k, k.d.op /= <<>>), "endc"))
DoEndm == Step("endm", LAMBDA k : EndOrExit(k, "endm"))
DoExitm == Step("exitm", LAMBDA k : EndOrExit(k, "exitm"))
DoMacro == Step("macro", MacroDef)
DoCall == Step("call", Call)
DoEquate == Do("equ", Equate)
DoData == \E kw \in {"db", "dw", "dl", "ddb"} : Do(kw, LAMBDA k : DataList(k, kw, k.d.op))
DoSpace == Do("ds", Space)
DoAscii == Do("asc", Ascii)
DoAlign == Do("align", Align)
DoSection == \/ Do("code", LAMBDA k : NewScope(k, TRUE)) \/ Do("dummy", LAMBDA k : NewScope(k, FALSE))
DoCpu == Do("cpu", Cpu)
DoOutput == Do("output", Output)
DoInclude == Do("include", Include)
DoListing ==
  \/ Do("list", LAMBDA k : OnOff(k, [k EXCEPT !.fl.list = @ \/ ~k.fl.nolist], [k EXCEPT !.fl.list = FALSE]))
  \/ Do("mlist", LAMBDA k : OnOff(k, [k EXCEPT !.fl.mlist = TRUE], [k EXCEPT !.fl.mlist = FALSE]))
  \/ Do("clist", LAMBDA k : OnOff(k, [k EXCEPT !.fl.iflist = TRUE], [k EXCEPT !.fl.iflist = FALSE]))
  \/ Do("ilist", LAMBDA k : OnOff(k, [k EXCEPT !.fl.ilist = TRUE], [k EXCEPT !.fl.ilist = FALSE]))
DoPage == Do("nam", Title) \/ Do("page", Page) \/ Do("skip", Skip)
DoFail == Do("fail", Err)
DoInstruction ==
  /\ m.at = "exec" /\ m.d.kw \in InstrKw
  /\ Do(m.d.kw, LAMBDA k : Instruction(k, k.d.w.kw, k.d.w.mod, k.d.op))

\* between the passes nothing is defined any more, except that a symbol which
\* was used before its definition stays marked
Undefine(sym) == [k \in DOMAIN sym |-> [sym[k] EXCEPT !.f = @ /\ sym[k].nr /\ ~sym[k].u, !.u = TRUE]]
EndPass1 ==
  /\ m.at = "fetch" /\ EndOfPass /\ m.pass = 1
  /\ m' = LET o == Case(c)
              k == [m EXCEPT !.fl.noerr = FALSE, !.fl.nocode = ~o.o, !.fl.nolist = o.l, !.fl.nowarn = o.s,
                             !.sym = Undefine(@), !.bound = {},
                             !.first = [k \in DOMAIN m.sym |-> m.sym[k].v]]
          IN StartPass(k, 2)

(******************************** the results *******************************)
TypeText(y) ==
  CASE y.u /\ ~y.f -> T("Undefined")
    [] y.t = "abs" -> T("Abs") [] y.t = "macro" -> T("Macro") [] y.t = "mnemo" -> T("Mnemonic")
    [] y.t = "regs" -> T("Register(s)")
    [] y.t = "bit" -> T("Bit") \o (IF y.mod < 0 THEN <<45>> \o Digits(-y.mod) ELSE Digits(y.mod))
RECLEN == 61
\* one entry of the symbol table; key may be any known word
TableEntry(mm, key) ==
  LET m1 == IF mm.lpos + RECLEN >= mm.llen THEN EndLine(mm) ELSE mm
      np == m1.lpos + RECLEN
      y == mm.sym[key]
      skip == \/ key \notin DOMAIN mm.sym \/ key[1] <= 57
              \/ y.t /= "abs" /\ y.nr
      mark == IF ~y.used THEN 63 ELSE IF y.f THEN 94 ELSE 32
      a == Out(m1, <<mark>>)
      b == IF y.t \in {"abs", "bit"} /\ ~(y.u /\ ~y.f) THEN OutAddr(a, y.v) ELSE a
      tt == TypeText(y)
      e == Out(Pad(b, np - NAMELEN - 2 - Len(tt)), tt)
  IN IF mm.err THEN mm ELSE IF skip THEN m1
     ELSE Pad(Out(Pad(e, np - NAMELEN - 1), key), np)
AllWords(mm) == DOMAIN mm.sym \cup DOMAIN PseudoVocab
                \cup UNION {DOMAIN PartVocab[mm.parts[i]] : i \in 1..Len(mm.parts)}
SymbolTable(mm) ==
  LET ks == SetToSortSeq(AllWords(mm), Less)
      t == FoldLeft(TableEntry, EndPage(mm), ks)
  IN IF t.err THEN t ELSE EndPage(EndLine(t))

OutRow(mm, s) == EndLine(Out(mm, s))
PadLow(s) == PadL(s, 8)
Number4(n) == PadL(Digits(n), 4)
Summary(mm) ==
  LET k == [mm EXCEPT !.fl.list = TRUE]
      k1 == IF k.plen - k.ppos < 10 THEN EndLines(EndPage(k), 2) ELSE k
      k2 == OutRow(EndLine(k1), T("ERRORS:    ") \o Number4(mm.nerr))
      k3 == EndLine(OutRow(k2, T("WARNINGS:  ") \o Number4(mm.nwarn)))
      last == WAddInt(mm.pc, -1)
      Hexa(w) == PadL(LowHex(w), 8) \o T(" (") \o SDec(w) \o T(")")
  IN IF mm.nerr > 0 THEN OutRow(k3, T("No code generated..."))
     ELSE OutRow(OutRow(OutRow(k3, T("Successful assembly...")),
                        T(" Last address ") \o Hexa(last)),
                 T(" Code length  ") \o Hexa(WInt(mm.codelen)))
EndPass2 ==
  /\ m.at = "fetch" /\ EndOfPass /\ m.pass = 2
  /\ m' = LET k == Summary(CloseObject(m))
              t == IF Case(c).x \/ (m.nerr = 0 /\ ~Case(c).l) THEN SymbolTable(k) ELSE k
          IN [t EXCEPT !.at = "stop", !.err = FALSE]

Exec == \/ BlankLine \/ BadLabel \/ Unknown_ \/ LabelLine \/ DoIf \/ DoElse \/ DoEndc \/ DoEndm \/ DoExitm
        \/ DoMacro \/ DoCall \/ DoEquate \/ DoData \/ DoSpace \/ DoAscii \/ DoAlign \/ DoSection \/ DoCpu
        \/ DoOutput \/ DoInclude \/ DoListing \/ DoPage \/ DoFail \/ DoInstruction
Next == c' = c /\ (Fetch \/ Exec \/ EndPass1 \/ EndPass2)

ObjectFile(mm) == IF mm.opened /\ mm.nerr = 0 THEN mm.recs ELSE <<>>
=============================================================================
