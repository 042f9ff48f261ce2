------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The assembler's state m and its elementary effects: errors, warnings,    *)
(* code bytes and the records of the object file, the listing.              *)
(*                                                                          *)
(* A statement is a chain of effects; m.err says that an error was raised   *)
(* in it, after which the rest of the chain has no effect.                  *)
(***************************************************************************)
EXTENDS Expr

NoFlags == [code |-> TRUE, list |-> FALSE, iflist |-> TRUE, mlist |-> FALSE, ilist |-> FALSE,
            lohi |-> FALSE, a16 |-> FALSE, hex |-> FALSE, cpugv |-> FALSE, orggv |-> FALSE,
            nolist |-> TRUE, nowarn |-> TRUE, noerr |-> TRUE, nocode |-> TRUE]
NoRaw == [start |-> W0, bytes |-> <<>>]
STAR == <<42>>
VERSION == T("V")

(******************************** the listing *******************************)
NMARGIN == 21
LMARGIN == 28
Row(m, r) == [m EXCEPT !.rows = Append(@, r)]
Fatal(m, why) == [m EXCEPT !.fatal = why, !.err = TRUE]

Header(m) ==
  T("Crasm ") \o VERSION \o T(":   ") \o PadL(m.title, 30)
    \o Spaces(IF m.llen > 58 THEN m.llen - 58 ELSE 0) \o T("page") \o PadL(Digits(m.page + 1), 3)
OutRaw(m, r) ==
  IF ~m.fl.list THEN m
  ELSE LET m1 == IF m.ppos /= 0 THEN m
                 ELSE [m EXCEPT !.rows = @ \o <<Header(m), <<>>>>, !.page = @ + 1, !.ppos = 2]
           m2 == [m1 EXCEPT !.rows = Append(@, r), !.ppos = @ + 1]
       IN IF m.plen /= 0 /\ m2.ppos >= m.plen - 2
          THEN [m2 EXCEPT !.rows = @ \o <<<<>>, <<>>>>, !.ppos = 0] ELSE m2

\* the line under construction: lb its text, lpos the column; prev: the text
\* of the line before (a continuation is aligned with it)
EndLine(m) ==
  IF m.pass = 1 THEN m
  ELSE [OutRaw(m, m.lb) EXCEPT !.lpos = 0, !.prev = IF m.lb = <<>> THEN @ ELSE m.lb, !.lb = <<>>]
RECURSIVE EndLines(_, _)
EndLines(m, n) == IF n = 0 THEN m ELSE EndLines(EndLine(m), n - 1)
RECURSIVE FillPage(_)
FillPage(m) == IF m.ppos = 0 THEN m ELSE FillPage(EndLine(m))
EndPage(m) == IF ~m.fl.list THEN m
              ELSE IF m.plen /= 0 THEN FillPage(m)
              ELSE [m EXCEPT !.rows = @ \o <<<<>>, <<>>, <<>>>>]

Pad(m, n) ==            \* blanks up to column n
  IF n >= m.llen THEN Fatal(m, "line length must be greater")
  ELSE IF m.lpos >= n THEN m
  ELSE [m EXCEPT !.lb = @ \o Spaces(n - m.lpos), !.lpos = n]

CONT1 == T("?;_?")
CONT2 == <<T("_? _? _?"), T("_? _?"), T("_?")>>
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Shown(c) == Printable(c) \/ c >= 128

\* where a continued line starts, from what the line before shows in its text field
ContCol(m, text, c) ==
  LET f == Match(text, CONT1) IN
  IF f.ok THEN f.at
  ELSE IF c = 59 THEN LMARGIN
  ELSE IF m.lastoff >= LMARGIN THEN m.lastoff
  ELSE LET k == First([i \in 1..3 |-> Match(text, CONT2[i]).ok])
       IN Match(text, CONT2[k]).at

RECURSIVE OutChars(_, _, _)
OutChars(m, s, i) ==
  IF i > Len(s) \/ m.err THEN m
  ELSE LET c == s[i] IN
       IF c = 32
       THEN OutChars(IF m.lpos < m.llen THEN [m EXCEPT !.lb = Append(@, 32), !.lpos = @ + 1]
                     ELSE [m EXCEPT !.lpos = @ + 1], s, i + 1)
       ELSE IF c = 9
       THEN LET k == IF m.lpos >= LMARGIN THEN 8 - ((m.lpos - LMARGIN) % 8)
                     ELSE IF (LMARGIN - m.lpos) % 8 = 0 THEN 8 ELSE (LMARGIN - m.lpos) % 8
            IN OutChars(OutChars(m, Spaces(k), 1), s, i + 1)
       ELSE IF IsSpace(c) THEN OutChars(m, s, i + 1)
       ELSE LET m1 == IF m.lpos < m.llen THEN m
                      ELSE LET e == EndLine(m)
                               \* the line buffer still holds the line before
                               text == From(e.prev, LMARGIN + 1)
                               p == Pad(e, ContCol(e, text, c))
                           IN [p EXCEPT !.lastoff = p.lpos]
            IN OutChars(IF Shown(c) THEN [m1 EXCEPT !.lb = Append(@, c), !.lpos = @ + 1] ELSE m1, s, i + 1)
Out(m, s) ==
  IF m.err THEN m
  ELSE IF m.lpos + Len(s) <= m.llen /\ \A i \in 1..Len(s) : Printable(s[i])
  THEN [m EXCEPT !.lb = @ \o s, !.lpos = @ + Len(s)]
  ELSE OutChars(m, s, 1)

LinePrefix(m) ==
  IF m.pre = 0 THEN PadL(Digits(m.ln), 5)
  ELSE LET i == IF m.mlev > 5 THEN 0 ELSE IF m.mlev < 1 THEN 4 ELSE 5 - m.mlev
       IN [k \in 1..5 |-> IF k = i + 1 THEN m.pre ELSE 32]

\* the current source line, beside the bytes shown already
OutLine0(m) ==
  IF m.pass = 1 THEN m
  ELSE IF m.ln = 0 THEN [m EXCEPT !.lastoff = 0]
  ELSE IF ~m.fl.list THEN [m EXCEPT !.lb = <<>>, !.lpos = 0, !.lastoff = 0]
  ELSE EndLine(Out(Pad(Out(Pad([m EXCEPT !.lastoff = 0], NMARGIN), LinePrefix(m)), LMARGIN), m.line))
OutLine(m) == IF m.err THEN m ELSE OutLine0(m)

AddrText(m, a) == HexN(a, IF m.fl.a16 THEN 4 ELSE 8) \o <<32>>
OutAddr(m, a) == Out(m, AddrText(m, a))

\* one code byte (at m.pc); long blocks are abbreviated
OutByte(m, b) ==
  IF m.pass = 1 THEN m
  ELSE IF m.adv > 20 /\ m.lpos > NMARGIN - 5
  THEN IF m.lpos <= NMARGIN - 3 THEN Out(m, <<46, 46, 46>>) ELSE m
  ELSE LET m1 == IF m.lpos > NMARGIN - 3 THEN EndLine(m) ELSE m
           m2 == IF m1.pc /= m1.mypc /\ m1.lpos /= 0 THEN EndLine(m1) ELSE m1
           m3 == IF m2.lpos = 0 THEN OutAddr(m2, m2.pc) ELSE m2
       IN [Out(m3, Hex2(b)) EXCEPT !.mypc = WInc(m.pc)]

(***************************** errors and warnings **************************)
\* An error is listed even when the listing is off, before its line, and ends
\* the statement; what the statement occupied so far still counts.
ErrMark == -1
WarnMark == -2
Err(m) ==
  IF m.err THEN m
  ELSE LET on == [m EXCEPT !.fl.list = TRUE]
           shown == IF m.fl.noerr THEN m ELSE OutRaw([on EXCEPT !.events = Append(@, <<"E", m.ln>>)], <<ErrMark, m.ln>>)
           out == OutLine0(shown)
       IN [out EXCEPT !.fl = m.fl, !.err = TRUE,
              !.sym[STAR].v = IF m.adv = 0 THEN @ ELSE WAddInt(@, m.adv)]
Warn(m) ==
  IF m.err \/ m.fl.nowarn THEN m
  ELSE OutRaw([m EXCEPT !.nwarn = @ + 1, !.events = Append(@, <<"W", m.ln>>)], <<WarnMark, m.ln>>)
ErrIf(m, c) == IF c THEN Err(m) ELSE m
WarnIf(m, c) == IF c THEN Warn(m) ELSE m

(********************** the object file and code bytes **********************)
Checksum(bytes) == FoldLeft(LAMBDA a, b : (a + b) % 256, 0, bytes)
HexBytes(bytes) == FoldLeft(LAMBDA a, b : a \o Hex2(b), <<>>, bytes)
Addr(a, n) == IF n = 4 THEN <<Byte(a, 3), Byte(a, 2), Byte(a, 1), Byte(a, 0)>>
              ELSE IF n = 3 THEN <<Byte(a, 2), Byte(a, 1), Byte(a, 0)>>
              ELSE <<Byte(a, 1), Byte(a, 0)>>
HexRecord(body) == <<58>> \o HexBytes(Append(body, (256 - Checksum(body)) % 256))
SRecord(type, a, n, data) ==
  LET body == <<Len(data) + n + 1>> \o Addr(a, n) \o data
  IN <<83, 48 + type>> \o HexBytes(Append(body, 255 - Checksum(body)))
Upper16(a) == a[2]
\* flush the bytes collected at raw.start as one record
Flush(m) ==
  LET r == m.raw
      m1 == IF r.bytes = <<>> THEN m
            ELSE IF m.fl.hex
            THEN LET x == IF m.ext = Upper16(r.start) THEN <<>>
                          ELSE <<HexRecord(<<2, 0, 0, 4, Upper16(r.start) \div 256, Upper16(r.start) % 256>>)>>
                     d == HexRecord(<<Len(r.bytes)>> \o Addr(r.start, 2) \o <<0>> \o r.bytes)
                 IN [m EXCEPT !.recs = @ \o x \o <<d>>, !.ext = Upper16(r.start)]
            ELSE LET n == IF Byte(r.start, 3) /= 0 THEN 4 ELSE IF Byte(r.start, 2) /= 0 THEN 3 ELSE 2
                 IN [m EXCEPT !.recs = Append(@, SRecord(n - 1, r.start, n, r.bytes))]
  IN [m1 EXCEPT !.raw = [start |-> m.pc, bytes |-> <<>>]]
CloseObject(m) ==
  IF ~m.opened THEN m
  ELSE LET f == Flush(m) IN
       [f EXCEPT !.recs = Append(@, IF f.fl.hex THEN T(":00000001FF") ELSE T("S9030000FC"))]

SetPc(m, a) == IF a = m.pc THEN m ELSE [Flush(m) EXCEPT !.pc = a, !.raw = [start |-> a, bytes |-> <<>>]]

Emit(m, b) ==           \* one byte at the location counter
  IF m.err THEN m
  ELSE IF ~m.fl.orggv THEN Err(m)
  ELSE LET m0 == IF m.fl.nocode \/ m.opened THEN m ELSE [m EXCEPT !.opened = TRUE, !.ext = 0]
           m1 == IF ~m0.fl.code THEN m0
                 ELSE LET full == m0.opened /\ (Len(m0.raw.bytes) >= 16
                                                \/ WAddInt(m0.raw.start, Len(m0.raw.bytes)) /= m0.pc)
                          a == IF full THEN Flush(m0) ELSE m0
                          k == IF m0.opened THEN [a EXCEPT !.raw.bytes = Append(@, b)] ELSE a
                      IN OutByte([k EXCEPT !.codelen = @ + 1,
                                           !.image = Append(@, <<m.pc, b>>)], b)
       IN [m1 EXCEPT !.adv = @ + 1, !.pc = WInc(@)]
Emit2(m, b1, b2) == Emit(Emit(m, b1), b2)
RECURSIVE EmitAll(_, _)
EmitAll(m, bs) == IF bs = <<>> \/ m.err THEN m ELSE EmitAll(Emit(m, Head(bs)), Tail(bs))
Emit16(m, v) == IF m.fl.lohi THEN Emit2(m, Byte(v, 0), Byte(v, 1)) ELSE Emit2(m, Byte(v, 1), Byte(v, 0))
Emit32(m, v) == IF m.fl.lohi THEN EmitAll(m, <<Byte(v, 0), Byte(v, 1), Byte(v, 2), Byte(v, 3)>>)
                ELSE EmitAll(m, <<Byte(v, 3), Byte(v, 2), Byte(v, 1), Byte(v, 0)>>)

(******************************** symbols ***********************************)
\* mark as used (and create, when unknown) the symbols of refs
RECURSIVE Refer(_, _)
Refer(m, refs) ==
  IF refs = <<>> THEN m
  ELSE LET k == Head(refs)
           y == Lookup(m, k)
           m1 == IF k \in DOMAIN m.sym
                 THEN (IF m.sym[k].used THEN m ELSE [m EXCEPT !.sym[k].used = TRUE])
                 ELSE IF y[1] THEN m
                 ELSE [m EXCEPT !.sym = (k :> [NewSym EXCEPT !.used = TRUE]) @@ @]
       IN Refer(m1, Tail(refs))

\* the value of an operand; m.r is the result
Operand(m, s) ==
  IF m.err THEN m
  ELSE LET e == Eval(m, s)
           w == WarnIf(m, WarnParen(s))
           k == [Refer(w, e.refs) EXCEPT !.r = e]
       IN ErrIf(k, ~e.ok)
Numerical(m, s) ==      \* an operand that must be a number
  LET k == Operand(m, s) IN ErrIf(k, k.r.t /= "abs")

\* define key with the value r (t, v, mod, f, kw, body); nr: once only
Define(m, key, r, nr) ==
  IF m.err THEN m
  ELSE LET known == Lookup(m, key)
           old == IF known[1] THEN known[2] ELSE [NewSym EXCEPT !.f = FALSE, !.nr = FALSE]
           phase == m.pass = 2 /\ old.u /\ old.f /\ old.v /= r.v
           new == [t |-> r.t, v |-> r.v, mod |-> r.mod, u |-> FALSE, f |-> old.f \/ r.f, kw |-> r.kw,
                   body |-> r.body, used |-> old.used, nr |-> old.nr \/ nr]
       IN IF ~old.u /\ (old.nr \/ nr) THEN Err(m)
          ELSE ErrIf([m EXCEPT !.sym = (key :> new) @@ @], phase /\ m.nerr = 0)
=============================================================================
