------------------------------- MODULE Instr -------------------------------
(***************************************************************************)
(* Processor instructions: from an operand text to code bytes.              *)
(*                                                                          *)
(* An instruction whose operand form is recognised but whose value is not   *)
(* acceptable still occupies its bytes, so that later labels keep their     *)
(* addresses; other erroneous instructions occupy none.                     *)
(***************************************************************************)
EXTENDS Machine

Overflow8(v) == Byte(v, 1) /= 0         \* bits 8..15 of an operand of one byte
COMMA == T("?_,_?")

(***************************** common to all ********************************)
Inherent(m, op, s) == ErrIf(Emit(m, op), s /= <<>>)

\* a relative branch: the distance from the next instruction, a signed byte
Reach(d) == ~WLess(d, WInt(-128)) /\ ~WLess(WInt(127), d)
SignExt32(d) == IF d[2] >= 32768 THEN <<d[1], d[2], 65535, 65535>> ELSE <<d[1], d[2], 0, 0>>
Low32(v) == Val(SignExt32(v))
Branch(m, op, s) ==
  LET k == Numerical(m, s)
      d == SignExt32(WAddInt(WSub(k.r.v, m.pc), -2))
  IN ErrIf(Emit2(k, op, Byte(d, 0)), ~Reach(d))

(********************************** 6800 ************************************)
M_IMM == T("#_?")
M_X0 == T(",_x")
M_IX == T("?_,_x")
\* modes: immediate, indexed, extended, and direct for a known operand that fits
Mode6800(s) ==
  IF Match(s, M_IMM).ok THEN <<"imm", Match(s, M_IMM).cap[1]>>
  ELSE IF Match(s, M_X0).ok THEN <<"idx", T("0")>>
  ELSE IF Match(s, M_IX).ok THEN <<"idx", Match(s, M_IX).cap[1]>>
  ELSE <<"ext", s>>
Base6800 == [imm |-> 0, dir |-> 16, idx |-> 32, ext |-> 48]
Op6800(m, kind, op, s) ==
  IF s = <<>> THEN Err(m)
  ELSE LET md == Mode6800(s)
           k == Numerical(m, md[2])
           v == k.r.v
           mode == IF md[1] = "ext" /\ kind /= "m_indext" /\ ~k.r.f /\ ~Overflow8(v)
                   THEN "dir" ELSE md[1]
           o == Emit(k, op + Base6800[mode])
           wide == mode = "ext" \/ (mode = "imm" /\ kind = "m_all16")
           b == IF wide THEN Emit16(o, v) ELSE Emit(o, Byte(v, 0))
           c == IF wide \/ ~Overflow8(v) THEN b
                ELSE IF mode = "idx" THEN Err(b) ELSE Warn(b)
       IN ErrIf(c, mode = "imm" /\ kind \in {"m_indext", "m_noimm"})

(********************************** 6502 ************************************)
\* operand forms in the order they are tried; short and long opcode column
Form(p, n, w) == [p |-> T(p), n |-> n, w |-> w]
FORMS6502 == << Form("(_?_,_X_)", "zpix", "abix"), Form("@_?_,_X", "zpix", "abix"),
                Form("(_?_)_,_Y", "zpiy", ""), Form("@_?_,_Y", "zpiy", ""),
                Form("(_?_)", "zpi", "abi"), Form("@_?", "zpi", "abi"),
                Form("#_?", "imm", ""), Form("?_,_X", "zpx", "abx"),
                Form("?_,_Y", "zpy", "aby"), Form("?", "zp", "abs") >>
Opc(op, col) == IF col = "" THEN -1 ELSE Op6502[op][col]
RegA(r) == r.t = "regs" /\ r.mod = 0
Acc6502(m, op) ==
  LET o == Opc(op, "acc") IN
  IF o < 0 THEN Err(m)
  ELSE ErrIf(Emit(m, o % 1000), (o >= 1000 /\ m.level < 2) \/ (op = 12 /\ m.level < 1))
\* forms refused before their operand is looked at
NoImm6502 == {5, 9, 10, 11, 12, 19, 21}
NoX6502 == {13, 15, 16, 17, 25, 26}
NoY6502 == {9, 10, 11, 12, 14, 15, 16, 18}
Refused6502(op, f) == \/ f.n = "imm" /\ op \in NoImm6502
                      \/ f.n = "zpx" /\ op \in NoX6502
                      \/ f.n = "zpy" /\ op \in NoY6502
Instr6502(m, op, s) ==
  IF s = <<>> THEN Acc6502(m, op)
  ELSE LET i == First([k \in 1..10 |-> Match(s, FORMS6502[k].p).ok])
           f == FORMS6502[i]
           k == Operand(m, Match(s, f.p).cap[1])
           v == k.r.v
       IN IF Refused6502(op, f) THEN Err(m)
          ELSE IF k.err THEN k
          ELSE IF f.n = "zp" /\ RegA(k.r) THEN Acc6502(k, op)
          ELSE IF k.r.t /= "abs" THEN Err(k)
          ELSE LET long == f.n /= "imm" /\ (Overflow8(v) \/ k.r.f)
                   w == WarnIf(k, f.n = "imm" /\ Overflow8(v))
                   col == IF ~long /\ Opc(op, f.n) >= 0 THEN f.n ELSE f.w
                   o == Opc(op, col)
               IN IF o < 0 THEN Err(w)
                  ELSE LET e == Emit(w, o % 1000)
                           b == IF col = f.n THEN Emit(e, Byte(v, 0)) ELSE Emit16(e, v)
                       IN ErrIf(b, (o >= 1000 /\ m.level < 2) \/ (op = 12 /\ m.level < 1))

(*********************************** Z80 ************************************)
\* Operands: x.k is the kind
\*   "r" register x.n (0..7; 6 stands for (HL) and (IX+d))   "rr" BC DE HL SP (x.n 0..3)
\*   "bc" "de" (BC), (DE)   "mem" (nn)   "imm" nn   "f" "i" "r!" "af"
\* x.ix: the index prefix it needs (0: none, 255: HL itself);  x.d: it has a displacement
Z(k, n) == [k |-> k, n |-> n, ix |-> 0, d |-> FALSE]
IX == 221
IY == 253
HL == 255
INDEXED == << <<T("(_IX_)"), IX, 0>>, <<T("(_IY_)"), IY, 0>>,
              <<T("(_IX_+_?_)"), IX, 1>>, <<T("(_IY_+_?_)"), IY, 1>>,
              <<T("(_IX_-_?_)"), IX, -1>>, <<T("(_IY_-_?_)"), IY, -1>> >>
IND_HL == T("(_HL_)")
IND_BC == T("(_BC_)")
IND_DE == T("(_DE_)")
IND == T("(_?_)")
RegKind(n) == CASE n < 8 -> Z("r", n)
                [] n \in {8, 9, 11} -> Z("rr", n - 8)
                [] n = 10 -> [Z("rr", 2) EXCEPT !.ix = HL]
                [] n = 12 -> [Z("rr", 2) EXCEPT !.ix = IX]
                [] n = 13 -> [Z("rr", 2) EXCEPT !.ix = IY]
                [] n = 16 -> Z("f", 0) [] n = 17 -> Z("i", 0) [] n = 18 -> Z("r!", 0)
                [] n = 19 -> Z("af", 0)
                [] OTHER -> Z("none", 0)

\* m.z: the index prefix, displacement and argument of the instruction so far
NoZ == [ix |-> 0, d |-> FALSE, dv |-> W0, a |-> FALSE, av |-> W0]
ZStart(m) == [m EXCEPT !.z = NoZ]
\* two operands of one instruction must not need different index registers or two arguments
ZIndex(m, ix, dv) == IF m.z.ix /= 0 \/ m.z.d THEN Err(m)
                     ELSE [m EXCEPT !.z.ix = ix, !.z.d = TRUE, !.z.dv = dv, !.x = [Z("r", 6) EXCEPT !.ix = ix, !.d = TRUE]]
ZArg(m, k) == IF m.err THEN m ELSE IF m.z.a THEN Err(m)
              ELSE [m EXCEPT !.z.a = TRUE, !.z.av = m.r.v, !.x = Z(k, 0)]
HasIndex(s) == \E i \in 1..6 : Match(s, INDEXED[i][1]).ok
Opd(m, s) ==            \* m.x: the operand s
  IF m.err THEN m
  ELSE IF HasIndex(s)
  THEN LET i == First([k \in 1..6 |-> Match(s, INDEXED[k][1]).ok])
           e == INDEXED[i]
           k == IF e[3] = 0 THEN m ELSE Numerical(m, Match(s, e[1]).cap[1])
           dv == CASE e[3] = 0 -> W0 [] e[3] = 1 -> k.r.v [] e[3] = -1 -> WNeg(k.r.v)
       IN IF k.err THEN k ELSE ZIndex(k, e[2], dv)
  ELSE IF Match(s, IND_HL).ok
  THEN IF m.z.ix \notin {0, HL} THEN Err(m) ELSE [m EXCEPT !.z.ix = HL, !.x = [Z("r", 6) EXCEPT !.ix = HL]]
  ELSE IF Match(s, IND_BC).ok THEN [m EXCEPT !.x = Z("bc", 0)]
  ELSE IF Match(s, IND_DE).ok THEN [m EXCEPT !.x = Z("de", 0)]
  ELSE IF Match(s, IND).ok THEN ZArg(Numerical(m, Match(s, IND).cap[1]), "mem")
  ELSE LET k == Operand(m, s) IN
       IF k.err THEN k
       ELSE IF k.r.t = "abs" THEN ZArg(k, "imm")
       ELSE IF k.r.t /= "regs" \/ k.r.v /= WShl(W1, k.r.mod) THEN Err(k)
       ELSE LET x == RegKind(k.r.mod) IN
            IF x.ix /= 0 /\ k.z.ix \notin {0, x.ix} THEN Err(k)
            ELSE [k EXCEPT !.x = x, !.z.ix = IF x.ix /= 0 THEN x.ix ELSE @]

\* prefix, opcode (op >= 256: two bytes), displacement before a second opcode
\* byte, then the argument: arg = 0, 1 or 2 bytes
DispOk(v) == Reach(SignExt32(v))
ZCode(m, op, arg) ==
  LET p == IF m.z.ix \in {IX, IY} THEN Emit(m, m.z.ix) ELSE m
      o == Emit(p, IF op >= 256 THEN op \div 256 ELSE op)
      d == IF m.z.d THEN WarnIf(Emit(o, Byte(m.z.dv, 0)), ~DispOk(m.z.dv)) ELSE o
      o2 == IF op >= 256 THEN Emit(d, op % 256) ELSE d
  IN CASE arg = 0 -> o2
       [] arg = 1 -> WarnIf(Emit(o2, Byte(m.z.av, 0)), Overflow8(m.z.av))
       [] arg = 2 -> Emit16(o2, m.z.av)

ZPlain(m, op, s) ==
  ErrIf(IF op >= 256 THEN Emit2(m, op \div 256, op % 256) ELSE Emit(m, op), s /= <<>>)
ZIm(m, s) ==
  LET k == Numerical(m, s) IN
  IF k.err THEN k
  ELSE IF k.r.v \in {W0, W1, WInt(2)}
       THEN Emit2(k, 237, CASE k.r.v = W0 -> 70 [] k.r.v = W1 -> 86 [] k.r.v = WInt(2) -> 94)
       ELSE Err(Emit2(k, 0, 0))
ZRst(m, s) ==           \* RST 0..7 or RST 0, 8, .. 56
  LET k == Numerical(m, s)
      v == IF k.r.v[1] < 8 THEN WShl(k.r.v, 3) ELSE k.r.v
  IN IF k.err THEN k
     ELSE ErrIf(Emit(k, 199 | Byte(v, 0)), v[1] > 56 \/ v[1] % 8 /= 0)
CONDS == <<T("NZ"), T("Z"), T("NC"), T("C"), T("PO"), T("PE"), T("P"), T("M")>>
\* <<ok, condition code or -1, the other operand>>
Cond(s, n) ==
  IF ~Match(s, COMMA).ok THEN <<TRUE, -1, s>>
  ELSE LET c == Upper(Match(s, COMMA).cap[1]) IN
       IF \E i \in 1..n : CONDS[i] = c
       THEN <<TRUE, First([i \in 1..n |-> CONDS[i] = c]) - 1, Match(s, COMMA).cap[2]>>
       ELSE <<FALSE, -1, <<>>>>
ZJr(m, s) == LET c == Cond(s, 4) IN
  IF ~c[1] THEN Err(m) ELSE Branch(m, IF c[2] < 0 THEN 24 ELSE 32 + 8 * c[2], c[3])
ZRet(m, s) ==
  IF s = <<>> THEN Emit(m, 201)
  ELSE IF \E i \in 1..8 : CONDS[i] = Upper(s)
       THEN Emit(m, 192 + 8 * (First([i \in 1..8 |-> CONDS[i] = Upper(s)]) - 1))
       ELSE Err(m)
ZJump(m, s, always, cond) ==
  LET c == Cond(s, 8) IN
  IF ~c[1] THEN Err(m)
  ELSE LET k == Numerical(m, c[3]) IN
       Emit16(Emit(k, IF c[2] < 0 THEN always ELSE cond + 8 * c[2]), k.r.v)
ZJp(m, s) ==
  IF Match(s, IND).ok
  THEN LET k == Opd(ZStart(m), Match(s, IND).cap[1]) IN
       IF k.err \/ k.x.k /= "rr" \/ k.x.n /= 2 THEN Err(k) ELSE ZCode(k, 233, 0)
  ELSE ZJump(m, s, 195, 194)
EX_DE1 == T("DE_,_HL")
EX_DE2 == T("HL_,_DE")
EX_SP1 == T("(_SP_)_,_?")
EX_SP2 == T("?_,_(_SP_)")
EX_AF1 == T("AF_,_AF'_?")
EX_AF2 == T("AF'_,_AF_?")
ZEx(m, s) ==
  LET z == ZStart(m)
      sp == IF Match(s, EX_SP1).ok THEN Match(s, EX_SP1) ELSE Match(s, EX_SP2)
      af == IF Match(s, EX_AF1).ok THEN Match(s, EX_AF1) ELSE Match(s, EX_AF2)
      k == IF sp.ok THEN Opd(z, sp.cap[1]) ELSE z
  IN IF Match(s, EX_DE1).ok \/ Match(s, EX_DE2).ok THEN ZCode(z, 235, 0)
     ELSE IF k.err THEN k
     ELSE IF sp.ok /\ k.x.k = "rr" /\ k.x.n = 2 THEN ZCode(k, 227, 0)
     ELSE IF af.ok /\ (af.cap[1] = <<>> \/ af.cap[1][1] = 59) THEN ZCode(k, 8, 0)
     ELSE Err(k)
IN_ == T("?_,_(?)")
OUT_ == T("(?)_,_?")
ZIo(m, s, in) ==
  LET f == Match(s, IF in THEN IN_ ELSE OUT_)
      port == IF in THEN f.cap[2] ELSE f.cap[1]
      reg == IF in THEN f.cap[1] ELSE f.cap[2]
      p == Opd(ZStart(m), port)
      k == Opd(p, reg)
  IN IF ~f.ok THEN Err(m)
     ELSE IF p.err THEN p
     ELSE IF p.x.k = "imm"
     THEN IF k.err \/ k.x.k /= "r" \/ k.x.n /= 7 THEN Err(k) ELSE ZCode(k, IF in THEN 219 ELSE 211, 1)
     ELSE IF p.x.k = "r" /\ p.x.n = 1
     THEN IF k.err \/ k.x.k /= "r" \/ k.x.n = 6 THEN Err(k)
          ELSE ZCode(k, 60736 + 8 * k.x.n + (IF in THEN 0 ELSE 1), 0)         \* ED 40
     ELSE Err(p)
ZBit(m, op, s) ==
  LET f == Match(s, COMMA)
      b == Numerical(ZStart(m), f.cap[1])
      k == Opd(b, f.cap[2])
  IN IF ~f.ok THEN Err(m)
     ELSE IF b.err THEN b
     ELSE IF Low32(b.r.v) > 7 \/ Low32(b.r.v) < 0 THEN Err(b)
     ELSE IF k.err \/ k.x.k /= "r" THEN Err(k)
     ELSE ZCode(k, 51968 + op + k.x.n + 8 * Low32(b.r.v), 0)                \* CB 00
ZRot(m, op, s) ==
  LET k == Opd(ZStart(m), s) IN
  IF k.err \/ k.x.k /= "r" THEN Err(k) ELSE ZCode(k, 51968 + op + k.x.n, 0)
\* on the accumulator, which may be written redundantly as first operand
ZAlu(m, op, s) ==
  LET f == Match(s, COMMA)
      a == Opd(ZStart(m), f.cap[1])
      m1 == IF ~f.ok THEN ZStart(m) ELSE IF a.err \/ a.x.k /= "r" \/ a.x.n /= 7 THEN Err(a) ELSE Warn(a)
      k == Opd(m1, IF f.ok THEN f.cap[2] ELSE s)
  IN IF k.err THEN k
     ELSE IF k.x.k = "imm" THEN ZCode(k, op + 70, 1)
     ELSE IF k.x.k = "r" THEN ZCode(k, op + k.x.n, 0)
     ELSE Err(k)
ZStack(m, op, s) ==
  LET k == Opd(ZStart(m), s) IN
  IF k.err THEN k
  ELSE IF k.x.k = "af" THEN ZCode(k, op + 48, 0)
  ELSE IF k.x.k = "rr" /\ k.x.n /= 3 THEN ZCode(k, op + 16 * k.x.n, 0)
  ELSE Err(k)
ZAdd(m, op, s) ==
  LET f == Match(s, COMMA)
      a == Opd(ZStart(m), f.cap[1])
      k == Opd(a, f.cap[2])
  IN IF ~f.ok THEN Err(m)
     ELSE IF a.err THEN a
     ELSE IF a.x.k = "r" /\ a.x.n = 7 THEN ZAlu(a, op, f.cap[2])
     ELSE IF a.x.k = "rr" /\ a.x.n = 2
     THEN IF a.x.ix /= HL /\ op /= 128 THEN Err(a)
          ELSE IF k.err \/ k.x.k /= "rr" THEN Err(k)
          ELSE ZCode(k, (CASE op = 128 -> 9 [] op = 136 -> 60746 [] op = 152 -> 60738) + 16 * k.x.n, 0)
     ELSE Err(a)
ZInc(m, dec, s) ==
  LET k == Opd(ZStart(m), s) IN
  IF k.err THEN k
  ELSE IF k.x.k = "r" THEN ZCode(k, 4 + dec + 8 * k.x.n, 0)
  ELSE IF k.x.k = "rr" THEN ZCode(k, 3 + 8 * dec + 16 * k.x.n, 0)
  ELSE Err(k)
\* the LD instructions: opcode and argument length, or -1
LdCode(a, b) ==
  LET accu(x) == x.k = "r" /\ x.n = 7 IN
  CASE a.k = "r" /\ b.k = "r" -> IF a.n = 6 /\ b.n = 6 THEN <<-1, 0>> ELSE <<64 + 8 * a.n + b.n, 0>>
    [] a.k = "r" /\ b.k = "imm" -> <<6 + 8 * a.n, 1>>
    [] accu(a) /\ b.k = "mem" -> <<58, 2>>
    [] accu(a) /\ b.k = "bc" -> <<10, 0>>
    [] accu(a) /\ b.k = "de" -> <<26, 0>>
    [] accu(a) /\ b.k = "i" -> <<60759, 0>>        \* ED 57
    [] accu(a) /\ b.k = "r!" -> <<60767, 0>>       \* ED 5F
    [] a.k = "rr" /\ b.k = "imm" -> <<1 + 16 * a.n, 2>>
    [] a.k = "rr" /\ b.k = "mem" -> IF a.n = 2 THEN <<42, 2>> ELSE <<60747 + 16 * a.n, 2>>   \* ED 4B
    [] a.k = "rr" /\ a.n = 3 /\ b.k = "rr" /\ b.n = 2 -> <<249, 0>>
    [] a.k = "mem" /\ accu(b) -> <<50, 2>>
    [] a.k = "mem" /\ b.k = "rr" -> IF b.n = 2 THEN <<34, 2>> ELSE <<60739 + 16 * b.n, 2>>   \* ED 43
    [] a.k = "bc" /\ accu(b) -> <<2, 0>>
    [] a.k = "de" /\ accu(b) -> <<18, 0>>
    [] a.k = "i" /\ accu(b) -> <<60743, 0>>        \* ED 47
    [] a.k = "r!" /\ accu(b) -> <<60751, 0>>       \* ED 4F
    [] OTHER -> <<-1, 0>>
ZLd(m, s) ==
  LET f == Match(s, COMMA)
      a == Opd(ZStart(m), f.cap[1])
      k == Opd(a, f.cap[2])
      c == LdCode(a.x, k.x)
  IN IF ~f.ok THEN Err(m)
     ELSE IF a.err THEN a
     ELSE IF k.err THEN k
     ELSE IF c[1] < 0 THEN Err(k) ELSE ZCode(k, c[1], c[2])

(******************************* all of them ********************************)
InstrKw == {"branch", "inherent", "m_indext", "m_all", "m_all16", "m_noimm", "op6502",
            "z_plain", "z_im", "z_rst", "z_jr", "z_jp", "z_call", "z_ret", "z_ex", "z_in", "z_out",
            "z_bit", "z_rot", "z_alu", "z_stack", "z_add", "z_inc", "z_ld"}
Instruction(m, kw, op, s) ==
  CASE kw = "branch" -> Branch(m, op, s)
    [] kw = "inherent" -> Inherent(m, op, s)
    [] kw \in {"m_indext", "m_all", "m_all16", "m_noimm"} -> Op6800(m, kw, op, s)
    [] kw = "op6502" -> Instr6502(m, op, s)
    [] kw = "z_plain" -> ZPlain(m, op, s)
    [] kw = "z_im" -> ZIm(m, s)
    [] kw = "z_rst" -> ZRst(m, s)
    [] kw = "z_jr" -> ZJr(m, s)
    [] kw = "z_jp" -> ZJp(m, s)
    [] kw = "z_call" -> ZJump(m, s, 205, 196)
    [] kw = "z_ret" -> ZRet(m, s)
    [] kw = "z_ex" -> ZEx(m, s)
    [] kw = "z_in" -> ZIo(m, s, TRUE)
    [] kw = "z_out" -> ZIo(m, s, FALSE)
    [] kw = "z_bit" -> ZBit(m, op, s)
    [] kw = "z_rot" -> ZRot(m, op, s)
    [] kw = "z_alu" -> ZAlu(m, op, s)
    [] kw = "z_stack" -> ZStack(m, op, s)
    [] kw = "z_add" -> ZAdd(m, op, s)
    [] kw = "z_inc" -> ZInc(m, op, s)
    [] kw = "z_ld" -> ZLd(m, s)
=============================================================================
