-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Constants, expressions and the symbols they refer to.                    *)
(*                                                                          *)
(* A symbol (or keyword) is a record                                        *)
(*   t    "abs", "macro", "mnemo", "regs" or "bit"                          *)
(*   v    value (a word);  mod  bit or register number                      *)
(*   u    not defined yet in this pass                                      *)
(*   f    was referenced before its definition                              *)
(*   kw   for "mnemo": the keyword it stands for;  body: of a macro         *)
(*   used, nr: referenced somewhere; must not be redefined                  *)
(* The value of an expression has t, v, mod, u, f, kw, body, and            *)
(*   ok   it is well formed and well typed                                  *)
(*   refs the symbols that were looked up, in order                         *)
(***************************************************************************)
EXTENDS Text, Words, Vocab

Abs(v) == [ok |-> TRUE, t |-> "abs", v |-> v, mod |-> 0, u |-> FALSE, f |-> FALSE,
           kw |-> "", body |-> <<>>, refs |-> <<>>]
Bad(refs) == [Abs(W0) EXCEPT !.ok = FALSE, !.refs = refs]

(*************************** symbols and keywords **************************)
NewSym == [t |-> "abs", v |-> W0, mod |-> 0, u |-> TRUE, f |-> TRUE, kw |-> "",
           body |-> <<>>, used |-> FALSE, nr |-> TRUE]
KwSym(k, undefined) == [t |-> k.t, v |-> k.v, mod |-> k.mod, u |-> undefined, f |-> FALSE,
                        kw |-> k.kw, body |-> <<>>, used |-> FALSE, nr |-> TRUE]

\* m.parts: vocabulary parts selected so far; m.bound: those in this pass
PartOf(m, key) ==       \* 0 or the index of the part whose word key is
  First([i \in 1..Len(m.parts) |-> key \in DOMAIN PartVocab[m.parts[i]]])
Lookup(m, key) ==       \* <<known, symbol>>
  IF key \in DOMAIN m.sym THEN <<TRUE, m.sym[key]>>
  ELSE IF key \in DOMAIN PseudoVocab THEN <<TRUE, KwSym(PseudoVocab[key], FALSE)>>
  ELSE LET c == PartOf(m, key) IN
       IF c /= 0 THEN <<TRUE, KwSym(PartVocab[m.parts[c]][key], m.parts[c] \notin m.bound)>>
       ELSE <<FALSE, NewSym>>

(******************************** constants *********************************)
TooBig(v, bits) == WShr(v, 32 - bits) /= W0      \* the next digit of so many bits overflows
RadixOk(s, ok(_)) == \A i \in 1..Len(s) : ok(s[i])
DigVal(c) == IF c >= 97 THEN c - 87 ELSE IF c >= 65 THEN c - 55 ELSE c - 48
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)

\* digits of 2^bits; at most 32 significant bits
Radix(s, bits) ==
  FoldLeft(LAMBDA a, c : IF ~a[1] \/ WShr(a[2], 32 - bits) /= W0 THEN <<FALSE, W0>>
                         ELSE <<TRUE, WAddInt(WShl(a[2], bits), DigVal(c))>>,
           <<TRUE, W0>>, s)
RadixConst(s, bits) ==
  LET okc(c) == CASE bits = 4 -> IsHex(c)
                  [] bits = 3 -> c >= 48 /\ c <= 55
                  [] bits = 1 -> c = 48 \/ c = 49
      r == Radix(s, bits)
  IN IF (\A i \in 1..Len(s) : okc(s[i])) /\ r[1] THEN Abs(r[2]) ELSE Bad(<<>>)
DecConst(s) ==
  IF \E i \in 1..Len(s) : ~IsDigit(s[i]) THEN Bad(<<>>)
  ELSE IF Len(s) < 9 THEN Abs(WInt(FoldLeft(LAMBDA a, c : a * 10 + c - 48, 0, s)))
  ELSE LET r == FoldLeft(LAMBDA a, c : LET n == WAddInt(WMul(a[2], WInt(10)), c - 48)
                                       IN IF ~a[1] \/ n[3] /= 0 \/ n[4] /= 0
                                          THEN <<FALSE, W0>> ELSE <<TRUE, n>>,
                         <<TRUE, W0>>, s)
       IN IF r[1] THEN Abs(r[2]) ELSE Bad(<<>>)

Escape(c) ==            \* the character a backslash and c stand for, -1: none
  CASE c = 116 -> 9 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 48 -> 0
    [] c \in {SQ, DQ, BSL} -> c [] OTHER -> -1

RECURSIVE AsciiFrom(_, _, _)
AsciiFrom(s, i, v) ==   \* s[1] is the delimiter
  IF i > Len(s) \/ ~Printable(s[i]) THEN Bad(<<>>)
  ELSE IF s[i] = s[1] THEN (IF i = Len(s) THEN Abs(v) ELSE Bad(<<>>))
  ELSE LET esc == s[i] = BSL
           c == IF ~esc THEN s[i] ELSE IF i < Len(s) THEN Escape(s[i + 1]) ELSE -1
       IN IF c < 0 \/ v[4] >= 256 THEN Bad(<<>>)
          ELSE AsciiFrom(s, IF esc THEN i + 2 ELSE i + 1, WAddInt(WShl(v, 8), c))

Constant(s) ==
  LET n == Len(s)
      u == Upper(s)
      two == IF n >= 2 THEN SubSeq(u, 1, 2) ELSE <<>>
  IN IF n = 0 THEN Bad(<<>>)
     ELSE IF s[1] = 36 /\ n > 1 THEN RadixConst(From(s, 2), 4)                 \* $h
     ELSE IF u[n] = 72 /\ n > 1 THEN RadixConst(Upto(s, n - 1), 4)             \* hH
     ELSE IF two = <<48, 88>> /\ n > 2 THEN RadixConst(From(s, 3), 4)          \* 0Xh
     ELSE IF s[1] = 37 /\ n > 1 THEN RadixConst(From(s, 2), 1)                 \* %b
     ELSE IF u[n] = 66 /\ n > 1 THEN RadixConst(Upto(s, n - 1), 1)             \* bB
     ELSE IF two = <<48, 66>> /\ n > 2 THEN RadixConst(From(s, 3), 1)          \* 0Bb
     ELSE IF u[n] = 81 /\ n > 1 THEN RadixConst(Upto(s, n - 1), 3)             \* oQ
     ELSE IF IsDigit(s[1]) THEN DecConst(s)
     ELSE IF s[1] \in {SQ, DQ} THEN AsciiFrom(s, 2, W0)
     ELSE Bad(<<>>)

(******************************** operators *********************************)
Both(a, b) == [a EXCEPT !.refs = @ \o b.refs, !.u = @ \/ b.u, !.f = @ \/ b.f]
Numeric(a, b, v) == IF a.t = "abs" /\ b.t = "abs" THEN [Both(a, b) EXCEPT !.v = v]
                    ELSE Bad(a.refs \o b.refs)
RegNo(v) == LET i == First([k \in 1..31 |-> v = WShl(W1, k - 1)]) IN IF i = 0 THEN 32 ELSE i - 1
RegRange(a, b) ==
  LET lo == RegNo(a.v)
      hi == RegNo(b.v)
  IN IF hi > 31 \/ hi < lo THEN Bad(a.refs \o b.refs)
     ELSE [Both(a, b) EXCEPT !.v = FoldLeft(LAMBDA w, k : WOr(w, WShl(W1, k)), a.v,
                                            [i \in 1..(hi - lo + 1) |-> lo + i - 1])]
Short(v) == IF v[1] < 32768 THEN v[1] ELSE v[1] - B16

Binary(op, a, b) ==
  CASE op = "+" -> Numeric(a, b, WAdd(a.v, b.v))
    [] op = "-" -> IF a.t = "regs" /\ b.t = "regs" THEN RegRange(a, b)
                   ELSE Numeric(a, b, WSub(a.v, b.v))
    [] op = "*" -> Numeric(a, b, WMul(a.v, b.v))
    [] op = "/" -> Numeric(a, b, IF b.v = W0 THEN a.v ELSE WDiv(a.v, b.v))
    [] op = "|" -> Numeric(a, b, WOr(a.v, b.v))
    [] op = "&" -> Numeric(a, b, WAnd(a.v, b.v))
    [] op = "^" -> Numeric(a, b, WXor(a.v, b.v))
    [] op = "<<" -> Numeric(a, b, WShl(a.v, ShCount(b.v)))
    [] op = ">>" -> Numeric(a, b, WSar(a.v, ShCount(b.v)))
    [] op = "\\" -> IF a.t = "regs" /\ b.t = "regs" THEN [Both(a, b) EXCEPT !.v = WOr(a.v, b.v)]
                    ELSE Bad(a.refs \o b.refs)
    [] op = "{" -> IF a.t = "abs" /\ b.t = "abs" /\ ~WLess(WInt(32), b.v)
                   THEN [Both(a, b) EXCEPT !.t = "bit", !.mod = Short(b.v)]
                   ELSE Bad(a.refs \o b.refs)

Need(a, t, r) == IF a.ok /\ a.t = t THEN r ELSE Bad(a.refs)
Unary(op, a) ==
  CASE op = "-" -> Need(a, "abs", [a EXCEPT !.v = WNeg(a.v)])
    [] op = "~" -> Need(a, "abs", [a EXCEPT !.v = WNot(a.v)])
    [] op = "LO" -> Need(a, "abs", [a EXCEPT !.v = <<Lo8(a.v), 0, 0, 0>>])
    [] op = "HI" -> Need(a, "abs", [a EXCEPT !.v = <<a.v[1] \div 256, 0, 0, 0>>])
    [] op = "BIT" -> Need(a, "bit", [a EXCEPT !.t = "abs", !.v = WInt(a.mod), !.mod = 0])
    [] op = "ADDR" -> Need(a, "bit", [a EXCEPT !.t = "abs", !.mod = 0])

(*************************************************************************)
(* Expressions.  Binary operators, loosest level first; within a level    *)
(* the first operator that occurs splits, at its last occurrence.         *)
(*************************************************************************)
OP(str, name) == [txt |-> T(str), name |-> name]
LEVELS == << <<OP("\\", "\\")>>,
             <<OP("+", "+"), OP("-", "-")>>,
             <<OP("*", "*"), OP("/", "/")>>,
             <<OP("|", "|"), OP("&", "&"), OP("^", "^")>>,
             <<OP("<<", "<<"), OP(">>", ">>")>> >>
OPCHARS == {92, 43, 45, 42, 47, 124, 38, 94, 60, 62, 126, 40, 41, 123, 125}
FUNCS == <<OP("TIB", "BIT"), OP("RDDA", "ADDR"), OP("OL", "LO"), OP("IH", "HI")>>       \* backwards

\* s backwards, keeping each \ of a string before the character it escapes
Backwards(s) ==
  LET r == Reverse(s)
      n == Len(s)
      step(a, i) ==
        LET c == r[i]
            nxt == IF i < n THEN r[i + 1] ELSE 0
        IN IF c = SQ \/ c = DQ
           THEN LET b == IF c = SQ THEN 1 ELSE 2
                IN [t |-> Append(a.t, c),
                    q |-> IF a.q = 0 THEN b ELSE IF a.q = b /\ nxt /= BSL THEN 0 ELSE a.q]
           ELSE IF c = BSL /\ a.q /= 0 /\ a.t /= <<>>
           THEN [t |-> Append(Append(Front(a.t), BSL), Last(a.t)), q |-> a.q]
           ELSE [t |-> Append(a.t, c), q |-> a.q]
  IN IF Has(s, BSL) THEN FoldLeftDomain(LAMBDA a, i : step(a, i), [t |-> <<>>, q |-> 0], r).t
     ELSE r
\* Operands are examined backwards: t below is a text read from its end, q the
\* lexical state before each of its characters (<<>>: 0 everywhere).
LexR(t) == IF HasAny(t, QUOTES) THEN LexSeq(t) ELSE <<>>
StateAt(q, i) == IF q = <<>> THEN 0 ELSE q[i]

RECURSIVE FindOp(_, _, _, _)
FindOp(t, q, op, i) ==          \* first position >= i of an operator read backwards, 0: none
  IF i + Len(op) > Len(t) + 1 THEN 0
  ELSE IF t[i] = op[1] /\ (Len(op) = 1 \/ t[i + 1] = op[2]) /\ StateAt(q, i) = 0
       THEN i ELSE FindOp(t, q, op, i + 1)

RECURSIVE FirstOp(_, _, _, _)
FirstOp(t, q, lev, j) ==        \* <<operator, position>> in this level
  IF j > Len(lev) THEN <<0, 0>>
  ELSE LET p == IF Has(t, lev[j].txt[1]) THEN FindOp(t, q, lev[j].txt, 1) ELSE 0
       IN IF p /= 0 THEN <<j, p>> ELSE FirstOp(t, q, lev, j + 1)

RECURSIVE EvalR(_, _), EvalLevel(_, _, _, _), EvalFunc(_, _, _, _)

EvalAtom(m, s) ==
  IF GoodName(s)
  THEN LET key == Key(s, m.seg)
           y == Lookup(m, key)[2]
           r == [ok |-> TRUE, t |-> y.t, v |-> y.v, mod |-> y.mod, u |-> y.u, f |-> y.f,
                 kw |-> y.kw, body |-> y.body, refs |-> <<key>>]
       IN IF y.u /\ ~y.f THEN Bad(<<key>>) ELSE r
  ELSE Constant(s)

EvalFunc(m, t, q, j) ==         \* functions, x{y}, parentheses, atoms
  LET n == Len(t) IN
  IF j <= Len(FUNCS)
  THEN LET nm == FUNCS[j].txt   \* backwards
           p == BackB(t, n - Len(nm))           \* where the ( must be
       IN IF t[1] = RP /\ p > 1 /\ t[p] = LP /\ Upper(From(t, n - Len(nm) + 1)) = nm
             /\ StateAt(q, p) = -8 /\ Trim(SubSeq(t, 2, p - 1)) /= <<>>
          THEN Unary(FUNCS[j].name, EvalR(m, Trim(SubSeq(t, 2, p - 1))))
          ELSE EvalFunc(m, t, q, j + 1)
  ELSE LET p == IF t[1] = 125 THEN FindOp(t, q, <<123>>, 2) ELSE 0 IN
  IF p > 0 /\ Trim(SubSeq(t, 2, p - 1)) /= <<>> /\ TrimL(From(t, p + 1)) /= <<>>
  THEN LET a == EvalR(m, TrimL(From(t, p + 1)))
           b == EvalR(m, Trim(SubSeq(t, 2, p - 1)))
       IN IF ~a.ok THEN a ELSE IF ~b.ok THEN Bad(a.refs \o b.refs) ELSE Binary("{", a, b)
  ELSE IF t[1] = RP /\ n > 1 /\ t[n] = LP /\ StateAt(q, n) = -8 /\ Trim(SubSeq(t, 2, n - 1)) /= <<>>
  THEN EvalR(m, Trim(SubSeq(t, 2, n - 1)))
  ELSE EvalAtom(m, Backwards(t))

EvalLevel(m, t, q, l) ==
  LET n == Len(t) IN
  IF l > Len(LEVELS)
  THEN IF n > 1 /\ t[n] = 45 /\ StateAt(q, n) = 0 /\ TrimR(Upto(t, n - 1)) /= <<>>
       THEN Unary("-", EvalR(m, TrimR(Upto(t, n - 1))))
       ELSE IF n > 1 /\ t[n] = 126 /\ StateAt(q, n) = 0 /\ TrimR(Upto(t, n - 1)) /= <<>>
       THEN Unary("~", EvalR(m, TrimR(Upto(t, n - 1))))
       ELSE EvalFunc(m, t, q, 1)
  ELSE LET f == FirstOp(t, q, LEVELS[l], 1)
           op == LEVELS[l][f[1]]
           right == TrimR(Upto(t, f[2] - 1))
           left == TrimL(From(t, f[2] + Len(op.txt)))
       IN IF f[1] = 0 \/ left = <<>> \/ right = <<>>
          THEN EvalLevel(m, t, q, l + 1)
          ELSE LET a == EvalR(m, left) IN
               IF ~a.ok THEN a
               ELSE LET b == EvalR(m, right) IN
                    IF ~b.ok THEN Bad(a.refs \o b.refs) ELSE Binary(op.name, a, b)

EvalR(m, t) ==
  IF ~HasAny(t, OPCHARS) THEN EvalAtom(m, Backwards(t))
  ELSE EvalLevel(m, t, LexR(t), 1)

Eval(m, s) ==
  IF s = <<>> THEN Bad(<<>>)
  ELSE IF ~HasAny(s, OPCHARS) THEN EvalAtom(m, s)
  ELSE EvalR(m, Backwards(s))

\* a whole expression in parentheses may be mistaken for an addressing mode
PAREN == T("(?)")
WarnParen(s) == s /= <<>> /\ s[1] = LP /\ Match(s, PAREN).ok
=============================================================================
