-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Source text and the pattern language of the assembler.                   *)
(*                                                                          *)
(* A text is a sequence of character codes.  Patterns (see Match) describe  *)
(* the lexical forms of statements and operands: quoted strings and         *)
(* parenthesised parts are opaque to them.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

ALLCH == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
ORD == ("\n" :> 10) @@ ("\t" :> 9) @@ FoldLeft(LAMBDA acc, i : (SubSeq(ALLCH, i, i) :> (31 + i)) @@ acc, <<>>, [i \in 1..95 |-> i])
\* the text of a TLA+ string
T(str) == TLCEval([i \in 1..Len(str) |-> ORD[SubSeq(str, i, i)]])

\* the first true one of a sequence, 0 if none (no CHOOSE: TLC would evaluate
\* the constants that use it again and again)
RECURSIVE FirstFrom(_, _, _)
FirstFrom(f, i, n) == IF i > n THEN 0 ELSE IF f[i] THEN i ELSE FirstFrom(f, i + 1, n)
First(f) == FirstFrom(f, 1, Len(f))

TAB == 9
SP == 32
DQ == 34
SQ == 39
LP == 40
RP == 41
BSL == 92

Blank(c) == c = 32 \/ c = 9
IsDigit(c) == c >= 48 /\ c <= 57
IsUp(c) == c >= 65 /\ c <= 90
IsLow(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUp(c) \/ IsLow(c)
Printable(c) == c >= 32 /\ c <= 126
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Upper(s) == TLCEval([i \in 1..Len(s) |-> Up(s[i])])
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
HasAny(s, cs) == \E i \in 1..Len(s) : s[i] \in cs
Spaces(n) == TLCEval([i \in 1..n |-> 32])

RECURSIVE SkipB(_, _)
SkipB(s, i) == IF i <= Len(s) /\ Blank(s[i]) THEN SkipB(s, i + 1) ELSE i
RECURSIVE BackB(_, _)
BackB(s, i) == IF i >= 1 /\ Blank(s[i]) THEN BackB(s, i - 1) ELSE i
TrimL(s) == From(s, SkipB(s, 1))
TrimR(s) == Upto(s, BackB(s, Len(s)))
Trim(s) == TrimL(TrimR(s))

(***************************************************************************)
(* Opacity: the lexical state before each character.  Inside '..' or ".."   *)
(* (with \ escaping) or inside parentheses nothing but the closing          *)
(* character has a meaning.  State: 1 in '..', 2 in "..", +4 after a \,      *)
(* +8 per open parenthesis.                                                 *)
(***************************************************************************)
QUOTES == {SQ, DQ, LP, RP}
Bit4(q) == (q % 8) >= 4
Lex(q, c) ==
  IF Bit4(q) THEN q - 4
  ELSE LET str == q % 4 IN
       IF c = BSL THEN (IF str /= 0 THEN q + 4 ELSE q)
       ELSE IF c = SQ THEN (IF str = 0 THEN q + 1 ELSE IF str = 1 THEN q - 1 ELSE q)
       ELSE IF c = DQ THEN (IF str = 0 THEN q + 2 ELSE IF str = 2 THEN q - 2 ELSE q)
       ELSE IF c = LP THEN (IF str = 0 THEN q + 8 ELSE q)
       ELSE IF c = RP THEN (IF str = 0 THEN q - 8 ELSE q)
       ELSE q
LexSeq(s) == FoldLeft(LAMBDA acc, c : Append(acc, Lex(acc[Len(acc)], c)), <<0>>, s)

(***************************************************************************)
(* Match(s, p): does s have the form p?  In p, ? stands for any text (the   *)
(* shortest that lets the rest up to the next ? match outside of opaque     *)
(* parts; a final ? takes all the rest), _ for any number of blanks, a      *)
(* space for one blank, and any other character for itself in either case.  *)
(* cap: the texts standing for the ?s;  at: where the last one starts.      *)
(***************************************************************************)
NoMatch == [ok |-> FALSE, cap |-> <<>>, at |-> 0]

\* matches p[j..] up to the next ? or the end, at s[i..]; 0 if it fails
RECURSIVE Seg(_, _, _, _)
Seg(s, i, p, j) ==
  IF j > Len(p) THEN (IF i > Len(s) THEN i ELSE 0)
  ELSE IF p[j] = 63 THEN i
  ELSE IF p[j] = 95 THEN Seg(s, SkipB(s, i), p, j + 1)
  ELSE IF i <= Len(s) /\ (Up(p[j]) = Up(s[i]) \/ (p[j] = 32 /\ s[i] = 9))
       THEN Seg(s, i + 1, p, j + 1)
       ELSE 0
RECURSIVE NextWild(_, _)
NextWild(p, j) == IF j > Len(p) THEN 0 ELSE IF p[j] = 63 THEN j ELSE NextWild(p, j + 1)

\* first k >= i with q[k] = 0 where the segment after wildcard j matches
RECURSIVE Find(_, _, _, _, _, _)
Find(s, q, o, k, p, j) ==
  IF k > Len(s) + 1 THEN <<0, 0>>
  ELSE LET e == IF q = <<>> \/ q[k - o] = 0 THEN Seg(s, k, p, j) ELSE 0
       IN IF e /= 0 THEN <<k, e>> ELSE Find(s, q, o, k + 1, p, j)

RECURSIVE Wild(_, _, _, _, _)
Wild(s, i, p, j, cap) ==        \* p[j] = ?, the wildcard starts at s[i]
  IF j = Len(p) THEN [ok |-> TRUE, cap |-> Append(cap, From(s, i)), at |-> i - 1]
  ELSE LET rest == From(s, i)
           q == IF HasAny(rest, QUOTES) THEN LexSeq(rest) ELSE <<>>
           f == Find(s, q, i - 1, i, p, j + 1)
       IN IF f[1] = 0 THEN NoMatch
          ELSE LET n == NextWild(p, j + 1)
                   c2 == Append(cap, SubSeq(s, i, f[1] - 1))
               IN IF n = 0 THEN [ok |-> TRUE, cap |-> c2, at |-> i - 1]
                  ELSE Wild(s, f[2], p, n, c2)

Match(s, p) ==
  LET e == Seg(s, 1, p, 1)
  IN IF e = 0 THEN NoMatch
     ELSE LET n == NextWild(p, 1)
          IN IF n = 0 THEN [ok |-> TRUE, cap |-> <<>>, at |-> 0]
             ELSE Wild(s, e, p, n, <<>>)

(***************************************************************************)
(* Names                                                                    *)
(***************************************************************************)
NAMELEN == 48
NameStart(c) == IsAlpha(c) \/ c = 95 \/ c = 46
NameChar(c) == NameStart(c) \/ IsDigit(c)
GoodName(s) ==
  /\ Len(s) >= 1 /\ Len(s) <= NAMELEN
  /\ \/ s = <<42>>
     \/ NameStart(s[1]) /\ \A i \in 2..Len(s) : NameChar(s[i])

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
PadL(s, n) == IF Len(s) >= n THEN s ELSE Spaces(n - Len(s)) \o s

\* the identity of a name: case does not count, local names belong to a scope
Key(s, scope) ==
  IF s /= <<>> /\ s[1] = 46 THEN Digits(scope) \o Upper(s) ELSE Upper(s)

RECURSIVE Less(_, _)             \* alphabetical order
Less(a, b) ==
  IF a = <<>> THEN b /= <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE IF a[1] /= b[1] THEN a[1] < b[1]
  ELSE Less(Tail(a), Tail(b))
=============================================================================
