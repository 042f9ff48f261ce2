-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* 64-bit two's complement words: <<l0, l1, l2, l3>>, 16 bits each, least   *)
(* significant first (TLC's integers have 32 bits only).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC

B16 == 65536
P2 == [k \in 0..30 |-> 2^k]
W0 == <<0, 0, 0, 0>>
W1 == <<1, 0, 0, 0>>
WInt(n) == IF n >= 0 THEN <<n % B16, n \div B16, 0, 0>>
           ELSE <<n % B16, (n \div B16) % B16, 65535, 65535>>
WNot(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
WAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div B16
      s3 == a[3] + b[3] + s2 \div B16
      s4 == a[4] + b[4] + s3 \div B16
  IN <<s1 % B16, s2 % B16, s3 % B16, s4 % B16>>
WNeg(a) == WAdd(WNot(a), W1)
WSub(a, b) == WAdd(a, WNeg(b))
WInc(a) == IF a[1] < 65535 THEN <<a[1] + 1, a[2], a[3], a[4]>> ELSE WAdd(a, W1)
WAddInt(a, n) == WAdd(a, WInt(n))
Negative(a) == a[4] >= 32768
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

ULess(a, b) == \/ a[4] < b[4]
               \/ a[4] = b[4] /\ \/ a[3] < b[3]
                                 \/ a[3] = b[3] /\ \/ a[2] < b[2]
                                                   \/ a[2] = b[2] /\ a[1] < b[1]
WLess(a, b) == IF Negative(a) /= Negative(b) THEN Negative(a) ELSE ULess(a, b)

\* does a fit an integer of TLC, and its value then
Fits(a) == \/ a[4] = 0 /\ a[3] = 0 /\ a[2] < 32768
           \/ a[4] = 65535 /\ a[3] = 65535 /\ a[2] >= 32768 /\ (a[2] > 32768 \/ a[1] > 0)
Val(a) == IF a[4] = 0 THEN a[2] * B16 + a[1] ELSE (a[2] - B16) * B16 + a[1]
Lo8(a) == a[1] % 256
Lo16(a) == a[1]
Byte(a, k) == LET l == a[k \div 2 + 1] IN IF k % 2 = 0 THEN l % 256 ELSE l \div 256   \* k = 0..7

\* shifts by 0..63 (the count of the machine instruction is taken modulo 64)
ShCount(b) == b[1] % 64
WShl(a, n) ==
  LET w == n \div 16
      k == n % 16
      lim(i) == IF i < 1 THEN 0 ELSE a[i]
      \* (l * 2^k) mod 2^16 without leaving 32 bits, plus the bits shifted in
      f(i) == (lim(i) % P2[16 - k]) * P2[k] + (IF k = 0 THEN 0 ELSE lim(i - 1) \div P2[16 - k])
  IN <<f(1 - w), f(2 - w), f(3 - w), f(4 - w)>>
WSar(a, n) ==
  LET w == n \div 16
      k == n % 16
      fill == IF Negative(a) THEN 65535 ELSE 0
      lim(i) == IF i > 4 THEN fill ELSE a[i]
      f(i) == lim(i) \div P2[k] + (lim(i + 1) % P2[k]) * P2[16 - k]
  IN <<f(1 + w), f(2 + w), f(3 + w), f(4 + w)>>
WShr(a, n) ==                   \* unsigned
  LET w == n \div 16
      k == n % 16
      lim(i) == IF i > 4 THEN 0 ELSE a[i]
      f(i) == lim(i) \div P2[k] + (lim(i + 1) % P2[k]) * P2[16 - k]
  IN <<f(1 + w), f(2 + w), f(3 + w), f(4 + w)>>

\* product modulo 2^64, byte by byte of b
MulByte(a, d) ==                \* d in 0..255
  LET p1 == a[1] * d
      p2 == a[2] * d + p1 \div B16
      p3 == a[3] * d + p2 \div B16
      p4 == a[4] * d + p3 \div B16
  IN <<p1 % B16, p2 % B16, p3 % B16, p4 % B16>>
WMul(a, b) ==
  FoldLeft(LAMBDA acc, k : IF Byte(b, k) = 0 THEN acc
                           ELSE WAdd(acc, WShl(MulByte(a, Byte(b, k)), 8 * k)),
           W0, <<0, 1, 2, 3, 4, 5, 6, 7>>)

\* unsigned division, bit by bit
UDivMod(a, b) ==
  FoldLeft(LAMBDA qr, k :
             LET bit == (a[(63 - k) \div 16 + 1] \div P2[(63 - k) % 16]) % 2
                 r == WAdd(WShl(qr[2], 1), <<bit, 0, 0, 0>>)
                 over == Negative(qr[2])      \* a bit fell off the top
             IN IF over \/ ~ULess(r, b)
                THEN <<WAdd(WShl(qr[1], 1), W1), WSub(r, b)>>
                ELSE <<WShl(qr[1], 1), r>>,
           <<W0, W0>>, [i \in 1..64 |-> i - 1])
WAbs(a) == IF Negative(a) THEN WNeg(a) ELSE a
\* truncating signed division, b /= 0
WDiv(a, b) ==
  IF Fits(a) /\ Fits(b) /\ ~Negative(a) /\ ~Negative(b) THEN WInt(Val(a) \div Val(b))
  ELSE LET q == UDivMod(WAbs(a), WAbs(b))[1]
       IN IF Negative(a) /= Negative(b) THEN WNeg(q) ELSE q

\* printing
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex2(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
Nibble(a, k) == LET l == a[k \div 4 + 1] IN (l \div P2[4 * (k % 4)]) % 16    \* k = 0..15
HexN(a, n) == TLCEval([i \in 1..n |-> HexDigit(Nibble(a, n - i))])
RECURSIVE LowHexDigits(_, _)
LowHexDigits(a, k) ==           \* as %lx
  IF k = 0 THEN <<IF Nibble(a, 0) < 10 THEN 48 + Nibble(a, 0) ELSE 87 + Nibble(a, 0)>>
  ELSE IF \A j \in k..15 : Nibble(a, j) = 0 THEN LowHexDigits(a, k - 1)
  ELSE [i \in 1..(k + 1) |-> LET d == Nibble(a, k + 1 - i) IN IF d < 10 THEN 48 + d ELSE 87 + d]
LowHex(a) == LowHexDigits(a, 15)
RECURSIVE UDec(_)
UDec(a) ==
  LET r4 == a[4] % 10
      r3 == (r4 * B16 + a[3]) % 10
      r2 == (r3 * B16 + a[2]) % 10
      r1 == (r2 * B16 + a[1]) % 10
      q == <<(r2 * B16 + a[1]) \div 10, (r3 * B16 + a[2]) \div 10, (r4 * B16 + a[3]) \div 10, a[4] \div 10>>
  IN IF q = W0 THEN <<48 + r1>> ELSE Append(UDec(q), 48 + r1)
SDec(a) == IF Negative(a) THEN <<45>> \o UDec(WNeg(a)) ELSE UDec(a)
=============================================================================
