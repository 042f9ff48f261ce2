------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Object files: what a loader of Motorola S-records and Intel HEX records  *)
(* makes of them.  Independent of the assembler's own code (Machine).       *)
(* A file is a sequence of lines, a line a sequence of character codes.     *)
(***************************************************************************)
EXTENDS Words

HexVal(ch) == IF ch >= 48 /\ ch <= 57 THEN ch - 48 ELSE IF ch >= 65 /\ ch <= 70 THEN ch - 55 ELSE -1
HexPairs(s) == /\ Len(s) % 2 = 0
               /\ \A i \in 1..Len(s) : HexVal(s[i]) >= 0
BytesOf(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]
Sum(b) == FoldLeft(LAMBDA a, x : (a + x) % 256, 0, b)
MAXDATA == 16

\* the address of n bytes, big endian, as a word
AddrOf(b) == LET v(i) == IF i < 0 \/ i >= Len(b) THEN 0 ELSE b[Len(b) - i]
             IN <<v(0) + 256 * v(1), v(2) + 256 * v(3), 0, 0>>
Bytes32(a) == <<a[1], a[2], 0, 0>>      \* addresses have 32 bits
Put(image, a, data) == image \o [i \in 1..Len(data) |-> <<Bytes32(WAddInt(a, i - 1)), data[i]>>]

NoLoad(st, why) == [st EXCEPT !.ok = FALSE, !.why = why]
\* S1, S2, S3 data records, the S9 terminator
LoadS(st, line) ==
  LET t == line[2] - 48
      text == SubSeq(line, 3, Len(line))
      b == BytesOf(text)
      n == t + 1                         \* address bytes
      data == SubSeq(b, n + 2, Len(b) - 1)
      addr == SubSeq(b, 2, n + 1)
  IN IF ~HexPairs(text) THEN NoLoad(st, "not hexadecimal")
     ELSE IF t = 9
     THEN IF b = <<3, 0, 0, 252>> THEN [st EXCEPT !.ended = TRUE] ELSE NoLoad(st, "terminator")
     ELSE IF t \notin {1, 2, 3} THEN NoLoad(st, "record type")
     ELSE IF Len(b) < n + 2 \/ b[1] /= Len(b) - 1 THEN NoLoad(st, "count")
     ELSE IF Sum(b) /= 255 THEN NoLoad(st, "checksum")
     ELSE IF Len(data) > MAXDATA \/ data = <<>> THEN NoLoad(st, "data length")
     ELSE IF t > 1 /\ addr[1] = 0 THEN NoLoad(st, "wider address than needed")
     ELSE [st EXCEPT !.image = Put(@, AddrOf(addr), data), !.kind = @ \cup {"S"}]
LoadHex(st, line) ==
  LET text == SubSeq(line, 2, Len(line))
      b == BytesOf(text)
      data == SubSeq(b, 5, Len(b) - 1)
      off == <<256 * b[2] + b[3], st.base, 0, 0>>
  IN IF ~HexPairs(text) THEN NoLoad(st, "not hexadecimal")
     ELSE IF Len(b) < 5 \/ b[1] /= Len(b) - 5 THEN NoLoad(st, "count")
     ELSE IF Sum(b) /= 0 THEN NoLoad(st, "checksum")
     ELSE CASE b[4] = 0 -> IF Len(data) > MAXDATA \/ data = <<>> THEN NoLoad(st, "data length")
                           ELSE [st EXCEPT !.image = Put(@, off, data), !.kind = @ \cup {"H"}]
            [] b[4] = 1 -> IF b = <<0, 0, 0, 1, 255>> THEN [st EXCEPT !.ended = TRUE] ELSE NoLoad(st, "terminator")
            [] b[4] = 4 -> IF Len(data) /= 2 \/ b[2] /= 0 \/ b[3] /= 0 THEN NoLoad(st, "extended address")
                           ELSE [st EXCEPT !.base = 256 * data[1] + data[2]]
            [] OTHER -> NoLoad(st, "record type")
LoadLine(st, line) ==
  IF ~st.ok THEN st
  ELSE IF st.ended THEN NoLoad(st, "record after the terminator")
  ELSE IF Len(line) >= 2 /\ line[1] = 83 THEN LoadS(st, line)
  ELSE IF Len(line) >= 2 /\ line[1] = 58 THEN LoadHex(st, line)
  ELSE NoLoad(st, "neither S-record nor HEX record")
Load0 == [ok |-> TRUE, why |-> "", image |-> <<>>, base |-> 0, ended |-> FALSE, kind |-> {}]
Load(lines) ==
  LET st == FoldLeft(LoadLine, Load0, lines)
  IN IF st.ok /\ ~st.ended THEN NoLoad(st, "no terminator") ELSE st
=============================================================================
