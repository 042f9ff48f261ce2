------------------------------- MODULE Pairs -------------------------------
(***************************************************************************)
(* Groups of programs that are to mean the same: the assembler runs one     *)
(* variant after the other, and what counts is compared with the first.     *)
(* A variant: a case, with map the line of the first variant's main file    *)
(* that each line of its main file stands for.  Where what is "image", the  *)
(* first is a program whose bytes are known by construction, the second     *)
(* these bytes as DB lines: only the memory image is to be the same.        *)
(***************************************************************************)
EXTENDS Crasm, Json, IOUtils
VARIABLE ref            \* what the first variant gave

ASSUME TLCSet(1, JsonDeserialize(IOEnv.CASES)) /\ TLCSet(2, IOEnv.RESULTS)
Group(g) == TLCGet(1)[g]
CaseOfVariant(x) == Group(x[1])[x[2]]

Same(mm, map) ==        \* what the variants have in common
  [image |-> mm.image, object |-> ObjectFile(mm), codelen |-> mm.codelen, nerr |-> mm.nerr, fatal |-> mm.fatal,
   errs |-> LET e == SelectSeq(mm.events, LAMBDA y : y[1] = "E")
            IN [i \in 1..Len(e) |-> IF e[i][2] \in DOMAIN map THEN map[e[i][2]] ELSE e[i][2]]]
Bytes(mm) == [image |-> mm.image, nerr |-> mm.nerr, fatal |-> mm.fatal]
Seen == IF "what" \in DOMAIN Case(c) THEN Bytes(m) ELSE Same(m, Case(c).map)
Result == [id |-> Case(c).id, rows |-> m.rows, events |-> m.events, recs |-> ObjectFile(m), opened |-> m.opened,
           nerr |-> m.nerr, nwarn |-> m.nwarn, fatal |-> m.fatal, codelen |-> m.codelen]
Init == \E g \in 1..Len(TLCGet(1)) : c = <<g, 1>> /\ m = StartPass(Blank0, 1) /\ ref = << >>
Step_ == Next /\ ref' = ref
Report == /\ m.at = "stop"
          /\ JsonSerialize(TLCGet(2) \o Case(c).id \o ".json", Result)
          /\ ref' = IF ref = << >> THEN <<Seen>> ELSE ref
          /\ IF c[2] < Len(Group(c[1])) THEN c' = <<c[1], c[2] + 1>> /\ m' = StartPass(Blank0, 1)
             ELSE c' = c /\ m' = [m EXCEPT !.at = "done"]
PairsNext == Step_ \/ Report
\* a relation between behaviours: no variant differs from the first
Alike == m.at = "stop" /\ ref /= << >> => Seen = ref[1]
=============================================================================
