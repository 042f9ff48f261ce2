-------------------------------- MODULE Run --------------------------------
(* Behaviours of the cases in a JSON file; each result goes to a file of its own
   (the writes of several workers to one file could mix). *)
EXTENDS Props, Json, IOUtils

\* read once: TLC would read the file again at every use of a definition that depends on IOEnv
ASSUME TLCSet(1, JsonDeserialize(IOEnv.CASES)) /\ TLCSet(2, IOEnv.RESULTS)
CaseOfFile(n) == TLCGet(1)[n]
Result == [id |-> Case(c).id, rows |-> m.rows, events |-> m.events, recs |-> ObjectFile(m), opened |-> m.opened,
           nerr |-> m.nerr, nwarn |-> m.nwarn, fatal |-> m.fatal, codelen |-> m.codelen]
Report == /\ m.at = "stop"
          /\ JsonSerialize(TLCGet(2) \o ToString(c) \o ".json", Result)
          /\ m' = [m EXCEPT !.at = "done"] /\ c' = c
Init == c \in 1..Len(TLCGet(1)) /\ m = StartPass(Blank0, 1)
RunNext == Next \/ Report
\* the guarantees of Props, on all programs but the longest (they look at all of the state)
Moderate == LET x == Case(c) IN Len(x.files[1].lines) <= 100
Holds == Moderate => Invariants
Goes == [][Moderate => Steps]_<<c, m>>
=============================================================================
