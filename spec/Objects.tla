------------------------------ MODULE Objects ------------------------------
(* Object files the implementation wrote, record by record through the loader. *)
EXTENDS Loader, Json, IOUtils
VARIABLES n, i, st      \* the file, the records read, the loader's state

ASSUME TLCSet(1, JsonDeserialize(IOEnv.CASES)) /\ TLCSet(2, IOEnv.RESULTS)
File == TLCGet(1)[n]
Init == n \in 1..Len(TLCGet(1)) /\ i = 0 /\ st = Load0
Read == /\ i >= 0 /\ i < Len(File.lines) /\ st.ok
        /\ i' = i + 1 /\ st' = LoadLine(st, File.lines[i + 1]) /\ n' = n
Report == /\ i /= -1 /\ (~st.ok \/ i = Len(File.lines))
          /\ LET r == IF st.ok /\ ~st.ended THEN NoLoad(st, "no terminator") ELSE st IN
             JsonSerialize(TLCGet(2) \o ToString(n) \o ".json", [id |-> File.id, ok |-> r.ok, why |-> r.why, at |-> i, image |-> r.image, kind |-> r.kind])
          /\ i' = -1 /\ UNCHANGED <<n, st>>
Next == Read \/ Report
=============================================================================
