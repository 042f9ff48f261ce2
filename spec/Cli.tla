-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: words are read one by one, then the input is assembled *)
(* and the named file written, removed or left alone.  What the assembly of *)
(* an input gives (see Crasm) comes as a table.                             *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils
VARIABLES args, cl, files, out

ASSUME TLCSet(1, JsonDeserialize(IOEnv.CASES)) /\ TLCSet(2, IOEnv.RESULTS)
W == TLCGet(1)                  \* words, max, inputs, outputs
Words_ == W.words
Inputs == W.inputs              \* << [name, ok, fatal, opens, errors] >>, the readable files
Existing == W.existing          \* the names of all files there are before
Writable(name) == \A i \in 1..Len(W.unwritable) : W.unwritable[i] /= name

NoName == <<>>
Cl0 == [l |-> FALSE, s |-> FALSE, x |-> FALSE, o |-> FALSE, target |-> "", input |-> "", have |-> FALSE, wait |-> FALSE, bad |-> FALSE]
Letters == {"l", "s", "x", "o"}
RECURSIVE Letter(_, _, _)
Letter(k, w, i) ==              \* the letters of an option word
  IF i > Len(w) \/ k.bad THEN k
  ELSE LET ch == SubSeq(w, i, i) IN
       Letter(CASE ch = "l" -> [k EXCEPT !.l = TRUE]
                [] ch = "s" -> [k EXCEPT !.s = TRUE]
                [] ch = "x" -> [k EXCEPT !.x = TRUE]
                [] ch = "o" -> [k EXCEPT !.wait = i = Len(w) /\ ~k.o]
                [] OTHER -> [k EXCEPT !.bad = TRUE], w, i + 1)
Word(k, w) ==
  IF k.wait THEN [k EXCEPT !.wait = FALSE, !.o = TRUE, !.target = w]
  ELSE IF Len(w) > 0 /\ SubSeq(w, 1, 1) = "-" THEN Letter(k, w, 2)
  ELSE IF k.have THEN [k EXCEPT !.bad = TRUE]
  ELSE [k EXCEPT !.have = TRUE, !.input = w]

Init == args = <<>> /\ cl = Cl0 /\ files = [n \in {Existing[i] : i \in 1..Len(Existing)} |-> "old"] /\ out = "reading"
Read == /\ out = "reading" /\ Len(args) < W.max
        /\ \E i \in 1..Len(Words_) : args' = Append(args, Words_[i]) /\ cl' = Word(cl, Words_[i])
        /\ UNCHANGED <<files, out>>
Set(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
In == First([i \in 1..Len(Inputs) |-> Inputs[i].name = cl.input])
End ==
  /\ out = "reading" /\ UNCHANGED <<args, cl>>
  /\ LET r == Inputs[In] IN
     IF cl.bad \/ ~cl.have THEN out' = "usage" /\ files' = files
     ELSE IF In = 0 THEN out' = "fatal" /\ files' = files
     ELSE IF r.fatal THEN out' = "fatal" /\ files' = files
     ELSE IF cl.o /\ r.opens /\ ~Writable(cl.target) THEN out' = "fatal" /\ files' = files
     ELSE /\ out' = "assembled"
          /\ files' = IF ~cl.o THEN files
                      ELSE IF r.errors THEN Without(files, cl.target)   \* never a directory
                      ELSE IF r.opens THEN Set(files, cl.target, "object")
                      ELSE files
Report == /\ out \notin {"reading", "done"}
          /\ JsonSerialize(TLCGet(2) \o ToString(TLCGet("level")) \o "-" \o FoldLeft(LAMBDA a, w : a \o "_" \o ToString(First([i \in 1..Len(Words_) |-> Words_[i] = w])), "", args) \o ".json",
                           [args |-> args, cl |-> cl, files |-> files, out |-> out])
          /\ out' = "done" /\ UNCHANGED <<args, cl, files>>
Next == Read \/ End \/ Report

\* What the rules amount to, without going word by word
IsOption(w) == Len(w) > 0 /\ SubSeq(w, 1, 1) = "-"
HasLetter(w, ch) == \E j \in 2..Len(w) : SubSeq(w, j, j) = ch
EndsInO(w) == IsOption(w) /\ Len(w) > 1 /\ SubSeq(w, Len(w), Len(w)) = "o"
TargetAt == First([i \in 1..Len(args) |-> i > 1 /\ EndsInO(args[i - 1])])      \* 0: none
Rest == {i \in 1..Len(args) : i /= TargetAt}
Options == {args[i] : i \in {j \in Rest : IsOption(args[j])}}
Named == {j \in Rest : ~IsOption(args[j])}
Proper == \A w \in Options : \A j \in 2..Len(w) : SubSeq(w, j, j) \in Letters
Rules ==
  out \in {"assembled", "fatal"} =>
     /\ Proper /\ Cardinality(Named) = 1
     /\ cl.l = \E w \in Options : HasLetter(w, "l")
     /\ cl.s = \E w \in Options : HasLetter(w, "s")
     /\ cl.x = \E w \in Options : HasLetter(w, "x")
     /\ cl.o = (TargetAt /= 0)
     /\ cl.o => cl.target = args[TargetAt]
UsageOnlyWhenWrong == out = "usage" => ~Proper \/ Cardinality(Named) /= 1
OnlyTheTarget == \A n \in DOMAIN files \cup {Existing[i] : i \in 1..Len(Existing)} :
                   (n \notin DOMAIN files \/ files[n] /= "old") => cl.o /\ n = cl.target /\ out \in {"assembled", "done"}
=============================================================================
