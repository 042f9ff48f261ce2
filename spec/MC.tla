--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* All programs of a small world.  An author writes the program while the   *)
(* first pass reads it: whenever the reader has come to the last line       *)
(* written, the author may add a piece or end the text.                     *)
(* c: the case so far, with the indices of the pieces written (path).       *)
(***************************************************************************)
EXTENDS Props, Themes, Json, IOUtils

ASSUME TLCSet(1, Themes[IOEnv.THEME]) /\ TLCSet(2, IOEnv.RESULTS) /\ TLCSet(3, IOEnv.TIER)
W == TLCGet(1)
MaxPieces == IF TLCGet(3) = "quick" THEN W.q ELSE W.t
CaseOfC(x) == x

\* the text s after the text whose lines are ls (the last one is unfinished)
Add(ls, s) == FoldLeft(LAMBDA a, ch : IF ch = 10 THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, ch)], ls, s)
Pieces == TLCEval([i \in 1..Len(W.alpha) |-> T(W.alpha[i])])
OptOf(s, ch) == \E i \in 1..Len(s) : SubSeq(s, i, i) = ch
MCInit ==
  /\ \E k \in 1..Len(W.opts) :
       LET s == W.opts[k] IN
       c = [path |-> s, n |-> 0, done |-> FALSE,
            files |-> <<[name |-> <<>>, lines |-> Add(<< <<>> >>, T(W.pre))]>>
                      \o [i \in 1..Len(W.files) |-> [name |-> T(W.files[i][1]), lines |-> Add(<< <<>> >>, T(W.files[i][2]))]],
            o |-> OptOf(s, "o"), l |-> OptOf(s, "l"), s |-> OptOf(s, "s"), x |-> OptOf(s, "x")]
  /\ m = StartPass(Blank0, 1)

\* the reader is about to read the last line
AtEnd == LET l == Leave(m) IN m.at = "fetch" /\ Depth(l) = 0 /\ Top(l).i = Len(c.files[1].lines) - 1
Waiting == m.pass = 1 /\ ~c.done /\ AtEnd
Write ==
  /\ Waiting /\ c.n < MaxPieces
  /\ \E i \in 1..Len(Pieces) :
       c' = [c EXCEPT !.path = @ \o "-" \o ToString(i), !.n = @ + 1, !.files[1].lines = Add(@, Pieces[i])]
  /\ m' = m
Finish == Waiting /\ c' = [c EXCEPT !.done = TRUE, !.files[1].lines = Add(@, T(W.post))] /\ m' = m
Assemble == ~Waiting /\ Next

Result == [id |-> c.path, files |-> c.files, o |-> c.o, l |-> c.l, s |-> c.s, x |-> c.x,
           rows |-> m.rows, events |-> m.events, recs |-> ObjectFile(m), opened |-> m.opened,
           nerr |-> m.nerr, nwarn |-> m.nwarn, fatal |-> m.fatal, codelen |-> m.codelen]
Report == /\ m.at = "stop"
          /\ JsonSerialize(TLCGet(2) \o c.path \o ".json", Result)
          /\ m' = [m EXCEPT !.at = "done"] /\ c' = c
Done_ == m.at = "done" /\ UNCHANGED <<c, m>>     \* anything else that has no successor is a deadlock
MCNext == Write \/ Finish \/ Assemble \/ Report \/ Done_

\* P28: once the author has ended the text, the assembly comes to its end
MCSpec == MCInit /\ [][MCNext]_<<c, m>> /\ WF_<<c, m>>(Assemble \/ Report)
Terminates == c.done ~> m.at = "done"
=============================================================================
