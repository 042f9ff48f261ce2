------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* What the specification of the assembler guarantees: invariants of its    *)
(* states and properties of its steps, for every program.                   *)
(***************************************************************************)
EXTENDS Crasm, Loader

Stopped == m.at \in {"stop", "done"} /\ m.fatal = ""
Success == Stopped /\ m.nerr = 0

\* P01, P02: loading the object file gives back the bytes defined, each at its address
ObjectIsImage == Success /\ m.opened => LET l == Load(m.recs) IN l.ok /\ l.image = [i \in 1..Len(m.image) |-> <<Bytes32(m.image[i][1]), m.image[i][2]>>]
\* P03: no object file after an error; the totals are those of the messages
Messages(k) == Len(SelectSeq(m.events, LAMBDA e : e[1] = k))
ObjectIffSuccess == Stopped => (ObjectFile(m) /= <<>> <=> m.opened /\ m.nerr = 0)
TotalsAgree == m.at /= "fetch" /\ m.pass = 2 /\ ~m.err /\ m.fatal = ""
               => m.nerr = Messages("E") /\ m.nwarn = Messages("W")
LengthAgrees == Stopped => m.codelen = Len(m.image)
\* P04, P05: a forward reference saw the value of the definition
PassesAgree == Success => \A k \in DOMAIN m.sym :
                 m.sym[k].f /\ ~m.sym[k].u /\ m.sym[k].nr /\ m.sym[k].t = "abs" /\ k \in DOMAIN m.first
                 => m.sym[k].v = m.first[k]
\* P06: what is not yet defined in this pass is no label twice
StarNeverUsable == m.pass > 0 => STAR \in DOMAIN m.sym
\* P13: code is generated at the location counter
PcIsStar == m.at = "exec" /\ m.fl.orggv => m.pc = m.sym[STAR].v
\* P11, P12, P28: the contexts are balanced and bounded
Calls == Len(SelectSeq(m.ctl, LAMBDA x : x.k = "call"))
Bounded == m.pass > 0 => /\ Len(m.src) \in 1..MAXDEPTH
                         /\ m.mlev = Calls
                         /\ Len(SelectSeq(m.src, LAMBDA f : f.k = "macro")) = Calls
                         /\ \A i \in 1..Len(m.ctl) : m.ctl[i].k = "def" => i = Len(m.ctl)
\* P07: scopes are numbered in order of appearance, the one in force is known
ScopeKnown == m.seg <= m.this
\* P10: a branch is executed only if all around it are
Selected == \A i \in 2..Len(m.ctl) : m.ctl[i].in2 => m.ctl[i - 1].in2
\* P24: no line is longer than the line length, no page than the page length (unless it was made shorter on the way)
LineFits == Len(m.lb) <= m.llen \/ m.fatal /= ""

\* P10: a statement that is skipped defines nothing, moves nothing, emits nothing
\* and is wrong only in the nesting of conditionals and macros
Quiet(a, b) == a.image = b.image /\ a.recs = b.recs /\ a.sym = b.sym /\ a.pc = b.pc /\ a.seg = b.seg /\ a.src = b.src
SkippedIsQuietStep == m.at = "exec" /\ ~m.st2 /\ m.d.kw \notin (CondKw \cup MacroKw)
                     => Quiet(m, m') /\ m'.nerr = m.nerr
SkippedIsQuiet == [][SkippedIsQuietStep]_<<c, m>>
SkippedDefinesNothingStep == m.at = "exec" /\ ~m.st2 => m'.image = m.image /\ m'.sym = m.sym /\ m'.pc = m.pc
SkippedDefinesNothing == [][SkippedDefinesNothingStep]_<<c, m>>
\* P01: what is assembled is never taken back within a pass
AppendOnlyStep == m'.pass = m.pass => IsPrefix(m.image, m'.image) /\ IsPrefix(m.recs, m'.recs) /\ IsPrefix(m.events, m'.events)
AppendOnly == [][AppendOnlyStep]_<<c, m>>
\* P11: a call that ends gives back the scope, the line number and the sources of its caller
CallReturnsStep == m'.pass = m.pass /\ m'.mlev < m.mlev
                  => LET x == SelectSeq(m.ctl, LAMBDA y : y.k = "call")[m'.mlev + 1] IN
                     m'.seg = x.seg /\ Len(m'.src) = x.depth /\ m'.ln = m.src[x.depth + 1].ln
CallReturns == [][CallReturnsStep]_<<c, m>>
\* P06: a label keeps its value within a pass
LabelsStayStep == m'.pass = m.pass =>
                 \A k \in DOMAIN m.sym : ~m.sym[k].u /\ m.sym[k].nr /\ m.sym[k].t = "abs" /\ k /= STAR
                   => m'.sym[k].v = m.sym[k].v
LabelsStay == [][LabelsStayStep]_<<c, m>>
\* P13: only an assignment or the statement's own bytes move the location counter
StarMovesStep == m.at = "exec" /\ m'.at = "fetch" /\ m'.sym[STAR].v /= m.sym[STAR].v
                => m.d.kw \in ({"equ", "db", "dw", "ddb", "dl", "ds", "asc", "align"} \cup InstrKw)
StarMoves == [][StarMovesStep]_<<c, m>>
\* P19: at most one error in a statement
OneErrorStep == m'.pass = m.pass => m'.nerr <= m.nerr + 1
OneError == [][OneErrorStep]_<<c, m>>
\* P24: no page grows over its length
PageFitsStep == m'.plen = m.plen /\ m.plen /= 0 /\ m.ppos <= m.plen /\ ~m.fl.noerr => m'.ppos <= m'.plen \/ m'.err
PageFits == [][PageFitsStep]_<<c, m>>

\* all of them, for runs on programs that are given
Invariants == /\ ObjectIsImage /\ ObjectIffSuccess /\ TotalsAgree /\ LengthAgrees /\ PassesAgree /\ StarNeverUsable
              /\ PcIsStar /\ Bounded /\ ScopeKnown /\ Selected /\ LineFits
Steps == /\ SkippedIsQuietStep /\ SkippedDefinesNothingStep /\ AppendOnlyStep /\ CallReturnsStep
         /\ LabelsStayStep /\ StarMovesStep /\ OneErrorStep /\ PageFitsStep
=============================================================================
