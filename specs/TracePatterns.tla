--------------------------- MODULE TracePatterns ---------------------------
(* Validates the decisions of the daemon's pattern options against Patterns.  *)
EXTENDS Patterns, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, opts      \* opts: option -> [unset, list]
vars == <<tr, l, opts>>
Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Adv == l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..Len(Index) /\ l = 1 /\ opts = <<>>

\* The daemon reads its configuration: one option per pattern list. It starts
\* exactly when all lists are well formed.
Config == /\ More /\ Ev.e = "conf"
          /\ \A i \in 1..Len(Ev.opts) : Ev.opts[i].unset \/ IsListText(Ev.opts[i].text, Ev.opts[i].list)
          /\ opts' = Ev.opts
          /\ Free \/ (Ev.ok <=> \A i \in 1..Len(Ev.opts) : Ev.opts[i].unset \/ WellFormed(Ev.opts[i].list))
          /\ Adv
Match == /\ More /\ Ev.e = "m"
         /\ Free \/ Ev.r = (IF Accepts(opts[Ev.o], Ev.name) THEN 0 ELSE 1)
         /\ UNCHANGED opts /\ Adv
Done == ~More /\ UNCHANGED vars
Next == Config \/ Match \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
