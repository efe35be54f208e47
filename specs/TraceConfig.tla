----------------------------- MODULE TraceConfig ------------------------------
(* Validates runs of the real program on generated configuration files.       *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt, OptFile
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
Table  == JsonDeserialize(OptFile)
Opts == [n \in {Table[i].name : i \in 1..Len(Table)} |-> Table[CHOOSE i \in 1..Len(Table) : Table[i].name = n]]
VARIABLES tr, l, val, state
vars == <<tr, l, val, state>>
C == INSTANCE Config
Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Adv == l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..Len(Index) /\ l = 1 /\ C!Start
Cmd  == More /\ Ev.e = "cmd" /\ C!Cmd(Ev) /\ Adv
File == More /\ Ev.e = "file" /\ C!File(Ev.exists) /\ Adv
Args == More /\ Ev.e = "badargs" /\ state' = "failed" /\ UNCHANGED val /\ Adv
End  == /\ More /\ Ev.e = "end" /\ UNCHANGED <<val, state>>
        /\ Free \/ /\ Ev.outcome = C!Outcome(Ev.print)
                   /\ Ev.outcome = "printed" => \A n \in DOMAIN Opts : Ev.vals[n] = val[n]
        /\ Adv
Done == ~More /\ UNCHANGED vars
Next == Cmd \/ File \/ Args \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
