---------------------------- MODULE TracePeriodic ----------------------------
(* Validates turns of the real main loop.                                     *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, period, next, lastmin, hup, over, rtx, limits, done
vars == <<tr, l, period, next, lastmin, hup, over, rtx, limits, done>>
Works == {"pctl", "queue", "qstate", "stats", "server", "filter", "truncate", "dbstats", "load"}
P == INSTANCE Periodic
Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Adv == l' = l + 1 /\ UNCHANGED tr
First == Events[Index[tr].a]
Init == /\ tr \in 1..Len(Index) /\ l = 2
        /\ P!Start(0, First.m, First.p, First.lim)
H == More /\ Ev.e = "H" /\ P!Hangup /\ Adv
T == /\ More /\ Ev.e = "T" /\ P!Turn(Ev.t, Ev.m, Ev.load, Ev.idx)
     /\ Free \/ (/\ \A w \in DOMAIN Ev.n : Ev.n[w] = done'[w]
                 /\ Ev.rf = done'["reload"] /\ Ev.rs = done'["reload"]
                 /\ Ev.max = over' /\ Ev.rtx = (IF rtx' THEN 1 ELSE 0))
     /\ Adv
Done == ~More /\ UNCHANGED vars
Next == H \/ T \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
