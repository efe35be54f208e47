----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Validates recorded histories of the memory of products (RtxDb) and of   *)
(* the memory spool (Spool).  Each trace begins with a start "R"; further  *)
(* ones are restarts in the same directories.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, rtx, mem, open
tvars == <<tr, l, rtx, mem, open>>
R == INSTANCE RtxDb
S == INSTANCE Spool
View == <<tr, l>>
Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Ev0 == Events[Index[tr].a + l - 2]
Alias == [tr |-> tr, l |-> l, expected |-> IF FreeAt > 0 /\ l > FreeAt THEN
            [m |-> IF Ev0.e \in {"O", "H", "Z"} THEN S!Find(mem, Ev0.key) ELSE <<>>, r |-> IF Ev0.e = "L" THEN R!Lookup(rtx, Ev0.q) ELSE 9, open |-> open] ELSE <<>>]
Adv == l' = l + 1 /\ UNCHANGED tr
Init == /\ tr \in 1..Len(Index) /\ l = 1
        /\ rtx = R!New(FALSE, FALSE) /\ mem = S!NewMem(1, 0) /\ open = <<>>
Start == /\ More /\ Ev.e = "R" /\ (Free \/ Ev.st = 0)
         /\ rtx' = R!Restart(rtx, Ev.on, Ev.keep)
         /\ mem' = S!NewMem(Ev.ndb, Ev.max) /\ open' = <<>> /\ Adv
Rec == /\ More /\ Ev.e = "P" /\ (Free \/ Ev.r = 0) /\ rtx' = R!Put(rtx, Ev.q, Ev.o) /\ UNCHANGED <<mem, open>> /\ Adv
Trunc == /\ More /\ Ev.e = "T" /\ (Free \/ Ev.r = 0) /\ rtx' = R!Truncate(rtx) /\ UNCHANGED <<mem, open>> /\ Adv
Look == /\ More /\ Ev.e = "L" /\ (Free \/ Ev.r = R!Lookup(rtx, Ev.q)) /\ UNCHANGED <<rtx, mem, open>> /\ Adv
\* res: what each attempt to write it gave (1: no space)
RECURSIVE Fails(_, _)
Fails(res, i) == IF i > Len(res) \/ res[i] # 1 THEN 0 ELSE 1 + Fails(res, i + 1)
Put == /\ More /\ Ev.e = "I"
       /\ LET a == S!Store(mem, Ev.key, [v |-> Ev.v, n |-> Ev.n], Ev.n, Fails(Ev.res, 1)) IN
          /\ Free \/ (Ev.r = (IF a.ok THEN 0 ELSE -1) /\ Len(Ev.res) = a.w)
          /\ mem' = a.m
       /\ UNCHANGED <<rtx, open>> /\ Adv
Get == /\ More /\ Ev.e = "O"
       /\ LET f == S!Find(mem, Ev.key) IN
          Free \/ IF f = <<>> THEN Ev.r = -2 ELSE Ev.r = 0 /\ Ev.v = f[1].v
       /\ UNCHANGED <<rtx, mem, open>> /\ Adv
Size == /\ More /\ Ev.e = "Z"
        /\ LET f == S!Find(mem, Ev.key) IN
           Free \/ IF f = <<>> THEN Ev.r = -1 ELSE Ev.r = 0 /\ Ev.n = f[1].n
        /\ UNCHANGED <<rtx, mem, open>> /\ Adv
\* what is open does not change
Open == /\ More /\ Ev.e = "H"
        /\ LET f == S!Find(mem, Ev.key) IN
           IF f = <<>> THEN (Free \/ Ev.sd = -2) /\ UNCHANGED open
           ELSE (Free \/ (Ev.sd >= 0 /\ Ev.sd \notin DOMAIN open)) /\ open' = (Ev.sd :> f[1].v) @@ open
        /\ UNCHANGED <<rtx, mem>> /\ Adv
Close == /\ More /\ Ev.e = "h"
         /\ Free \/ (Ev.sd = -1 /\ open = <<>>) \/ (Ev.sd \in DOMAIN open /\ Ev.r = 0 /\ Ev.v = open[Ev.sd])
         /\ open' = [i \in DOMAIN open \ {Ev.sd} |-> open[i]]
         /\ UNCHANGED <<rtx, mem>> /\ Adv
\* what follows may find no space
Env == More /\ Ev.e = "X" /\ UNCHANGED <<rtx, mem, open>> /\ Adv
Done == ~More /\ UNCHANGED tvars
Next == Start \/ Rec \/ Trunc \/ Look \/ Put \/ Get \/ Size \/ Open \/ Close \/ Env \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
