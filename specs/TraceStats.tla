----------------------------- MODULE TraceStats -----------------------------
(* Validates the counting functions and the report lines against Stats.       *)
(* Concurrent phases ("par") give what the threads counted in total; reports  *)
(* written meanwhile take any part of what is outstanding.                    *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, cnt, total, rep, rtxi, par
vars == <<tr, l, cnt, total, rep, rtxi, par>>
\* In the order of the columns of the status file.
Columns == <<"frames_received", "frames_processed", "jumps", "frames_bad", "data_size", "transmitted", "completed",
             "missed", "rtx", "rtx_c", "rtx_p", "rtx_i", "rtx_r", "rejected", "aborted", "products_bad">>
Kind == {Columns[i] : i \in 1..16}
S == INSTANCE Stats WITH Kinds <- Kind, RtxKind <- "rtx", TransKind <- "transmitted"
Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Adv == l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..Len(Index) /\ l = 1 /\ S!Init /\ par = FALSE
Line(c) == [i \in 1..16 |-> c[Columns[i]]]
Rec(line) == [k \in Kind |-> line[CHOOSE i \in 1..16 : Columns[i] = k]]

CountEv == /\ More /\ Ev.e = "c" /\ ~par
           /\ S!Count(Ev.k, Ev.n) /\ UNCHANGED par /\ Adv
\* what a frame counts: received, and its data
Frame == /\ More /\ Ev.e = "frame" /\ ~par
         /\ cnt' = [cnt EXCEPT !["frames_received"] = @ + 1, !["data_size"] = @ + Ev.n]
         /\ total' = [total EXCEPT !["frames_received"] = @ + 1, !["data_size"] = @ + Ev.n]
         /\ UNCHANGED <<rep, rtxi, par>> /\ Adv
Report == /\ More /\ Ev.e = "report" /\ ~par
          /\ IF Ev.ok
             THEN /\ Free \/ (Ev.line = Line(cnt) /\ Ev.t >= Ev.t0 /\ Ev.t <= Ev.t1)
                  /\ S!Report
             ELSE S!ReportFails
          /\ Free \/ Ev.rtxi = rtxi'
          /\ UNCHANGED par /\ Adv
Par == /\ More /\ Ev.e = "par" /\ ~par
       /\ cnt' = [k \in Kind |-> cnt[k] + Rec(Ev.sum)[k]]
       /\ total' = [k \in Kind |-> total[k] + Rec(Ev.sum)[k]]
       /\ par' = TRUE /\ UNCHANGED <<rep, rtxi>> /\ Adv
\* a report while threads count: no more than what was counted
Partial == /\ More /\ Ev.e = "report" /\ par
           /\ LET L == Rec(Ev.line) IN
              /\ Free \/ \A k \in Kind : L[k] <= cnt[k]
              /\ cnt' = [k \in Kind |-> cnt[k] - L[k]]
              /\ rep' = [k \in Kind |-> rep[k] + L[k]]
              /\ rtxi' = S!NewIndex(L)
           /\ Free \/ Ev.rtxi = rtxi'
           /\ UNCHANGED <<total, par>> /\ Adv
\* after all threads ended and a last report nothing is left
ParEnd == /\ More /\ Ev.e = "parend" /\ par
          /\ Free \/ cnt = S!Zero
          /\ par' = FALSE /\ UNCHANGED <<cnt, total, rep, rtxi>> /\ Adv
Done == ~More /\ UNCHANGED vars
Next == CountEv \/ Frame \/ Report \/ Par \/ Partial \/ ParEnd \/ Done
Spec == Init /\ [][Next]_vars
Partition == S!Partition
=============================================================================
