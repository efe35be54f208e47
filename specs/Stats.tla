-------------------------------- MODULE Stats --------------------------------
(* The counters of the daemon and their periodic reports.                      *)
EXTENDS Integers, Sequences
CONSTANTS Kinds, RtxKind, TransKind     \* kinds of events that are counted
VARIABLES cnt,     \* kind -> counted since the last report
          total,   \* kind -> counted ever
          rep,     \* kind -> sum of the reports
          rtxi     \* retransmissions per thousand products of the last period
svars == <<cnt, total, rep, rtxi>>
Zero == [k \in Kinds |-> 0]
Init == cnt = Zero /\ total = Zero /\ rep = Zero /\ rtxi = 0
Count(k, n) == /\ cnt' = [cnt EXCEPT ![k] = @ + n]
               /\ total' = [total EXCEPT ![k] = @ + n]
               /\ UNCHANGED <<rep, rtxi>>
NewIndex(line) == IF line[TransKind] = 0 THEN rtxi ELSE (line[RtxKind] * 1000) \div line[TransKind]
\* A report that is written holds everything counted since the last one.
Report == /\ rep' = [k \in Kinds |-> rep[k] + cnt[k]]
          /\ cnt' = Zero /\ UNCHANGED total
          /\ rtxi' = NewIndex(cnt)
\* One that cannot be written changes no counter.
ReportFails == UNCHANGED <<cnt, total, rep>> /\ rtxi' = NewIndex(cnt)
\* Every event is in exactly one report or still counted.
Partition == \A k \in Kinds : rep[k] + cnt[k] = total[k]
=============================================================================
