------------------------------- MODULE MCStats -------------------------------
EXTENDS Stats, TLC
CONSTANTS MaxEvents, MaxReports
VARIABLES n, m
MCInit == Init /\ n = 0 /\ m = 0
MCNext == \/ n < MaxEvents /\ n' = n + 1 /\ UNCHANGED m /\ \E k \in Kinds, a \in 1..2 : Count(k, a)
          \/ m < MaxReports /\ m' = m + 1 /\ UNCHANGED n /\ (Report \/ ReportFails)
MCSpec == MCInit /\ [][MCNext]_<<svars, n, m>>
IndexOk == rtxi >= 0
ReportEmpties == [][rep' /= rep => cnt' = Zero]_<<svars, n, m>>
=============================================================================
