----------------------------- MODULE MCPeriodic -----------------------------
(* A main loop whose turns come at least every Gap seconds.                   *)
EXTENDS Integers
CONSTANTS MaxTime, Gap, Periods, Minute
VARIABLES period, next, lastmin, hup, over, rtx, limits, done, t, count, since, hups, high
Works == {"a", "load"}
P == INSTANCE Periodic
vars == <<period, next, lastmin, hup, over, rtx, limits, done, t, count, since, hups, high>>
Init == /\ \E p \in [Works -> Periods], lim \in [soft : {0, 1, 2}, hard : {0, 3}, index : {0, 5}] : P!Start(0, 0, p, lim)
        /\ t = 0 /\ count = P!Nothing /\ since = 0 /\ hups = 0 /\ high = FALSE
Next == \/ /\ t < MaxTime
           /\ \E d \in 1..Gap, load \in {-1, 50, 150, 250, 350}, idx \in {0, 9} :
                 /\ t' = t + d /\ P!Turn(t + d, ((t + d) \div Minute) % 60, load, idx)
                 /\ high' = (IF "load" \in P!Due(t + d) THEN load >= 0 /\ ((limits.hard > 0 /\ load >= 100 * limits.hard) \/ (high /\ limits.soft > 0 /\ load >= 100 * limits.soft)) ELSE high)
           /\ count' = [w \in DOMAIN count |-> count[w] + done'[w]]
           /\ UNCHANGED <<since, hups>>
        \/ hups < 2 /\ P!Hangup /\ hups' = hups + 1 /\ UNCHANGED <<t, count, since, high>>
Spec == Init /\ [][Next]_vars
\* So often as there are periods, when the turns come often enough; never more.
NeverMore == \A w \in Works : count[w] * period[w] <= t
NotLess == \A w \in Works : Gap <= period[w] => count[w] >= (t \div period[w])
EveryMinute == Gap <= Minute => count["sched"] = t \div Minute
Reloads == count["reload"] <= hups /\ (hups > 0 => hup \/ count["reload"] > 0)
Throttled == (over = 2) = high
Rtx == rtx => over > 0 /\ limits.index > 0
=============================================================================
