------------------------------ MODULE Periodic ------------------------------
(* The turns of the daemon's main loop: what is due is done, once per period; *)
(* the scheduler, once per minute; a reload for the hangup signals received   *)
(* since the last turn; and the state of overload.                            *)
EXTENDS Integers
CONSTANTS Works            \* what is done periodically
VARIABLES period, next, lastmin, hup, over, rtx, limits, done
pvars == <<period, next, lastmin, hup, over, rtx, limits, done>>
Nothing == [w \in Works \cup {"sched", "reload"} |-> 0]
\* limits: soft, hard (load) and index (retransmissions); 0 disables them
Start(t, m, p, lim) == /\ period = p /\ next = [w \in Works |-> t + p[w]] /\ lastmin = m /\ hup = FALSE
                       /\ over = 0 /\ rtx = FALSE /\ limits = lim /\ done = Nothing
Reached(limit, load) == limit > 0 /\ load >= 100 * limit
\* Readers are throttled (2) when the hard limit is reached, until the load is below the soft one.
Over(load) == IF load < 0 THEN 0
              ELSE IF Reached(limits.hard, load) THEN 2
              ELSE IF Reached(limits.soft, load) THEN (IF over = 2 THEN 2 ELSE 1)
              ELSE 0
Due(t) == {w \in Works : t >= next[w]}
\* a turn at time t, in minute m of the hour; the load (in hundredths, -1 unknown) and the index
Turn(t, m, load, idx) ==
  /\ next' = [w \in Works |-> IF w \in Due(t) THEN next[w] + period[w] ELSE next[w]]
  /\ lastmin' = m /\ hup' = FALSE
  /\ done' = [x \in DOMAIN Nothing |-> IF x = "sched" THEN (IF m /= lastmin THEN 1 ELSE 0)
                                        ELSE IF x = "reload" THEN (IF hup THEN 1 ELSE 0)
                                        ELSE IF x \in Due(t) THEN 1 ELSE 0]
  /\ IF "load" \in Due(t)
     THEN over' = Over(load) /\ rtx' = (Over(load) > 0 /\ limits.index > 0 /\ idx >= limits.index)
     ELSE UNCHANGED <<over, rtx>>
  /\ UNCHANGED <<period, limits>>
Hangup == hup' = TRUE /\ UNCHANGED <<period, next, lastmin, over, rtx, limits, done>>
=============================================================================
