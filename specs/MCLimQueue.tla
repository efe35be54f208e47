----------------------------- MODULE MCLimQueue -----------------------------
(* Bounded exploration of LimQueue: senders with numbered items, receivers,   *)
(* restarts with changed limits.                                              *)
EXTENDS LimQueue, TLC
CONSTANTS MaxItems, MaxOps, LimSet, SizeSet

VARIABLES nsent,   \* queue -> items offered so far (the next item number)
          acc,     \* queue -> accepted items, in order of acceptance
          got,     \* queue -> items received, in order
          ops
mcvars == <<q, lim, call, nsent, acc, got, ops>>

MCInit == /\ q = [i \in Queues |-> <<>>]
          /\ lim \in [Queues -> LimSet]
          /\ call = [t \in Threads |-> Idle]
          /\ nsent = 0 /\ ops = 0
          /\ acc = [i \in Queues |-> <<>>] /\ got = [i \in Queues |-> <<>>]

MCSend(t) == \E i \in Queues, n \in SizeSet :
               /\ nsent < MaxItems /\ nsent' = nsent + 1
               /\ InvokeSend(t, i, [v |-> nsent, n |-> n])
               /\ UNCHANGED <<acc, got, ops>>
MCRcv(t) == \E i \in Queues :
               /\ ops < MaxOps /\ ops' = ops + 1
               /\ InvokeRcv(t, i)
               /\ UNCHANGED <<nsent, acc, got>>
MCLin(t) == /\ Lin(t)
            /\ LET c == call[t] IN
               /\ acc' = IF c.op = "snd" /\ call'[t].r /= 2 THEN [acc EXCEPT ![c.i] = Append(@, c.x)] ELSE acc
               /\ got' = IF c.op = "rcv" /\ call'[t].r = 0 THEN [got EXCEPT ![c.i] = Append(@, call'[t].x)] ELSE got
            /\ UNCHANGED <<nsent, ops>>
MCReturn(t) == Return(t) /\ UNCHANGED <<nsent, acc, got, ops>>
MCRestart == /\ ops < MaxOps /\ ops' = ops + 1
             /\ \E L \in [Queues -> LimSet] : Restart(L, [i \in Queues |-> TRUE])
             /\ UNCHANGED <<nsent, acc, got>>
MCNext == (\E t \in Threads : MCSend(t) \/ MCRcv(t) \/ MCLin(t) \/ MCReturn(t)) \/ MCRestart
MCSpec == MCInit /\ [][MCNext]_mcvars

\* FIFO, exactly once, no loss, never in another queue.
Fifo == \A i \in Queues : acc[i] = got[i] \o q[i]
\* The bounds: never more than allowed by the largest hard limit in force when
\* the elements were accepted.
Separate == \A i, j \in Queues : i /= j =>
               \A a \in 1..Len(acc[i]), b \in 1..Len(acc[j]) : acc[i][a].v /= acc[j][b].v
\* A refusal happens exactly at a hard limit, and leaves the queue alone.
RefusedOnlyIfFull ==
  [][\A t \in Threads : call[t].op = "snd" /\ ~call[t].done /\ call'[t].op = "snd" /\ call'[t].done =>
       LET s == q[call[t].i] L == lim[call[t].i] IN
       /\ call'[t].r = 2 <=> (L.hard > 0 /\ Len(s) >= L.hard) \/ (L.bhard > 0 /\ Bytes(s) + call[t].x.n > L.bhard * Unit)
       /\ call'[t].r = 2 => q' = q
       /\ call'[t].r /= 2 => q'[call[t].i] = Append(s, call[t].x)]_mcvars
\* An element accepted under limits that stayed in force never makes the
\* queue exceed them.
Bounded == [][\A i \in Queues : Len(q'[i]) > Len(q[i]) =>
                /\ lim[i].hard > 0 => Len(q'[i]) <= lim[i].hard
                /\ lim[i].bhard > 0 => Bytes(q'[i]) <= lim[i].bhard * Unit]_mcvars
\* Receiving never gives up while there is something to receive.
EmptyIsEmpty == [][\A t \in Threads : call[t].op = "rcv" /\ ~call[t].done /\ call'[t].op = "rcv" /\ call'[t].done
                     => (call'[t].r = 1 <=> q[call[t].i] = <<>>)]_mcvars
=============================================================================
