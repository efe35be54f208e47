------------------------------ MODULE LimQueue ------------------------------
(* The queues of nbsp: the processing queue between the readers and the        *)
(* processor, the filter and server queues, and the queue of each client.      *)
(* Each is a FIFO with a soft and a hard bound on the number of elements and,  *)
(* for the processing queue, on their total size in units of Unit. Threads     *)
(* call Send and Receive; a call takes effect at one instant (Lin) between its *)
(* invocation and its return.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Queues, Unit

VARIABLES q,      \* queue -> sequence of [v |-> value, n |-> size]
          lim,    \* queue -> [soft, hard, bsoft, bhard], 0 = no limit
          call    \* thread -> pending call
qvars == <<q, lim, call>>

Idle == [op |-> "idle"]
NoLimits == [soft |-> 0, hard |-> 0, bsoft |-> 0, bhard |-> 0]

RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE s[1].n + Bytes(Tail(s))

\* What the limits say about inserting x in s.
Full(s, x, L) == \/ L.hard > 0 /\ Len(s) >= L.hard
                 \/ L.bhard > 0 /\ Bytes(s) + x.n > L.bhard * Unit
Warn(s, L) == \/ L.soft > 0 /\ Len(s) >= L.soft
              \/ L.bsoft > 0 /\ Bytes(s) > L.bsoft * Unit

TypeOK == /\ DOMAIN q = Queues /\ DOMAIN lim = Queues
          /\ DOMAIN call = Threads

Init == /\ q = [i \in Queues |-> <<>>]
        /\ lim = [i \in Queues |-> NoLimits]
        /\ call = [t \in Threads |-> Idle]

InvokeSend(t, i, x) == /\ call[t] = Idle
                       /\ call' = [call EXCEPT ![t] = [op |-> "snd", i |-> i, x |-> x, done |-> FALSE, r |-> 0]]
                       /\ UNCHANGED <<q, lim>>
InvokeRcv(t, i) == /\ call[t] = Idle
                   /\ call' = [call EXCEPT ![t] = [op |-> "rcv", i |-> i, x |-> Idle, done |-> FALSE, r |-> 0]]
                   /\ UNCHANGED <<q, lim>>

\* The insertion: refused (2) without effect at a hard limit; else appended,
\* reported as 1 when a soft limit is reached.
LinSend(t) ==
  LET c == call[t] s == q[c.i] L == lim[c.i] IN
  /\ c.op = "snd" /\ ~c.done
  /\ IF Full(s, c.x, L)
     THEN /\ call' = [call EXCEPT ![t].done = TRUE, ![t].r = 2] /\ UNCHANGED q
     ELSE LET s2 == Append(s, c.x) IN
          /\ q' = [q EXCEPT ![c.i] = s2]
          /\ call' = [call EXCEPT ![t].done = TRUE, ![t].r = IF Warn(s2, L) THEN 1 ELSE 0]
  /\ UNCHANGED lim

LinRcv(t) ==
  LET c == call[t] IN
  /\ c.op = "rcv" /\ ~c.done /\ q[c.i] /= <<>>
  /\ q' = [q EXCEPT ![c.i] = Tail(q[c.i])]
  /\ call' = [call EXCEPT ![t].done = TRUE, ![t].x = Head(q[c.i])]
  /\ UNCHANGED lim

\* A timed receive gives up only from an empty queue.
LinEmpty(t) ==
  LET c == call[t] IN
  /\ c.op = "rcv" /\ ~c.done /\ q[c.i] = <<>>
  /\ call' = [call EXCEPT ![t].done = TRUE, ![t].r = 1]
  /\ UNCHANGED <<q, lim>>

Lin(t) == LinSend(t) \/ LinRcv(t) \/ LinEmpty(t)

Return(t) == /\ call[t] /= Idle /\ call[t].done
             /\ call' = [call EXCEPT ![t] = Idle]
             /\ UNCHANGED <<q, lim>>

\* The daemon is stopped and started, perhaps with other limits; queues kept
\* in memory start empty.
Restart(L, kept) == /\ \A t \in Threads : call[t] = Idle
                    /\ q' = [i \in Queues |-> IF kept[i] THEN q[i] ELSE <<>>]
                    /\ lim' = L
                    /\ UNCHANGED call
=============================================================================
