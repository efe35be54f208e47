------------------------------- MODULE PctlDb -------------------------------
(* How the processing queue is kept: an element in a queue file, its data in  *)
(* a second file under a key made from the clock (which may be coarse or set  *)
(* back), both under one mutex, with a condition variable for the receiver.   *)
(* Checked to implement LimQueue and never to leave the receiver asleep.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Senders, MaxItems, MaxClock, MaxRestarts,
          TieBreak      \* TRUE: keys are kept increasing

VARIABLES clock, last, pq, mf, mutex, pc, item, key, nsent, rcv, restarts, call, got
dvars == <<clock, last, pq, mf, mutex, pc, item, key, nsent, rcv, restarts, call, got>>

Th == Senders \cup {"proc"}
None == [op |-> "idle"]

Init == /\ clock = 0 /\ last = 0 /\ pq = <<>> /\ mf = <<>> /\ mutex = "free"
        /\ pc = [t \in Senders |-> "idle"] /\ item = [t \in Senders |-> 0] /\ key = [t \in Senders |-> 0]
        /\ nsent = 0 /\ rcv = "idle" /\ restarts = 0
        /\ call = [t \in Th |-> None] /\ got = <<>>

Tick == \E c \in 0..MaxClock : clock' = c /\ UNCHANGED <<last, pq, mf, mutex, pc, item, key, nsent, rcv, restarts, call, got>>

Begin(t) == /\ pc[t] = "idle" /\ nsent < MaxItems
            /\ nsent' = nsent + 1 /\ item' = [item EXCEPT ![t] = nsent]
            /\ pc' = [pc EXCEPT ![t] = "lock"]
            /\ call' = [call EXCEPT ![t] = [op |-> "snd", i |-> 0, x |-> [v |-> nsent, n |-> 1], done |-> FALSE, r |-> 0]]
            /\ UNCHANGED <<clock, last, pq, mf, mutex, key, rcv, restarts, got>>
Lock(t) == /\ pc[t] = "lock" /\ mutex = "free" /\ mutex' = t
           /\ LET k == IF TieBreak /\ clock <= last THEN last + 1
                       ELSE IF ~TieBreak /\ clock = last THEN last + 1 ELSE clock IN
              key' = [key EXCEPT ![t] = k] /\ last' = k
           /\ pc' = [pc EXCEPT ![t] = "put"]
           /\ UNCHANGED <<clock, pq, mf, item, nsent, rcv, restarts, call, got>>
Put(t) == /\ pc[t] = "put"
          /\ pq' = Append(pq, [v |-> item[t], k |-> key[t]])
          /\ pc' = [pc EXCEPT ![t] = "putmf"]
          /\ UNCHANGED <<clock, last, mf, mutex, item, key, nsent, rcv, restarts, call, got>>
PutMf(t) == /\ pc[t] = "putmf"
            /\ mf' = [k \in DOMAIN mf \cup {key[t]} |-> IF k = key[t] THEN item[t] ELSE mf[k]]
            /\ pc' = [pc EXCEPT ![t] = "unlock"]
            /\ call' = [call EXCEPT ![t].done = TRUE]
            /\ UNCHANGED <<clock, last, pq, mutex, item, key, nsent, rcv, restarts, got>>
Unlock(t) == /\ pc[t] = "unlock" /\ mutex' = "free"
             /\ rcv' = IF rcv = "wait" THEN "lock" ELSE rcv          \* signal
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ call' = [call EXCEPT ![t] = None]
             /\ UNCHANGED <<clock, last, pq, mf, item, key, nsent, restarts, got>>

RBegin == /\ rcv = "idle" /\ rcv' = "lock"
          /\ call' = [call EXCEPT !["proc"] = [op |-> "rcv", i |-> 0, x |-> None, done |-> FALSE, r |-> 0]]
          /\ UNCHANGED <<clock, last, pq, mf, mutex, pc, item, key, nsent, restarts, got>>
RLock == /\ rcv = "lock" /\ mutex = "free"
         /\ IF pq = <<>> THEN rcv' = "wait" /\ UNCHANGED mutex
            ELSE rcv' = "get" /\ mutex' = "proc"
         /\ UNCHANGED <<clock, last, pq, mf, pc, item, key, nsent, restarts, call, got>>
RGet == /\ rcv = "get"
        /\ LET h == Head(pq) IN
           /\ pq' = Tail(pq)
           /\ mf' = [k \in DOMAIN mf \ {h.k} |-> mf[k]]
           /\ got' = Append(got, [v |-> h.v, d |-> IF h.k \in DOMAIN mf THEN mf[h.k] ELSE -1])
           /\ call' = [call EXCEPT !["proc"].done = TRUE,
                          !["proc"].x = [v |-> IF h.k \in DOMAIN mf THEN mf[h.k] ELSE -1, n |-> 1]]
        /\ rcv' = "unlock"
        /\ UNCHANGED <<clock, last, mutex, pc, item, key, nsent, restarts>>
RUnlock == /\ rcv = "unlock" /\ mutex' = "free" /\ rcv' = "idle"
           /\ call' = [call EXCEPT !["proc"] = None]
           /\ UNCHANGED <<clock, last, pq, mf, pc, item, key, nsent, restarts, got>>
\* The daemon stops (no call in progress but the waiting receive) and starts.
Restart == /\ restarts < MaxRestarts /\ restarts' = restarts + 1
           /\ \A t \in Senders : pc[t] = "idle"
           /\ rcv = "idle"
           /\ last' = IF TieBreak THEN (IF DOMAIN mf = {} THEN 0 ELSE CHOOSE k \in DOMAIN mf : \A j \in DOMAIN mf : j <= k) ELSE 0
           /\ UNCHANGED <<clock, pq, mf, mutex, pc, item, key, nsent, rcv, call, got>>
Next == Tick \/ (\E t \in Senders : Begin(t) \/ Lock(t) \/ Put(t) \/ PutMf(t) \/ Unlock(t))
        \/ RBegin \/ RLock \/ RGet \/ RUnlock \/ Restart
Fair == /\ \A t \in Senders : WF_dvars(Lock(t) \/ Put(t) \/ PutMf(t) \/ Unlock(t))
        /\ WF_dvars(RBegin) /\ SF_dvars(RLock) /\ WF_dvars(RGet) /\ WF_dvars(RUnlock)
Spec == Init /\ [][Next]_dvars
LiveSpec == Spec /\ Fair

\* Every product comes out with its own data.
OwnData == \A i \in 1..Len(got) : got[i].v = got[i].d
KeysUnique == \A i, j \in 1..Len(pq) : i /= j => pq[i].k /= pq[j].k
\* Refinement: the abstract queue holds what the receiver would get. A put in
\* progress has not happened yet.
Putting == \E t \in Senders : pc[t] = "putmf"
AbsQ == LET s == IF Putting THEN SubSeq(pq, 1, Len(pq) - 1) ELSE pq IN
        [i \in 1..Len(s) |-> [v |-> IF s[i].k \in DOMAIN mf THEN mf[s[i].k] ELSE -1, n |-> 1]]
A == INSTANCE LimQueue WITH Threads <- Th, Queues <- {0}, Unit <- 1,
        q <- [i \in {0} |-> AbsQ], lim <- [i \in {0} |-> [soft |-> 0, hard |-> 0, bsoft |-> 0, bhard |-> 0]],
        call <- call
ANext == \/ \E t \in Th : (\E v \in 0..MaxItems : A!InvokeSend(t, 0, [v |-> v, n |-> 1])) \/ A!InvokeRcv(t, 0)
                          \/ A!Lin(t) \/ A!Return(t)
         \/ A!Restart([i \in {0} |-> A!NoLimits], [i \in {0} |-> TRUE])
Implements == A!Init /\ [][ANext]_(A!qvars)
\* No lost wakeup: a queued product is received.
Received == \A n \in 0..(MaxItems - 1) : (\E i \in 1..Len(pq) : pq[i].v = n) ~> (\E i \in 1..Len(got) : got[i].v = n)
=============================================================================
