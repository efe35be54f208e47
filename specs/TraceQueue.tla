----------------------------- MODULE TraceQueue -----------------------------
(* Validates recorded runs of the queues (processing queue, filter and server *)
(* queues, client queues) against LimQueue.                                   *)
EXTENDS Integers, Sequences, Json, TLC, TLCExt
CONSTANTS TraceFile, IndexFile, FreeAt, Slack, Nondet
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)

VARIABLES tr, l, q, lim, call
tvars == <<tr, l, q, lim, call>>
Q == INSTANCE LimQueue WITH Threads <- 0..11, Queues <- 0..1, Unit <- 1048576

Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Has(f) == f \in DOMAIN Ev

Init == /\ tr \in 1..Len(Index) /\ l = 1
        /\ Q!Init
Adv == l' = l + 1 /\ UNCHANGED tr

\* Opening: first start or a restart, with the limits of the configuration.
Open == /\ More /\ Ev.e = "open"
        /\ LET L == [soft |-> Ev.lim[1], hard |-> Ev.lim[2], bsoft |-> Ev.lim[3], bhard |-> Ev.lim[4]] IN
           Q!Restart([i \in 0..1 |-> L], [i \in 0..1 |-> Ev.kept])
        /\ Free \/ (Ev.on = Len(q'[0]) /\ (Ev.ob = -1 \/ Ev.ob = Q!Bytes(q'[0])))
        /\ Adv
Close == /\ More /\ Ev.e = "close" /\ (\A t \in 0..11 : call[t] = Q!Idle) /\ UNCHANGED <<q, lim, call>> /\ Adv

Inv == /\ More /\ Ev.e = "inv"
       /\ IF Ev.op = "snd" THEN Q!InvokeSend(Ev.t, Ev.q, [v |-> Ev.v, n |-> Ev.n, p |-> Ev.p])
          ELSE Q!InvokeRcv(Ev.t, Ev.q)
       /\ Adv
\* the timeout of the pending receive of each thread is found in its event
Ret == /\ More /\ Ev.e = "ret"
       /\ LET c == call[Ev.t] IN
          /\ c.op /= "idle" /\ c.done
          /\ Free \/
             /\ IF c.op = "snd" THEN Ev.r = c.r \/ (Ev.r = 9 /\ c.r \in {0, 1})
                ELSE /\ Ev.r = c.r
                     /\ c.r = 0 => (Ev.v = c.x.v /\ Ev.n = c.x.n)
                     \* an empty report comes after the timeout, and not much later
                     /\ c.r = 1 => (Ev.el >= Ev.to - 3 /\ Ev.el <= Ev.to + Slack)
                     /\ c.r = 0 => (Has("late") => Ev.late <= Slack)
             /\ Has("on") => (Ev.on = Len(q[c.i]) /\ (Ev.ob = -1 \/ Ev.ob = Q!Bytes(q[c.i])))
       /\ Q!Return(Ev.t)
       /\ Adv
Lin == \E t \in 0..11 : Q!Lin(t) /\ UNCHANGED <<tr, l>>
Done == ~More /\ UNCHANGED tvars
Next == Open \/ Close \/ Inv \/ Ret \/ Lin \/ Done
Spec == Init /\ [][Next]_tvars

\* Concurrent runs: some behaviour must explain the whole trace.
ASSUME Nondet => \A i \in 1..Len(Index) : TLCSet(i, 0)
\* Only orders in which the elements are later received can explain the trace
\* (p is the position of a value in the order of the receipts).
Sorted == \A i \in 0..1 : \A j \in 1..(Len(q[i]) - 1) : q[i][j].p < q[i][j+1].p
Seen == Nondet => Sorted /\ TLCSet(tr, IF l > TLCGet(tr) THEN l ELSE TLCGet(tr))
Accepted == Nondet => \A i \in 1..Len(Index) :
               \/ TLCGet(i) = Index[i].n + 1
               \/ PrintT(<<"REJECTED", i, TLCGet(i)>>) /\ FALSE
=============================================================================
