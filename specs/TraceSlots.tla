----------------------------- MODULE TraceSlots -----------------------------
(* Validates recorded runs of concurrent readers of the memory spool.         *)
EXTENDS Integers, Sequences, Json, TLC, TLCExt
CONSTANTS TraceFile, IndexFile
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, max, store, slot, mine, call
tvars == <<tr, l, max, store, slot, mine, call>>
S == INSTANCE SpoolSlots WITH Threads <- 0..7, NotFound <- -2
Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Adv == l' = l + 1 /\ UNCHANGED tr
Init == tr \in 1..Len(Index) /\ l = 1 /\ S!Init /\ max = 0
Start == /\ More /\ Ev.e = "start" /\ max' = Ev.max
         /\ store' = [k \in {Ev.held[i].k : i \in 1..Len(Ev.held)} |-> LET i == CHOOSE j \in 1..Len(Ev.held) : Ev.held[j].k = k IN Ev.held[i].v]
         /\ UNCHANGED <<slot, mine, call>> /\ Adv
\* The buffer that an open will return is known from its return; what has been
\* read from it, until just before closing it, is in the close.
Inv == /\ More /\ Ev.e = "inv"
       /\ S!Invoke(Ev.t, Ev.op, Ev.key, Ev.v, Ev.sd)
       /\ Ev.op = "close" => slot[Ev.sd] = Ev.v
       /\ Adv
Ret == /\ More /\ Ev.e = "ret" /\ call[Ev.t].op # "idle" /\ call[Ev.t].done
       /\ Ev.sd = call[Ev.t].r
       /\ S!Return(Ev.t) /\ Adv
Lin == \E t \in 0..7 : /\ \/ S!LinOpen(t, IF call[t] # S!Idle /\ call[t].sd >= 0 THEN call[t].sd ELSE 0)
                          \/ S!LinClose(t)
                          \/ S!LinPut(t)
                       /\ UNCHANGED <<tr, l>>
Joined == More /\ Ev.e = "joined" /\ (\A t \in 0..7 : call[t] = S!Idle) /\ Adv /\ UNCHANGED <<max, store, slot, mine, call>>
Done == ~More /\ UNCHANGED tvars
Next == Start \/ Inv \/ Ret \/ Lin \/ Joined \/ Done
Spec == Init /\ [][Next]_tvars
ASSUME \A i \in 1..Len(Index) : TLCSet(i, 0)
Seen == TLCSet(tr, IF l > TLCGet(tr) THEN l ELSE TLCGet(tr)) /\ S!AtMost /\ S!Disjoint
Accepted == \A i \in 1..Len(Index) :
               \/ TLCGet(i) = Index[i].n + 1
               \/ PrintT(<<"REJECTED", i, TLCGet(i)>>) /\ FALSE
=============================================================================
