------------------------------- MODULE MCSlots -------------------------------
(* Every thread makes Ops openings (of a stored name or not) and closes what   *)
(* it opened; the last thread stores. All end (deadlock freedom), whatever     *)
(* the order.                                                                  *)
EXTENDS SpoolSlots
CONSTANTS Max, Ops
NF == -2
VARIABLES left, seen
Writer == CHOOSE t \in Threads : \A u \in Threads : u <= t
Readers == Threads \ {Writer}
vars == <<max, store, slot, mine, call, left, seen>>
MCInit == Init /\ max = Max /\ left = [t \in Threads |-> Ops] /\ seen = <<>>
Open(t) == /\ left[t] > 0 /\ mine[t] = {} /\ t \in Readers
           /\ \E k \in {"a", "none"} : Invoke(t, "open", k, 0, 0)
           /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED seen
Close(t) == /\ \E sd \in mine[t] : Invoke(t, "close", "", 0, sd) /\ seen[sd] = slot[sd]
            /\ UNCHANGED <<left, seen>>
Put(t) == /\ t = Writer /\ left[t] > 0 /\ Invoke(t, "put", "a", left[t], 0)
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED seen
Lin(t) == /\ \/ (\E sd \in 0..Max : LinOpen(t, sd)) /\ seen' = [i \in DOMAIN slot' |-> IF i \in DOMAIN slot THEN seen[i] ELSE slot'[i]]
             \/ LinClose(t) /\ UNCHANGED seen
             \/ LinPut(t) /\ UNCHANGED seen
          /\ UNCHANGED left
Finished == (\A t \in Threads : left[t] = 0 /\ mine[t] = {} /\ call[t] = Idle) /\ UNCHANGED vars
MCNext == Finished \/ \E t \in Threads : Open(t) \/ Close(t) \/ Put(t) \/ Lin(t) \/ (Return(t) /\ UNCHANGED <<left, seen>>)
Fair == \A t \in Threads : WF_vars(Lin(t)) /\ WF_vars(Close(t)) /\ WF_vars(Return(t) /\ UNCHANGED <<left, seen>>) /\ WF_vars(Open(t)) /\ WF_vars(Put(t))
MCSpec == MCInit /\ [][MCNext]_vars /\ Fair
Unchanged == \A i \in DOMAIN slot : i \in DOMAIN seen /\ seen[i] = slot[i]
AllServed == \A t \in Threads : [](call[t].op = "open" => <>(call[t].op # "open"))
=============================================================================
