----------------------------- MODULE SpoolSlots -----------------------------
(***************************************************************************)
(* Concurrent readers of the memory spool (spoolslots.c, mspoolbdb.c).     *)
(* A fixed number of read buffers (slots) is shared by threads that open a *)
(* product by name (which copies its content to a free slot), read it and  *)
(* close it; another may store products meanwhile.  A call takes effect at *)
(* one instant (Lin) between its invocation and its return.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, NotFound
VARIABLES max,     \* number of slots
          store,   \* name -> content
          slot,    \* slots in use -> content
          mine,    \* thread -> slots it has open
          call     \* thread -> the call it is in
svars == <<max, store, slot, mine, call>>
Idle == [op |-> "idle"]

Init == /\ store = <<>> /\ slot = <<>> /\ mine = [t \in Threads |-> {}] /\ call = [t \in Threads |-> Idle]

Invoke(t, op, key, v, sd) ==
  /\ call[t] = Idle
  /\ op = "close" => sd \in mine[t]
  /\ call' = [call EXCEPT ![t] = [op |-> op, key |-> key, v |-> v, sd |-> sd, done |-> FALSE, r |-> 0]]
  /\ UNCHANGED <<max, store, slot, mine>>

\* A name that is not there needs no slot; otherwise the copy goes to a slot
\* that nobody holds.
LinOpen(t, sd) ==
  LET c == call[t] IN
  /\ c.op = "open" /\ ~c.done
  /\ IF c.key \notin DOMAIN store
     THEN sd = 0 /\ call' = [call EXCEPT ![t].done = TRUE, ![t].r = NotFound] /\ UNCHANGED <<slot, mine>>
     ELSE /\ sd \in 0..(max - 1) /\ sd \notin DOMAIN slot
          /\ slot' = (sd :> store[c.key]) @@ slot
          /\ mine' = [mine EXCEPT ![t] = @ \cup {sd}]
          /\ call' = [call EXCEPT ![t].done = TRUE, ![t].r = sd]
  /\ UNCHANGED <<max, store>>
LinClose(t) ==
  LET c == call[t] IN
  /\ c.op = "close" /\ ~c.done
  /\ slot' = [i \in DOMAIN slot \ {c.sd} |-> slot[i]]
  /\ mine' = [mine EXCEPT ![t] = @ \ {c.sd}]
  /\ call' = [call EXCEPT ![t].done = TRUE]
  /\ UNCHANGED <<max, store>>
LinPut(t) ==
  LET c == call[t] IN
  /\ c.op = "put" /\ ~c.done
  /\ store' = (c.key :> c.v) @@ store
  /\ call' = [call EXCEPT ![t].done = TRUE]
  /\ UNCHANGED <<max, slot, mine>>
Return(t) == /\ call[t].op # "idle" /\ call[t].done
             /\ call' = [call EXCEPT ![t] = Idle]
             /\ UNCHANGED <<max, store, slot, mine>>

AtMost == Cardinality(DOMAIN slot) <= max
Disjoint == \A t, u \in Threads : t # u => mine[t] \cap mine[u] = {}
NoLeak == DOMAIN slot = UNION {mine[t] : t \in Threads}
=============================================================================
