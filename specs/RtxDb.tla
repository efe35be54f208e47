------------------------------- MODULE RtxDb -------------------------------
(***************************************************************************)
(* The memory of products used to handle retransmissions (rtxdb.c,         *)
(* ertxdb.c), as its user sees it: the latest outcome recorded for a       *)
(* sequence number and how many truncations there have been since.         *)
(* Operators only, on values m = [on, keep, mem]:                          *)
(*   on    a capacity is configured                                        *)
(*   keep  it is backed by files (survives a restart)                      *)
(*   mem   sequence number -> [st, age]                                    *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE TLC
LOCAL INSTANCE Integers
Ok == 0
Fail == 1
Unknown == -1
Disabled == -2

New(on, keep) == [on |-> on, keep |-> keep, mem |-> <<>>]

Put(m, q, st) == IF m.on THEN [m EXCEPT !.mem = (q :> [st |-> st, age |-> 0]) @@ @] ELSE m

\* Two generations are kept: what was recorded two truncations ago is gone.
Truncate(m) == IF ~m.on THEN m ELSE
  LET keep == {q \in DOMAIN m.mem : m.mem[q].age = 0} IN
  [m EXCEPT !.mem = [q \in keep |-> [@[q] EXCEPT !.age = 1]]]

Lookup(m, q) == IF ~m.on THEN Disabled
                ELSE IF q \in DOMAIN m.mem THEN m.mem[q].st ELSE Unknown

Restart(m, on, keep) == IF on /\ keep /\ m.keep THEN [m EXCEPT !.on = TRUE]
                        ELSE IF on /\ keep THEN [New(on, keep) EXCEPT !.mem = m.mem]
                        ELSE New(on, keep)
=============================================================================
