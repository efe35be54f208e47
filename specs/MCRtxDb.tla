------------------------------ MODULE MCRtxDb ------------------------------
(***************************************************************************)
(* Design check: two databases, the current one and the other, with the    *)
(* generation number each was given when it was last truncated, against    *)
(* the history of recorded outcomes.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Seqs, MaxOps
VARIABLES db,     \* db[1], db[2]: [gen, mem]
          c,      \* which one is current
          gen,    \* its generation, in memory
          m,      \* what the user should see (RtxDb)
          hist,   \* every outcome recorded: <<q, st, truncations before it>>
          nt,     \* truncations so far
          n
vars == <<db, c, gen, m, hist, nt, n>>
R == INSTANCE RtxDb
Init == /\ db = [i \in 1..2 |-> [gen |-> 0, mem |-> <<>>]] /\ c = 1 /\ gen = 0
        /\ m = R!New(TRUE, TRUE) /\ hist = <<>> /\ nt = 0 /\ n = 0
Step == n < MaxOps /\ n' = n + 1
Put(q, s) == /\ Step /\ db' = [db EXCEPT ![c].mem = (q :> s) @@ @] /\ m' = R!Put(m, q, s)
             /\ hist' = Append(hist, <<q, s, nt>>) /\ UNCHANGED <<c, gen, nt>>
Truncate == /\ Step
            /\ c' = 3 - c /\ gen' = gen + 1
            /\ db' = [db EXCEPT ![3 - c] = [gen |-> gen + 1, mem |-> <<>>]]
            /\ m' = R!Truncate(m) /\ nt' = nt + 1 /\ UNCHANGED hist
\* the larger generation is the current one; if neither was ever truncated, the first
Restart == /\ Step /\ c' = (IF db[2].gen > db[1].gen THEN 2 ELSE 1)
           /\ gen' = db[IF db[2].gen > db[1].gen THEN 2 ELSE 1].gen
           /\ m' = R!Restart(m, TRUE, TRUE) /\ UNCHANGED <<db, hist, nt>>
Next == (\E q \in Seqs, s \in {0, 1} : Put(q, s)) \/ Truncate \/ Restart
Spec == Init /\ [][Next]_vars
Get(q) == IF q \in DOMAIN db[c].mem THEN db[c].mem[q]
          ELSE IF q \in DOMAIN db[3-c].mem THEN db[3-c].mem[q] ELSE R!Unknown
Refines == \A q \in Seqs : Get(q) = R!Lookup(m, q)
Recorded(q) == {i \in 1..Len(hist) : hist[i][1] = q}
Latest(q) == CHOOSE i \in Recorded(q) : \A j \in Recorded(q) : j <= i
LatestWins == \A q \in Seqs :
   IF Recorded(q) # {} /\ nt - hist[Latest(q)][3] <= 1 THEN Get(q) = hist[Latest(q)][2]
   ELSE Get(q) = R!Unknown
=============================================================================
