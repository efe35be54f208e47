------------------------------ MODULE MCSpool ------------------------------
(***************************************************************************)
(* Design check of the two spools: the ring keeps exactly the newest       *)
(* files; the memory spool returns the newest content, recycles strictly   *)
(* the oldest products first and only when it must, and makes room.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Max, Lens, Keys, MaxOps
S == INSTANCE Spool
VARIABLES m, hist, files, ring, stored, n, last
vars == <<m, hist, files, ring, stored, n, last>>
\* hist: everything stored in the memory spool and not freed by Clear: [k, v, len]
Init == /\ m = S!NewMem(N, Max) /\ hist = <<>> /\ n = 0 /\ last = "none"
        /\ ring = S!NewRing(N) /\ files = {} /\ stored = <<>>
Put(k, len, fails) ==
  /\ n < MaxOps /\ n' = n + 1
  /\ LET a == S!Store(m, k, n, len, fails) IN
     /\ m' = a.m
     /\ hist' = IF a.ok THEN Append(hist, [k |-> k, v |-> n, len |-> len]) ELSE hist
     /\ last' = IF a.ok THEN "stored" ELSE "dropped"
     \* it is dropped only when it can not fit or there is no space at all
     /\ Assert((~a.ok) <=> (len > Max \/ fails > 2), "dropped")
     \* what is not freed is untouched
     /\ Assert(fails = 0 /\ len <= Max /\ m.size + len <= Max =>
               \A i \in 1..N : i # m.cur => a.m.part[i] = m.part[i], "others")
     /\ Assert(fails = 1 /\ a.ok => \E i \in 1..N : m.part[i] = <<>> \/ N <= 2 \/ \E j \in 1..N : a.m.part[j] = m.part[j], "kept")
  /\ LET path == <<"p", n>> IN
     /\ files' = (files \ {S!Evicted(ring)}) \cup {path}
     /\ ring' = S!Insert(ring, path) /\ stored' = Append(stored, path)
Next == \E k \in Keys, len \in Lens, f \in 0..3 : Put(k, len, f)
Spec == Init /\ [][Next]_vars
\* exactly the last N files
RingKeepsNewest == files = {stored[i] : i \in {j \in 1..Len(stored) : j > Len(stored) - N}}
\* positions in hist of what can still be read
Held == {i \in 1..Len(hist) : \E p \in 1..N : hist[i].k \in DOMAIN m.part[p] /\ m.part[p][hist[i].k] = hist[i].v}
Superseded(i) == \E j \in (i+1)..Len(hist) : hist[j].k = hist[i].k
\* reads give the newest stored content, or nothing
ReadsNewest == \A k \in Keys : LET r == S!Find(m, k) IN
   \/ r = <<>> /\ \A i \in 1..Len(hist) : hist[i].k = k => i \notin Held
   \/ Len(r) = 1 /\ \E i \in 1..Len(hist) : hist[i].k = k /\ hist[i].v = r[1] /\ ~Superseded(i)
\* recycled oldest first: whatever is newer than something held is held
OldestFirst == \A i \in Held : \A j \in (i+1)..Len(hist) : j \in Held \/ Superseded(j)
\* the last product stored can be read
LastHeld == last = "stored" => Len(hist) \in Held
Bounded == m.size <= Max
=============================================================================
