---------------------------- MODULE MCProcessor ----------------------------
(***************************************************************************)
(* Design check of the processor: every history of originals, incomplete   *)
(* products, retransmissions (also of retransmissions), truncations and    *)
(* restarts, against what the users rely on.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* slots
          MaxP,     \* products
          MaxT,     \* truncations
          MaxR,     \* restarts
          Enabled,  \* is there a memory of products
          Default, Fs
P == INSTANCE Processor
VARIABLES s, hist, files, ann, nt, nr, m
vars == <<s, hist, files, ann, nt, nr, m>>
C == [fs |-> Fs, strip |-> TRUE, default |-> Default, slots |-> IF Fs THEN N ELSE 0]
W(n) == <<0, n>>
uz == [d \in {} |-> <<>>]
Path(n) == <<"p", n>>
Init == /\ s = [rtx |-> P!R!New(Enabled, TRUE), ring |-> P!S!NewRing(N), mem |-> P!S!NewMem(N, 4)]
        /\ hist = <<>> /\ files = {} /\ ann = <<>> /\ nt = 0 /\ nr = 0
        /\ m = <<>>     \* what was recorded: [q, st, t]
Bodies == {<<1>>, <<1, 2, 3>>}
Product(n, orig, ok, body, e) ==
  LET p == [seq |-> W(n), orig |-> orig, ok |-> ok, ccb |-> FALSE, unz |-> FALSE, body |-> body]
      r == P!Process(s, C, p, e, Path(n), Path(n), uz)
  IN /\ s' = r.s
     /\ hist' = Append(hist, [n |-> n, orig |-> orig, ok |-> ok, e |-> e, o |-> r.o, body |-> body, t |-> nt])
     /\ files' = IF Fs /\ r.o.stored THEN (files \ {r.o.evict}) \cup {Path(n)} ELSE files
     /\ ann' = IF r.o.filter THEN Append(ann, n) ELSE ann
     /\ m' = IF e.remember /\ Enabled /\ (~ok \/ r.o.stored \/ r.o.i = 1)
             THEN Append(m, [q |-> W(n), st |-> IF ok THEN 0 ELSE 1, t |-> nt]) ELSE m
     /\ UNCHANGED <<nt, nr>>
Next ==
  \/ /\ Len(hist) < MaxP
     /\ \E orig \in {W(0)} \cup {W(i) : i \in 1..Len(hist)}, ok \in BOOLEAN, body \in Bodies,
           rem \in BOOLEAN, can \in BOOLEAN, f \in (IF Fs THEN {0} ELSE {0, 1, 3}) :
          Product(Len(hist) + 1, orig, ok, body,
                  [remember |-> rem, filter |-> TRUE, server |-> FALSE, canstore |-> can, fails |-> f])
  \/ /\ nt < MaxT /\ nt' = nt + 1 /\ s' = [s EXCEPT !.rtx = P!R!Truncate(@)] /\ UNCHANGED <<hist, files, ann, nr, m>>
  \/ /\ nr < MaxR /\ nr' = nr + 1
     /\ s' = [s EXCEPT !.rtx = P!R!Restart(@, Enabled, TRUE), !.ring = P!S!Reopen(@, N), !.mem = P!S!NewMem(N, 4)]
     /\ UNCHANGED <<hist, files, ann, nt, m>>
Spec == Init /\ [][Next]_vars
Storeds == {i \in 1..Len(hist) : hist[i].o.stored}
\* C12: exactly what is stored is announced, in the order of storing
Announced == ann = SelectSeq([i \in 1..Len(hist) |-> hist[i].n], LAMBDA i : i \in Storeds)
\* C13: exactly the last N files stored
Retained == Fs => files = {Path(i) : i \in {j \in Storeds : Cardinality({k \in Storeds : k >= j}) <= N}}
\* C10: what is incomplete is logged as missing and is not stored; an original
\* is always stored (if it can be); nothing is ever processed and ignored
Rec(i) == {k \in 1..Len(m) : m[k].q = hist[i].orig}
Fate == \A i \in 1..Len(hist) : LET h == hist[i] IN
  /\ ~h.ok => h.o.missing /\ ~h.o.stored /\ ~h.o.log
  /\ h.ok => ~h.o.missing
  /\ h.ok /\ h.orig = W(0) => ~h.o.log /\ h.o.c = 0 /\ (h.o.stored \/ h.o.bad = 1)
  /\ h.ok /\ h.orig # W(0) => h.o.log /\ h.o.c = 1 /\ (h.o.i = 1 => ~h.o.stored /\ h.o.bad = 0)
  /\ ~(h.o.i = 1 /\ h.o.r = 1)
  /\ h.o.stored => h.o.d = h.body
\* The decision on the newest product against the recorded outcomes.
Decision == Len(hist) > 0 =>
  LET i == Len(hist)
      h == hist[i]
      before == {k \in 1..Len(m) : m[k].q = h.orig}
      lastk == CHOOSE k \in before : \A j \in before : j <= k
      known == before # {} /\ h.t - m[lastk].t <= 1 /\ h.e.remember
  IN h.ok /\ h.orig # W(0) /\ h.orig # W(i) =>
     /\ (h.o.i = 1) = (known /\ m[lastk].st = 0)
     /\ (h.o.r = 1) = (known /\ m[lastk].st = 1)
     /\ (h.o.i = 0 /\ ~(h.e.remember /\ ~Enabled /\ ~Default)) => (h.o.stored \/ h.o.bad = 1)
     /\ (h.e.remember /\ ~Enabled /\ ~Default) => ~h.o.stored /\ h.o.bad = 0
\* what is stored once more only happens when it was not known as received
=============================================================================
