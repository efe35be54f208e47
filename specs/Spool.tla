------------------------------- MODULE Spool -------------------------------
(***************************************************************************)
(* The two spools as operators on values.                                  *)
(*                                                                         *)
(* File spool bookkeeping (spooldb.c): a ring r = [n, p, s] of n slots     *)
(* with the paths of the stored files; p is the next one (0 based).        *)
(* Memory spool (libspoolbdb): m = [n, max, cur, size, part]: n partitions *)
(* of at most max bytes each, cur the newest, size what it holds; part[i]  *)
(* maps names to contents.                                                 *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

NoPath == <<>>
NewRing(n) == [n |-> n, p |-> 0, s |-> [i \in 0..(n-1) |-> NoPath]]
\* what storing a path deletes
Evicted(r) == r.s[r.p]
Insert(r, path) == [r EXCEPT !.s[r.p] = path, !.p = (r.p + 1) % r.n]
\* A restart with n slots: refused when there are less.
CanReopen(r, n) == n >= r.n
Reopen(r, n) == [n |-> n, p |-> r.p, s |-> [i \in 0..(n-1) |-> IF i < r.n THEN r.s[i] ELSE NoPath]]

Full == "ENOMEM"
NewMem(n, max) == [n |-> n, max |-> max, cur |-> 1, size |-> 0, part |-> [i \in 1..n |-> <<>>]]
After(m, i) == (i % m.n) + 1
\* the oldest partition is emptied and becomes the newest
Roll(m) == [m EXCEPT !.cur = After(m, m.cur), !.size = 0, !.part[After(m, m.cur)] = <<>>]
Clear(m) == [m EXCEPT !.cur = 1, !.size = 0, !.part = [i \in 1..m.n |-> <<>>]]

\* One attempt to write; env = the database itself reports lack of space.
\* Result [ok, m, w]: w = whether the database was asked.
Attempt(m, k, v, len, env) ==
  IF len > m.max THEN [ok |-> FALSE, m |-> m, w |-> 0]
  ELSE LET m1 == IF m.size + len > m.max THEN Roll(m) ELSE m IN
       IF env THEN [ok |-> FALSE, m |-> m1, w |-> 1]
       ELSE [ok |-> TRUE, w |-> 1,
             m |-> [m1 EXCEPT !.part[m1.cur] = (k :> v) @@ @, !.size = @ + len]]

\* Storing: on lack of space the oldest partition is freed, then all of them.
\* fails: number of consecutive times the database reports lack of space.
Store(m, k, v, len, fails) ==
  LET a1 == Attempt(m, k, v, len, fails > 0)
      a2 == Attempt(Roll(a1.m), k, v, len, fails > 1)
      a3 == Attempt(Clear(a2.m), k, v, len, fails > 2)
  IN IF a1.ok THEN a1 ELSE IF a2.ok THEN [a2 EXCEPT !.w = 2]
     ELSE [a3 EXCEPT !.w = IF len > m.max THEN 0 ELSE 3]

\* newest partition first
RECURSIVE FindFrom(_, _, _, _)
FindFrom(m, k, i, left) ==
  IF left = 0 THEN <<>>
  ELSE IF k \in DOMAIN m.part[i] THEN <<m.part[i][k]>>
  ELSE FindFrom(m, k, IF i = 1 THEN m.n ELSE i - 1, left - 1)
Find(m, k) == FindFrom(m, k, m.cur, m.n)
=============================================================================
