------------------------------ MODULE MCFilters ------------------------------
(* The filter server sending to one filter after the other, with readers and  *)
(* programs that do what they want in between: well behaved filters get every *)
(* announcement, the others get theirs whole, once and in order.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Actions
VARIABLES s, n, left, got, done, acts, ino
vars == <<s, n, left, got, done, acts, ino>>
System == {"sys"}
Room(i) == 1
Startable(p) == TRUE
F == INSTANCE Filters
Dir == {"good", "bad", "dead", "prog"}
\* good: read at once, always; bad: read now and then; dead: never read; sys and prog: programs
Init == /\ LET a == F!Make(F!Make(F!Make(F!Make(F!Nothing, "good", "fifo", 1), "bad", "fifo", 2), "dead", "fifo", 3), "prog", "prog", 0)
           IN s = F!Start(F!Reader(F!Reader(a, "good", TRUE), "bad", TRUE), Dir)
        /\ n = 0 /\ left = {} /\ got = [p \in {"good", "bad"} |-> <<>>] /\ done = <<>> /\ acts = 0 /\ ino = 3
Announce == left = {} /\ n < N /\ n' = n + 1 /\ left' = DOMAIN s.list /\ UNCHANGED <<s, got, done, acts, ino>>
\* the reader of "good" takes it before the next one
Eager(t) == IF t.fifo[1].buf = <<>> THEN t ELSE F!Take(t, 1, 9)
Send == \E p \in left :
          LET t == F!SendOne(s, p, n) IN
          /\ left' = left \ {p}
          /\ s' = Eager(t) /\ got' = [got EXCEPT !["good"] = @ \o t.fifo[1].buf]
          /\ UNCHANGED <<n, done, acts, ino>>
Act == acts < Actions /\ acts' = acts + 1 /\ UNCHANGED <<n, left>>
OpenReader == Act /\ "bad" \in DOMAIN s.node /\ s' = F!Reader(s, "bad", ~s.fifo[s.node["bad"].ino].rd) /\ UNCHANGED <<got, done, ino>>
Read == /\ Act /\ "bad" \in DOMAIN s.node
        /\ LET i == s.node["bad"].ino IN
           /\ s.fifo[i].rd /\ s.fifo[i].buf # <<>>
           /\ got' = [got EXCEPT !["bad"] = @ \o F!Taken(s, i, 1)] /\ s' = F!Take(s, i, 1)
        /\ UNCHANGED <<done, ino>>
Replace == Act /\ ino < 4 /\ ino' = ino + 1 /\ s' = F!Make(F!Unlink(s, "bad"), "bad", "fifo", ino + 1) /\ UNCHANGED <<got, done>>
Die == Act /\ (\E p \in DOMAIN s.run : \E k \in 1..Len(s.run[p]) : s.run[p][k].alive /\ s' = F!Dies(s, p, k)) /\ UNCHANGED <<got, done, ino>>
Reload == Act /\ left = {} /\ s' = F!Reload(s, Dir) /\ UNCHANGED <<got, done, ino>>
Next == Announce \/ Send \/ OpenReader \/ Read \/ Replace \/ Die \/ Reload
Spec == Init /\ [][Next]_vars
Increasing(q) == \A i \in 1..Len(q)-1 : q[i] < q[i+1]
Good == got["good"] = [i \in 1..(IF "good" \in left THEN n - 1 ELSE n) |-> i]
InOrder == Increasing(got["bad"])
Programs == \A p \in DOMAIN s.run : \A k \in 1..Len(s.run[p]) :
              LET r == s.run[p][k] b == r.buf m == IF b # <<>> /\ b[Len(b)] = F!Quit THEN Len(b) - 1 ELSE Len(b) IN
              /\ Increasing(SubSeq(b, 1, m)) /\ \A i \in 1..m : b[i] # F!Quit
              /\ r.closed /\ r.alive => b # <<>> /\ b[Len(b)] = F!Quit
\* as long as it lives a program has got everything, itself or its previous runs
Complete == \A p \in {"sys", "prog"} :
              LET ks == s.run[p] IN
              (\A k \in 1..Len(ks) : ks[k].alive) =>
                {x \in UNION {{ks[k].buf[i] : i \in 1..Len(ks[k].buf)} : k \in 1..Len(ks)} : x # F!Quit} = 1..(IF p \in left THEN n - 1 ELSE n)
Present == {"good", "sys", "prog"} \subseteq DOMAIN s.list
\* what is open is what it says
Handles == \A i \in DOMAIN s.fifo : s.fifo[i].wr <=> \E p \in DOMAIN s.list : s.list[p].type = "fifo" /\ s.list[p].open = i
Counted == \A p \in DOMAIN s.list : s.list[p].errs <= s.list[p].sent
==============================================================================
