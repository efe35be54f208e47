----------------------------- MODULE MCInventory -----------------------------
(* All inventories of a few lines over two directories, a link to one of     *)
(* them, a missing and a forbidden one, and a file that cannot be deleted.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLines, MaxInvs
VARIABLES tree, test, fs, queue, inv, out, err, fs0, q0
mv == <<tree, test, fs, queue, inv, out, err, fs0, q0>>

PhysM(t, d) == CASE d \in {"A", "lnkA"} -> "A" [] d = "B" -> "B" [] d = "none" -> "absent"
                 [] d = "deny" -> "denied" [] OTHER -> "absent"
DelM(t, f) == f.n # "keep"
N == INSTANCE Inventory WITH Phys <- PhysM, Deletable <- DelM

F(d, n) == [d |-> d, n |-> n]
Names == {"x", "keep"}
All == {F(d, n) : d \in {"A", "B", "W"}, n \in Names} \cup {F("W", "i1"), F("W", "i2")}
E(k, d, n) == [k |-> k, d |-> d, n |-> n, key |-> k \o ":" \o d \o "/" \o n]
Entries == {E("full", d, n) : d \in {"A", "lnkA", "B"}, n \in Names} \cup {E("full", d, "x") : d \in {"none", "deny"}}
           \cup {E("name", "", n) : n \in Names} \cup {E("name", "", "gone"), E("partial", "../B", "x"), E("blank", "", ""), E("bad", "", "")}
Lists == UNION {[1..k -> Entries] : k \in 0..MaxLines}
Inv(n, ok, l, r) == [key |-> n, at |-> F("W", n), ok |-> ok, lines |-> l, rderr |-> r]
Queues == {<<Inv("i1", TRUE, l, r)>> : l \in Lists, r \in BOOLEAN}
          \cup (IF MaxInvs < 2 THEN {} ELSE
                {<<Inv("i1", TRUE, l, FALSE), Inv("i2", ok, m, FALSE)>> : l \in Lists, m \in {<<a>> : a \in Entries}, ok \in BOOLEAN})
Init == /\ q0 \in Queues /\ fs0 = All
        /\ \E t \in BOOLEAN : N!Init("t", All, q0, t)
Next == N!Step /\ UNCHANGED <<fs0, q0>>
Spec == Init /\ [][Next]_mv /\ WF_mv(Next)

\* the directory of an inventory, and the files of it that are listed
FirstFull(l) == LET S == {i \in 1..Len(l) : l[i].k \notin {"blank", "bad"}}
                IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
DirOf(l) == LET i == FirstFull(l) IN IF i = 0 \/ l[i].k # "full" THEN "absent" ELSE PhysM("t", l[i].d)
Listed(l) == IF DirOf(l) \in {"absent", "denied"} THEN {}
             ELSE {F(DirOf(l), l[i].n) : i \in {j \in 1..Len(l) : l[j].k = "name" \/ (l[j].k = "full" /\ PhysM("t", l[j].d) = DirOf(l))}}
AllListed == UNION {Listed(q0[i].lines) : i \in 1..Len(q0)}
Done == {i \in 1..Len(q0) : i < Len(q0) - Len(queue) \/ (i = Len(q0) - Len(queue) /\ ~inv.on)}
OnlyListed == fs0 \ fs \subseteq AllListed \cup {q0[i].at : i \in 1..Len(q0)}
TestDeletesNothing == test => fs = fs0
AllGone == ~test => \A i \in Done : q0[i].ok =>
             \A f \in Listed(q0[i].lines) : DelM("t", f) => f \notin fs
\* the inventory is deleted only when all of it has been processed
InventoryLast == \A i \in 1..Len(q0) : q0[i].at \notin fs =>
                   /\ i \in Done /\ ~q0[i].rderr
                   /\ \A f \in Listed(q0[i].lines) : DelM("t", f) => f \notin fs
InventoryGone == ~test => \A i \in Done :
   (q0[i].ok /\ ~q0[i].rderr /\ DirOf(q0[i].lines) # "denied"
     /\ (LET k == FirstFull(q0[i].lines) IN k = 0 \/ q0[i].lines[k].k = "full")) => q0[i].at \notin fs
Reported == \A i \in Done : q0[i].at \in fs /\ ~test => (q0[i].key \in err \/ DirOf(q0[i].lines) = "denied")
LeftReported == ~test => \A i \in Done : \A j \in 1..Len(q0[i].lines) :
                  LET e == q0[i].lines[j] IN
                  (e.k \in {"name", "full"} /\ Listed(q0[i].lines) # {} /\ q0[i].ok
                    /\ F(DirOf(q0[i].lines), e.n) \in fs /\ N!InDir(DirOf(q0[i].lines), e)) => e.key \in err
Ends == <>(N!Finished)
=============================================================================
