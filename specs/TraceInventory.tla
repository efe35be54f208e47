---------------------------- MODULE TraceInventory ----------------------------
(* Validates runs of nbspinvrm: the first event of a trace is the tree and the *)
(* inventories, the second what was left of the tree and what was reported.    *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, TLCExt
CONSTANT TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, tree, test, fs, queue, inv, out, err
tvars == <<tr, l, tree, test, fs, queue, inv, out, err>>
Meta == Events[Index[tr].a]
Ev == Events[Index[tr].a + l]
More == l < Index[tr].n
PhysT(t, d) == t.phys[d]
DelT(t, f) == f.d \notin t.prot /\ f.n \notin t.busy
N == INSTANCE Inventory WITH Phys <- PhysT, Deletable <- DelT
SetOf(s) == {s[i] : i \in 1..Len(s)}
Init == /\ tr \in 1..Len(Index) /\ l = 1
        /\ N!Init([phys |-> Meta.phys, prot |-> SetOf(Meta.prot), busy |-> SetOf(Meta.busy)],
                  SetOf(Meta.fs), Meta.queue, Meta.test)
NotExplained == FreeAt = 0 \/ l <= FreeAt
Work == N!Step /\ UNCHANGED <<tr, l>>
Result == /\ More /\ N!Finished /\ l' = l + 1
          /\ l = FreeAt \/
             /\ Ev.changed = <<>> /\ Ev.escapes = <<>>
             /\ SetOf(Ev.fs) = fs
             /\ Ev.status \in {0, 1}
             /\ Ev.out = IF Meta.verbose THEN out ELSE <<>>
             /\ (Meta.verbose \/ ~Meta.silent) => err \subseteq SetOf(Ev.err)
             /\ Meta.silent => Ev.stderr = 0
          /\ UNCHANGED <<tr, tree, test, fs, queue, inv, out, err>>
Done == ~More /\ UNCHANGED tvars
Next == Work \/ Result \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
