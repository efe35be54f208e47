------------------------------ MODULE Inventory ------------------------------
(***************************************************************************)
(* Deletion by inventory (utils/nbspinvrm): each inventory file lists, one *)
(* in a line, files of one directory, the directory of its first entry.    *)
(* The listed files are deleted, and then the inventory.                   *)
(*                                                                         *)
(* A file is identified by [d, n], a physical directory and a name in it.  *)
(* An entry is [k, d, n, key]: k is "name" (n alone), "full" (a full path  *)
(* whose directory part is d), "partial" (a relative path), "blank", "bad" *)
(* (not a path); key is its text.  Phys(d) is the physical directory of a  *)
(* path, "absent" if it does not exist, "denied" if it cannot be entered.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Phys(_, _),        \* under a configuration of the tree
          Deletable(_, _)    \* can the file be deleted if it exists

VARIABLES tree,     \* the configuration
          test,     \* only show what would be deleted
          fs,       \* the files
          queue,    \* inventories still to be processed
          inv,      \* the one being processed, or None
          out,      \* what was reported as deleted, in order
          err       \* what was reported as a failure
ivars == <<tree, test, fs, queue, inv, out, err>>

None == [on |-> FALSE]
File(d, n) == [d |-> d, n |-> n]

Init(t, files, q, tst) ==
  tree = t /\ test = tst /\ fs = files /\ queue = q /\ inv = None /\ out = <<>> /\ err = {}

\* [key, at: the file it is, ok: it can be opened, lines, rderr: reading it fails after them]
Open ==
  /\ ~inv.on /\ queue # <<>>
  /\ LET i == Head(queue) IN
     IF i.ok /\ i.at \in fs
       THEN inv' = [on |-> TRUE, i |-> i, pos |-> 1, dir |-> ""] /\ err' = err
       ELSE inv' = None /\ err' = err \cup {i.key}
  /\ queue' = Tail(queue) /\ UNCHANGED <<tree, test, fs, out>>

InDir(dir, e) == e.k = "name" \/ (e.k = "full" /\ Phys(tree, e.d) = dir)
Entry == inv.i.lines[inv.pos]
Next1 == [inv EXCEPT !.pos = @ + 1]
Ended == [inv EXCEPT !.pos = Len(inv.i.lines) + 1]

Unlink(file, key) ==
  IF test THEN out' = Append(out, key) /\ UNCHANGED <<fs, err>>
  ELSE IF file \in fs /\ Deletable(tree, file)
         THEN fs' = fs \ {file} /\ out' = Append(out, key) /\ err' = err
         ELSE err' = err \cup {key} /\ UNCHANGED <<fs, out>>

Line ==
  /\ inv.on /\ inv.pos <= Len(inv.i.lines)
  /\ LET e == Entry
         first == inv.dir = ""
         p == Phys(tree, e.d) IN
     CASE e.k = "blank" -> inv' = Next1 /\ UNCHANGED <<fs, out, err>>
       [] e.k = "bad" -> inv' = Next1 /\ err' = err \cup {e.key} /\ UNCHANGED <<fs, out>>
       [] e.k \in {"name", "partial"} /\ first ->      \* the inventory is not valid, and is kept
            inv' = None /\ err' = err \cup {inv.i.key} /\ UNCHANGED <<fs, out>>
       [] e.k = "full" /\ first /\ p = "absent" ->     \* nothing left to delete
            inv' = Ended /\ err' = err \cup {e.d} /\ UNCHANGED <<fs, out>>
       [] e.k = "full" /\ first /\ p = "denied" ->
            inv' = None /\ err' = err \cup {e.d} /\ UNCHANGED <<fs, out>>
       [] e.k = "full" /\ first /\ p \notin {"absent", "denied"} ->
            inv' = [Next1 EXCEPT !.dir = p] /\ Unlink(File(p, e.n), e.key)
       [] e.k \in {"name", "partial", "full"} /\ ~first ->
            /\ inv' = Next1
            /\ IF InDir(inv.dir, e) THEN Unlink(File(inv.dir, e.n), e.key)
               ELSE err' = err \cup {e.key} /\ UNCHANGED <<fs, out>>
  /\ UNCHANGED <<tree, test, queue>>

Close ==
  /\ inv.on /\ inv.pos = Len(inv.i.lines) + 1
  /\ inv' = None
  /\ IF inv.i.rderr THEN err' = err \cup {inv.i.key} /\ UNCHANGED <<fs, out>>
     ELSE Unlink(inv.i.at, inv.i.key)
  /\ UNCHANGED <<tree, test, queue>>

Step == Open \/ Line \/ Close
Finished == ~inv.on /\ queue = <<>>
=============================================================================
