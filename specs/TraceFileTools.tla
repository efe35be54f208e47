--------------------------- MODULE TraceFileTools ----------------------------
(* Validates what the real programs did with a directory of files.            *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS TraceFile, IndexFile, FreeAt
Events == ndJsonDeserialize(TraceFile)
Index  == ndJsonDeserialize(IndexFile)
VARIABLES tr, l, fs     \* fs: what each file may contain
vars == <<tr, l, fs>>
F == INSTANCE FileTools WITH CCB <- 24, Page <- 65536, BigPage <- 4194304, ZPage <- 4000, Piece <- 5200
Ev == Events[Index[tr].a + l - 1]
More == l <= Index[tr].n
Free == l = FreeAt
NotExplained == FreeAt = 0 \/ l <= FreeAt
Adv == l' = l + 1 /\ UNCHANGED tr
None == [there |-> FALSE, f |-> <<>>]
Has(f) == [there |-> TRUE, f |-> f]
At(s, n) == IF n \in DOMAIN s THEN s[n] ELSE {None}
Set(s, n, v) == [m \in DOMAIN s \cup {n} |-> IF m = n THEN v ELSE s[m]]
Init == tr \in 1..Len(Index) /\ l = 1 /\ fs = <<>>
Put == More /\ Ev.e = "put" /\ fs' = Set(fs, Ev.n, {Has(Ev.f)}) /\ Adv

Run(c, s) ==
  IF ~c.valid THEN F!Fail
  ELSE LET i == CHOOSE i \in At(s, c.in) : TRUE IN
  IF ~i.there THEN F!Fail
  ELSE CASE c.tool = "pipe" -> F!Pipe(c.o, i.f)
         [] c.tool = "file" -> F!File(c.o, i.f)
         [] c.tool = "z"    -> F!Zip(c.level, i.f)
         [] c.tool = "unz"  -> F!Unzip(c.skip, c.n, i.f)
\* no data are written when it fails; the file itself may have been made, or made empty
Out(c, s, r) ==
  IF c.out = "" THEN s
  ELSE Set(s, c.out, IF r.ok THEN {Has(F!After(c.append, b.f, r)) : b \in At(s, c.out)}
                     ELSE At(s, c.out) \cup {Has(<<>>) : b \in {b \in At(s, c.out) : ~b.there \/ ~c.append}})
RECURSIVE All(_, _, _, _)
\* the commands, one after the other; <<files, standard output, how it ended>>
All(q, s, o, ok) ==
  IF q = <<>> THEN <<s, o, ok>>
  ELSE IF Head(q).tool = "stop" THEN <<s, o, FALSE>>
  ELSE LET c == Head(q)  r == Run(c, s) IN
       All(Tail(q), Out(c, s, r), IF c.out = "" THEN F!Cat(o, r.out) ELSE o, IF Ev.batch THEN ok ELSE r.ok)
Cmds == /\ More /\ Ev.e = "run"
        /\ LET a == All(Ev.cmds, fs, <<>>, TRUE) IN
           /\ Free \/ Ev.ok = a[3]
           /\ Free \/ Ev.stdout = a[2]
           /\ \A i \in 1..Len(Ev.post) : Free \/ [there |-> Ev.post[i].there, f |-> Ev.post[i].f] \in At(a[1], Ev.post[i].n)
           /\ \A n \in DOMAIN a[1] : n \in DOMAIN fs \/ \E i \in 1..Len(Ev.post) : Ev.post[i].n = n
           /\ fs' = [n \in DOMAIN a[1] |->
                       IF \E i \in 1..Len(Ev.post) : Ev.post[i].n = n
                       THEN LET i == CHOOSE i \in 1..Len(Ev.post) : Ev.post[i].n = n IN {[there |-> Ev.post[i].there, f |-> Ev.post[i].f]}
                       ELSE a[1][n]]
        /\ Adv
\* nothing else was touched
Look == /\ More /\ Ev.e = "look" /\ UNCHANGED fs
        /\ Free \/ \A i \in 1..Len(Ev.files) : Has(Ev.files[i].f) \in At(fs, Ev.files[i].n)
        /\ Free \/ \A n \in DOMAIN fs : None \in fs[n] \/ (\E i \in 1..Len(Ev.bad) : Ev.bad[i] = n) \/ \E i \in 1..Len(Ev.files) : Ev.files[i].n = n
        /\ Adv
End == ~More /\ UNCHANGED vars
Next == Put \/ Cmds \/ Look \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
