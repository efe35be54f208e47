----------------------------- MODULE MCSlaveNbs -----------------------------
(* Any sequence of the packets of the products of a master, in any order,     *)
(* repeated, with any of them missing, before any others.                     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sizes,      \* numbers of blocks of the products
          Dup         \* whether products already there are refused
Name(p) == <<97, 95, 98 + p, 46, 99>>
RefuseM(n) == n = Name(3)
ExpandM(n) == FALSE
S == INSTANCE SlaveNbs WITH Refuse <- RefuseM, Expand <- ExpandM
Prods == 1..Len(Sizes)
VARIABLES act, exists, pre, last, run, bal
vars == <<act, exists, pre, last, run, bal>>
Pkt(p, k) == [seq |-> <<0, p>>, codes |-> <<p>>, name |-> IF p = 4 THEN <<97>> ELSE Name(p), zip |-> 0, num |-> Sizes[p], blk |-> k, part |-> <<p, k>>]
Init == act = S!Idle /\ exists = {} /\ pre = {} /\ last = S!None /\ run = <<0, 0>> /\ bal = 0
Feed(p, k) == LET r == S!Take(act, Pkt(p, k), exists, Dup) IN
  /\ act' = r.a /\ last' = r.e /\ pre' = exists
  /\ exists' = exists \cup {S!Path(x.name) : x \in {r.e.out[i] : i \in {i \in 1..Len(r.e.out) : r.e.out[i].ok}}}
  \* what was fed without interruption from the beginning of p
  /\ run' = IF k = 1 THEN <<p, 1>> ELSE IF run = <<p, k - 1>> THEN <<p, k>> ELSE <<0, 0>>
  /\ bal' = (r.e.tx - r.e.mi - r.e.co - r.e.re) + (IF act.on THEN 1 ELSE 0) - (IF r.a.on THEN 1 ELSE 0)
\* the processor removes old files
Expire == \E x \in exists : run' = <<0, 0>> /\ exists' = exists \ {x} /\ act' = act /\ pre' = {} /\ last' = S!None /\ bal' = 0
SizesDef == <<1, 2, 3, 2>>
Next == (\E p \in Prods : \E k \in 1..Sizes[p] : Feed(p, k)) \/ Expire
Spec == Init /\ [][Next]_vars
Whole(p) == [k \in 1..Sizes[p] |-> <<p, k>>]
\* what is delivered complete is exactly a product of the master
Intact == \A i \in 1..Len(last.out) : last.out[i].ok =>
            \E p \in Prods : /\ last.out[i].parts = Whole(p) /\ last.out[i].seq = <<0, p>> /\ last.out[i].name = Name(p) /\ last.out[i].codes = <<p>>
\* what arrives whole is delivered, unless it is refused or already there
Arrives == (run[1] \in {1, 2} /\ run[2] = Sizes[run[1]]) =>
             (Len(last.out) > 0 /\ last.out[Len(last.out)].ok /\ last.out[Len(last.out)].parts = Whole(run[1])) \/ S!Path(Name(run[1])) \in pre
\* every product begun is accounted for: completed, missed, rejected, in progress, or already there (then bal is 1)
Accounted == bal \in {0, 1} /\ (bal = 1 => last.out = <<>> \/ ~last.out[Len(last.out)].ok)
NotTwice == Len(last.out) <= 2
=============================================================================
