------------------------------ MODULE MCInfifo ------------------------------
(* Several inserters, each of which writes its records in pieces into the     *)
(* fifo, and the daemon that reads them.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Writers, Records, Pieces, Capacity, Locked
\* a piece: <<writer, record, piece>>
VARIABLES lock, todo, pipe, buf, taken
vars == <<lock, todo, pipe, buf, taken>>
Init == lock = 0 /\ todo = [w \in Writers |-> <<1, 0>>] /\ pipe = <<>> /\ buf = <<>> /\ taken = <<>>
Done(w) == todo[w][1] > Records
Acquire(w) == Locked /\ lock = 0 /\ ~Done(w) /\ todo[w][2] = 0 /\ lock' = w /\ todo' = [todo EXCEPT ![w][2] = 1] /\ UNCHANGED <<pipe, buf, taken>>
Begin(w) == ~Locked /\ ~Done(w) /\ todo[w][2] = 0 /\ todo' = [todo EXCEPT ![w][2] = 1] /\ UNCHANGED <<lock, pipe, buf, taken>>
Write(w) == /\ (Locked => lock = w) /\ ~Done(w) /\ todo[w][2] \in 1..Pieces /\ Len(pipe) < Capacity
            /\ pipe' = Append(pipe, <<w, todo[w][1], todo[w][2]>>)
            /\ todo' = [todo EXCEPT ![w] = IF @[2] = Pieces THEN <<@[1] + 1, 0>> ELSE <<@[1], @[2] + 1>>]
            /\ lock' = IF Locked /\ todo[w][2] = Pieces THEN 0 ELSE lock
            /\ UNCHANGED <<buf, taken>>
Read == /\ pipe /= <<>> /\ pipe' = Tail(pipe)
        /\ LET b == Append(buf, Head(pipe)) IN
           IF Len(b) = Pieces THEN taken' = Append(taken, b) /\ buf' = <<>> ELSE buf' = b /\ UNCHANGED taken
        /\ UNCHANGED <<lock, todo>>
Next == (\E w \in Writers : Acquire(w) \/ Begin(w) \/ Write(w)) \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Whole == \A i \in 1..Len(taken) : \A k \in 1..Pieces : taken[i][k] = <<taken[i][1][1], taken[i][1][2], k>>
Of(w) == SelectSeq(taken, LAMBDA b : b[1][1] = w)
InOrder == \A w \in Writers : \A i \in 1..Len(Of(w)) : Of(w)[i][1][2] = i
AllTaken == <>(Len(taken) = Records * Cardinality(Writers))
=============================================================================
