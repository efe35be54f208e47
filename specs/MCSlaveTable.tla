---------------------------- MODULE MCSlaveTable ----------------------------
(* Every text over a small alphabet, written one character at a time.         *)
EXTENDS SlaveTable, TLC, FiniteSets
CONSTANTS MaxLen
Chars == {49, 51, 45, 44, 124, 97}          \* 1 3 - , | a
D == [port |-> <<112>>, opts |-> <<10, 20, 30, 40, 50>>]
VARIABLE text
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c)
Spec == Init /\ [][Next]_text
T == Table(2, <<>>, text, D)
Join(t, i) == IF i > Len(t) THEN <<>> ELSE t[i]
\* one reader per entry, in order; each product reader has its own channel
OnePerEntry == T.ok => Len(T.t) = Len(Entries(text))
Channels == T.ok => LET ones == {i \in 1..Len(T.t) : T.t[i].type = 1} IN
              /\ Cardinality(ones) = T.nr /\ {T.t[i].idx : i \in ones} = 0..(T.nr - 1)
              /\ \A i \in 1..Len(T.t) : T.t[i].type /= 1 => T.t[i].idx = -1
\* every reader is usable, and the defaults are used for what is not given
Usable == T.ok => \A i \in 1..Len(T.t) : LET x == T.t[i] IN
            IF x.type = 3 THEN x.fifo /= <<>> ELSE x.type \in {1, 2} /\ x.host /= <<>> /\ x.port /= <<>>
Defaults == T.ok => \A i \in 1..Len(T.t) : Len(Split(Entries(text)[i], Sep2)) = 2 => T.t[i].opts = D.opts
\* more separators change nothing
Separators == Table(2, <<>>, <<124>> \o text \o <<32, 10>>, D) = IF text = <<>> THEN Refused ELSE T
\* the readers of the noaaport channels come first
Shifted == T.ok => LET u == Table(3, <<>>, text, D) IN \A i \in 1..Len(T.t) : T.t[i].type = 1 => u.t[i].idx = T.t[i].idx + NoaaportChannels
Fifo == T.ok => LET u == Table(6, <<102>>, text, D) IN u.ok /\ Len(u.t) = Len(T.t) + 1 /\ u.t[1].type = 3 /\ u.t[1].fifo = <<102>> /\ Tail(u.t) = T.t
=============================================================================
