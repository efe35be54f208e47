----------------------------- MODULE SlaveTable -----------------------------
(* The list of the masters in the configuration, and the readers it gives.    *)
EXTENDS Integers, Sequences, SequencesExt
Sep1 == {124, 32, 9, 10}         \* between entries
Sep2 == {44, 58}                 \* between the fields of an entry
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Split(_, _)
Split(s, seps) == LET w == {i \in 1..Len(s) : s[i] \in seps} IN
                  IF w = {} THEN <<s>> ELSE <<SubSeq(s, 1, Least(w) - 1)>> \o Split(SubSeq(s, Least(w) + 1, Len(s)), seps)
Entries(text) == SelectSeq(Split(text, Sep1), LAMBDA e : e /= <<>>)
Digits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \in 48..57
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE Val(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48
IsInt(s) == Digits(s) \/ (Len(s) > 1 /\ s[1] \in {43, 45} /\ Digits(Tail(s)))
ToInt(s) == CASE Digits(s) -> Val(s) [] s[1] = 45 -> -Val(Tail(s)) [] OTHER -> Val(Tail(s))
NOptions == 5
\* the given options over the defaults
Options(d, w) == [i \in 1..NOptions |-> IF i <= Len(w) /\ IsInt(w[i]) THEN ToInt(w[i]) ELSE d[i]]
Refused == [ok |-> FALSE]
From(w, i) == SubSeq(w, i, Len(w))
\* d = [port, opts]
Element(e, d) ==
  LET w == Split(e, Sep2) IN
  IF ~IsInt(w[1]) THEN Refused
  ELSE IF ToInt(w[1]) = 3 THEN
     IF Len(w) < 2 \/ Len(w) > 2 + NOptions \/ w[2] = <<>> THEN Refused
     ELSE [ok |-> TRUE, type |-> 3, host |-> <<>>, port |-> <<>>, fifo |-> w[2], opts |-> Options(d.opts, From(w, 3))]
  ELSE IF ToInt(w[1]) \notin {1, 2} \/ Len(w) < 2 \/ Len(w) > 3 + NOptions \/ w[2] = <<>> THEN Refused
  ELSE LET port == IF Len(w) = 2 \/ (Len(w) > 3 /\ w[3] = <<>>) THEN d.port ELSE w[3] IN
       IF port = <<>> THEN Refused
       ELSE [ok |-> TRUE, type |-> ToInt(w[1]), host |-> w[2], port |-> port, fifo |-> <<>>, opts |-> Options(d.opts, From(w, 4))]
NoaaportChannels == 9
Count1(es, n) == Len(SelectSeq(SubSeq(es, 1, n), LAMBDA x : x.ok /\ x.type = 1))
\* mode: which feeds are enabled
Noaaport(mode) == mode % 2 = 1
Masters(mode) == (mode \div 2) % 2 = 1
Input(mode) == (mode \div 4) % 2 = 1
Text(mode, infifo, masters) == IF Input(mode) THEN IF Masters(mode) THEN <<51, 44>> \o infifo \o <<10>> \o masters ELSE <<51, 44>> \o infifo ELSE masters
Table(mode, infifo, masters, d) ==
  LET s == Entries(Text(mode, infifo, masters)) es == [i \in 1..Len(s) |-> Element(s[i], d)] IN
  IF (Masters(mode) /\ masters = <<>>) \/ (Input(mode) /\ infifo = <<>>) THEN Refused
  ELSE IF es = <<>> \/ \E i \in 1..Len(es) : ~es[i].ok THEN Refused
  ELSE [ok |-> TRUE, nr |-> Count1(es, Len(es)),
        t |-> [i \in 1..Len(es) |-> [type |-> es[i].type, host |-> es[i].host, port |-> es[i].port, fifo |-> es[i].fifo, opts |-> es[i].opts,
                                    idx |-> IF es[i].type = 1 THEN Count1(es, i) - 1 + (IF Noaaport(mode) THEN NoaaportChannels ELSE 0) ELSE -1]]]
=============================================================================
