------------------------------- MODULE Infifo -------------------------------
(* The records of the input fifo: 4 bytes with the size of the text, the text *)
(*    seq type cat code channel name path                                     *)
(* and the end of line.                                                       *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS MaxText,     \* the largest text that is read at all
          MaxName, MaxBase, MaxPath
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
Where(s, c) == {i \in 1..Len(s) : s[i] = c}
RECURSIVE Words(_)
Words(s) == LET w == Where(s, 32) IN IF w = {} THEN <<s>> ELSE <<SubSeq(s, 1, Least(w) - 1)>> \o Words(SubSeq(s, Least(w) + 1, Len(s)))
IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \in 48..57
\* a number written in the usual way: no sign, no zeros before it
Plain(s) == IsDigits(s) /\ (Len(s) = 1 \/ s[1] /= 48)
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE Val(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48
Byte(s) == Plain(s) /\ Len(s) <= 3 /\ Val(s) <= 255
\* a number of 32 bits as two halves; <<-1>> if it is larger
RECURSIVE Halves(_)
Halves(s) == IF s = <<>> THEN <<0, 0>>
             ELSE LET h == Halves(SubSeq(s, 1, Len(s) - 1)) IN
                  IF h = <<-1>> THEN h
                  ELSE LET lo == h[2] * 10 + s[Len(s)] - 48 hi == h[1] * 10 + lo \div 65536 IN
                       IF hi > 65535 THEN <<-1>> ELSE <<hi, lo % 65536>>
NotANumber(s) == s = <<>> \/ (s[1] \notin 48..57 /\ ~(Len(s) > 1 /\ s[1] \in {43, 45} /\ s[2] \in 48..57))
Negative(s) == Len(s) > 1 /\ s[1] = 45 /\ IsDigits(Tail(s)) /\ \E i \in 2..Len(s) : s[i] /= 48
TooLarge(s) == Plain(s) /\ Len(s) <= 9 /\ ~Byte(s)
BaseOf(p) == IF Where(p, 47) = {} THEN p ELSE SubSeq(p, Greatest(Where(p, 47)) + 1, Len(p))

Smaller5(n) == IF n < 5 THEN n ELSE 5
\* "good": must be taken; "bad": must be skipped; otherwise it is not specified.
Class(text) ==
  LET w == Words(text) IN
  IF \E i \in 1..Len(text) : text[i] \in {0, 9, 10, 11, 12, 13} THEN "other"
  ELSE IF \E i \in 1..Len(w) : w[i] = <<>> THEN "other"
  ELSE IF (\E i \in 1..Smaller5(Len(w)) : NotANumber(w[i])) \/ (Len(w) < 7) THEN "bad"
  ELSE IF Len(w) > 7 THEN "other"
  ELSE IF \E i \in 2..5 : Negative(w[i]) \/ TooLarge(w[i]) THEN "bad"
  ELSE IF ~(Plain(w[1]) /\ Halves(w[1]) /= <<-1>> /\ \A i \in 2..5 : Byte(w[i])) THEN "other"
  ELSE IF Len(w[6]) > MaxName \/ Len(w[7]) > MaxPath \/ Len(BaseOf(w[7])) > MaxBase THEN "bad"
  ELSE IF BaseOf(w[7]) = <<>> \/ w[7][1] /= 47 THEN "other" ELSE "good"
Fields(text) == LET w == Words(text) IN
  [seq |-> Halves(w[1]), codes |-> <<Val(w[2]), Val(w[3]), Val(w[4]), Val(w[5])>>, fname |-> w[6], path |-> w[7]]
=============================================================================
