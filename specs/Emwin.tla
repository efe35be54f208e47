------------------------------- MODULE Emwin --------------------------------
(* The stream sent to an EMWIN client: a sequence of packets of 1116 bytes.   *)
EXTENDS Integers, Sequences, SequencesExt
PSIZE == 1116
DATA == 1024
HDR == 80
NULLS == 6
Add(a, b) == a + b
Sum(s) == FoldLeft(Add, 0, s)
Sub(s, i, n) == SubSeq(s, i + 1, i + n)
Zeros(n) == [i \in 1..n |-> 0]
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Smaller(a, b) == IF a < b THEN a ELSE b
Parts(n) == (n + DATA - 1) \div DATA

\* A decimal number on the left of a field, spaces after it; -1 if it is not.
RECURSIVE Digits(_, _, _)
Digits(s, i, v) == IF i > Len(s) THEN v
                   ELSE IF s[i] >= 48 /\ s[i] <= 57 THEN Digits(s, i + 1, v * 10 + s[i] - 48)
                   ELSE IF i > 1 /\ \A k \in i..Len(s) : s[k] = 32 THEN v ELSE -1
Number(s) == IF s[1] = 48 /\ Len(s) > 1 /\ s[2] /= 32 THEN -1 ELSE Digits(s, 1, 0)

PF == <<47, 80, 70>>
PN == <<47, 80, 78, 32>>
PT == <<47, 80, 84, 32>>
CS == <<47, 67, 83, 32>>
FD == <<47, 70, 68>>
\* mm/dd/yyyy hh:mm:ss AM, "9" for a digit
DatePattern == <<57,57,47,57,57,47,57,57,57,57,32,57,57,58,57,57,58,57,57,32,65,77>>
IsDate(s) == \A i \in 1..22 : CASE DatePattern[i] = 57 -> s[i] >= 48 /\ s[i] <= 57
                                [] i = 21 -> s[i] \in {65, 80}
                                [] OTHER -> s[i] = DatePattern[i]
NameField(name) == [i \in 1..12 |-> IF i <= Len(name) THEN Upper(name[i]) ELSE 32]

\* The header (80 bytes) of part n of t with a data sum c of a product.
IsHeader(h, name, n, t, c) ==
  /\ Len(h) = HDR
  /\ Sub(h, 0, 3) = PF /\ Sub(h, 3, 12) = NameField(name)
  /\ Sub(h, 15, 4) = PN /\ Number(Sub(h, 19, 5)) = n
  /\ Sub(h, 24, 4) = PT /\ Number(Sub(h, 28, 5)) = t
  /\ Sub(h, 33, 4) = CS /\ Number(Sub(h, 37, 6)) = c
  /\ Sub(h, 43, 3) = FD /\ IsDate(Sub(h, 46, 22))
  /\ Sub(h, 68, 12) = <<32,32,32,32,32,32,32,32,32,32,13,10>>

\* What the product with this file sends as its data part n.
PartData(file, n) == LET a == (n - 1) * DATA k == Smaller(DATA, Len(file) - a) IN Sub(file, a, k) \o Zeros(DATA - k)
IsPacket(p, name, file, n) ==
  LET q == [i \in 1..PSIZE |-> 255 - p[i]] d == Sub(q, NULLS + HDR, DATA) IN
  /\ Sub(q, 0, NULLS) = Zeros(NULLS) /\ Sub(q, NULLS + HDR + DATA, NULLS) = Zeros(NULLS)
  /\ d = PartData(file, n)
  /\ IsHeader(Sub(q, NULLS, HDR), name, n, Parts(Len(file)), Sum(d))
\* The whole stream of one product.
IsStream(s, name, file) ==
  /\ Len(s) = PSIZE * Parts(Len(file))
  /\ \A n \in 1..Parts(Len(file)) : IsPacket(Sub(s, (n - 1) * PSIZE, PSIZE), name, file, n)

\* The client's side: what a receiver recovers from a stream.
RECURSIVE Content(_, _)
Content(s, n) == IF n * PSIZE > Len(s) THEN <<>>
                 ELSE [i \in 1..DATA |-> 255 - s[(n - 1) * PSIZE + NULLS + HDR + i]] \o Content(s, n + 1)
Recovers(s, file) == Content(s, 1) = file \o Zeros(Parts(Len(file)) * DATA - Len(file))
=============================================================================
